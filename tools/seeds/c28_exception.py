PROPERTY = 'C28'
NEEDS = 'a keyword that discards a subresult and raises below it, where another keyword catches the exception'
WHAT = 'A discarded subresult stays in the tree when it is left by an exception.'
EDITS = [('jschon/jsonschema.py', """        try:
            yield child
        finally:
            if child._discard:
                del self.children[key, instance.path]""", """        yield child

        if child._discard:
            del self.children[key, instance.path]""")]
DEMO = """
import metaschemas

from jschon import JSON, JSONSchema, URI
from jschon.jsonschema import Result
C = metaschemas.catalog('2020-12', name='n')
s = JSONSchema({'$schema': 'https://json-schema.org/draft/2020-12/schema', 'title': 'x'}, catalog=C)
r = Result(s, JSON(1))
try:
    with r(r.instance, 'x') as sub:
        sub.fail('no')
        sub.discard()
        raise KeyError
except KeyError:
    pass
assert not r.children
"""
