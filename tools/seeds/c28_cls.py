PROPERTY = 'C28'
NEEDS = 'a keyword that gives a result class of its own to a subresult and then enters a schema of another resource below it'
WHAT = 'The class a keyword gives for a subtree no longer applies below a change of schema.'
EDITS = [('jschon/jsonschema.py', """(cls or self.__class__)(
            schema,""", """(cls or (self.__class__ if schema is self.schema else Result))(
            schema,""")]
DEMO = """
import metaschemas

from jschon import JSON, JSONSchema, URI
from jschon.jsonschema import Result
class Mine(Result):
    pass
C = metaschemas.catalog('2020-12', name='n')
s = JSONSchema({'$schema': 'https://json-schema.org/draft/2020-12/schema', 'allOf': [{'properties': {'a': {'title': 'x'}}}]}, catalog=C)
r = Result(s, JSON({'a': 1}))
with r(r.instance, 'x', cls=Mine) as sub:
    s.evaluate(r.instance, sub)
n = sub
while n.children:
    assert type(n) is Mine, n
    n = list(n.children.values())[0]
assert type(n) is Mine, n
"""
