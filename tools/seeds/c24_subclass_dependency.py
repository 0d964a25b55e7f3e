PROPERTY = 'C24'
NEEDS = 'keywords of which one is a subclass of another, and a third that depends on the first, in this order: dependent, superclass, subclass'
WHAT = 'The order of keywords forgets a dependency on a keyword whose class is derived from that of a keyword already placed.'
EDITS = [('jschon/jsonschema.py', '                    for deps in dependencies.values():\n                        try:\n                            deps.remove(kwclass)\n                        except ValueError:\n                            pass', '                    for deps in dependencies.values():\n                        deps[:] = [d for d in deps if d is not kwclass and not issubclass(d, kwclass)]')]
DEMO = r'''
import metaschemas

from jschon import JSON, JSONSchema, URI
C = metaschemas.catalog('2020-12', name='n')
D = 'https://json-schema.org/draft/2020-12/schema'

from jschon.vocabulary import Keyword
class A(Keyword):
    key = 'x-base'
    def evaluate(self, instance, result):
        result.annotate('a')
class B(A):
    key = 'x-first'
class S(Keyword):
    key = 'x-second'
    depends_on = 'x-first', 'x-none'
    def evaluate(self, instance, result):
        result.annotate('no' if result.sibling(instance, 'x-first') is None else 'yes')
import itertools
V = URI('http://x.example/voc')
C.create_vocabulary(V, A, B, S)
import json, os, tempfile
from jschon import LocalSource
with tempfile.TemporaryDirectory() as t:
    open(os.path.join(t, 'meta'), 'w').write(json.dumps({'$schema': D, '$id': 'http://x.example/meta', '$vocabulary': {'https://json-schema.org/draft/2020-12/vocab/core': True, str(V): True}}))
    C.add_uri_source(URI('http://x.example/'), LocalSource(t))
    for p in itertools.permutations(['x-base', 'x-first', 'x-second']):
        s = JSONSchema(dict({'$schema': 'http://x.example/meta'}, **{k: 1 for k in p}), catalog=C)
        r = s.evaluate(JSON(1))
        got = [n.annotation for n in r.children.values() if n.key == 'x-second']
        assert got == ['yes'], (p, got)
'''
