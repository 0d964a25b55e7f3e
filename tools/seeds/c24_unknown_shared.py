PROPERTY='C24'
NEEDS='a keyword unknown in one dialect and defined in another of the same core vocabulary that is created later'
WHAT='unknown keywords of one metaschema become known to its core vocabulary'
EDITS=[('jschon/vocabulary/__init__.py',
  '            self.kwclasses[key] = unknown_class\n',
  '            self.kwclasses[key] = self.core_vocabulary.kwclasses[key] = unknown_class\n')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid


from jschon.catalog import Source
base = 'https://json-schema.org/draft/2020-12/vocab/'
class S(Source):
    def __call__(self, path):
        return {"$schema": "https://json-schema.org/draft/2020-12/schema", "$id": "http://m.com/" + path, "$vocabulary": {base + "core": True, **({base + "validation": True} if path == "b" else {})}}
cat.add_uri_source(URI('http://m.com/'), S())
s = JSONSchema({"type": "null"}, catalog=cat, metaschema_uri=URI('http://m.com/a'))
assert s.evaluate(JSON(1)).valid
s = JSONSchema({"type": "null"}, catalog=cat, metaschema_uri=URI('http://m.com/b'))
assert not s.evaluate(JSON(1)).valid
'''
