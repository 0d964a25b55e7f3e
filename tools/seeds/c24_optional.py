PROPERTY='C24'
NEEDS='a metaschema that lists a known vocabulary with false'
WHAT='vocabularies that a metaschema lists as optional are not used'
EDITS=[('jschon/vocabulary/core.py',
  'parentschema.kwclasses.update(vocabulary.kwclasses)',
  'parentschema.kwclasses.update(vocabulary.kwclasses if vocab_required else {})')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

import metaschemas, json
from jschon.catalog import Source
class S(Source):
    def __call__(self, path):
        return {"$schema": "https://json-schema.org/draft/2020-12/schema", "$id": "http://m.com/m", "$vocabulary": {
          "https://json-schema.org/draft/2020-12/vocab/core": True, "https://json-schema.org/draft/2020-12/vocab/validation": False}}
cat.add_uri_source(URI('http://m.com/'), S())
base = 'https://json-schema.org/draft/2020-12/vocab/'
cat.create_metaschema(URI('http://m.com/m'), URI(base + 'core'), URI(base + 'applicator'))
s = JSONSchema({"type": "null"}, catalog=cat, metaschema_uri=URI('http://m.com/m'))
assert not s.evaluate(JSON(1)).valid
'''
