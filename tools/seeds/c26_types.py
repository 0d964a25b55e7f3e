PROPERTY='C26'
NEEDS='a validator registered for numbers and an instance that is an integer or of a type it does not cover'
WHAT='validators are called for strings whatever types they cover'
EDITS=[('jschon/vocabulary/format.py',
  '        if self.validator and instance.type in self.validates_types:',
  '        if self.validator and (instance.type in self.validates_types or instance.type == "string" and len(self.validates_types) > 1):')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

from jschon.vocabulary.format import format_validator
@format_validator('numarr', instance_types=("number", "array"))
def v(x):
    raise ValueError
cat.enable_formats("numarr")
s = schema({"format": "numarr"})
assert s.evaluate(JSON("x")).valid and not s.evaluate(JSON(1)).valid
'''
