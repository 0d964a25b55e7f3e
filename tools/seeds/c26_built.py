PROPERTY='C26'
NEEDS='a format enabled after a schema with it was built'
WHAT='formats enabled later also count for schemas built before'
EDITS=[('jschon/vocabulary/format.py', 'if parentschema.catalog.is_format_enabled(value):', 'if value in _format_validators:'),
 ('jschon/vocabulary/format.py',
  'if self.validator and instance.type in self.validates_types:',
  'if self.validator and self.parentschema.catalog.is_format_enabled(self.json.data) and instance.type in self.validates_types:')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

from jschon.vocabulary.format import format_validator
@format_validator('mine')
def v(x):
    raise ValueError
s = schema({"format": "mine"})
assert s.evaluate(JSON("x")).valid
cat.enable_formats("mine")
assert s.evaluate(JSON("x")).valid
assert not schema({"format": "mine"}).evaluate(JSON("x")).valid
'''
