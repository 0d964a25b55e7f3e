PROPERTY='C17'
NEEDS='minContains greater than 0 with maxContains failing and no match'
WHAT='minContains 0 lifts the failure of contains also where maxContains is present'
EDITS=[('jschon/vocabulary/validation.py',
  '            valid = contains_count >= self.json\n\n            if valid and not contains.valid:\n                max_contains',
  '            valid = contains_count >= self.json or not instance\n\n            if valid and not contains.valid:\n                max_contains')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

assert ok({"contains": {"type": "null"}, "minContains": 0}, [])
assert not ok({"contains": {"type": "null"}, "minContains": 2}, [])
'''
