PROPERTY='C19'
NEEDS='unevaluatedItems in 2019-09 beside contains'
WHAT='unevaluatedItems of 2019-09 takes partial items results only from its own schema object'
EDITS=[('jschon/vocabulary/legacy.py',
  '            if type(items_annotation) is int and items_annotation > last_evaluated_item:\n                last_evaluated_item = items_annotation',
  '            if type(items_annotation) is int:\n                last_evaluated_item = items_annotation')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

d = {"allOf": [{"items": [True]}], "items": [True, True], "unevaluatedItems": False}
assert ok(d, [1, 2], '2019-09')
d = {"items": [True], "anyOf": [{"items": [True, True]}, {"items": [True]}], "unevaluatedItems": False}
assert ok(d, [1, 2], '2019-09')
'''
