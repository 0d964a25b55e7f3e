PROPERTY='C19'
NEEDS='two contains keywords that apply to one array, matching different items'
WHAT='only the last contains annotation counts for unevaluatedItems'
EDITS=[('jschon/vocabulary/applicator.py', 'contains_indices |= set(contains_annotation)', 'contains_indices = set(contains_annotation)')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

d = {"contains": {"type": "null"}, "allOf": [{"contains": {"type": "number"}}], "unevaluatedItems": False}
assert ok(d, [None, 1]) and not ok(d, [None, 1, "x"])
'''
