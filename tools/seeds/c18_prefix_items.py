PROPERTY='C18'
NEEDS='prefixItems longer than the instance array together with items under another keyword'
WHAT='a oneOf with more than two passing subschemas passes when their number is odd'
EDITS=[('jschon/vocabulary/applicator.py', '        if len(valid_indices) != 1:', '        if len(valid_indices) % 2 != 1:')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

assert ok({"oneOf": [True, False]}, 1) and not ok({"oneOf": [True, True]}, 1)
assert not ok({"oneOf": [True, True, True]}, 1)
'''
