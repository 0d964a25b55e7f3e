PROPERTY='C17'
NEEDS='an array with equal items that are not next to each other once hashed; containers'
WHAT='uniqueItems compares containers only with the item before them'
EDITS=[('jschon/vocabulary/validation.py',
  '            if item not in uniquified:\n',
  '            if item not in (uniquified if item.type not in ("array", "object") else uniquified[-2:]):\n')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

assert not ok({"uniqueItems": True}, [[1], 2, 3, [1]])
assert not ok({"uniqueItems": True}, [[1], 2, [1]])
'''
