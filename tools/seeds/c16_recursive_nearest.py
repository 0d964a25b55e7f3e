PROPERTY='C16'
NEEDS='three resources with recursive anchors in scope and one without between them'
WHAT='$recursiveRef stops at the first resource in the dynamic scope without a recursive anchor'
EDITS=[('jschon/vocabulary/legacy.py',
  '                target = target.parent',
  "                target = target.parent if base_anchor or '$id' not in target.schema.keywords else None")]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

doc = {"$id": "http://e.com/a", "$recursiveAnchor": True, "$ref": "b", "type": ["array", "null"], "$defs": {
 "b": {"$id": "http://e.com/b", "$ref": "c"},
 "c": {"$id": "http://e.com/c", "$recursiveAnchor": True, "items": {"$recursiveRef": "#"}}}}
assert schema(doc, '2019-09').evaluate(JSON([None])).valid
assert not schema(doc, '2019-09').evaluate(JSON([1])).valid
'''
