PROPERTY='C16'
NEEDS='a $dynamicRef to a dynamic anchor of another resource, overridden in the dynamic scope'
WHAT='only dynamic references within a resource are dynamic'
EDITS=[('jschon/vocabulary/core.py',
  '            self.dynamic = True',
  '            self.dynamic = self.refschema.resource_rootschema is self.parentschema.resource_rootschema')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

doc = {"$id": "http://e.com/a", "$ref": "b", "$defs": {
 "here": {"$dynamicAnchor": "d", "type": "null"},
 "b": {"$id": "http://e.com/b", "$dynamicRef": "c#d"},
 "c": {"$id": "http://e.com/c", "$dynamicAnchor": "d"}}}
s = schema(doc)
assert s.evaluate(JSON(None)).valid and not s.evaluate(JSON(1)).valid
'''
