PROPERTY='C15'
NEEDS='a relative $ref inside a resource embedded in another'
WHAT='a reference without fragment is resolved against the base URI of the document'
EDITS=[('jschon/vocabulary/core.py',
  '        uri = URI(self.json.data)\n'
  '        if not uri.has_absolute_base():\n'
  '            if (base_uri := self.parentschema.base_uri) is not None:\n'
  '                uri = uri.resolve(base_uri)\n'
  '            else:\n'
  '                raise JSONSchemaError(f\'No base URI against which to resolve the "$ref" value "{uri}"\')',
  '        uri = URI(self.json.data)\n'
  '        if not uri.has_absolute_base():\n'
  '            base_uri = self.parentschema.base_uri\n'
  '            if uri.path and base_uri is not None:\n'
  '                # relative paths are relative to the document\n'
  '                base_uri = self.parentschema.document_rootschema.base_uri\n'
  '            if base_uri is not None:\n'
  '                uri = uri.resolve(base_uri)\n'
  '            else:\n'
  '                raise JSONSchemaError(f\'No base URI against which to resolve the "$ref" value "{uri}"\')')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

s = schema({"$id": "http://e.com/a", "$ref": "d/b", "$defs": {"x": {"$id": "http://e.com/d/b", "$ref": "c"}, "y": {"$id": "http://e.com/d/c", "type": "null"}, "z": {"$id": "http://e.com/c"}}})
assert not s.evaluate(JSON(1)).valid
'''
