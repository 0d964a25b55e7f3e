PROPERTY = 'C15'
NEEDS = 'a reference of only a query and a fragment, in a document whose URI has a path'
WHAT = 'A reference without a path loses its query and resolves against the referring document instead.'
EDITS = [('jschon/vocabulary/core.py', '        uri = URI(self.json.data)\n        if not uri.has_absolute_base():\n            if (base_uri := self.parentschema.base_uri) is not None:\n                uri = uri.resolve(base_uri)\n            else:\n                raise JSONSchemaError(f\'No base URI against which to resolve the "$ref" value "{uri}"\')\n', '        uri = URI(self.json.data)\n        if not uri.has_absolute_base():\n            if (base_uri := self.parentschema.base_uri) is not None:\n                uri = base_uri.copy(fragment=uri.fragment) if not uri.path else uri.resolve(base_uri)\n            else:\n                raise JSONSchemaError(f\'No base URI against which to resolve the "$ref" value "{uri}"\')\n')]
DEMO = r'''
import metaschemas

from jschon import JSON, JSONSchema, URI
C = metaschemas.catalog('2020-12', name='n')
D = 'https://json-schema.org/draft/2020-12/schema'

a = JSONSchema({'$schema': D, '$id': 'http://a.example/x?one', '$defs': {'n': {'const': 1}}}, catalog=C)
b = JSONSchema({'$schema': D, '$id': 'http://a.example/x', '$ref': '?one#/$defs/n', '$defs': {'n': {'const': 2}}}, catalog=C)
assert b.evaluate(JSON(1)).valid
assert not b.evaluate(JSON(2)).valid
'''
