PROPERTY='C14'
NEEDS='a subschema below an embedded resource that lies below another subschema with its own $id'
WHAT='the canonical URI of a subschema is taken from the outermost resource when its parent is not a schema'
EDITS=[('jschon/jsonschema.py',
  '            if isinstance(node, JSONSchema) and node._uri is not None:\n                if fragment',
  '            if isinstance(node, JSONSchema) and node._uri is not None and (\n'
  '                    node.parent is None or isinstance(node[keys[0]], (JSONSchema, JSON)) and len(keys) < 6):\n'
  '                if fragment')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

s = schema({"$id": "http://e.com/a", "$defs": {"x": {"$id": "http://e.com/b", "properties": {"p": {"allOf": [{"not": {"properties": {"q": {}}}}]}}}}})
n = s["$defs"]["x"]["properties"]["p"]["allOf"][0]["not"]["properties"]["q"]
assert str(n.canonical_uri) == "http://e.com/b#/properties/p/allOf/0/not/properties/q", n.canonical_uri
'''
