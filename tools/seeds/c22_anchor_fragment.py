PROPERTY='C22'
NEEDS='a keyword name with characters that a URI fragment must escape'
WHAT='locations in schemas known by a URI with a fragment leave the relative part unescaped'
EDITS=[('jschon/jsonschema.py',
  '            return schema_uri.copy(fragment=relpath.uri_fragment())',
  '            return schema_uri.copy(fragment=str(relpath) if len(relpath) > 1 else relpath.uri_fragment())')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

s = schema({"$id": "http://e.com/r", "properties": {"a": {"properties": {"b c": {"type": "null"}}}}})
assert s.evaluate(JSON({"a": {"b c": None}})).valid
from jschon.jsonpointer import JSONPointer
def walk(r):
    f = r.absolute_uri.fragment
    if f: assert JSONPointer.parse_uri_fragment(f) is not None and JSONPointer.parse_uri_fragment(f).uri_fragment() == f, f
    for c in r.children.values(): walk(c)
s = schema({"$id": "http://e.com/q", "properties": {"b c": {"x": 1}}, "not": {"not": {"properties": {"b%25": {"patternProperties": {"p q": {"x": 1}}}}}}})
walk(s.evaluate(JSON({"b c": None, "b%25": {"p q": 1}})))
t = schema({"$id": "http://e.com/t", "allOf": [{"patternProperties": {"p q": True}, "properties": {"b c": True}}]})
'''
