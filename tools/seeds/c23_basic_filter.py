PROPERTY='C23'
NEEDS='basic output of a valid result where a filtered keyword has annotated keywords below it'
WHAT='the annotation filter of basic output hides what lies below a keyword that is not named'
EDITS=[('jschon/output.py',
  '            for child in node.children.values():\n                yield from visit(child)\n\n    if annotations',
  '            for child in node.children.values():\n'
  '                if annotations is None or child.key in annotations or child.annotation is None or child.schema_node.type != "object":\n'
  '                    yield from visit(child)\n'
  '\n'
  '    if annotations')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

s = schema({"unevaluatedProperties": {"title": "t"}, "properties": {"a": {"title": "u"}}})
r = s.evaluate(JSON({"a": 1, "b": 2}))
assert sorted(a["annotation"] for a in r.output('basic', annotations=["title"])["annotations"]) == ["t", "u"]
'''
