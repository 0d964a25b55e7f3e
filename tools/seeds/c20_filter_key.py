PROPERTY='C20'
NEEDS='collecting annotations by key where the keyword lies below another with the same name or value'
WHAT='collecting by keyword does not look below an annotation that matched'
EDITS=[('jschon/jsonschema.py',
  '            for child in self.children.values():\n                yield from child.collect_annotations(instance, key)',
  '            for child in () if self.annotation and key == self.key and instance else self.children.values():\n'
  '                yield from child.collect_annotations(instance, key)')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

s = schema({"properties": {"a": {"properties": {"b": True}}}})
r = s.evaluate(JSON({"a": {"b": 1}}))
assert len(list(r.collect_annotations(key="properties"))) == 2
u = schema({"unevaluatedProperties": {"allOf": [True]}, "x": 1})
s = schema({"not": {"not": {"x": 2}}, "x": 1, "allOf": [{"x": 3}]})
i = JSON(1); r = s.evaluate(i)
assert sorted(r.collect_annotations(i, "x")) == [1, 3]
s = schema({"dependentSchemas": {"a": {"dependentSchemas": {"a": True}}}})
i = JSON({"a": 1}); r = s.evaluate(i)
assert len(list(r.collect_annotations(i, "dependentSchemas"))) == 2
'''
