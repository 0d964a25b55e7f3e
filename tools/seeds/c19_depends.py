PROPERTY='C19'
NEEDS='unevaluatedProperties written before a $dynamicRef'
WHAT='unevaluatedProperties may be evaluated before a $dynamicRef beside it'
EDITS=[('jschon/vocabulary/applicator.py',
  '        "dependentSchemas",\n'
  '        "allOf",\n'
  '        "anyOf",\n'
  '        "oneOf",\n'
  '        "not",\n'
  '        "$ref",\n'
  '        "$dynamicRef",\n'
  '    )\n'
  '\n'
  '    def evaluate(self, instance: JSON, result: Result) -> None:\n'
  '        evaluated_names',
  '        "dependentSchemas",\n'
  '        "allOf",\n'
  '        "anyOf",\n'
  '        "oneOf",\n'
  '        "not",\n'
  '        "$ref",\n'
  '    )\n'
  '\n'
  '    def evaluate(self, instance: JSON, result: Result) -> None:\n'
  '        evaluated_names')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

d = {"unevaluatedProperties": False, "$dynamicRef": "#a", "$defs": {"a": {"$dynamicAnchor": "a", "properties": {"p": True}}}, "$id": "http://e.com/s"}
assert ok(d, {"p": 1}) and not ok(d, {"q": 1})
'''
