PROPERTY='C22'
NEEDS='a reference keyword whose target fails, reported below'
WHAT='the location of a $ref that failed is that of the keyword itself'
EDITS=[('jschon/vocabulary/core.py',
  '        self.refschema.evaluate(instance, result)\n        result.refschema(self.refschema)\n\n\nclass AnchorKeyword',
  '        if self.refschema.evaluate(instance, result).valid or self.refschema.type == "object":\n'
  '            result.refschema(self.refschema)\n'
  '\n'
  '\n'
  'class AnchorKeyword')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

s = schema({"$id": "http://e.com/r", "$ref": "#/$defs/f", "$defs": {"f": False}})
r = s.evaluate(JSON(1))
assert [str(c.absolute_uri) for c in r.children.values()] == ["http://e.com/r#/$defs/f"]
'''
