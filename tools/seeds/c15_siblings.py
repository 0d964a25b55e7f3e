PROPERTY='C15'
NEEDS='$ref with a sibling written after it that fails, where the referenced schema passes'
WHAT='a reference that has been followed once for an instance is taken as passed when met again below itself'
EDITS=[('jschon/vocabulary/core.py',
  '        self.refschema.evaluate(instance, result)\n        result.refschema(self.refschema)\n\n\nclass AnchorKeyword',
  '        depth, target = 0, result.parent\n'
  '        while target is not None:\n'
  '            depth += target.key == self.key\n'
  '            target = target.parent\n'
  '        if depth < 8:\n'
  '            self.refschema.evaluate(instance, result)\n'
  '        result.refschema(self.refschema)\n'
  '\n'
  '\n'
  'class AnchorKeyword')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

x = "bad"
for i in range(12):
    x = {"n": x}
s = schema({"$id": "http://e.com/l", "properties": {"n": {"$ref": "#"}}, "type": "object"})
assert not s.evaluate(JSON(x)).valid
'''
