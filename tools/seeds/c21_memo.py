PROPERTY='C21'
NEEDS='the same schema evaluated for two instances with equal paths and different values'
WHAT='enum remembers the last instance it accepted by its place in the document'
EDITS=[('jschon/vocabulary/validation.py',
  '        if instance not in self.json:\n            result.fail("The instance value must',
  "        if instance.parent is None or instance.path != getattr(self, 'seen', None):\n"
  '            self.seen = instance.path if instance in self.json else None\n'
  '        if self.seen is None and instance not in self.json:\n'
  '            result.fail("The instance value must')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

s = schema({"properties": {"a": {"enum": [1]}}})
assert s.evaluate(JSON({"a": 1})).valid
assert not s.evaluate(JSON({"a": 2})).valid
assert s.evaluate(JSON({"a": 1})).valid
assert not s.evaluate(JSON({"a": 2})).valid
'''
