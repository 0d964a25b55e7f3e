PROPERTY='C17'
NEEDS='a string with characters outside the basic multilingual plane'
WHAT='string length counts UTF-16 units'
EDITS=[('jschon/vocabulary/validation.py',
  '        if len(instance) > self.json:\n            result.fail(f"The text is too long',
  '        if len(instance.data.encode("utf-16-le")) // 2 > self.json:\n            result.fail(f"The text is too long')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

assert ok({"maxLength": 2}, "ab") and ok({"maxLength": 2}, "\U0001F600\U0001F600")
'''
