PROPERTY='C20'
NEEDS='a contentSchema in an instance location of several schemas'
WHAT='contentSchema is annotated with a sibling contentMediaType that was itself discarded... without one'
EDITS=[('jschon/vocabulary/annotation.py',
  '        if result.sibling(instance, "contentMediaType"):',
  '        if result.sibling(instance, "contentMediaType") or result.sibling(instance, "contentEncoding"):')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

r = schema({"contentEncoding": "base64", "contentSchema": {"type": "null"}}).evaluate(JSON("x"))
assert list(r.collect_annotations(key="contentSchema")) == []
'''
