PROPERTY='C23'
NEEDS='an annotation that is false, zero or empty'
WHAT='detailed output leaves such annotations out'
EDITS=[('jschon/output.py',
  '            del output[childkey]\n            if (msgval := getattr(node, msgkey)) is not None:',
  '            del output[childkey]\n            if msgval := getattr(node, msgkey):')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

o = schema({"default": 0}).evaluate(JSON(1)).output('detailed')
assert o['annotations'][0]['annotation'] == 0
'''
