PROPERTY='C25'
NEEDS='validate() on a subschema whose own $schema differs from that of its document'
WHAT='a subschema is validated against the metaschema of its document'
EDITS=[('jschon/jsonschema.py', 'return self.metaschema.evaluate(self)', 'return self.document_rootschema.metaschema.evaluate(self)')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

s = schema({"$id": "http://e.com/z", "$defs": {"a": {"$id": "http://e.com/y", "$schema": str(D['2019-09']), "items": [True]}}})
assert s["$defs"]["a"].validate().valid
'''
