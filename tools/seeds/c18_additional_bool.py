PROPERTY='C18'
NEEDS='2019-09 items as a single schema together with additionalItems, and three items'
WHAT='an items annotation of true is taken for an index'
EDITS=[('jschon/vocabulary/legacy.py', 'type(items.annotation) is int:', 'isinstance(items.annotation, int):')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

assert ok({"items": True, "additionalItems": False}, [1, 2], '2019-09')
assert ok({"items": True, "additionalItems": False}, [1, 2, 3], '2019-09')
'''
