PROPERTY='C13'
NEEDS='a schema looked up by a JSON Pointer fragment, then its document replaced or removed'
WHAT='lookups by pointer are kept, so that a replaced or removed document is still found'
EDITS=[('jschon/catalog/__init__.py', 'schema = ptr.evaluate(schema)', 'schema = self._schema_cache[cacheid][uri] = ptr.evaluate(schema)')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

from jschon.exc import CatalogError
u = URI('http://e.com/a'); p = URI('http://e.com/a#/not')
a = schema({"not": {}}, uri=u); assert cat.get_schema(p) is a['not']
b = schema({"not": False}, uri=u); assert cat.get_schema(p) is b['not']
'''
