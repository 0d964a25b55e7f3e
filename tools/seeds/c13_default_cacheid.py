PROPERTY='C13'
NEEDS='a schema with $ref to an anchor or embedded resource, built in a cache other than the default'
WHAT='anchors are always put in the default cache'
EDITS=[('jschon/vocabulary/core.py',
  '            raise JSONSchemaError(f\'No base URI for "$anchor" value "{value}"\')\n'
  '\n'
  '        parentschema.catalog.add_schema(uri, parentschema, cacheid=parentschema.cacheid)',
  '            raise JSONSchemaError(f\'No base URI for "$anchor" value "{value}"\')\n'
  '\n'
  "        for cacheid in {parentschema.cacheid, '__meta__' if parentschema.cacheid == '__meta__' else 'default'}:\n"
  '            parentschema.catalog.add_schema(uri, parentschema, cacheid=cacheid)')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

from jschon.exc import CatalogError
with cat.cache() as cid:
    s = schema({"$id": "http://e.com/q", "$anchor": "x"}, cacheid=cid)
    assert cat.get_schema(URI('http://e.com/q#x'), cacheid=cid) is s
try:
    cat.get_schema(URI('http://e.com/q#x')); assert False
except CatalogError:
    pass
'''
