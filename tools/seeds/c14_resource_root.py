PROPERTY='C14'
NEEDS='a boolean or plain subschema inside an embedded resource that has siblings'
WHAT='the resource root of a subschema two or more levels below an embedded resource is the document root'
EDITS=[('jschon/jsonschema.py',
  '            ancestor = ancestor.parentschema\n'
  "            if '$id' in ancestor.keywords:\n"
  '                return ancestor\n'
  '        return ancestor',
  '            ancestor = ancestor.parentschema\n'
  "            if '$id' in ancestor.data and '$anchor' not in ancestor.data:\n"
  '                return ancestor\n'
  '        return ancestor')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

s = schema({"$id": "http://e.com/a", "$defs": {"x": {"$id": "http://e.com/b", "$anchor": "k", "not": {"not": {}}}}})
assert s["$defs"]["x"]["not"]["not"].resource_rootschema is s["$defs"]["x"]
'''
