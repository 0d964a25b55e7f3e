PROPERTY='C18'
NEEDS='a property matched by two patterns whose subschemas disagree, the failing one first'
WHAT='the outcome for a property is that of the last matching pattern'
EDITS=[('jschon/vocabulary/applicator.py',
  '                        else:\n'
  '                            err_names += [name]\n'
  '\n'
  '        if err_names:\n'
  '            result.fail(f"Properties {err_names} are invalid")\n'
  '        else:\n'
  '            result.annotate(list(matched_names))',
  '                        elif name not in matched_names:\n'
  '                            err_names += [name]\n'
  '                        else:\n'
  '                            subresult.pass_()\n'
  '\n'
  '        if err_names:\n'
  '            result.fail(f"Properties {err_names} are invalid")\n'
  '        else:\n'
  '            result.annotate(list(matched_names))')]
DEMO='''
import metaschemas
from jschon import JSON, JSONSchema, URI
cat = metaschemas.catalog('2019-09', '2020-12', 'next')
D = {v: URI(f'https://json-schema.org/draft/{v}/schema') for v in ('2019-09', '2020-12', 'next')}
def schema(doc, v='2020-12', **kw):
    return JSONSchema(doc, catalog=cat, metaschema_uri=D[v], **kw)
def ok(doc, inst, v='2020-12'):
    return schema(doc, v).evaluate(JSON(inst)).valid

d = {"patternProperties": {"a": {"type": "number"}, "b": {"maximum": 3}}}
assert ok(d, {"ab": 1}) and not ok(d, {"ab": 5})
'''
