PROPERTY = 'C17'
NEEDS = 'a number very near, but not equal to, an integer'
WHAT = 'A number that differs from an integer by less than 1e-12 is accepted as an integer.'
EDITS = [('jschon/vocabulary/validation.py', '            valid = instance.data == int(instance.data)', '            valid = abs(instance.data - int(instance.data)) < 1e-12')]
DEMO = r'''
import metaschemas

from jschon import JSON, JSONSchema, URI
C = metaschemas.catalog('2020-12', name='n')
D = 'https://json-schema.org/draft/2020-12/schema'

s = JSONSchema({'$schema': D, 'type': 'integer'}, catalog=C)
for v in ('1.0000000000000002', '3.9999999999999996', '1e-300', '-5e-324'):
    assert not s.evaluate(JSON.loads(v)).valid, v
assert s.evaluate(JSON.loads('2.0')).valid
'''
