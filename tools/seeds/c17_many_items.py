PROPERTY = 'C17'
NEEDS = 'an array with more than sixteen distinct items whose equal items come after them'
WHAT = 'uniqueItems compares an item only with the first sixteen distinct ones before it.'
EDITS = [('jschon/vocabulary/validation.py', '            if item not in uniquified:', '            if item not in uniquified[:16]:')]
DEMO = r'''
import metaschemas

from jschon import JSON, JSONSchema, URI
C = metaschemas.catalog('2020-12', name='n')
D = 'https://json-schema.org/draft/2020-12/schema'

s = JSONSchema({'$schema': D, 'uniqueItems': True}, catalog=C)
for n in range(2, 60):
    for k in (0, n // 2, n - 1):
        v = list(range(n)) + [k]
        assert not s.evaluate(JSON(v)).valid, v
    assert s.evaluate(JSON(list(range(n)))).valid
'''
