PROPERTY = 'C18'
NEEDS = 'a property name with a line break and an anchored pattern'
WHAT = 'In patternProperties, ^ and $ match at every line of a property name.'
EDITS = [('jschon/vocabulary/applicator.py', '                if re.search(regex, name) is not None:\n                    with result', '                if re.search(regex, name, re.MULTILINE) is not None:\n                    with result')]
DEMO = r'''
import metaschemas

from jschon import JSON, JSONSchema, URI
C = metaschemas.catalog('2020-12', name='n')
D = 'https://json-schema.org/draft/2020-12/schema'

s = JSONSchema({'$schema': D, 'patternProperties': {'^a': False}}, catalog=C)
assert s.evaluate(JSON({'b\na': 1})).valid
assert not s.evaluate(JSON({'ab': 1})).valid
'''
