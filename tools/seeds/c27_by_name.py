PROPERTY = 'C27'
NEEDS = 'a schema with an array or object of subschemas built in a catalog whose name has been given to another one since'
WHAT = 'Arrays of subschemas look their catalog up by name: they are built in the catalog that last took the name.'
EDITS = [('jschon/vocabulary/__init__.py', """        if isinstance(value, Sequence):
            return JSON(
                value,
                parent=parentschema,
                key=key,
                itemclass=JSONSchema,
                catalog=parentschema.catalog,""", """        if isinstance(value, Sequence):
            return JSON(
                value,
                parent=parentschema,
                key=key,
                itemclass=JSONSchema,
                catalog=parentschema.catalog.name,""")]
DEMO = """
import metaschemas

from jschon import JSON, JSONSchema, URI
from jschon.vocabulary.format import format_validator
@format_validator('seed-x')
def f(v):
    raise ValueError
M = 'https://json-schema.org/draft/2020-12/schema'
a = metaschemas.catalog('2020-12', name='n')
a.enable_formats('seed-x')
b = metaschemas.catalog('2020-12', name='n')
s = JSONSchema({'$schema': M, 'allOf': [{'format': 'seed-x'}]}, catalog=a)
assert not s.evaluate(JSON('x')).valid
t = JSONSchema({'$schema': M, 'allOf': [{'format': 'seed-x'}]}, catalog=b)
assert t.evaluate(JSON('x')).valid
"""
