PROPERTY = 'C26'
NEEDS = 'a format used in a metaschema'
WHAT = 'Formats in metaschemas are never asserted, even though they were enabled before the metaschema was created.'
EDITS = [('jschon/vocabulary/format.py', 'if parentschema.catalog.is_format_enabled(value):', "if parentschema.cacheid != '__meta__' and parentschema.catalog.is_format_enabled(value):")]
DEMO = "import metaschemas\n\nfrom jschon import JSON, JSONSchema, URI\nfrom jschon.catalog import Source\nfrom jschon.vocabulary.format import format_validator\nc = metaschemas.catalog(*'2019-09 2020-12 next'.split())\n@format_validator('seed-x')\ndef f(v):\n    if v != 'x':\n        raise ValueError\nc.enable_formats('seed-x')\ncore = 'https://json-schema.org/draft/2020-12/vocab/core'\nclass S(Source):\n    def __call__(self, path):\n        return {'$schema': 'https://json-schema.org/draft/2020-12/schema', '$vocabulary': {core: True, 'https://json-schema.org/draft/2020-12/vocab/applicator': True, 'https://json-schema.org/draft/2020-12/vocab/format-annotation': True},\n                'properties': {'name': {'format': 'seed-x'}}}\nc.add_uri_source(URI('http://m.example/'), S())\nc.create_metaschema(URI('http://m.example/m'))\nmk = lambda n: JSONSchema({'$schema': 'http://m.example/m', 'name': n}, catalog=c)\nassert mk('x').validate().valid\nassert not mk('y').validate().valid\n"
