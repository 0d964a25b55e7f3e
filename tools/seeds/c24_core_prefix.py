PROPERTY = 'C24'
NEEDS = 'a $vocabulary that lists a known vocabulary whose URI only begins like that of a core vocabulary'
WHAT = 'The pattern for core vocabularies is not anchored at its end.'
EDITS = [('jschon/vocabulary/__init__.py', "    _CORE_VOCAB_RE = r'https://json-schema\\.org/draft/[^/]+/vocab/core$'", "    _CORE_VOCAB_RE = r'https://json-schema\\.org/draft/[^/]+/vocab/core'")]
DEMO = "import metaschemas\n\nfrom jschon import JSON, JSONSchema, URI\nfrom jschon.catalog import Source\nfrom jschon.vocabulary import Keyword\nc = metaschemas.catalog(*'2019-09 2020-12 next'.split())\nV = 'https://json-schema.org/draft/mine/vocab/cores'\nK = type('K', (Keyword,), dict(key='x-k'))\nc.create_vocabulary(URI(V), K)\nclass S(Source):\n    def __call__(self, path):\n        return {'$schema': 'https://json-schema.org/draft/2020-12/schema', '$vocabulary': {V: True}}\nc.add_uri_source(URI('http://m.example/'), S())\ntry:\n    m = c.create_metaschema(URI('http://m.example/m'))\nexcept Exception as e:\n    assert type(e).__module__.startswith('jschon'), e\nelse:\n    raise AssertionError('accepted')\n"
