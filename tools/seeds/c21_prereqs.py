PROPERTY = 'C21'
NEEDS = 'unevaluatedProperties written between a keyword it depends on and one that was written before it'
WHAT = 'A keyword that is resolved strikes all earlier ones from the lists of prerequisites: unevaluatedProperties can run before properties.'
EDITS = [('jschon/jsonschema.py', '                    for deps in dependencies.values():\n                        try:\n                            deps.remove(kwclass)\n                        except ValueError:\n                            pass\n                    yield kwclass\n                    break', '                    for deps in dependencies.values():\n                        if kwclass in deps:\n                            del deps[:1 + deps.index(kwclass)]\n                    yield kwclass\n                    break')]
DEMO = "import metaschemas\n\nimport itertools\nfrom jschon import JSON, JSONSchema, URI\nc = metaschemas.catalog(*'2019-09 2020-12 next'.split())\nkws = {'allOf': [{'properties': {'b': True}}], 'unevaluatedProperties': False, 'properties': {'a': True}}\nfor o in itertools.permutations(kws):\n    s = JSONSchema({k: kws[k] for k in o}, catalog=c, metaschema_uri=URI('https://json-schema.org/draft/2020-12/schema'))\n    assert s.evaluate(JSON({'a': 1, 'b': 2})).valid, o\n"
