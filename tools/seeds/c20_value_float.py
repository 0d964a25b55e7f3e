PROPERTY = 'C20'
NEEDS = 'an annotation keyword whose value is an integer beyond 2^53'
WHAT = 'Numeric annotation values pass through a float and are rounded.'
EDITS = [('jschon/vocabulary/annotation.py', '        result.annotate(self.json.value)\n        result.noassert()', "        result.annotate(self.json.value if self.json.type != 'number' else float(self.json.value))\n        result.noassert()")]
DEMO = "import metaschemas\n\nfrom jschon import JSON, JSONSchema, URI\nc = metaschemas.catalog(*'2019-09 2020-12 next'.split())\ns = JSONSchema({'default': 2 ** 53 + 1, 'title': 't'}, catalog=c, metaschema_uri=URI('https://json-schema.org/draft/2020-12/schema'))\nassert sorted(map(str, s.evaluate(JSON(1)).collect_annotations())) == ['9007199254740993', 't']\n"
