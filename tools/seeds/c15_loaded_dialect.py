PROPERTY = 'C15'
NEEDS = 'a subschema of another dialect than its document that refers to a document without $schema'
WHAT = 'A document loaded for a reference is given the dialect of the document root instead of that of the referring schema.'
EDITS = [('jschon/vocabulary/core.py', '        self.refschema = self.parentschema.catalog.get_schema(\n            uri, metaschema_uri=self.parentschema.metaschema_uri, cacheid=self.parentschema.cacheid\n        )\n\n    def evaluate(self, instance: JSON, result: Result) -> None:\n        self', '        self.refschema = self.parentschema.catalog.get_schema(\n            uri, metaschema_uri=self.parentschema.document_rootschema.metaschema_uri, cacheid=self.parentschema.cacheid\n        )\n\n    def evaluate(self, instance: JSON, result: Result) -> None:\n        self')]
DEMO = "import metaschemas\n\nfrom jschon import JSON, JSONSchema, URI\nfrom jschon.catalog import Source\nc = metaschemas.catalog(*'2019-09 2020-12 next'.split())\nclass S(Source):\n    def __call__(self, path):\n        return {'prefixItems': [{'type': 'string'}]}\nc.add_uri_source(URI('http://l.example/'), S())\ns = JSONSchema({'$defs': {'a': {'$id': 'http://s.example/a', '$schema': 'https://json-schema.org/draft/2020-12/schema', '$ref': 'http://l.example/x'}}, '$ref': '#/$defs/a'},\n               catalog=c, uri=URI('http://s.example/r'), metaschema_uri=URI('https://json-schema.org/draft/2019-09/schema'))\nassert not s.evaluate(JSON([1])).valid\nassert s.evaluate(JSON(['a'])).valid\n"
