import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
J='jschon/json.py';PT='jschon/jsonpointer.py';PA='jschon/jsonpatch.py';U='jschon/uri.py';C='jschon/catalog/__init__.py';S='jschon/jsonschema.py'
V='jschon/vocabulary/__init__.py';AP='jschon/vocabulary/applicator.py';VA='jschon/vocabulary/validation.py';CO='jschon/vocabulary/core.py';LE='jschon/vocabulary/legacy.py';AN='jschon/vocabulary/annotation.py';FO='jschon/vocabulary/format.py';O='jschon/output.py'
p('C01','A document tree stays coherent under every history of changes and reads',
 'After any sequence of changes to a JSON document (assigning, deleting, inserting, appending, extending, popping or reversing items, and add/remove/replace at a path), interleaved in any way with reads, every node reports the type, value, parent, key and path that it would have in a document freshly built from the same content, and evaluating a node\'s path from the root yields that same node. A node reference obtained earlier remains the live node for its element, at its current position, until that element is removed or replaced. A change that is rejected with an exception leaves the whole document as it was.',
 ['histories','inputs'],'every document, every sequence of change and read operations, in every order (reads populate caches that later changes must invalidate)',
 'tests apply one or two operations to one document and compare values; histories, interleaved cached reads, negative indices and surviving node references are not explored',
 [J],[('path/value caches and their invalidation',J+':JSON._invalidate_path/_invalidate_value'),('re-keying of array items',J+':JSON.__delitem__/insert')],
 [('data/parent/key','the tree links',J+':JSON.__init__')],['JSON.value','JSON.path','JSON.key','JSON.parent','JSONPointer.evaluate'])
p('C02','In-place add, remove and replace follow RFC 6902 and reject what it forbids',
 'JSON.add, JSON.remove and JSON.replace change a document in place exactly as the RFC 6902 operations of the same name change the value it represents, for targets in arrays (including "-" and the end position for add), in objects and at the root. Where RFC 6902 requires an error (a missing parent or target, an invalid array index, a scalar parent) they raise a JSONError and change nothing. The value given is copied: later changes to it do not show in the document, nor the reverse.',
 ['inputs'],'every document, every JSON pointer (also malformed array indices), every value','tests replay the dozen examples of RFC 6902 appendix A',
 [J],[('path evaluation of the parent and index checks',J+':JSON.add/remove/replace')],None,['JSON.value','raised exception'])
p('C03','Equality, ordering and typing follow the JSON data model',
 'Two JSON documents are equal exactly when they denote the same JSON value: the types are the same (a boolean is never a number), numbers are compared by exact numeric value, strings by code points, arrays element by element in order, objects by their members in any order. This is an equivalence relation, "!=" is its negation, a JSON document and a plain Python value compare as two documents would, and membership, index and count on arrays use it. <, <=, >, >= on numbers and strings order by the underlying value.',
 ['inputs'],'all pairs and triples of JSON values, nested to any depth, mixing int and float, in either wrapped or plain form','tests compare a random value with itself and with a few others; near-equal pairs at depth (True vs 1, 1 vs 1.0, reordered members, prefixes) are hardly ever generated',
 [J],[('structural comparison',J+':JSON.__eq__'),('type dispatch',J+':JSON.__init__')],None,['JSON.__eq__','JSON.__ne__','JSON.__contains__','JSON.__lt__'])
p('C04','JSON text written is valid JSON and reads back as the same document',
 'Serialising any JSON document to a string or a file gives text that conforms to the JSON grammar and denotes the document\'s current value, and loading it gives an equal document. Loading accepts exactly the texts that conform to the JSON grammar, giving the value they denote; NaN and infinities are refused in both directions. str() and value agree with the serialised form.',
 ['inputs','histories'],'all JSON values (any Unicode strings, any finite numbers, any nesting), all texts','tests round-trip through the same json module on both sides, so a text that only this library can read back goes unnoticed, as does what malformed text is accepted',
 [J,'jschon/utils.py'],[('json_dumps/json_loads with allow_nan=False and parse_constant','jschon/utils.py')],None,['JSON.dumps','JSON.dumpf','JSON.loads','JSON.loadf','str(JSON)','JSON.value'])
p('C05','JSON Pointers and their string forms correspond one to one',
 'A string is accepted as a JSON Pointer exactly when it conforms to RFC 6901; the keys it yields and the string and URI fragment forms of a pointer are inverse to each other for all keys. Pointers form an immutable sequence of keys: construction concatenates, "/" appends, slices are pointers, equality and hashing depend on the keys alone, and <= and < are exactly prefix and proper prefix.',
 ['inputs'],'all strings and all key sequences over all Unicode characters, in particular ~, /, digits and empty keys','tests sample from the same regex the code uses; random keys rarely contain the adjacent escapes (~01, ~~1, /~) where an ordering mistake shows',
 [PT],[('escape/unescape ordering',PT+':JSONPointer.escape/unescape'),('syntax regex',PT+':JSON_POINTER_RE'),('prefix comparison',PT+':JSONPointer.__le__/__lt__')],None,['str(JSONPointer)','JSONPointer.uri_fragment','JSONPointer.parse_uri_fragment','comparison operators'])
p('C06','Pointer evaluation returns exactly the referenced value or a reference error',
 'Evaluating a JSON Pointer against a document returns the very node or value RFC 6901 says it references, and raises JSONPointerReferenceError exactly when there is none; in particular only 0 or a digit string without leading zero is an array index. The outcome is the same for a JSON document and for the plain Python value it wraps, and evaluation never alters the pointer or the document.',
 ['inputs'],'all documents (wrapped and plain) and all pointers, including tokens that look like indices but are not','tests follow pointers known to exist plus a few missing ones',
 [PT],[('resolve()',PT+':JSONPointer.evaluate')],None,['JSONPointer.evaluate'])
p('C07','Relative JSON Pointers resolve as specified or raise',
 'A string is accepted as a Relative JSON Pointer exactly when it conforms to the grammar (levels up, optional index adjustment, then "#" or a JSON Pointer), and its string form, equality and hash round-trip. Evaluated at a node it yields the key/index for "#", else the referenced node, after going up and adjusting the index; it raises RelativeJSONPointerReferenceError exactly when a step is impossible.',
 ['inputs'],'all documents, all start nodes, all relative pointers','tests replay the examples of the draft',
 [PT],[('evaluate()',PT+':RelativeJSONPointer.evaluate')],None,['RelativeJSONPointer.evaluate','str(RelativeJSONPointer)'])
p('C08','JSON Patch evaluation implements RFC 6902 operation by operation',
 'Evaluating a JSON Patch yields the document obtained by applying its operations one after the other with RFC 6902 semantics (add, remove, replace, move, copy, test), each to the result of the previous. Where RFC 6902 makes an operation an error (missing target or source, invalid array index, scalar parent, moving a location into its own child, a failed test) a JSONPatchError is raised.',
 ['inputs','histories'],'all documents and all sequences of well-formed operations','tests replay RFC 6902 appendix A, one to three operations each',
 [PA],[('Node location and the six functions',PA+':Node, add, remove, replace, move, copy, test')],None,['JSONPatch.evaluate','JSONPatchOperation.apply'])
p('C09','Patch evaluation changes neither input nor patch, and its result shares nothing',
 'JSONPatch.evaluate leaves the given document and the patch itself unchanged, whether it succeeds or fails, and the same patch evaluated again on the same document gives the same outcome. The result shares no mutable part with the document or with the values in the patch, and no two places in the result share one: changing any container of the result changes nothing else.',
 ['inputs','histories','fault_sequences'],'all documents, all patches, failing at any operation, followed by arbitrary changes to the result','tests compare returned values only; sharing shows only when something is changed afterwards',
 [PA],[('deepcopy of document and values',PA+':JSONPatch.evaluate, add, replace')],None,['JSONPatch.evaluate','JSONPatch.aslist'])
p('C10','A JSON Patch is a faithful mutable list of operations',
 'A JSONPatch behaves as a list of operations under indexing, slicing, assignment, deletion, insertion and the other list operations, whether given operation objects or their JSON dictionaries. The JSON form of an operation or a patch rebuilds an equal one, and two operations are equal exactly when their op, path, from and value are (values by JSON equality).',
 ['histories','inputs'],'all sequences of list operations over all well-formed operations','the tests build patches once and only evaluate them',
 [PA],[('JSONPatch sequence methods',PA+':JSONPatch'),('asdict/__eq__',PA+':JSONPatchOperation')],None,['JSONPatch.aslist','JSONPatch.__eq__','JSONPatchOperation.asdict'])
p('C11','URI references parse, resolve, compare and validate per RFC 3986',
 'A URI reference decomposes into and reassembles from its RFC 3986 components; resolving it against an absolute base gives the RFC 3986 target URI; copying with components replaced, kept or removed changes exactly those. Equality is reflexive, symmetric, agrees with the string form, and equal URIs hash equal. Validation rejects exactly what the given requirements (scheme, normalised form, absent or empty fragment) exclude.',
 ['inputs'],'all URI references built from the RFC 3986 grammar, with dot segments, empty components and percent-encodings','tests cover copy() on a handful of URIs and nothing of resolve() or equality',
 [U],[('URI.resolve/copy/validate/__eq__/__hash__',U)],None,['str(URI)','URI properties','URI.resolve','URI.copy','URI.validate'])
p('C12','JSON resources load from the most specific source, under the right name',
 'Loading a URI uses the source registered under the longest base that is a prefix of the URI (the latest registration for that base; a default source only when no base matches), asks it for exactly the remainder of the URI plus the source\'s suffix, and returns its JSON unchanged. An invalid URI, an unmatched URI, or any failure of the source surfaces as CatalogError; an invalid base is rejected and changes nothing. Catalogs do not share sources.',
 ['histories','inputs','fault_sequences'],'all sequences of registrations, re-registrations and loads, over nested, overlapping and sibling bases, with failing sources','tests register one source at a time',
 [C],[('prefix match and sort',C+':Catalog.load_json'),('base validation',C+':Catalog.add_uri_source')],[('sources','base URI string to source',C)],['Catalog.load_json','Source.__call__ arguments'])
p('C13','Schema caches are isolated and keep exactly what was put in them',
 'A (sub)schema stored under a URI in one cache of one catalog is returned for that URI, the identical object, until it is replaced or removed there; nothing done in another cache or catalog affects it. A temporary cache is empty before and after its context, however the context is left, and its identifier cannot be taken while in use. Loading on demand happens at most once per URI and cache, and a lookup that fails leaves the cache as it was.',
 ['histories','fault_sequences'],'all interleavings of constructing, adding, deleting, re-identifying, looking up and loading schemas over several catalogs, caches and temporary caches, with failures','tests store three schemas in three caches once; histories with deletion, failure, nesting and re-identification are not explored',
 [C,S],[('add_schema/del_schema/get_schema/cache',C),('uri setter',S+':JSONSchema.uri')],[('schema cache','cacheid to URI to schema',C)],['Catalog.get_schema','Catalog.cache'])
p('C14','Every schema and subschema is identified by the right URIs and found under them',
 'For any schema document, with any nesting of $id, $anchor and $dynamicAnchor, each subschema\'s base URI and canonical URI are those the JSON Schema specification assigns, and looking up a subschema by its resource URI, by any enclosing resource\'s URI with a JSON Pointer fragment, or by an anchor returns that very object. Looking up anything that is not a schema, or does not exist, raises CatalogError. Parent, resource root and document root links are correct.',
 ['inputs','programs'],'all schema documents with arbitrary nesting of identifying keywords, all URIs derived from them','tests check one hand-written example of a schema tree per draft',
 [S,CO,C],[('base_uri/canonical_uri',S),('IdKeyword/AnchorKeyword',CO),('get_schema',C)],None,['Catalog.get_schema','JSONSchema.base_uri','JSONSchema.canonical_uri'])
p('C15','Static references apply exactly the schema they point to',
 '$ref resolves its value against the base URI in force at its own position, whether it points at a pointer location, an anchor, an embedded resource, another cached or loadable document or recursively at an ancestor, and evaluates the instance against exactly that schema, with siblings of $ref applied as well. An unresolvable reference is reported when the schema is built. Reference cycles through the instance terminate.',
 ['inputs','programs'],'all networks of schema resources and references between them, all instances','the official suite is not even available in this tree; its cases are fixed networks',
 [CO,S,C],[('RefKeyword.resolve/evaluate',CO),('_resolve_references',S)],None,['JSONSchema.evaluate().valid','construction errors'])
p('C16','Dynamic references bind to the outermost matching dynamic anchor in scope',
 '$dynamicRef (2020-12) and $recursiveRef (2019-09) evaluate the instance against their statically resolved target unless that target carries the matching dynamic (recursive) anchor, and otherwise against the outermost schema resource in the dynamic scope of this evaluation that carries it. The choice depends only on the path of evaluation taken, not on evaluations made before or elsewhere.',
 ['inputs','programs','histories'],'all networks of resources with dynamic and plain anchors, entered from any of them, in any order of evaluations','tests have one recursive schema extension example',
 [CO,LE],[('DynamicRefKeyword.evaluate',CO),('RecursiveRefKeyword_2019_09.evaluate',LE)],None,['JSONSchema.evaluate().valid'])
p('C17','Assertion keywords decide exactly as the JSON Schema specification says',
 'Each validation keyword (type, enum, const, multipleOf, the numeric, length, item-count, contains-count and property-count limits, pattern, uniqueItems, required, dependentRequired) accepts exactly the instances the specification says, ignores instances of types it does not apply to, and leaves a schema without it unaffected. This holds wherever the keyword stands in a schema and wherever the value stands in the instance.',
 ['inputs'],'all keyword values and all instances, especially boundary values, integer-valued floats, booleans next to numbers, non-BMP characters','tests recompute each keyword with the same Python expression, one keyword at a time outside any schema, and need metaschema files that this tree does not have',
 [VA],[('keyword evaluate() methods',VA)],None,['JSONSchema.evaluate().valid'])
p('C18','Applicator keywords combine subschema results as specified',
 'The in-place applicators (allOf, anyOf, oneOf, not, if/then/else, dependentSchemas), the object applicators (properties, patternProperties, additionalProperties, propertyNames) and the array applicators (prefixItems, items, contains with minContains/maxContains; in 2019-09 items and additionalItems) apply their subschemas to exactly the instance locations the specification says, and pass exactly when it says, for every combination and nesting. Boolean schemas accept or reject everything.',
 ['inputs','programs'],'all schemas nesting applicators to any depth, all instances, both supported drafts','tests evaluate about one schema per keyword',
 [AP,LE,S],[('applicator evaluate() methods',AP),('sibling results and dependency order',S)],None,['JSONSchema.evaluate().valid','Result.children'])
p('C19','unevaluatedItems and unevaluatedProperties see exactly what was left unevaluated',
 'unevaluatedItems and unevaluatedProperties apply to exactly those items or properties that no adjacent keyword, and no subschema applied in place at the same instance location and passing, has evaluated - through any nesting of in-place applicators and references, and never counting subschemas that failed or were negated, or siblings of an enclosing schema.',
 ['inputs','programs'],'all schemas mixing unevaluated* with nested in-place applicators, references and failing branches, all instances, both drafts','tests have one trivial case each',
 [AP,LE,S],[('collect_annotations',S+':Result.collect_annotations'),('UnevaluatedItems/UnevaluatedProperties',AP)],None,['JSONSchema.evaluate().valid','Result.children'])
p('C20','Exactly the annotations of passing subschemas are collected, with their values',
 'A passing evaluation reports for each instance location exactly the annotations the specification attaches there: the values of the annotation keywords and of unknown keywords, and those of the applicators (evaluated properties and items). A subschema application that failed, or lies under a negation, contributes none, wherever in the schema it stands, and a failing evaluation reports none. Collecting by instance and by keyword filters exactly by these.',
 ['inputs','programs'],'all schemas with annotation keywords and unknown keywords at any depth next to passing, failing and negated branches, all instances','tests check one annotation at the root for each keyword',
 [S,AN,AP,V],[('Result.annotate/collect_annotations',S)],None,['Result.collect_annotations','Result.output'])
p('C21','Evaluation is pure, repeatable and independent of keyword order',
 'Evaluating changes neither the schema nor the instance, and evaluating the same schema on an equal instance always gives the same result tree, whatever was evaluated or built in between. Reordering the members of any object in the schema or the instance does not change any validity, annotation or error location. Evaluating a node inside a larger document gives the same outcome as evaluating a separate copy of it.',
 ['inputs','histories'],'all schemas, all permutations of their keywords, all instances, all sequences of evaluations','tests evaluate each schema once, in the order written, on root instances',
 [S,V,AP],[('_resolve_dependencies',S),('Result per evaluation',S)],None,['Result tree','JSON.value of schema and instance'])
p('C22','Every result node names the instance, evaluation and schema locations correctly',
 'In a result, each node\'s instance location references the instance node it is about; its evaluation path is the sequence of keywords and references followed from the root schema; and its absolute schema location is the canonical URI of the schema keyword it is about, or of the referenced schema for a reference keyword. Looking that location up finds that schema.',
 ['inputs','programs'],'all schemas with references, embedded resources and escaped property names, all instances','tests compare full output for two fixed schemas',
 [S],[('Result.path/relpath/absolute_uri',S)],None,['Result.path','Result.absolute_uri','Result.instance.path','Result.output'])
p('C23','The output formats are faithful views of one result',
 'flag, basic, detailed, verbose and hierarchical outputs of one result agree on validity; basic lists exactly the annotations (if valid) or errors (if invalid) of the result tree; verbose shows every node of it; detailed and hierarchical show exactly the nodes relevant to the outcome, nested as evaluated. Producing output never changes the result, and an optional annotation filter keeps exactly the named keywords.',
 ['inputs'],'all results of all evaluations','tests compare the output for two fixed schemas and check others only for schema-validity',
 [O],[('formatter functions',O)],None,['Result.output'])
p('C24','A schema\'s keywords mean what its metaschema\'s vocabularies say',
 'A keyword is given the behaviour defined by the vocabularies its schema\'s metaschema declares (or defaults to), and a keyword outside them is only collected as an annotation, never asserted. A metaschema is rejected if it requires an unknown vocabulary, or if its core vocabulary cannot be determined; an unknown optional vocabulary is ignored. Subschemas use the metaschema of their nearest $schema, and vocabularies registered in one catalog do not show in another.',
 ['configurations','histories'],'all combinations of declared, optional, unknown and default vocabularies, custom keywords, catalogs and nested $schema','tests build three metaschemas',
 [V,CO,C],[('Metaschema.get_kwclass',V),('VocabularyKeyword',CO),('create_metaschema/get_metaschema',C)],None,['JSONSchema.evaluate','Catalog.create_metaschema'])
p('C25','Validating a schema against its metaschema accepts exactly well-formed schemas',
 'For the 2019-09 and 2020-12 metaschemas, validate() on a schema passes exactly when the schema conforms to that metaschema, at every depth of nested subschemas, following the recursive or dynamic references through which the metaschema applies to subschemas. It leaves the schema unchanged and usable.',
 ['inputs','programs'],'all schemas that can be constructed, with a malformed keyword value at any depth','tests try three malformed schemas; with the metaschema files absent none runs here',
 [S,CO,LE],[('JSONSchema.validate',S),('DynamicRef/RecursiveRef',CO)],None,['JSONSchema.validate().valid'])
p('C26','Formats are asserted exactly when enabled, and annotated always',
 'The format keyword always annotates its value, and it fails an instance exactly when its attribute was enabled in the schema\'s catalog when the schema was built, a validator is registered for it that covers the instance type, and that validator rejects the instance. Enabling a format in one catalog has no effect in another or on schemas built before.',
 ['histories','configurations'],'all sequences of enabling formats, registering validators, building and evaluating schemas over several catalogs','tests enable one format once',
 [FO,C],[('FormatKeyword',FO),('enable_formats',C)],None,['JSONSchema.evaluate','Result.annotation'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P: jsonschema.validate(x,sch)
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
