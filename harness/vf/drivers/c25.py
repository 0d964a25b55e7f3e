"""C25: schemas against their metaschemas.  The specification evaluates the metaschema documents themselves; random schemas, well-
formed and with malformed parts at any depth, are validated by the code and by the specification."""
import copy
import json
import random

from jschon import JSON, JSONSchema, URI

from .. import evalrun, sgen
from ..core import VERIF, attempt, codes
from ..schemalib import DIALS, META, dump, enc, table
from .c21 import schema_snap

ASSUMPTIONS = ['the metaschema documents under /verif/data are the published ones', 'formats are not enabled', 'strings end in no line break']
ID = [97, 122], [65, 90], [95, 95]
RX = {
    '^[^#]*#?$': ['seq', [['bol'], ['rep', ['nc', [[35, 35]]], 0, -1], ['rep', ['ch', [[35, 35]]], 0, 1], ['eol']]],
    '^[^#]*$': ['seq', [['bol'], ['rep', ['nc', [[35, 35]]], 0, -1], ['eol']]],
    '^[A-Za-z_][-A-Za-z0-9._]*$': ['seq', [['bol'], ['ch', [[65, 90], [97, 122], [95, 95]]], ['rep', ['ch', [[45, 45], [65, 90], [97, 122], [48, 57], [46, 46], [95, 95]]], 0, -1], ['eol']]],
    '^[A-Za-z][-A-Za-z0-9.:_]*$': ['seq', [['bol'], ['ch', [[65, 90], [97, 122]]], ['rep', ['ch', [[45, 45], [65, 90], [97, 122], [48, 57], [46, 46], [58, 58], [95, 95]]], 0, -1], ['eol']]],
    '^\\$defs$': ['seq', [['bol'], ['ch', [[36, 36]]], ['ch', [[100, 100]]], ['ch', [[101, 101]]], ['ch', [[102, 102]]], ['ch', [[115, 115]]], ['eol']]],
}
W = dict(V=3, P=3, O=3, A=3, U=1, N=1.5)
ODDS = {
    '$anchor': ['a', '_x', 'A-1.b', '', '1a', 'a b', 'a:b', 'é', 3, None, 'a#'], '$dynamicAnchor': ['a', '1', '', 'x y', 2], '$id': ['x', 'a/b#', '#', 'x#y', 'http://t/#', '', 4, None],
    '$ref': ['#', 'x', 1, None, {}], '$dynamicRef': ['#', 1], '$recursiveRef': ['#', 'x', 1], '$recursiveAnchor': [True, False, 'x', 0], '$comment': ['', 1, None], '$defs': [{}, {'a': 1}, [], {'a': {'type': 5}}, {'b': None}],
    '$vocabulary': [{}, {'http://t/v': True}, {'http://t/v': 1}, 'x'], '$schema': [1, None],
    'type': ['object', 'foo', [], ['string'], ['string', 'string'], ['string', 'foo'], ['string', 1], None, {}, 'integer'],
    'enum': [[], [1, 1], 'x', {}, None, [1]], 'const': [None, 1, []], 'multipleOf': [0, -1, 1, 0.0, 1e-9, '1', None, -0.5],
    'required': [[], ['a'], ['a', 'a'], [1], 'a', None, {}], 'dependentRequired': [{}, {'a': []}, {'a': ['b', 'b']}, {'a': 'b'}, {'a': [1]}, []],
    'uniqueItems': [True, 1, 'true', None], 'pattern': ['a', 1, None, []], 'properties': [{}, {'a': 1}, {'a': {'type': 'x'}}, [], None, True],
    'patternProperties': [{}, {'a': 1}, {'a': {'minimum': 'x'}}, []], 'dependentSchemas': [{}, {'a': []}, {'a': {'not': 3}}, None],
    'allOf': [[], [True], [1], {}, True, [{'type': 1}], [[]]], 'anyOf': [[], [{}, None]], 'oneOf': [[], ['x']], 'not': [True, 1, None, [], {'not': 'x'}], 'if': [1, {}], 'then': ['', {}], 'else': [[], {}],
    'items': [[], [True], [1], {}, 3, None, [{'type': 'x'}]], 'prefixItems': [[], [True], [0], {}, {'a': True}], 'additionalItems': [1, {}, []], 'contains': [1, True, []], 'additionalProperties': [0, {}, None],
    'propertyNames': [1, {}, [{}]], 'unevaluatedItems': [1, False], 'unevaluatedProperties': [[], {}], 'contentSchema': [1, {}, {'type': 1}],
    'title': ['', 1, None], 'description': [[], 'x'], 'default': [None, 1], 'deprecated': [1, True], 'readOnly': ['x', False], 'writeOnly': [None, True], 'examples': [[], {}, 'x', [1]],
    'contentMediaType': [1, ''], 'contentEncoding': [1, ''], 'format': [1, 'x', None], 'definitions': [{}, {'a': 1}, [], {'a': {'type': 1}}], 'dependencies': [{}, {'a': ['b']}, {'a': 1}, {'a': {'type': 1}}, [], {'a': [1]}],
    'x-foo': [1, {'type': 1}, None],
}
for k in ('minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum'):
    ODDS[k] = [0, -1.5, '0', None, True, []]
for k in ('maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties', 'maxContains', 'minContains'):
    ODDS[k] = [0, 1, 2.0, 1.5, -1, -0.0, '1', None, True, 1e20, 10**30]


def meta_docs(dial):
    d = VERIF / 'data' / f'json-schema-{dial}'
    out = [json.loads((d / 'schema.json').read_text(encoding='utf-8'))]
    refs = [x['$ref'] for x in out[0]['allOf']]
    for ref in refs:
        out.append(json.loads((d / f'{ref}.json').read_text(encoding='utf-8')))
    return out


def spots(v, out, path=()):
    """Everywhere a schema stands."""
    if isinstance(v, (dict, bool)):
        out.append(path)
    if isinstance(v, dict):
        for k, x in v.items():
            if k in ('const', 'enum', 'default', 'examples', 'x-unknown', 'foo', 'a/b', '$weird', 'dependentRequired'):
                continue
            if k in ('properties', 'patternProperties', '$defs', 'dependentSchemas') and isinstance(x, dict):
                for n, y in x.items():
                    spots(y, out, path + (k, n))
            elif isinstance(x, list):
                for n, y in enumerate(x):
                    if isinstance(y, (dict, bool)):
                        spots(y, out, path + (k, n))
            elif isinstance(x, dict):
                spots(x, out, path + (k,))
    return out


def put(v, path, x):
    if not path:
        return x
    v = copy.copy(v)
    v[path[0]] = put(v[path[0]], path[1:], x)
    return v


def get(v, path):
    for t in path:
        v = v[t]
    return v


def spoil(r, doc):
    """Put an odd value under some keyword of some subschema."""
    path = r.choice(spots(doc, []))
    sub = get(doc, path)
    x = r.random()
    if x < .1 and path:
        return put(doc, path, r.choice([1, None, 'x', [], 0.5, {}, True]))
    kw = r.choice(sorted(ODDS))
    if isinstance(sub, dict) and sub and r.random() < .4:
        kw = r.choice([k for k in sub if k in ODDS] or [kw])
    val = r.choice(ODDS[kw]) if r.random() < .9 else sgen.instance(r, 2)
    return put(doc, path, {**(sub if isinstance(sub, dict) else {}), kw: copy.deepcopy(val)})


def nest(r, dial, x):
    """x as a subschema deep inside a document."""
    ways = [lambda s: {'properties': {'a': s}}, lambda s: {'allOf': [True, s]}, lambda s: {'not': s}, lambda s: {'items': s}, lambda s: {'$defs': {'d': s}}, lambda s: {'if': s}, lambda s: {'then': s}, lambda s: {'else': s},
            lambda s: {'anyOf': [s]}, lambda s: {'oneOf': [s, {}]}, lambda s: {'additionalProperties': s}, lambda s: {'propertyNames': s}, lambda s: {'contains': s}, lambda s: {'dependentSchemas': {'a': s}}, lambda s: {'patternProperties': {'a': s}},
            lambda s: {'unevaluatedItems': s}, lambda s: {'unevaluatedProperties': s}, lambda s: {'contentSchema': s}]
    ways += [lambda s: {'items': [s]}, lambda s: {'additionalItems': s}] if dial == '2019-09' else [lambda s: {'prefixItems': [{}, s]}]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        x = r.choice(ways)(x)
    return x


def record(H, values, r, c, dial, doc, well, full):
    info = dict(schema=doc, dialect=dial)

    def ev(i=info, **e):
        H['ev'].append(e)
        H['info'].append(i)
    values.append(doc)
    with c.cache() as cid:
        box = []
        out = attempt(lambda: box.append(JSONSchema(doc, catalog=c, cacheid=cid, uri=URI(evalrun.BASE), metaschema_uri=URI(META[dial]))))
        if well:
            ev(op='build', out=out)
        meta = c.get_metaschema(URI(META[dial]))
        if box:
            s = box[0]
            probe = sgen.fit(r, doc, doc) if well else None
            before = attempt(lambda: schema_snap(s))
            used = attempt(lambda: dump(s.evaluate(JSON(probe)), errors=True)) if well else 0
            f = s.validate
        else:
            node = JSON(doc)
            f = lambda: meta.evaluate(node)
        rb = []
        ev(op='verdict', inst=enc(doc), out=attempt(lambda: (rb.append(f()), bool(rb[0].valid))[1]))
        if full and rb:
            ev(op='eval', at=[1, []], inst=enc(doc), ip=[], out=attempt(lambda: dump(rb[0])))
        if box:
            ev(op='same', what='schema', before=before, after=attempt(lambda: schema_snap(s)))
            if well:
                ev(op='same', what='evaluation', before=used, after=attempt(lambda: dump(s.evaluate(JSON(probe)), errors=True)))
        if r.random() < .3:
            # the metaschema on a plain document says the same
            ev(op='verdict', inst=enc(doc), out=attempt(lambda: bool(meta.evaluate(JSON(doc)).valid)))


def standing(r, c, outer):
    """Schemas inside others, also of another dialect: every part is validated against the metaschema of its own resource."""
    inner = r.choice([d for d in DIALS if d != outer])

    def part(dial, name):
        doc = sgen.Gen(r, dial, W, depth=1, rx={}).document()
        if not isinstance(doc, dict):
            doc = {}
        x = r.random()
        bad = r.choice(['type', 'minLength', 'items', 'prefixItems', 'additionalItems', 'dependentSchemas', 'required', '$recursiveAnchor', '$dynamicAnchor', 'properties', 'contentSchema'])
        return doc if x < .4 else nest(r, dial, {**doc, bad: copy.deepcopy(r.choice(ODDS[bad]))}) if x < .75 else {**doc, 'items': [True]} if x < .9 else {**doc, 'prefixItems': [True]}
    emb = {'$id': 'emb', '$schema': META[inner], **part(inner, 'emb'), '$defs': {'x': part(inner, 'x'), 'y': part(inner, 'y')}}
    doc = {**part(outer, 'doc'), '$defs': {'p': part(outer, 'p'), 'e': emb, 'q': {'properties': {'r': part(outer, 'r')}}}}
    if r.random() < .6:
        doc['$schema'] = META[outer]
    out = []
    with c.cache() as cid:
        box = []
        built = attempt(lambda: box.append(JSONSchema(doc, catalog=c, cacheid=cid, uri=URI(evalrun.BASE), **({} if '$schema' in doc else dict(metaschema_uri=URI(META[outer]))))))
        if not box:
            return out
        spots_ = [(outer, ()), (outer, ('$defs', 'p')), (inner, ('$defs', 'e')), (inner, ('$defs', 'e', '$defs', 'x')), (inner, ('$defs', 'e', '$defs', 'y')), (outer, ('$defs', 'q')), (outer, ('$defs', 'q', 'properties', 'r'))]
        r.shuffle(spots_)
        for dial, path in spots_:
            n = box[0]
            for t in path:
                n = n[t]
            v = get(doc, path)
            out.append((dial, dict(op='verdict', inst=enc(v), out=attempt(lambda: bool(n.validate().valid))), dict(schema=doc, at=path, dialect=dial), v))
    return out


def run(ctx):
    r = random.Random(ctx.seed)
    hs = []
    c = evalrun.cat()
    jobs = {d: [] for d in DIALS}
    # every odd value, at the top and below
    for dial in DIALS:
        for kw, vs in ODDS.items():
            for v in vs:
                if ctx.quick and r.random() > .45:
                    continue
                jobs[dial].append((nest(r, dial, {kw: v}), False, r.random() < .1))
        for _ in range(ctx.scale(45, 900)):
            rx = {}
            doc = sgen.Gen(r, dial, W, depth=2, rx=rx).document()
            jobs[dial].append((doc, True, r.random() < .15))
        for _ in range(ctx.scale(60, 1500)):
            doc = sgen.Gen(r, dial, W, depth=r.choice([1, 2]), rx={}).document()
            for _ in range(r.choice([1, 1, 2])):
                doc = spoil(r, doc)
            jobs[dial].append((doc, False, r.random() < .15))
        for _ in range(ctx.scale(15, 400)):
            net = sgen.Net(r, dial, dict(W, R=3), rx={}, ndocs=1, dynamic=True, depth=1)
            if net.roots[0].base:
                doc = net.out[0]
                if r.random() < .5:
                    doc = spoil(r, doc)
                jobs[dial].append((doc, False, False))
    inside = {d: [] for d in DIALS}
    for k in range(ctx.scale(60, 1200)):
        for dial, *e in standing(r, c, DIALS[k % 3]):
            inside[dial].append(e)
    for dial in DIALS:
        docs = meta_docs(dial)
        js = jobs[dial]

        def history():
            return dict(rx=RX, fmt={}, judge=['valid'], docs=[dict(uri=codes(d['$id']), val=enc(d), g=dial) for d in docs], ev=[dict(op='load')], info=[dict(load=dial)])
        for k in range(0, len(inside[dial]), 60):
            H = history()
            es = inside[dial][k:k + 60]
            H['ev'] += [e for e, _, _ in es]
            H['info'] += [i for _, i, _ in es]
            H['tab'] = table(docs, [v for _, _, v in es])
            hs.append(H)
        r.shuffle(js)
        n = 40
        for k in range(0, len(js), n):
            values = []
            H = history()
            for doc, well, full in js[k:k + n]:
                record(H, values, r, c, dial, doc, well, full)
            H['tab'] = table(docs, values)
            hs.append(H)
    ctx.validate('MetaCheck', 'MetaCheck.cfg', hs)
