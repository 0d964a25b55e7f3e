"""C15: static references.  Random networks of documents, embedded resources and anchors, built together or loaded on demand; references
to every kind of place in a schema; and references that cannot be resolved.  The specification resolves every reference itself."""
import random
import urllib.parse

from .. import evalrun, pairs, refcases, sgen
from ..schemalib import DIALS, META

ASSUMPTIONS = ['no cycle of references stays at one instance location', 'references do not pass through keywords that are unknown to the dialect',
               'base URIs below a urn: or tag: URI are absolute']
W = dict(V=2, P=2, O=2, A=2, U=.6, R=5)

ONE = {'not', 'if', 'then', 'else', 'contains', 'additionalProperties', 'unevaluatedProperties', 'propertyNames', 'items', 'additionalItems', 'unevaluatedItems', 'contentSchema'}
MANY = {'allOf', 'anyOf', 'oneOf', 'prefixItems', 'items'}
NAMED = {'properties', 'patternProperties', 'dependentSchemas', '$defs'}


def places(v, path, out):
    """Paths of everything in a schema, schemas or not."""
    out.append(path)
    if isinstance(v, dict):
        for k, x in v.items():
            places(x, path + [k], out)
    elif isinstance(v, list):
        for j, x in enumerate(v):
            places(x, path + [str(j)], out)
    return out


def pointer(path, r=None, safe="!$&'()*+,;=:@/?~"):
    s = ''.join('/' + t.replace('~', '~0').replace('/', '~1') for t in path)
    s = urllib.parse.quote(s, safe=safe)
    if r and r.random() < .2 and '%' in s:
        s = ''.join(c.lower() if r.random() < .5 else c for c in s) if '%' in s and s.lower() == s else s
    return s


def anywhere(r, dial):
    """A reference to any place of a schema from below its root; most places are not schemas."""
    rx = {}
    g = sgen.Gen(r, dial, dict(V=1, P=3, O=3, A=3, U=1), depth=2, width=4, rx=rx)
    doc = g.schema(2)
    if not isinstance(doc, dict):
        doc = {'allOf': [doc]}
    p = r.choice(places(doc, [], []))
    x = r.random()
    if x < .06:
        p = p + [r.choice(['', '0', '-', '00', '1', 'nope', '-1', '+0'])]
    base = evalrun.BASE
    frag = pointer(p)
    ref = r.choice(['#' + frag, base + '#' + frag, 'main#' + frag, '../root/main#' + frag])
    kw = '$dynamicRef' if dial != '2019-09' and r.random() < .15 else '$ref'
    target = {kw: ref}
    if r.random() < .5:
        target.update(r.choice([{'type': 'integer'}, {'title': 't'}, {'required': ['a']}, {'minimum': 2}]))
    doc = {'$id': base, **doc, '$defs': {'via': target}} if r.random() < .5 else {**doc, '$defs': {'via': target}}
    doc['properties'] = dict(doc.get('properties') or {}, zz=r.choice([target, {'$ref': '#/$defs/via'}, {'items': target}])) if p[:1] != ['properties'] or True else doc['properties']
    h = evalrun.History([(doc, dial, None if '$id' in doc else base)], ['valid'], rx=rx)
    try:
        if h.build():
            for _ in range(3):
                h.evaluate({'zz': r.choice([sgen.instance(r, 2), [sgen.instance(r, 2)], sgen.fit(r, doc, doc)])})
    finally:
        h.close()
    return h.history()


def loaded(r, outer, inner):
    """Documents loaded for a reference: without a $schema of their own they are in the dialect of the schema that refers to them."""
    n = r.choice([1, 2, 3])
    U = [f'http://load.example/d{k}' for k in range(n)]
    docs = []
    for k in range(n):
        d = {'prefixItems': [{'type': r.choice(['string', 'integer'])}], 'maxItems': 3 + k}
        if r.random() < .5:
            d = {'anyOf': [{'unevaluatedItems': False, 'allOf': [d]}, {'type': 'object'}]}
        if r.random() < .4:
            d['$id'] = U[k]
        if k + 1 < n:
            d[r.choice(['$ref', 'allOf'])] = None
            if '$ref' in d:
                d['$ref'] = r.choice([U[k + 1], f'd{k + 1}', f'd{k + 1}#'])
            else:
                d['allOf'] = [{'$ref': U[k + 1]}]
        docs.append((d, inner, None if d.get('$id') else U[k]))
    via = {'$schema': META[inner], r.choice(['allOf', 'items', '$ref', 'not']): None}
    for kw, v in (('allOf', [{'$ref': U[0]}]), ('items', {'$ref': U[0]}), ('$ref', U[0]), ('not', {'$ref': U[0]})):
        if kw in via:
            via[kw] = v
    if r.random() < .5:
        via['$id'] = 'http://t.example/via'
    main = {'properties': {'a': {'$ref': '#/$defs/via'}}, '$defs': {'via': via}, 'prefixItems': [{'type': 'null'}], 'items': {'$ref': '#/$defs/via'}}
    if r.random() < .5:
        main['$schema'] = META[outer]
    h = evalrun.History([(main, outer, evalrun.BASE), *docs], ['valid'], load=True)
    try:
        if h.build():
            for _ in range(5):
                x = r.choice([['a'], [1], [1, 'a'], [], ['a', 1, 2, 3], [1, 2, 3, 4, 5], [['a'], [1]], 3, {}])
                h.evaluate(r.choice([{'a': x}, [x], [None, x]]))
    finally:
        h.close()
    return h.history()


SHAPES = [
    {'$ref': '#/$defs/a', 'type': 'integer', '$defs': {'a': {'minimum': 3}}},
    {'$ref': '#/$defs/a', '$defs': {'a': True}},
    {'$ref': '#/$defs/a', '$defs': {'a': False}},
    {'properties': {'next': {'$ref': '#'}}, 'required': ['v'], 'additionalProperties': {'type': 'integer'}},
    {'anyOf': [{'type': 'integer'}, {'type': 'array', 'items': {'$ref': '#'}}]},
    {'$defs': {'a': {'$ref': '#/$defs/b', 'minimum': 2}, 'b': {'$ref': '#/$defs/c', 'maximum': 9}, 'c': {'multipleOf': 2}}, '$ref': '#/$defs/a'},
    {'not': {'$ref': '#/$defs/a'}, '$defs': {'a': {'type': 'integer'}}},
    {'$defs': {'a': {'items': {'$ref': '#/$defs/b'}}, 'b': {'properties': {'v': {'$ref': '#/$defs/a'}, 'next': {'$ref': '#/$defs/b'}}, 'type': 'object'}}, '$ref': '#/$defs/a'},
    {'$defs': {'x': {'$id': 'x', '$defs': {'y': {'$id': 'y', '$ref': '#/$defs/z', '$defs': {'z': {'type': 'integer'}}}, 'z': {'type': 'string'}}, '$ref': 'y'}, 'z': {'type': 'array'}}, '$ref': 'x'},
    {'$defs': {'x': {'$id': 'd/x', '$ref': 'y'}, 'y': {'$id': 'd/y', '$ref': '../e#a'}, 'e': {'$id': 'e', '$anchor': 'a', 'type': 'integer'}}, '$ref': 'd/x'},
    {'$defs': {'x': {'$anchor': 'p', 'type': 'integer'}, 'i': {'$id': 'i', '$defs': {'x': {'$anchor': 'p', 'type': 'string'}}, 'properties': {'v': {'$ref': '#p'}}}}, 'properties': {'v': {'$ref': '#p'}, 'next': {'$ref': 'i'}}},
    {'items': {'$ref': 'urn:a:1'}, '$defs': {'q': {'$id': 'urn:a:1', '$ref': '#/$defs/w', '$defs': {'w': {'type': 'integer'}}}}},
    {'then': {'$ref': '#/$defs/t'}, 'if': {'$ref': '#/$defs/i'}, 'else': {'$ref': '#/$defs/e'}, '$defs': {'i': {'type': 'integer'}, 't': {'minimum': 3}, 'e': {'type': 'string'}}},
    {'$ref': 'http://nowhere.example/x'}, {'$ref': '#nope'}, {'$ref': '#/nope'}, {'$ref': '#/type', 'type': 'object'}, {'allOf': [{'$ref': 'no#'}]}, {'$defs': {'a': {'$ref': '#/$defs/b'}}},
    {'properties': {'$ref': {'type': 'integer'}, 'v': {'$ref': '#/properties/$ref'}}}, {'const': {'$ref': '#/nowhere'}}, {'enum': [{'$ref': 'x'}], 'title': 'x'}, {'x-unknown': {'$ref': '#/nowhere'}},
    {'$id': 'http://q.example/d/e?x=1', '$ref': '#/$defs/a', '$defs': {'a': {'items': {'$ref': '?x=1#/$defs/b'}}, 'b': {'type': 'integer'}}},
    {'$id': 'http://q.example/d/e?x=1', 'items': {'$ref': '?y=2'}, '$defs': {'q': {'$id': '?y=2', 'properties': {'v': {'$ref': '?x=1#/$defs/b'}, 'next': {'$ref': '?#/$defs/b'}}, '$defs': {'b': {'type': 'string'}}}, 'p': {'$id': 'e?', '$defs': {'b': {'type': 'array'}}}, 'b': {'type': 'integer'}}},
    {'$id': 'http://q.example/d/e?x=1', '$ref': 'e', '$defs': {'e': {'$id': 'e', 'type': 'integer'}}}, {'$id': 'http://q.example/d/e?x=1', '$ref': '?y'}, {'$id': 'http://q.example/d/e?x=1', '$ref': '?#a', '$anchor': 'a'},
    {'items': {'$ref': '//other.example'}, 'properties': {'v': {'$ref': '//other.example?a#/$defs/b'}, 'next': {'$ref': '//other.example/#b'}}, '$defs': {'o': {'$id': '//other.example', 'type': 'integer', '$defs': {'p': {'$id': '?a', '$defs': {'b': {'type': 'string'}}}, 'q': {'$id': '/', '$defs': {'b': {'$anchor': 'b', 'type': 'array'}}}}}}},
    {'$defs': {'': {'type': 'integer'}}, 'items': {'$ref': '#/$defs/'}}, {'$defs': {'%': {'type': 'integer'}, '%25': {'type': 'string'}}, 'items': {'$ref': '#/$defs/%25'}, 'properties': {'v': {'$ref': '#/$defs/%2525'}}},
]
VALUES = [1, 3, 4, 10, 'x', [], [1], ['a', 2], [4, [5, ['x']]], {'v': 1}, {'v': 'x'}, {'v': 1, 'next': {'v': 2}}, {'v': 1, 'next': {'next': {}}}, {'next': {'v': 3}}, [{'v': [{'next': {}}]}], [{'v': [1]}], {'next': {'v': 'a'}}, None]


KINDS = ('obj', 'arr', 'str', 'num')


def run(ctx):
    r = random.Random(ctx.seed)
    hs = []
    for d in DIALS:
        for s in SHAPES:
            hs += evalrun.exhaust([s], VALUES, ['valid'], d)
    for outer in DIALS:
        for inner in DIALS:
            hs += [loaded(r, outer, inner) for _ in range(ctx.scale(4, 60))]
    for _ in range(ctx.scale(260, 6000)):
        hs.append(anywhere(r, r.choice(DIALS)))
    for _ in range(ctx.scale(330, 9000)):
        dial = r.choice(DIALS)
        if r.random() < .25:
            load = r.random() < .5
            hs.append(evalrun.random_history(r, dial, W, ['valid'], ndocs=1 if load else r.choice([1, 2]), load=load, badness=.12, depth=2, n_inst=3))
        else:
            hs.append(evalrun.random_history(r, dial, W, ['valid'], ndocs=r.choice([1, 2, 3]), load=r.random() < .5, depth=r.choice([2, 2, 3]), n_inst=4))
    hs += pairs.histories(r, DIALS, ctx.scale(350, 6000), ['valid'], kinds=KINDS, must={'$ref'})
    ctx.validate('EvalCheck', 'EvalCheck.cfg', hs)
    tail = '' if ctx.quick else 'Deep'
    refcases.replay(ctx, r, ['MC_RefsStatic.cfg'], 2000, ['2020-12', 'next'])
    refcases.replay(ctx, r, [f'MC_RefsPlain{tail}.cfg'], 1200, DIALS)
