"""C21: evaluation is a function of schema and instance.  Histories of evaluations - of the same schema objects, of copies with the
members of every object reordered, on equal instances written differently or standing in other documents - with other work in
between; the specification (spec/PurityCheck.tla) remembers every outcome."""
import copy
import itertools
import random

from jschon import JSON, JSONSchema, URI

from .. import evalrun, pairs, sgen
from ..core import attempt
from ..schemalib import DIALS, META, at, dump, enc, sized, tokens

ASSUMPTIONS = ['reordered schemas are built in another cache under the same URIs', 'the texts of errors are compared for repeated evaluations only',
               'lists of names in annotations are compared as sets when members have been reordered']
W = dict(V=2, P=3, O=3, A=3, U=2, N=1)


def shuffled(r, v):
    if isinstance(v, dict):
        ks = list(v)
        r.shuffle(ks)
        return {k: shuffled(r, v[k]) for k in ks}
    if isinstance(v, list):
        return [shuffled(r, x) for x in v]
    return v


def respelled(r, v):
    """Equal numbers in another form."""
    if isinstance(v, dict):
        return {k: respelled(r, x) for k, x in v.items()}
    if isinstance(v, list):
        return [respelled(r, x) for x in v]
    if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2**50 and r.random() < .6:
        return float(v)
    if isinstance(v, float) and v == int(v) and abs(v) < 2**50 and r.random() < .6:
        return int(v)
    return v


def constants(s, out):
    """What a schema compares with."""
    if isinstance(s, dict):
        for k, v in s.items():
            if k == 'const':
                out.append(v)
            elif k == 'enum':
                out += v
            else:
                constants(v, out)
    elif isinstance(s, list):
        for x in s:
            constants(x, out)
    return out


def varied(r, v, consts):
    """v with something in it replaced."""
    if isinstance(v, list) and v and r.random() < .75:
        j = r.randrange(len(v))
        return v[:j] + [varied(r, v[j], consts)] + v[j + 1:]
    if isinstance(v, dict) and v and r.random() < .75:
        k = r.choice(list(v))
        return {**v, k: varied(r, v[k], consts)}
    return copy.deepcopy(r.choice(consts)) if consts and r.random() < .6 else sgen.instance(r, 1)


def schema_snap(s):
    """Everything readable about a schema document."""
    out = []

    def walk(n):
        u = [str(n.path), n.type]
        if isinstance(n, JSONSchema):
            u += [str(n.canonical_uri), str(n.base_uri), str(n.metaschema_uri), list(n.keywords)]
        if n.type == 'array':
            out.append([u, len(n.data)])
            for x in n.data:
                walk(x)
        elif n.type == 'object':
            out.append([u, list(n.data)])
            for x in n.data.values():
                walk(x)
        else:
            out.append([u, n.data])
    walk(s)
    return enc([out, s.value])


def json_snap(n):
    out = []

    def walk(x):
        out.append([str(x.path), x.type, x.key, x.parent is None])
        if x.type == 'array':
            for y in x.data:
                walk(y)
        elif x.type == 'object':
            for y in x.data.values():
                walk(y)
    walk(n)
    return enc([out, n.value])


class Story:
    def __init__(self, r, docs, rx, roomy):
        self.r, self.docs, self.c = r, docs, evalrun.cat()
        self.ev, self.info, self.objs, self.caches = [], [], [], []
        self.roomy = roomy

    def build(self, docs, cid):
        out = []
        for doc, dial, uri in docs:
            kw = dict(catalog=self.c, cacheid=cid)
            if uri is not None:
                kw['uri'] = URI(uri)
            if not (isinstance(doc, dict) and '$schema' in doc):
                kw['metaschema_uri'] = URI(META[dial])
            out.append(JSONSchema(copy.deepcopy(doc), **kw))
        return out

    def cache(self):
        cm = self.c.cache()
        self.caches.append(cm)
        return cm.__enter__()

    def close(self):
        while self.caches:
            self.caches.pop().__exit__(None, None, None)

    def snap_schemas(self, info):
        for n, (set_, ss) in enumerate(self.objs):
            for m, s in enumerate(ss):
                self.ev.append(dict(op='snap', kind='schema', what=f's{n}.{m}', val=schema_snap(s)))
                self.info.append(info)

    def evaluate(self, obj, d, path, value, node=None):
        r = self.r
        s = at(self.objs[obj][1][d], path)
        inst = JSON(value) if node is None else node
        root = inst
        while root.parent is not None:
            root = root.parent
        before = json_snap(root)
        out = attempt(lambda: dump(sized(s.evaluate(inst)), errors=True))
        if out[0] == 'err' and out[1][0] in ('TooBig', 'HANG'):      # random references can make an evaluation exponentially large
            return inst
        info = dict(docs=self.docs, schema=[obj, d, path], instance=value)
        self.ev.append(dict(op='eval', s=f'{d}/{path}', obj=f'{obj}/{d}/{path}', inst=enc(inst.value), ip=tokens(str(inst.path)), out=out))
        self.info.append(info)
        n = f'i{len(self.ev)}'
        for snap in (before, json_snap(root)):
            self.ev.append(dict(op='snap', kind='instance', what=n, val=snap))
            self.info.append(info)
        return inst


def story(r, quick):
    dial = r.choice(DIALS)
    rx = {}
    load = False
    kind = flips = None
    x = r.random()
    if x < .3:
        # one assertion somewhere, and instances that satisfy it and do not
        from . import c17
        kw = r.choice(sgen.VALIDATION + ['enum', 'const', 'uniqueItems', 'required'])
        val = r.choice(list(c17.values(kw))) if kw != 'pattern' else r.choice(sorted(pairs.RXS))
        ws, wi = c17.PLACES[r.choice(sorted(c17.PLACES))]
        docs, spots, rx = [(ws({kw: val}), dial, evalrun.BASE)], [], dict(pairs.RXS)
        flips = [wi(sgen.fit(r, {kw: val}, True)) for _ in range(3)] + [wi(r.choice(c17.INST)) for _ in range(2)]
    elif x < .5:
        kind = r.choice(['obj', 'arr', 'arr', 'str', 'num'])
        docs = [(pairs.Maker(r, dial).document(kind, r.choice([0, 1, 1, 2])), dial, evalrun.BASE)]
        rx, spots = dict(pairs.RXS), []
    elif r.random() < .5:
        net = sgen.Net(r, dial, dict(W, R=3), rx=rx, ndocs=r.choice([1, 2]), dynamic=r.random() < .6, depth=2, load=load)
        docs = [(d, dial, u.base if u.given else None) for d, u in zip(net.out, net.roots)][::-1]
        spots = [(len(docs) - 1 - net.roots.index(u.root()), u.path) for u in net.units if u.base is not None or not next(u.resources()).rec]
    else:
        docs = [(sgen.Gen(r, dial, W, depth=r.choice([2, 3]), rx=rx).document(), dial, evalrun.BASE)]
        spots = []
    main = (len(docs) - 1, [])
    st = Story(r, [d[0] for d in docs], rx, quick)
    try:
        ok = attempt(lambda: st.objs.append((0, st.build(docs, st.cache()))))
        if ok[0] == 'err':
            return None
        for _ in range(2):
            again = [(shuffled(r, d), g, u) for d, g, u in docs]
            ok = attempt(lambda: st.objs.append((1, st.build(again, st.cache()))))
            if ok[0] == 'err':
                st.ev.append(dict(op='eval', s='x', obj='x', inst=['z'], ip=[], out=ok))
                st.info.append(dict(docs=[d[0] for d in docs], reordered=[d[0] for d in again]))
                break
        st.snap_schemas(dict(docs=st.docs))
        pool = [((0, []), v) for v in (flips or kind and pairs.instances(r, kind, 3) or [])]
        for _ in range(0 if pool else 3):
            spot = r.choice([main, main] + spots[:3])
            sub = docs[spot[0]][0]
            for t in spot[1]:
                sub = sub[int(t) if isinstance(sub, list) else t]
            pool.append((spot, sgen.fit(r, sub, docs[spot[0]][0]) if r.random() < .85 else sgen.instance(r)))
        consts = constants([d[0] for d in docs], [])
        for _ in range(2):
            spot, v = r.choice(pool)
            pool.append((spot, varied(r, v, consts)))
        key0 = r.choice(['a', 'a', 'a/b'])
        kept = []
        n = (18 if flips else 13) if quick else 22
        for k in range(n):
            (d, path), v = r.choice(pool)
            obj = 0 if r.random() < .5 else r.randrange(len(st.objs))
            x = r.uniform(.1, .9) if flips else r.random()
            if k < 2 or x < .2:
                kept.append((d, path, st.evaluate(obj, d, path, copy.deepcopy(v))))
            elif x < .3 and kept:
                d, path, node = r.choice(kept)
                st.evaluate(obj, d, path, node.value, node)
            elif x < .5:
                st.evaluate(obj, d, path, shuffled(r, v))
            elif x < .6:
                st.evaluate(obj, d, path, respelled(r, shuffled(r, v)))
            elif x < .78:
                w = shuffled(r, v) if r.random() < .3 else v
                key = key0 if r.random() < .7 else r.choice(['a', 'a/b', '', '0', 'é'])
                big = JSON({'q': [v, {key: w, 'z': 1}], 'r': [[w], None]})
                st.evaluate(obj, d, path, w, big['q'][1][key] if r.random() < .7 else big['r'][0][0])
            elif x < .82:
                # a document that became equal through changes
                node = JSON({'x': None})
                node['x'] = copy.deepcopy(v)
                st.evaluate(obj, d, path, v, node['x'])
            elif x < .87:
                attempt(lambda: st.objs[obj][1][d].validate())
            elif x < .92:
                # other documents under the same URIs, in a cache of the same catalog or in this one
                other = [(sgen.Gen(r, dial, W, depth=1).document(), dial, u or (g0.get('$id') if isinstance(g0, dict) else None)) for g0, _, u in docs]
                other = [({**o, '$dynamicAnchor': 'n', '$anchor': 'zz', '$defs': {'a': False}} if isinstance(o, dict) and dial != '2019-09' else o, g, u) for o, g, u in other]
                cid = st.objs[obj][1][0].cacheid if r.random() < .6 else st.cache()
                attempt(lambda: st.build(other, cid))
            elif x < .96:
                with st.c.cache() as cid:
                    attempt(lambda: st.build(docs, cid)[-1].evaluate(JSON(v)))
            elif st.caches:
                # the temporary cache goes, the schema objects stay
                st.caches.pop(r.randrange(len(st.caches))).__exit__(None, None, None)
            if r.random() < .15:
                st.snap_schemas(dict(docs=st.docs))
        st.snap_schemas(dict(docs=st.docs))
    finally:
        st.close()
    return dict(ev=st.ev, info=st.info)


# one member or item each, so that the unevaluated keywords tell which of them came before
def contributors(dial):
    old = dial == '2019-09'
    p = lambda n: {'properties': {n: True}}
    obj = {'properties': {'p': True}, 'patternProperties': {'^b': True}, 'if': {**p('i'), 'required': ['i']}, 'then': p('t'), 'else': p('e'), 'dependentSchemas': {'d': p('d')}, 'allOf': [p('l'), True],
           'anyOf': [p('n'), False], 'oneOf': [False, p('o')], 'not': {'not': p('z')}, '$ref': '#/$defs/r'}
    if not old:
        obj['$dynamicRef'] = '#/$defs/y'
    names = dict(properties='p', patternProperties='bb', then='t', dependentSchemas='d', allOf='l', anyOf='n', oneOf='o', **{'if': 'i', 'else': 'e', 'not': 'z', '$ref': 'r', '$dynamicRef': 'y'})
    a = lambda n: {'items' if old else 'prefixItems': [True] * n}
    arr = {'items' if old else 'prefixItems': [True], 'if': a(2), 'then': a(3), 'else': a(4), 'allOf': [a(2), True], 'anyOf': [a(3), False], 'oneOf': [False, a(3)], 'not': {'not': a(4)}, '$ref': '#/$defs/a'}
    if old:
        arr['additionalItems'] = {'type': 'string'}
    else:
        arr.update({'contains': {'const': 9}, 'items': {'type': 'string'}, '$dynamicRef': '#/$defs/b'})
    defs = {'r': p('r'), 'y': p('y'), 'a': a(2), 'b': a(3)}
    return obj, names, arr, defs


def systematic(r, quick):
    """Every two keywords on which unevaluatedProperties or unevaluatedItems depends, with it."""
    for dial in DIALS:
        obj, names, arr, defs = contributors(dial)
        for kws, un in ((obj, 'unevaluatedProperties'), (arr, 'unevaluatedItems')):
            for k1, k2 in itertools.combinations(kws, 2):
                if quick and dial == 'next' and r.random() < .7:
                    continue
                doc = {k1: kws[k1], k2: kws[k2], un: r.choice([False, False, {'type': 'null'}])}
                if un[-1] == 's' and un == 'unevaluatedProperties':
                    full = {names[k1]: 1, names[k2]: 1}
                    if 'then' in (k1, k2):
                        full['i'] = 1
                    if 'else' in (k1, k2):
                        full.pop('i', None)
                    insts = [full, {**full, 'q': 1}, {names[k2]: None}]
                else:
                    insts = [[1, 2], [1, 2, 3, 'x'], [9, 1, 9, 's', None][:r.randint(1, 5)]]
                yield dict(doc, **{'$defs': defs}), dial, insts, {'^b': pairs.RXS['^b']}, [k1, k2, un]


def mixed(r, quick, n):
    """A few keywords about the same kind of value, in every order."""
    for _ in range(n):
        dial, kind = r.choice(DIALS), r.choice(['obj', 'arr', 'arr', 'obj', 'str', 'num'])
        m = pairs.Maker(r, dial)
        un = {'obj': {'unevaluatedProperties'}, 'arr': {'unevaluatedItems'}}.get(kind)
        doc = m.document(kind, r.choice([0, 0, 1]), r.choice([3, 3, 4]), un if r.random() < .45 else None)
        yield doc, dial, pairs.instances(r, kind, 3), pairs.RXS, [k for k in doc if k not in ('$defs', '$recursiveAnchor')]


def permuted(r, doc, dial, insts, rx, keys):
    st = Story(r, [doc], rx, True)
    rest = {k: v for k, v in doc.items() if k not in keys}
    orders = list(itertools.permutations(keys))
    if len(orders) > 24:
        orders = r.sample(orders, 24)
    try:
        for n, o in enumerate(orders):
            again = {**({} if n % 2 else rest), **{k: doc[k] for k in o}, **(rest if n % 2 else {})}
            ok = attempt(lambda: st.objs.append((n, st.build([(again, dial, evalrun.BASE)], st.cache()))))
            if ok[0] == 'err':
                if n == 0:
                    return None
                st.ev.append(dict(op='eval', s='x', obj='x', inst=['z'], ip=[], out=ok))
                st.info.append(dict(doc=doc, reordered=again))
                return dict(ev=st.ev, info=st.info)
        for v in insts:
            for n, o in enumerate(orders):
                out = attempt(lambda: dump(sized(st.objs[n][1][0].evaluate(JSON(v))), errors=True))
                if out[0] == 'err' and out[1][0] in ('TooBig', 'HANG'):
                    return None
                st.ev.append(dict(op='eval', s='0/', obj=f'{n}', inst=enc(v), ip=[], out=out))
                st.info.append(dict(doc=doc, order=list(o), first=list(orders[0]), instance=v))
    finally:
        st.close()
    return dict(ev=st.ev, info=st.info)


def run(ctx):
    r = random.Random(ctx.seed)
    hs = [h for h in (story(r, ctx.quick) for _ in range(ctx.scale(300, 6000))) if h]
    hs += [h for h in (permuted(r, *x) for x in (*systematic(r, ctx.quick), *mixed(r, ctx.quick, ctx.scale(60, 1500)))) if h]
    ctx.validate('PurityCheck', 'PurityCheck.cfg', hs)
