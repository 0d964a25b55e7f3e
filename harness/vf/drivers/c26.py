"""C26: formats.  Histories over several catalogs: enabling attributes, registering validators, building schemas and evaluating
them; the specification (spec/FormatCheck.tla) says for each schema which of its formats assert."""
import copy
import itertools
import json
import random

from jschon import JSON, JSONSchema, URI
from jschon.catalog import Catalog
from jschon.vocabulary.format import format_validator

from .. import evalrun, sgen
from ..core import attempt, codes
from ..schemalib import DIALS, META, at, catalog, dump, enc, table, tokens

ASSUMPTIONS = ['format values are strings', 'a validator is not replaced after a schema that uses it was built', 'validators reject with ValueError']
W = dict(V=.6, P=2, O=2, A=2, U=.4, N=0, F=6)
_serial = itertools.count()
_cats = []


def canon(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return ['n', float(v)]
    if isinstance(v, list):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {k: canon(x) for k, x in sorted(v.items())}
    raise TypeError(f'a validator was given a {type(v)}')


def key(v):
    return json.dumps(canon(v), sort_keys=True)


class Gen(sgen.Gen):
    def __init__(self, *a, formats=(), **k):
        super().__init__(*a, **k)
        self.formats = formats
        self.kws = [x for x in self.kws if x[1]] + [('format', 5)]

    def keyword(self, out, kw, depth, desc, level):
        if kw == 'format':
            out[kw] = self.r.choice(self.formats)
        else:
            super().keyword(out, kw, depth, desc, level)


class Odd(ValueError):
    pass


def history(r, quick, fresh=False):
    serial = next(_serial)
    if fresh:
        cats = [catalog(f'vf26-{serial}-{k}') for k in range(2)]
    else:
        while len(_cats) < 3:
            _cats.append(catalog(f'vf26-{len(_cats)}'))
        cats = r.sample(_cats, r.choice([1, 2, 3]))
    for c in cats:
        c.add_uri_source(None, evalrun.SOURCE)
    evalrun.SOURCE.docs = {}
    used = set()
    names = [n.format(serial) for n in r.sample(['f{}', 'g {}', 'é{}', '{}', 'a/{}', 'F{}', 'email{}'], r.randint(2, 4))]
    if fresh:
        names.append('json-pointer')
    rx = {}
    W2 = {k: v for k, v in W.items() if k != 'F'}
    ev, info, docs, values = [], [], [], []
    pool, types, registered = {}, {}, set()
    built = {k: [] for k in range(len(cats))}
    cms = [c.cache() for c in cats]
    cids = [m.__enter__() for m in cms]
    judge = ['valid', 'ann']

    def put(e, i):
        ev.append(e)
        info.append(i)

    def vals(n):
        if n not in pool:
            pool[n] = [sgen.instance(r, 2) for _ in range(r.randint(1, 4))]
            if r.random() < .3:
                pool[n] += [copy.deepcopy(x) for x in r.choice(list(pool.values()))]
        return pool[n]

    def register(n):
        ts = r.choice([None, ('string',), tuple(r.sample(['null', 'boolean', 'number', 'string', 'array', 'object'], r.randint(0, 6)))])
        bad = vals(n)
        keys = {key(v) for v in bad}
        exc = r.choice([ValueError, Odd])

        def f(v):
            if key(v) in keys:
                raise exc(*r.choice([(), ('no',), ('no', 1)]))
            return r.choice([None, False, True])
        (format_validator(n) if ts is None else format_validator(n, instance_types=ts))(f)
        registered.add(n)
        put(dict(op='register', name=n, types=list(('string',) if ts is None else ts), bad=[enc(v) for v in bad]), dict(register=n, types=ts, bad=bad))

    def enable(k, ns):
        put(dict(op='enable', c=k + 1, names=ns, out=attempt(lambda: cats[k].enable_formats(*ns))), dict(enable=ns, catalog=k))

    def build(k):
        dial = r.choice(DIALS)
        g = Gen(r, dial, W2, depth=r.choice([1, 2]), rx=rx, formats=names)
        uri = f'http://t{serial}.example/d{len(docs)}'
        alone = True
        doc = g.document() if r.random() < .8 else {'format': r.choice(names)}
        if isinstance(doc, bool):
            doc = {'allOf': [doc, {'format': r.choice(names)}]}
        plain = [b for b in built[k] if '$schema' not in docs[b[0]][0]]
        if plain and r.random() < .4:
            doc = {**doc, '$ref': docs[r.choice(plain)[0]][2]}
            alone = False
        if '$ref' not in doc and r.random() < .3:
            doc['$defs'] = {'x': {'format': r.choice(names)}}
            doc['$ref'] = '#/$defs/x'
        docs.append((doc, dial, uri))
        box = []
        used.update(n for n in names if json.dumps(n) in json.dumps(doc))
        if alone and r.random() < .35:
            # the document as a metaschema, loaded and then used as a schema
            doc['$schema'] = META[dial]
            evalrun.SOURCE.docs = {**evalrun.SOURCE.docs, uri: doc}
            std = [v for v in cats[k].get_metaschema(URI(META[dial]))['$vocabulary'].value if not v.endswith('/core')]
            out = attempt(lambda: box.append(cats[k].create_metaschema(URI(uri), URI(META[dial].replace('/schema', '/vocab/core')), *map(URI, std))))
        else:
            out = attempt(lambda: box.append(JSONSchema(doc, catalog=cats[k], cacheid=cids[k], uri=URI(uri), metaschema_uri=URI(META[dial]))))
        put(dict(op='build', c=k + 1, d=len(docs), out=out), dict(build=doc, catalog=k, dialect=dial))
        if box:
            built[k].append((len(docs) - 1, box[0]))
        return bool(box)

    def evaluate(k):
        j = r.randrange(len(built[k]))
        d, s = built[k][j]
        x = r.random()
        if x < .5 and pool:
            v = r.choice(pool[r.choice(sorted(pool))])
            v = r.choice([v, [v, v], {'a': v, 'foo': v}, v])
        elif x < .7 and 'json-pointer' in names:
            v = r.choice(['', '/', '/a', 'a', '/~', '/~0', '/~2', '#/a', 0, '/a/~1b', ' /a', '/a\n', ['x', '/y']])
        else:
            v = sgen.fit(r, docs[d][0], docs[d][0])
        values.append(v)
        inst = JSON(v)
        put(dict(op='eval', c=k + 1, at=[j + 1, []], inst=enc(v), ip=[], out=attempt(lambda: dump(s.evaluate(inst)))), dict(schema=docs[d][0], catalog=k, instance=v))

    try:
        good = True
        for _ in range(16 if quick else 26):
            k = r.randrange(len(cats))
            x = r.random()
            if x < .18:
                # a validator may be replaced as long as nothing uses it
                rest = [n for n in names if (n not in registered or n not in used) and n != 'json-pointer']
                if rest:
                    n = r.choice(rest)
                    register(n)
                    if r.random() < .3 and n not in used:
                        register(n)
            elif x < .32:
                enable(k, r.sample(names, r.choice([0, 1, 1, 2, len(names)])))
                # the validators of jschon.formats come with the first enabling
                if fresh and 'json-pointer' not in registered:
                    registered.add('json-pointer')
                    put(dict(op='register', name='json-pointer', types=['string'], bad=[]), dict(register='json-pointer'))
            elif x < .4:
                n = r.choice(names + ['nope'])
                put(dict(op='enabled', c=k + 1, name=n, out=attempt(lambda: cats[k].is_format_enabled(n))), dict(is_enabled=n, catalog=k))
            elif x < .6 or not built[k]:
                good = build(k)
                if not good:
                    break
            else:
                evaluate(k)
        for k in range(len(cats)):
            for _ in range(2):
                if good and built[k]:
                    evaluate(k)
    finally:
        for m in cms:
            m.__exit__(None, None, None)
        if fresh:
            for c in cats:
                getattr(Catalog, '_catalog_registry', {}).pop(c.name, None)
    return dict(tab=table([d[0] for d in docs], values, names, list(pool.values())), rx=rx or {'': ['seq', []]}, judge=judge,
                docs=[dict(uri=codes(u), val=enc(v), g=g) for v, g, u in docs], ev=ev, info=info)


def run(ctx):
    r = random.Random(ctx.seed)
    hs = [history(r, ctx.quick, fresh=True) for _ in range(ctx.scale(12, 150))]
    hs += [history(r, ctx.quick) for _ in range(ctx.scale(380, 9000))]
    ctx.validate('FormatCheck', 'FormatCheck.cfg', [h for h in hs if h['docs'] and h['ev']])
