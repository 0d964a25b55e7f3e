"""C27: catalogs are found by name and are independent of each other."""
import copy
import json
import random

from jschon import JSON, JSONSchema, URI, create_catalog
from jschon.catalog import Catalog, Source
from jschon.vocabulary import Keyword
from jschon.vocabulary.format import format_validator

from ..core import attempt
from ..schemalib import DIALS, META      # noqa: catalogs find their metaschemas

ASSUMPTIONS = ['what a construction that raises leaves under its own URI is not judged', 'a format enabled after a schema was built may or may not be asserted by it',
               'a catalog gets its vocabulary and its source once']

BASE = 'https://vf.example/'
VOC = BASE + 'voc'
OWN = BASE + 'meta'
FORMATS = ['vf-a', 'vf-b', 'vf-c']


def _odd(v):
    raise ValueError('never')


for _f in FORMATS:
    format_validator(_f)(_odd)


class Src(Source):
    """A source whose documents tell which source they are from."""

    def __init__(self, mark):
        super().__init__()
        self.mark = mark

    def __call__(self, rest):
        core = 'https://json-schema.org/draft/2020-12/vocab/'
        return copy.deepcopy({
            'doc': {'const': self.mark},
            'mark': self.mark,
            'meta': {'$schema': META['2020-12'], '$id': OWN, 'type': ['object', 'boolean'],
                     '$vocabulary': {core + 'core': True, core + 'applicator': True, core + 'validation': True, core + 'format-annotation': True, VOC: True}},
        }[rest])


def keyword(m):
    class MarkKeyword(Keyword):
        key = 'vfMark'

        def evaluate(self, instance, result):
            result.annotate(m)
    MarkKeyword.mark = m
    return MarkKeyword


class World:
    """Catalogs and schemas by the numbers of the events that made them."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.cats, self.schs = {}, {}
        self.names = set()

    def name(self, n):
        return n if n == 'catalog' else self.prefix + n

    def number(self, d, x):
        for k, v in d.items():
            if v is x:
                return k
        return -1

    def by(self, by):
        return dict(catalog=self.cats[by[1]]) if by[0] == 'obj' else {} if by[1] == 'catalog' else dict(catalog=self.name(by[1]))

    def build(self, ev, o, how):
        body = {'fmt': {'format': o['f']}, 'ref': {'$ref': BASE + 'doc'}, 'voc': {'vfMark': True}, 'true': True}[o['k']]
        if o['k'] != 'true':
            body = [lambda: body, lambda: {'properties': {'a': body}}, lambda: {'allOf': [True, body]}, lambda: {'additionalProperties': body},
                    lambda: {'$defs': {'x': body}, '$ref': '#/$defs/x'}][how // 16]()
        d = o['d']
        uri = OWN if d == 'own' else META[d]
        kw = self.by(o['by'])
        if o['k'] != 'true':
            if how & 2:
                body = {'$schema': uri, **body}
            else:
                kw['metaschema_uri'] = URI(uri)
        if o['u']:
            if how & 4 and o['k'] != 'true':
                body = {'$id': o['u'], **body}
            else:
                kw['uri'] = URI(o['u'])
        s = JSONSchema.loads(json.dumps(body), **kw) if how & 8 else JSONSchema(body, **kw)
        s.vf_how = how
        self.schs[ev] = s
        nodes, st = [], [s]
        while st:
            n = st.pop()
            nodes.append(n.catalog)
            if n.type == 'object':
                nodes.append(n.metaschema.catalog)
                for k in n.keywords.values():
                    if getattr(k, 'refschema', None) is not None:
                        nodes.append(k.refschema.catalog)
                for k in ('properties', 'allOf', 'additionalProperties', '$defs'):
                    x = n.data.get(k)
                    if x is not None:
                        st += list(x.data.values()) if k in ('properties', '$defs') else x.data if k == 'allOf' else [x]
        return s, [self.number(self.cats, c) for c in nodes]

    def apply(self, ev, o, how=0):
        """(outcome, catalogs of the parts of a schema)"""
        op = o['op']
        c = self.cats.get(o.get('c'))
        nodes = []
        if op == 'create':
            kw = {} if o['name'] == 'catalog' else dict(name=self.name(o['name']))

            def f():
                self.cats[ev] = create_catalog(*o['vs'], **kw) if o['vs'] or how % 2 else Catalog(*kw.values())
                if self.cats[ev].name != self.name(o['name']):
                    return -1
                return ev
        elif op == 'find':
            def f():
                return self.number(self.cats, Catalog.get_catalog() if o['name'] == 'catalog' and how % 2 else Catalog.get_catalog(self.name(o['name'])))
        elif op == 'enable':
            def f():
                c.enable_formats(*o['fs'])
        elif op == 'enabled':
            def f():
                return c.is_format_enabled(o['f'])
        elif op == 'setvoc':
            def f():
                c.create_vocabulary(URI(VOC), keyword(o['mark']))
        elif op == 'getvoc':
            def f():
                return c.get_vocabulary(URI(VOC)).kwclasses['vfMark'].mark
        elif op == 'setsrc':
            def f():
                c.add_uri_source(URI(BASE) if how % 2 else None, Src(o['mark']) if how % 2 else Full(o['mark']))
        elif op == 'load':
            def f():
                return c.load_json(URI(BASE + 'mark'))
        elif op == 'schema':
            def f():
                s, ns = self.build(ev, o, how)
                nodes.extend(ns)
                return self.number(self.cats, s.catalog)
        elif op == 'get':
            def f():
                return self.number(self.schs, c.get_schema(URI(o['u'])))
        elif op == 'getmeta':
            def f():
                m = c.get_metaschema(URI(OWN if o['d'] == 'own' else META[o['d']]))
                return o['d'] if m.catalog is c and str(m.uri) == (OWN if o['d'] == 'own' else META[o['d']]) else 'other'
        return attempt(f), nodes

    def show(self, n, o):
        """What evaluating a schema shows."""
        s = self.schs[n]
        wrap = (lambda v: {'a': v}) if s.vf_how // 16 in (1, 3) else (lambda v: v)

        def f():
            if o['k'] == 'fmt':
                return 0 if s.evaluate(JSON(wrap('x'))).valid else 1
            if o['k'] == 'ref':
                ok = [m for m in range(1, 80) if s.evaluate(JSON(wrap(m))).valid]
                return ok[0] if len(ok) == 1 else -len(ok) - 1
            if o['k'] == 'voc':
                a = [x['annotation'] for x in s.evaluate(JSON(wrap(1))).output('basic')['annotations'] if x['keywordLocation'].endswith('/vfMark')]
                return a[0] if len(a) == 1 and isinstance(a[0], int) and not isinstance(a[0], bool) else 0 if a == [True] else -1
            return 0 if s.evaluate(JSON(1)).valid else -1
        return attempt(f)


class Full(Src):
    """As Src, for complete URIs."""

    def __call__(self, uri):
        return super().__call__(uri[len(BASE):]) if uri.startswith(BASE) else {}[uri]


def history(r, n, k):
    w = World(f'vf{k}:')
    Catalog()       # the default catalog is not one of this history's
    names = ['p', 'q'] + (['catalog'] if r.random() < .5 else [])
    ev, info = [], []
    made = {}

    def do(o, how):
        i = len(ev) + 1
        out, nodes = w.apply(i, o, how)
        ev.append(dict(o, out=out, **({'nodes': nodes} if o['op'] == 'schema' else {})))
        info.append(f'{o} how={how}')
        if o['op'] == 'schema' and out[0] == 'ok':
            made[i] = o
    if 'catalog' in names:
        do(dict(op='create', name='catalog', vs=[]), 0)
    mark = set()
    for _ in range(n):
        x = r.random()
        cs = list(w.cats)
        how = r.randrange(80)
        if not cs or x < .2:
            vs = r.choice([[], ['2020-12'], ['2020-12'], ['2019-09'], ['next'], ['2019-09', '2020-12'], ['2020-12', 'next'], ['2020-12', '2020-12'],
                           ['2020-12', 'nope'], ['2020'], ['', '2019-09']])
            do(dict(op='create', name=r.choice(names), vs=vs), how)
            continue
        c = r.choice(cs[-3:] if r.random() < .7 else cs)
        if x < .3:
            do(dict(op='find', name=r.choice(names + ['r'])), how)
        elif x < .38:
            do(dict(op='enable', c=c, fs=r.sample(FORMATS, r.choice([0, 1, 1, 2]))), how)
        elif x < .43:
            do(dict(op='enabled', c=c, f=r.choice(FORMATS)), how)
        elif x < .58:
            op = r.choice(['setvoc', 'setsrc'])
            if (op, c) not in mark:
                mark.add((op, c))
                do(dict(op=op, c=c, mark=len(ev) + 1), how)
        elif x < .66:
            do(dict(op=r.choice(['getvoc', 'load']), c=c), how)
        elif x < .84:
            by = ['obj', c] if r.random() < .5 else ['name', r.choice(names + ['r'] * (r.random() < .2))]
            do(dict(op='schema', by=by, d=r.choice(['2020-12', '2020-12', '2020-12', '2019-09', 'next', 'own', 'own']),
                    k=r.choice(['fmt', 'ref', 'voc', 'true']), f=r.choice(FORMATS), u=r.choice(['', 'https://u.example/1', 'https://u.example/2'])), how)
        elif x < .9:
            do(dict(op='get', c=c, u=r.choice(['https://u.example/1', 'https://u.example/2'])), how)
        elif x < .94:
            do(dict(op='getmeta', c=c, d=r.choice(['2020-12', '2019-09', 'own'])), how)
        elif made:
            s = r.choice(list(made))
            ev.append(dict(op='show', s=s, out=w.show(s, made[s])))
            info.append(f'show {s}')
    for s in made:
        ev.append(dict(op='show', s=s, out=w.show(s, made[s])))
        info.append(f'show {s}')
    for nm in names:
        if nm != 'catalog':
            do(dict(op='find', name=nm), 0)
    for c in list(w.cats)[-4:]:
        for f in FORMATS[:2]:
            do(dict(op='enabled', c=c, f=f), 0)
        do(dict(op='getvoc', c=c), 0)
        do(dict(op='load', c=c), 0)
        do(dict(op='get', c=c, u='https://u.example/1'), 0)
    for nm in names:        # let the catalogs go
        Catalog(w.name(nm)) if nm != 'catalog' else Catalog()
    return dict(ev=ev, info=info)


def replay(ctx, cfg, r):
    res = ctx.model('MC_Catalogs', cfg)
    cases = [json.loads(x[6:]) for x in res.lines if x.startswith('VCASE ')]
    want = 1200 if ctx.quick else 40000
    if len(cases) > want:
        cases = r.sample(cases, want)
    for n, c in enumerate(cases):
        w = World(f'vfr{n}:')
        how = r.randrange(80)
        for i, x in enumerate(c['log'], 1):
            out, nodes = w.apply(i, x['o'], how)
            if (out[0] == 'ok') != x['ok'] or (x['o']['op'] == 'schema' and x['ok'] and set(nodes) != {out[1]}):
                ctx.fail('replay-outcome', log=c['log'][:i], out=out, nodes=nodes, how=how)
                break
        else:
            v = c['view']
            got = dict(names={}, cats=[], schs=[])
            for nm in v['names']:
                o = w.apply(0, dict(op='find', name=nm))[0]
                got['names'][nm] = o[1] if o[0] == 'ok' else 0
            for k in v['cats']:
                ask = lambda op, **kw: (lambda o: o[1] if o[0] == 'ok' else 0)(w.apply(0, dict(op=op, c=k['c'], **kw))[0])
                got['cats'].append(dict(c=k['c'], un=k['un'], fm=ask('enabled', f='vf-a'), voc=ask('getvoc'), src=ask('load'), u=0 if k['un'] else ask('get', u='s:u'),
                                        ds=sorted(d for d in ('2019-09', '2020-12', 'own') if ask('getmeta', d=d) == d)))
                k['ds'] = sorted(k['ds'])
            for s in v['schs']:
                o = c['log'][s['s'] - 1]['o']
                x = w.show(s['s'], o)
                got['schs'].append(dict(s=s['s'], c=w.number(w.cats, w.schs[s['s']].catalog),
                                        shows=s['shows'] if x[0] == 'ok' and x[1] in s['shows'] else x))
            if got != v:
                ctx.fail('replay-observation', log=c['log'], got=got, want=v, how=how)
        for nm in ('p', 'q'):
            if w.cats:
                Catalog(w.name(nm))
    ctx.traces += len(cases)
    ctx.notes['replayed_from_model'] = len(cases)


def run(ctx):
    r = random.Random(ctx.seed)
    replay(ctx, 'MC_Catalogs.cfg' if ctx.quick else 'MC_CatalogsDeep.cfg', r)
    hs = [history(r, r.randint(6, 30), k) for k in range(ctx.scale(400, 6000))]
    ctx.validate('CatalogsCheck', 'CatalogsCheck.cfg', hs)
