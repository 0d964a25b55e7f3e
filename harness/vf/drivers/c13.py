"""C13: schema caches."""
import json
import random

from jschon import JSONSchema, URI
from jschon.catalog import Catalog, Source
from jschon.exc import CatalogError

from ..core import attempt
from ..schemalib import DIALS, META, at, catalog

ASSUMPTIONS = ['what a construction that raises leaves behind under its own URIs is not judged',
               'a URI given to a document that has "$id" is not in use already', 'an identifier whose cache was emptied by deletion may count as taken or not']

_cats = None


def cats():
    global _cats
    if _cats is None:
        _cats = [catalog('vfca'), catalog('vfcb')]
        for c in _cats:
            c.src = Src()
            c.add_uri_source(None, c.src)
    return _cats


class Src(Source):
    def __init__(self):
        super().__init__()
        self.docs, self.on, self.log = {}, True, []

    def __call__(self, uri):
        if not self.on:
            raise CatalogError('off')
        self.log.append(uri)
        if uri not in self.docs:
            raise KeyError(uri)
        return self.docs[uri]


class Boom(Exception):
    pass


def split(u):
    b, _, f = u.partition('#')
    return [b, f]


def joined(u):
    return URI(u[0] + ('#' + u[1] if u[1] else ''))


class Hist:
    def __init__(self):
        self.cats = cats()
        self.docs, self.srcs = {}, {}
        self.values = {}
        self.ev, self.info = [], []
        self.ser, self.keep = {}, []
        self.open = []          # (c, k, context manager)
        self.flip = False
        self.lab = {}           # names for generated identifiers

    def serial(self, o):
        if id(o) not in self.ser:
            self.keep.append(o)
            self.ser[id(o)] = len(self.ser) + 1
        return self.ser[id(o)]

    def doc(self, name, value, nodes, refs=(), bad=False, src=None):
        """nodes: [(path, $id, $anchor, index of the resource root (from 1))]"""
        def ptr(p):
            return ''.join('/' + t for t in p)
        self.values[name] = value
        self.docs[name] = dict(bad=bad, refs=[split(x) for x in refs], nodes=[dict(ptr=ptr(p), id=i, anchor=a, res=r) for p, i, a, r in nodes])
        self.docs[name]['paths'] = [p for p, *_ in nodes]
        if src:
            self.srcs[src] = name
            for c in self.cats:
                c.src.docs[src] = value

    def tag(self, o):
        c = o.get('$comment') if o.type == 'object' else None
        if c is not None:
            n, k = c.data.rsplit(' ', 1)
            return [n, int(k)]
        return ['?', 0]

    def call(self, c, f, on=True, **kw):
        s = self.cats[c].src
        s.on, s.log = on, []
        out = attempt(f, **kw)
        s.on = True
        return out, [u for u in s.log if u in self.srcs]

    def where(self, k):
        self.flip = not self.flip
        return {} if k == 'default' and self.flip else dict(cacheid=k)

    def put(self, e, i):
        if 'k' in e:
            e['k'] = self.lab.get(e['k'], e['k'])
        self.ev.append(e)
        self.info.append(i)

    def new(self, c, k, d, uri):
        box = []
        kw = dict(uri=URI(uri)) if uri else {}
        out, loads = self.call(c, lambda: box.append(JSONSchema(self.values[d], catalog=self.cats[c], metaschema_uri=URI(META['2020-12']), **self.where(k), **kw)))
        objs = [self.serial(at(box[0], p)) for p in self.docs[d]['paths']] if box else []
        self.put(dict(op='new', c=c, k=k, d=d, uri=uri or '', out=out, objs=objs, loads=loads), dict(build=self.values[d], uri=uri, cache=(c, k)))
        return box[0] if box else None

    def bad(self, c, k, value, uri):
        out, loads = self.call(c, lambda: JSONSchema(value, catalog=self.cats[c], cacheid=k, metaschema_uri=URI(META['2020-12']), **(dict(uri=URI(uri)) if uri else {})), enc=lambda x: 0)
        self.put(dict(op='bad', c=c, k=k, out=out), dict(unbuildable=value, cache=(c, k)))

    def add(self, c, k, u, o):
        out, _ = self.call(c, lambda: self.cats[c].add_schema(joined(u), o, **self.where(k)))
        self.put(dict(op='add', c=c, k=k, u=u, o=self.serial(o), out=out), dict(add=u, cache=(c, k)))

    def delete(self, c, k, u):
        out, _ = self.call(c, lambda: self.cats[c].del_schema(joined(u), **self.where(k)))
        self.put(dict(op='del', c=c, k=k, u=u, out=out), dict(delete=u, cache=(c, k)))

    def seturi(self, o, u):
        out, _ = self.call(0, lambda: setattr(o, 'uri', joined(u) if u else None))
        self.put(dict(op='uri', o=self.serial(o), u=u, out=out), dict(set_uri=u))

    def get(self, c, k, u, on=True):
        box = []
        out, loads = self.call(c, lambda: box.append(self.cats[c].get_schema(joined(u), metaschema_uri=URI(META['2020-12']), **self.where(k))), on)
        tag = ['?', 0]
        if box:
            tag = self.tag(box[0])
            out = ['ok', self.serial(box[0])]
        self.put(dict(op='get', c=c, k=k, u=u, on=on, out=out, tag=tag, loads=loads), dict(get=u, cache=(c, k), sources=on, loaded=loads))
        return box[0] if box else None

    def enter(self, c, k=None):
        cm = self.cats[c].cache() if k is None else self.cats[c].cache(k)
        box = []
        out = attempt(lambda: box.append(cm.__enter__()))
        label, fresh = k, True
        if box and k is None:
            label = f'tmp{len(self.ev)}'
            fresh = box[0] not in self.lab and not isinstance(box[0], str)
            self.lab[box[0]] = label
        if box and k is not None and box[0] != k:
            out = ['err', ['other identifier']]
        self.put(dict(op='enter', c=c, k=label, given=k is not None, fresh=fresh, out=out), dict(enter=k, catalog=c))
        if box:
            self.open.append((c, label, cm, box[0]))
        return box[0] if box else None

    def exit(self, j, error):
        c, label, cm, real = self.open.pop(j)
        if error:
            e = Boom('x')
            out = attempt(lambda: bool(cm.__exit__(Boom, e, None)))
            if out[0] == 'err' and out[1][0] == 'Boom':
                out = ['ok', False]         # the exception goes on, either way
            want = ['ok', False]
        else:
            out, want = attempt(lambda: bool(cm.__exit__(None, None, None))), ['ok', False]
        self.put(dict(op='exit', c=c, k=label, out=out, want=want), dict(leave=label, catalog=c, error=error))

    def close(self):
        while self.open:
            self.exit(len(self.open) - 1, False)
        for c in self.cats:
            c.src.docs = {}

    def history(self):
        docs = {n: {k: v for k, v in d.items() if k != 'paths'} for n, d in self.docs.items()}
        m = {}
        return dict(docs=docs or {'-': dict(bad=False, refs=[], nodes=[])}, srcs=self.srcs or {'-': '-'}, ev=self.ev, info=self.info)


def make(r, h, name, base, absent, dial, others, bad=None):
    """A document: its value and what is in it."""
    n = [0]
    nodes, refs = [], []

    def node(path, res, depth, idok):
        n[0] += 1
        me = n[0]
        i = f'{base}-i{me}' if idok and r.random() < .35 else ''
        a = f'a{me}' if r.random() < .35 else ''
        nodes.append((path, i, a, res))
        v = {'$comment': f'{name} {me}'}
        if i:
            v['$id'] = i
            res = me
        if a:
            v[r.choice(['$anchor', '$dynamicAnchor'] if dial != '2019-09' else ['$anchor'])] = a
        if depth:
            for _ in range(r.randint(0, 2)):
                w = r.choice(['$defs', 'properties', 'allOf', 'not'])
                if w in v:
                    continue
                if w == 'not':
                    v[w] = node(path + ['not'], res, depth - 1, True)
                elif w == 'allOf':
                    v[w] = [node(path + ['allOf', str(j)], res, depth - 1, True) for j in range(r.randint(1, 2))]
                else:
                    v[w] = {k: node(path + [w, k], res, depth - 1, True) for k in r.sample(['x', 'y'], r.randint(1, 2))}
        return v
    v = node([], 1, 2, True)
    targets = list(others)
    if r.random() < .5 and targets:
        rs = [r.choice(targets) for _ in range(r.randint(1, 2))]
        refs += rs
        v['anyOf'] = [{'$ref': x} for x in rs]
    if r.random() < .3:
        # to itself
        x = r.choice([base if not nodes[0][1] else nodes[0][1], base if absent else nodes[0][1] or base])
        v['$ref'] = x
        refs.append(x)
        if 'anyOf' in v:
            # references are resolved in the order of the keywords
            v = {**{k: v[k] for k in v if k != '$ref'}, '$ref': x}
    if bad == 'ref':
        refs.append('x:nowhere/' + name)
        v['then'] = {'$ref': 'x:nowhere/' + name}
    elif bad == 'build':
        v['properties'] = {'p': r.choice([{'$id': 'x:/y#frag'}, {'$ref': 5}, {'properties': {'q': 7}}, {'$schema': 'x:no-such-metaschema', 'type': 'string'}, {'allOf': [3]}])}
    # the schemas that hold the references are nodes as well, but without names
    return v, nodes, refs


def history(r, quick):
    h = Hist()
    try:
        run_history(r, h, quick)
    finally:
        h.close()
    return h.history()


def run_history(r, h, quick):
    dial = '2020-12'
    tagn = 'q%x' % r.randrange(1 << 30)
    B = lambda x: f'http://c.example/{tagn}/{x}'
    # documents to be loaded, referring to each other
    names = [f'L{j}' for j in range(r.randint(1, 4))]
    where = {n: B(n) for n in names}
    made = {}
    for j, n in enumerate(names):
        kind = r.choice([None, None, None, None, 'ref', 'build'])
        v, nodes, refs = make(r, h, n, where[n], True, dial, [where[m] for m in names], kind)
        made[n] = nodes
        h.doc(n, v, nodes, refs, kind == 'build', where[n])
    # documents to be built
    direct = [f'D{j}' for j in range(r.randint(2, 4))]
    given = {}
    fine = [where[n] for n in names if sound(h, n, set())]
    for n in direct:
        v, nodes, refs = make(r, h, n, B(n), False, dial, fine)
        if refs and not nodes[0][1]:
            given[n] = B(n)
        else:
            given[n] = None if nodes[0][1] else r.choice([B(n), B(n), B('D0'), B('x')])
            if given[n] is None and r.random() < .2:
                given[n] = B('unused' + n)
        h.doc(n, v, nodes, refs)
    uris = []
    for n in names + direct:
        base = where.get(n) or given[n] or B(n)
        for p, i, a, res in made.get(n) or [(d['ptr'], d['id'], d['anchor'], d['res']) for d in h.docs[n]['nodes']]:
            uris.append([i or base, ''])
            if a:
                uris.append([i or base, a])
        for d in h.docs[n]['nodes']:
            if d['ptr']:
                uris.append([base, d['ptr']])
                uris.append([h.docs[n]['nodes'][0]['id'] or base, d['ptr']])
        uris.append([base, 'nope'])
        uris.append([base, '/nope'])
    uris.append([B('none'), ''])
    extra = [[B('e1'), ''], [B('e2'), ''], [B('e1'), 'z'], [where[names[0]], 'z']]
    ks = [f'{tagn}a', f'{tagn}b']
    spots = [(0, ks[0]), (0, ks[0]), (0, ks[0]), (0, ks[1]), (1, ks[0]), (0, 'default')]
    live = []

    def spot():
        o = [(c, k) for c, l, _, k in h.open]
        return r.choice(o) if o and r.random() < .4 else r.choice(spots)

    def usable():
        gone = h.gone
        return [x for x in live if (x[1], x[2]) not in gone]
    h.gone = set()
    for _ in range(r.randint(10, 16 if quick else 26)):
        x = r.random()
        c, k = spot()
        if x < .2:
            d = r.choice(direct)
            s = h.new(c, k, d, given[d])
            if s is None:
                return
            live.append((at(s, r.choice(h.docs[d]['paths'])), c, k))
            live.append((s, c, k))
        elif x < .26:
            bad, nodes, refs = make(r, h, f'bad{len(h.ev)}', B(f'bad{len(h.ev)}'), False, dial, [], r.choice(['ref', 'build']))
            h.bad(c, k, bad, None if '$id' in bad else B(f'bad{len(h.ev)}'))
        elif x < .34 and usable():
            h.add(c, k, r.choice(uris + extra), r.choice(usable())[0])
        elif x < .42:
            h.delete(c, k, r.choice(uris + extra))
        elif x < .52 and usable():
            s, _, _ = r.choice(usable())
            h.seturi(s, r.choice(uris + extra + [[]]) if r.random() < .6 else r.choice(extra))
        elif x < .72:
            s = h.get(c, k, r.choice(uris + extra) if r.random() < .8 else [r.choice(list(where.values())), ''])
        elif x < .82:
            s = h.get(c, k, r.choice(uris + extra), False)
        elif x < .92 or not h.open:
            c = r.randrange(2)
            h.enter(c, r.choice([None, f'{tagn}t', f'{tagn}t', f'{tagn}u', ks[0], ks[1]]))
        else:
            j = r.randrange(len(h.open))
            h.gone.add((h.open[j][0], h.open[j][3]))
            h.exit(j, r.random() < .5)
    # the default cache may be meant by not naming one; it and the cache of metaschemas are never told apart by their contents
    for c, k in dict.fromkeys(spots + [(1, 'default'), (0, '__meta__')] + [(c, k) for c, _, _, k in h.open]):
        for u in r.sample(uris + extra, min(len(uris), 14 if k == 'default' else 6)):
            h.get(c, k, u, False)


def sound(h, n, seen):
    """Can a document be loaded, with all it refers to?"""
    d = h.docs[n]
    if d['bad']:
        return False
    for b, f in d['refs']:
        if b.startswith('x:nowhere'):
            return False
        m = h.srcs.get(b)
        if m and m not in seen and m != n and not sound(h, m, seen | {n}):
            return False
    return True


def replay(ctx, cfg, n_max=None):
    """Every history of the small-scope model, on real catalogs."""
    res = ctx.model('MC_Caches', cfg)
    values = {'A': {'$comment': 'A 1', '$defs': {'s': {'$comment': 'A 2', '$anchor': 'a'}}}, 'B': {'$comment': 'B 1', '$id': 's:v', '$ref': 's:w'},
              'L': {'$comment': 'L 1', '$id': 's:v', '$defs': {'s': {'$comment': 'L 2', '$anchor': 'b'}}, 'allOf': [{'$ref': 's:w#/$defs/s'}, {'$ref': 's:v'}]},
              'F': {'$comment': 'F 1', '$id': 's:g', 'allOf': [{'$ref': 's:w#b'}, {'$ref': 's:nowhere'}]}}
    cs = cats()
    n = 0
    lines = [x for x in res.lines if x.startswith('VCASE ')]
    if n_max and len(lines) > n_max:
        lines = random.Random(ctx.seed).sample(lines, n_max)
    for line in lines:
        x = json.loads(line[6:])
        n += 1
        for c in cs:
            c.src.docs = {'s:w': values['L'], 's:f': values['F']}
            c.src.log, c.src.on = [], True
        if True:
            kid = {}
            for c in (1, 2):
                for k in ('default', 'x'):
                    kid[c, k] = f'{k}{c}-{n}'
            obj, seen = {}, {}
            for e, op in enumerate(x['log'], 1):
                try:
                    m = op[0]
                    if m == 'new':
                        kw = dict(uri=URI(op[4])) if op[4] else {}
                        s = JSONSchema(values[op[3]], catalog=cs[op[1] - 1], cacheid=kid[op[1], op[2]], metaschema_uri=URI(META['2020-12']), **kw)
                        obj[e, op[3], 1] = s
                        if op[3] == 'A':
                            obj[e, 'A', 2] = s['$defs']['s']
                    elif m == 'get':
                        try:
                            cs[op[1] - 1].get_schema(joined(op[3]), cacheid=kid[op[1], op[2]], metaschema_uri=URI(META['2020-12']))
                        except CatalogError:
                            pass
                    elif m == 'del':
                        cs[op[1] - 1].del_schema(joined(op[3]), cacheid=kid[op[1], op[2]])
                    elif m == 'uri':
                        obj[tuple(op[1])].uri = joined(op[2]) if op[2] else None
                    elif m == 'add':
                        cs[op[1] - 1].add_schema(joined(op[3]), obj[tuple(op[4])], cacheid=kid[op[1], op[2]])
                except Exception as exc:
                    ctx.fail('replay-raised', log=x['log'], at=e, error=repr(exc))
                    break
            else:
                for c in cs:
                    c.src.on = False
                for (ck, u, o) in x['view']:
                    got = attempt(lambda: cs[ck[0] - 1].get_schema(joined(u), cacheid=kid[ck[0], ck[1]]), enc=lambda s: s)
                    if not o:
                        if got[0] == 'ok':
                            ctx.fail('replay-found-what-is-not-there', log=x['log'], cache=ck, uri=u, got=str(got[1]))
                        elif 'CatalogError' not in got[1]:
                            ctx.fail('replay-wrong-exception', log=x['log'], cache=ck, uri=u, got=got)
                        continue
                    if got[0] == 'err':
                        ctx.fail('replay-not-found', log=x['log'], cache=ck, uri=u, want=o, got=got)
                        continue
                    s, o = got[1], tuple(o)
                    if o not in obj and s['$comment'].data == f'{o[1]} {o[2]}' and not any(s is t for t in obj.values()):
                        obj[o] = s
                    if obj.get(o) is not s:
                        ctx.fail('replay-wrong-object', log=x['log'], cache=ck, uri=u, want=o, got=s['$comment'].data)
            for c in (1, 2):
                for k in ('default', 'x'):
                    getattr(cs[c - 1], '_schema_cache', {}).pop(kid[c, k], None)      # only to save memory
    for c in cs:
        c.src.docs, c.src.on = {}, True
    ctx.traces += n
    ctx.notes['replayed_from_model'] = n


def run(ctx):
    r = random.Random(ctx.seed)
    if ctx.quick:
        replay(ctx, 'MC_Caches.cfg')
        replay(ctx, 'MC_CachesDeep.cfg', 1500)
    else:
        replay(ctx, 'MC_CachesDeep.cfg')
        replay(ctx, 'MC_Caches.cfg')
    hs = [history(r, ctx.quick) for _ in range(ctx.scale(400, 8000))]
    for c in range(0, len(hs), 1000):
        ctx.validate('CacheCheck', 'CacheCheck.cfg', hs[c:c + 1000])
