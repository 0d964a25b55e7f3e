"""C01: coherence of a document tree under histories of changes and reads."""
import ast
import json
import random
import re

from jschon import JSON, JSONPointer

from .. import gen
from ..core import attempt, codes, text, unj, xval

ASSUMPTIONS = ['array indices are integers, member names strings (no slices)',
               'reverse() may move the item nodes or exchange their values']


class Tagged(JSON):
    """A user's subclass: every node carries a tag and makes nodes of its own kind."""

    def __init__(self, value, *, parent=None, key=None, itemclass=None, tag=None):
        super().__init__(value, parent=parent, key=key, itemclass=Tagged, tag=tag)
        self.label = f'T{tag}'


class Level(JSON):
    """A user's subclass whose nodes know how deep they are."""

    def __init__(self, value, *, parent=None, key=None, itemclass=None, depth=0):
        self.label = f'L{self.parent_depth(parent) + 1}'
        super().__init__(value, parent=parent, key=key, itemclass=Level, depth=depth + 1)

    @staticmethod
    def parent_depth(parent):
        return int(parent.label[1:]) if parent is not None else -1


def label(n):
    return getattr(n, 'label', 'J' if type(n) is JSON else '?')


KINDS = {'plain': JSON, 'tagged': lambda v: Tagged(v, tag='q'), 'items': lambda v: JSON(v, itemclass=Tagged, tag='q'), 'level': Level}


class Doc:
    """A live document with numbered nodes."""

    def __init__(self, v, r, kind='plain'):
        self.r = r
        self.root = KINDS[kind](v)
        self.num = {}
        self.keep = []      # every node ever seen stays alive, so identities are never reused
        self.held = []      # references a user holds
        self.walk()

    def nid(self, n):
        if id(n) not in self.num:
            self.num[id(n)] = len(self.num) + 1
            self.keep.append(n)
        return self.num[id(n)]

    def walk(self, n=None, depth=0):
        """Walk over data, type, key and parent only."""
        n = self.root if n is None else n
        d = n.data
        o = dict(id=self.nid(n), d=["z"], ks=[], ch=[], key=[codes(n.key)] if isinstance(n.key, str) else [],
                 par=0 if n.parent is None else self.nid(n.parent), cls=label(n))
        tag = {'null': 'z', 'boolean': 'b', 'number': 'n', 'string': 's', 'array': 'a', 'object': 'o'}.get(n.type, '?')
        ok = {'z': d is None, 'b': isinstance(d, bool), 'n': isinstance(d, (int, float)) and not isinstance(d, bool), 's': isinstance(d, str),
              'a': isinstance(d, list), 'o': isinstance(d, dict)}.get(tag, False)
        o['t'] = tag if ok else '?'
        if depth > 40:
            o['t'] = '?'
        elif isinstance(d, list):
            o['ch'] = [self.walk(x, depth + 1) for x in d]
        elif isinstance(d, dict):
            o['ks'] = [codes(k) for k in d]
            o['ch'] = [self.walk(x, depth + 1) for x in d.values()]
        else:
            o['d'] = xval(d)
        return o

    def nodes(self):
        out = []

        def go(n, p):
            out.append((n, p))
            if len(p) > 40:
                return
            if isinstance(n.data, list):
                for i, x in enumerate(n.data):
                    go(x, p + [str(i)])
            elif isinstance(n.data, dict):
                for k, x in n.data.items():
                    go(x, p + [k])
        go(self.root, [])
        return out

    def items(self, n):
        """The nodes that iteration, indexing and membership show."""
        if isinstance(n.data, dict):
            if [k for k, _ in n.items()] != list(n) or [v for _, v in n.items()] != list(n.values()) or any(k not in n or n.get(k) is not n[k] for k in n):
                return None
            return [[codes(k), self.nid(n[k])] for k in n]
        if isinstance(n.data, list):
            if any(n[i - len(n)] is not x or n[i] is not x for i, x in enumerate(n)) or list(reversed(n)) != list(n)[::-1]:
                return None
            return [[[], self.nid(x)] for x in n]
        return []

    def read(self, n):
        def enc_path(p):
            return [codes(k) for k in p]
        path = attempt(lambda: n.path, enc=enc_path)
        val = attempt(lambda: n.value, enc=xval)
        found = False
        if path[0] == 'ok':
            try:
                found = n.path.evaluate(self.root) is n
            except Exception:
                found = False
        rep = attempt(lambda: ast.literal_eval(re.fullmatch(r'(?s)' + type(n).__name__ + r'\((.*)\)', repr(n))[1]), enc=xval)
        return dict(id=self.nid(n), type=n.type, path=path, value=val, found=found, text=attempt(lambda: json.loads(str(n)), enc=xval), rep=rep,
                    size=attempt(lambda: len(n), enc=int), true=attempt(lambda: bool(n), enc=bool), items=attempt(self.items, n, enc=lambda x: x), key=[codes(n.key)] if isinstance(n.key, str) else [])


def tovalue(r, d, v):
    """v as a plain value or as a JSON document."""
    return JSON(v) if r.random() < .3 else v


NOTJSON = [object(), [1, object()], {'a': [object()]}, {1, 2}, b'x'.__iter__(), 1j]


def change(r, d):
    """Pick a change: (record without observations, thunk)."""
    nodes = d.nodes()
    conts = [(n, p) for n, p in nodes if isinstance(n.data, (list, dict))]
    n, p = r.choice(conts) if conts and r.random() < .92 else r.choice(nodes)
    at = [codes(k) for k in p]
    v = gen.value(r, r.choice([0, 0, 1, 2]), 2)
    sub = None
    if r.random() < .12:
        sub = r.choice(nodes)[0]        # assign a node of the document itself
        v = plain(sub)
    obj = sub if sub is not None else tovalue(r, d, v)
    size = len(n.data) if isinstance(n.data, (list, dict)) else 0
    i = r.randint(-size - 2, size + 2) if r.random() < .4 else r.randint(-size, max(size - 1, 0))
    rec = lambda m, **k: dict(m=m, at=at, **k)
    x = r.random()
    if x < .28:
        locs = [q for q, _ in gen.locations(plain(n))]
        q = gen.pointer_for(r, plain(n)) if r.random() < .8 else list(r.choice(locs))
        ptr = JSONPointer(q) if r.random() < .5 else str(JSONPointer(q))
        qq = [codes(k) for k in q]
        y = r.random()
        if y < .45:
            return rec('add', p=qq, v=xval(v)), lambda: n.add(ptr, obj), f'at {p} add {q} {v!r}'
        if y < .75:
            return rec('remove', p=qq), lambda: n.remove(ptr), f'at {p} remove {q}'
        return rec('replace', p=qq, v=xval(v)), lambda: n.replace(ptr, obj), f'at {p} replace {q} {v!r}'
    if x < .34:
        bad = r.choice(NOTJSON)
        if isinstance(n.data, list):
            y = r.random()
            if y < .25 and size:
                return rec('reject'), lambda: n.__setitem__(r.randrange(size), bad), f'at {p} setitem notjson'
            if y < .5:
                return rec('reject'), lambda: n.insert(i, bad), f'at {p} insert {i} notjson'
            if y < .75:
                return rec('reject'), lambda: n.add('/-', bad), f'at {p} add notjson'
            return rec('reject'), lambda: n.__setitem__('a', v), f'at {p} setitem str'
        if isinstance(n.data, dict):
            return rec('reject'), lambda: n.__setitem__(gen.key(r), bad), f'at {p} setmem notjson'
        return rec('reject'), lambda: n.add('', bad), f'at {p} add root notjson'
    if x < .37:
        bad = r.choice(NOTJSON)
        f = r.choice([n.add, n.replace])
        return rec('reject'), lambda: f('', bad), f'at {p} add/replace "" notjson'
    if isinstance(n.data, list):
        y = r.random()
        if y < .18:
            return rec('setitem', i=i, v=xval(v)), lambda: n.__setitem__(i, obj), f'at {p} [{i}] = {v!r}'
        if y < .36:
            return rec('delitem', i=i), lambda: n.__delitem__(i), f'at {p} del [{i}]'
        if y < .58:
            return rec('insert', i=i, v=xval(v)), lambda: n.insert(i, obj), f'at {p} insert {i} {v!r}'
        if y < .68:
            return rec('append', v=xval(v)), lambda: n.append(obj), f'at {p} append {v!r}'
        if y < .76:
            vs = [gen.value(r, 1, 2) for _ in range(r.randint(0, 3))]
            if r.random() < .2:
                return rec('extend', vs=[xval(plain(c)) for c in n.data]), lambda: n.extend(n), f'at {p} extend self'
            return rec('extend', vs=[xval(y) for y in vs]), lambda: (n.extend(vs) if r.random() < .5 else n.__iadd__(vs)), f'at {p} extend {vs!r}'
        if y < .88:
            if r.random() < .5:
                return rec('popitem', i=-1), lambda: n.pop(), f'at {p} pop'
            return rec('popitem', i=i), lambda: n.pop(i), f'at {p} pop {i}'
        if y < .96:
            return rec('reverse'), lambda: n.reverse(), f'at {p} reverse'
        return rec('clear'), lambda: n.clear(), f'at {p} clear'
    if isinstance(n.data, dict):
        k = r.choice(list(n.data)) if n.data and r.random() < .6 else gen.key(r)
        y = r.random()
        if y < .4:
            return rec('setmem', key=codes(k), v=xval(v)), lambda: n.__setitem__(k, obj), f'at {p} [{k!r}] = {v!r}'
        if y < .65:
            return rec('delmem', key=codes(k)), lambda: n.__delitem__(k), f'at {p} del [{k!r}]'
        if y < .75:
            return rec('popmem', key=codes(k)), lambda: n.pop(k), f'at {p} pop {k!r}'
        if y < .85:
            u = {gen.key(r): gen.value(r, 1, 2) for _ in range(r.randint(0, 3))}
            return rec('update', ks=[codes(a) for a in u], vs=[xval(b) for b in u.values()]), lambda: n.update(u), f'at {p} update {u!r}'
        if y < .95:
            return rec('default', key=codes(k), v=xval(v)), lambda: n.setdefault(k, obj), f'at {p} setdefault {k!r} {v!r}'
        return rec('reject'), lambda: n.insert(0, v), f'at {p} insert on object'
    return rec('reject'), r.choice([lambda: n.append(v), lambda: n.__setitem__(0, v), lambda: n.insert(0, v), lambda: n.__delitem__(0)]), f'at {p} change a scalar'


def plain(n):
    d = n.data
    if isinstance(d, list):
        return [plain(x) for x in d]
    if isinstance(d, dict):
        return {k: plain(x) for k, x in d.items()}
    return d


def observe(r, d, mode):
    """Reads: of nothing, of some nodes, of held references, or of everything."""
    if mode == 0:
        return []
    ns = [n for n, _ in d.nodes()]
    if mode == 1:
        ns = [r.choice(ns) for _ in range(r.randint(1, 3))] + d.held[-3:]
    elif mode == 2:
        ns = d.held
    else:
        r.shuffle(ns)
    return [d.read(n) for n in ns]


def history(r, n, v=None):
    v = gen.container(r, r.randint(1, 3)) if v is None else v
    kind = r.choice(['plain', 'plain', 'tagged', 'items', 'level'])
    d = Doc(v, r, kind)
    evs, infos = [dict(m='nothing', at=[], out=["ok", 0], walk=d.walk(), reads=observe(r, d, r.choice([0, 1, 3])))], [repr(v)]
    detached = []
    for _ in range(n):
        if len(d.num) > 60:
            break
        if r.random() < .3:
            d.held.append(r.choice(d.nodes())[0])
        if detached and r.random() < .08:
            x = r.choice(detached)
            live = {id(m) for m, _ in d.nodes()}
            if id(x) not in live and isinstance(x.data, list):
                rec, f, what = dict(m='nothing', at=[]), lambda: x.append(1), 'change a removed node'
            else:
                rec, f, what = dict(m='nothing', at=[]), lambda: x.value, 'read a removed node'
        else:
            rec, f, what = change(r, d)
        before = [m for m, _ in d.nodes()]
        out = attempt(lambda: f() and 0, enc=lambda y: 0)
        walk = d.walk()
        live = {id(m) for m, _ in d.nodes()}
        detached += [m for m in before if id(m) not in live][:2]
        evs.append(dict(rec, out=out, walk=walk, reads=observe(r, d, r.choice([0, 0, 1, 1, 2, 3]))))
        infos.append(what)
    evs.append(dict(m='nothing', at=[], out=["ok", 0], walk=d.walk(), reads=observe(r, d, 3)))
    infos.append('read everything')
    return dict(doc=xval(v), kind=kind, ev=evs, info=lambda l: infos[:l])


# ---- behaviours enumerated by TLC, replayed on real documents

def apply_real(root, c):
    n = JSONPointer([text(k) for k in c['at']]).evaluate(root) if c['at'] else root
    m = c['m']
    v = unj(c['v']) if 'v' in c else None
    k = text(c['key']) if 'key' in c else None
    p = JSONPointer([text(t) for t in c['p']]) if 'p' in c else None
    if m in ('setitem', 'setmem'):
        n[c['i'] if m == 'setitem' else k] = v
    elif m in ('delitem', 'delmem'):
        del n[c['i'] if m == 'delitem' else k]
    elif m == 'insert':
        n.insert(c['i'], v)
    elif m == 'append':
        n.append(v)
    elif m == 'popitem':
        n.pop(c['i'])
    elif m == 'popmem':
        n.pop(k)
    elif m == 'reverse':
        n.reverse()
    elif m == 'add':
        n.add(p, v)
    elif m == 'remove':
        n.remove(p)
    elif m == 'replace':
        n.replace(p, v)


def coherent(root, want, fail):
    """Every node of the document as in a fresh document of the same content."""
    def go(n, w, path, parent):
        if list(n.path) != path or n.key != (path[-1] if path else None) or n.parent is not parent or n.value != w \
                or JSONPointer(path).evaluate(root) is not n:
            fail(path)
        if isinstance(w, list):
            if not isinstance(n.data, list) or len(n.data) != len(w):
                return fail(path)
            for i, x in enumerate(w):
                go(n.data[i], x, path + [str(i)], n)
        elif isinstance(w, dict):
            if not isinstance(n.data, dict) or set(n.data) != set(w):
                return fail(path)
            for k, x in w.items():
                go(n.data[k], x, path + [k], n)
    go(root, want, [], None)


def readall(root):
    root.value
    st = [root]
    while st:
        n = st.pop()
        n.path
        n.value
        if isinstance(n.data, list):
            st += n.data
        elif isinstance(n.data, dict):
            st += n.data.values()


def replay(ctx, cfg):
    r = ctx.model('MC_DocTree', cfg)
    n = 0
    for line in r.lines:
        if not line.startswith('VCASE '):
            continue
        c = json.loads(line[6:])
        n += 1
        for mask in range(2 ** len(c['hist'])) if len(c['hist']) < 3 else (0, 2 ** len(c['hist']) - 1):
            root = JSON(unj(c['start']))
            for i, s in enumerate(c['hist']):
                if mask >> i & 1:
                    readall(root)
                got = attempt(apply_real, root, s['c'])
                if (got[0] == 'ok') != s['ok']:
                    ctx.fail('replay-outcome', start=c['start'], hist=c['hist'], got=got)
                    break
            bad = []
            out = attempt(coherent, root, unj(c['end']), bad.append)
            if bad or out[0] == 'err':
                ctx.fail('replay-incoherent', start=unj(c['start']), hist=c['hist'], reads=mask, at=bad[:1], got=out)
    ctx.traces += n
    ctx.notes['replayed_from_model'] = n


def run(ctx):
    r = random.Random(ctx.seed)
    ctx.model('MC_DocCache', 'MC_DocCache.cfg' if ctx.quick else 'MC_DocCacheDeep.cfg')
    replay(ctx, 'MC_DocTree.cfg' if ctx.quick else 'MC_DocTreeDeep.cfg')
    hs = [history(r, r.randint(4, 18)) for _ in range(ctx.scale(900, 15000))]
    ctx.validate('DocTreeCheck', 'DocTreeCheck.cfg', hs)
