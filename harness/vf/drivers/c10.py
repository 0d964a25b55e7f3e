"""C10: JSONPatch as a mutable list of operations."""
import json
import random

from jschon import JSONPatch, JSONPatchOperation

from .. import gen, patchlib as pl
from ..core import attempt

ASSUMPTIONS = ['operations carry exactly the members RFC 6902 gives them (no value on remove, move, copy; no from elsewhere)',
               'only deletion and reading use slices']


def rand_op(r):
    op = r.choice(['add', 'remove', 'replace', 'move', 'copy', 'test'])
    o = dict(op=op, path=[gen.key(r) for _ in range(r.randint(0, 2))])
    if op in pl.VALUED:
        o['value'] = gen.value(r, 2, 2)
    if op in pl.FROM:
        o['from_'] = [gen.key(r) for _ in range(r.randint(0, 2))]
    return o


def similar(r, o):
    """o again, spelled differently, or something close to it."""
    p = dict(o)
    x = r.random()
    if x < .35:
        if 'value' in p:
            p['value'] = pl.respell(r, gen.copy(p['value']))
        return p
    if 'value' in p and x < .6:
        p['value'] = pl.near(r, p['value'])
        return p
    if x < .7:
        p['path'] = p['path'] + ['x']
        return p
    if x < .8 and 'from_' in p:
        p['from_'] = p['from_'] + ['x']
        return p
    if x < .9:
        p['op'] = r.choice(['add', 'replace', 'test']) if p['op'] in pl.VALUED else r.choice(['move', 'copy']) if p['op'] in pl.FROM else 'remove'
        return p
    return rand_op(r)


def e1(x):
    return pl.enc_real(x.asdict()) if isinstance(x, JSONPatchOperation) else pl.enc_real({})


def emany(xs):
    return [e1(x) for x in xs]


def esafe(f):
    def g(x):
        try:
            return f(x)
        except KeyError:
            return dict(op='not an operation', path=[], **{'from': []}, value=["z"])
    return g


def event(r, patch, pool):
    how = lambda: r.randrange(4)
    n = len(patch)
    m = r.choice(['get', 'slice', 'set', 'del', 'delslice', 'insert', 'insert', 'append', 'append', 'extend', 'double', 'pop', 'remove', 'index', 'count',
                  'has', 'reverse', 'clear', 'len', 'iter', 'reversed', 'eq', 'badop'])
    if m in ('clear', 'double', 'delslice') and r.random() < .6 or m == 'double' and n > 8:
        m = 'append'
    i = r.randint(-n - 2, n + 2)
    o = similar(r, r.choice(pool)) if pool and r.random() < .7 else rand_op(r)
    e = dict(m=m)
    same = lambda x: x
    if m in ('get', 'del', 'pop'):
        e['i'] = i
        if m == 'pop' and r.random() < .4:
            e['i'] = -1
            f, enc = (lambda: patch.pop()), e1
        else:
            f, enc = (lambda: patch[i]) if m == 'get' else (lambda: patch.pop(i)) if m == 'pop' else (lambda: patch.__delitem__(i)), e1 if m != 'del' else (lambda x: 0)
    elif m in ('slice', 'delslice'):
        b = lambda: r.choice([None, None, *range(-n - 1, n + 2)])
        sl = slice(b(), b(), r.choice([None, None, 1, 2, -1]))
        e['s'] = [[] if x is None else [x] for x in (sl.start, sl.stop, sl.step)]
        if m == 'slice':
            f, enc = lambda: patch[sl], lambda q: emany(q) if isinstance(q, JSONPatch) else [e1(None)]
        else:
            f, enc = lambda: patch.__delitem__(sl), lambda x: 0
    elif m in ('set', 'insert'):
        real = pl.make(o, how())
        e.update(i=i, o=pl.enc(o))
        f, enc = (lambda: patch.__setitem__(i, real)) if m == 'set' else (lambda: patch.insert(i, real)), lambda x: 0
    elif m in ('append', 'remove', 'index', 'count', 'has'):
        real = pl.make(o, how())
        e['o'] = pl.enc(o)
        f = {'append': lambda: patch.append(real), 'remove': lambda: patch.remove(real), 'index': lambda: patch.index(real),
             'count': lambda: patch.count(real), 'has': lambda: real in patch}[m]
        enc = same if m in ('index', 'count', 'has') else lambda x: 0
    elif m in ('extend', 'eq'):
        os = [similar(r, p) if r.random() < .2 else p for p in pool] if m == 'eq' and r.random() < .6 else [rand_op(r) for _ in range(r.randint(0, 3))]
        if m == 'eq' and r.random() < .5:
            os = pool[:]
        reals = [pl.make(p, how()) for p in os]
        e['os'] = [pl.enc(p) for p in os]
        if m == 'extend':
            f, enc = (lambda: patch.extend(reals)) if r.random() < .6 else (lambda: patch.__iadd__(reals)), lambda x: 0
        else:
            other = reals if r.random() < .5 else JSONPatch(*reals)
            f, enc = (lambda: bool(patch == other)), same
    elif m == 'double':
        f, enc = lambda: patch.extend(patch), lambda x: 0
    elif m in ('reverse', 'clear'):
        f, enc = getattr(patch, m), lambda x: 0
    elif m == 'len':
        f, enc = lambda: len(patch), same
    elif m == 'iter':
        f, enc = lambda: list(patch), emany
    elif m == 'reversed':
        f, enc = lambda: list(reversed(patch)), emany
    else:
        bad = r.choice([dict(op='nop', path=''), dict(op='add', path='a', value=1), dict(path='/a'), dict(op='add'), dict(op='move', path='', **{'from': 'x'})])
        g = r.choice([lambda: patch.append(bad), lambda: patch.insert(0, bad), lambda: patch.__setitem__(0, bad)])
        if not n:
            g = lambda: patch.append(bad)
        f, enc = g, lambda x: 0
    e['out'] = attempt(f, enc=esafe(enc))
    e['after'] = emany(patch)
    e['rebuilt'] = bool(JSONPatch(*patch.aslist()) == patch) and all(JSONPatchOperation(**d) == x for d, x in zip(patch.aslist(), patch)) \
        and bool(JSONPatch(*json.loads(json.dumps(patch.aslist()))) == patch) and [pl.enc_real(d) for d in patch.aslist()] == e['after']
    return e


def opcmp(r):
    a = rand_op(r)
    b = similar(r, a)
    A, B = pl.make(a, r.randrange(1, 4)), pl.make(b, r.randrange(1, 4))
    return dict(m='opcmp', a=pl.enc(a), b=pl.enc(b), eq=bool(A == B), qe=bool(B == A), ne=bool(A != B), deq=bool(A == pl.asdict(b)),
                aform=pl.enc_real(A.asdict()), aback=bool(JSONPatchOperation(**A.asdict()) == A))


def back(o):
    return dict(op=o['op'], path=[''.join(map(chr, k)) for k in o['path']], from_=[''.join(map(chr, k)) for k in o['from']])


def history(r, n):
    ops = [rand_op(r) for _ in range(r.randint(0, 4))]
    patch = JSONPatch(*[pl.make(o, r.randrange(4)) for o in ops])
    evs = []
    for _ in range(n):
        if r.random() < .2:
            evs.append(opcmp(r))
            continue
        pool = []
        for x in patch:
            d = x.asdict()
            o = dict(op=d['op'], path=list(x.path))
            if 'value' in d:
                o['value'] = d['value']
            if 'from' in d:
                o['from_'] = list(x.from_)
            pool.append(o)
        evs.append(event(r, patch, pool))
        if len(patch) > 14:
            break
    return dict(ops=[pl.enc(o) for o in ops], ev=evs, info=None)


ELEM = {'A': dict(op='add', path='/a', value=[1]), 'B': dict(op='move', path='/a', **{'from': '/b'}), 'C': dict(op='add', path='/a', value=[1, 2])}


def replay(ctx, cfg):
    r = ctx.model('MC_PatchList', cfg)
    name = lambda o: next((k for k, d in ELEM.items() if o.asdict() == d), '?')
    n = 0
    for line in r.lines:
        if not line.startswith('VCASE '):
            continue
        x = json.loads(line[6:])
        c, want = x['c'], x['r']
        n += 1
        p = JSONPatch(*[JSONPatchOperation(**ELEM[k]) if n % 2 else ELEM[k] for k in x['s']])
        m = c['m']
        op = ELEM[c['o']] if 'o' in c else None
        opo = JSONPatchOperation(**op) if op else None
        sl = slice(*[b[0] if b else None for b in c['s']]) if 's' in c else None
        os = [ELEM[k] for k in c['os']] if 'os' in c else None
        names = lambda q: [name(y) for y in q]
        f = {'get': lambda: name(p[c['i']]), 'slice': lambda: names(p[sl]), 'set': lambda: p.__setitem__(c['i'], op), 'del': lambda: p.__delitem__(c['i']),
             'delslice': lambda: p.__delitem__(sl), 'insert': lambda: p.insert(c['i'], opo), 'append': lambda: p.append(op), 'extend': lambda: p.extend(os),
             'double': lambda: p.extend(p), 'pop': lambda: name(p.pop(c['i'])), 'remove': lambda: p.remove(op), 'index': lambda: p.index(opo),
             'count': lambda: p.count(op), 'has': lambda: op in p, 'reverse': lambda: p.reverse(), 'clear': lambda: p.clear(), 'len': lambda: len(p),
             'iter': lambda: names(p), 'reversed': lambda: names(reversed(p)), 'eq': lambda: p == os}[m]
        got = attempt(f)
        after = names(p)
        if (got[0] == 'ok') != (want[0] == 'ok'):
            ctx.fail('replay-outcome-' + m, list=x['s'], call=c, got=got, want=want)
        elif after != (want[1] if want[0] == 'ok' else x['s']):
            ctx.fail('replay-list-' + m, list=x['s'], call=c, got=after, want=want)
        elif want[0] == 'ok' and m in ('get', 'slice', 'pop', 'index', 'count', 'has', 'len', 'iter', 'reversed', 'eq') and got[1] != want[2]:
            ctx.fail('replay-answer-' + m, list=x['s'], call=c, got=got, want=want)
    ctx.traces += n
    ctx.notes['replayed_from_model'] = n


def run(ctx):
    r = random.Random(ctx.seed)
    replay(ctx, 'MC_PatchList.cfg' if ctx.quick else 'MC_PatchListDeep.cfg')
    hs = [h for h in (history(r, r.randint(2, 14)) for _ in range(ctx.scale(1000, 15000))) if h['ev']]
    ctx.validate('PatchListCheck', 'PatchListCheck.cfg', hs)
