"""C05: JSON Pointers and their string forms."""
import json
import random

from jschon import JSONPointer

from .. import gen
from ..core import attempt, codes

ASSUMPTIONS = ['strings are Unicode scalar values (no lone surrogates)',
               'fragments containing a "%" that is no percent-encoding, or ill-formed UTF-8, are not judged']


def keys(p):
    return [codes(k) for k in p]


def form(p):
    t = str(p)
    f = p.uri_fragment()
    return dict(keys=keys(p), str=codes(t), frag=codes(f), back=keys(JSONPointer(t)), fback=keys(JSONPointer.parse_uri_fragment(f)))


def e_parse(s):
    return dict(op='parse', s=codes(s), out=attempt(JSONPointer, s, enc=form))


def e_frag(s):
    return dict(op='frag', s=codes(s), out=attempt(JSONPointer.parse_uri_fragment, s, enc=keys))


def e_concat(parts):
    live, ev = [], []
    for kind, v in parts:
        if kind == 'text':
            live.append(v)
            ev.append(dict(kind=kind, v=codes(v)))
        elif kind == 'keys':
            live.append(list(v))
            ev.append(dict(kind=kind, v=[codes(k) for k in v]))
        elif kind == 'gen':
            live.append(v)
            ev.append(dict(kind='keys', v=[codes(k) for k in v]))
        else:
            live.append(JSONPointer(list(v)))
            ev.append(dict(kind=kind, v=[codes(k) for k in v]))
    args = [iter(x) if parts[i][0] == 'gen' else x for i, x in enumerate(live)]
    made = []

    def make():
        p = JSONPointer(*args)
        made.append(p)
        return p
    out = attempt(make, enc=form)
    after = [codes(x) if isinstance(x, str) else keys(x) for x in live]
    frozen = []
    if made:
        for x in live:
            if isinstance(x, list):
                x.append('MUT')
                x.insert(0, 'MUT')
        frozen = keys(made[0])
    return dict(op='concat', parts=ev, out=out, after=after, frozen=frozen)


def e_div(p, kind, s):
    P = JSONPointer(list(p))
    arg = s if kind == 'key' else (JSONPointer(list(s)) if kind == 'ptr' else list(s))
    out = attempt(lambda: P / arg, enc=form)
    return dict(op='div', p=[codes(k) for k in p], kind=kind, s=codes(s) if kind == 'key' else [codes(k) for k in s], out=out, after=keys(P))


def e_seq(r, p):
    P = JSONPointer(list(p))
    n = len(p)
    o = lambda: r.choice([None, None, *range(-n - 2, n + 3)])
    i, j, k = o(), o(), r.choice([None, None, 1, 2, -1, -2, 3])
    at = r.randint(-n - 1, n)
    probe = r.choice([*p, gen.key(r)])
    opt = lambda x: [] if x is None else [x]
    return dict(op='seq', p=[codes(x) for x in p], i=opt(i), j=opt(j), k=opt(k), at=at, probe=codes(probe),
                len=len(P), iter=[codes(x) for x in P], rev=[codes(x) for x in reversed(P)],
                slice=attempt(lambda: P[i:j:k], enc=lambda q: dict(keys=keys(q), isptr=isinstance(q, JSONPointer))),
                item=attempt(lambda: P[at], enc=codes), has=probe in P, count=P.count(probe), after=keys(P))


def e_cmp(p, q, how):
    def mk(x, how):
        if how == 0:
            return JSONPointer(list(x))
        if how == 1:
            return JSONPointer(''.join('/' + JSONPointer.escape(k) for k in x))
        y = JSONPointer()
        for k in x:
            y = y / k
        return y
    P, Q = mk(p, how % 3), mk(q, how // 3 % 3)
    return dict(op='cmp', p=[codes(k) for k in p], q=[codes(k) for k in q], eq=P == Q, ne=P != Q, le=P <= Q, lt=P < Q,
                ge=P >= Q, gt=P > Q, hasheq=hash(P) == hash(Q))


def events(ctx, r):
    evs, info = [], []

    def add(e, **i):
        evs.append(e)
        info.append(i)

    for s in gen.words('/~01a', ctx.scale(4, 6)):
        add(e_parse(s), string=s)
    for s in gen.words('/~1%25', ctx.scale(3, 5)):
        add(e_frag(s), fragment=s)
    for _ in range(ctx.scale(1500, 12000)):
        s = gen.text(r, 0, 8)
        add(e_parse('/' + s if r.random() < .6 else s), string=s)
    for _ in range(ctx.scale(400, 4000)):
        s = ''.join(r.choice(['/', '~0', '~1', '%', '%2', '%2F', '%2f', '%7E', '%7e0', '%C3%A9', '%F0%9F%98%80', '%ff', 'a', 'é', '0', '%00', '%25', '%2525', '+', ' ']) for _ in range(r.randint(0, 5)))
        s = '/' + s if r.random() < .7 else s
        add(e_frag(s), fragment=s)
    kk = lambda m=3: [gen.key(r) for _ in range(r.randint(0, m))]
    for _ in range(ctx.scale(1200, 10000)):
        parts = []
        for _ in range(r.randint(0, 3)):
            kind = r.choice(['text', 'keys', 'ptr', 'gen'])
            if kind == 'text':
                v = ''.join('/' + JSONPointer.escape(k) for k in kk(2)) if r.random() < .85 else gen.text(r)
            else:
                v = kk(2)
            parts.append((kind, v))
        add(e_concat(parts), parts=parts)
    for _ in range(ctx.scale(500, 4000)):
        p = kk()
        kind = r.choice(['key', 'keys', 'ptr'])
        s = gen.key(r) if kind == 'key' else kk(2)
        add(e_div(p, kind, s), p=p, suffix=s)
    for _ in range(ctx.scale(1000, 10000)):
        p = kk(5)
        add(e_seq(r, p), p=p)
    for _ in range(ctx.scale(1500, 10000)):
        p = kk()
        x = r.random()
        q = list(p) if x < .25 else p + kk(2) if x < .5 else p[:r.randint(0, len(p))] if x < .6 else kk()
        if x > .9 and p:
            q = list(p)
            q[r.randrange(len(q))] = gen.key(r)
        add(e_cmp(p, q, r.randrange(9)), p=p, q=q)
    return evs, info


def replay(ctx, cfg='MC_PointerGen.cfg'):
    """Every text TLC enumerated, with the specification's answer, replayed on the real class."""
    r = ctx.model('MC_Pointer', cfg)
    n = 0
    for line in r.lines:
        if line.startswith('VCASE '):
            c = json.loads(line[6:])
            s = ''.join(map(chr, c['s']))
            got = attempt(JSONPointer, s, enc=keys)
            n += 1
            if (got[0] == 'ok') != (c['ptr'][0] == 'ok') or got[0] == 'ok' and got[1] != c['ptr'][1]:
                ctx.fail('replay-parse', string=s, got=got, expected=c['ptr'])
            yield s, c
    ctx.traces += n
    ctx.notes['replayed_from_model'] = n


def run(ctx):
    r = random.Random(ctx.seed)
    ctx.model('MC_Pointer', 'MC_Pointer.cfg' if ctx.quick else 'MC_PointerDeep.cfg')
    for _ in replay(ctx):
        pass
    evs, info = events(ctx, r)
    ctx.validate('PointerCheck', 'PointerCheck.cfg', gen.group(evs, info))
