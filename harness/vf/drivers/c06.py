"""C06: evaluation of JSON Pointers."""
import collections
import random
import types

from jschon import JSON, JSONPointer

from .. import gen
from ..core import attempt, codes, jval

ASSUMPTIONS = ['documents are JSON values, wrapped or plain (lists, tuples, dicts and other sequences and mappings)']


def nav(doc, p):
    """The object a pointer references, navigated by the rules of RFC 6901 - used only to compare identities."""
    for k in p:
        d = doc.data if isinstance(doc, JSON) else doc
        if isinstance(d, collections.abc.Mapping):
            if k not in d:
                return nav
            doc = d[k]
        elif isinstance(d, collections.abc.Sequence) and not isinstance(d, str):
            if not (k.isascii() and k.isdigit() and (k == '0' or k[0] != '0') and len(k) < 10 and int(k) < len(d)):
                return nav
            doc = d[int(k)]
        else:
            return nav
    return doc


def plain(x):
    if isinstance(x, JSON):
        return x.value
    if isinstance(x, collections.abc.Mapping):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, collections.abc.Sequence) and not isinstance(x, str):
        return [plain(v) for v in x]
    return x


def exotic(r, v):
    """The same plain value with other sequence and mapping types."""
    if isinstance(v, list):
        s = [exotic(r, x) for x in v]
        return r.choice([list, tuple, collections.UserList, collections.deque])(s) if r.random() < .9 else tuple(s)
    if isinstance(v, dict):
        d = {k: exotic(r, x) for k, x in v.items()}
        return r.choice([lambda m: m, types.MappingProxyType, collections.OrderedDict, collections.UserDict])(d)
    return v


def event(J, P, base, keys, how=0):
    if how:
        ptr = JSONPointer(''.join('/' + JSONPointer.escape(k) for k in keys))
    else:
        ptr = JSONPointer(list(keys))
    doc = plain(P)
    node = nav(J, base)

    def encj(x):
        return dict(value=jval(plain(x)), same=x is nav(node, keys), path=[codes(k) for k in x.path] if isinstance(x, JSON) else [[-1]])

    def encp(x):
        return dict(value=jval(plain(x)), same=x is nav(P, keys))
    before = jval(doc)
    return dict(op='eval', doc=before, base=[codes(k) for k in base], p=[codes(k) for k in keys],
                json=attempt(ptr.evaluate, node, enc=encj), plain=attempt(ptr.evaluate, P, enc=encp),
                after=jval(plain(P)) if jval(node.value) == before else ["changed"], pafter=[codes(k) for k in ptr])


FIXED = [[], {}, [0], [[1, 2], {'0': 'x', 'a': [None]}, 'str'], {'': {'': 1}, '0': ['zero'], '-1': 'neg', 'a/b': {'m~n': [10, 20]}, '-': [1], '01': 2},
         'abc', 5, None, True, [list(range(12))]]


def run(ctx):
    r = random.Random(ctx.seed)
    evs, info = [], []

    def add(J, v, base, keys, P=None):
        evs.append(event(J, v if P is None else P, base, keys, r.randrange(2)))
        info.append(dict(document=v, base=base, keys=keys))

    toks = ['0', '1', '2', '-', '-1', '01', 'a', '', '1.0', ' 0', '٣', '9' * 20]
    for v in FIXED:
        J = JSON(v)
        for a in [[]] + [[t] for t in toks] + [[s, t] for s in toks[:8] for t in toks]:
            add(J, v, (), a)
        for loc, _ in gen.locations(v):
            for t in gen.INDEXISH:
                add(J, v, (), [*loc, t])
    for _ in range(ctx.scale(700, 9000)):
        v = gen.value(r, r.randint(1, 4))
        J = JSON(v)
        locs = list(gen.locations(v))
        for _ in range(3):
            base, sub = r.choice(locs) if r.random() < .4 else ((), v)
            P = exotic(r, sub) if r.random() < .3 else sub
            add(J, sub, base, gen.pointer_for(r, sub), P)
    for n in (1, 3, 13, 120):
        v = {'a': list(range(n))}
        J = JSON(v)
        for i in {0, 1, n // 2, n - 1, min(n - 1, 10), min(n - 1, 99)}:
            for t in gen.misspelt(i, n):
                add(J, v, (), ['a', t])
    long = [{'p' + str(i): i} for i in range(1200)]
    J = JSON(long)
    for k in ['1199', '1200', '01199', '-1', '999']:
        add(J, long, (), [k])
    deep = 'x'
    for i in range(60):
        deep = [deep] if i % 2 else {'k': deep}
    J = JSON(deep)
    path = ['0' if i % 2 else 'k' for i in reversed(range(60))]
    for n in range(0, 61, 6):
        add(J, deep, (), path[:n])
        add(J, deep, (), path[:n] + ['1'])
    ctx.validate('PointerCheck', 'PointerCheck.cfg', gen.group(evs, info, 30))
    ctx.model('MC_PtrEval', 'MC_PtrEval.cfg' if ctx.quick else 'MC_PtrEvalDeep.cfg')
