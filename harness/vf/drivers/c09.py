"""C09: JSON Patch evaluation isolates document, patch and result."""
import collections
import random

from jschon import JSONPatch

from .. import gen, patchlib as pl
from ..core import attempt, xval


def ids(v, acc, above=()):
    """Identities of all mutable containers below v (with repetition, but not below themselves)."""
    if isinstance(v, (list, dict)):
        acc.append(v)
        if any(v is x for x in above):
            return acc
        for x in v if isinstance(v, list) else v.values():
            ids(x, acc, (*above, v))
    elif isinstance(v, tuple):
        for x in v:
            ids(x, acc, above)
    return acc


def mutate(v):
    for c in ids(v, []):
        if isinstance(c, list):
            c.append('MUTATED')
            if len(c) > 1:
                c[0] = 'MUTATED'
        else:
            for k in list(c)[:1]:
                c[k] = 'MUTATED'
            c['MUTATED'] = True


def alias(r, doc):
    """Make two places of the plain document share one container."""
    cs = [c for c in ids(doc, []) if c]
    src = [c for c in ids(doc, [])]
    if not cs:
        return doc
    c, s = r.choice(cs), r.choice(src)
    if any(x is c for x in ids(s, [])):
        return doc
    if isinstance(c, list):
        c.append(s)
    else:
        c['alias'] = s
    return doc


class L(list):
    pass


class D(dict):
    pass


def exotic(r, v):
    """The same document in other container types, keeping what it shares."""
    memo = {}

    def f(x):
        if id(x) in memo:
            return memo[id(x)]
        if isinstance(x, list):
            y = r.choice([L, L, list])(map(f, x))
        elif isinstance(x, dict):
            y = r.choice([D, collections.OrderedDict, dict])((k, f(z)) for k, z in x.items())
        else:
            return x
        memo[id(x)] = y
        return y
    return f(v)


def event(r, doc, ops, how):
    real = [pl.make(o, how if how < 4 else r.randrange(4)) for o in ops]
    patch = JSONPatch(*real)
    number = {}
    nid = lambda cs: [number.setdefault(id(c), len(number)) for c in cs]
    pv = lambda: [o.value for o in patch]
    before = [pl.enc_real(o.asdict()) for o in patch]
    keep = []

    def ev():
        x = patch.evaluate(doc)
        keep.append(x)
        return x
    out1 = attempt(ev, enc=xval)
    doc1 = xval(doc)
    ops1 = [pl.enc_real(d) for d in patch.aslist()]
    dids = ids(doc, [])
    pids = ids(pv(), [])
    rids = ids(keep[0], []) if keep else []
    out2 = attempt(ev, enc=xval)
    second = keep[1] if len(keep) > 1 else None
    numbered = dict(dids=nid(dids), pids=nid(pids), rids=nid(rids))
    if keep:
        mutate(keep[0])
    doc2 = xval(doc)
    ops2 = [pl.enc_real(d) for d in patch.aslist()]
    out2b = ['ok', xval(second)] if out2[0] == 'ok' else out2
    out3 = attempt(ev, enc=xval)
    return dict(k='iso', ops=before, out1=out1, out2=out2, out3=out3, out2b=out2b, doc1=doc1, doc2=doc2, ops1=ops1, ops2=ops2, **numbered)


def run(ctx):
    r = random.Random(ctx.seed)
    hs = []
    for i in range(ctx.scale(2500, 30000)):
        doc = gen.container(r, r.randint(1, 3))
        if r.random() < .3:
            doc = alias(r, doc)
        cur = gen.copy(doc)
        ops = []
        shared = gen.container(r, 2, 2)
        for _ in range(r.randint(1, 5)):
            try:
                o = pl.rand_op(r, cur)
            except RecursionError:      # only if results share containers
                break
            if o['op'] in ('add', 'replace') and r.random() < .6:
                o['value'] = r.choice([shared, doc]) if r.random() < .5 else gen.container(r, 2, 2)
                if o['value'] is doc and r.random() < .5 or not o['path']:
                    o['value'] = shared
            ops.append(o)
            try:
                cur = JSONPatch(*[pl.make(x) for x in ops]).evaluate(gen.copy(doc))
            except Exception:
                if r.random() < .7:
                    ops.pop()
                else:
                    break
        if ops:
            if r.random() < .2:
                doc = exotic(r, doc)
                for o in ops:
                    if 'value' in o and o['value'] is not doc:
                        o['value'] = exotic(r, o['value'])
            info = dict(document=gen.copy(doc), operations=[pl.asdict(x) for x in ops])
            info = repr(info)
            e = dict(doc=xval(doc), ev=None, info=[info])
            e['ev'] = [event(r, doc, ops, r.randrange(5))]
            hs.append(e)
    ctx.validate('PatchCheck', 'PatchCheck.cfg', hs)
