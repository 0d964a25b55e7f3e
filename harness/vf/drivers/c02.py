"""C02: JSON.add / remove / replace in place."""
import random

from jschon import JSON, JSONPointer

from .. import gen, patchlib as pl
from ..core import attempt, codes, xval
from . import c08
from .c01 import plain

ASSUMPTIONS = ['values are JSON-compatible Python values or JSON documents']


def mutate(x):
    """Change every container of a plain value or JSON document given as an argument."""
    if isinstance(x, JSON):
        if x.type == 'array':
            for y in list(x.data):
                mutate(y)
            x.append('MUTATED')
        elif x.type == 'object':
            for y in list(x.data.values()):
                mutate(y)
            x['MUTATED'] = 1
    elif isinstance(x, list):
        for y in x:
            mutate(y)
        x.append('MUTATED')
    elif isinstance(x, dict):
        for y in x.values():
            mutate(y)
        x['MUTATED'] = 1


def step(r, root, base, o):
    node = root
    for k in base:
        node = node.data[int(k)] if isinstance(node.data, list) else node.data[k]
    ptr = JSONPointer(o['path']) if r.random() < .5 else pl.ptext(o['path'])
    arg = None
    own = False
    if o['op'] == 'remove':
        f = lambda: node.remove(ptr)
    else:
        v = gen.copy(o['value'])
        arg = v if r.random() < .6 else JSON(v)
        f = lambda: getattr(node, o['op'])(ptr, arg)
    before = xval(plain(arg) if isinstance(arg, JSON) else arg)
    out = attempt(f, enc=lambda x: 0)
    same = xval(plain(arg) if isinstance(arg, JSON) else arg) == before
    doc = xval(plain(root))
    val = xval(root.value)
    copied = True
    if arg is not None:
        mutate(arg)
        copied = xval(plain(root)) == doc
        if copied and out[0] == 'ok':
            # and the other way round: changing the document leaves the argument alone
            mine = xval(plain(arg) if isinstance(arg, JSON) else arg)
            try:
                t = JSONPointer(o['path']).evaluate(node) if o['path'] and o['path'][-1] != '-' else None
            except Exception:
                t = None
            if t is not None and t.type == 'array':
                t.append(0)
                copied = xval(plain(arg) if isinstance(arg, JSON) else arg) == mine
                t.pop()
    return dict(k='inplace', base=[codes(k) for k in base], o=pl.enc(o), out=out, doc=doc, valuesame=same, copied=copied, val=val)


def history(r, v, n, fixed=None):
    root = JSON(v)
    evs, infos = [], []
    for _ in range(n):
        cur = plain(root)
        base, sub = r.choice(list(gen.locations(cur))) if r.random() < .3 and not fixed else ((), cur)
        o = fixed or pl.rand_op(r, sub)
        while o['op'] not in ('add', 'remove', 'replace'):
            o = pl.rand_op(r, sub)
        if o['op'] != 'remove' and not fixed and r.random() < .15:
            o['value'] = gen.copy(r.choice(list(gen.locations(cur)))[1])
        if r.random() < .5:
            root.value
        evs.append(step(r, root, list(base), o))
        infos.append(dict(document=cur, at=base, operation=o))
    return dict(doc=xval(v), ev=evs, info=infos)


def run(ctx):
    r = random.Random(ctx.seed)
    ctx.model('MC_Patch', 'MC_Patch.cfg' if ctx.quick else 'MC_PatchDeep.cfg')
    for doc, o, want in c08.replay(ctx, 'MC_PatchGen.cfg' if ctx.quick else 'MC_PatchGenDeep.cfg'):
        if o['op'] not in ('add', 'remove', 'replace'):
            continue
        J = JSON(doc)
        J.value
        p = JSONPointer(o['path'])
        if o['op'] == 'remove':
            got = attempt(J.remove, p)
        else:
            got = attempt(getattr(J, o['op']), p, o['value'])
        after = plain(J)
        if xval(J.value) != xval(after):
            ctx.fail('replay-stale-value', doc=doc, op=o, after=after, value=J.value)
        if want[0] == 'err':
            if got[0] == 'ok':
                ctx.fail('replay-error-not-detected', doc=doc, op=o, after=after)
            elif 'JSONError' not in got[1]:
                ctx.fail('replay-wrong-exception', doc=doc, op=o, got=got)
            elif xval(after) != xval(doc):
                ctx.fail('replay-rejected-but-changed', doc=doc, op=o, after=after)
        elif got[0] == 'err':
            ctx.fail('replay-valid-operation-rejected', doc=doc, op=o, got=got)
        elif after != c08.unj(want[1]):
            ctx.fail('replay-wrong-document', doc=doc, op=o, after=after, want=c08.unj(want[1]))
    hs = [history(r, gen.value(r, r.randint(1, 3)), r.randint(1, 8)) for _ in range(ctx.scale(1200, 15000))]
    for v, p in gen.index_cases():
        for op in ('add', 'remove', 'replace'):
            if r.random() < ctx.scale(.5, 1):
                hs.append(history(r, v, 1, c08.fixed_op(op, p)))
    ctx.validate('PatchCheck', 'PatchCheck.cfg', hs)
