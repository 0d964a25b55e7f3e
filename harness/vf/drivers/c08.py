"""C08: JSON Patch evaluation against RFC 6902."""
import json
import random

from jschon import JSONPatch

from .. import gen, patchlib as pl
from ..core import attempt, codes, xval, text, unj

ASSUMPTIONS = ['operations are well formed: a known op with the members RFC 6902 requires for it']


def fixed_op(op, path):
    if '-' in op:
        return dict(op=op[:4], path=['new'], from_=path)
    o = dict(op=op, path=path)
    if op in pl.VALUED:
        o['value'] = 0
    if op in pl.FROM:
        o['from_'] = ['b', '0']
    return o


def history(r, doc, n, fixed=None):
    cur = gen.copy(doc)
    ops, evs, infos = [], [], []
    for _ in range(n):
        o = fixed or pl.rand_op(r, cur)
        ops.append(o)
        real = [pl.make(x, r.randrange(4)) for x in ops]
        out = attempt(lambda: JSONPatch(*real).evaluate(doc), enc=xval)
        live = gen.copy(cur)
        fout = attempt(lambda: pl.call(live, o), enc=xval)
        evs.append(dict(k='patch', o=pl.enc(o), out=out, fout=fout))
        infos.append(dict(document=doc, operations=[pl.asdict(x) for x in ops]))
        try:
            cur = JSONPatch(*real).evaluate(doc)
        except Exception:
            if r.random() < .5:
                break
            # go on after dropping the failed operation
            break
    return dict(doc=xval(doc), ev=evs, info=infos)


def replay(ctx, cfg):
    """Every transition of the small-scope model, replayed on the real code."""
    r = ctx.model('MC_Patch', cfg)
    n = 0
    for line in r.lines:
        if not line.startswith('VCASE '):
            continue
        c = json.loads(line[6:])
        n += 1
        doc = unj(c['doc'])
        o = dict(op=c['o']['op'], path=[text(k) for k in c['o']['path']], from_=[text(k) for k in c['o']['from']], value=unj(c['o']['value']))
        yield doc, o, c['out']
    ctx.traces += n
    ctx.notes['replayed_from_model'] = n


def run(ctx):
    r = random.Random(ctx.seed)
    ctx.model('MC_Patch', 'MC_Patch.cfg' if ctx.quick else 'MC_PatchDeep.cfg')
    for doc, o, want in replay(ctx, 'MC_PatchGen.cfg' if ctx.quick else 'MC_PatchGenDeep.cfg'):
        got = attempt(lambda: JSONPatch(pl.asdict(o)).evaluate(doc), enc=lambda x: [x])
        if want[0] == 'err':
            if got[0] == 'ok':
                ctx.fail('replay-error-not-detected', doc=doc, op=pl.asdict(o), got=got)
            elif 'JSONPatchError' not in got[1]:
                ctx.fail('replay-wrong-exception', doc=doc, op=pl.asdict(o), got=got)
        elif got[0] == 'err':
            ctx.fail('replay-valid-operation-rejected', doc=doc, op=pl.asdict(o), got=got)
        elif got[1][0] != unj(want[1]):
            ctx.fail('replay-wrong-document', doc=doc, op=pl.asdict(o), got=got, want=unj(want[1]))
    hs = []
    for _ in range(ctx.scale(1200, 20000)):
        hs.append(history(r, gen.value(r, r.randint(1, 3)), r.randint(1, 6)))
    for v, p in gen.index_cases():
        for op in ('add', 'remove', 'replace', 'test', 'copy', 'move', 'copy-from', 'move-from'):
            if r.random() < ctx.scale(.25, 1):
                hs.append(history(r, v, 1, fixed_op(op, p)))
    ctx.validate('PatchCheck', 'PatchCheck.cfg', hs)
