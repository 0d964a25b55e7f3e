"""The small-scope schemas that spec/MC_Eval.tla enumerates, with the specified verdicts and annotations, replayed on the
real code."""
import json

from jschon import JSON, JSONSchema, URI

from . import evalrun
from .core import attempt, unj
from .schemalib import META, enc, sized, tokens


def models(ctx, group):
    cfgs = [f'MC_Eval_{group}.cfg', f'MC_Eval_{group}Wrap.cfg'] if ctx.quick else [f'MC_Eval_{group}Deep.cfg']
    insts, cases = None, []
    for cfg in cfgs:
        for line in ctx.model('MC_Eval', cfg, timeout=3000).lines:
            if line.startswith('VINST '):
                insts = [unj(x) for x in json.loads(line[6:])]
            elif line.startswith('VCASE '):
                cases.append(json.loads(line[6:]))
    return insts, cases


def jeq(a, b):
    """Encoded JSON values, members in any order."""
    if a[0] != b[0]:
        return False
    if a[0] == 'o':
        x, y = dict(zip(a[1], a[2])), dict(zip(b[1], b[2]))
        return x.keys() == y.keys() and all(jeq(x[k], y[k]) for k in x)
    if a[0] == 'a':
        return len(a[1]) == len(b[1]) and all(map(jeq, a[1], b[1]))
    if a[0] == 'n':
        return unj(a) == unj(b)
    return a == b


def same(value, an):
    """An annotation's value against the specified one."""
    if an[0] == 'v':
        return jeq(enc(value), an[1])
    if an[0] == 't':
        return value is True
    if an[0] == 'n':
        return value == an[1] and value is not False and value is not True
    if an[0] == 'i':
        return value == an[1] and not any(isinstance(x, bool) for x in value)
    return isinstance(value, list) and len(value) == len(an[1]) and set(value) == set(an[1])


def bag(got, want):
    left = list(want)
    for x in got:
        k = next((k for k, an in enumerate(left) if same(x, an)), None)
        if k is None:
            return False
        del left[k]
    return not left


def where(n, path=()):
    """The nodes of an instance by path."""
    yield list(path), n
    if n.type == 'array':
        for j, x in enumerate(n.data):
            yield from where(x, (*path, str(j)))
    elif n.type == 'object':
        for k, x in n.data.items():
            yield from where(x, (*path, k))


def replay(ctx, r, group, variants=5, insts=8):
    """Returns the base schemas, for checks that judge more of their evaluation: [(schema, dialect, instances)]."""
    all_insts, cases = models(ctx, group)
    cat = evalrun.cat()
    n = 0
    out = []

    def judge(doc, dial, pairs, what, notes=None):
        nonlocal n
        got = attempt(lambda: JSONSchema(doc, catalog=cat, cacheid=cid, uri=URI(evalrun.BASE), metaschema_uri=URI(META[dial])), enc=lambda s: box.append(s) or 0)
        if got[0] != 'ok':
            ctx.fail('case-construction-raised', schema=doc, dialect=dial, got=got)
            return
        s = box.pop()
        for k, (v, want) in enumerate(pairs):
            n += 1
            node = JSON(v)
            box2 = []
            got = attempt(lambda: box2.append(sized(s.evaluate(node))) or box2[0].valid)
            if got != ['ok', want]:
                ctx.fail('case-' + what, schema=doc, dialect=dial, instance=v, got=got, expected=want)
            elif notes is not None:
                collect(doc, dial, v, node, box2[0], notes[k])

    def collect(doc, dial, v, node, res, want):
        def f():
            for path, i in where(node):
                for key in keys(doc):
                    if not bag(res.collect_annotations(i, key), [w[2] for w in want if w[0] == key and w[1] == path]):
                        return [path, key]
            return [] if bag(res.collect_annotations(), [w[2] for w in want]) else ['all']
        got = attempt(f)
        if got != ['ok', []]:
            ctx.fail('case-annotations', schema=doc, dialect=dial, instance=v, got=got, expected=want)

    box = []
    for c in cases:
        doc = unj(c['s'])
        for dial in [c['g']] if c['g'] == '2019-09' or ctx.quick and r.random() < .7 else ['2020-12', 'next']:
            with cat.cache() as cid:
                verdicts = [bool(x) for x in c['v']]
                judge(doc, dial, list(zip(all_insts, verdicts)), 'verdict', c['n'] or None)
                ws = [(how, w) for how, w in c['w'][1:] if how != 'own']
                for how, w in (r.sample(ws, min(variants, len(ws))) if ctx.quick else ws):
                    ks = r.sample(range(len(all_insts)), min(insts, len(all_insts)))
                    lift = dict(arr=lambda x: [x], obj=lambda x: {'a': x}).get(how, lambda x: x)
                    # the same URI again: in another cache, so that each stands alone
                    with cat.cache() as cid:
                        judge(unj(w), dial, [(lift(all_insts[k]), verdicts[k] != (how == 'ne')) for k in ks], 'law-' + how)
                own = [w for how, w in c['w'] if how == 'own']
                for w, vs in zip(own, c['own']):
                    with cat.cache() as cid:
                        ks = r.sample(range(len(all_insts)), insts) if ctx.quick else range(len(all_insts))
                        judge(unj(w), dial, [(all_insts[k], bool(vs[k])) for k in ks], 'sealed')
            out.append((doc, dial, all_insts))
    ctx.traces += n
    ctx.notes['replayed_from_model'] = ctx.notes.get('replayed_from_model', 0) + n
    return out


def keys(v, out=None):
    return sorted(evalrun.keywords(v))
