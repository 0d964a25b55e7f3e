"""The networks of references that spec/MC_Refs.tla walks, with the specified paths of evaluation, replayed on the real code:
laid out as one document or several, and entered from each of their schemas."""
import json

from jschon import JSON, JSONSchema, URI

from . import evalrun
from .core import attempt
from .schemalib import META

HOST = 'http://refs.example/'


def cases(ctx, cfgs):
    out = []
    for cfg in cfgs:
        for line in ctx.model('MC_Refs', cfg, timeout=3000).lines:
            if line.startswith('VCASE '):
                out.append(json.loads(line[6:]))
    return out


def ref(r, own, form):
    """The keyword of a reference; own: the resource it stands in."""
    kind, j, via = form
    if kind == '?':
        return {}
    if kind == 'rec':
        it = {'$recursiveRef': '#'}
    else:
        frag = {'ref': '', 'refx': '#/$defs/x', 'dynx': '#/$defs/x'}.get(kind, '#n')
        base = r.choice([f'{HOST}r{j}', f'r{j}', f'/r{j}'] + ([''] * 3 if j == own else []))
        it = {'$dynamicRef' if kind.startswith('dyn') else '$ref': base + frag if base + frag else '#'}
    return {'properties': {'p': it}} if via == 'p' else it


def resource(r, k, net):
    a = net['a']
    x = {'title': f'x{k}'}
    s = {'$id': r.choice([f'{HOST}r{k}', f'{HOST}r{k}#']) if k > 1 and r.random() < .2 else f'{HOST}r{k}', 'title': f'r{k}'}
    if a == 'root':
        s['$dynamicAnchor'] = 'n'
    elif a == 'x':
        x['$dynamicAnchor'] = 'n'
    elif a == 'plain':
        x['$anchor'] = 'n'
    elif a == 'both':
        x.update({'$anchor': 'n', '$dynamicAnchor': 'm'})
    elif a in ('true', 'false'):
        s['$recursiveAnchor'] = a == 'true'
    x.update(ref(r, k, net['x']))
    s.update(ref(r, k, net['root']))
    s['$defs'] = {'x': shuffled(r, x)}
    return s


def shuffled(r, d):
    ks = list(d)
    r.shuffle(ks)
    return {k: d[k] for k in ks}


def layout(r, rs):
    """(how, the document to build first, documents to load)."""
    how = r.choice(['docs', 'embedded', 'nested', 'host', 'mixed']) if len(rs) > 1 else r.choice(['docs', 'host'])
    put = lambda s, name, t: s['$defs'].update({name: t})
    if how == 'embedded':
        for k, s in enumerate(rs[1:]):
            put(rs[0], f'r{k + 2}', s)
        return how, rs[0], []
    if how == 'nested':
        for k in range(len(rs) - 1, 0, -1):
            put(rs[k - 1], f'r{k + 1}', rs[k])
        return how, rs[0], []
    if how == 'host':
        return how, {'$id': HOST + 'host', '$dynamicAnchor': 'n' if r.random() < .3 else 'o', '$defs': {f'r{k}': s for k, s in enumerate(rs)}}, []
    if how == 'mixed' and len(rs) > 2:
        put(rs[1], 'r3', rs[2])
        # r3 is found only once r2 is loaded
        return how, rs[1], [rs[0]]
    return 'docs', rs[0], rs[1:]


def replay(ctx, r, cfgs, quick, dials):
    """quick: at most so many networks, 30 times as many in the thorough tier; those whose references move with the scope first."""
    n = 0
    all_ = cases(ctx, cfgs)
    quick = quick if ctx.quick else quick * 30
    if len(all_) > quick:
        hard = [c for c in all_ if c['moved']]
        k = min(len(hard), quick * 2 // 3)
        all_ = r.sample(hard, k) + r.sample(all_, quick - k)
    cat = evalrun.cat()
    for c in all_:
        net, depth = c['net'], c['depth']
        dial = r.choice(dials)
        rs = [resource(r, k + 1, x) for k, x in enumerate(net)]
        for s in rs:
            if dial == 'next':
                s['$id'] = s['$id'].rstrip('#')
            if r.random() < .5:
                s['$schema'] = META[dial]
        how, doc, load = layout(r, rs)
        if dial == '2019-09':
            doc.pop('$dynamicAnchor', None)
        evalrun.SOURCE.docs = {f'{HOST}r{rs.index(s) + 1}': dict(s, **{'$schema': META[dial]}) for s in load}
        info = dict(document=doc, loaded=load, dialect=dial, layout=how)
        with cat.cache() as cid:
            box = []
            got = attempt(lambda: box.append(JSONSchema(doc, catalog=cat, cacheid=cid, metaschema_uri=URI(META[dial]))))
            if not box:
                ctx.fail('refs-construction-raised', got=got, **info)
                continue
            walks = [w for w in c['walks'] if w[1]]
            r.shuffle(walks)
            for (k, where), trail in walks[:3] if ctx.quick else walks:
                d = depth if r.random() < .7 else r.randint(0, depth)
                v = 0
                for _ in range(d):
                    v = {'p': v}
                inst = JSON(v)
                nodes = [inst]
                while nodes[-1].type == 'object':
                    nodes.append(nodes[-1].data['p'])

                def f():
                    s = cat.get_schema(URI(f'{HOST}r{k}' + ('#/$defs/x' if where == 'x' else '')), cacheid=cid, metaschema_uri=URI(META[dial]))
                    res = s.evaluate(inst)
                    return [res.valid] + [sorted(res.collect_annotations(i, 'title')) for i in nodes]
                want = [True] + [sorted(f"{'r' if w == 'root' else 'x'}{j}" for lev, j, w in trail if lev == m) for m in range(d + 1)]
                n += 1
                got = attempt(f)
                if got != ['ok', want]:
                    ctx.fail('refs-path', got=got, expected=want, entry=[k, where], instance=v, **info)
    evalrun.SOURCE.docs = {}
    ctx.traces += n
    ctx.notes['replayed_from_model'] = ctx.notes.get('replayed_from_model', 0) + n
