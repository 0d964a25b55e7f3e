"""C16: dynamic references.  All small chains of resources with and without the anchor, and random networks entered from any of
their schemas, repeatedly; which schema each reference binds to is seen from the locations in the result tree and its verdict."""
import itertools
import random

from .. import evalrun, pairs, refcases, sgen
from ..schemalib import DIALS

ASSUMPTIONS = ['no cycle of references stays at one instance location',
               '$recursiveAnchor stands only at the root of a resource; in 2019-09 resources that carry it are entered at their root']
W = dict(V=1.2, P=2, O=3, A=3, U=.5, R=6)
U = ['http://t.example/r0', 'http://t.example/r1', 'http://t.example/r2']


def chains20(r):
    """r0 -> r1 -> r2, each carrying the dynamic anchor n nowhere, at its root, or at a definition; r2 makes the reference."""
    for kinds in itertools.product(['none', 'root', 'def', 'plain', 'other', 'both'], repeat=3):
        for ref in ['#n', 'r0#n', 'r1#n', 'r2#n', '#/$defs/x', 'r1#/$defs/x', 'r2', '#']:
            for step, embed in itertools.product(['in', 'prop'], ['docs', 'embedded', 'nested']):
                docs = []
                for k in range(3):
                    s = {'$id': U[k], 'title': f'r{k}'}
                    x = {'title': f'x{k}', 'maximum': k + 1}
                    if kinds[k] == 'root':
                        s['$dynamicAnchor'] = 'n'
                    elif kinds[k] == 'def':
                        x['$dynamicAnchor'] = 'n'
                    elif kinds[k] == 'plain':
                        x['$anchor'] = 'n'
                    elif kinds[k] == 'both':
                        x.update({'$anchor': 'n', '$dynamicAnchor': 'm'})
                    elif kinds[k] == 'other':
                        x['$dynamicAnchor'] = 'm'
                    s['$defs'] = {'x': x}
                    if k < 2:
                        if step == 'in':
                            s['$ref'] = U[k + 1]
                        else:
                            s['properties'] = {'p': {'$ref': U[k + 1]}}
                    else:
                        s['properties'] = {'p': {'$dynamicRef': ref}}
                    docs.append(s)
                # only references that resolve
                t = {'#n': 2, 'r0#n': 0, 'r1#n': 1, 'r2#n': 2}.get(ref)
                if t is not None and kinds[t] in ('none', 'other'):
                    continue
                if embed == 'embedded':
                    docs = [{**docs[0], '$defs': {**docs[0]['$defs'], 'r1': docs[1], 'r2': docs[2]}}]
                elif embed == 'nested':
                    docs = [{**docs[0], '$defs': {**docs[0]['$defs'], 'r1': {**docs[1], '$defs': {**docs[1]['$defs'], 'r2': docs[2]}}}}]
                elif ref.startswith('r0'):
                    continue
                yield docs[::-1]


def chains19(r):
    for kinds in itertools.product([None, True, False], repeat=3):
        for step, embed, tail in itertools.product(['in', 'prop'], ['docs', 'embedded', 'nested'], ['p', 'items', 'two']):
            docs = []
            for k in range(3):
                s = {'$id': U[k], 'title': f'r{k}'}
                if kinds[k] is not None:
                    s['$recursiveAnchor'] = kinds[k]
                if k < 2:
                    if step == 'in':
                        s['$ref'] = U[k + 1]
                    else:
                        s['properties'] = {'p': {'$ref': U[k + 1]}}
                else:
                    s['properties'] = {'p': {'$recursiveRef': '#'}}
                    if tail == 'items':
                        s['items'] = {'$recursiveRef': '#'}
                    elif tail == 'two':
                        s['$defs'] = {'y': {'properties': {'p': {'$recursiveRef': '#'}}}}
                        s['properties'] = {'p': {'$ref': '#/$defs/y'}}
                s['maxProperties'] = k + 1
                docs.append(s)
            if embed == 'embedded':
                docs = [{**docs[0], '$defs': {'r1': docs[1], 'r2': docs[2]}}]
            elif embed == 'nested':
                docs = [{**docs[0], '$defs': {'r1': {**docs[1], '$defs': {**docs[1].get('$defs', {}), 'r2': docs[2]}}}}]
            yield docs[::-1]


INST = [{'p': 1}, {'p': 2}, {'p': 3}, {'p': {'p': 2}}, {'p': {'p': {'p': 2}}}, {'p': {'p': {'p': {'p': 3}, 'q': 1}, 'q': 1}}, {'p': [{'p': {'q': 1, 'r': 2}}]}, {'p': {'a': 1, 'b': 2}}]


def chain(r, docs, dial, quick):
    h = evalrun.History([(d, dial, None) for d in docs], ['valid', 'loc'])
    try:
        if h.build():
            order = [(len(docs), [])] * 2 + [(k, []) for k in range(1, len(docs))]
            if len(docs) == 1:
                d = docs[0]['$defs']
                if 'r1' in d:
                    order.append((1, ['$defs', 'r1']))
                order.append((1, ['$defs', 'r2']) if 'r2' in d else (1, ['$defs', 'r1', '$defs', 'r2']))
            for d, p in r.sample(order, len(order) if not quick else 2):
                for v in r.sample(INST, 2 if quick else 4):
                    h.evaluate(v, path=p, d=d)
    finally:
        h.close()
    return h.history()


BOOL = [{'$dynamicRef': '#/$defs/t', '$defs': {'t': True}}, {'$dynamicRef': '#/$defs/t', '$defs': {'t': False}}, {'$dynamicRef': '#a', '$defs': {'t': {'$anchor': 'a', 'type': 'integer'}}},
        {'properties': {'p': {'$dynamicRef': '#'}}, 'type': 'object'}, {'$dynamicRef': '#a', '$defs': {'t': {'$dynamicAnchor': 'a', 'type': 'integer'}}, 'minimum': 2},
        {'$defs': {'t': {'$dynamicAnchor': 'a', '$anchor': 'b', 'type': 'integer'}}, 'items': {'$dynamicRef': '#b'}}, {'$dynamicRef': '#nope'}, {'items': {'$dynamicRef': 'http://nowhere.example/x#a'}}]


def run(ctx):
    r = random.Random(ctx.seed)
    hs = []
    for d in ('2020-12', 'next'):
        for s in BOOL:
            hs += evalrun.exhaust([s], [1, 2, 'x', {'p': {}}, {'p': 1}, [1, 'a']], ['valid', 'loc'], d)
    for dial in DIALS:
        all_ = list(chains19(r) if dial == '2019-09' else chains20(r))
        k = len(all_) if not ctx.quick else 190
        for docs in r.sample(all_, min(k, len(all_))):
            hs.append(chain(r, docs, dial, ctx.quick))
    for _ in range(ctx.scale(420, 12000)):
        dial = r.choice(['2019-09', '2020-12', '2020-12', 'next'])
        hs.append(evalrun.random_history(r, dial, W, ['valid', 'loc'], ndocs=r.choice([1, 2, 3]), dynamic=True, load=r.random() < .4, depth=2, n_inst=5))
    hs += pairs.histories(r, DIALS, ctx.scale(350, 6000), ['valid', 'loc'], must={'$dynamicRef', '$recursiveRef'})
    ctx.validate('EvalCheck', 'EvalCheck.cfg', hs)
    tail = '' if ctx.quick else 'Deep'
    for cfg in ['MC_Refs20Agree.cfg', 'MC_Refs19Agree.cfg'] + ([] if ctx.quick else ['MC_Refs20AgreeDeep.cfg']):
        ctx.model('MC_Refs', cfg, timeout=3000)
    refcases.replay(ctx, r, [f'MC_Refs20{tail}.cfg'], 2500, ['2020-12', 'next'])
    refcases.replay(ctx, r, ['MC_Refs20In.cfg'] if ctx.quick else ['MC_Refs20In.cfg', 'MC_Refs20InDeep.cfg'], 2500, ['2020-12', 'next'])
    refcases.replay(ctx, r, [f'MC_Refs19{tail}.cfg'], 2500, ['2019-09'])
