"""C18: applicator keywords.  Every applicator over small subschemas and instances, and random nestings; the specification
(spec/Eval.tla) says which subschema is applied where and what follows; the validity of every result node is compared."""
import itertools
import random

from .. import evalcases, evalrun, pairs, sgen
from ..schemalib import DIALS

ASSUMPTIONS = ['patterns are drawn from the operators that ECMA 262 and Python regular expressions share']
W = dict(P=4, O=3, A=3, V=1.6)

S = [True, False, {}, {'type': 'integer'}, {'minimum': 2}, {'type': 'string'}, {'not': {}}, {'maximum': 5}]
SCALARS = [None, True, 0, 1, 3, 7, 'a', 2.5]
ARRS = [[]] + [list(x) for n in (1, 2, 3) for x in itertools.product([1, 3, 'a'], repeat=n)][:30] + [[None, [1]], [[], {}], [1, 3, 7, 9], ['a', 1, 'b', 9, 3]]
OBJS = [{}, {'a': 1}, {'a': 'x'}, {'b': 3}, {'a': 1, 'b': 3}, {'b': 'y', 'a': 7}, {'a': 1, 'b': 2, 'c': 3}, {'ab': 1}, {'': 1}, {'a/b': 3, '~': 'x'}, {'é': 1}, {'c': {'a': 1}}]
RXS = {'^a': ['seq', [['bol'], ['ch', [[97, 97]]]]], 'b': ['ch', [[98, 98]]], '': ['seq', []], '^.$': ['seq', [['bol'], ['nc', [[10, 10]]], ['eol']]]}


def inplace(r):
    for k in ('allOf', 'anyOf', 'oneOf'):
        for n in (1, 2, 3):
            for x in itertools.product(S, repeat=n):
                if n < 3 or r.random() < .06:
                    yield {k: list(x)}, SCALARS
    for s in S:
        yield {'not': s}, SCALARS
        yield {'not': {'not': s}}, SCALARS
    for i in S:
        for t, e in itertools.product([None] + S, repeat=2):
            if r.random() < .5:
                d = {'if': i, 'then': t, 'else': e}
                yield {k: v for k, v in d.items() if v is not None}, SCALARS
    for t, e in itertools.product(S[:4], repeat=2):
        yield {'then': t, 'else': e}, SCALARS
    for s, t in itertools.product(S + [{'required': ['b']}, {'properties': {'a': {'type': 'string'}}}, {'minProperties': 2}], repeat=2):
        if r.random() < .4:
            yield {'dependentSchemas': {'a': s, 'b': t}}, OBJS + [1, []]
        if r.random() < .1:
            yield {'dependentSchemas': {'a/b': s, '': t}}, OBJS


def objects(r):
    for p, q, a, m in itertools.product([None] + S, [None] + S, [None] + S, [0, 1, 2]):
        if r.random() > .25:
            continue
        d = {}
        if p is not None:
            d['properties'] = {'a': p} if m else {'a': p, 'b': {'type': 'integer'}}
        if q is not None:
            d['patternProperties'] = {r.choice(list(RXS)): q} if m != 2 else {'^a': q, 'b': r.choice(S)}
        if a is not None:
            d['additionalProperties'] = a
        ks = list(d)
        r.shuffle(ks)
        yield {k: d[k] for k in ks}, OBJS + [1, 'a', ['a']]
    for s in S + [{'maxLength': 1}, {'pattern': '^a'}, {'const': 'a'}, {'enum': ['a', '']}, {'minLength': 1}, {'type': 'object'}]:
        yield {'propertyNames': s}, OBJS + [3, ['b']]


def arrays(r, dial):
    old = dial == '2019-09'
    T = S[:5]
    if old:
        for x in [[], *([s] for s in T), *([s, t] for s in T for t in T)]:
            for a in [None] + T:
                if not x or r.random() > .4:
                    continue
                d = {'items': x}
                if a is not None:
                    d['additionalItems'] = a
                yield d, ARRS + [1, {}]
        for s in S:
            yield {'items': s, 'additionalItems': r.choice(S)}, ARRS + ['a', {'a': 1}]
            yield {'additionalItems': s}, ARRS
    else:
        for x in [None, *([s] for s in T), *([s, t] for s in T for t in T)]:
            for a in [None] + T:
                if r.random() > .4:
                    continue
                d = {}
                if x is not None:
                    d['prefixItems'] = x
                if a is not None:
                    d['items'] = a
                yield d, ARRS + [1, {}]
    for s in S:
        yield {'contains': s}, ARRS + [1, {'a': 1}]
        for lo, hi in itertools.product([None, 0, 1, 2, 3], repeat=2):
            if r.random() < .5:
                d = {'contains': s, 'minContains': lo, 'maxContains': hi}
                ks = [k for k in d if d[k] is not None]
                r.shuffle(ks)
                yield {k: d[k] for k in ks}, ARRS
    for lo, hi in itertools.product([0, 2], repeat=2):
        yield {'minContains': lo, 'maxContains': hi}, ARRS[:6]


def run(ctx):
    r = random.Random(ctx.seed)
    hs = []
    for d in DIALS:
        for s, inst in itertools.chain(inplace(r), objects(r), arrays(r, d)):
            if ctx.quick and r.random() > .33:
                continue
            pick = r.sample(inst, min(len(inst), 9 if ctx.quick else 20))
            hs += evalrun.exhaust([s], pick, ['valid'], d, rx=RXS)
    for _ in range(ctx.scale(350, 9000)):
        hs.append(evalrun.random_history(r, r.choice(['2019-09', '2020-12', '2020-12', 'next']), W, ['valid'], n_inst=5, depth=r.choice([2, 3])))
    hs += pairs.histories(r, DIALS, ctx.scale(600, 9000), ['valid'], refs=r.random() < .5)
    evalcases.replay(ctx, r, 'apply')
    ctx.validate('EvalCheck', 'EvalCheck.cfg', hs)
