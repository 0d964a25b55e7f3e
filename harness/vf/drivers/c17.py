"""C17: assertion keywords.  Every keyword with boundary values on boundary instances, in several places of schema and instance,
and random combinations; the specification (spec/Eval.tla) decides each one."""
import random

from jschon import JSON

from .. import evalcases, evalrun, pairs, sgen
from ..schemalib import DIALS

ASSUMPTIONS = ['patterns are drawn from the operators that ECMA 262 and Python regular expressions share',
               'multipleOf divisors have at most 8 significant digits']
W = dict(V=5, P=1.2, O=.8, A=.6)

NUMS = [0, 1, 2, 3, -1, -2, 1.0, 2.0, 2.5, 0.1, 0.3, -0.0, 0.01, 10, 100, 1e2, 4.02, 1e308, 2**53, 2**53 - 1, 10**30, 1e-7, 0.075, 19.99, 0.0001, 1.0000000000000002, 2.9999999999999996, 1e-300, 3 + 1e-13]
STRS = ['', 'a', 'ab', 'abc', 'é', 'éa', '😀', '😀😀', 'a\u0301', 'aab', 'foo', '1', 'x\ny', 'A', 'ba', 'b\na', 'a\nb', '\na']
ARRS = [[], [1], [1, 1], [1, 2], [1, 1.0], [1, True], [0, False], [True, True], ['a', 'a'], ['a', 'b'], [None, None], [[], []], [{}, {}], [[1], [1.0]], [[1], [True]],
        [{'a': 1, 'b': 2}, {'b': 2, 'a': 1}], [{'a': 0}, {'a': False}], [1, 2, 3], [1, 2, 1], [0, 1, 2, 3, 4], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 9], [{'a': 1}, 'x', None, {'a': 1}], [[1], 0, 2, 'y', [1]], [[], {}, 0, []], ['q', {}, 1, {'a': 1}, {}], [{'a': 1, 'b': 2}, 1, 'z', {'b': 2, 'a': 1.0}], [0.5, [], 3, 0.5], [[[2]], 1, 2, 3, [[2.0]]], ['b', 'a', 3, 'b'], ['1', 1], list(range(20)) + [19], list(range(33)), [*'qwertyuiopasdfghjklzxcvbnm', 'm'], [[k] for k in range(18)] + [[17.0]], [None, False, 0, '', [], {}]]
OBJS = [{}, {'a': 1}, {'b': 1}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, {'a': None}, {'a': 1, 'b': 2, 'c': 3}, {'': 1}, {'a/b': 1}, {'foo': {}}, {'a': {'a': 1}}, {'c': 3}, {'x1': 0, '~': 0, 'é': 0}]
OTHER = [None, True, False]
INST = OTHER + NUMS + STRS + ARRS + OBJS

TYPES = ['null', 'boolean', 'number', 'integer', 'string', 'array', 'object']
SETS = [[], ['a'], ['b'], ['a', 'b'], ['b', 'a'], [''], ['a/b'], ['c', 'a', 'b'], ['é']]


def values(kw):
    if kw == 'type':
        return TYPES + [[t] for t in TYPES] + [['integer', 'string'], ['number', 'null'], ['array', 'object'], ['boolean', 'integer'], []]
    if kw == 'const':
        return OTHER + [0, 1, 1.0, -0.0, 2.5, '', 'a', '1', 'é', [], [1], [1.0], [True], [0], [False], {}, {'a': 1}, {'a': 1.0}, {'a': True}, {'b': 2, 'a': 1}, [{}], {'a': {'a': 1}}, 10**30]
    if kw == 'enum':
        return [[], [1], [True], [0], [False], [None], ['a'], [[]], [{}], [1, 'a'], ['a', 'ab', ''], [1.0, [1]], [[1], {'a': 1}], [0, False, None, ''], [[True], {'a': True}], [2, 2.5, 3, 10], [{'b': 2, 'a': 1}]]
    if kw == 'multipleOf':
        return [1, 2, 3, 0.1, 0.01, 2.5, 0.5, 1.0, 10, 0.0001, 1e-7, 0.3, 1e2, 7, 0.075]
    if kw in ('maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum'):
        return [0, 1, -1, 1.0, 2, 2.5, 0.1, 0.3, -0.0, 3, 100, 1e308, 2**53, 10**30, 1e-7, 0.01]
    if kw in ('maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties'):
        return [0, 1, 2, 3, 1.0, 2.0, 4, 10, 11, 1e2]
    if kw == 'uniqueItems':
        return [True, False]
    if kw == 'required':
        return SETS
    if kw == 'dependentRequired':
        return [{}] + [{'a': x} for x in SETS] + [{'a': ['b'], 'b': ['a']}, {'b': ['c'], 'c': ['a']}, {'': ['a']}, {'foo': ['a'], 'a': []}]
    raise KeyError(kw)


def patterns():
    a, b = [['ch', [[97, 97]]]], [['ch', [[98, 98]]]]
    yield '', ['seq', []]
    yield 'a', ['seq', a]
    yield '^a', ['seq', [['bol']] + a]
    yield 'a$', ['seq', a + [['eol']]]
    yield '^a$', ['seq', [['bol']] + a + [['eol']]]
    yield '^$', ['seq', [['bol'], ['eol']]]
    yield 'b|^a', ['alt', [['seq', b], ['seq', [['bol']] + a]]]
    yield '^[ab]+$', ['seq', [['bol'], ['rep', ['ch', [[97, 98]]], 1, -1], ['eol']]]
    yield 'a{2}', ['seq', [['rep', a[0], 2, 2]]]
    yield '^.{2}$', ['seq', [['bol'], ['rep', ['nc', [[10, 10]]], 2, 2], ['eol']]]
    yield 'é', ['seq', [['ch', [[233, 233]]]]]
    yield '[^a]', ['seq', [['nc', [[97, 97]]]]]
    yield 'ba', ['seq', b + a]


PLACES = {
    'root': (lambda s: s, lambda v: v),
    'property': (lambda s: {'properties': {'p': s}}, lambda v: {'p': v}),
    'item': (lambda s: {'items': s}, lambda v: [v]),
    'second item': (lambda s: {'items': s}, lambda v: [v, v]),
    'negated': (lambda s: {'not': s}, lambda v: v),
    'all': (lambda s: {'allOf': [True, s]}, lambda v: v),
    'any': (lambda s: {'anyOf': [s, False]}, lambda v: v),
    'one': (lambda s: {'oneOf': [s, s]}, lambda v: v),
    'referenced': (lambda s: {'$defs': {'d': s}, '$ref': '#/$defs/d'}, lambda v: v),
    'condition': (lambda s: {'if': s, 'else': False}, lambda v: v),
    'additional': (lambda s: {'additionalProperties': s}, lambda v: {'p': v, 'q': v}),
    'deep': (lambda s: {'properties': {'p': {'items': {'additionalProperties': s}}}}, lambda v: {'p': [{'x': v}]}),
    'contained': (lambda s: {'contains': s}, lambda v: [None, v]),
    'unevaluated': (lambda s: {'unevaluatedProperties': s}, lambda v: {'p': v}),
    'beside others': (lambda s: {'title': 't', **s, 'x-note': 1, 'properties': {}}, lambda v: v),
}


def single(r, ctx):
    out = []
    some = ctx.quick
    for kw in sgen.VALIDATION:
        if kw == 'pattern':
            vals = [(p, {p: a}) for p, a in patterns()]
        else:
            vals = [(v, {}) for v in values(kw)]
        for n, (v, rx) in enumerate(vals):
            for place, (ws, wi) in PLACES.items():
                if place != 'root' and some and r.random() > .12:
                    continue
                dial = DIALS[r.randrange(3)] if some else None
                for d in [dial] if dial else DIALS:
                    if not dial and place != 'root' and r.random() > .4:
                        continue
                    inst = INST if place == 'root' and not (some and r.random() < .5) else r.sample(INST, 25)
                    out += evalrun.exhaust([ws({kw: v})], [wi(x) for x in inst], ['valid'], d, rx=rx)
    return out


def standing(r, n):
    """A part of a schema applied to a part of an instance, where they stand."""
    out = []
    for _ in range(n):
        rx = {}
        dial = r.choice(DIALS)
        g = sgen.Gen(r, dial, W, depth=2, rx=rx)
        sub, v = g.schema(1), sgen.instance(r)
        if r.random() < .6:
            v = sgen.fit(r, sub, sub)
        where = r.choice([(['properties', 'a'], {'properties': {'a': sub, 'b': False}}), (['allOf', '1'], {'allOf': [False, sub]}), (['$defs', 'x/y'], {'type': 'null', '$defs': {'x/y': sub}}),
                          (['items', 'not'], {'items': {'not': sub}})])
        h = evalrun.History([(where[1], dial, evalrun.BASE)], ['valid'], rx=rx)
        try:
            if h.build():
                for _ in range(3):
                    big = JSON({'l': [None, {'k': v}], 'm': v})
                    h.evaluate(v, path=where[0], node=r.choice([big['m'], big['l'][1]['k']]))
                    h.evaluate(v, path=where[0])
                    v = sgen.fit(r, sub, sub)
        finally:
            h.close()
        out.append(h.history())
    return out


def run(ctx):
    r = random.Random(ctx.seed)
    hs = single(r, ctx) + standing(r, ctx.scale(60, 1000))
    for _ in range(ctx.scale(300, 6000)):
        hs.append(evalrun.random_history(r, r.choice(['2019-09', '2020-12', '2020-12', 'next']), W, ['valid'], n_inst=5, depth=2))
    hs += pairs.histories(r, DIALS, ctx.scale(500, 8000), ['valid'], kinds=('obj', 'arr', 'str', 'num'), must=set(sgen.VALIDATION), refs=False)
    evalcases.replay(ctx, r, 'assert')
    ctx.validate('EvalCheck', 'EvalCheck.cfg', hs)
