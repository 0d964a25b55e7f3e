"""C19: unevaluatedItems and unevaluatedProperties.  Systematic small schemas in which something evaluates items or properties in
every possible position relative to the unevaluated keyword, and random nestings with references."""
import itertools
import random

from .. import evalcases, evalrun, pairs, sgen
from ..schemalib import DIALS

ASSUMPTIONS = ['patterns are drawn from the operators that ECMA 262 and Python regular expressions share']
W = dict(U=3, P=4, O=2, A=2, V=.7)

RXS = {'^b': ['seq', [['bol'], ['ch', [[98, 98]]]]]}
OBJS = [{}, {'a': 1}, {'b': 1}, {'a': 1, 'b': 2}, {'a': 'x'}, {'c': 1}, {'a': 1, 'c': 1}, {'b': 'y', 'c': 2}, {'a': 1, 'b': 1, 'c': 1}, {'a': {'a': 1, 'c': 1}}, {'d': 1, 'a': 1}, {'bb': 'x'}]
ARRS = [[], [1], ['x'], [1, 2], [1, 'x'], ['x', 1], ['x', 'x'], [1, 2, 3], [1, 'x', 3], ['x', 2, 'y'], [1, 2, 'x'], [[1, 2], 1], [1, 2, 3, 4]]


def wraps(s, t):
    """s placed so that it is applied (or not) at the same instance location; t is a schema that may pass or fail."""
    yield 'beside', dict(s)
    yield 'allOf', {'allOf': [t, s]}
    yield 'anyOf', {'anyOf': [s, t]}
    yield 'anyOf2', {'anyOf': [t, s, True]}
    yield 'oneOf', {'oneOf': [s, t]}
    yield 'not', {'not': s}
    yield 'notnot', {'not': {'not': s}}
    yield 'anynot', {'anyOf': [True, {'not': {'not': s}}]}
    yield 'if', {'if': s}
    yield 'ifthen', {'if': t, 'then': s}
    yield 'ifelse', {'if': t, 'else': s}
    yield 'ifboth', {'if': s, 'then': t, 'else': True}
    yield 'dep', {'dependentSchemas': {'a': s}}
    yield 'dep2', {'dependentSchemas': {'a': t, 'c': s}}
    yield 'ref', {'$ref': '#/$defs/s', '$defs': {'s': s}}
    yield 'refany', {'anyOf': [{'$ref': '#/$defs/s'}, t], '$defs': {'s': s}}
    yield 'recref', {'@rec': s}
    yield 'dynref', {'$dynamicRef': '#dd', '$defs': {'s': {'$dynamicAnchor': 'dd', **s}}}
    yield 'dynany', {'anyOf': [t, {'$dynamicRef': '#dd'}], '$defs': {'s': {'$dynamicAnchor': 'dd', **s}}}
    yield 'failing', {'anyOf': [{'allOf': [s, False]}, t]}
    yield 'failing2', {'anyOf': [{**s, 'not': {}}, True]}
    yield 'deep', {'allOf': [{'anyOf': [{'if': s, 'then': t}, False]}, True]}
    yield 'cousin', {'allOf': [s, {'@': 0}]}
    yield 'sibling-of-parent', {'@parent': s}
    yield 'inner', {'allOf': [{**s, '@inner': 0}]}
    yield 'unrelated', {'properties': {'a': s}, 'contains': s}


def place(kind, w, u):
    """Put the unevaluated keyword u beside w."""
    if kind == 'cousin':
        return {'allOf': [w['allOf'][0], u]}
    if kind == 'recref':
        # reached through a reference into a resource whose root is not entered
        return {'$ref': 'r2#/$defs/x', '$defs': {'r2': {'$id': 'r2', **w['@rec'], '$defs': {'x': {**u, '$recursiveRef': '#'}}}}}
    if kind == 'sibling-of-parent':
        return {**w['@parent'], 'allOf': [u]}
    if kind == 'inner':
        x = dict(w['allOf'][0])
        x.pop('@inner')
        return {'allOf': [{**x, **{k: True for k in u}}], **u}
    return {**w, **u}


P_ = [{'properties': {'a': True}}, {'properties': {'a': {'type': 'integer'}, 'b': True}}, {'patternProperties': {'^b': {'type': 'integer'}}}, {'additionalProperties': {'type': 'integer'}},
      {'properties': {'a': True}, 'additionalProperties': True}, {'unevaluatedProperties': True}, {'properties': {'a': {'properties': {'a': True}, 'unevaluatedProperties': False}}},
      {'properties': {'a': True}, 'unevaluatedProperties': {'type': 'integer'}}, {'properties': {}}, {'required': ['a']}]
TP = [True, {'properties': {'c': True}}, {'required': ['a'], 'properties': {'a': True}}, {'properties': {'a': {'type': 'string'}, 'c': True}}]
UP = [{'unevaluatedProperties': False}, {'unevaluatedProperties': {'type': 'string'}}, {'unevaluatedProperties': True}]

I20 = [{'prefixItems': [True]}, {'prefixItems': [{'type': 'integer'}, True]}, {'items': {'type': 'integer'}}, {'prefixItems': [True], 'items': {'type': 'integer'}}, {'contains': {'type': 'integer'}},
       {'contains': {'type': 'string'}, 'minContains': 0}, {'prefixItems': [{'type': 'string'}], 'contains': {'type': 'integer'}}, {'unevaluatedItems': True}, {'prefixItems': [True, True, True]},
       {'prefixItems': [{'prefixItems': [True], 'unevaluatedItems': False}]}, {'minItems': 2}]
I19 = [{'items': [True]}, {'items': [{'type': 'integer'}, True]}, {'items': {'type': 'integer'}}, {'items': True}, {'items': [True], 'additionalItems': {'type': 'integer'}}, {'contains': {'type': 'integer'}},
       {'items': [{'type': 'string'}], 'contains': {'type': 'integer'}}, {'unevaluatedItems': True}, {'items': [True, True, True]}, {'items': [{'items': [True], 'unevaluatedItems': False}]},
       {'additionalItems': True}, {'minItems': 2}]
UI = [{'unevaluatedItems': False}, {'unevaluatedItems': {'type': 'string'}}, {'unevaluatedItems': True}]


def systematic(dial):
    I = I19 if dial == '2019-09' else I20
    for s, t, u in itertools.product(P_, TP, UP):
        for kind, w in wraps(s, t):
            if kind.startswith('dyn') and dial == '2019-09' or kind == 'recref' and dial != '2019-09':
                continue
            yield place(kind, w, u), OBJS
    TI = [True, I[0], {**I[1], 'minItems': 2}, {'contains': {'const': 3}}]
    for s, t, u in itertools.product(I, TI, UI):
        for kind, w in wraps(s, t):
            if kind.startswith('dep') or kind.startswith('dyn') and dial == '2019-09' or kind == 'recref' and dial != '2019-09':
                continue
            yield place(kind, w, u), ARRS


def run(ctx):
    r = random.Random(ctx.seed)
    hs = []
    for d in DIALS:
        for s, inst in systematic(d):
            if ctx.quick and r.random() > .1:
                continue
            ks = list(s)
            r.shuffle(ks)
            pick = r.sample(inst, min(len(inst), 6 if ctx.quick else 12))
            hs += evalrun.exhaust([{k: s[k] for k in ks}], pick + [r.choice([1, 'a', {}, []])], ['valid'], d, rx=RXS)
    for _ in range(ctx.scale(320, 9000)):
        refs = r.random() < .35
        w = dict(W, R=2) if refs else W
        hs.append(evalrun.random_history(r, r.choice(['2019-09', '2020-12', '2020-12', 'next']), w, ['valid'], n_inst=5, depth=3, refs=refs))
    hs += pairs.histories(r, DIALS, ctx.scale(1000, 15000), ['valid'], must=pairs.UNEVAL, n_inst=6)
    evalcases.replay(ctx, r, 'uneval')
    ctx.validate('EvalCheck', 'EvalCheck.cfg', hs)
