"""C20: annotations.  Recorded result trees and collect_annotations() under every instance and keyword filter, against the
annotations the specification (spec/Eval.tla) attaches to the passing parts."""
import itertools
import random

from .. import evalcases, evalrun, pairs, sgen
from ..schemalib import DIALS

ASSUMPTIONS = ['patterns are drawn from the operators that ECMA 262 and Python regular expressions share',
               'the order in which annotations are collected is not judged']
W = dict(N=3, P=3, O=2, A=2, U=1, V=1.2)

NAMES = ['x', '', ' ', 'X', '0', 'a/b', '~1', 'é', '\x00', '\x01', 'class', 'def', '__init__', 'x-y', '$x', '$ref2', 'definitions', 'dependencies', '1st', 'ß', 'titles', 'Title', 'key', 'minlength', '😀', '.', '%25', '"', '\\', '\n']
VALUES = [0, False, True, '', 'v', [], {}, [None], {'a': None}, [1, [2]], 2.5, 9007199254740993, [10 ** 30 + 1], 0.1, {'type': 'string'}, {'$ref': '#/nowhere'}, 'null']


def unknown(r, quick):
    """Unknown keywords: any name, any value, alone and beside assertions."""
    for n in NAMES:
        for v in VALUES:
            if quick and r.random() > .3:
                continue
            yield {n: v}
            yield {n: v, 'type': 'integer'}
            yield {'properties': {'a': {n: v}}, n: v}
            yield {'not': {n: v, 'not': True}}


A1 = [{'title': 't'}, {'title': 't', 'type': 'integer'}, {'x-u': [1], 'type': 'string'}, {'default': 0}, {'readOnly': True, 'minimum': 2}]


def places(a, b):
    """Annotating subschemas in every position, under success, failure and negation."""
    yield {'allOf': [a, b]}
    yield {'anyOf': [a, b]}
    yield {'oneOf': [a, b]}
    yield {'not': a}
    yield {'not': {'not': a}}
    yield {'not': {'allOf': [a, {'not': b}]}}
    yield {'not': {'anyOf': [{'not': a}, {'not': b}]}}
    yield {'if': a, 'then': b}
    yield {'if': a, 'else': b}
    yield {'if': a, 'then': {'title': 'then'}, 'else': b}
    yield {'anyOf': [{'allOf': [a, {'type': 'string'}]}, b]}
    yield {'anyOf': [{**a, 'not': {}}, b]}
    yield {'$ref': '#/$defs/d', '$defs': {'d': {'anyOf': [a, b]}}}
    yield {'properties': {'a': a, 'b': b}}
    yield {'properties': {'a': a}, 'additionalProperties': b}
    yield {'anyOf': [{'properties': {'a': a}, 'required': ['b']}, {'properties': {'b': b}}]}
    yield {'contains': a}
    yield {'contains': a, 'minContains': 0}
    yield {'items': a, 'contains': b}
    yield {'contains': {'items': a}, 'unevaluatedItems': b}
    yield {'allOf': [{'contains': a}], 'unevaluatedItems': b}
    yield {'unevaluatedProperties': a, 'anyOf': [{'properties': {'a': b}}, True]}
    yield {'propertyNames': a, 'minProperties': 1}
    yield {'dependentSchemas': {'a': a, 'b': b}}
    yield {'patternProperties': {'^a': a, 'b': b}}


RXS = {'^a': ['seq', [['bol'], ['ch', [[97, 97]]]]], 'b': ['ch', [[98, 98]]]}
INST = [1, 3, 'a', None, [], [1], ['a', 3], [1, 'a', 2], {}, {'a': 1}, {'a': 'x', 'b': 3}, {'b': 'y', 'c': 2}, {'a': 3, 'ab': 4}, [[1], ['a']], {'a': {'a': 1}}]
DOC = [{'contentMediaType': 'application/json', 'contentSchema': {'type': 'object'}, 'contentEncoding': 'base64'}, {'contentSchema': {}}, {'format': 'email', 'x': 1}, {'examples': [], 'deprecated': False, 'writeOnly': False},
       {'title': '', 'description': '', 'default': False}, {'$comment': 'c', '$defs': {'a': {'title': 'no'}}}, {'title': 't', '$anchor': 'q'},
       {'contentMediaType': 'x', 'type': 'integer'}, {'then': {'title': 'a'}, 'else': {'title': 'b'}}]


NOTED = dict(str={'contentSchema', 'contentEncoding', 'contentMediaType', 'format'}, num={'title', 'default', 'x-unknown', 'readOnly', 'examples'}, obj=None, arr=None)


def run(ctx):
    r = random.Random(ctx.seed)
    hs = []
    q = ctx.quick
    for s in unknown(r, q):
        hs += evalrun.exhaust([s], r.sample(INST, 2), ['valid', 'ann'], r.choice(DIALS), ann=True)
    for a, b in itertools.product(A1, repeat=2):
        for s in places(a, b):
            if q and r.random() > .4:
                continue
            hs += evalrun.exhaust([s], r.sample(INST, 6 if q else 14), ['valid', 'ann'], r.choice(DIALS), ann=True, rx=RXS)
    for d in DIALS:
        for s in DOC:
            hs += evalrun.exhaust([s], INST[:6] + [{'a': 1}], ['valid', 'ann'], d, ann=True)
        # values of every kind, as they are
        for v in VALUES + [2 ** 53 + 1, -2 ** 63 - 1, 1e300, 5e-324, 1.0, -0.0, 'a\u0301', {'b': 1, 'a': [2]}]:
            hs += evalrun.exhaust([{'default': v, 'examples': [v, v]}, {'allOf': [{'default': v}], 'title': 't'}], [r.choice(INST)], ['valid', 'ann'], d, ann=True)
    # annotations whose value is null
    for s in ({'default': None}, {'x-unknown': None}):
        hs += evalrun.exhaust([s], [1], ['valid', 'ann'], '2020-12', ann=True)
    for _ in range(ctx.scale(260, 7000)):
        refs = r.random() < .3
        hs.append(evalrun.random_history(r, r.choice(['2019-09', '2020-12', '2020-12', 'next']), dict(W, R=2) if refs else W, ['valid', 'ann'], n_inst=3, depth=3, ann=True, refs=refs, fit=.85))
    for kind in ('obj', 'arr', 'str', 'num'):
        hs += pairs.histories(r, DIALS, ctx.scale(130, 2500), ['valid', 'ann'], kinds=(kind,), must=NOTED[kind], ann=True, n_inst=3)
    evalcases.replay(ctx, r, 'note')
    ctx.validate('EvalCheck', 'EvalCheck.cfg', hs)
