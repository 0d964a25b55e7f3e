"""C22: locations.  Every node of recorded result trees: its instance location, evaluation path and absolute schema location are
computed by the specification, and the absolute location is looked up again in the catalog."""
import random

from jschon import JSON

from .. import evalrun, pairs, sgen
from ..schemalib import DIALS

ASSUMPTIONS = ['patterns are drawn from the operators that ECMA 262 and Python regular expressions share',
               'no cycle of references stays at one instance location', 'names contain no lone surrogates']
W = dict(V=1.5, P=3, O=3, A=3, U=1, N=.6)
ODD = ['a b', 'a/b', '~', '~1', '%', '%25', '%41', '#', '?', '"', 'é', '😀', '', '0', '-', '\x00', '\n', '\\', '^', '{}', '[0]', '|', '`', '&', '+', '=', ':', ';', ',', '@', '!', '$', "'", '(', '*', '<', '>', '.', '..', '//', 'a#b', '{"x":1}', '\x7f', '\u2028', 'urn:x', 'http://x/y#z']


def odd(r):
    """Names of every kind in the schema and the instance."""
    for n in ODD:
        yield {'properties': {n: {'type': 'integer', 'properties': {n: False}}}}, {n: {n: 1}}
        yield {'$defs': {n: {'type': 'integer', 'not': {}}}, '$ref': None, 'n': n}, 1
        yield {'dependentSchemas': {n: {'required': ['x']}}}, {n: 1}
        yield {'additionalProperties': {'items': False}}, {n: [1]}
        yield {'propertyNames': False}, {n: 1}
        yield {'properties': {n: {'$id': 'sub', 'properties': {n: {'const': 1}}}}}, {n: {n: 2}}
        yield {'unevaluatedProperties': {'items': {'properties': {n: False}}}}, {n: [{n: 1}]}
        yield {'if': {'required': [n]}, 'then': {'properties': {n: {'allOf': [True, {'title': 't'}, False]}}}}, {n: 1}


def run(ctx):
    r = random.Random(ctx.seed)
    hs = []
    from .c15 import pointer
    for s, v in odd(r):
        if '$ref' in s and s['$ref'] is None:
            n = s.pop('n')
            s['$ref'] = '#' + pointer(['$defs', n])
        if ctx.quick and r.random() > .5:
            continue
        hs += evalrun.exhaust([s], [v], ['valid', 'loc'], r.choice(DIALS), uri=r.choice([evalrun.BASE, 'urn:uuid:12', 'tag:x,2020:y', 'http://t.example', 'http://t.example/?q']) if '$id' not in str(s) else evalrun.BASE)
    # evaluations that start inside a document, of nodes inside a document
    for _ in range(ctx.scale(80, 2000)):
        rx = {}
        dial = r.choice(DIALS)
        sub = sgen.Gen(r, dial, W, depth=2, rx=rx).schema(2)
        n1, n2 = r.choice(ODD), r.choice(ODD)
        doc = {'$defs': {n1: {'$id': r.choice(['inner', 'urn:x:y']), '$defs': {n2: sub}}, 'z': {'anyOf': [sub, True]}}, 'items': {'$ref': '#/$defs/z'}, 'title': 'x'}
        if r.random() < .5:
            doc['$defs'][n1].pop('$id')
        h = evalrun.History([(doc, dial, evalrun.BASE)], ['valid', 'loc'], rx=rx)
        try:
            if h.build():
                for _ in range(2):
                    v = sgen.fit(r, sub, sub)
                    big = JSON({n2: [None, {n1: v}], 'm': [v, v]})
                    h.evaluate(v, path=['$defs', n1, '$defs', n2], node=r.choice([big[n2][1][n1], big['m'][1]]))
                    h.evaluate([v, v], path=[], node=big['m'])
                    h.evaluate(v, path=['$defs', 'z', 'anyOf', '0'])
        finally:
            h.close()
        hs.append(h.history())
    for _ in range(ctx.scale(330, 8000)):
        dial = r.choice(DIALS)
        hs.append(evalrun.random_history(r, dial, W, ['valid', 'loc'], n_inst=3, depth=r.choice([2, 3]), fit=.8, uri=r.choice([evalrun.BASE, 'urn:uuid:12', 'http://t.example/?q=a'])))
    for _ in range(ctx.scale(200, 6000)):
        dial = r.choice(DIALS)
        hs.append(evalrun.random_history(r, dial, dict(W, R=4), ['valid', 'loc'], ndocs=r.choice([1, 2]), load=r.random() < .4, dynamic=r.random() < .4, depth=2, n_inst=3, fit=.8))
    hs += pairs.histories(r, DIALS, ctx.scale(250, 5000), ['valid', 'loc'], must=pairs.REFS)
    hs += pairs.histories(r, DIALS, ctx.scale(250, 5000), ['valid', 'loc'], kinds=('obj', 'arr', 'str', 'num'))
    from .c15 import SHAPES, VALUES
    for s in SHAPES:
        hs += evalrun.exhaust([s], VALUES, ['valid', 'loc'], r.choice(DIALS))
    ctx.validate('EvalCheck', 'EvalCheck.cfg', hs)
