"""C03: equality, ordering and typing of JSON documents."""
import itertools
import random

from jschon import JSON

from .. import gen, patchlib as pl
from ..core import attempt, xval

ASSUMPTIONS = ['numbers are Python ints and finite floats (a float denotes its exact binary value)']


def e_cmp(a, b, extra=()):
    A, B = JSON(a), JSON(b)
    forms = [attempt(lambda x, y: dict(eq=bool(x == y), ne=bool(x != y)), *p) for p in ((A, B), (B, A), (A, b), (b, A), (a, B), *extra)]
    return dict(op='cmp', a=xval(a), b=xval(b), ta=A.type, tb=B.type, forms=forms)


def e_ord(a, b):
    A, B = JSON(a), JSON(b)
    f = lambda x, y: attempt(lambda: dict(lt=bool(x < y), le=bool(x <= y), gt=bool(x > y), ge=bool(x >= y)))
    return dict(op='ord', a=xval(a), b=xval(b), forms=[f(A, B), f(A, b), f(a, B)])


def e_seek(a, x):
    A, X = JSON(a), JSON(x)
    f = lambda y: dict(has=attempt(lambda: y in A), count=attempt(lambda: A.count(y)), index=attempt(lambda: A.index(y)))
    return dict(op='seek', a=xval(a), x=xval(x), forms=[f(x), f(X)])


def universe():
    s = [None, True, False, 0, 1, 1.0, -0.0, '', '1', 'true', [], {}]
    u = list(s)
    u += [[x] for x in s] + [{'a': x} for x in s] + [{'0': x} for x in s[:4]]
    t = s[:7]
    u += [[x, y] for x in t for y in t]
    u += [{'a': x, 'b': y} for x in t for y in t] + [{'b': x, 'a': y} for x in t for y in t]
    u += [[[x]] for x in t] + [{'a': [x]} for x in t] + [{'a': {'a': x}} for x in t]
    return u


NEAR = [(True, 1), (False, 0), (1, 1.0), (True, 1.0), (False, -0.0), (0, -0.0), (None, False), ('1', 1), ([], {}), ('', None), ([1], [True]), ({'a': 0}, {'a': False})]
CONTEXTS = [lambda x: [x], lambda x: {'a': x}, lambda x: [0, x], lambda x: [x, []], lambda x: {'b': 1, 'a': x}]


def nested(depth):
    """Nearly equal values in all contexts up to some depth."""
    for d in range(depth + 1):
        for cs in itertools.product(CONTEXTS, repeat=d):
            for a, b in NEAR:
                for c in cs:
                    a, b = c(a), c(b)
                yield a, b


def run(ctx):
    r = random.Random(ctx.seed)
    ctx.model('MC_Json', 'MC_Json.cfg' if ctx.quick else 'MC_JsonDeep.cfg')
    evs, info = [], []

    def add(e, **i):
        evs.append(e)
        info.append(i)
    U = universe()
    pairs = list(itertools.combinations_with_replacement(U, 2))
    if ctx.quick:
        # the pairs that Python's own equality confuses or equates, and a sample of the others
        like = [p for p in pairs if p[0] == p[1]]
        pairs = like + r.sample(pairs, 5000)
    for a, b in pairs:
        add(e_cmp(a, b), a=a, b=b)
    for a, b in nested(3 if ctx.quick else 4):
        add(e_cmp(a, b), a=a, b=b)
    for a, b in itertools.product(gen.NUMS_X, repeat=2):
        add(e_ord(a, b), a=repr(a), b=repr(b))
        add(e_cmp(a, b), a=repr(a), b=repr(b))
    strs = ['', 'a', 'b', 'aa', 'ab', 'A', 'é', 'e\u0301', '\uffff', '😀', '\U0010ffff', '\x00', '1', '10', '9', ' ', '~', 'ß', 'ss']
    for a, b in itertools.product(strs, repeat=2):
        add(e_ord(a, b), a=a, b=b)
        add(e_cmp(a, b), a=a, b=b)
    for _ in range(ctx.scale(500, 6000)):
        a, b = gen.text(r), gen.text(r)
        add(e_ord(a, b), a=a, b=b)
        f = r.choice([1.0, 1e10, 2.0 ** 53, 1e300, 1e-5, 1e17]) * r.random()
        i = int(f) + r.choice([-1, 0, 0, 1])
        add(e_ord(f, i), a=f, b=i)
        add(e_cmp(f, i), a=f, b=i)
    for _ in range(ctx.scale(2500, 30000)):
        a = gen.value(r, r.randint(0, 4), nums=gen.NUMS_X if r.random() < .2 else gen.NUMS)
        b = pl.near(r, a) if r.random() < .8 else gen.value(r, 2)
        extra = []
        if r.random() < .3:
            # nodes inside larger documents compare as the values they hold
            extra = [(JSON([0, a]).data[1], JSON({'k': b}).data['k']), (JSON({'k': {'l': a}}).data['k'].data['l'], b)]
        add(e_cmp(a, b, extra), a=repr(a), b=repr(b))
    for _ in range(ctx.scale(1000, 10000)):
        a = [gen.value(r, 1, 2) for _ in range(r.randint(0, 4))]
        if a and r.random() < .5:
            a.append(pl.near(r, r.choice(a)))
        x = pl.near(r, r.choice(a)) if a and r.random() < .8 else gen.value(r, 1)
        add(e_seek(a, x), a=repr(a), x=repr(x))
    for a in ([True, 1, 1.0, '1'], [0, False, None, '', [], {}], [[1], [1.0], [True]], [1.0, 1, True]):
        for x in [True, False, 0, 1, 1.0, 0.0, None, '', '1', [], {}, [1], [True], [1.0]]:
            add(e_seek(a, x), a=a, x=x)
    ctx.validate('JsonCheck', 'JsonCheck.cfg', gen.group(evs, info, 60))
