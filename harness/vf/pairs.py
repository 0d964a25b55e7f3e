"""Small schemas that put a few keywords together: side by side in either order, one inside the other, or in separate subschemas
applied at the same instance location.  Their interactions are what the random schemas of sgen reach only now and then."""
from . import evalrun, sgen

OBJS = [{}, {'a': 1}, {'b': 1}, {'c': 1}, {'a': 'x'}, {'a': 1, 'b': 2}, {'b': 'y', 'c': 2}, {'a': 1, 'c': 'z'}, {'a': 1, 'b': 'y', 'c': 1}, {'a': {'a': 1, 'c': 1}}, {'d': 1, 'a': 1},
        {'bb': 'x'}, {'a': [1, 'x'], 'b': 3}, {'b': {'c': 1}, 'a': None}, {'a': 5, 'b': 5, 'c': 5, 'd': 5}, {'c': {'a': 1}, 'bb': 2}]
ARRS = [[], [1], ['x'], [1, 2], [1, 'x'], ['x', 1], ['x', 'x'], [1, 'x', 1], [1, 'x', 3], ['x', 2, 'y'], [1, 2, 'x'], ['x', 'y', 1, 2], [[1, 2], 1], [1, 'x', 2, 'y'], [3, 1, 'x', 3], [{'a': 1}, 'x', {'a': 1}],
        [[1], 2, 'x', [1]], [None, True, 1, 'x'], [5, 'x', 'y', 5, 'z'], [{'a': 1, 'b': 2}, 1, 2, {'b': 2, 'a': 1}], [3, 'foo', 3.0]]
STRS = ['', 'a', 'x', 'ab', 'éa', '😀', 'foo', 'bb']
NUMS = [0, 1, 2, 3, 4, 1.0, 2.5, -1, 5, 10]
REST = [None, True, False]
POOL = dict(obj=OBJS, arr=ARRS, str=STRS, num=NUMS)

RXS = {'^b': ['seq', [['bol'], ['ch', [[98, 98]]]]], 'a': ['ch', [[97, 97]]]}

S = {'type': 'string'}
I = {'type': 'integer'}
SUBS = [True, False, S, I, {}, {'minimum': 2}, {'const': 1}, {'title': 't'}, {'$ref': '#/$defs/f'}, {'$ref': '#/$defs/i'}, {'not': S}, {'title': 't', 'type': 'integer'}, {'maxLength': 1}, {'required': ['a']}, {'minItems': 1}]


def obj(r, sub, here):
    yield 'properties', {n: sub() for n in r.sample('abcd', r.randint(0, 3))}
    yield 'patternProperties', {p: sub() for p in r.sample(sorted(RXS), r.randint(1, 2))}
    yield 'additionalProperties', sub()
    yield 'propertyNames', r.choice([sub(), {'maxLength': 1}, {'enum': ['a', 'b', 'bb']}, {'pattern': 'a'}])
    yield 'unevaluatedProperties', r.choice([False, False, True, sub()])
    yield 'required', r.sample('abc', r.randint(0, 2))
    yield 'dependentRequired', {n: r.sample('abc', r.randint(0, 2)) for n in r.sample('abc', r.randint(1, 2))}
    yield 'dependentSchemas', {n: here() for n in r.sample('abc', r.randint(1, 2))}
    yield r.choice(['minProperties', 'maxProperties']), r.choice([0, 1, 2, 3])


def arr(r, sub, old):
    if old:
        yield 'items', r.choice([sub(), [sub() for _ in range(r.randint(1, 3))]])
        yield 'items', [sub() for _ in range(r.randint(1, 2))]
        yield 'additionalItems', sub()
    else:
        yield 'prefixItems', [sub() for _ in range(r.randint(1, 3))]
        yield 'items', sub()
    yield 'contains', r.choice([sub(), S, I])
    yield 'minContains', r.choice([0, 0, 1, 2])
    yield 'maxContains', r.choice([0, 1, 2, 3])
    yield 'unevaluatedItems', r.choice([False, False, True, sub()])
    yield 'uniqueItems', r.choice([True, True, False])
    yield r.choice(['minItems', 'maxItems']), r.choice([0, 1, 2, 3])


def text(r, sub, here):
    yield r.choice(['minLength', 'maxLength']), r.choice([0, 1, 2])
    yield 'pattern', r.choice(sorted(RXS))
    yield 'contentMediaType', r.choice(['application/json', 'x'])
    yield 'contentEncoding', 'base64'
    yield 'contentSchema', sub()
    yield 'format', r.choice(['email', 'foo'])
    yield 'type', 'string'


def num(r, sub, here):
    yield r.choice(['minimum', 'exclusiveMinimum']), r.choice([0, 1, 2, 2.5])
    yield r.choice(['maximum', 'exclusiveMaximum']), r.choice([1, 2, 3, 2.5])
    yield 'multipleOf', r.choice([1, 2, 0.5])
    yield 'type', r.choice(['integer', 'number'])


def anything(r, sub, old, deep):
    yield 'type', r.choice(['object', 'array', 'string', 'integer', ['object', 'array'], ['null', 'string']])
    yield 'enum', r.sample([1, 'x', None, [], {}, {'a': 1}, [1], 1.0, True], 3)
    yield 'const', r.choice([1, 'x', {'a': 1}, [1], [], None])
    yield 'not', sub()
    yield r.choice(['allOf', 'anyOf', 'oneOf']), [sub() for _ in range(r.randint(1, 3))]
    yield r.choice(['if', 'then', 'else']), sub()
    yield r.choice([('title', 't'), ('title', ''), ('description', 'd'), ('$comment', 'c'), ('default', r.choice([[], 0, False, '', {}, 2 ** 53 + 1, 'd'])), ('examples', r.choice([[], [1]])), ('readOnly', False), ('deprecated', True),
                    ('x-unknown', r.choice(['t', [], 0, False, {'type': 'string'}])), ('unknown', {'a': 1})])
    yield '$ref', r.choice(['#/$defs/f', '#/$defs/t', '#/$defs/i', '#/$defs/d', '#/$defs/d', '#anc', 'res', 'res#in', 'main#anc', '#/$defs/r/$defs/in', '#dyn'] if not old else ['#/$defs/f', '#/$defs/t', '#/$defs/i', '#/$defs/d', '#anc', 'res', 'res#in'])
    if not old:
        yield '$dynamicRef', r.choice(['#dyn', '#dyn', 'res#dyn', '#anc', '#/$defs/d', '#/$defs/f'])
    elif deep:
        yield '$recursiveRef', '#'


CLASS = dict(obj=obj, str=text, num=num)


class Maker:
    def __init__(self, r, dial, refs=True):
        self.r, self.dial, self.old, self.refs = r, dial, dial == '2019-09', refs

    def leaf(self):
        s = self.r.choice(SUBS)
        if not self.refs and isinstance(s, dict) and '$ref' in s:
            return I
        return s

    def keyword(self, kind, depth, deep):
        """One keyword with a value."""
        r = self.r
        sub = lambda: self.schema(kind2(r), depth - 1, True) if depth > 0 and r.random() < .25 else self.leaf()
        here = lambda: self.schema(kind, depth - 1, deep) if depth > 0 and r.random() < .4 else self.leaf()
        if r.random() < .3:
            c = [x for x in anything(r, here, self.old, deep) if self.refs or '$' not in x[0]]
        elif kind == 'arr':
            c = list(arr(r, sub, self.old))
        else:
            c = list(CLASS[kind](r, sub, here))
        return r.choice(c)

    def schema(self, kind, depth, deep=False, n=None, must=None):
        """An object schema about one kind of instance.  must: keywords of which one has to be there."""
        r = self.r
        out = {}
        n = n or r.choice([1, 2, 2, 3])
        tries = 0
        while (len(out) < n or must and not must & set(out)) and tries < 60:
            tries += 1
            k, v = self.keyword(kind, depth, deep)
            if must and len(out) >= n - 1 and not must & (set(out) | {k}):
                continue
            if k in out:
                if r.random() < .5:
                    continue
                # a second one of the same keyword goes into a subschema of its own
                k2, w = r.choice([('allOf', [{k: v}, True]), ('anyOf', [{k: v}, {'type': 'null'}]), ('allOf', [True, {k: v}])])
                if k2 in out:
                    if isinstance(out[k2], list) and k != k2:
                        out[k2] = out[k2] + [{k: v}]
                    continue
                k, v = k2, w
            elif k not in ('$ref', '$dynamicRef', 'minContains', 'maxContains') and depth > 0 and r.random() < .18:
                k2, w = r.choice([('allOf', [{k: v}]), ('anyOf', [{k: v}, self.leaf()]), ('oneOf', [{k: v}, False]), ('not', {'not': {k: v}}), ('if', {k: v}), ('then', {k: v}), ('allOf', [{k: v}, {k: v}])])
                if k2 not in out:
                    k, v = k2, w
            out[k] = v
        if 'then' in out or 'else' in out:
            out.setdefault('if', self.leaf())
        if ('minContains' in out or 'maxContains' in out) and r.random() < .9:
            out.setdefault('contains', r.choice([S, I, self.leaf()]))
        ks = list(out)
        r.shuffle(ks)
        return {k: out[k] for k in ks}

    def document(self, kind, depth=1, n=None, must=None):
        r = self.r
        doc = self.schema(kind, depth, False, n, must)
        if not self.refs:
            return doc
        flat = Maker(r, self.dial, False)
        d = flat.schema(kind, 0)
        defs = {'f': False, 't': True, 'i': I, 'd': d, 'anc': {'$anchor': 'anc', **flat.schema(kind, 0)},
                'r': {'$id': 'res', **flat.schema(kind, 0), '$defs': {'in': {'$anchor': 'in', **r.choice([I, S, d])}}}}
        if not self.old:
            defs['n'] = {'$dynamicAnchor': 'dyn', **flat.schema(kind, 0)}
            defs['r']['$defs']['n'] = {'$dynamicAnchor': 'dyn', **flat.schema(kind, 0)}
        elif r.random() < .5 and not any(k in str(doc) for k in ('$ref', )):
            doc['$recursiveAnchor'] = True
        doc['$defs'] = defs
        return doc


def kind2(r):
    return r.choice(['obj', 'arr', 'str', 'num'])


def instances(r, kind, n):
    out = r.sample(POOL[kind], min(n, len(POOL[kind])))
    out[-1] = r.choice(REST + NUMS + STRS + ARRS[:4] + OBJS[:4])
    return out


UNEVAL = {'unevaluatedItems', 'unevaluatedProperties'}
ARR = {'prefixItems', 'items', 'additionalItems', 'contains', 'minContains', 'maxContains', 'unevaluatedItems', 'uniqueItems'}
REFS = {'$ref', '$dynamicRef', '$recursiveRef'}


def histories(r, dials, count, judge, kinds=('obj', 'arr'), must=None, ann=False, n_inst=5, refs=True, depths=(0, 1, 1, 2), uri=None):
    out = []
    for _ in range(count):
        dial, kind = r.choice(dials), r.choice(kinds)
        m = Maker(r, dial, refs)
        mu = must
        if must:
            mu = {k for k in must if not (k.endswith('Items') and kind == 'obj' or k.endswith('Properties') and kind == 'arr')}
            if dial == '2019-09':
                mu = mu - {'prefixItems', '$dynamicRef'}
            else:
                mu = mu - {'additionalItems', '$recursiveRef'}
        doc = m.document(kind, r.choice(depths), r.choice([2, 2, 3, 3, 4]), mu)
        h = evalrun.History([(doc, dial, uri or evalrun.BASE)], judge, rx=RXS)
        try:
            if h.build():
                for v in instances(r, kind, n_inst):
                    h.evaluate(v, ann=ann)
        finally:
            h.close()
        out.append(h.history())
    return out
