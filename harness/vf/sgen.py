"""Random schemas of the standard dialects, and instances that suit them."""
import re
import urllib.parse

PROPS = ['a', 'b', 'c', 'foo', 'x1', 'a/b', '~', 'é', '0', '', 'b%', 'b\na']
STRS = ['', 'a', 'b', 'ab', 'foo', 'bar', 'éa', '😀', 'x1', 'aab', '0', 'c c', 'b\na']
NUMBERS = [0, 1, 2, 3, -1, 1.0, 2.5, 0.1, 0.3, 4, 10, -2.0, 7, 1e2, 100, 12, 0.75, 1e308, 2**31, 0.01]
TYPES = ['null', 'boolean', 'number', 'integer', 'string', 'array', 'object']
MULTS = [1, 2, 3, 0.1, 0.01, 2.5, 0.5, 1.0, 10, 7, 1e2, 0.25]


# ---------------------------------------------------------------- regular expressions

def lit(c):
    return ['ch', [[ord(c), ord(c)]]], re.escape(c)


def rx_atom(r, depth):
    x = r.random()
    if x < .5:
        return lit(r.choice('abfox1é0c'))
    if x < .65:
        return ['ch', [[97, 99]]], '[a-c]'
    if x < .72:
        return ['ch', [[48, 57], [120, 122]]], '[0-9x-z]'
    if x < .79:
        return ['nc', [[97, 99]]], '[^a-c]'
    if x < .86:
        return ['nc', [[10, 10]]], '.'
    if depth:
        a, p = rx(r, depth - 1)
        return a, f'(?:{p})'
    return lit('a')


def rx(r, depth=2):
    branches = []
    for _ in range(1 if r.random() < .75 else 2):
        seq, pat = [], ''
        if r.random() < .3:
            seq.append(['bol'])
            pat += '^'
        for _ in range(r.randint(0 if r.random() < .1 else 1, 3)):
            a, p = rx_atom(r, depth)
            x = r.random()
            if x < .15:
                a, p = ['rep', a, 0, -1], p + '*'
            elif x < .25:
                a, p = ['rep', a, 1, -1], p + '+'
            elif x < .35:
                a, p = ['rep', a, 0, 1], p + '?'
            elif x < .42:
                lo = r.randint(0, 2)
                hi = lo + r.randint(0, 1)
                a, p = ['rep', a, lo, hi], p + '{%d,%d}' % (lo, hi)
            seq.append(a)
            pat += p
        if r.random() < .3:
            seq.append(['eol'])
            pat += '$'
        branches.append((['seq', seq], pat))
    if len(branches) == 1:
        return branches[0]
    return ['alt', [b[0] for b in branches]], '|'.join(b[1] for b in branches)


# ---------------------------------------------------------------- instances

def scalar(r):
    x = r.random()
    if x < .1:
        return None
    if x < .2:
        return r.random() < .5
    if x < .6:
        return r.choice(NUMBERS)
    return r.choice(STRS)


def instance(r, depth=3, kind=None):
    x = r.random() if kind is None else dict(array=.5, object=.8, scalar=0)[kind]
    if depth == 0 or x < .3:
        return scalar(r)
    if x < .6:
        n = r.choice([0, 1, 2, 2, 3, 4])
        if r.random() < .3 and n:
            v = instance(r, depth - 1)
            return [v] * n if r.random() < .5 else [v] * (n - 1) + [instance(r, depth - 1)]
        return [instance(r, depth - 1) for _ in range(n)]
    ks = r.sample(PROPS, r.choice([0, 1, 2, 2, 3, 4]))
    return {k: instance(r, depth - 1) for k in ks}


ARRAY_KW = {'items', 'prefixItems', 'additionalItems', 'contains', 'minContains', 'maxContains', 'unevaluatedItems', 'maxItems', 'minItems', 'uniqueItems'}
OBJECT_KW = {'properties', 'patternProperties', 'additionalProperties', 'propertyNames', 'unevaluatedProperties', 'required', 'dependentRequired', 'dependentSchemas', 'minProperties', 'maxProperties'}


def kinds(s, out=None):
    """What kinds of instance the keywords in place in s are about."""
    out = [] if out is None else out
    if isinstance(s, dict):
        for k, v in s.items():
            if k in ARRAY_KW:
                out.append('array')
            elif k in OBJECT_KW:
                out.append('object')
            elif k in ('allOf', 'anyOf', 'oneOf') and isinstance(v, list):
                for x in v:
                    kinds(x, out)
            elif k in ('not', 'if', 'then', 'else'):
                kinds(v, out)
    return out


def fit(r, s, root, depth=3, hops=6):
    """An instance that has a fair chance with s."""
    if not isinstance(s, dict) or r.random() < .12 or hops <= 0:
        return instance(r, depth)
    if 'const' in s and r.random() < .7:
        return s['const']
    if s.get('enum') and r.random() < .7:
        return r.choice(s['enum'])
    ref = s.get('$ref')
    if isinstance(ref, str) and ref.startswith('#/$defs/') and ref.count('/') == 2 and isinstance(root, dict) and r.random() < .6:
        return fit(r, root.get('$defs', {}).get(ref[8:]), root, depth, hops - 1)
    inner = [x for k in ('allOf', 'anyOf', 'oneOf') for x in (s.get(k) if isinstance(s.get(k), list) else [])] + [s[k] for k in ('if', 'then') if k in s]
    if inner and r.random() < .35:
        return fit(r, r.choice(inner), root, depth, hops - 1)
    ks = kinds(s)
    if not ks:
        t = s.get('type')
        t = r.choice(t) if isinstance(t, list) and t else t
        if t == 'object' or t == 'array':
            ks = [t]
        elif {'maxLength', 'minLength', 'pattern'} & set(s) or t == 'string':
            return r.choice(STRS)
        elif t in ('number', 'integer') or {'maximum', 'minimum', 'multipleOf', 'exclusiveMaximum', 'exclusiveMinimum'} & set(s):
            return r.choice(NUMBERS)
        else:
            return instance(r, depth)
    if depth == 0:
        return [] if r.choice(ks) == 'array' else {}
    if r.choice(ks) == 'array':
        n = r.choice([0, 1, 2, 3, 4])
        pre = s.get('prefixItems') if isinstance(s.get('prefixItems'), list) else s.get('items') if isinstance(s.get('items'), list) else []
        out = []
        for j in range(n):
            sub = pre[j] if j < len(pre) else s.get('items', s.get('additionalItems', s.get('contains')))
            if r.random() < .25:
                sub = r.choice([s.get('contains'), s.get('unevaluatedItems'), None])
            out.append(fit(r, sub, root, depth - 1, hops - 1))
        return out
    names = set(r.sample(PROPS, r.choice([0, 1, 1, 2, 3])))
    for k in ('properties', 'dependentSchemas', 'dependentRequired'):
        names |= {n for n in s.get(k, {}) if r.random() < .7}
    names |= {n for n in s.get('required', []) if r.random() < .8}
    out = {}
    for n in r.sample(sorted(names), len(names)):
        sub = s.get('properties', {}).get(n)
        if sub is None:
            sub = r.choice([s.get('additionalProperties'), s.get('unevaluatedProperties'), *s.get('patternProperties', {}).values(), None])
        out[n] = fit(r, sub, root, depth - 1, hops - 1)
    return out


# ---------------------------------------------------------------- schemas

VALIDATION = ['type', 'enum', 'const', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength', 'pattern',
              'maxItems', 'minItems', 'uniqueItems', 'maxProperties', 'minProperties', 'required', 'dependentRequired']
INPLACE = ['allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'dependentSchemas']
OBJECTS = ['properties', 'patternProperties', 'additionalProperties', 'propertyNames']
ARRAYS20 = ['prefixItems', 'items', 'contains', 'minContains', 'maxContains']
ARRAYS19 = ['items', 'additionalItems', 'contains', 'minContains', 'maxContains']
UNEVAL = ['unevaluatedItems', 'unevaluatedProperties']
ANNOTATE = ['title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples', 'contentMediaType', 'contentEncoding', 'contentSchema', 'format', 'x-unknown', 'foo', 'a/b', '$weird']
COUNT = [0, 1, 1, 2, 2, 3, 1.0, 4]


class Gen:
    """One schema document.  weights: keyword group -> weight."""

    def __init__(self, r, dial, weights, width=3, depth=3, refs=False, rx=None):
        self.r, self.dial, self.depth, self.width = r, dial, depth, width
        self.rx = {} if rx is None else rx
        self.old = dial == '2019-09'
        groups = dict(V=VALIDATION, P=INPLACE, O=OBJECTS, A=ARRAYS19 if self.old else ARRAYS20, U=UNEVAL, N=ANNOTATE, R=['$ref'])
        self.kws = [(k, w / len(groups[g])) for g, w in weights.items() for k in groups[g]]
        self.defs = []
        self.refs = refs

    def pattern(self):
        a, p = rx(self.r)
        re.compile(p)
        self.rx[p] = a
        return p

    def num(self):
        return self.r.choice(NUMBERS)

    def names(self, hi=3):
        return self.r.sample(PROPS, self.r.randint(0, hi))

    def boolean(self):
        return self.r.random() < .65

    def sub(self, depth, desc, level):
        return self.schema(depth - 1, desc, level)

    def schema(self, depth, desc=False, level=0):
        r = self.r
        if depth <= 0 and r.random() < .45:
            return self.boolean()
        if r.random() < .07:
            return self.boolean()
        n = r.choice([1, 1, 2, 2, 3, self.width])
        out = {}
        for _ in range(n):
            kw = r.choices([k for k, _ in self.kws], [w for _, w in self.kws])[0]
            if kw in out:
                continue
            if depth <= 0 and kw not in VALIDATION and kw not in ANNOTATE and kw != '$ref':
                kw = r.choice(VALIDATION)
            self.keyword(out, kw, depth, desc, level)
        if 'then' in out or 'else' in out:
            if 'if' not in out and r.random() < .9:
                out['if'] = self.sub(depth, desc, level)
        if 'if' in out and 'then' not in out and r.random() < .7:
            out[r.choice(['then', 'else'])] = self.sub(depth, desc, level)
        if ('minContains' in out or 'maxContains' in out) and 'contains' not in out and r.random() < .9:
            out['contains'] = self.sub(depth, True, level)
        if 'additionalItems' in out and r.random() < .8 and self.old:
            out['items'] = [self.sub(depth, True, level) for _ in range(r.randint(1, 3))]
        if 'contentSchema' in out and r.random() < .6:
            out['contentMediaType'] = 'application/json'
        ks = list(out)
        r.shuffle(ks)
        return {k: out[k] for k in ks}

    def keyword(self, out, kw, depth, desc, level):
        r = self.r
        S = lambda d=desc: self.sub(depth, d, level)
        if kw == 'type':
            out[kw] = r.choice(TYPES) if r.random() < .6 else r.sample(TYPES, r.randint(1, 3))
        elif kw == 'enum':
            out[kw] = [instance(r, 2) for _ in range(r.randint(1, 4))]
        elif kw == 'const':
            out[kw] = instance(r, 2)
        elif kw == 'multipleOf':
            out[kw] = r.choice(MULTS)
        elif kw in ('maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum'):
            out[kw] = self.num()
        elif kw in ('maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties', 'minContains', 'maxContains'):
            out[kw] = r.choice(COUNT)
        elif kw == 'pattern':
            out[kw] = self.pattern()
        elif kw == 'uniqueItems':
            out[kw] = r.random() < .8
        elif kw == 'required':
            out[kw] = self.names()
        elif kw == 'dependentRequired':
            out[kw] = {n: self.names(2) for n in self.names()}
        elif kw in ('allOf', 'anyOf', 'oneOf'):
            out[kw] = [S() for _ in range(r.randint(1, 3))]
        elif kw in ('not', 'if', 'then', 'else'):
            out[kw] = S()
        elif kw == 'dependentSchemas':
            out[kw] = {n: S() for n in self.names()}
        elif kw == 'properties':
            out[kw] = {n: S(True) for n in self.names(4)}
        elif kw == 'patternProperties':
            out[kw] = {self.pattern(): S(True) for _ in range(r.randint(1, 2))}
        elif kw == 'prefixItems':
            out[kw] = [S(True) for _ in range(r.randint(1, 3))]
        elif kw == 'items' and self.old and r.random() < .5:
            out[kw] = [S(True) for _ in range(r.randint(1, 3))]
        elif kw in ('items', 'additionalItems', 'contains', 'additionalProperties', 'propertyNames', 'unevaluatedItems', 'unevaluatedProperties'):
            if kw.startswith('unevaluated') and r.random() < .5:
                out[kw] = r.random() < .15
            else:
                out[kw] = S(True)
        elif kw in ('title', 'description', 'contentMediaType', 'contentEncoding'):
            out[kw] = r.choice(STRS)
        elif kw == 'format':
            out[kw] = r.choice(['email', 'foo', 'uri'])
        elif kw in ('deprecated', 'readOnly', 'writeOnly'):
            out[kw] = r.random() < .5
        elif kw == 'examples':
            out[kw] = [instance(r, 1) for _ in range(r.randint(0, 2))]
        elif kw == 'contentSchema':
            out[kw] = S()
        elif kw in ('default',) or kw in ANNOTATE:
            v = instance(r, 2)
            out[kw] = 'none' if v is None else v
        elif kw == '$ref':
            self.ref(out, desc, level)

    def ref(self, out, desc, level):
        pass

    def document(self):
        return self.schema(self.depth)


class Unit:
    """A definition (or document root) that references can aim at."""

    def __init__(self, path, level, parent):
        self.path, self.level, self.parent = path, level, parent
        self.id = self.base = self.anchor = self.dyn = None
        self.rec = False
        self.kids = []

    def root(self):
        return self if self.parent is None else self.parent.root()

    def doc(self):
        return self.root().level

    def resources(self):
        u = self
        while u is not None:
            if u.base is not None:
                yield u
            u = u.parent

    def uris(self):
        """Absolute URIs that mean this unit."""
        out = []
        near = True
        for res in self.resources():
            if res is self:
                out += [res.base, res.base, res.base + '#']
            frag = ''.join('/' + t.replace('~', '~0').replace('/', '~1') for t in self.path[len(res.path):])
            if frag:
                out.append(res.base + '#' + urllib.parse.quote(frag, safe="!$&'()*+,;=:@/?~"))
            if near:
                out += [res.base + '#' + a for a in (self.anchor, self.anchor, self.dyn) if a]
                near = False
        return out


NAMES = ['a', 'b', 'c/d', 'e~f', 'g%', 'é', 'h"i', 'k', 'l l', 'm', '1', '$', '', '0', '%41', '~0', 'x?y', '#']


class Net:
    """Several documents that refer to each other.  A reference made in place goes to a later unit only, so that no cycle of
    references stays at one instance location."""

    def __init__(self, r, dial, weights, ndocs=1, dynamic=False, load=False, nested=.4, rx=None, badness=0., relative=.6, **kw):
        self.r, self.dial, self.dynamic, self.bad, self.relative = r, dial, dynamic, badness, relative
        self.rx = {} if rx is None else rx
        self.units, self.load = [], load
        self.anchors = r.sample(['anc', 'A', 'b_1', 'c.d', 'e-f', '_x'], 3)
        self.dyns = r.sample(['node', 'N', 'meta.x'], 2)
        self.old = dial == '2019-09'
        self.weights, self.kw = weights, kw
        roots = []
        for n in range(ndocs):
            u = Unit([], len(self.units), None)
            u.base = r.choice([f'http://t.example/root/doc{n}', f'http://t.example/root/sub/doc{n}', f'http://other{n}.example/d', f'tag:example.org,2020:doc{n}', f'http://t.example/doc{n}/', f'http://t.example/q{n}?x=1'])
            u.id = u.base if r.random() < .6 else None
            u.given = u.id is None or r.random() < .3     # constructed with a URI
            u.rec = self.old and dynamic and r.random() < .6
            u.dyn = r.choice(self.dyns) if dynamic and not self.old and r.random() < .4 else None
            self.units.append(u)
            roots.append(u)
            names = r.sample(NAMES, r.randint(1, 4))
            for nm in names:
                self.plan(u, u.path + ['$defs', nm], n, r.random() < nested)
        self.roots = roots
        self.out = []
        for u in roots:
            self.now = u.doc()
            self.out.append(self.render(u))
        for u, d in zip(roots, self.out):
            self.fix(d, u.base if u.id is None else None)

    def uris(self, u):
        us = u.uris()
        if self.load and u.doc() != self.now:      # only the document itself can be loaded
            us = [x for x in us if x.partition('#')[0] == u.root().base]
        return us

    def plan(self, parent, path, n, nest):
        r = self.r
        u = Unit(path, len(self.units), parent)
        self.units.append(u)
        parent.kids.append(u)
        i = u.level
        res = next(parent.resources())
        if r.random() < (.6 if self.dynamic else .4):
            hier = res.base.startswith('http')
            u.id = r.choice(([f'emb{i}', f'sub/emb{i}', f'../up{i}', f'/abs{i}', f'emb{i}?q=1', f'?v={i}', f'./e{i}'] if hier else []) + [f'http://other.example/o{i}', f'urn:uuid:0000-{i}', f'urn:x:{i}'])
            u.base = join(res.base, u.id)
            res = u
            u.rec = self.old and self.dynamic and r.random() < .6
        used = {a for v in self.units if next(v.resources(), None) is res for a in (v.anchor, v.dyn) if a}
        if r.random() < .5:
            pool = self.dyns if self.dynamic and r.random() < .25 else self.anchors
            u.anchor = r.choice([a for a in pool if a not in used] or [None])
            used.add(u.anchor)
        if self.dynamic and not self.old and r.random() < .6:
            u.dyn = r.choice([a for a in self.dyns if a not in used] or [None])
        if nest:
            for nm in r.sample(NAMES, r.randint(1, 2)):
                self.plan(u, path + ['$defs', nm], n, r.random() < .25)

    def render(self, u):
        r = self.r
        g = NetGen(self, r, self.dial, self.weights, rx=self.rx, **self.kw)
        g.res = next(u.resources())
        s = g.schema(g.depth if not u.path else max(1, g.depth - 1), False, u.level)
        if not isinstance(s, dict):
            if u.id is None and not u.kids and not u.anchor and not u.dyn and u.path:
                return s
            s = {'allOf': [s]} if r.random() < .7 else {}
        out = {}
        if u.id is not None:
            out['$id'] = u.id + '#' if self.dial != 'next' and r.random() < .06 else u.id      # means the same
        if u.anchor:
            out['$anchor'] = u.anchor
        if u.dyn:
            out['$dynamicAnchor'] = u.dyn
        if u.rec:
            out['$recursiveAnchor'] = True
        elif self.old and self.dynamic and u.base is not None and r.random() < .3:
            out['$recursiveAnchor'] = False
        out.update(s)
        if u.kids:
            out['$defs'] = {k.path[-1]: self.render(k) for k in u.kids}
        ks = list(out)
        if r.random() < .5:
            r.shuffle(ks)
        return {k: out[k] for k in ks}

    def spell(self, full, base):
        """A reference that means full where the base URI is base."""
        r = self.r
        if r.random() > self.relative:
            return full
        b, hash_, f = full.partition('#')
        frag = hash_ + f
        opts = []
        if b == base and frag:
            opts += [frag] * 3
        if b == base and not frag:
            opts += ['#']
        if b.startswith('http') and base.startswith('http'):
            auth, path = b.split('/', 3)[2:] if b.count('/') > 2 else (b.split('/')[2], '')
            opts += ['//' + auth + '/' + path, '/' + path, path.rsplit('/', 1)[-1], './' + path.rsplit('/', 1)[-1], '../' + path, '../' + path.rsplit('/', 1)[-1], path]
            opts = [o if o.startswith('#') else o + frag for o in opts]
        opts = [o for o in opts if o and ':' not in o.split('/')[0].split('#')[0] and join(base, o) in (full, full + '#')]
        return r.choice(opts) if opts else full

    def fix(self, s, base):
        if isinstance(s, list):
            for x in s:
                self.fix(x, base)
        elif isinstance(s, dict):
            sid = s.get('$id')
            if isinstance(sid, str):
                base = join(base, sid).rstrip('#')
            for k, v in list(s.items()):
                if isinstance(v, tuple):
                    s[k] = self.spell(v[1], base)
                else:
                    self.fix(v, base)


def join(base, ref):
    if base is None or ':' in ref.split('/')[0].split('#')[0].split('?')[0]:
        return ref
    b = base.partition('#')[0]
    if ref == '':
        return b
    if ref.startswith('#'):
        return b + ref
    if not b.startswith('http'):
        return ref
    return urllib.parse.urljoin(b, ref)


class NetGen(Gen):
    def __init__(self, net, *a, **kw):
        super().__init__(*a, **kw)
        self.net = net

    def ref(self, out, desc, level):
        r, net = self.r, self.net
        if net.dynamic and desc and r.random() < .55:
            if self.old:
                out['$recursiveRef'] = '#'
                return
            c = [u for u in net.units if u.dyn and (net.load or u.doc() >= net.now)]
            if c:
                u = r.choice(c)
                x = r.random()
                us = net.uris(u)
                full = r.choice([x for x in us if x.endswith('#' + u.dyn)] or us) if x < .75 else r.choice(us)
                out['$dynamicRef'] = ('ref', full)
                return
        c = [u for u in net.units if desc or u.level > level]
        if not net.load and r.random() < .97:     # a document that is not there yet cannot be referred to
            c = [u for u in c if u.doc() >= net.now]
        if net.dynamic and self.old:        # resources with a recursive anchor are entered at their root only
            c = [u for u in c if u.base is not None or not next(u.resources()).rec or next(u.resources()) is self.res]
        if net.bad and r.random() < net.bad:
            u = r.choice(net.units)
            b = next(u.resources()).base
            out['$ref'] = r.choice([b + '#/$defs/nowhere', b + '#nowhere', b + 'x', b + '#/$defs', b + '#/allOf/9', b + '#/properties', b + '#/$defs/a/title', b + '#/$defs/%ZZ', b + '#/$defs/~2'])
            return
        if c:
            out['$ref'] = ('ref', r.choice(net.uris(r.choice(c))))
