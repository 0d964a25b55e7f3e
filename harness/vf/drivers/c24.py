"""C24: vocabularies, metaschemas and dialects.  Histories over several catalogs: vocabularies of standard and custom keywords,
metaschemas that declare or default to them, schemas that name metaschemas; the specification decides what is accepted and what
every keyword means."""
import inspect
import json
import random

from jschon import JSON, JSONSchema, URI
from jschon.jsonschema import JSONSchema as _S
from jschon.vocabulary import ArrayOfSubschemas, Keyword, Metaschema, ObjectOfSubschemas, Subschema
from jschon.vocabulary import annotation, applicator, core, format as format_, legacy, validation

from .. import evalrun, sgen
from ..core import attempt, codes
from ..schemalib import META, at, catalog, dump, enc, finder, table, tokens

ASSUMPTIONS = ['no two vocabularies of a metaschema define the same keyword', 'metaschemas do not name each other in a cycle',
               'a default core vocabulary together with a $vocabulary without a unique core is not judged',
               'unevaluated keywords are used only where the applicators are']

STD = {k.key: k for m in (annotation, applicator, core, format_, validation) for _, k in inspect.getmembers(m, inspect.isclass)
       if issubclass(k, Keyword) and isinstance(getattr(k, 'key', None), str) and k.__module__ == m.__name__}
DRAFT = 'https://json-schema.org/draft/'
ROLES = dict(applicator=['2019-09', '2020-12', 'next'], validation=['2019-09', '2020-12', 'next'])
VALIDATION = sgen.VALIDATION
PARTS = {'core': ['$schema', '$vocabulary', '$id', '$ref', '$anchor', '$defs', '$comment', '$dynamicRef', '$dynamicAnchor'],
         'voc': ['type', 'enum', 'const', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength', 'maxItems', 'minItems',
                 'uniqueItems', 'maxProperties', 'minProperties', 'required', 'dependentRequired'],
         'app': ['allOf', 'anyOf', 'oneOf', 'not', 'properties', 'propertyNames', 'dependentSchemas']}


BASES = {}


def custom(key, kind, tag):
    """A keyword that tells which vocabulary it is from; its class may be derived from that of another keyword."""
    cls = _custom(key, kind, tag, BASES.get(kind))
    n = getattr(cls, 'derived', 0)
    BASES[kind] = None if n > 3 else cls
    cls.derived = n + 1
    return cls


def _custom(key, kind, tag, base):
    def say(self, instance, result):
        result.annotate([tag])

    def eq(self, instance, result):
        result.annotate([tag])
        if JSON(instance.value) == self.json:
            result.fail('equal')

    def sub(self, instance, result):
        if self.json.evaluate(instance, result).passed:
            result.annotate([tag])
        else:
            result.fail('sub')

    def all_(self, instance, result):
        bad = False
        for n, s in enumerate(self.json):
            with result(instance, str(n)) as sr:
                if not s.evaluate(instance, sr).passed:
                    bad = True
        if bad:
            result.fail('some')
        else:
            result.annotate([tag])
    def map_(self, instance, result):
        bad = False
        for n, s in self.json.items():
            with result(instance, n) as sr:
                bad |= not s.evaluate(instance, sr).passed
        if bad:
            result.fail('some')
        else:
            result.annotate([tag])

    def see(self, instance, result):
        other = result.sibling(instance, 'x-a')
        result.annotate([tag, '-' if other is None else 'y' if other.valid else 'n'])
    d = dict(key=key)
    bases = (base,) if base else None
    if kind == 'map':
        return type('K', bases or (Keyword, ObjectOfSubschemas), dict(d, evaluate=map_))
    if kind == 'see':
        return type('K', bases or (Keyword,), dict(d, evaluate=see, depends_on=('x-z', 'x-a')))
    if kind == 'static':
        return type('K', bases or (Keyword,), dict(d, static=True))
    if kind == 'num':
        return type('K', bases or (Keyword,), dict(d, instance_types=('number',), evaluate=say))
    if kind == 'sub':
        return type('K', bases or (Keyword, Subschema), dict(d, evaluate=sub))
    if kind == 'all':
        return type('K', bases or (Keyword, ArrayOfSubschemas), dict(d, evaluate=all_))
    return type('K', bases or (Keyword,), dict(d, evaluate=eq))


KINDS = {'x-a': 'eq', 'x-b': 'eq', 'minimum': 'eq', 'title': 'eq', 'x-n': 'num', 'x-s': 'sub', 'x-all': 'all', 'x-st': 'static', 'x-near': 'eq', 'description': 'eq', 'not': 'sub',
         'x-map': 'map', 'x-see': 'see', 'x-see2': 'see'}
CATS = None
COUNT = 0


def bad_uri(r, u):
    """A reference that may lead to URI u, but is not an absolute, normalised URI."""
    return r.choice([u.replace('http', 'HTTP', 1), u.replace('.example', '.Example').replace('schema.org', 'Schema.org'), u + '/../' + u.rsplit('/', 1)[1],
                     u.replace('/schema', '/%73chema').replace('/m/', '/%6d/'), u.split(':', 1)[1], u.rsplit('/', 1)[1], u.replace('/schema', '/./schema').replace('/m/', '/./m/')])


def cats():
    global CATS
    CATS = [catalog('vfv1'), catalog('vfv2', '2020-12'), catalog('vfv3', '2020-12')]
    for c in CATS:
        c.add_uri_source(None, evalrun.SOURCE)


class Gen24(sgen.Gen):
    """Documents that also use custom keywords, known or not."""
    keys = ()

    def schema(self, depth, desc=False, level=0):
        s = super().schema(depth, desc, level)
        r = self.r
        if isinstance(s, dict):
            for k in list(s):
                if s[k] is None:
                    s[k] = 'none'
            for k in self.keys:
                if r.random() < .25:
                    s[k] = self.value(k, depth)
            group = [k for k in ('x-see', 'x-b', 'x-a', 'x-see2') if k in self.keys]
            if 'x-see' in group and len(group) > 2 and r.random() < .4:   # a keyword before what it depends on
                if r.random() < .4:
                    r.shuffle(group)
                for k in group:
                    s.pop(k, None)
                    s[k] = self.value(k, depth)
            for k in self.forced:
                if k in s:
                    s[k] = self.value(k, depth)
        return s

    forced = ()

    def value(self, k, depth=1):
        r = self.r
        kind = KINDS[k]

        def below():
            return self.schema(depth - 1) if depth > 0 or r.random() < .3 else r.choice([True, {}, False])
        if kind == 'sub':
            return below()
        if kind == 'map':
            return {k: below() for k in r.sample(['a', 'b', '0', 'x/y'], r.randint(0, 2))}
        if kind == 'all':
            return [below() for _ in range(r.randint(0, 2))]
        if k == 'minimum':      # standard names keep to values that suit the standard keyword
            return r.choice([0, 1, 2.5, -1])
        if k in ('title', 'description'):
            return r.choice(['', 'a', 'foo'])
        return r.choice([0, 1, 'a', True, 2.5, [], {'a': 1}])


class Case:
    def __init__(self, r):
        global COUNT
        COUNT += 1
        self.r, self.n = r, COUNT
        self.drafts = [['2019-09', '2020-12', 'next'], ['2020-12'], ['2020-12']]
        self.host = f'http://v{COUNT}.example/'
        self.ev, self.info, self.metas, self.values = [], [], {}, []
        self.vobj, self.mobj = [], []
        self.rx = {}
        self.registered = [{}, {}, {}]
        self.strs = {'https://json-schema.org/draft/', '/vocab/core'}
        # planned vocabularies, the same names for every catalog
        self.vocs = [self.host + 'voc/' + x for x in 'abcd'] + [f'urn:voc:{COUNT}']
        self.cores = [f'{DRAFT}v{COUNT}/vocab/core']
        # nearly core vocabularies; those that are registered define a custom keyword
        self.nearly = [f'{DRAFT}v{COUNT}/vocab/cores', f'{DRAFT}v{COUNT}/vocab/core/x', f'{DRAFT}a/v{COUNT}/vocab/core', f'x{DRAFT}v{COUNT}/vocab/core']
        self.made = [set(), set(), set()]
        evalrun.SOURCE.docs = {}

    def oid(self, objs, o):
        for k, x in enumerate(objs):
            if x is o:
                return k
        objs.append(o)
        return len(objs) - 1

    def log(self, ev, **info):
        self.ev.append(ev)
        self.info.append({k: v for k, v in info.items()})

    # -------------------------------------------------------------- operations
    def vocab(self, c, uri, kws=(), cus=()):
        classes = [STD[k] for k in kws] + [custom(*x) for x in cus]
        box = []
        out = attempt(lambda: box.append(CATS[c].create_vocabulary(URI(uri), *classes)))
        if box:
            self.vobj.append(box[0])
        self.registered[c][uri] = (list(kws), [list(x) for x in cus])
        self.log(dict(op='vocab', c=c + 1, uri=uri, kws=list(kws), cus=[list(x) for x in cus], id=len(self.vobj) - 1, out=[out[0], 0] if box else out),
                 vocabulary=uri, catalog=c, kws=list(kws), custom=list(cus))

    def getvoc(self, c, uri):
        def f():
            v = CATS[c].get_vocabulary(URI(uri))
            for k, x in enumerate(self.vobj):
                if x is v:
                    return k
            return -1
        self.log(dict(op='getvoc', c=c + 1, uri=uri, out=attempt(f)), get_vocabulary=uri, catalog=c)

    def known(self, c, uri):
        return uri in self.registered[c] or any(uri.startswith(DRAFT + d + '/') for d in self.drafts[c])

    def meta(self, c, uri, core_=None, defs=(), muri=None):
        def f():
            kw = {} if muri is None else dict(metaschema_uri=URI(muri))
            m = CATS[c].create_metaschema(URI(uri), None if core_ is None else URI(core_), *map(URI, defs), **kw)
            return self.oid(self.mobj, m) if isinstance(m, Metaschema) else -2
        out = attempt(f)
        if out[0] == 'ok':
            self.made[c].add(uri)
        self.log(dict(op='meta', c=c + 1, uri=uri, core=[] if core_ is None else [core_], defs=list(defs), muri=[] if muri is None else [muri], out=out),
                 create_metaschema=uri, catalog=c, core=core_, defaults=list(defs), metaschema_uri=muri, doc=self.metas.get(uri))

    def getmeta(self, c, uri):
        def f():
            m = CATS[c].get_metaschema(URI(uri))
            return self.oid(self.mobj, m) if isinstance(m, Metaschema) else -2
        out = attempt(f)
        if out[0] == 'ok':
            self.made[c].add(uri)
        self.log(dict(op='getmeta', c=c + 1, uri=uri, out=out), get_metaschema=uri, catalog=c, doc=self.metas.get(uri))

    # -------------------------------------------------------------- plans
    def some_cus(self, tag, keys):
        return [(k, KINDS[k], tag) for k in keys]

    def define(self, c, uri):
        """Define a planned vocabulary in catalog c; the keys depend on the name, the tag on both."""
        r = self.r
        x = self.vocs.index(uri) if uri in self.vocs else -1
        if uri in self.nearly:
            self.vocab(c, uri, [], self.some_cus(f'{uri} {c}', ['x-near']))
        elif x < 0:
            self.vocab(c, uri, PARTS['core'][:6] + r.sample(PARTS['core'][6:], r.randint(0, 3)), [])
        else:
            keys = self.keys_of[x]
            self.vocab(c, uri, self.kws_of[x], self.some_cus(f'{uri} {c} {len(self.ev)}', keys))

    def plan(self):
        r = self.r
        pool = [k for k in KINDS if k != 'x-near']
        r.shuffle(pool)
        # vocabulary 0, 1, 4: custom keywords; 2: some validation keywords; 3: some applicators
        self.keys_of = [pool[:4], pool[4:7], [], [], pool[7:9]]
        if r.random() < .4 and 'x-a' not in pool[:4]:     # what depends on each other in one vocabulary
            i = pool.index('x-a')
            pool[0], pool[i] = pool[i], pool[0]
            pool.remove('x-see')
            pool.insert(1, 'x-see')
            if r.random() < .6:     # the class of x-a is derived from that of x-b
                BASES.clear()
                pool = [k for k in pool if k not in ('x-a', 'x-b', 'x-see')]
                pool[:0] = ['x-b', 'x-a', 'x-see']
            self.keys_of = [pool[:4], pool[4:7], [], [], pool[7:9]]
        cust = {k for ks in self.keys_of for k in ks}
        self.kws_of = [[], [], [k for k in r.sample(PARTS['voc'], r.randint(1, 6)) if k not in cust], [k for k in r.sample(PARTS['app'], r.randint(1, 4)) if k not in cust], []]
        self.pool = pool + ['x-near']

    def vocabulary(self, c):
        """A $vocabulary object for a metaschema to be used in catalog c."""
        r = self.r
        dr = self.drafts[c]
        v = {}
        x = r.random()
        cores = [DRAFT + d + '/vocab/core' for d in dr] + self.cores
        cu = r.choice(cores)
        v[cu] = True
        if x < .04:
            v[cu] = r.choice([False, None])
        elif x < .08:
            v[r.choice([u for u in cores + [DRAFT + 'nope/vocab/core'] if u != cu])] = r.random() < .5
        elif x < .11:
            del v[cu]
        elif x < .15:
            del v[cu]
            v[r.choice(self.nearly * 2 + [DRAFT + '2019-09/vocab/core', DRAFT + 'nope/vocab/core', DRAFT + 'a/b/vocab/core', DRAFT + 'vocab/core', 'http' + DRAFT[5:] + '2020-12/vocab/core', DRAFT + '2020-12/vocab/core/', cu + 's'])] = True
        elif x < .2:
            v[r.choice(self.nearly)] = r.random() < .6
        used = set()
        for name, p in (('applicator', .6), ('validation', .6), ('meta-data', .4), ('content', .2), ('fmt', .3), ('unevaluated', .35)):
            if r.random() > p:
                continue
            d = r.choice(dr if r.random() < .93 else ['2019-09', '2020-12', 'next'])
            if name == 'fmt':
                name = 'format' if d == '2019-09' else 'format-annotation'
            if name == 'unevaluated' and (d == '2019-09' or 'applicator' not in used or used & {'old'}):
                continue
            if name == 'applicator' and d == '2019-09':
                used.add('old')
            used.add(name)
            u = DRAFT + d + '/vocab/' + name
            v[u] = r.random() < (.8 if self.known(c, u) else .3)
        std = set()
        for name, ks in (('applicator', PARTS['app']), ('validation', PARTS['voc']), ('meta-data', ['title', 'description'])):
            if name in used:
                std |= set(ks)
        taken = set()
        for x, u in enumerate(self.vocs):
            ks = set(self.keys_of[x]) | set(self.kws_of[x])
            if r.random() < .55 and not ks & std and not ks & taken:
                taken |= ks
                v[u] = r.random() < (.8 if u in self.registered[c] else .25)
        if r.random() < .1:
            v[self.host + 'unknown'] = r.random() < .3
        if r.random() < .04:
            v[r.choice(['HTTP://x.example/', 'relative/x', 'http://x.example/a/../b', 'http://x.example/%7e'])] = r.random() < .4
        ks = list(v)
        r.shuffle(ks)
        return {k: v[k] for k in ks}

    def meta_doc(self, c, uri):
        r = self.r
        doc, ok, defaults = {}, True, None
        x = r.random()
        mu = META[r.choice(self.drafts[c])]
        if x < .3:
            mu = uri
        elif x < .45 and [u for u in self.metas if u != uri]:
            mu = r.choice([u for u in self.metas if u != uri])
        elif x < .48:
            mu = None
        elif x < .5:
            mu = self.host + 'nowhere'
        if mu is not None:
            doc['$schema'] = mu if r.random() < .96 else bad_uri(r, mu)
        x = r.random()
        if x < .3:
            doc['$id'] = uri
        elif x < .5:
            doc['$id'] = uri + '-own'
        if r.random() < .8:
            doc['$vocabulary'] = self.vocabulary(c)
        a = next((k for k in self.pool if k.startswith('x-') and KINDS[k] == 'eq'), None)
        for _ in range(r.choice([0, 1, 1, 2])):
            doc.update(r.choice([{'type': ['object', 'boolean']}, {'required': ['title']}, {'properties': {'minimum': {'type': 'string'}}}, {'not': {'required': ['x-a']}},
                                 {'minProperties': 2}, {'$defs': {'a': {'$id': uri + '/emb'}}}, {'propertyNames': {'maxLength': 12}}, {'anyOf': [{'type': 'boolean'}, {'required': ['$schema']}]},
                                 {a: 1} if a else {}, {'properties': {'type': False}}, {'x-s': {'required': ['$schema']}}, {'x-all': [{'minProperties': 1}, {'type': 'object'}]}, {'x-map': {'a': {'minProperties': 1}, 'b': True}}, {'x-see': 1}, {'title': 'm'}]))
        if mu in META.values() and r.random() < .2:
            doc.update(r.choice([{'minLength': -1}, {'description': 5}, {'type': 'foo'}, {'maximum': 'x'}]))
            ok = False
        self.metas[uri] = dict(val=doc, ok=ok)
        evalrun.SOURCE.docs[uri] = doc

    def family(self, c, uri):
        """What can be used in documents of this metaschema: (old, unevaluated)."""
        v = self.metas[uri]['val'].get('$vocabulary') if uri in self.metas else None
        if v is None:
            old = DRAFT + '2019-09/vocab/applicator' in self.defaults.get(uri, ()) or uri == META['2019-09']
            app = uri in META.values() or any(d.endswith('/applicator') for d in self.defaults.get(uri, ()))
        else:
            old = self.known(c, DRAFT + '2019-09/vocab/applicator') and DRAFT + '2019-09/vocab/applicator' in v
            app = any(u.endswith('/vocab/applicator') and self.known(c, u) for u in v)
        return old, app

    def document(self, c):
        r = self.r
        mus = [u for u in self.metas if u in self.made[c]] * 3 + list(self.metas) + [META[r.choice(self.drafts[c])]]
        if r.random() < .03:
            mus.append(self.host + 'nowhere')
        root = r.choice(mus)
        nested = []
        names = [root]
        if r.random() < .45:
            for _ in range(r.choice([1, 1, 2])):
                nested.append(r.choice(mus))
        fams = {u: self.family(c, u) if u in self.metas or u in META.values() else (False, False) for u in [root] + nested}
        uneval = all(a for _, a in fams.values()) and len({o for o, _ in fams.values()}) == 1

        def gen(u, depth=2):
            g = Gen24(r, '2019-09' if fams[u][0] else '2020-12', dict(V=4, P=2, O=2, A=1.5, U=1 if uneval else 0, N=1), depth=depth, rx=self.rx)
            g.keys = self.pool if r.random() < .6 else []
            g.forced = set(KINDS)
            s = g.schema(depth)
            while not isinstance(s, dict):
                s = g.schema(depth)
            return s
        doc = gen(root)
        if nested:
            defs = {}
            ref = r.choice(list(range(len(nested))))
            for k, u in enumerate(nested):
                s = dict(gen(u, 1), **{'$schema': u})
                if r.random() < .6:
                    s['$id'] = f'sub{k}'
                defs[f'd{k}'] = s
                names.append(u)
                if k == 0 and r.random() < .4:     # one below another, without or with its own $schema
                    s.setdefault('$defs', {})['below'] = dict(gen(u, 1), **({'$schema': root} if r.random() < .5 else {}))
                    if '$schema' in s['$defs']['below'] and root not in names:
                        names.append(root)
            doc['$defs'] = defs
            doc['$ref'] = f'#/$defs/d{ref}' + ('/$defs/below' if ref == 0 and 'below' in defs['d0'].get('$defs', {}) and r.random() < .5 else '')
        given = r.random() < .8
        if given:
            doc['$schema'] = root
        if r.random() < .05:    # a $schema that is not an absolute, normalised URI
            w = r.choice([s for s in [doc, *doc.get('$defs', {}).values()] if isinstance(s, dict) and '$schema' in s] or [{}])
            if w:
                w['$schema'] = bad_uri(r, w['$schema'])
                names.append(w['$schema'])
        items = list(doc.items())
        r.shuffle(items)
        doc = dict(items)
        return doc, root, given, names

    def build(self, c):
        doc, root, given, names = self.document(c)
        uri = self.host + f'doc/{len(self.ev)}'
        box = []
        with CATS[c].cache() as cid:
            kw = dict(catalog=CATS[c], cacheid=cid, uri=URI(uri))
            if not given:
                kw['metaschema_uri'] = URI(root)
            out = attempt(lambda: box.append(JSONSchema(doc, **kw)))
            self.values.append(doc)
            info = dict(schema=doc, catalog=c, metaschema=root, metas={u: self.metas[u]['val'] for u in names if u in self.metas}, vocabularies=self.registered[c])
            self.log(dict(op='build', c=c + 1, val=enc(doc), uri=codes(uri), g=root, metas=names, out=out), **dict(info, build=True))
            if not box:
                # which of several metaschemas were made before it failed is not determined
                for u in names:
                    if len(names) > 1 and u in self.metas and u not in self.made[c]:
                        self.meta(c, u)
                return
            for u in names:
                self.made[c].add(u)
            s = box[0]
            if root in self.metas:
                self.log(dict(op='vald', out=attempt(lambda: s.validate().valid)), **dict(info, validate=True))
            for _ in range(2):
                v = sgen.fit(self.r, doc, doc) if self.r.random() < .7 else sgen.instance(self.r)
                self.values.append(v)
                rb = []

                def f():
                    rb.append(s.evaluate(JSON(v)))
                    return dump(rb[0])
                o = attempt(f)
                e = dict(op='eval', at=[1, []], inst=enc(v), ip=[], out=o)
                self.log(e, **dict(info, instance=v))
                if rb and self.r.random() < .4:
                    o = attempt(lambda: evalrun.annotations(rb[0], JSON(v), sorted(evalrun.keywords(doc))[:8]))
                    self.log(dict(e, op='ann', out=o), **dict(info, instance=v, collect=True))

    defaults = {}

    def run(self, steps=18):
        r = self.r
        self.plan()
        self.defaults = {}
        uris = [self.host + f'm/{k}' for k in range(4)]
        # plausible beginnings: most vocabularies first
        for c in r.sample([0, 1, 2], 2):
            for u in self.vocs + self.cores + self.nearly:
                if r.random() < .6:
                    self.define(c, u)
        main = r.sample([0, 1, 2], 2)
        for u in uris:
            self.meta_doc(main[0], u)
        for _ in range(steps):
            c = r.choice(main + main[:1])
            x = r.random()
            if x < .12:
                self.define(c, r.choice(self.vocs + self.cores))
            elif x < .2:
                self.getvoc(c, r.choice(self.vocs + self.cores + [DRAFT + d + '/vocab/core' for d in ('2019-09', '2020-12', 'nope')]))
            elif x < .42:
                u = r.choice(uris)
                doc = self.metas[u]['val']
                if u in self.made[c] and r.random() < .8:
                    self.getmeta(c, u)
                    continue
                cu, defs, mu = None, [], None
                if '$vocabulary' not in doc or r.random() < .15:
                    if r.random() < .9:
                        cu = r.choice([DRAFT + d + '/vocab/core' for d in self.drafts[c]] + self.cores)
                        for name, p in (('applicator', .7), ('validation', .7), ('meta-data', .4)):
                            if r.random() < p:
                                defs.append(DRAFT + r.choice(self.drafts[c]) + '/vocab/' + name)
                        std = {k for d in defs for k in {'applicator': PARTS['app'], 'validation': PARTS['voc'], 'meta-data': ['title', 'description']}[d.split('/')[-1]]}
                        taken = set(std)
                        for k, v in enumerate(self.vocs):
                            ks = set(self.keys_of[k]) | set(self.kws_of[k])
                            if r.random() < .3 and not ks & taken:
                                taken |= ks
                                defs.append(v)
                        if r.random() < .05:
                            defs.append(self.host + 'unknown')
                    if '$vocabulary' not in doc:
                        self.defaults[u] = defs
                if '$schema' not in doc and r.random() < .7:
                    mu = r.choice([u, META[r.choice(self.drafts[c])]])
                self.meta(c, u, cu, defs, mu)
            elif x < .55:
                u = r.choice(uris)
                self.getmeta(c, r.choice([u, u, u + '-own' if str(self.metas[u]['val'].get('$id')).endswith('-own') and u in self.made[c] else u, u + '/emb', META['2020-12'], META['2019-09'], self.host + 'nowhere']))
            else:
                self.build(c)
        return self.history()

    def history(self):
        strs = set(self.strs) | set(STD) | set(KINDS)
        for e in self.ev:
            for k in ('uri', 'g'):
                if isinstance(e.get(k), str):
                    strs.add(e[k])
            strs |= set(e.get('metas', [])) | set(e.get('defs', [])) | set(e.get('muri', []))
        tab = table(*self.values, *[m['val'] for m in self.metas.values()], sorted(strs | set(self.metas)), [u + '-own' for u in self.metas])
        return dict(drafts=self.drafts, metas={u: dict(val=enc(m['val']), ok=m['ok']) for u, m in self.metas.items()}, tab=tab, rx=self.rx or {'': ['seq', []]}, fmt={}, judge=['valid', 'ann'],
                    ev=self.ev, info=self.info)


def replay(ctx, cfg):
    """Every history of the model, on real catalogs (new names each time); then what the keywords of each metaschema are."""
    cats = CATS[:2]
    std = DRAFT + '2020-12/vocab/core'
    n = 0
    for line in ctx.model('MC_Vocab', cfg).lines:
        if not line.startswith('VCASE '):
            continue
        x = json.loads(line[6:])
        n += 1
        name = lambda u: f'http://r{n}.example/{u[2:] if ":" in u else u}'
        docs = {'R': {std: True, name('v:1'): True}, 'O': {name('v:1'): False, std: True, name('v:2'): True}, 'Q': {name('v:2'): False, std: True}, 'F': {name('v:2'): False, std: False}}
        docs = {k: {'$schema': META['2020-12'], '$vocabulary': v} for k, v in docs.items()}
        docs['P'] = {'$schema': META['2020-12'], 'title': 't'}
        evalrun.SOURCE.docs = {name(k): v for k, v in docs.items()}
        for op, c, what, arg, ok in x['log']:
            if op == 'vocab':
                cats[c - 1].create_vocabulary(URI(name(what)), custom('k' + what[2:], 'eq', arg))
            else:
                args = [URI(std), URI(name('v:2'))] if arg else []
                out = attempt(lambda: cats[c - 1].create_metaschema(URI(name(what)), *args) and 0)
                if (out[0] == 'ok') != ok or (not ok and 'JschonError' not in out[1]):
                    ctx.fail('replay-metaschema', log=x['log'], catalog=c, doc=docs[what], got=out, want=ok)
        for c, m, there, keys in x['view']:
            if not there:
                continue
            with cats[c - 1].cache() as cid:
                out = attempt(lambda: JSONSchema({'$schema': name(m), 'k1': 1, 'k2': 1, 'not': False}, catalog=cats[c - 1], cacheid=cid, uri=URI('http://r.example/x')))
                if out[0] != 'ok':
                    ctx.fail('replay-build', log=x['log'], catalog=c, metaschema=m, got=out)
                    continue
                s = cats[c - 1].get_schema(URI('http://r.example/x'), cacheid=cid)
                for k in ('k1', 'k2'):
                    tag = dict(map(tuple, keys)).get(k)
                    for v in (1, 2):
                        res = s.evaluate(JSON(v))
                        node = next(n for n in res.children.values() if n.key == k)
                        want = (True, 1) if tag is None else (v != 1, [tag])
                        if (node.valid, node.annotation) != want and (want[0] or node.valid):
                            ctx.fail('replay-keyword', log=x['log'], catalog=c, metaschema=m, keyword=k, instance=v, got=[node.valid, repr(node.annotation)], want=want)
                    if node.annotation is None:
                        ctx.fail('replay-annotation', log=x['log'], catalog=c, metaschema=m, keyword=k)
    ctx.traces += n
    ctx.notes['replayed_from_model'] = n


def run(ctx):
    cats()
    replay(ctx, 'MC_Vocab.cfg' if ctx.quick else 'MC_VocabDeep.cfg')
    r = random.Random(ctx.seed)
    ctx.validate('VocabCheck', 'VocabCheck.cfg', [Case(r).run() for _ in range(ctx.scale(450, 5000))])
