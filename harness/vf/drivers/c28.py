"""C28: a result tree holds what the keywords report to it."""
import json
import random
import urllib.parse

from jschon import JSON, JSONSchema, URI, create_catalog
from jschon.catalog import Source
from jschon.jsonschema import Result
from jschon.vocabulary import Keyword

from ..core import attempt
from ..schemalib import META      # noqa: catalogs find their metaschemas

ASSUMPTIONS = ['subresults are entered at the innermost open result', 'only open results are discarded, and never the outermost one',
               'where an entered subresult takes the place of another, the order is not judged']

BASE = 'https://vf.example/c28/'
KEYS = ['a', 'b', '0', 'a/b~', 'ä %']
#: annotations, errors and globals by number
VALUES = [None, True, False, 0, '', [], {}, 'x', 1.5, {'a': [1, None]}, [0], 10 ** 20, 'annotation', [False], 1]


def vnum(v):
    for i, x in enumerate(VALUES):
        if type(x) is type(v) and x == v and (not isinstance(x, list) or [type(y) for y in x] == [type(y) for y in v]):
            return i
    return -1


class R2(Result):
    pass


class R3(Result):
    """Has state of its own."""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.seen = self.parent.seen + 1 if isinstance(self.parent, R3) else 1


CLASSES = [Result, R2, R3]


class RunKeyword(Keyword):
    """Does whatever a history wants to be done in it."""
    key = 'vfRun'
    job = None

    def evaluate(self, instance, result):
        RunKeyword.job(self, instance, result)


class Src(Source):
    def __call__(self, rest):
        core = 'https://json-schema.org/draft/2020-12/vocab/'
        return {'meta': {'$schema': META['2020-12'], '$id': BASE + 'meta', 'type': ['object', 'boolean'],
                         '$vocabulary': {core + 'core': True, core + 'applicator': True, BASE + 'voc': True}}}[rest]


_catalog = None


def catalog():
    global _catalog
    if _catalog is None:
        _catalog = create_catalog('2019-09', '2020-12', name='vf-c28')
        _catalog.create_vocabulary(URI(BASE + 'voc'), RunKeyword)
        _catalog.add_uri_source(URI(BASE), Src())
    return _catalog


def instances():
    doc = JSON({'a': {'b': [1, {'a/b': None}]}, 'c': 'x'})
    return [None, doc, doc['a'], doc['a']['b'], doc['a']['b'][1], doc['a']['b'][1]['a/b'], doc['c']]


def schemas(cat):
    doc = JSONSchema({'$schema': META['2020-12'], '$id': BASE + 'doc', 'allOf': [{'title': 'x'}, {'anyOf': [True]}],
                      '$defs': {'t/w~o %': {'$id': 'emb', 'properties': {'a': {'not': False}}}}}, catalog=cat)
    emb = doc['$defs']['t/w~o %']
    named = JSONSchema({'type': 'object', 'if': {'const': 1}}, catalog=cat, metaschema_uri=URI(META['2019-09']), uri=URI(BASE + 'n?q#'))
    return [(doc, 'doc', []), (doc['allOf'][1], 'doc', ['allOf', '1']), (emb, 'emb', []), (emb['properties']['a'], 'emb', ['properties', 'a']),
            (named, 'n?q', []), (named['if'], 'n?q', ['if'])]


def place(uri):
    """(base, keys) of an absolute location."""
    u = str(uri)
    base, _, frag = u.partition('#')
    frag = urllib.parse.unquote(frag)
    keys = [k.replace('~1', '/').replace('~0', '~') for k in frag.split('/')[1:]] if frag.startswith('/') else [] if not frag else ['?' + frag]
    return base, keys


class Boom(Exception):
    def __init__(self, k):
        self.k = k


class Tree:
    """A result tree: the nodes by number, and the operations and observations on it."""

    def __init__(self, root, insts, schs):
        self.nodes = [None, root]
        self.base = root
        self.insts, self.schs = insts, schs
        self.inst_no = {id(x): i for i, x in enumerate(insts) if x is not None}
        self.sch_no = {id(s[0]): i + 1 for i, s in enumerate(schs)}

    def number(self, x):
        if x is None:
            return 0
        return next((i for i, y in enumerate(self.nodes) if y is x), -1)

    def do(self, o):
        op = o['op']
        n = self.nodes[o['n']] if 'n' in o else None
        if op == 'annotate':
            n.annotate(VALUES[o['v']])
        elif op == 'fail':
            n.fail(VALUES[o['v']]) if o['v'] or o.get('how') else n.fail()
        elif op == 'pass':
            n.pass_()
        elif op == 'noassert':
            n.noassert()
        elif op == 'discard':
            n.discard()
        elif op == 'drop':
            n.drop()
        elif op == 'refer':
            n.refschema(self.schs[o['s'] - 1][0])
        elif op == 'global':
            self.nodes[o['w']].globals[o['k']] = VALUES[o['v']]

    def enter(self, cur, o):
        args = () if o['sch'] == 0 else (self.schs[o['sch'] - 1][0],)
        return cur(self.insts[o['inst']], o['key'], *args, **({'cls': CLASSES[o['cls'] - 1]} if o['cls'] else {}))

    def look(self, k):
        x = self.nodes[k]
        u = x.absolute_uri
        base, ptr = ('', []) if u is None else place(u)
        cls = CLASSES.index(type(x)) + 1 if type(x) in CLASSES else -1
        if cls == 3 and x.seen != (x.parent.seen + 1 if isinstance(x.parent, R3) else 1):
            cls = -2
        return dict(op='node', n=k, valid=x.valid, passed=x.passed, dropped=x.dropped, ann=vnum(x.annotation), err=vnum(x.error),
                    p=0 if x is self.base else self.number(x.parent), key='' if x is self.base else x.key, inst=self.inst_no.get(id(x.instance), -1),
                    sch=self.sch_no.get(id(x.schema), -1), cls=cls, path=list(x.path), rel=list(x.relpath),
                    kids=[self.number(c) for c in x.children.values()], base=base, ptr=ptr)

    def filters(self, inst, key, how):
        i = None if inst == 0 else self.insts[inst] if not how & 1 else JSON(self.insts[1].value)
        if inst and how & 1:
            for t in self.insts[inst].path:
                i = i[int(t)] if i.type == 'array' else i[t]
        kw = {}
        if i is not None or how & 2:
            kw['instance'] = i
        if key or how & 2:
            kw['key'] = key or None
        return kw

    def collect(self, n, inst, key, how=0):
        x = self.nodes[n]
        kw = self.filters(inst, key, how)
        return dict(op='collect', n=n, inst=inst, key=key, anns=[vnum(v) for v in x.collect_annotations(**kw)], errs=[vnum(v) for v in x.collect_errors(**kw)])


# ---------------------------------------------------------------- random histories

def program(r, tree, n, ev):
    """Run a random program on a tree, recording events."""
    budget = [n]

    def note(o):
        ev.append(o)

    def observe():
        k = r.randrange(1, len(tree.nodes))
        x = r.random()
        if x < .35:
            note(tree.look(k))
        elif x < .75:
            note(tree.collect(1 if r.random() < .4 else k, r.choice([0, 0, r.randrange(1, len(tree.insts))]), r.choice(['', '', r.choice(KEYS)]), r.randrange(4)))
        elif x < .9:
            if k != 1:
                i, key = r.randrange(1, len(tree.insts)), r.choice(KEYS)
                if r.random() < .7:
                    c = r.choice(list(tree.nodes[k].parent.children.values()) or [tree.nodes[k]])
                    i, key = tree.inst_no[id(c.instance)], c.key
                note(dict(op='sibling', n=k, inst=i, key=key, found=tree.number(tree.nodes[k].sibling(tree.insts[i], key))))
        else:
            g = r.choice(['g', 'h'])
            note(dict(op='shared', n=k, k=g, v=vnum(tree.nodes[k].globals.get(g))))

    def level(cur, open_):
        while budget[0] > 0:
            budget[0] -= 1
            x = r.random()
            if x < .3 and len(open_) < 7:
                o = dict(op='enter', key=r.choice(KEYS), inst=r.choice([tree.inst_no[id(cur.instance)], r.randrange(1, len(tree.insts))]),
                         sch=r.choice([0, 0, 0, r.randint(1, len(tree.schs))]), cls=r.choice([0, 0, 0, 0, 1, 2, 3]), out=['ok', 0])
                try:
                    with tree.enter(cur, o) as child:
                        tree.nodes.append(child)
                        note(o)
                        level(child, open_ + [len(tree.nodes) - 1])
                except Boom as b:
                    b.k -= 1
                    if b.k:
                        raise
                else:
                    note(dict(op='leave', out=['ok', 0]))
                continue
            if x < .42 and len(open_) > 1:
                return
            if x < .45 and len(open_) > 1:
                k = r.randint(1, len(open_) - 1)
                note(dict(op='raise', k=k, out=['ok', 0]))
                raise Boom(k)
            if x < .72:
                k = open_[-1] if r.random() < .6 else r.choice(open_) if r.random() < .5 else r.randrange(1, len(tree.nodes))
                m = r.choice(['annotate'] * 4 + ['fail'] * 3 + ['pass', 'pass', 'noassert', 'discard', 'drop', 'refer', 'global'])
                o = dict(op=m, n=k)
                if m == 'annotate':
                    o['v'] = r.choice([0, *range(1, len(VALUES)), *range(1, len(VALUES))]) if r.random() < .5 else r.randrange(1, len(VALUES))
                elif m == 'fail':
                    o.update(v=r.randrange(len(VALUES)), how=r.randrange(2))
                elif m == 'discard':
                    if len(open_) == 1:
                        continue
                    o['n'] = r.choice(open_[1:])
                elif m == 'refer':
                    o['s'] = r.randint(1, len(tree.schs))
                elif m == 'global':
                    o.update(k=r.choice(['g', 'h']), v=r.randrange(1, len(VALUES)), w=k)
                o['out'] = attempt(tree.do, o)
                note(o)
            else:
                observe()
    level(tree.base, [1])
    for k in range(1, len(tree.nodes)):
        note(tree.look(k))
    for k in ('', *KEYS[:3]):
        note(tree.collect(1, 0, k))
    for g in ('g', 'h'):
        k = r.randrange(1, len(tree.nodes))
        note(dict(op='shared', n=k, k=g, v=vnum(tree.nodes[k].globals.get(g))))


def other(insts, schs):
    """A tree that nothing is done to."""
    t = Result(schs[0][0], insts[1])
    with t(insts[1], 'a') as c:
        c.annotate('x')
    t.globals['g'] = 'mine'
    return t


def clean(t):
    return list(t.collect_annotations()) == ['x'] and t.globals == {'g': 'mine'} and len(t.children) == 1 and t.valid and t.passed


def history(r, n):
    cat = catalog()
    insts = instances()
    ev = []
    schs = schemas(cat)
    o = other(insts, schs)
    if r.random() < .5:
        s, cls = r.randrange(len(schs)), r.randrange(3)
        tree = Tree(CLASSES[cls](schs[s][0], insts[1]), insts, schs)
        root = dict(key=[], inst=1, sch=s + 1, cls=cls + 1, rel=[])
        program(r, tree, n, ev)
    else:
        # in a keyword of a schema
        path = r.choice([[], ['allOf', '1'], ['properties', 'a'], ['$ref']])
        doc = {'vfRun': True}
        doc = {'': doc, 'allOf': {'allOf': [{}, doc]}, 'properties': {'properties': {'a': doc}}, '$ref': {'$ref': '#/$defs/x', '$defs': {'x': doc}}}[path[0] if path else '']
        doc = JSONSchema({'$schema': BASE + 'meta', '$id': BASE + 'run', **doc}, catalog=cat)
        place_ = ['$defs', 'x'] if path == ['$ref'] else path
        sub = doc
        for t in place_:
            sub = sub[int(t)] if sub.type == 'array' else sub[t]
        schs = [(sub, 'run', place_), *schs]
        root = dict(key=[*path, 'vfRun'], inst=2 if path[:1] == ['properties'] else 1, sch=1, cls=1, rel=['vfRun'])
        done = []

        def job(kw, instance, result):
            tree = Tree(result, insts, schs)
            program(r, tree, n, ev)
            done.append(1)
        RunKeyword.job = job
        doc.evaluate(insts[1])
        if not done:
            ev.append(dict(op='done', clean=False))
    ev.append(dict(op='done', clean=clean(o)))
    return dict(root=root, schs=[dict(base=BASE + b, ptr=p) for _, b, p in schs], ev=ev, info=None)


# ---------------------------------------------------------------- the programs of the model

def replay(ctx, cfg):
    res = ctx.model('MC_ResultTree', cfg)
    insts = instances()
    schs = schemas(catalog())
    total = 0
    for line in res.lines:
        if not line.startswith('VCASE '):
            continue
        total += 1
        case = json.loads(line[6:])
        tree = Tree(Result(schs[0][0], insts[1]), insts, schs)
        ops = iter(case['log'])

        def level(cur):
            for o in ops:
                if o['op'] == 'enter':
                    try:
                        with tree.enter(cur, o) as child:
                            tree.nodes.append(child)
                            if level(child):
                                return True     # the end of the program: leave nothing
                    except Boom as b:
                        b.k -= 1
                        if b.k:
                            raise
                elif o['op'] == 'leave':
                    return False
                elif o['op'] == 'raise':
                    raise Boom(o['k'])
                else:
                    tree.do(o)
            bad = compare(tree, case['view'])
            if bad:
                ctx.fail('replay-' + bad[0], log=case['log'], node=bad[1], got=bad[2], want=bad[3])
            return True
        try:
            level(tree.base)
        except Exception as e:
            ctx.fail('replay-raised', log=case['log'], error=repr(e))
    ctx.traces += total
    ctx.notes[f'replayed {cfg}'] = total


def compare(tree, view):
    for x in view:
        n = x['n']
        node = tree.nodes[n]
        got = dict(valid=node.valid, passed=node.passed, drop=node.dropped, ann=vnum(node.annotation), err=vnum(node.error), p=tree.number(node.parent),
                   inst=tree.inst_no.get(id(node.instance)), sch=tree.sch_no.get(id(node.schema)), cls=CLASSES.index(type(node)) + 1,
                   rel=list(node.relpath), path=list(node.path))
        if n != 1:
            got['key'] = node.key
        for f, v in got.items():
            if v != x[f]:
                return f, n, v, x[f]
        order = sorted if x['mixed'] else list
        kids = [tree.number(c) for c in node.children.values()]
        if order(kids) != order(x['kids']):
            return 'kids', n, kids, x['kids']
        s = tree.schs[(x['ref'] or x['sch']) - 1]
        want = (BASE + s[1], s[2] + ([] if x['ref'] else x['rel']))
        if place(node.absolute_uri) != want:
            return 'absolute-uri', n, str(node.absolute_uri), want
        for name, f in (('anns', node.collect_annotations), ('errs', node.collect_errors)):
            for key, (every, first) in x[name].items():
                a = [vnum(v) for v in f(key=key or None)]
                b = [vnum(v) for v in f(tree.insts[1], key or None)]
                if order(a) != order(every) or order(b) != order(first):
                    return name, n, (a, b), (every, first)
        if n != 1 and tree.number(node.sibling(tree.insts[1], 'a')) != x['sib']:
            return 'sibling', n, tree.number(node.sibling(tree.insts[1], 'a')), x['sib']
    return None


def run(ctx):
    r = random.Random(ctx.seed)
    for cfg in (['MC_ResultTree.cfg', 'MC_ResultTreeRich.cfg'] if ctx.quick else ['MC_ResultTreeDeep.cfg', 'MC_ResultTreeRichDeep.cfg']):
        replay(ctx, cfg)
    ctx.validate('ResultTreeCheck', 'ResultTreeCheck.cfg', [history(r, r.randint(5, 60)) for _ in range(ctx.scale(1500, 20000))])
