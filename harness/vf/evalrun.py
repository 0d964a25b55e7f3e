"""Record constructions and evaluations of schema documents as histories for EvalCheck."""
from jschon import JSON, JSONSchema, URI
from jschon.catalog import Source

from . import sgen
from .core import attempt, codes
from .schemalib import META, TooBig, at, catalog, dump, enc, finder, size, table, tokens

_cat = None


class DocSource(Source):
    """Documents by their whole URI."""
    docs = {}

    def __call__(self, uri):
        return self.docs[uri]


SOURCE = DocSource()


def cat():
    global _cat
    if _cat is None:
        _cat = catalog('vf')
        _cat.add_uri_source(None, SOURCE)
    return _cat


def annotations(result, inst, root_keys):
    """collect_annotations() under every filter: everything, by instance node, by keyword, by both."""
    out = []

    def nodes(n, path):
        yield n, path
        if n.type == 'array':
            for j, x in enumerate(n.data):
                yield from nodes(x, path + [str(j)])
        elif n.type == 'object':
            for k, x in n.data.items():
                yield from nodes(x, path + [k])
    out.append(dict(i=[], k=[], a=[enc(x) for x in result.collect_annotations()]))
    where = list(nodes(inst, tokens(str(inst.path))))
    for n, p in where[:12]:
        out.append(dict(i=[p], k=[], a=[enc(x) for x in result.collect_annotations(n)]))
    for k in root_keys:
        out.append(dict(i=[], k=[k], a=[enc(x) for x in result.collect_annotations(key=k)]))
        for n, p in where[:4]:
            out.append(dict(i=[p], k=[k], a=[enc(x) for x in result.collect_annotations(n, k)]))
    return out


def keywords(v, out=None):
    out = set() if out is None else out
    if isinstance(v, dict):
        for k, x in v.items():
            out.add(k)
            keywords(x, out)
    elif isinstance(v, list):
        for x in v:
            keywords(x, out)
    return out


class History:
    """docs: [(schema document, dialect, uri or None)]; built in order in one temporary cache."""

    def __init__(self, docs, judge, rx=None, fmt=None, catalog_=None, load=False):
        self.c = catalog_ or cat()
        self.load = load
        self.cm = self.c.cache()
        self.cid = self.cm.__enter__()
        self.docs, self.judge, self.rx, self.fmt = docs, judge, rx or {}, fmt or {}
        self.schemas, self.ev, self.info, self.values = [], [], [], []
        self.ok = True
        # random references can make an evaluation exponentially large: such a history ends there
        self.wild = self.tired = False

    def close(self):
        self.cm.__exit__(None, None, None)

    def build(self):
        SOURCE.docs = {}
        if self.load:
            for doc, dial, uri in self.docs[1:]:
                SOURCE.docs[uri or doc['$id'].rstrip('#')] = doc
        for n, (doc, dial, uri) in enumerate(self.docs[:1] if self.load else self.docs):
            kw = dict(catalog=self.c, cacheid=self.cid)
            if uri is not None:
                kw['uri'] = URI(uri)
            if not (isinstance(doc, dict) and '$schema' in doc):
                kw['metaschema_uri'] = URI(META[dial])
            box = []
            out = attempt(lambda: box.append(JSONSchema(doc, **kw)))
            self.schemas.append(box[0] if box else None)
            self.ev.append(dict(op='build', n=len(self.docs) if self.load else n + 1, out=out))
            self.info.append(dict(build=doc, uri=uri, dialect=dial))
            if not box:
                self.ok = False
                break
        return self.ok

    def evaluate(self, value, path=(), d=1, node=None, ann=False, info=None):
        s = at(self.schemas[d - 1], path)
        inst = JSON(value) if node is None else node
        ip = tokens(str(inst.path))
        box = []

        def f():
            res = s.evaluate(inst)
            box.append(res)
            size(res)
            return dump(res, finder(self.c, self.cid) if 'loc' in self.judge else None)
        if self.tired:
            return None
        out = attempt(f, limit=6 if self.wild else 20)
        if out[0] == 'err' and (out[1][0] == 'TooBig' or out[1] == ['HANG'] and self.wild):
            self.tired = True
            return None
        self.values.append(value)
        e = dict(op='eval', n=len(self.docs) if self.load else len(self.schemas), at=[d, list(path)], inst=enc(value), ip=ip, out=out)
        i = dict(schema=self.docs[d - 1][0] if len(self.docs) == 1 else [x[0] for x in self.docs], at=list(path), instance=value, **(info or {}))
        self.ev.append(e)
        self.info.append(i)
        if ann and box:
            ks = sorted(keywords(self.docs[d - 1][0]))[:14]
            o2 = attempt(lambda: annotations(box[0], inst, ks))
            self.ev.append(dict(e, op='ann', out=o2))
            self.info.append(dict(i, collect=True))
        return box[0] if box else None

    def history(self):
        # nulls stand for nothing in the trace
        return dict(tab=table([x[0] for x in self.docs], self.values, [self.strings_extra()]), rx=self.rx or {'': ['seq', []]}, fmt=self.fmt,
                    docs=[dict(uri=[-1] if u is None else codes(u), val=enc(v), g=g) for v, g, u in (self.docs if self.load else self.docs[:len(self.schemas)])],
                    judge=list(self.judge), ev=self.ev, info=self.info)

    def strings_extra(self):
        return []


BASE = 'http://t.example/root/main'


def random_history(r, dial, weights, judge, n_inst=4, depth=3, width=3, ann=False, refs=False, uri=BASE, fit=.7, **net):
    if refs or net:
        return net_history(r, dial, weights, judge, n_inst, ann, fit, depth=depth, width=width, **net)
    rx = {}
    doc = sgen.Gen(r, dial, weights, depth=depth, width=width, rx=rx).document()
    h = History([(doc, dial, uri)], judge, rx=rx)
    try:
        if h.build():
            for _ in range(n_inst):
                v = sgen.fit(r, doc, doc) if r.random() < fit else sgen.instance(r)
                h.evaluate(v, ann=ann)
    finally:
        h.close()
    return h.history()


def net_history(r, dial, weights, judge, n_inst=4, ann=False, fit=.7, load=False, enter=True, **kw):
    """Documents that refer to each other.  With load, all but the first come from a source, on demand."""
    rx = {}
    net = sgen.Net(r, dial, weights, rx=rx, load=load, **kw)
    docs = [(d, dial, u.base if u.given else None) for d, u in zip(net.out, net.roots)]
    h = History(docs if load else docs[::-1], judge, rx=rx, load=load)
    h.wild = True
    try:
        if h.build():
            for _ in range(n_inst):
                path, d = [], 1
                if enter and r.random() < .3 and any(u.base is not None or not next(u.resources()).rec for u in net.units):
                    u = r.choice([u for u in net.units if u.base is not None or not next(u.resources()).rec])
                    root = u
                    while root.parent is not None:
                        root = root.parent
                    d = net.roots.index(root) + 1
                    path = u.path
                if load:
                    if d > 1:
                        path, d = [], 1
                else:
                    d = len(docs) + 1 - d
                doc = h.docs[d - 1][0]
                sub = doc
                for t in path:
                    sub = sub[t]
                v = sgen.fit(r, sub, doc) if r.random() < fit else sgen.instance(r)
                h.evaluate(v, path=path, d=d, ann=ann)
    finally:
        h.close()
    return h.history()


def exhaust(schemas, instances, judge, dial, ann=False, rx=None, uri=BASE):
    """Every given schema on every given instance."""
    out = []
    for s in schemas:
        h = History([(s, dial, uri)], judge, rx=rx)
        try:
            if h.build():
                for v in instances:
                    h.evaluate(v, ann=ann)
        finally:
            h.close()
        out.append(h.history())
    return out
