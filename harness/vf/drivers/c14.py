"""C14: base and canonical URIs, links and lookups.  Random networks of documents; every schema's URIs and links are read, and URIs of
every kind are looked up; the specification (spec/SchemaIndex.tla) computes them from the documents."""
import random
import urllib.parse

from jschon import JSON, JSONSchema, URI

from .. import evalrun, sgen
from ..core import attempt, codes
from ..schemalib import DIALS, location
from .c15 import places, pointer

ASSUMPTIONS = ['no two resources share a URI, no two subschemas of a resource an anchor',
               'relative $id values stand below hierarchical base URIs']
W = dict(V=1, P=3, O=3, A=3, U=1, N=.5, R=.7)


class Places:
    """Where a schema object stands: [document number, path]."""

    def __init__(self, h):
        self.h = h
        self.roots = {n: s for n, s in enumerate(h.schemas)}

    def __call__(self, s):
        if s is None:
            return [0, []]
        path, node = [], s
        while node.parent is not None:
            path.insert(0, node.key)
            node = node.parent
        for n, root in self.roots.items():
            if root is node:
                break
        else:
            for n, (doc, _, uri) in enumerate(self.h.docs):
                if n not in self.roots and str(node.uri) == (uri or (doc.get('$id', '') if isinstance(doc, dict) else '')).rstrip('#'):
                    self.roots[n] = node
                    break
            else:
                return [-1, []]
        top = self.roots[n]
        try:
            if evalrun.at(top, path) is not s:
                return [-2, path]
        except Exception:
            return [-3, path]
        return [n + 1, path]


def schemas(node):
    if isinstance(node, JSONSchema):
        yield node
    if node.type == 'array':
        for x in node.data:
            yield from schemas(x)
    elif node.type == 'object':
        for x in node.data.values():
            yield from schemas(x)


def lookups(r, net, docs):
    """URIs that mean something, and URIs that do not."""
    out = []
    for u in net.units:
        out += u.uris()
    for u in net.units:
        res = next(u.resources())
        b = res.base
        doc = net.out[net.roots.index(u.root())]
        sub = doc
        for t in u.path:
            sub = sub[t]
        ps = places(sub, [], [])
        for p in r.sample(ps, min(5, len(ps))):
            for anc in r.sample(list(u.resources()), 1):
                out.append(anc.base + '#' + pointer(u.path[len(anc.path):] + p))
        for a in net.anchors + net.dyns:
            if r.random() < .4:
                out.append(b + '#' + a)
        out += r.sample([b + 'x', b[:-1], b + '#/', b + '#/$defs', b + '#/$defs/nope', b + '#nope', b + '#' + pointer(['$defs', 'a', '', '0']), b + '#/%24defs/a', b + '#/-', b + '#/$defs/%7E2', b + '?y', b + '/'], 4)
    r.shuffle(out)
    # a document is found in its source by its own URI only, so that comes before what is embedded in it
    first = [u.base + r.choice(['', '#', '#/nope', '#nope', '#/$defs', '#/items']) for u in net.roots[1:]]
    return first + out[:40]


def history(r, quick):
    dial = r.choice(DIALS)
    load = r.random() < .35
    rx = {}
    net = sgen.Net(r, dial, W, rx=rx, ndocs=r.choice([1, 1, 2]), load=load, dynamic=r.random() < .5, nested=.6, depth=2, relative=.7)
    docs = [(d, dial, u.base if u.given else None) for d, u in zip(net.out, net.roots)]
    h = evalrun.History(docs if load else docs[::-1], [], rx=rx, load=load)
    try:
        if h.build():
            where = Places(h)
            roots = list(h.schemas)

            def nodes():
                for s in [x for root in roots for x in schemas(root)][:24]:
                    def f():
                        b = s.base_uri
                        return dict(base=[-1] if b is None else codes(str(b)), canon=location(s.canonical_uri), parent=where(s.parentschema), res=where(s.resource_rootschema), root=where(s.document_rootschema))
                    h.ev.append(dict(op='node', at=where(s), out=attempt(f)))
                    h.info.append(dict(node=str(s.path), docs=[x[0] for x in h.docs]))
            if r.random() < .7:
                nodes()
            for u in lookups(r, net, docs):
                h.ev.append(dict(op='look', uri=codes(u), out=attempt(lambda: h.c.get_schema(URI(u), cacheid=h.cid, metaschema_uri=URI(evalrun.META[dial])), enc=where)))
                h.info.append(dict(look=u, docs=[x[0] for x in h.docs], given=[x[2] for x in h.docs]))
            roots = list(where.roots.values())
            nodes()
    finally:
        h.close()
    H = h.history()
    H.pop('rx'), H.pop('fmt'), H.pop('judge')
    return H


def anonymous(ctx, r):
    """Documents without any URI get one of their own."""
    hs = []
    for dial in DIALS:
        for doc in ({}, {'items': {'not': {}}}, {'$defs': {'a': {'$anchor': 'q', 'items': True}}, 'allOf': [True, {'$ref': '#q'}]}, {'$defs': {'b': {'$id': 'http://t.example/b', '$defs': {'c': {}}}}}):
            h = evalrun.History([(doc, dial, None)], [])
            try:
                if h.build():
                    where = Places(h)
                    s = h.schemas[0]
                    u = str(s.uri)
                    h.docs[0] = (doc, dial, u)
                    for x in schemas(s):
                        h.ev.append(dict(op='node', at=where(x), out=attempt(lambda: dict(base=codes(str(x.base_uri)), canon=location(x.canonical_uri), parent=where(x.parentschema), res=where(x.resource_rootschema), root=where(x.document_rootschema)))))
                        h.info.append(dict(node=str(x.path), docs=[doc]))
                        v = str(x.canonical_uri)
                        h.ev.append(dict(op='look', uri=codes(v), out=attempt(lambda: h.c.get_schema(URI(v), cacheid=h.cid), enc=where)))
                        h.info.append(dict(look=v, docs=[doc]))
                    for v in (u + '#q', u + '#', u + '#/items', u + '#/$defs/a', u + '#/nope', u + 'x'):
                        h.ev.append(dict(op='look', uri=codes(v), out=attempt(lambda: h.c.get_schema(URI(v), cacheid=h.cid), enc=where)))
                        h.info.append(dict(look=v, docs=[doc]))
            finally:
                h.close()
            H = h.history()
            H.pop('rx'), H.pop('fmt'), H.pop('judge')
            hs.append(H)
    return hs


def run(ctx):
    r = random.Random(ctx.seed)
    hs = anonymous(ctx, r) + [history(r, ctx.quick) for _ in range(ctx.scale(400, 9000))]
    ctx.validate('IndexCheck', 'IndexCheck.cfg', hs)
