"""C23: output formats.  Random evaluations; the result tree is recorded through its public attributes and the specification
(spec/Output.tla) computes every output from it."""
import random

from jschon import JSON
from jschon.jsonschema import JSONSchema

from .. import evalcases, evalrun, pairs, sgen
from ..core import attempt
from ..schemalib import DIALS, enc, sized

ASSUMPTIONS = ['the order of the units in the basic list is not judged', 'null annotations are not distinguished from none',
               'hierarchical units cover all instance locations of a node: of several messages of one keyword any may be shown',
               'with a filter, the errors of an invalid result may be filtered too or not']
W = dict(V=1.5, P=3, O=3, A=3, U=1, N=2)
REFS = ('$ref', '$dynamicRef', '$recursiveRef')


def tree(n, root=True):
    sch = isinstance(n.schema_node, JSONSchema)
    return dict(k='' if n.key is None else n.key, kp=str(n.path), ip=str(n.instance.path), au=str(n.absolute_uri), v=bool(n.valid), ps=bool(n.passed),
                a=[] if n.annotation is None else [enc(n.annotation)], e=[] if n.error is None else [enc(n.error)],
                sch=sch, app=sch or n.key in REFS, c=[tree(c, False) for c in n.children.values()])


def keywords(t, out):
    out.add(t['k'])
    for c in t['c']:
        keywords(c, out)
    return out


def record(r, H, res, info, quick):
    t = tree(res)
    H['trees'].append(t)
    n = len(H['trees'])
    ks = sorted(keywords(t, set()) - {''})
    jobs = [(f, None, None) for f in ('flag', 'basic', 'detailed', 'verbose', 'hierarchical')]
    for names in ([], r.sample(ks, min(len(ks), 1)), r.sample(ks, min(len(ks), r.randint(0, 4))) + ['nope'], ks):
        jobs.append(('basic', names, r.choice([list, tuple, set, iter, lambda x: dict.fromkeys(x).keys()])))
    r.shuffle(jobs)
    for f, names, kind in jobs:
        kw = {} if names is None else dict(annotations=kind(names))
        H['ev'].append(dict(op='out', tree=n, fmt=f, filter=[] if names is None else [names], out=attempt(lambda: res.output(f, **kw), enc=enc)))
        H['info'].append(dict(info, format=f, annotations=names))
    nodes = [n for _, n in evalcases.where(res.instance)]
    for _ in range(4):
        i, k = r.choice([None, None, res.instance] + nodes), r.choice([None, None] + ks)
        H['ev'].append(dict(op='errs', tree=n, ip=[] if i is None else [str(i.path)], k=[] if k is None else [k], out=attempt(lambda: [enc(x) for x in res.collect_errors(i, k)])))
        H['info'].append(dict(info, errors_at=None if i is None else str(i.path), key=k))
    H['ev'].append(dict(op='same', tree=n, after=tree(res)))
    H['info'].append(info)


def run(ctx):
    r = random.Random(ctx.seed)
    hs = []
    for k in range(ctx.scale(560, 10000)):
        dial = r.choice(DIALS)
        rx = {}
        inst = None
        if k % 3 == 1:
            kind = r.choice(['obj', 'arr', 'str', 'num'])
            doc = pairs.Maker(r, dial).document(kind, r.choice([0, 1, 1, 2]))
            h = evalrun.History([(doc, dial, evalrun.BASE)], [], rx=pairs.RXS)
            at, inst = 1, pairs.instances(r, kind, 4)
        elif k % 4 == 0:
            net = sgen.Net(r, dial, dict(W, R=3), rx=rx, ndocs=r.choice([1, 2]), dynamic=r.random() < .4, depth=2)
            docs = [(d, dial, u.base if u.given else None) for d, u in zip(net.out, net.roots)]
            h = evalrun.History(docs[::-1], [], rx=rx)
            at = len(docs)
        else:
            h = evalrun.History([(sgen.Gen(r, dial, W, depth=r.choice([2, 3]), rx=rx).document(), dial, evalrun.BASE)], [], rx=rx)
            at = 1
        H = dict(trees=[], ev=[], info=[])
        try:
            if h.build():
                doc = h.docs[at - 1][0]
                for j in range(4):
                    v = inst[j] if inst else sgen.fit(r, doc, doc) if r.random() < .8 else sgen.instance(r)
                    node = JSON(v)
                    box = []
                    out = attempt(lambda: box.append(h.schemas[at - 1].evaluate(node)))
                    if box and attempt(lambda: sized(box[0]) and 0)[0] == 'ok':
                        record(r, H, box[0], dict(schema=doc, instance=v), ctx.quick)
        finally:
            h.close()
        if H['ev']:
            hs.append(H)
    ctx.model('MC_Output', 'MC_Output.cfg' if ctx.quick else 'MC_OutputDeep.cfg', timeout=3000)
    ctx.validate('OutputCheck', 'OutputCheck.cfg', hs)
