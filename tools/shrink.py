"""Shrink an evaluation history that the specification rejects: from vf-driver code, shrink(hist_args) deletes members of the documents
and the instance while the same clause is still reported.  Development aid; no check uses it."""
import copy
import json
import sys

sys.path.insert(0, '/verif/harness')
from vf import core, evalrun


def cuts(v, path=()):
    if isinstance(v, dict):
        for k in list(v):
            yield path + (k,), None
        for k in list(v):
            yield from cuts(v[k], path + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            yield path + (i,), None
        for i in range(len(v)):
            yield from cuts(v[i], path + (i,))


def cut(v, path):
    v = copy.deepcopy(v)
    t = v
    for k in path[:-1]:
        t = t[k]
    del t[path[-1]]
    return v


def run(docs, judge, rx, load, at, d, value, ann=False):
    h = evalrun.History(docs, judge, rx=rx, load=load)
    try:
        if h.build():
            try:
                h.evaluate(value, path=at, d=d, ann=ann)
            except (KeyError, IndexError, TypeError):
                return None
    finally:
        h.close()
    return h.history()


def shrink(docs, judge, rx, load, at, d, value, clause, ann=False, rounds=40):
    for _ in range(rounds):
        cands = []
        for n, (doc, g, u) in enumerate(docs):
            for p, _ in cuts(doc):
                if u is None and p == ('$id',):
                    continue
                cands.append((docs[:n] + [(cut(doc, p), g, u)] + docs[n + 1:], value))
        for p, _ in cuts(value):
            cands.append((docs, cut(value, p)))
        hs = []
        for ds, v in cands:
            try:
                h = run(ds, judge, rx, load, at, d, v, ann)
            except Exception:
                h = None
            if h is not None and h['ev'][-1]['op'] != 'build':
                h['cand'] = len(hs)
                hs.append((h, ds, v))
        ctx = core.Ctx('X', 'quick', 1)
        ctx.validate('EvalCheck', 'EvalCheck.cfg', [{k: v for k, v in h.items() if k != 'cand'} for h, _, _ in hs])
        bad = [x.data['history'] - 1 for x in ctx.violations if x.clause == clause]
        if not bad:
            break
        best = min(bad, key=lambda b: len(json.dumps([hs[b][1], hs[b][2]])))
        docs, value = hs[best][1], hs[best][2]
    return docs, value
