"""Building, observing and encoding JSON Patch operations."""
import jschon.jsonpatch as jp
from jschon import JSONPatch, JSONPatchOperation, JSONPointer

from . import gen
from .core import attempt, codes, xval

VALUED = ('add', 'replace', 'test')
FROM = ('move', 'copy')


def ptext(keys):
    return ''.join('/' + k.replace('~', '~0').replace('/', '~1') for k in keys)


def enc(o):
    """Encode an abstract operation dict(op, path=[keys], from_=[keys], value)."""
    return dict(op=o['op'], path=[codes(k) for k in o['path']], **{'from': [codes(k) for k in o.get('from_') or ()]}, value=xval(o.get('value')))


def enc_real(d):
    """Encode an operation dictionary as produced by asdict()."""
    toks = lambda s: [codes(t.replace('~1', '/').replace('~0', '~')) for t in s.split('/')[1:]]
    known = {'op', 'path', 'value', 'from'}
    if set(d) - known or (d['op'] in VALUED) != ('value' in d) or (d['op'] in FROM) != ('from' in d) or type(d['op']) is not str:
        return dict(op='malformed asdict', path=[], **{'from': []}, value=["z"])
    return dict(op=d['op'], path=toks(d['path']), **{'from': toks(d.get('from', ''))}, value=xval(d.get('value')))


def asdict(o):
    d = dict(op=o['op'], path=ptext(o['path']))
    if o['op'] in VALUED:
        d['value'] = o['value']
    if o['op'] in FROM:
        d['from'] = ptext(o['from_'])
    return d


def make(o, how=0):
    """A real operation (or its dictionary) for the abstract one, in one of the ways the API offers."""
    if how == 0:
        return asdict(o)
    if how == 1:
        return JSONPatchOperation(**asdict(o))
    kw = dict(op=jp.PatchOp(o['op']), path=JSONPointer(list(o['path'])))
    if o['op'] in VALUED:
        kw['value'] = o['value']
    if o['op'] in FROM:
        kw['from_'] = JSONPointer(list(o['from_'])) if how == 2 else ptext(o['from_'])
    return JSONPatchOperation(**kw)


def call(doc, o):
    f = getattr(jp, o['op'])
    p = JSONPointer(list(o['path']))
    if o['op'] in VALUED:
        return f(doc, p, o['value'])
    if o['op'] in FROM:
        return f(doc, p, JSONPointer(list(o['from_'])))
    return f(doc, p)


def rand_op(r, doc, values=None):
    op = r.choice(['add', 'add', 'remove', 'replace', 'move', 'copy', 'test'])
    o = dict(op=op, path=gen.pointer_for(r, doc))
    locs = list(gen.locations(doc))
    if op == 'remove' and not o['path'] and r.random() < .8:
        o['path'] = list(r.choice(locs)[0])
    if op in VALUED:
        o['value'] = gen.value(r, 2, 2)
        if op == 'test' and r.random() < .75:
            o['path'], v = r.choice(locs)
            o['path'] = list(o['path'])
            o['value'] = near(r, v)
    if op in FROM:
        o['from_'] = list(r.choice(locs)[0]) if r.random() < .85 else gen.pointer_for(r, doc)
        x = r.random()
        if x < .12:
            o['path'] = o['from_'] + [r.choice(['0', '-', 'a', '1', gen.key(r)])]
        elif x < .2:
            o['path'] = list(o['from_'])
        elif x < .5:
            # a sibling place
            tgt = r.choice([p for p, v in locs if isinstance(v, (list, dict))] or [()])
            o['path'] = list(tgt) + [r.choice(['0', '1', '2', '-', gen.key(r)])]
    return o


def near(r, v):
    """v, or something that differs from it slightly or only in representation."""
    x = r.random()
    if x < .45:
        return respell(r, gen.copy(v))
    if isinstance(v, bool):
        return r.choice([int(v), float(v), not v, str(v)])
    if isinstance(v, (int, float)):
        return r.choice([bool(v), str(v), v, -v, 1, 0, True, False])
    if v is None:
        return r.choice([0, False, '', [], {}])
    if isinstance(v, list) and v:
        w = gen.copy(v)
        i = r.randrange(len(w))
        y = r.random()
        if y < .5:
            w[i] = near(r, w[i])
        elif y < .7:
            w.append(w[i])
        elif y < .85:
            del w[i]
        else:
            w.reverse()
        return w
    if isinstance(v, dict) and v:
        w = gen.copy(v)
        k = r.choice(list(w))
        y = r.random()
        if y < .5:
            w[k] = near(r, w[k])
        elif y < .7:
            w[k + 'x'] = w.pop(k)
        elif y < .85:
            del w[k]
        else:
            w[gen.key(r)] = 0
        return w
    return r.choice([[], {}, '', None, 'a', 0])


def respell(r, v):
    """An equal JSON value, spelled differently (member order, int or float)."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        if r.random() < .5:
            try:
                w = float(v) if isinstance(v, int) else int(v)
                if w == v:
                    return w
            except OverflowError:
                pass
        return v
    if isinstance(v, list):
        return [respell(r, x) for x in v]
    items = list(v.items())
    r.shuffle(items)
    return {k: respell(r, x) for k, x in items}
