"""C07: Relative JSON Pointers."""
import random

from jschon import JSON, JSONPointer, RelativeJSONPointer

from .. import gen
from ..core import attempt, codes, xval
from . import c05
from .c01 import plain

ASSUMPTIONS = ['numbers of levels and index adjustments below 10^9 are evaluated']


def e_parse(s):
    def enc(p):
        q = RelativeJSONPointer(str(p))
        return dict(str=codes(str(p)), backeq=bool(q == p and not q != p), backhash=hash(q) == hash(p))
    return dict(op='relparse', s=codes(s), out=attempt(RelativeJSONPointer, s, enc=enc))


def e_make(r):
    up = r.choice([0, 0, 1, 2, 7, 10, 3 ** 41])
    over = r.choice([0, 0, 1, -1, 2, -12, 7 ** 23, -7 ** 23])
    ref = '#' if r.random() < .4 else JSONPointer([gen.key(r) for _ in range(r.randint(0, 2))])

    def enc(p):
        q = RelativeJSONPointer(str(p))
        return dict(str=codes(str(p)), backeq=bool(q == p), backhash=hash(q) == hash(p))
    return dict(op='relmake', up=codes(str(up)), over=[] if not over else [ord('+' if over > 0 else '-'), codes(str(abs(over)))],
                hash=ref == '#', ptr=[] if ref == '#' else [codes(k) for k in ref],
                out=attempt(lambda: RelativeJSONPointer(up=up, over=over, ref=ref), enc=enc))


def e_cmp(s, t):
    a, b = RelativeJSONPointer(s), RelativeJSONPointer(t)
    return dict(op='relcmp', s=codes(s), t=codes(t), eq=bool(a == b), ne=bool(a != b), hasheq=hash(a) == hash(b))


def e_eval(root, at, s):
    node = root
    for k in at:
        node = node.data[int(k)] if isinstance(node.data, list) else node.data[k]

    def enc(x):
        if isinstance(x, JSON):
            y = root
            for k in x.path:
                y = y.data[int(k)] if isinstance(y.data, list) else y.data[k]
            return dict(kind='node', v=[codes(k) for k in x.path], same=y is x)
        if isinstance(x, int) and not isinstance(x, bool):
            return dict(kind='index', v=x, same=True)
        if isinstance(x, str):
            return dict(kind='key', v=codes(x), same=True)
        return dict(kind='other', v=0, same=False)
    doc = xval(plain(root))
    out = attempt(lambda: RelativeJSONPointer(s).evaluate(node), enc=enc)
    return dict(op='releval', doc=doc, at=[codes(k) for k in at], s=codes(s), out=out, after=xval(plain(root)))


def relative(r, v, at):
    up = r.randint(0, len(at)) if r.random() < .9 else len(at) + r.choice([1, 5, 10 ** 6])
    over = ''
    if r.random() < .45:
        over = r.choice('+-') + str(r.choice([1, 1, 1, 2, 3, 10]))
    if r.random() < .35:
        return f'{up}{over}#'
    sub = v
    base = list(at[:max(len(at) - up, 0)])
    if over and base and base[-1].isascii() and base[-1].isdigit():
        base[-1] = str(int(base[-1]) + int(over))
    for k in base:
        try:
            sub = sub[int(k)] if isinstance(sub, list) else sub[k]
        except Exception:
            break
    return f'{up}{over}{JSONPointer(gen.pointer_for(r, sub))}'


def run(ctx):
    r = random.Random(ctx.seed)
    ctx.model('MC_PtrEval', 'MC_PtrEval.cfg' if ctx.quick else 'MC_PtrEvalDeep.cfg')
    evs, info = [], []

    def add(e, **i):
        evs.append(e)
        info.append(i)
    good = []
    for s, c in c05.replay(ctx):      # all small texts; rel tells whether the specification accepts
        got = attempt(RelativeJSONPointer, s, enc=str)
        if (got[0] == 'ok') != c['rel'] or got[0] == 'ok' and got[1] != s:
            ctx.fail('replay-relative-parse', string=s, got=got, wellformed=c['rel'])
        if c['rel']:
            good.append(s)
    for s in gen.words('01+-#/', ctx.scale(4, 5)):
        add(e_parse(s), string=s)
    for _ in range(ctx.scale(1000, 8000)):
        s = ''.join(r.choice(['0', '1', '10', '01', '+', '-', '+1', '-2', '#', '/', '/a', '~0', '~', '\n', '٣', '+01', '-0', '36893488147419103235', '']) for _ in range(r.randint(1, 4)))
        add(e_parse(s), string=s)
    for _ in range(ctx.scale(300, 2000)):
        e = e_make(r)
        add(e)
    for _ in range(ctx.scale(600, 5000)):
        s, t = r.choice(good), r.choice(good)
        x = r.random()
        if x < .3:
            t = s
        elif x < .6:
            t = s[:-1] + r.choice('01#a')
        try:
            RelativeJSONPointer(t)
        except Exception:
            t = s
        add(e_cmp(s, t), s=s, t=t)
    for _ in range(ctx.scale(1200, 15000)):
        v = gen.container(r, r.randint(1, 4))
        root = JSON(v)
        locs = list(gen.locations(v))
        for _ in range(3):
            at = r.choice(locs)[0]
            s = relative(r, v, at)
            add(e_eval(root, at, s), document=v, at=at, relative=s)
        if r.random() < .3 and root.type == 'array':
            # after a change the same references resolve against the new positions
            root.insert(r.randint(0, len(root)), 'NEW')
            v = plain(root)
            at = r.choice(list(gen.locations(v)))[0]
            s = relative(r, v, at)
            add(e_eval(root, at, s), document=v, at=at, relative=s)
    ctx.validate('PointerCheck', 'PointerCheck.cfg', gen.group(evs, info, 30))
