"""C11: URI references."""
import posixpath
import random
import urllib.parse

from jschon import URI

from ..core import attempt, codes

ASSUMPTIONS = ['references are ASCII and conform to the RFC 3986 grammar', 'authorities are not empty; percent-encoded octets are not unreserved characters']
NAMES = ('scheme', 'authority', 'path', 'query', 'fragment')

SCHEMES = ['http', 'https', 'urn', 'tag', 'x-a+b.c', 'h', 'file']
AUTHS = ['example.com', 'a', 'user@host:80', 'h:8080', '127.0.0.1', '[::1]:1', 'a.b-c~d_e', 'u:p@h']
SEGS = ['a', 'b', 'c.json', 'd;p', '%2F', 'x=1', '~u', '@', 'a:b', '...', '.a', 'b.', 'a..b', '-', '_']
QUERIES = ['', 'y', 'a=b&c=d', 'q/?', '%3F', 'x?y']
FRAGS = ['', 's', '/a/b', '/a~1b', 'anchor', '%25', '/$defs/x', 'a/?', '/a%22b']


def show(u):
    c = {n: getattr(u, n) for n in NAMES}
    return dict(str=codes(str(u)), len=len(u), absolute=bool(u.is_absolute()), absbase=bool(u.has_absolute_base()),
                **{n: [-1] if v is None else codes(v) for n, v in c.items()})


def path(r, dots=False):
    n = r.randint(0, 4)
    segs = [r.choice(['.', '..']) if dots and r.random() < .4 else r.choice(SEGS) for _ in range(n)]
    return segs


def ref(r, dots=True, base=False, frag=True):
    s = r.choice(SCHEMES) if base or r.random() < .35 else None
    a = r.choice(AUTHS) if r.random() < (.8 if base else .4) else None
    segs = path(r, dots and (a or not s))
    if a is not None:
        p = '/' + '/'.join(segs) if segs else r.choice(['', '/'])
    elif base:
        p = '/' + '/'.join(segs)
    elif s is not None:
        p = r.choice(['/', '']) + '/'.join(segs) if segs else ''
    else:
        p = r.choice(['/', '']) + '/'.join(segs) if segs else r.choice(['', '/'])
        if segs and not p.startswith('/') and ':' in segs[0]:
            p = './' + p if dots else 'x' + p[p.index(':') + 1:]
    if segs and r.random() < .2:
        p += '/'
    t = (s + ':' if s else '') + ('//' + a if a is not None else '') + p
    if r.random() < .3:
        t += '?' + r.choice(QUERIES)
    if frag and r.random() < .4:
        t += '#' + r.choice(FRAGS)
    return t


def e_parse(t):
    return dict(op='parse', t=codes(t), out=attempt(lambda: URI(t), enc=show))


def e_resolve(b, t):
    B, R = URI(b), URI(t)
    out = attempt(lambda: R.resolve(B), enc=show)
    return dict(op='resolve', base=codes(b), t=codes(t), out=out, kept=str(B) == b and str(R) == t)


def e_copy(r, t):
    u = URI(t)
    kw, how = {}, []
    has_authority = u.authority is not None
    for n in NAMES:
        x = r.random()
        if x < .4:
            how.append(['keep'])
            if r.random() < .5:
                kw[n] = True
        elif x < .7:
            how.append(['drop'])
            kw[n] = r.choice([False, None])
        else:
            v = r.choice(dict(scheme=SCHEMES, authority=AUTHS, path=['/a', '/b/c', '/', '/x%2Fy'], query=QUERIES, fragment=FRAGS)[n])
            how.append(['set', codes(v)])
            kw[n] = v
    out = attempt(lambda: u.copy(**kw), enc=show)
    return dict(op='copy', t=codes(t), how=how, out=out, kept=str(u) == t), dict(t=t, kwargs=kw)


def denormalise(r, t):
    x = r.random()
    if x < .25:
        return t.replace('http', 'HTTP').replace('urn', 'Urn')
    if x < .5:
        return t.replace('example', 'Example').replace('host', 'HOST').replace('//a', '//A')
    if x < .75:
        return t.replace('%2F', '%2f').replace('%3F', '%3f')
    return t.replace('/a', '/./a').replace('/b', '/x/../b')


def e_validate(r, t, flags=None):
    names = ('require_scheme', 'require_normalized', 'allow_fragment', 'allow_non_empty_fragment')
    f = flags or [r.random() < .5 for _ in names]
    default = (False, False, True, True)
    kw = {n: v for n, v, d in zip(names, f, default) if v != d or r.random() < .5}
    u = URI(t)
    return dict(op='validate', t=codes(t), scheme=f[0], normal=f[1], frag=f[2], nonempty=f[3], out=attempt(lambda: u.validate(**kw))), dict(t=t, kwargs=kw)


def e_eq(a, b):
    A, B = URI(a), URI(b)
    f = lambda: dict(eq=bool(A == B), ne=bool(A != B), rev=bool(B == A), eqtext=bool(A == b), none=bool(A == None), hash=hash(A) == hash(B))
    return dict(op='eq', a=codes(a), b=codes(b), out=attempt(f))


def to_root(b, t):
    """Do the dot segments of t lead to the root itself (the library then drops the final slash, a recorded finding)?"""
    x, y = urllib.parse.urlsplit(t), urllib.parse.urlsplit(b)
    if not any(s in ('.', '..') for s in x.path.split('/')):
        return False
    p = x.path if x.scheme or x.netloc or x.path.startswith('/') else y.path.rsplit('/', 1)[0] + '/' + x.path
    return posixpath.normpath('/' + p.lstrip('/')) == '/'


def run(ctx):
    r = random.Random(ctx.seed)
    ctx.model('MC_Uri', 'MC_Uri.cfg' if ctx.quick else 'MC_UriDeep.cfg')
    evs, info = [], []

    def add(e, i):
        evs.append(e)
        info.append(i)
    from itertools import product
    for t in ['', '#', '?', '#a', '?a#b', '/', '/a', 'a', 'a/b', '//h', '//h/', 'h:', 'h:a', 'h://a', 'h:/a', 'a?b?c#d?e', '?#', 'a#b/c?d', 'urn:uuid:12-34', 'urn:x?+r', 'tag:a,2020:x#y', '/a:b', './a:b']:
        add(e_parse(t), dict(t=t))
        for f in product([False, True], repeat=4):
            e, i = e_validate(r, t, f)
            add(e, i)
    RFC = 'g:h g ./g g/ /g //g ?y g?y #s g#s g?y#s ;x g;x g;x?y#s . ./ .. ../ ../g ../.. ../../ ../../g ../../../g ../../../../g /./g /../g g. .g g.. ..g ./../g ./g/. g/./h g/../h g;x=1/./y g;x=1/../y g?y/./x g?y/../x g#s/./x g#s/../x'.split()
    for t in [''] + RFC:
        for b in ('http://a/b/c/d;p?q', 'http://a', 'x:/b/c', 'http://a/b/#f', 'h://u@h:1/x/y/z'):
            if to_root(b, t):
                continue
            add(e_resolve(b, t), dict(base=b, t=t))
    # inputs recorded as findings: quirks of the URI library underneath
    for b, t in (('urn:uuid:0-1', 'g'), ('http://a/b', '/..//g'), ('http://a/b', '/../')):
        add(e_resolve(b, t), dict(base=b, t=t))
    add(e_parse('file:///a/b'), dict(t='file:///a/b'))
    for _ in range(ctx.scale(700, 10000)):
        t = ref(r)
        add(e_parse(t), dict(t=t))
        b = ref(r, False, True)
        x = ref(r)
        if x.split(':')[0] == b.split(':')[0]:
            x = x.split(':', 1)[1] if '//' in x else b
        if not to_root(b, x):
            add(e_resolve(b, x), dict(base=b, t=x))
        e, i = e_copy(r, ref(r, False))
        add(e, i)
        t = ref(r, False)
        e, i = e_validate(r, denormalise(r, t) if r.random() < .4 else t)
        add(e, i)
        u = r.choice([t, denormalise(r, t), t + '#', t.split('#')[0], ref(r, False), URI(t).copy(fragment=False).__str__()])
        add(e_eq(t, u), dict(a=t, b=u))
    from .. import gen
    ctx.validate('UriCheck', 'UriCheck.cfg', gen.group(evs, info, 40))
