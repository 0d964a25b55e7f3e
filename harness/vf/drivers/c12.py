"""C12: loading JSON resources from sources."""
import copy
import http.server
import json
import pathlib
import random
import tempfile
import threading

from jschon import URI, LocalSource, RemoteSource
from jschon.catalog import Catalog, Source
from jschon.exc import CatalogError, JSONError, JSONPointerError, JSONSchemaError, URIError

from .. import gen
from ..core import attempt, codes, mro, xval

ASSUMPTIONS = ['bases have no query; file names do not end in a slash; remote base URLs end in a slash',
               'file systems take several slashes for one']


class Odd(Exception):
    def __init__(self):
        super().__init__()


class Rec(Source):
    """Replies with a value or an exception, and records what it was asked."""

    def __init__(self, n, log, reply, **kw):
        super().__init__(**kw)
        self.n, self.log, self.reply = n, log, reply

    def __call__(self, rest):
        v, exc = self.reply()
        self.log.append((self.n, rest, v, exc))
        if exc is not None:
            raise exc
        return v


class Server:
    """What a loopback HTTP server has, by path."""

    def __init__(self):
        self.files = files = {}
        self.asked = asked = []

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                path = self.requestline.split()[1]  # self.path has leading slashes removed
                asked.append(path)
                body = files.get(path)
                self.send_response(404 if body is None else 200)
                self.send_header('Content-Type', 'application/json')
                self.send_header('Content-Length', str(len(body or b'')))
                self.end_headers()
                self.wfile.write(body or b'')

            def log_message(self, *a):
                pass
        self.s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
        self.url = f'http://127.0.0.1:{self.s.server_port}/'
        self.t = threading.Thread(target=self.s.serve_forever, daemon=True)
        self.t.start()

    def close(self):
        self.s.shutdown()
        self.s.server_close()


SCHEMES = ['http', 'https', 'x-y', 'tag']
HOSTS = ['h.example', 'h.example:80', 'h.example.org', 'h']
SEGS = ['a', 'b', 'ab', 'a.b', 'A', 'a%20b', 'a%2Fb', '~', 'a,b', 'json', 'a-b']
LEAVES = SEGS + ['x', 'y.json', 'x;1', 'a:b', 'x@y']


def base(r, stem, bad=False):
    t = stem + ''.join(r.choice(SEGS[:5]) + '/' for _ in range(r.choice([0, 0, 1, 1, 2, 3])))
    if bad:
        t = r.choice([t[:-1] if t.count('/') > 3 else stem[:-1], t + '#', t + '#/', t + 'x', t.split(':', 1)[1], t.replace('h', 'H', 1), t.upper(),
                      t + './', t + 'x/../', t + '%2f/', t + '#f/', stem.split('/')[0]])
    return t


def uri(r, bases, stem, bad=False):
    b = r.choice([x for x in bases] or [stem]) if r.random() < .8 else base(r, stem)
    t = b + r.choice(['', '', r.choice(SEGS) + '/', r.choice(SEGS) + '/' + r.choice(SEGS) + '/']) + r.choice(LEAVES + [''])
    if r.random() < .1 and not b.endswith(':80/'):
        t = b[:-1] + r.choice(['', 'x', '.json'])
    x = r.random()
    if x < .15:
        t += '?' + r.choice(['q', 'a=b/c', '', b, 'u=' + r.choice(bases or [stem]) + 'x'])
    elif x < .3:
        # the base again, or another one, within the remainder
        t += ('' if t.endswith('/') else '/') + r.choice([b, b, r.choice(bases or [stem]), b.split('/', 3)[-1]]) + r.choice(['', 'x', 'a/b'])
    if bad:
        t = r.choice([t + '#', t + '#/a', t.split(':', 1)[1], t.replace('h', 'H', 1), t + '/../x', t + '/./y', t + '%2f', t.split('/')[-1]])
    return t


def value(r):
    return gen.value(r, r.randint(0, 2))


def failure(r):
    return r.choice([ValueError('no'), KeyError('k'), OSError(2, 'No such file', 'f'), OSError(), CatalogError('c'), JSONSchemaError('s'), URIError('u'),
                     JSONPointerError('p'), json.JSONDecodeError('m', 'doc', 0), RecursionError('deep'), TypeError(), Odd(), UnicodeDecodeError('utf-8', b'x', 0, 1, 'r'),
                     NotImplementedError(), StopIteration(3), ZeroDivisionError('z'), JSONError('j'), AssertionError(), AttributeError('a'), LookupError(1, 2), MemoryError(), TimeoutError('t')])


class H:
    """A history over three catalogs."""

    def __init__(self):
        self.cats = [Catalog(f'vfsrc{k}') for k in range(3)]
        self.src, self.desc, self.ev, self.info, self.log = [], [], [], [], []

    def source(self, kind, s, **desc):
        self.src.append(s)
        self.desc.append(dict(kind=kind, **desc))
        return len(self.src)

    def rec(self, reply, suffix=None):
        return self.source('rec', Rec(len(self.src) + 1, self.log, reply, **({} if suffix is None else dict(suffix=suffix))))

    def register(self, c, b, s):
        out = attempt(lambda: self.cats[c].add_uri_source(None if b is None else URI(b), self.src[s - 1]))
        self.ev.append(dict(op='register', c=c + 1, base=[-1] if b is None else codes(b), s=s, out=out))
        self.info.append(dict(register=b, source=s, catalog=c))

    def load(self, c, t):
        self.log.clear()
        out = attempt(lambda: self.cats[c].load_json(URI(t)), enc=xval)
        asked = [dict(s=n, rest=codes(rest), reply=['value', xval(v)] if exc is None else ['raise', mro(exc)]) for n, rest, v, exc in self.log]
        self.ev.append(dict(op='load', c=c + 1, uri=codes(t), out=out, asked=asked))
        self.info.append(dict(load=t, catalog=c, asked=[x[:2] for x in self.log]))

    def history(self):
        return dict(src=self.desc or [dict(kind='none')], ev=self.ev, info=self.info)


def random_history(r):
    h = H()
    stems = [r.choice(SCHEMES) + r.choice(['://' + r.choice(HOSTS) + '/', '://' + r.choice(HOSTS) + '/', ':', ':/']) for _ in range(2)]
    stems.append(stems[0][:-1] + r.choice(['.net/', 'x/']) if '//' in stems[0] and ':80' not in stems[0] else stems[0] + 'x/')
    stems = [s if s.endswith('/') else s + 'p/' for s in stems]
    for _ in range(r.randint(2, 5)):
        h.rec(lambda: (value(r), None) if r.random() < .75 else (None, failure(r)), r.choice([None, '.json', '']))
    bases = []
    for _ in range(r.randint(10, 18)):
        c = r.choice([0, 0, 0, 1, 2])
        if r.random() < .45:
            x = r.random()
            bad = x > .8
            b = None if x < .12 else r.choice(bases) if x < .35 and bases else base(r, r.choice(stems), bad)
            if b is not None and not bad:
                bases.append(b)
            h.register(c, b, r.randint(1, len(h.src)))
        else:
            h.load(c, uri(r, bases, r.choice(stems), r.random() < .12))
    return h.history()


def tree(r, root):
    """Files under and beside a directory."""
    files = {}
    d = root / 'd'
    d.mkdir()
    for n in r.sample(['a', 'b', 'a.json', 'b.json', 'x/a.json', 'x/a', 'a%20b.json', 'a b.json', 'x?q.json', 'x?q', '.json', 'x/.json', 'a:b.json', 'x.json.json', 'http:/h/a.json',
                       'http:/h/a', 'a.txt', 'x/y/z.json', 'a,b', 'abs.json', 'A.json', 'a.json.txt'], 17):
        p = d / n
        if p.is_dir():
            continue
        p.parent.mkdir(parents=True, exist_ok=True)
        x = r.random()
        if x < .75:
            v = [n, value(r)]
            p.write_text(json.dumps(v, ensure_ascii=False), encoding='utf-8')
            files[n] = ['json', v]
        else:
            p.write_bytes(r.choice([b'', b'{', b'[1,]', b'NaN', b'[Infinity]', b'\xff"a"', b'1 2', b'{"a" 1}']))
            files[n] = ['bad']
    # not to be read from here
    for n in ['d.json', 'd', 'a.json', 'x.json', 'da.json', 'secret.json', 'secret']:
        p = root / n
        if not p.exists():
            p.write_text(json.dumps(['outside', n]))
    return d, files


def local_history(r):
    h = H()
    with tempfile.TemporaryDirectory(prefix='vf_c12_') as tmp:
        root = pathlib.Path(tmp).resolve()
        d, files = tree(r, root)
        fl = [[codes(n), [f[0], xval(f[1])] if f[0] == 'json' else f] for n, f in files.items()]
        sources = {}
        for suffix in r.sample([None, '', '.json', '.txt'], 3):
            bd = r.choice([d, str(d), str(d) + '/'])
            kw = {} if suffix is None else dict(suffix=suffix)
            sources[h.source('local', LocalSource(bd, **kw), files=fl, suffix=codes(suffix or ''))] = suffix or ''
        traps = ['/' + str(root / 'secret'), '/' + str(d / 'a'), '//' + str(root / 'secret')[1:], '/secret', '/a', '//a', str(root / 'secret')[1:]]
        where = {}
        for _ in range(r.randint(2, 4)):
            s = r.choice(list(sources))
            b = r.choice(['http://h/', 'http://h/x/', 'tag:q/', None, 'http://h/d/'])
            h.register(0, b, s)
            where[b] = sources[s]
        for _ in range(16):
            b = r.choice(list(where))
            if b is None:
                t = r.choice(['http://h/a', 'http://h/b', 'http://h/nope', 'tag:q/a', 'http://h/x/a', 'http://h/'])
            else:
                rest = r.choice([n[:-len(where[b])] if where[b] and n.endswith(where[b]) and r.random() < .8 else n for n in files] + traps + ['', 'nope', 'x/nope', 'a b'.replace(' ', '%20')])
                t = b + rest
            if ' ' in t or (t.endswith('/') and not all(where.values())):
                continue
            h.load(0, t)
    return h.history()


def remote_history(r, srv):
    h = H()
    prefix = r.choice(['', 'p/', 'p/q/'])
    files = {}
    srv.files.clear()
    for n in r.sample(['a', 'b', 'a.json', 'b.json', 'x/a.json', 'x/a', 'a%20b.json', 'x?q.json', 'x?q', '.json', 'x/.json', 'x/', '', 'a,b', 'A', '/a', '/x/b.json', '//z'], 14):
        v = ['', n, value(r)]
        if r.random() < .8:
            files[n] = ['json', v]
            body = json.dumps(v).encode()
        else:
            files[n] = ['bad']
            body = r.choice([b'', b'{', b'NaN', b'[Infinity]', b'1 2'])
        srv.files['/' + prefix + n] = body
    for n in ['/a', '/a.json', '/b', '/z', '/x/b.json'] if prefix else []:      # beside the base
        srv.files.setdefault(n, b'["outside"]')
    return h, prefix, files


def remote(r, srv):
    h, prefix, files = remote_history(r, srv)
    fl = [[codes(n), [f[0], xval(f[1])] if f[0] == 'json' else f] for n, f in files.items()]
    where = {}
    for suffix in r.sample([None, '', '.json'], 2):
        kw = {} if suffix is None else dict(suffix=suffix)
        n = h.source('remote', RemoteSource(URI(srv.url + prefix), **kw), files=fl, suffix=codes(suffix or ''))
        b = r.choice(['http://h/', 'tag:q/', 'http://h/x/', 'http://h/p/'])
        h.register(0, b, n)
        where[b] = suffix or ''
    for _ in range(10):
        b = r.choice(list(where))
        rest = r.choice([n[:-len(where[b])] if where[b] and n.endswith(where[b]) and r.random() < .8 else n for n in files] + ['nope', 'x/nope'])
        h.load(0, b + rest)
    # the default source gets complete URIs
    h.register(0, None, h.source('remote', RemoteSource(URI('http://127.0.0.1:9/none/')), files=[[codes(srv.url + prefix + n), f] for n, f in
                                 [(n, [f[0], xval(f[1])] if f[0] == 'json' else f) for n, f in files.items() if n and not n.startswith('/')]], suffix=[]))
    for n in r.sample([n for n in files if n and not n.startswith('/')], 3):
        h.load(0, srv.url + prefix + n)
    return h.history()


def replay(ctx):
    r = ctx.model('MC_Sources', 'MC_Sources.cfg')
    n = 0
    log = []
    for line in r.lines:
        if not line.startswith('VCASE '):
            continue
        x = json.loads(line[6:])
        n += 1
        cats = [Catalog(f'vfsrc{k}') for k in range(2)]
        for e in x['log']:
            out = attempt(lambda: cats[e['c'] - 1].add_uri_source(URI(''.join(map(chr, e['b']))) if e['b'] else None, Rec(e['s'], log, lambda: ([], None))))
            if (out[0] == 'ok') != e['ok'] or (out[0] == 'err' and 'CatalogError' not in out[1]):
                ctx.fail('replay-registration', log=x['log'], call=e, got=out)
        for q in x['loads']:
            t = ''.join(map(chr, q['u']))
            for c, ask in q['ask']:
                log.clear()
                out = attempt(lambda: cats[c - 1].load_json(URI(t)))
                got = [[s, codes(rest)] for s, rest, _, _ in log]
                if got != ([ask] if ask else []):
                    ctx.fail('replay-wrong-request', log=x['log'], catalog=c, uri=t, got=got, want=ask)
                elif (out[0] == 'ok') != bool(ask) or (out[0] == 'err' and 'CatalogError' not in out[1]):
                    ctx.fail('replay-wrong-outcome', log=x['log'], catalog=c, uri=t, got=out)
    ctx.traces += n
    ctx.notes['replayed_from_model'] = n


def run(ctx):
    r = random.Random(ctx.seed)
    replay(ctx)
    if not ctx.quick:
        ctx.model('MC_Sources', 'MC_SourcesDeep.cfg')
    hs = [random_history(r) for _ in range(ctx.scale(500, 12000))]
    hs += [local_history(r) for _ in range(ctx.scale(120, 2000))]
    srv = Server()
    try:
        hs += [remote(r, srv) for _ in range(ctx.scale(25, 300))]
        # a first segment with a colon looks like a scheme to the resolution of references
        srv.files.clear()
        srv.files['/a:b/c'] = b'["x"]'
        h = H()
        h.register(0, 'http://h/', h.source('remote', RemoteSource(URI(srv.url)), files=[[codes('a:b/c'), ['json', xval(['x'])]]], suffix=[]))
        h.load(0, 'http://h/a:b/c')
        hs.append(h.history())
    finally:
        srv.close()
    for k in range(3):
        getattr(Catalog, '_catalog_registry', {}).pop(f'vfsrc{k}', None)
    ctx.validate('SourceCheck', 'SourceCheck.cfg', [h for h in hs if h['ev']])
