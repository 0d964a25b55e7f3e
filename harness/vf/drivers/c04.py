"""C04: reading and writing JSON text.  run.py starts this check under a locale whose encoding is not UTF-8."""
import http.server
import math
import random
import threading

from jschon import JSON

from .. import gen
from ..core import attempt, codes, num
from . import c01

ASSUMPTIONS = ['strings written to files contain no lone surrogates', 'integers have fewer than 4300 digits (a limit of the Python runtime)',
               'the value of an object text with duplicate names is not judged, only its acceptance']

MAX = 1.7976931348623157e308


def dbl(x):
    m = abs(x)
    hi = math.nextafter(m, math.inf)
    return dict(x=num(x, True), lo=num(math.nextafter(m, 0), True), hi=num(2 ** 1024) if math.isinf(hi) else num(hi, True),
                even=m == 0 or int(m.hex().split('p')[0][-1], 16) % 2 == 0)


def fval(v):
    """Plain value to the specification, doubles with their neighbours."""
    if isinstance(v, bool):
        return ['b', v]
    if v is None:
        return ['z']
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            return ['x', repr(v)]
        return ['f', dbl(v)]
    if isinstance(v, str):
        return ['s', codes(v)]
    if isinstance(v, (list, tuple)):
        return ['a', [fval(x) for x in v]]
    if isinstance(v, dict):
        return ['o', [codes(k) for k in v], [fval(x) for x in v.values()]]
    return ['x', type(v).__name__]


class Server:
    """Serves one document at a time on the loopback interface."""

    def __enter__(self):
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                self.send_response(200)
                self.send_header('Content-Type', 'application/json')
                self.send_header('Content-Length', str(len(outer.body)))
                self.end_headers()
                self.wfile.write(outer.body)

            def log_message(self, *a):
                pass
        self.s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
        self.url = f'http://127.0.0.1:{self.s.server_address[1]}/x.json'
        threading.Thread(target=self.s.serve_forever, daemon=True).start()
        return self

    def __exit__(self, *a):
        self.s.shutdown()
        self.s.server_close()


def surrogate(s):
    return any('\ud800' <= c <= '\udfff' for c in s)


def read(t, ctx, srv, files, remote):
    outs = [attempt(lambda: JSON.loads(t), enc=lambda d: fval(c01.plain(d)))]
    if files and not surrogate(t):
        p = ctx.tmp / 'in.json'
        p.write_bytes(t.encode('utf-8'))
        outs.append(attempt(lambda: JSON.loadf(p if len(t) % 2 else str(p)), enc=lambda d: fval(c01.plain(d))))
        if remote and srv and t:
            srv.body = t.encode('utf-8')
            outs.append(attempt(lambda: JSON.loadr(srv.url), enc=lambda d: fval(c01.plain(d))))
    return dict(op='read', text=codes(t), outs=outs)


def read_bytes(b, ctx):
    p = ctx.tmp / 'in.json'
    p.write_bytes(b)
    return dict(op='bytes', bytes=list(b), out=attempt(lambda: JSON.loadf(p), enc=lambda d: fval(c01.plain(d))))


UTF8 = [b'\xc3\xa9', b'\xc0\x80', b'\xc1\xbf', b'\xc2\x80', b'\xdf\xbf', b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xe0\xa0\x80', b'\xed\x9f\xbf', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xee\x80\x80', b'\xef\xbf\xbf', b'\xef\xbb\xbf',
        b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf', b'\xf0\x90\x80\x80', b'\xf4\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\x80', b'\xbf\xbf', b'\xfe', b'\xff', b'\xff\xfe', b'\xed\xa0\xbd\xed\xb8\x80']


def nonfinite(v):
    if isinstance(v, float):
        return math.isnan(v) or math.isinf(v)
    if isinstance(v, (list, tuple)):
        return any(map(nonfinite, v))
    if isinstance(v, dict):
        return any(map(nonfinite, v.values()))
    return False


def surrogates(v):
    if isinstance(v, str):
        return surrogate(v)
    if isinstance(v, list):
        return any(map(surrogates, v))
    if isinstance(v, dict):
        return any(map(surrogate, v)) or any(map(surrogates, v.values()))
    return False


def write(J, ctx):
    v = c01.plain(J)
    nf = nonfinite(v)
    texts = [attempt(J.dumps, enc=codes), attempt(lambda: str(J), enc=codes)]
    dec = lambda s: dict(v=fval(c01.plain(s)), eq=bool(s == J) and bool(J == s))
    backs = [attempt(lambda: JSON.loads(J.dumps()), enc=dec)]
    if nf or not surrogates(v):
        p = ctx.tmp / 'out.json'
        p.write_bytes(b'x' * 50)

        def tofile():
            J.dumpf(p)
            return p.read_bytes().decode('utf-8')
        texts.append(attempt(tofile, enc=codes))
        if not nf:
            backs.append(attempt(lambda: JSON.loadf(p), enc=dec))
    return dict(op='write', v=['x', 'nonfinite'] if nf else fval(v), texts=texts, nonfinite=nf,
                value=['x', 'nonfinite'] if nf else fval(J.value), strsame=texts[0] == texts[1], backs=backs)


NUMBERS = ['0', '-0', '1', '-1', '00', '01', '-01', '+1', '.5', '1.', '1.0', '-1.50', '1e5', '1E5', '1e+5', '1e-5', '1e', '1e+', '1.e5', '1e05', '0e0', '0.0e-0',
           '9007199254740993', '9007199254740993.0', '9007199254740992.5', '9007199254740993e0', '0.1', '0.30000000000000004', '1e22', '1e23', '100000000000000000000000',
           '1e308', '1.7976931348623157e308', '1.7976931348623158e308', '1.7976931348623159e308', '1e309', '-1e309', '1e400', '-1e400', '123456e99999', '0e99999', '0.0e999999999999',
           '5e-324', '4e-324', '3e-324', '2.5e-324', '2.4703282292062327e-324', '2e-324', '1e-400', '-1e-400', '1e-99999', '2.2250738585072014e-308', '2.2250738585072011e-308',
           '1' * 400, '-' + '9' * 310, '1' * 310 + '.5', '0.' + '3' * 60, '17976931348623157' + '0' * 292 + '.0', '17976931348623159' + '0' * 292 + '.0', '17976931348623159' + '0' * 292,
           '1_0', '0x10', 'Infinity', '-Infinity', 'NaN', '-NaN', 'nan', 'inf', '1f', '1.0.0', '1e1.0', '--1', '- 1', '1 .0', '٣', '1٣', '１', '1e٣', '-', 'e5', '1-', '1+1']
STRINGS = ['""', '"a"', '"', '"\\"', '"\\""', '"\\\\"', '"\\/"', '"\\b\\f\\n\\r\\t"', '"\\u0041"', '"\\u00e9"', '"\\u00E9"', '"\\ud83d\\ude00"', '"\\uD83D\\uDE00"', '"\\ud83d"', '"\\ude00"',
           '"\\ud83d\\u0041"', '"\\ude00\\ud83d"', '"\\ud83dx"', '"\\ud83d\\n"', '"\\u12"', '"\\u12g4"', '"\\u 123"', '"\\u+123"', '"\\u0x12"', '"\\u٣٣٣٣"', '"\\a"', '"\\x41"', '"\\\'"', "'a'", '"\\U0041"',
           '"\n"', '"\t"', '"\x00"', '"\x1f"', '"\x7f"', '"\x80"', '"\u2028"', '"\u2029"', '"é"', '"😀"', '"\uffff"', '"\U0010ffff"', '"\ufeff"', '"\\u0000"', '"\\u0022"', '"\\u005c"', '"\\', '"\\u', '"a" "b"', '"\\0"']
STRUCT = ['', ' ', '[]', '{}', '[ ]', '{ }', '[1,]', '[,1]', '[,]', '[1 2]', '[1,,2]', '{"a":1,}', '{,}', '{"a"}', '{"a":}', '{a:1}', "{'a':1}", '{1:2}', '{"a" 1}', '{"a":1 "b":2}', '{"a":1,"a":2}', '{"a":1,"b":{"a":1}}',
          '[1]]', '[[1]', '{"a":[}', '[{]}', '1 2', 'null', 'Null', 'NULL', 'nul', 'nulll', 'true', 'True', 'tru', 'false', 'False', 'undefined', 'None', 'nullnull', 'null,', '[null', '/**/1', '1//', '#1', '[1]#', '\ufeff1', '\xa01', '1\xa0',
          '\x0b1', '\x0c1', '1\x0c', '\u20281', '\n\r\t 1\n\r\t ', '[\n1\r,\t2 ]', '[\x0b]', '[\x0c1]', '{"a"\x0c:1}', '\x00', '1\x00', '[1,\x002]', '{"":0}', '{"a":NaN}', '[Infinity]', '[-Infinity]', '[1e400]', '{"a":[-1e999]}', '[NaN]', '{"a":nan}',
          '[' * 60 + ']' * 60, '[' * 60 + ']' * 59, '{"a":' * 40 + '1' + '}' * 40]

CHUNKS = ['[', ']', '{', '}', ',', ':', '"a"', '""', '"\\u0031"', '"é"', '1', '-1.5', '0', '1e2', 'null', 'true', 'false', ' ', '\n', '\t', '"', '\\', 'e', '.', '-', '+', '\x0c', '\xa0', 'NaN']


def mutate_text(r, t):
    i = r.randint(0, len(t))
    x = r.random()
    if x < .35:
        return t[:i] + r.choice(CHUNKS) + t[i:]
    if x < .65:
        j = min(len(t), i + r.randint(1, 3))
        return t[:i] + t[j:]
    if x < .85:
        return t[:i] + r.choice(CHUNKS) + t[i + 1:]
    return t[:i] + t[i:i + 2] + t[i:]


def spread(r, v):
    """A text for v by our own writer: random white space, escapes and number spellings."""
    ws = lambda: ''.join(r.choice(' \n\r\t') for _ in range(r.choice([0, 0, 0, 1, 2])))

    def s(x):
        out = ''
        for c in x:
            o = ord(c)
            if c in '"\\' or o < 32:
                out += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t'}.get(c) if c in '"\\\n\t' and r.random() < .7 else f'\\u{o:04x}'
            elif r.random() < .2:
                u = c.encode('utf-16-be', 'surrogatepass')
                out += ''.join((f'\\u{u[k] * 256 + u[k + 1]:04x}' if r.random() < .5 else f'\\u{u[k] * 256 + u[k + 1]:04X}') for k in range(0, len(u), 2))
            elif c == '/' and r.random() < .5:
                out += '\\/'
            else:
                out += c
        return '"' + out + '"'

    def n(x):
        if isinstance(x, float):
            t = repr(x)
            return r.choice([t, t.upper(), f'{x:.20e}', f'{x:.3f}'])
        return r.choice([str(x), str(x), f'{x}.0', f'{x}e0', f'{x}E+00'])

    def w(x):
        if x is None or isinstance(x, bool):
            b = {None: 'null', True: 'true', False: 'false'}[x]
        elif isinstance(x, (int, float)):
            b = n(x)
        elif isinstance(x, str):
            b = s(x)
        elif isinstance(x, list):
            b = '[' + (','.join(map(w, x)) if x else ws()) + ']'
        else:
            b = '{' + (','.join(ws() + s(k) + ws() + ':' + w(y) for k, y in x.items()) if x else ws()) + '}'
        return ws() + b + ws()
    return w(v)


NONFINITE = [float('nan'), float('inf'), -float('inf'), [float('nan')], {'a': [1, float('inf')]}, {'a': {'b': -float('inf')}}]


def run(ctx):
    r = random.Random(ctx.seed)
    ctx.model('MC_JsonText', 'MC_JsonText.cfg' if ctx.quick else 'MC_JsonTextDeep.cfg')
    evs, info = [], []

    def add(e, i):
        evs.append(e)
        info.append(i)
    with Server() as srv:
        def rd(t, files=None, remote=None):
            add(read(t, ctx, srv, r.random() < .2 if files is None else files, r.random() < .2 if remote is None else remote), dict(text=t))
        for t in NUMBERS + STRINGS + STRUCT:
            rd(t, True, True)
            rd(f'[{t}]', True, False)
            rd(f'{{"k":{t}}}')
            rd(f' {t}\n')
        for alpha, n in (('[],1 ', 5), ('{}":,1', ctx.scale(5, 6)), ('01-+.eE', ctx.scale(4, 5)), ('"\\un/0a', ctx.scale(4, 5)), ('0٣.e１', 3)):
            for t in gen.words(alpha, n):
                rd(t, False)
        for u in UTF8 + [bytes([c]) for c in range(128, 256)] + [bytes(r.choice([r.randrange(128, 256), r.randrange(256)]) for _ in range(r.randint(1, 4))) for _ in range(ctx.scale(400, 6000))]:
            for pre, post in ((b'"', b'"'), (b'["a', b'b"]'), (b'{"', b'":1}')) if u in UTF8 else ((b'"', b'"'),):
                add(read_bytes(pre + u + post, ctx), dict(bytes=repr(pre + u + post)))
        for u in UTF8[:4] + [b'\x80', b'\xff']:
            for b in (u + b'1', b'1' + u, u, b'[' + u + b']'):
                add(read_bytes(b, ctx), dict(bytes=repr(b)))
        for enc_ in ('utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-32-le', 'latin-1', 'utf-8-sig', 'utf-7'):
            for t in ('"é"', '1', '[]', '{"a": "é"}'):
                add(read_bytes(t.encode(enc_), ctx), dict(bytes=t, encoding=enc_))
        for t in gen.words('0123aAfFgG', 2):
            rd(f'"\\u00{t}"', False)
        for c in range(0x20 if ctx.quick else 0x100):
            rd(f'"{chr(c)}"')
            rd(f'{chr(c)}1')
            rd(f'[1{chr(c)},2]')
            rd(f'"\\{chr(c)}"')
        for _ in range(ctx.scale(1500, 20000)):
            v = gen.value(r, r.randint(0, 3), 3, gen.NUMS_X if r.random() < .3 else gen.NUMS)
            t = spread(r, v)
            rd(t)
            for _ in range(2):
                t = mutate_text(r, t)
            rd(t)
        for _ in range(ctx.scale(600, 8000)):
            # decimal numbers near the midpoint of two doubles, and random ones
            x = r.choice([1.0, 1e-10, 1e15, 1e300, 2.0 ** 52, 2.0 ** -1060]) * (1 + r.random())
            y = math.nextafter(x, math.inf)
            from decimal import Decimal, localcontext
            with localcontext() as c:
                c.prec = 1200
                m = (Decimal(x) + Decimal(y)) / 2
                t = r.choice([m, m + Decimal(10) ** -1100, m - Decimal(10) ** -1100, Decimal(x), Decimal(repr(x))]) if 1e-3 < x < 1e20 or r.random() < .1 else Decimal(repr(x)) * 3
            rd(str(t).replace('E+', r.choice(['E+', 'e', 'e+0'])), False)
    for _ in range(ctx.scale(700, 9000)):
        v = gen.value(r, r.randint(0, 4), 3, gen.NUMS_X if r.random() < .3 else gen.NUMS)
        J = JSON(v)
        add(write(J, ctx), dict(document=repr(v)[:500]))
        if J.type in ('array', 'object') and r.random() < .6:
            for _ in range(r.randint(1, 4)):
                scramble(r, J)
                if r.random() < .3:
                    J.value
            add(write(J, ctx), dict(document=repr(v)[:500], then='changed in place'))
    for c in list(range(0, 0x300, 1 if not ctx.quick else 7)) + list(range(0x20)) + [0x7f, 0x2028, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff]:
        s = chr(c)
        add(write(JSON([s, 'a' + s + 'b', {s: s}]), ctx), dict(code=c))
    for v in gen.NUMS_X + [-x for x in gen.NUMS_X] + [r.uniform(-1, 1) * 10.0 ** r.randint(-300, 300) for _ in range(ctx.scale(100, 2000))]:
        add(write(JSON(v), ctx), dict(number=repr(v)))
        add(write(JSON({'a': [v]}), ctx), dict(number=repr(v)))
    for v in NONFINITE:
        add(write(JSON(v), ctx), dict(document=repr(v)))
    hs = gen.group(evs, info, 40)
    for h in hs:
        h.update(max=num(MAX, True), top=num(2 ** 1024))
    ctx.validate('JsonTextCheck', 'JsonTextCheck.cfg', hs)


def scramble(r, J):
    """One change in place, anywhere below J."""
    node = J
    while len(node) and r.random() < .5:
        k = r.choice(list(range(len(node.data))) if node.type == 'array' else list(node.data))
        if node.data[k].type not in ('array', 'object'):
            break
        node = node.data[k]
    v = gen.value(r, 1)
    if node.type == 'array':
        x = r.random()
        if len(node) and x < .3:
            node[r.randrange(len(node))] = v
        elif len(node) and x < .5:
            del node[r.randrange(len(node))]
        else:
            node.insert(r.randint(0, len(node)), v)
    else:
        if len(node) and r.random() < .3:
            del node[r.choice(list(node.data))]
        else:
            node[gen.key(r)] = v
