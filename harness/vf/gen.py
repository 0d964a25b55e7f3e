"""Seeded generators of inputs shared by the drivers."""
import itertools
import random

# characters that matter to pointers, JSON text, URIs and regular expressions, then ordinary ones
SPECIAL = list('~/01-+ "\\%#?:@!$&\'()*,;=[]{}.^|_`<>\t\n\x00\x7f') + ['é', 'ß', '²', '٣', '١', '\u2028', '中', '\uffff', '\ue000', '😀', '𝟙', '\U0010ffff']
PLAIN = list('abcxyzABZ29')


def text(r, lo=0, hi=5, alpha=None):
    alpha = alpha or (SPECIAL if r.random() < .5 else PLAIN)
    return ''.join(r.choice(alpha) for _ in range(r.randint(lo, hi)))


KEYS = ['', 'a', 'b', '0', '1', '01', '-', '-1', '~', '/', '~1', '~0', 'a/b', 'm~n', '~01', '#', '%25', ' ', 'é', '😀', '٣', '+1', '1_0', '1e0', 'foo', 'bar']


def key(r):
    x = r.random()
    if x < .6:
        return r.choice(KEYS)
    if x < .75:
        return str(r.randint(0, 12))
    return text(r)


NUMS = [0, 1, -1, 2, 3, 10, 100, -7, 1.0, 0.0, -0.0, 0.5, -1.5, 2.0, 1e2, 1e-3, 2**31, 2**53, 2**53 + 1, float(2**53), 10**20, 1e20, -10**20, 0.1, 3.14]
NUMS_X = NUMS + [10**400, 1.7e308, int(1.7e308), 5e-324, 2.2250738585072014e-308, 1e22, 1e23, 10**23, 1e16, 123456789012345678901234567890, 0.30000000000000004, 1/3, 2**63, float(2**63), 2**64 - 1, 1.5e300, -1e-7]


def scalar(r, nums=NUMS):
    x = r.random()
    if x < .12:
        return None
    if x < .3:
        return r.random() < .5
    if x < .65:
        return r.choice(nums)
    if x < .85:
        return r.choice(KEYS)
    return text(r)


def value(r, depth=3, width=3, nums=NUMS):
    x = r.random()
    if depth == 0 or x < .3:
        return scalar(r, nums)
    if x < .65:
        return [value(r, depth - 1, width, nums) for _ in range(r.randint(0, width))]
    return {key(r): value(r, depth - 1, width, nums) for _ in range(r.randint(0, width))}


def container(r, depth=3, width=3, nums=NUMS):
    while True:
        v = value(r, depth, width, nums)
        if isinstance(v, (list, dict)) and v:
            return v


def locations(v, pre=()):
    """All (path, value) of a plain value; path elements are strings."""
    yield pre, v
    if isinstance(v, list):
        for i, x in enumerate(v):
            yield from locations(x, pre + (str(i),))
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from locations(x, pre + (k,))


def words(alpha, n):
    """All strings over alpha up to length n."""
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


INDEXISH = ['0', '1', '2', '3', '00', '01', '-', '-0', '-1', '+1', ' 1', '1 ', '1_0', '0_1', '1.0', '1e0', '0x1', '٣', '²', '१', '', '\n0', '0\n', '1\n', '10', '99', '4294967296', '9' * 30, '1' * 5000, 'a']


def misspelt(i, n=None):
    """Strings that Python's int() or sloppy grammars read as the index i, none of which RFC 6901 allows."""
    t = str(i)
    out = ['0' + t, '+' + t, ' ' + t, t + ' ', t + '\n', '\n' + t, t + '\u2003', t + '.0', t + 'e0', '0x' + t, '-' + t if i == 0 else t + '-', '00' + t]
    if len(t) > 1:
        out += [t[0] + '_' + t[1:], t[:-1] + '_' + t[-1], t[0] + ' ' + t[1:]]
    for zero in (0x660, 0x966, 0xff10, 0x1d7ce, 0x1d7d8):
        for k in range(len(t)):
            out.append(t[:k] + chr(zero + int(t[k])) + t[k + 1:])
        out.append(''.join(chr(zero + int(c)) for c in t))
    out += ['²' + t[1:], t[:-1] + '²', t[0] + '①' + t[2:]]
    if n is not None:
        out.append(str(i - n))
    return sorted(set(out))


def index_cases(sizes=(1, 3, 13)):
    """(document, path) for every misspelt index of small arrays."""
    for n in sizes:
        v = {'a': list(range(n)), 'b': [[]]}
        for i in sorted({0, 1, n // 2, n - 1, n, min(n, 10)}):
            for t in misspelt(i, n):
                yield v, ['a', t]
    for t in misspelt(0, 1):
        yield {'a': [[0], 1]}, ['a', t, '0']
        yield {'a': [[0], 1]}, ['a', t, '-']


def pointer_for(r, v):
    """Keys of a pointer that mostly makes sense for v."""
    locs = list(locations(v))
    p = list(r.choice(locs)[0])
    x = r.random()
    if x < .45:
        return p
    if x < .7:
        return p + [r.choice(INDEXISH)]
    if x < .75 and p and p[-1].isascii() and p[-1].isdigit():
        return p[:-1] + [r.choice(misspelt(int(p[-1][:6])))]
    if x < .8:
        return p + [key(r)]
    if x < .9 and p:
        p[r.randrange(len(p))] = r.choice(INDEXISH)
        return p
    return p + [key(r), r.choice(INDEXISH)]


def copy(v):
    if isinstance(v, list):
        return [copy(x) for x in v]
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    return v


def group(evs, infos=None, n=40):
    """Pack independent events into histories of n."""
    out = []
    for i in range(0, len(evs), n):
        out.append(dict(ev=evs[i:i + n], info=infos[i:i + n] if infos else None))
    return out
