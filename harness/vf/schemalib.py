"""Catalogs, construction, evaluation and recording of schemas for the schema-level drivers."""
import pathlib
import urllib.parse

import jschon.catalog
from jschon import JSON, JSONSchema, URI, create_catalog
from jschon.catalog import Catalog, LocalSource

from .core import VERIF, attempt, codes, jval

DIALS = ('2019-09', '2020-12', 'next')
META = {d: f'https://json-schema.org/draft/{d}/schema' for d in DIALS}

_real_add = Catalog.add_uri_source


def _add_uri_source(self, base_uri, source):
    """The metaschema documents are a git submodule that is empty here: use the copies under /verif/data."""
    try:
        d = pathlib.Path(source.base_dir)
        if d.name.startswith('json-schema-') and (VERIF / 'data' / d.name).is_dir() and not any(d.iterdir()):
            source.base_dir = VERIF / 'data' / d.name
    except (AttributeError, TypeError, OSError):
        pass
    return _real_add(self, base_uri, source)


Catalog.add_uri_source = _add_uri_source


def catalog(name='vf', *dialects):
    return create_catalog(*(dialects or DIALS), name=name)


# ---------------------------------------------------------------- encoding

def ident(s):
    return s


def enc(v):
    """A JSON value with strings as atoms."""
    return jval(v, ident)


def strings(v, out):
    if isinstance(v, str):
        out.add(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            strings(x, out)
    elif isinstance(v, dict):
        for k, x in v.items():
            out.add(k)
            strings(x, out)
    return out


def table(*values):
    out = set()
    for v in values:
        strings(v, out)
    return {s: codes(s) for s in sorted(out)}


def tokens(ptr):
    """Tokens of a JSON Pointer text, independently of the code under test."""
    if ptr == '':
        return []
    return [t.replace('~1', '/').replace('~0', '~') for t in ptr.split('/')[1:]]


def location(uri):
    """[base as code points, pointer tokens] of an absolute location with a JSON Pointer fragment."""
    if uri is None:
        return [[-1], []]
    base, _, frag = str(uri).partition('#')
    return [codes(base), tokens(urllib.parse.unquote(frag))]


class TooBig(Exception):
    """A result tree that is not worth recording."""


def size(node, limit=1000):
    """The number of nodes of a result tree; raises TooBig above the limit."""
    n, todo = 0, [node]
    while todo:
        n += 1
        if n > limit:
            raise TooBig
        todo += todo.pop().children.values()
    return n


def sized(node):
    size(node)
    return node


def dump(node, find=None, errors=False):
    """Record a result tree."""
    from jschon.jsonschema import JSONSchema
    a = node.annotation
    found = True
    if find is not None:
        sn = node.schema_node
        if isinstance(sn, JSONSchema):
            found = node.absolute_uri is not None and find(node.absolute_uri) is sn
        elif node.key in ('$ref', '$dynamicRef', '$recursiveRef'):
            # which schema it must be is for the specification to say
            found = node.absolute_uri is not None and isinstance(find(node.absolute_uri), JSONSchema)
    u = node.absolute_uri
    kids = [dump(c, find, errors) for c in node.children.values()]
    d = dict(k='' if node.key is None else node.key, p=tokens(str(node.path)), i=tokens(str(node.instance.path)), v=bool(node.valid),
             a=[] if a is None else [enc(a)], e=node.error is not None, u=location(u), found=found, c=kids)
    if errors:
        d['m'] = enc(node.error)
    d['silent'] = d['v'] and a is None and all(k['silent'] for k in kids)
    return d


def finder(cat, cacheid):
    def find(u):
        try:
            return cat.get_schema(URI(str(u)), cacheid=cacheid)
        except Exception as e:
            return e
    return find


def at(schema, path):
    """The subschema at a path of a schema."""
    n = schema
    for t in path:
        n = n.data[int(t) if n.type == 'array' else t]
    return n
