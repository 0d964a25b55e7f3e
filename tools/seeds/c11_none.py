PROPERTY='C11'
NEEDS='a relative reference resolved against a base URI that has a query (and no path of its own)'
WHAT='the query of the base is dropped when resolving an empty or fragment-only reference'
EDITS=[('jschon/uri.py',"uri._uriref = self._uriref.resolve_with(base_uri._uriref)","uri._uriref = self._uriref.resolve_with(base_uri.copy(query=False)._uriref)")]
DEMO='''
from jschon import URI
assert str(URI("c").resolve(URI("http://a/b?q"))) == "http://a/c"
assert str(URI("#x").resolve(URI("http://a/b"))) == "http://a/b#x"
assert str(URI("#x").resolve(URI("http://a/b?q"))) == "http://a/b?q#x"
'''
