PROPERTY='C12'
NEEDS='a URI whose remainder contains the base again'
WHAT='the base is cut out of the URI wherever it occurs'
EDITS=[('jschon/catalog/__init__.py', 'relative_path = uristr[len(prefix):]', "relative_path = uristr.replace(prefix, '') if prefix else uristr")]
DEMO='''
from jschon.catalog import Catalog, Source
from jschon import URI
class S(Source):
    def __call__(self, path):
        return path
c = Catalog('d'); c.add_uri_source(URI('x:/'), S())
assert c.load_json(URI('x:/a')) == 'a'
assert c.load_json(URI('x:/ax:/b')) == 'ax:/b'
'''
