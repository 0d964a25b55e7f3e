PROPERTY='C12'
NEEDS='a source that fails with an exception other than an I/O or value error'
WHAT='such failures of a source escape as they are, not as CatalogError'
EDITS=[('jschon/catalog/__init__.py',
  '            except Exception as e:\n                raise CatalogError(*e.args) from e',
  '            except (OSError, ValueError) as e:\n                raise CatalogError(*e.args) from e')]
DEMO='''
from jschon.catalog import Catalog, Source
from jschon.exc import CatalogError
from jschon import URI
class S(Source):
    def __call__(self, path):
        return {"a": 1}[path]
c = Catalog('d'); c.add_uri_source(URI('http://e.com/'), S())
assert c.load_json(URI('http://e.com/a')) == 1
try:
    c.load_json(URI('http://e.com/b')); assert False
except CatalogError:
    pass
'''
