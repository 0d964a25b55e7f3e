PROPERTY='C11'
NEEDS='has_absolute_base() on an absolute URI without authority (urn:, tag:, file:/...)'
WHAT='only URIs with an authority count as having an absolute base'
EDITS=[('jschon/uri.py',"return self.copy(fragment=False).is_absolute()","return self.scheme is not None and self.authority is not None")]
DEMO='''
from jschon import URI
assert URI("http://a/b#x").has_absolute_base()
assert not URI("//a/b#x").has_absolute_base()
assert URI("urn:a:b#x").has_absolute_base()
'''
