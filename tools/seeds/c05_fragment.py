PROPERTY='C05'
NEEDS='a key containing a percent sign followed by two hexadecimal digits'
WHAT='percent signs are left unencoded in the URI fragment form, which then decodes to another pointer'
EDITS=[('jschon/jsonpointer.py','''safe="/!$&'()*+,;=")''','''safe="/!$&'()*+,;=%")''')]
DEMO='''
from jschon import JSONPointer
for k in ("a%b", "%41", "100%25", "a/b~"):
    p = JSONPointer([k])
    assert JSONPointer.parse_uri_fragment(p.uri_fragment()) == p, k
'''
