PROPERTY='C06'
NEEDS='an array index token that has a non-ASCII decimal digit after its first digit, into an array of more than 10 items'
WHAT='array indices with non-ASCII digits are accepted'
EDITS=[('jschon/jsonpointer.py',"""JSON_INDEX_RE = '0|([1-9][0-9]*)'""",r"""JSON_INDEX_RE = r'0|([1-9]\d*)'""")]
DEMO='''
from jschon import JSON, JSONPointer
from jschon.exc import JSONPointerReferenceError
for doc in (list(range(20)), JSON(list(range(20)))):
    assert JSONPointer("/13").evaluate(doc) == 13
    try:
        JSONPointer("/1\\u0663").evaluate(doc)
    except JSONPointerReferenceError:
        pass
    else:
        raise SystemExit("accepted a non-ASCII index")
'''
