PROPERTY='C08'
NEEDS='a test operation comparing a boolean with the number 0 or 1 (possibly nested)'
WHAT='the test operation compares with Python equality, so true equals 1'
EDITS=[('jschon/jsonpatch.py',"if JSON(path.evaluate(document)) != JSON(value):","if path.evaluate(document) != value:")]
DEMO='''
from jschon import JSONPatch
from jschon.exc import JSONPatchError
assert JSONPatch({"op": "test", "path": "/a", "value": [True]}).evaluate({"a": [True]}) == {"a": [True]}
try:
    JSONPatch({"op": "test", "path": "/a", "value": [1]}).evaluate({"a": [True]})
except JSONPatchError:
    pass
else:
    raise SystemExit("test passed")
'''
