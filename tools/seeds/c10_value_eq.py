PROPERTY='C10'
NEEDS='two operations whose values differ only by a boolean against 0 or 1'
WHAT='operations compare their values with Python equality'
EDITS=[('jschon/jsonpatch.py',"JSON(self.value) == JSON(other.value))","self.value == other.value)")]
DEMO='''
from jschon import JSONPatchOperation
a = JSONPatchOperation(op="add", path="/a", value={"x": [1]})
assert a == JSONPatchOperation(op="add", path="/a", value={"x": [1]})
assert a != JSONPatchOperation(op="add", path="/a", value={"x": [True]})
'''
