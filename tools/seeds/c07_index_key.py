PROPERTY='C07'
NEEDS='"#" evaluated at a member of an object whose name is all digits'
WHAT='the name of an object member that looks like a number is returned as an integer'
EDITS=[('jschon/jsonpointer.py','return int(node.key) if node.parent.type == "array" else node.key','return int(node.key) if node.key.isdigit() else node.key')]
DEMO='''
from jschon import JSON, RelativeJSONPointer
d = JSON({"12": [5], "a": 1})
assert RelativeJSONPointer("0#").evaluate(d["12"][0]) == 0
assert RelativeJSONPointer("0#").evaluate(d["a"]) == "a"
assert RelativeJSONPointer("0#").evaluate(d["12"]) == "12"
'''
