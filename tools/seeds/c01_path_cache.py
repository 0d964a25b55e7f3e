PROPERTY='C01'
NEEDS='the path of a node below an array item is read while the path of the item itself never was, then an earlier array item is deleted or one is inserted before it'
WHAT='cached paths below an item whose own path is not cached survive the renumbering of the item'
EDITS=[('jschon/json.py',"""        try:
            del self.path
        except AttributeError:
            pass
        if self.type == 'array':""","""        try:
            del self.path
        except AttributeError:
            return
        if self.type == 'array':""")]
DEMO='''
from jschon import JSON
d = JSON([0, {"a": {"b": 1}}])
n = d[1]["a"]["b"]
assert str(n.path) == "/1/a/b"
del d[0]
assert str(n.path) == "/0/a/b", n.path
assert n.path.evaluate(d) is n
'''
