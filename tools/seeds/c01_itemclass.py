PROPERTY = 'C01'
NEEDS = 'a document whose root is of another class than its items, and an assignment to one of its places'
WHAT = 'A node assigned into a document is made of the class of its container instead of the item class.'
EDITS = [('jschon/json.py', """        self.data[index] = self.itemclass(
            obj.value""", """        self.data[index] = type(self)(
            obj.value""")]
DEMO = """
from jschon import JSON
class Item(JSON):
    def __init__(self, value, *, parent=None, key=None, itemclass=None, tag=None):
        super().__init__(value, parent=parent, key=key, itemclass=Item, tag=tag)
        self.label = tag
d = JSON({'a': 1, 'b': [1]}, itemclass=Item, tag='t')
assert type(d['a']) is Item and d['a'].label == 't'
d['a'] = 2
assert type(d['a']) is Item and d['a'].label == 't', type(d['a'])
d['b'][0] = [3]
assert type(d['b'][0][0]) is Item
"""
