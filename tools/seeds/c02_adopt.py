PROPERTY='C02'
NEEDS='a JSON document (not a plain value) is added into an array, and afterwards changed through the original reference, or added twice'
WHAT='JSON.add into an array adopts the given JSON node instead of copying it'
EDITS=[('jschon/json.py',"""        self.data.insert(index, self.itemclass(
            obj.value if isinstance(obj, JSON) else obj,
            parent=self,
            key=str(index),
            **self.itemkwargs,
        ))
        self._invalidate_value()""","""        if isinstance(obj, self.itemclass) and obj.parent is None:
            obj.parent, obj.key = self, str(index)
            obj._invalidate_path()
            self.data.insert(index, obj)
        else:
            self.data.insert(index, self.itemclass(
                obj.value if isinstance(obj, JSON) else obj,
                parent=self,
                key=str(index),
                **self.itemkwargs,
            ))
        self._invalidate_value()""")]
DEMO='''
from jschon import JSON
d, v = JSON([0]), JSON([1])
d.add("/-", v)
v.append(2)
assert d.value == [0, [1]], d.value
assert v.parent is None
'''
