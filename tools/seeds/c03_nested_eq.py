PROPERTY = 'C03'
NEEDS = 'arrays nested at least two deep that differ only by a boolean in place of 0 or 1'
WHAT = 'Array equality compares the plain values of the items, so that [[1]] equals [[true]].'
EDITS = [('jschon/json.py', '                return len(self) == len(other) and \\\n                       all(item == other[i] for i, item in enumerate(self))', '                return len(self) == len(other) and \\\n                       all(item.type == other[i].type and item.value == other[i].value for i, item in enumerate(self))')]
DEMO = "\nfrom jschon import JSON\nassert not JSON([[1]]) == JSON([[True]])\nassert JSON([[1]]) != [[True]]\nassert JSON([{'a': 0}]) != JSON([{'a': False}])\nassert JSON([[1]]) == JSON([[1.0]])\n"
