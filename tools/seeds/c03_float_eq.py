PROPERTY='C03'
NEEDS='two integers beyond 2**53 that round to the same double'
WHAT='numbers are compared as doubles, so distinct large integers are equal'
EDITS=[("jschon/json.py","            return self.data == other.data\n","            return (float(self.data) == float(other.data) if self.type == \"number\" and max(abs(self.data), abs(other.data)) < 1e300\n                    else self.data == other.data)\n")]
DEMO='''
from jschon import JSON
assert JSON(2**53 + 1) == JSON(2**53 + 1)
assert JSON(2**53 + 1) != JSON(2**53)
'''
