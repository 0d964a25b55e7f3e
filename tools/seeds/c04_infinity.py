PROPERTY='C04'
NEEDS='loading text that contains the token Infinity or -Infinity'
WHAT='only NaN is refused when loading, infinities come in'
EDITS=[('jschon/utils.py','    raise ValueError(f"{c} is not a valid JSON value")','    if float(c) != float(c):\n        raise ValueError(f"{c} is not a valid JSON value")\n    return float(c)')]
DEMO='''
from jschon import JSON
assert JSON.loads("[1.5]").value == [1.5]
for t in ("NaN", "[-Infinity]"):
    try:
        JSON.loads(t)
    except ValueError:
        pass
    else:
        raise SystemExit(t)
'''
