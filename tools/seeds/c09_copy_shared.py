PROPERTY='C09'
NEEDS='a copy operation to an object member that does not exist yet, of a container, then a change below either place (by a later operation or by the caller)'
WHAT='copy to a new member stores the very same container at both places'
EDITS=[('jschon/jsonpatch.py',"""        raise JSONPatchError(f'Cannot copy from nonexistent location {from_}') from e

    return add(document, path, value)""","""        raise JSONPatchError(f'Cannot copy from nonexistent location {from_}') from e

    target = Node(document, path)
    if target.type == NodeType.OBJECT_PROPERTY_NEW and not from_ <= path:
        target.parent[target.index] = value
    else:
        document = add(document, path, value)
    return document""")]
DEMO='''
from jschon import JSONPatch
p = JSONPatch({"op": "copy", "from": "/a", "path": "/b"})
r = p.evaluate({"a": [1]})
assert r == {"a": [1], "b": [1]}
r["a"].append(2)
assert r["b"] == [1], r
'''
