"""The archive format: for every loader name and protocol, the layouts dump wrote under that protocol.

This is the specification old archives follow; it does not change when the code does. Leaves:
  NODE      the state of a nested value (read through get_tree)
  LIST      a list of states          MAP   a mapping from names to states
  FILE      the name of an archive member
  STR/INT   a plain JSON value        constants stand for themselves
"""
NODE, LIST, MAP, FILEM, STR, INT = "NODE", "LIST", "MAP", "FILE", "STR", "INT"


class Const:
    def __init__(self, v):
        self.v = v


FIRST = 2       # protocol these layouts were recorded under; kinds below did not change since protocol 0

LAYOUTS = {
    "DictNode": [{"content": MAP, "key_types": NODE}],
    "DefaultDictNode": [{"content": {"main": NODE, "default_factory": NODE}}],
    "ListNode": [{"content": LIST}],
    "SetNode": [{"content": LIST}],
    "TupleNode": [{"content": LIST}],
    "BytesNode": [{"file": FILEM}],
    "BytearrayNode": [{"file": FILEM}],
    "SliceNode": [{"content": {"start": INT, "stop": INT, "step": INT}}],
    "FunctionNode": [{}],
    "TypeNode": [{}],
    "MethodNode": [{"content": {"func": STR, "obj": NODE}}],
    "PartialNode": [{"content": {"func": NODE, "args": NODE, "kwds": NODE, "namespace": NODE}}],
    "OperatorFuncNode": [{"attrs": NODE}],
    "ConstructorFromReduceNode": [{"content": NODE}],
    "ObjectNode": [{"content": NODE}, {}],
    "JsonNode": [{"content": STR, "is_json": Const(True)}],
    "NdArrayNode": [{"type": Const("numpy"), "file": FILEM}, {"type": Const("json"), "content": LIST, "shape": NODE}],
    "MaskedArrayNode": [{"content": {"data": NODE, "mask": NODE}}],
    "DTypeNode": [{"content": NODE}],
    "RandomStateNode": [{"content": NODE}],
    "RandomGeneratorNode": [{"content": {"bit_generator": NODE, "seed_seq": NODE}}],
    "SparseMatrixNode": [{"type": Const("scipy"), "file": FILEM}],
    "TreeNode": [{"__reduce__": {"args": NODE}, "content": NODE}],
    "LossNode": [{"__reduce__": {"args": NODE}, "content": NODE}],
    "QuantileForestNode": [{"__reduce__": {"args": NODE}, "content": NODE}],
    "_DictWithDeprecatedKeysNode": [{"content": {"main": NODE, "_deprecated_key_to_new_key": NODE}}],
}

# layouts that differ under an older protocol
OLD = {
    ("FunctionNode", 0): [{"content": {"module_path": STR, "function": STR}}],
    ("RandomGeneratorNode", 0): [{"content": {"bit_generator": {"bit_generator": Const("PCG64"),
                                                                "state": {"state": INT, "inc": INT}}}}],
    ("RandomGeneratorNode", 1): [{"content": {"bit_generator": NODE}}],
}

# node kinds whose class and module do not say what is built
CLASSLESS = {"JsonNode", "SliceNode", "NdArrayNode", "MaskedArrayNode", "DTypeNode", "PartialNode", "MethodNode", "TreeNode",
             "LossNode", "QuantileForestNode", "SparseMatrixNode", "BytesNode", "BytearrayNode", "RandomStateNode",
             "OperatorFuncNode", "_DictWithDeprecatedKeysNode", "DefaultDictNode"}


def layouts(kind, p):
    """layouts archives of protocol p have for this kind"""
    if (kind, p) in OLD:
        return OLD[(kind, p)]
    older = [q for k, q in OLD if k == kind]
    if older and p < min(older):
        return []
    return LAYOUTS.get(kind, []) if p <= FIRST else []
