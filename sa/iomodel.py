"""skops.io specific layer on top of the abstract interpreter."""
from __future__ import annotations

from .engine import AnalysisBroken, Interp
from .terms import (FALSE, NONE, T, TRUE, UNBOUND, And, Not, Or, const, contains,
                    cval, is_const, is_str, ite, lits_of, mk, show, show_guard,
                    subst, subterms)

STATE = mk("sym", "state")
LC = mk("sym", "lc")
TRUSTED = mk("sym", "trusted")
SC = mk("sym", "save_context")
OBJ = mk("sym", "obj")

P = "skops.io._persist"
A = "skops.io._audit"
U = "skops.io._utils"


class IO:
    """one interpreter loaded with skops.io, boundaries set at get_tree/get_state"""

    def __init__(self, root="/repo", overlay=None, boundaries=True):
        self.I = Interp(root, overlay=overlay)
        I = self.I
        I.intercepts[U + ".get_module"] = self.h_get_module
        I.load_module(P)
        self.node_base = I.get_global(A, "Node")
        self.mapping = I.get_global(A, "NODE_TYPE_MAPPING")
        if self.node_base.op != "cls" or self.mapping.op != "ref":
            raise AnalysisBroken("Node / NODE_TYPE_MAPPING not found in skops.io._audit")
        self.lc_cls = I.get_global(U, "LoadContext")
        self.sc_cls = I.get_global(U, "SaveContext")
        self.protocol = I.get_global("skops.io._protocol", "PROTOCOL")
        if not (is_const(self.protocol) and isinstance(cval(self.protocol), int)):
            raise AnalysisBroken("PROTOCOL is not a constant")
        I.typeof_hook = self.typeof
        I.inst_type_hook = lambda t: self.node_base if t.op == "node" else None
        if boundaries:
            self.set_boundaries()

    def typeof(self, t):
        if t is LC:
            return self.lc_cls
        if t is SC:
            return self.sc_cls
        if t.op == "node":
            return None
        return None

    def fn_qual(self, mod, name):
        f = self.I.get_global(mod, name)
        for x in self.I._alts(f):
            if x.op == "fn":
                return self.I.fns[x.a[1]].qual
            if x.op == "sd":
                return x.a[0]
        raise AnalysisBroken(f"{mod}.{name} is not a function")

    # ---- boundaries
    def set_boundaries(self):
        I = self.I
        I.intercepts[self.fn_qual(A, "get_tree")] = self.h_get_tree
        I.intercepts[self.fn_qual(U, "get_state")] = self.h_get_state
        I.intercepts[self.fn_qual(U, "_get_state")] = self.h_get_state0
        I.intercepts[self.fn_qual(U, "get_module")] = self.h_get_module
        I.opaque_method_hook = self.h_method

    @staticmethod
    def arg(args, kw, i, name, default=None):
        if len(args) > i:
            return args[i]
        return kw.get(name, default)

    def h_get_tree(self, I, args, kw, node):
        st = self.arg(args, kw, 0, "state", mk("unk", "noarg"))
        lc = self.arg(args, kw, 1, "load_context", mk("unk", "noarg"))
        tr = self.arg(args, kw, 2, "trusted", mk("unk", "noarg"))
        t = mk("node", st, I.freeze(tr))
        I.event("get_tree", mk("ext", "@get_tree"), (st, lc, tr), (), node, res=t)
        I.may_raise("call", t)
        return t

    def h_get_state(self, I, args, kw, node):
        v = self.arg(args, kw, 0, "value", mk("unk", "noarg"))
        sc = self.arg(args, kw, 1, "save_context", mk("unk", "noarg"))
        t = mk("stateof", I.freeze(v))
        I.event("get_state", mk("ext", "@get_state"), (v, sc), (), node, res=t)
        I.may_raise("call", t)
        return t

    def h_get_state0(self, I, args, kw, node):
        v = self.arg(args, kw, 0, "obj", mk("unk", "noarg"))
        t = mk("rawstate", v)
        I.event("_get_state", mk("ext", "@_get_state"), tuple(args), (), node, res=t)
        return t

    def h_get_module(self, I, args, kw, node):
        v = self.arg(args, kw, 0, "obj", mk("unk", "noarg"))
        v = I.simp(v)
        if v.op == "cls":
            return const(I.classes[v.a[0]].module.name)
        if v.op == "ext" and v.a[0].startswith("builtins.") and v.a[0].count(".") == 1:
            return const("builtins")
        return mk("modof", v)

    def h_method(self, I, base, name, args, kw, node):
        if base.op == "node":
            if name == "construct":
                t = mk("cons", base)
                I.event("construct", base, (), (), node, res=t)
                return t
            if name in ("get_unsafe_set", "is_safe", "is_self_safe", "format"):
                t = mk("nodeq", name, base)
                I.event("nodecall", base, args, tuple(kw.items()), node, res=t, x=name)
                return t
        return None

    # ---- registries
    def registered(self):
        """-> list of (guard, kind, protocol, cls)"""
        out = []
        for g, (k, v) in self.I.dict_entries(self.mapping):
            if k.op == "tuple" and len(k.a) == 2 and is_str(k.a[0]) and is_const(k.a[1]):
                for c in self.I._alts(v):
                    out.append((g, cval(k.a[0]), cval(k.a[1]), c))
            else:
                out.append((g, None, None, v))
        return out

    def writers(self):
        """-> list of (guard, type term, fn term, loc)"""
        sd = self.I.get_global(U, "_get_state")
        if sd.op != "sd":
            return []
        return list(self.I.sd_registry.get(sd.a[1], []))

    def node_classes(self):
        seen = []
        for g, k, p, c in self.registered():
            if c.op == "cls" and c not in seen:
                seen.append(c)
        return seen

    # ---- per-class abstract objects
    def build(self, cls, trusted=TRUSTED, state=STATE):
        I = self.I
        n0 = len(I.events)
        I.reset_control()
        I.symattrs = {}
        I.enter(P)
        try:
            r = I.call(cls, [state, LC], {"trusted": trusted}, None)
        finally:
            I.frames.pop()
        return r, I.events[n0:]

    def invoke(self, ref, meth, args=(), keep=True, kw=None):
        I = self.I
        n0 = len(I.events)
        if not keep:
            I.reset_control()
        I.enter(P)
        try:
            v = I.call(I.get_attr(ref, meth), list(args), dict(kw or {}), None)
        finally:
            I.frames.pop()
        return v, I.events[n0:]

    def write(self, fn):
        I = self.I
        n0 = len(I.events)
        I.reset_control()
        I.symattrs = {}
        I.enter(P)
        try:
            v = I.call(fn, [OBJ, SC], {}, None)
        finally:
            I.frames.pop()
        return v, I.events[n0:]
