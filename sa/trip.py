"""Composition of every registered writer with the reader it names: what is loaded, as a term over the dumped object."""
from __future__ import annotations

from .audit_model import AuditModel
from .core import *
from .core import T
from .iomodel import LC, OBJ, P, SC
from .terms import ite

TYPEOF = mk("typeof", OBJ)
GET = mk("ext", "builtins.getattr")


class Trip:
    pass


def leaves(t, g=TRUE):
    """ite tree -> [(guard, leaf)]"""
    if t.op == "ite":
        c = t.a[0]
        return (leaves(t.a[1], And(lits_of(g) + [(c, True)])) +
                leaves(t.a[2], And(lits_of(g) + [(c, False)])))
    return [(g, t)] if g is not FALSE else []


def is_call(t, *names):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in names


def meth(t, *names):
    return t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in names


class Norm:
    """rewrites reader terms over writer terms; members maps archive member names to their content"""

    def __init__(self, members, saves):
        self.members, self.saves = members, saves
        self.memo = {}

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if not isinstance(t, T):
            return t
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = t
        r = self.rebuild(t)
        for _ in range(8):
            r2 = self.step(r)
            if r2 is r:
                break
            r = r2
        self.memo[t] = r
        return r

    def rebuild(self, t):
        if not t.a or t.op == "const":
            return t
        na = tuple(self(x) for x in t.a)
        if all(p is q for p, q in zip(na, t.a)):
            return t
        if t.op == "ite":
            return ite(*na)
        if t.op == "concat":
            return concat(na)
        if t.op == "and":
            return And([(u, q) for u, q in na[0]])
        if t.op == "not":
            return Not(na[0])
        return mk(t.op, *na)

    def content_of(self, t):
        """what reading member t.read(..) yields"""
        if meth(t, "read") and len(t.a[1]) == 1 and t.a[0].a[0] is LC_SRC:
            d = self.members.get(t.a[1][0])
            return d
        return None

    def step(self, t):
        o = t.op
        if o == "cons" and t.a[0].op == "node":
            st = t.a[0].a[0]
            if st.op == "stateof":
                return st.a[0]
            if st.op == "elem" and st.a[0].op == "item" and st.a[0].a[0].op == "stateof" and \
                    is_str(st.a[0].a[1]) and cval(st.a[0].a[1]) == "content":
                return mk("elem", st.a[0].a[0].a[0])
        if o == "each" and t.a[0].op == "item" and t.a[0].a[0].op == "stateof" and \
                is_str(t.a[0].a[1]) and cval(t.a[0].a[1]) == "content":
            return mk("each", t.a[0].a[0].a[0])
        if o == "attr" and t.a[1] == "__class__":
            return mk("typeof", t.a[0])
        if o == "call":
            f, args = t.a[0], t.a[1]
            if f is GET and len(args) == 2 and is_call(args[0], "importlib.import_module") and args[0].a[1]:
                mod, nm = args[0].a[1][0], args[1]
                if mod.op == "modof" and nm.op == "attr" and nm.a[1] == "__name__" and nm.a[0] is mod.a[0]:
                    return mod.a[0]
                if is_str(mod) and nm.op == "attr" and nm.a[1] == "__name__" and nm.a[0] is TYPEOF and \
                        cval(mod) == "operator":
                    return TYPEOF
            if f.op == "ext":
                n = f.a[0]
                if n == "json.loads" and len(args) == 1 and is_call(args[0], "json.dumps") and args[0].a[1]:
                    return mk("json", args[0].a[1][0])
                if n in ("numpy.load", "scipy.sparse.load_npz") and args:
                    x = args[0]
                    if is_call(x, "io.BytesIO") and x.a[1]:
                        x = x.a[1][0]
                    d = self.content_of(x) or x
                    if d.op == "saved":
                        return mk("decoded", const(n), d.a[1])
                if n == "builtins.bytes" and len(args) == 1 and self.content_of(args[0]) is not None:
                    return args[0]
            if f.op == "attr" and f.a[1] in ("getvalue", "getbuffer", "read", "tobytes"):
                b = f.a[0]
                if is_call(b, "io.BytesIO") and b.a[1]:
                    d = self.content_of(b.a[1][0])
                    if d is not None:
                        return d
            if f is mk("ext", "builtins.getattr") and len(args) >= 2 and is_str(args[1]):
                return mk("attr", args[0], cval(args[1]))
        if o == "elem":
            s = t.a[0]
            if s.op.split(":")[0] in ("list", "tuple", "set") and len(s.a) == 1 and s.a[0].op == "ent" and \
                    s.a[0].a[1] in ("append", "add") and s.a[0].a[0].op == "each":
                return s.a[0].a[3]
        if o == "each":
            s = t.a[0]
            if s.op.split(":")[0] in ("list", "tuple", "set") and len(s.a) == 1 and s.a[0].op == "ent" and \
                    s.a[0].a[1] in ("append", "add"):
                return s.a[0].a[0]
            if s.op == "dkeys" or s.op == "ditems" or s.op == "dvalues":
                return mk("each", s.a[0])
        if o == "dict" and len(t.a) == 1 and t.a[0].op == "ent" and t.a[0].a[0] is TRUE and t.a[0].a[1] == "update":
            return mk("dictof", t.a[0].a[3])
        return t


LC_SRC = mk("attr", LC, "src")


def nonempty_names(t):
    """names and modules of classes are not empty, looking them up succeeds"""
    if t.op == "attr" and t.a[1] == "__name__":
        return True
    if t.op == "modof":
        return True
    if t.op == "node":
        return True
    return None


def trips(M):
    """-> list of Trip"""
    I = M.I
    reg = {(k, p): c for g, k, p, c in M.regs}
    proto = cval(M.io.protocol)
    out = []
    for g, typ, fn, loc in M.io.writers():
        try:
            I.reset_control()
            v, ev = M.io.write(fn)
        except RecursionError:
            raise
        members, saved = {}, {}
        for e in ev:
            if e.kind == "call" and e.fn.op == "ext" and e.fn.a[0] in ("numpy.save", "scipy.sparse.save_npz") \
                    and len(e.args) >= 2:
                saved[I.freeze(e.args[0])] = mk("saved", const(e.fn.a[0]), I.freeze(e.args[1]))
        for e in ev:
            if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == "writestr" and len(e.args) >= 2:
                d = I.freeze(e.args[1])
                if d.op == "call" and d.a[0].op == "attr" and d.a[0].a[1] in ("getbuffer", "getvalue", "read"):
                    d = saved.get(d.a[0].a[0], d)
                members[I.freeze(e.args[0])] = d
        N = Norm(members, saved)
        refusal = []
        for e in ev:
            if e.kind == "raise" and not e.caught:
                refusal.append(N(And(list(e.guard))))
        base = dict(typ=typ, fn=fn, reg_guard=g, reg_loc=loc, wevents=ev, norm=N, refused=Or(refusal), members=members)
        f0 = [x for x in I._alts(fn) if x.op == "fn"]
        base["qual"] = I.fns[f0[0].a[1]].qual if f0 else show(fn)
        base["loc"] = (I.fns[f0[0].a[1]].module.file, I.fns[f0[0].a[1]].node.lineno) if f0 else loc
        alts = leaves(v)
        if not any(x.op == "ref" for _g, x in alts):
            t = Trip()
            t.__dict__.update(base, kind=None, state=None, path=TRUE, value=None, muts=[], cls=None, error="no state")
            out.append(t)
            continue
        for path, ref in alts:
            if ref.op != "ref":
                continue
            t = Trip()
            t.__dict__.update(base, state=I.freeze(ref), path=N(path), ref=ref, value=None, muts=[], error=None, cls=None)
            ls = [x for gg, k, x in (dict_items(t.state) or []) if is_str(k) and cval(k) == "__loader__"]
            t.kind = cval(ls[-1]) if ls and is_str(ls[-1]) else None
            c = reg.get((t.kind, proto))
            t.cls = c
            if c is None or c.op != "cls":
                t.error = f"no reader for {t.kind}"
                out.append(t)
                continue
            n0 = len(I.events)
            I.reset_control()
            I.symattrs = {}
            I.enter(P)
            try:
                node = I.call(c, [ref, LC], {"trusted": NONE}, None)
                n1 = len(I.events)
                val = I.call(I.get_attr(node, "construct"), [], {}, None)
            finally:
                I.frames.pop()
            t.revents = I.events[n0:]
            t.cls_loc = (I.classes[c.a[0]].file, I.classes[c.a[0]].node.lineno)
            t.value = assign(N(I.freeze(val)), nonempty_names)
            t.cevents = I.events[n1:]
            for e in t.cevents:
                gd = assign_bool(N(And(list(e.guard))), nonempty_names)
                if gd is FALSE:
                    continue
                if e.kind == "setitem" and isinstance(e.fn, T):
                    t.muts.append(("item", N(I.freeze(e.fn)), tuple(N(I.freeze(a)) for a in e.args), gd, e.loc))
                elif e.kind == "setattr" and isinstance(e.fn, T) and e.fn.op != "inst" and \
                        not (e.fn.op == "ref" and I.obj(e.fn).kind == "inst"):
                    t.muts.append(("attr:" + str(e.x), N(I.freeze(e.fn)), tuple(N(I.freeze(a)) for a in e.args), gd, e.loc))
                elif e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] in MUTATORS:
                    t.muts.append(("call:" + e.fn.a[1], N(I.freeze(e.fn.a[0])),
                                   tuple(N(I.freeze(a)) for a in e.args) +
                                   tuple(N(I.freeze(a)) for _k, a in e.kw if isinstance(a, T)), gd, e.loc))
            t.muts = [(k, assign(b, nonempty_names), tuple(assign(x, nonempty_names) for x in a), gd, loc)
                      for k, b, a, gd, loc in t.muts]
            t.raises = [assign_bool(N(And(list(e.guard))), nonempty_names) for e in t.cevents if e.kind == "raise" and not e.caught]
            t.state_n = N(t.state)
            out.append(t)
    return out


MUTATORS = {"update", "__setstate__", "set_state", "setstate", "append", "extend", "add", "__init__", "setdefault",
            "harden_mask", "set_fill_value"}
