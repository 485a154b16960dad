"""Per node class summary used by the audit, sink, family and visualize rules."""
from __future__ import annotations

from .core import *
from .iomodel import A, IO, LC, OBJ, P, SC, STATE, TRUSTED, U

KEYS = ("__module__", "__class__")


def item(*path):
    t = STATE
    for p in path:
        t = mk("item", t, const(p))
    return t


OWN = concat([item("__module__"), const("."), item("__class__")])


def scen_none(t):
    """no trusted list was given"""
    if t is TRUSTED:
        return False
    if t.op == "is" and TRUSTED in t.a:
        return (t.a[0] if t.a[1] is TRUSTED else t.a[1]) is NONE
    if t.op == "eq" and TRUSTED in t.a:
        return (t.a[0] if t.a[1] is TRUSTED else t.a[1]) is NONE
    if t.op == "isinstance" and t.a[0] is TRUSTED:
        return False
    if t.op == "each" and t.a[0] is TRUSTED:
        return False
    return common(t)


def scen_list(t):
    """a non-empty list was given"""
    if t is TRUSTED:
        return True
    if t.op == "is" and TRUSTED in t.a:
        return False
    if t.op == "eq" and TRUSTED in t.a:
        return False
    if t.op == "isinstance" and t.a[0] is TRUSTED:
        c = t.a[1]
        if c.op == "ext" and c.a[0] == "builtins.list":
            return True
        if c.op == "ext" and c.a[0] in ("builtins.tuple", "builtins.str", "builtins.bool", "builtins.type",
                                        "builtins.set", "builtins.dict", "builtins.frozenset"):
            return False
        return None
    return common(t)


def scen_tuple(t):
    if t.op == "isinstance" and t.a[0] is TRUSTED:
        c = t.a[1]
        if c.op == "ext" and c.a[0] == "builtins.tuple":
            return True
        if c.op == "ext" and c.a[0] == "builtins.list":
            return False
    return scen_list(t)


def common(t):
    if t.op == "is" and t.a[1] is NONE and t.a[0].op in ("node",):
        return False
    if t.op == "is" and t.a[0] is NONE and t.a[1].op in ("node",):
        return False
    if t.op == "is" and any(x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "io.BytesIO" for x in t.a) \
            and NONE in t.a:
        return False
    if t.op == "is":
        for x, y in (t.a, t.a[::-1]):
            if x.op == "ext" and y.op == "typeof" and y.a[0].op == "call" and y.a[0].a[0].op == "ext" \
                    and y.a[0].a[0].a[0] == "io.BytesIO":
                return x.a[0] == "io.BytesIO"
    if t.op == "node":
        return True
    if t.op == "hasattr" and t.a[0].op == "inst":
        return False
    if t.op == "exc" and isinstance(t.a[0], T) and t.a[0].op == "import":
        return False            # the optional library is there
    if t.op == "is":
        # values decoded from json are never classes
        for x, y in (t.a, t.a[::-1]):
            if x.op == "ext" and x.a[0] == "builtins.type" and y.op == "typeof" and json_part(y.a[0]):
                return False
    return None


def json_part(t):
    while t.op in ("item", "elem", "idx"):
        t = t.a[0]
    return t is STATE


SCEN = {"none": scen_none, "list": scen_list}


class NodeModel:
    pass


class AuditModel:
    def __init__(self, root=None, overlay=None):
        self.io = IO(root or REPO, overlay)
        self.I = self.io.I
        self.regs = []
        self.nodes = []
        self.broken = []
        seen = {}
        for g, k, p, c in self.io.registered():
            self.regs.append((g, k, p, c))
            if c.op != "cls":
                continue
            if c in seen:
                seen[c].kinds.append((k, p))
                continue
            n = self.model(c)
            n.kinds = [(k, p)]
            seen[c] = n
            self.nodes.append(n)
        if len(self.nodes) < 5:
            raise AnalysisBroken("fewer than five node classes are registered")
        # arguments the search for unsafe types hands down to the children
        npos, kws = 0, set()
        for n in self.nodes:
            for e in n.unsafe_events:
                if e.kind == "nodecall" and e.x == "get_unsafe_set":
                    npos = max(npos, len(e.args))
                    kws |= {k for k, _v in e.kw}
        self.extra_syms = {f"handed{i}" for i in range(npos)} | {"handed_" + k for k in kws}
        if self.extra_syms:
            for n in self.nodes:
                v, _ = self.io.invoke(n.ref, "get_unsafe_set", [mk("sym", f"handed{i}") for i in range(npos)],
                                      kw={k: mk("sym", "handed_" + k) for k in kws})
                n.unsafe_any = self.I.freeze(v)

    def model(self, c):
        I = self.I
        n = NodeModel()
        n.cls = c
        n.qual = c.a[0]
        n.name = n.qual.rsplit(".", 1)[-1]
        n.label = n.name if ".old." not in n.qual else n.qual.rsplit(".", 2)[-2].lstrip("_") + "." + n.name
        n.loc = (I.classes[c.a[0]].file, I.classes[c.a[0]].node.lineno)
        n.error = None
        r, n.init_events = self.io.build(c)
        n.ref = r
        n.attrs = {}
        if r.op == "ref":
            o = I.obj(r)
            n.attrs = {k: I.freeze(v) for k, v in o.attrs.items()}
        n.attrs_ref = dict(I.obj(r).attrs) if r.op == "ref" else {}
        n.children = n.attrs.get("children")
        n.trusted = n.attrs.get("trusted")
        v, n.unsafe_events = self.io.invoke(r, "get_unsafe_set")
        n.unsafe_ref = v
        n.unsafe = I.freeze(v)
        v, n.unsafe2_events = self.io.invoke(r, "get_unsafe_set")
        n.unsafe2 = I.freeze(v)
        n.attrs_after_audit = {k: I.freeze(v) for k, v in I.obj(r).attrs.items()} if r.op == "ref" else {}
        v, n.self_safe_events = self.io.invoke(r, "is_self_safe")
        n.self_safe = I.freeze(v)
        v, n.is_safe_events = self.io.invoke(r, "is_safe")
        n.is_safe = I.freeze(v)
        v, n.format_events = self.io.invoke(r, "format")
        n.format = I.freeze(v)
        n.attrs_before_construct = {k: I.freeze(v) for k, v in I.obj(r).attrs.items()} if r.op == "ref" else {}
        v, n.construct_events = self.io.invoke(r, "construct")
        n.value_ref = v
        n.value = I.freeze(v)
        v, n.construct2_events = self.io.invoke(r, "construct")
        n.value2 = I.freeze(v)
        return n

    # -- derived views
    def trusted_items(self, n, scen):
        if n.trusted is None:
            return None
        return seq_items(assign(n.trusted, SCEN[scen] if isinstance(scen, str) else scen))

    def reported(self, n, scen, second=False):
        t = assign(n.unsafe2 if second else n.unsafe, SCEN[scen])
        its = seq_items(t)
        if its is None:
            return None
        out = []
        for g, v in its:
            if g is FALSE:
                continue
            out.append((g, v))
        return out

    def names(self, n, scen):
        r = self.reported(n, scen)
        if r is None:
            return None
        return [(g, v) for g, v in r if not is_child_elem(v)]

    def child_reports(self, n, scen):
        r = self.reported(n, scen)
        if r is None:
            return None
        return [(g, child_of(v)) for g, v in r if is_child_elem(v)]

    def events(self, evs, scen):
        """events live in the scenario -> [(event, guard term, fn, args, kw, res)]"""
        fn = SCEN[scen]
        out = []
        for e in evs:
            g = aguard(e.guard, fn)
            if g is FALSE:
                continue
            out.append((e, g,
                        assign(self.I.freeze(e.fn), fn) if isinstance(e.fn, T) else e.fn,
                        tuple(assign(self.I.freeze(a), fn) for a in e.args if isinstance(a, T)),
                        tuple((k, assign(self.I.freeze(v), fn)) for k, v in e.kw if isinstance(v, T)),
                        assign(self.I.freeze(e.res), fn) if isinstance(e.res, T) else None))
        return out


def is_child_elem(v):
    return v.op == "elem" and v.a[0].op == "nodeq" and v.a[0].a[0] == "get_unsafe_set"


def child_of(v):
    return v.a[0].a[1]
