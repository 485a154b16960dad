"""C09, C10, C14, C15: the model card.

The card's methods are analysed on abstract trees (card_model): every title, content and
flag is a symbol, so a case covers all trees with the same shape along the path and
arbitrary other sections around it.  The abstract result is compared with the tree the
property prescribes.
"""
from __future__ import annotations

import itertools
import re

from .card_model import MISSING, MOD, CardModel, Outcome, Undecided, path
from .core import AnalysisBroken, assign
from . import strdom
from .strdom import content, title, txt
from .terms import (BOOL_OPS, FALSE, NONE, T, TRUE, And, concat, const, contains, cval, has_unknown, is_const, is_str, ite,
                    lits_of, mk, show, show_guard, subterms)

FILE = "skops/card/_model_card.py"


# ------------------------------------------------------------------ spec tree
class Node:
    __slots__ = ("key", "f", "subs", "ref", "any")

    def __init__(self, key, f, subs, ref=None, any=()):
        self.key, self.f, self.subs, self.ref, self.any = key, f, subs, ref, any

    def copy(self):
        return Node(self.key, dict(self.f), [s.copy() for s in self.subs], self.ref, self.any)


def snapshot(tr):
    """abstract tree -> (nodes, residual conditions)"""
    res = []
    out = []
    for g, k, v, f, sub, d in tr:
        if g:
            res.append(And(g))
        subs, r = snapshot(sub)
        res += r
        out.append(Node(k, f, subs, v))
    return out, res


def find(nodes, names):
    """-> (parent list, node or None) ; parent list is None when an ancestor is missing"""
    cur = nodes
    for n in names[:-1]:
        nx = next((x for x in cur if n and x.key is title(n)), None)
        if nx is None:
            return None, None
        cur = nx.subs
    return cur, next((x for x in cur if names[-1] and x.key is title(names[-1])), None)


def spec_add(nodes, names, cont, folded, cls=None):
    cur = nodes
    for n in names[:-1]:
        nx = next((x for x in cur if x.key is title(n)), None)
        if nx is None:
            nx = Node(title(n), {"title": title(n), "content": const(""), "visible": TRUE, "folded": FALSE}, [])
            cur.append(nx)
        cur = nx.subs
    t = title(names[-1])
    old = next((x for x in cur if x.key is t), None)
    f = {"title": t, "content": cont, "folded": folded}
    f["visible"] = TRUE     # select() returns exactly what was added, whatever it replaced
    if old is None:
        cur.append(Node(t, f, []))
    else:
        old.f = f
        old.ref = None
        old.any = ("*",)


def cmp_nodes(exp, act, where=""):
    """first difference as (aspect, text, terms) or None"""
    ek, ak = [e.key for e in exp], [a.key for a in act]
    if ek != ak:
        extra = [k for k in ak if k not in ek]
        lost = [k for k in ek if k not in ak]
        if len(extra) == len(lost) == 1 and (r := refute(extra[0], lost[0])):
            return ("wrong-section", f"under {where or 'the card'}: {names_of(extra)} instead of {names_of(lost)}, "
                                     f"e.g. for the text {', '.join(r.values())}", [])
        if extra and lost:
            return "wrong-section", f"under {where or 'the card'}: {names_of(extra)} instead of {names_of(lost)}", extra
        if extra:
            return "extra-section", f"under {where or 'the card'}: {names_of(extra)} should not be there", extra
        if lost:
            return "lost-section", f"under {where or 'the card'}: {names_of(lost)} is missing", ak
        if len(set(ak)) != len(ak):
            return "duplicate", f"under {where or 'the card'}: a section appears twice", ak
        return "order", f"under {where or 'the card'}: order is {names_of(ak)} instead of {names_of(ek)}", ak
    for e, a in zip(exp, act):
        w = (where + "/" if where else "") + nm(e.key)
        for k, v in e.f.items():
            x = a.f.get(k)
            if x is None:
                return "field", f"section {w} has no {k}", []
            if x is not v and not same(x, v):
                r = refute(x, v)
                return k, f"section {w}: {k} is {show(x)[:90]} instead of {show(v)[:60]}" + \
                    (f", e.g. for the text {', '.join(r.values())}" if r else ""), [] if r else [x]
        r = cmp_nodes(e.subs, a.subs, w)
        if r is not None:
            return r
    return None


def refute(x, v):
    """a concrete text for the atoms under which the two string terms differ; None when there is none, or when they
    cannot be evaluated (text functions of the library with known arguments are folded)"""
    from .fold import Fold, Free, NotPure
    from .strdom import RAWS, apply_flags
    atoms = {s for t in (x, v) for s in subterms(t) if s.op == "txt"}
    if not atoms or any(s.op in ("sym", "unk") for s in subterms(x)):
        return None
    names = sorted({a.a[0] for a in atoms})
    for n in names:
        for raw in RAWS:
            env = {a: apply_flags(raw if a.a[0] == n else "z" + str(names.index(a.a[0])), a.a[1]) for a in atoms}
            try:
                a, b = Fold(env)(x), Fold(env)(v)
            except (NotPure, Free, RecursionError):
                return None
            except Exception:
                return None
            if a != b:
                return {nm2(k): repr(val) for k, val in env.items() if k.a[0] == n}
    return None


def nm2(k):
    return k.a[0]


def same(x, v):
    if x.op == "str" and len(x.a) == 1:
        return x.a[0] is v
    return False


def nm(k):
    return k.a[0] if k.op == "txt" and k.a[1] == "lru" else show(k)[:60]


def names_of(ks):
    return "[" + ", ".join(nm(k) for k in ks) + "]"


def opaque(ts):
    for t in ts:
        for s in subterms(t):
            if s.op in ("unk", "rec", "fold", "lv", "carried", "again", "unbound", "cyc", "item", "ite"):
                return True
            if s.op == "call" and s.a[0].op not in ("attr", "ext"):
                return True
            if s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] in ("split", "rsplit", "partition", "groups",
                                                                          "group", "findall", "finditer", "pop"):
                return True
    return False


# ------------------------------------------------------------------ C09
def base_tree(C):
    """o1, A{p1, B{q1, C{r}, q2}, p2}, o2 with arbitrary contents, E{F{G}} without; all with arbitrary flags"""
    S = C.section
    cc = S("C", [S("r")])
    b = S("B", [S("q1"), cc, S("q2")])
    a = S("A", [S("p1"), b, S("p2")])
    e = S("E", [S("F", [S("G", content=const(""))], content=const(""))], content=const(""))
    return C.card_with([S("o1"), a, S("o2"), e])


EXIST = [("A",), ("A", "B"), ("A", "B", "C"), ("o2",), ("A", "p2"), ("E", "F", "G"), ("E", "F"), ("E",)]
FRESH = [("N",), ("A", "N"), ("N", "M"), ("A", "B", "N"), ("A", "N", "M"), ("N", "M", "K"), ("o1", "N"), ("A", "A"),
         ("N", "A")]
EMPTY = [("",), ("A", ""), ("", "A"), ("A", "", "B"), ("A", "B", "")]


def single_ops():
    ops = []
    for p in EXIST + FRESH:
        ops.append(("add", p, False))
    ops.append(("add", ("A", "B"), True))
    ops.append(("add", ("A", "N"), True))
    ops.append(("addmany", ((("A", "N"), "x1"), (("A",), "x2"), (("N", "M"), "x3"), (("N",), "x4"), (("o1",), "x5")), False))
    ops.append(("addmany", ((("A", "B", "C"), "x1"), (("A", "B"), "x2")), True))
    ops.append(("addempty", ("A", "B"), False))
    ops.append(("addempty", ("A", "N", "M"), False))
    for p in (("A",), ("A", "B"), ("A", "N"), ("N", "M")):
        ops.append(("plot", p, False))
        ops.append(("table", p, True))
    for p in EXIST + FRESH + EMPTY:
        ops.append(("select", p))
        ops.append(("delete", p))
        if len(p) > 1 or p[0]:
            ops.append(("dellist", p))
    ops.append(("delnone", ()))
    for a, b in ((("A",), ("B",)), (("A",), ("B", "C")), (("A", "B"), ("C",)), (("A",), ("N",)), (("A", "B"), ("N", "M")),
                 (("A",), ("",)), (("A",), ("B", "")), (("A",), ("", "B")), (("A",), ("B", "N")), (("A",), ("A",)),
                 (("A",), ("A", "B")), (("A", "B"), ("B",)), (("A", "B"), ("A", "B")), (("A", "B"), ("A", "B", "C")),
                 (("A",), ("o1",)), (("E",), ("F", "G")), (("E", "F"), ("E",))):
        ops.append(("chain", a, b))
    return ops


def pair_ops():
    """second steps and first steps for the history cases"""
    first = [("add", ("A", "B"), False), ("add", ("A", "N"), False), ("add", ("N", "M"), True), ("add", ("A",), True),
             ("delete", ("A", "B")), ("delete", ("A",)), ("dellist", ("A", "B", "C")), ("select", ("A", "B")),
             ("select", ("A", "N")), ("plot", ("A", "B"), False),
             ("addmany", ((("N",), "x1"), (("N", "M"), "x2")), False)]
    second = [("add", ("A", "B"), False), ("add", ("A", "B", "C"), False), ("add", ("A", "N"), False),
              ("add", ("N", "M"), False), ("add", ("A",), False), ("select", ("A", "B")), ("select", ("A", "B", "C")),
              ("select", ("N", "M")), ("select", ("A", "N")), ("delete", ("A", "B")), ("delete", ("A",)),
              ("delete", ("N",)), ("dellist", ("A", "N")), ("chain", ("A",), ("B", "C")), ("chain", ("A",), ("N",))]
    return [(a, b) for a in first for b in second]


def describe(op):
    k = op[0]
    if k in ("addmany",):
        return "add(" + ", ".join("/".join(p) for p, _ in op[1]) + ")"
    if k == "chain":
        return "select(%s).select(%s)" % ("/".join(op[1]), "/".join(op[2]))
    if k == "dellist":
        return "delete([%s])" % ", ".join(map(repr, op[1]))
    if k == "delnone":
        return "delete([])"
    return {"addempty": "add empty content", "plot": "add_plot", "table": "add_table"}.get(k, k) + "(%s)" % "/".join(op[1])


def issue(C, card, op, n):
    """perform op -> Outcome"""
    I = C.I
    k = op[0]
    if k == "add":
        return C.method(card, "add", (), {**C.kwargs((path(*op[1]), content("new%d" % n))), "folded": const(op[2])})
    if k == "addempty":
        return C.method(card, "add", (), {**C.kwargs((path(*op[1]), const(""))), "folded": const(op[2])})
    if k == "addmany":
        return C.method(card, "add", (), {**C.kwargs(*[(path(*p), content(x + str(n))) for p, x in op[1]]),
                                          "folded": const(op[2])})
    if k == "plot":
        return C.method(card, "add_plot", (), {**C.kwargs((path(*op[1]), content("file"))), "folded": const(op[2])})
    if k == "table":
        t = I.new("dict")
        I.log(I.obj(t), "set", content("col"), I.new_list([mk("sym", "cell")]))
        return C.method(card, "add_table", (), {**C.kwargs((path(*op[1]), t)), "folded": const(op[2])})
    if k == "select":
        return C.method(card, "select", [path(*op[1])])
    if k == "delete":
        return C.method(card, "delete", [path(*op[1])])
    if k == "dellist":
        return C.method(card, "delete", [I.new_list([title(x) if x else const("") for x in op[1]])])
    if k == "delnone":
        return C.method(card, "delete", [I.new_list([])])
    if k == "chain":
        o = C.method(card, "select", [path(*op[1])])
        if o.raised is not None:
            return o
        o2 = C.method(o.value, "select", [path(*op[2])])
        o2.events = o.events + o2.events
        return o2
    raise AssertionError(k)


def spec(nodes, op, n):
    """the required result: ('ok', node or None) / ('KeyError', None); mutates nodes"""
    k = op[0]
    if k == "add":
        spec_add(nodes, op[1], content("new%d" % n), const(op[2]))
        return "ok", None
    if k == "addempty":
        spec_add(nodes, op[1], const(""), const(op[2]))
        return "ok", None
    if k == "addmany":
        for p, x in op[1]:
            spec_add(nodes, p, content(x + str(n)), const(op[2]))
        return "ok", None
    if k in ("plot", "table"):
        spec_add(nodes, op[1], const(""), const(op[2]))
        par, node = find(nodes, op[1])
        node.f = {}         # heading and content of built sections: C14
        return "ok", None
    if k == "delnone":
        return "KeyError", None
    names = op[1] + op[2] if k == "chain" else op[1]
    par, node = find(nodes, names)
    if node is None:
        return "KeyError", None
    if k in ("select", "chain"):
        return "ok", node
    par[:] = [x for x in par if x is not node]
    return "ok", None


RULE9 = {
    "add": ("C09.add", "adding creates missing ancestors with empty content, replaces content keeping position and "
                       "subsections, and disturbs nothing else"),
    "select": ("C09.select", "select (also chained) returns the section at the path, KeyError for a missing or empty name, "
                             "and changes nothing"),
    "delete": ("C09.delete", "delete removes exactly the subtree, KeyError for a missing or empty name without any change"),
}


def kind9(op):
    return {"add": "add", "addmany": "add", "addempty": "add", "plot": "add", "table": "add", "select": "select",
            "chain": "select", "delete": "delete", "dellist": "delete", "delnone": "delete"}[op[0]]


def locof(C, op, outc):
    ev = [e for e in outc.events if e.kind in ("setitem", "delitem", "setattr", "mut", "raise", "keyerror")
          and e.loc and str(e.loc[0]).endswith(".py")]
    if ev:
        return ev[-1].loc
    name = {"addmany": "add", "addempty": "add", "chain": "select", "dellist": "delete", "delnone": "delete",
            "plot": "add_plot", "table": "add_table"}.get(op[0], op[0])
    return f"{FILE} Card.{name}"


def run_case(C, ops):
    """-> list of (op index, verdict, aspect, message, loc); verdict True/False/None"""
    card = base_tree(C)
    C.I.strnotes.clear()
    out = []
    pend = []
    nodes, res = snapshot(C.tree(C.data(card)))
    for n, op in enumerate(ops):
        want, wnode = spec([], op, n) if False else (None, None)
        exp = [x.copy() for x in nodes]
        want, wnode = spec(exp, op, n)
        o = issue(C, card, op, n)
        if o.raised is not None and "?" in o.raised:
            raise Undecided("does not return")
        maybe = getattr(o, "maybe", None) or []
        conds = [And(e.guard) for e in maybe if want == "ok" or True]
        act, res = snapshot(C.tree(C.data(card)))
        pend += conds + res
        loc = locof(C, op, o)
        note = ""
        if C.I.strnotes:
            note = f" (the path is taken apart by {C.I.strnotes[-1][0][0]}{C.I.strnotes[-1][0][1:2]}, which does not split " \
                   "exactly at the unescaped slashes)"
        verdict = None
        if want == "ok" and o.raised is not None:
            verdict = ("raises", f"raises {short(o.raised)}{note}", [])
        elif want == "KeyError" and o.raised is None:
            verdict = ("no-keyerror", f"does not raise KeyError{note}", [o.value])
        elif want == "KeyError" and "KeyError" not in o.raised:
            verdict = ("no-keyerror", f"raises {short(o.raised)} instead of KeyError", [])
        elif wnode is not None:
            v = C.I.simp(o.value)
            if wnode.ref is None:
                got = {a: x for a, x in (C.I.obj(v).attrs.items() if v.op == "ref" else ())}
                if any(got.get(a) is not x for a, x in wnode.f.items()):
                    verdict = ("wrong-result", f"returns {show(v)[:60]} instead of the section {nm(wnode.key)}", [v])
            elif v is not wnode.ref:
                if v.op == "ref":
                    t = C.I.obj(v).attrs.get("title", mk("unk", "?"))
                    verdict = ("wrong-result", f"returns {nm(t)} instead of the section {nm(wnode.key)} of the card", [])
                else:
                    verdict = ("wrong-result", f"returns {show(v)[:60]} instead of the section {nm(wnode.key)}{note}", [v])
        if verdict is None:
            d = cmp_nodes(exp, act)
            if d is not None:
                verdict = (d[0], d[1] + note, d[2])
        if verdict is not None and not note:
            keys = [e.args[0] for e in o.events if e.kind in ("setitem", "delitem", "keyerror", "mut") and e.args]
            keys += [x for e in o.events if e.kind == "raise" and isinstance(e.fn, T) for x in [e.fn]]
            if opaque(keys) or any(opaque([t]) for t in pend):
                verdict = (verdict[0], verdict[1], [mk("unk", "key")])
        out.append((n, verdict, loc, note))
        nodes = act
        if verdict is not None:
            break
    return out, pend


def with_left(steps, pend):
    """conditions a case still depends on (flags are split by the caller)"""
    return (steps, [t for t in pend if not flags_of([t])]), pend


def short(names):
    if names is None:
        return "an exception"
    for x in ("KeyError", "AttributeError", "TypeError", "ValueError", "IndexError"):
        if x in names:
            return x
    return ", ".join(sorted(n for n in names if "." not in n)[:1]) or "an exception"


def rule_split(rep, ctx, p):
    """the function that takes a path apart, as a term over library string functions"""
    r = "C09.split"
    rep.rule(r, "a path is split exactly at the unescaped slashes, parts are stripped, and \\/ yields a slash")
    C = ctx.card
    f = C.splitter
    if f is None:
        rep.dunno(r, "path parsing", FILE, "no function split_subsection_names")
        return
    P = mk("sym", "path")
    o = C.run(f, [P])
    if o.raised is not None:
        rep.dunno(r, "path parsing", o.loc, "raises")
        return
    t = C.I.freeze(o.value)
    fn = C.I.fns[f.a[1]] if f.op == "fn" else None
    where = (fn.file, fn.node.lineno) if fn else FILE
    try:
        for s in strdom.path_samples(t):
            got = strdom.evaluate(t, {P: s})
            if list(got) != strdom.spec_split(s):
                rep.bad(r, "split", where, f"the path {s!r} is split into {got!r} instead of {strdom.spec_split(s)!r}: "
                                           f"{show(t)[:120]}")
                return
    except (strdom.NotString, IndexError, ValueError, TypeError, KeyError) as e:
        rep.dunno(r, "path parsing", where, f"not a composition of library string functions ({e}): {show(t)[:100]}")
        return
    rep.ok(r, f"split = {show(t)[:160]}", where)


def rule_tree(rep, ctx, p):
    C = ctx.card
    for r, t in RULE9.values():
        rep.rule(r, t)
    singles = [(op,) for op in single_ops()]
    pairs = pair_ops()
    if ctx.tier == "thorough":
        first = sorted({a for a, _ in pairs}, key=str)
        second = sorted({b for _, b in pairs}, key=str)
        pairs = pairs + [(a, b, c) for a in first for b in first for c in second[::2]]
    failed = set()
    for ops in singles + pairs:
        if any(op in failed for op in ops):
            continue        # already reported by itself
        r = RULE9[kind9(ops[-1])][0]
        what = " then ".join(describe(o) for o in ops)
        try:
            cases = C.explore(lambda: with_left(*run_case(C, ops)))
        except Undecided as e:
            rep.dunno(r, what, None, str(e))
            continue
        bad = None
        und = None
        for asm, (steps, left) in cases:
            n, verdict, loc, note = steps[-1]
            if verdict is not None:
                if opaque(verdict[2]) and not note:
                    und = (loc, verdict[1])
                elif bad is None:
                    bad = (n, verdict, loc, asm)
            elif left:
                und = (loc, f"depends on {show(left[0])[:120]}")
        if bad is not None:
            n, verdict, loc, asm = bad
            rep.bad(RULE9[kind9(ops[n])][0], f"{what}:{verdict[0]}", loc,
                    f"{describe(ops[n])}" + (f" after {' then '.join(describe(o) for o in ops[:n])}" if n else "")
                    + f": {verdict[1]}")
            if len(ops) == 1:
                failed.add(ops[0])
        elif und is not None:
            rep.dunno(r, what, und[0], und[1])
        else:
            rep.ok(r, what, FILE)


# ------------------------------------------------------------------ C10
PUA = 0xE000


class Text:
    """a rendered text under one assignment of the flags: literals and atoms"""

    def __init__(self):
        self.atoms = {}

    def char(self, t):
        if t not in self.atoms:
            self.atoms[t] = chr(PUA + len(self.atoms))
        return self.atoms[t]

    def of(self, t):
        """string with one private character per atom; None when not determined"""
        if is_const(t):
            return str(cval(t)) if isinstance(cval(t), (str, int, float, bool)) or cval(t) is None else None
        if t.op == "str" and len(t.a) == 1:
            return self.of(t.a[0])
        if t.op == "concat":
            r = [self.of(x) for x in t.a]
            return None if any(x is None for x in r) else "".join(r)
        if t.op == "join":
            sep, src = t.a
            sp = self.of(sep)
            if sp is None or src.op.split(":")[0] not in ("list", "tuple"):
                return None
            out = []
            for e in src.a:
                if e.op == "ent":
                    return None
                x = self.of(e)
                if x is None:
                    return None
                out.append(x)
            return sp.join(out)
        if t.op in ("txt", "sym"):
            return self.char(t)
        if t.op == "op" and t.a[0] == "+":
            a, b = self.of(t.a[1]), self.of(t.a[2])
            return None if a is None or b is None else a + b
        if t.op == "call" and not has_unknown(t) and t.a[0].op in ("attr", "ext"):
            return self.char(t)
        return None

    def name(self, c):
        for t, ch in self.atoms.items():
            if ch == c:
                return t
        return None


def flags_of(terms):
    out = []
    for t in terms:
        for s in subterms(t):
            if s.op == "sym" and str(s.a[0]).startswith(("visible ", "folded ", "flag ")) and s not in out:
                out.append(s)
    return sorted(out, key=lambda s: s.a[0])


def flag_fn(asm):
    def fn(a):
        if a in asm:
            return asm[a]
        if a.op == "call" and a.a[0].op == "attr" and a.a[0].a[1] == "get_string":
            return True     # a formatted table has at least its header row
        if a.op in ("eq", "is") and len(a.a) == 2:
            for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if x in asm and is_const(y) and isinstance(cval(y), bool):
                    return asm[x] is cval(y)
                if x in asm and y is NONE:
                    return False
        return None
    return fn


class Sec:
    """specification of one section for rendering cases"""

    def __init__(self, name, subs=(), vis=None, fold=None, content=None, kind="Section", key=None):
        self.name, self.subs, self.vis, self.fold, self.kind, self.key = name, list(subs), vis, fold, kind, key
        self.content = content

    def build(self, C):
        f = {}
        if self.vis is not None:
            f["visible"] = const(self.vis)
        if self.fold is not None:
            f["folded"] = const(self.fold)
        if self.content is not None:
            f["content"] = self.content if isinstance(self.content, T) else const(self.content)
        if self.kind == "PlotSection":
            f["path"] = content("path " + self.name)
            f["alt_text"] = content("alt " + self.name)
        if self.kind == "TableSection":
            t = C.I.new("dict")
            C.I.log(C.I.obj(t), "set", content("col " + self.name), C.I.new_list([content("cell " + self.name)]))
            f["table"] = t
        r = C.section(self.name, [s.build(C) for s in self.subs], self.kind, **f)
        if self.key:
            # same section filed under another key: its title was edited later
            self.refkey = title(self.key)
        return r

    def visible(self, asm):
        return self.vis if self.vis is not None else asm.get(mk("sym", "visible " + self.name), True)

    def folded(self, asm):
        return self.fold if self.fold is not None else asm.get(mk("sym", "folded " + self.name), False)


def file_card(C, secs):
    """card with the sections; a section with .key is filed under that key"""
    I = C.I
    c = C.new_card()

    def fill(secs):
        d = I.new("dict")
        for s in secs:
            r = s.build(C)
            I.obj(r).attrs["subsections"] = fill(s.subs)
            I.log(I.obj(d), "set", title(s.key or s.name), r)
        return d
    I.obj(c).attrs[C.data_attr] = fill(secs)
    return c


def expected_rows(secs, asm, depth=1):
    out = []
    for s in secs:
        if not s.visible(asm):
            continue
        out.append((depth, s))
        if not s.folded(asm):
            out += expected_rows(s.subs, asm, depth + 1)
    return out


def shapes(tier):
    S = Sec
    sh = [
        ("chain", [S("A", [S("B", [S("C")])]), S("D", [S("E")])]),
        ("wide", [S("A", [S("B"), S("C", [S("F")]), S("D", vis=True)], vis=True), S("E", vis=True)]),
        ("empty contents", [S("A", [S("B", content="")], content="", vis=True), S("C", content="")]),
        ("kinds", [S("A", [S("B", [S("E", vis=True)], kind="PlotSection"), S("C", kind="TableSection")], vis=True, fold=False)]),
        ("no description", [S("B", kind="PlotSection", content="", vis=True), S("C", kind="TableSection", content="", vis=True)]),
        ("edited title", [S("A", [S("B", key="K2")], key="K1", vis=True)]),
        ("deep", [S("A", [S("B", [S("C", [S("D", [S("E", [S("F", [S("G", [S("H", vis=True, fold=False)], vis=True, fold=False)],
                 vis=True, fold=False)], vis=True, fold=False)], vis=True, fold=False)], vis=True, fold=False)],
                 vis=True, fold=False)], vis=True, fold=False)]),
    ]
    if tier == "thorough":
        sh.append(("big", [S("A", [S("B", [S("C", [S("G")])]), S("D", [S("E")])]), S("F")]))
    return sh


def assignments(flags):
    for vals in itertools.product((True, False), repeat=len(flags)):
        yield dict(zip(flags, vals))


def parse_card(tx, s):
    """rendered string -> list of events"""
    out = []
    for line in s.split("\n"):
        if not line.strip():
            continue
        m = re.fullmatch(r"(#+) ([\ue000-\uf8ff])", line)
        if m:
            out.append(("h", len(m.group(1)), tx.name(m.group(2))))
            continue
        if re.fullmatch(r"\s*<details>\s*", line):
            out.append(("open",))
        elif re.fullmatch(r"\s*</details>\s*", line):
            out.append(("close",))
        elif re.fullmatch(r"\s*<summary>[^<\ue000-\uf8ff]*</summary>\s*", line):
            out.append(("summary",))
        else:
            out.append(("text", line))
    return out


def show_line(tx, s):
    return "".join("{" + show(tx.name(c)) + "}" if "\ue000" <= c <= "\uf8ff" else c for c in s)[:100]


def judge_render(tx, s, secs, asm):
    """-> None or (aspect, message)"""
    ev = parse_card(tx, s)
    heads = [(e[1], e[2]) for e in ev if e[0] == "h"]
    rows = expected_rows(secs, asm)
    want = [(d, title(x.name)) for d, x in rows]
    if heads != want:
        return "headings", (f"headings {[('#' * d + ' ' + nm(t)) for d, t in heads]} instead of "
                            f"{[('#' * d + ' ' + nm(t)) for d, t in want]}")
    # bodies
    bodies = []
    for e in ev:
        if e[0] == "h":
            bodies.append([])
        elif not bodies:
            return "stray", f"text before the first heading: {e!r}"
        else:
            bodies[-1].append(e)
    for (d, x), b in zip(rows, bodies):
        fold = x.folded(asm)
        opens = [i for i, e in enumerate(b) if e[0] == "open"]
        closes = [i for i, e in enumerate(b) if e[0] == "close"]
        if fold and (len(opens) != 1 or len(closes) != 1 or opens[0] > closes[0]):
            return "details", f"folded section {x.name} is not wrapped in one <details> block"
        if not fold and (opens or closes):
            return "details", f"section {x.name} is not folded but has a <details> block"
        texts = [(i, e[1]) for i, e in enumerate(b) if e[0] == "text"]
        body = "\n".join(t for _, t in texts)
        need = []
        if x.content is None:
            need.append((content("old " + x.name), x.kind == "Section"))
        elif isinstance(x.content, T) or x.content:
            need.append((x.content, x.kind == "Section"))
        if x.kind == "PlotSection":
            need += [(content("alt " + x.name), True), (content("path " + x.name), True)]
        if x.kind == "TableSection":
            need += [("table", True)]
        for t, inside in need:
            if t == "table":
                pos = [i for i, l in texts if any(tx.name(c) is not None and tx.name(c).op == "call" for c in l)]
                if not pos:
                    return None     # the table text is not followed here (C14)
            else:
                ch = tx.atoms.get(t) if isinstance(t, T) else t
                pos = [i for i, l in texts if ch is not None and ch in l]
                n = sum(l.count(ch) for i, l in texts) if ch else 0
                if n != 1:
                    return "content", f"the content of section {x.name} appears {n} times under its heading"
            if fold and inside and not (opens[0] < pos[0] < closes[0]):
                return "details", f"the content of folded section {x.name} is outside its <details> block"
        if x.kind == "Section":
            rest = body
            for t, _ in need:
                rest = rest.replace(tx.atoms.get(t) if isinstance(t, T) else t, "", 1)
            if rest.strip():
                return "stray", f"section {x.name}: unexpected text {show_line(tx, rest)!r}"
            if any(not (l.strip() == (tx.atoms.get(t) if isinstance(t, T) else t)) for (i, l) in texts for t, _ in need):
                return "content", f"section {x.name}: the content is not on lines of its own"
    return None


def judge_toc(tx, s, secs, asm):
    rows = expected_rows(secs, asm)
    got = []
    unit = None
    for line in s.split("\n"):
        if not line.strip():
            continue
        m = re.fullmatch(r"([ \t]*)[-*+] ([\ue000-\uf8ff])", line)
        if not m:
            return "line", f"table of contents line {show_line(tx, line)!r} is not an indented title"
        got.append((len(m.group(1)), tx.name(m.group(2))))
    if [t for _, t in got] != [title(x.name) for _, x in rows]:
        return "titles", (f"table of contents lists {names_of([t for _, t in got])}, rendered headings are "
                          f"{[x.name for _, x in rows]}")
    for (ind, _), (d, x) in zip(got, rows):
        if d == 1 and ind != 0:
            return "indent", f"top level entry {x.name} is indented by {ind}"
        if d > 1:
            u = ind / (d - 1)
            if unit is None:
                unit = u
            if u != unit or u < 1:
                return "indent", f"entry {x.name} at depth {d} is indented by {ind}"
    return None


def all_flags(secs):
    out = []
    for s in secs:
        if s.vis is None:
            out.append(mk("sym", "visible " + s.name))
        if s.fold is None:
            out.append(mk("sym", "folded " + s.name))
        out += all_flags(s.subs)
    return out


def over_flags(rep, r, what, where, term, judge, secs):
    """evaluate a text term under every assignment of the flags"""
    flags = sorted(set(flags_of([term])) | set(all_flags(secs)), key=lambda x: x.a[0])
    if len(flags) > 12:
        rep.dunno(r, what, where, "too many flags")
        return None
    n = 0
    for asm in assignments(flags):
        t = assign(term, flag_fn(asm))
        tx = Text()
        s = tx.of(t)
        n += 1
        if s is None:
            rep.dunno(r, what, where, f"text not determined: {show(t)[:160]}")
            return None
        v = judge(tx, s, asm)
        if v is not None:
            yes = ", ".join(f"{k.a[0]}={'yes' if b else 'no'}" for k, b in asm.items()
                            if b != k.a[0].startswith("visible"))
            rep.bad(r, f"{what}:{v[0]}", where, f"{what}: {v[1]}" + (f" (when {yes})" if yes else ""))
            return False
    rep.ok(r, f"{what}: {n} assignments of the flags", where)
    return True


def yloc(o, default):
    ev = [e for e in o.events if e.kind in ("yield", "yieldfrom")]
    return ev[0].loc if ev else default


def rule_render(rep, ctx, p):
    C = ctx.card
    rep.rule("C10.render", "one heading per visible section without hidden or folded ancestor, in order, '#' per depth, then its "
                           "content, in <details> exactly when folded")
    rep.rule("C10.toc", "the table of contents lists exactly the rendered headings, in order, indented by depth")
    rep.rule("C10.save", "save writes exactly the rendered text, encoded as UTF-8")
    for what, secs in shapes(ctx.tier):
        card = file_card(C, secs)
        o = C.method(card, "render")
        texts = {}
        for r, meth, judge in (("C10.render", "render", judge_render), ("C10.toc", "get_toc", judge_toc)):
            o = C.method(card, meth)
            if o.raised is not None:
                rep.bad(r, what + ":raises", o.loc, f"{meth} of the {what} tree raises {short(o.raised)}")
                continue
            t = C.I.freeze(o.value)
            texts[meth] = t
            over_flags(rep, r, f"{what}", yloc(o, FILE), t, lambda tx, s, asm: judge(tx, s, secs, asm), secs)
            eff = [e for e in o.events if e.kind in ("setitem", "delitem", "setattr", "delattr", "mut")
                   and e.fn is not None and e.fn.op == "ref" and e.fn in tree_refs(C, card)]
            if eff:
                rep.bad(r, what + ":effect", eff[0].loc, f"{meth} changes the card")
        if "render" in texts:
            for cf in (FALSE, TRUE):
                judge_save(rep, C, card, what, cf, texts["render"])
    # the same after the card was shown once and edited since
    secs = [Sec("A", [Sec("B", vis=True, fold=False)], vis=True, fold=False), Sec("D", vis=True, fold=False)]
    card = file_card(C, secs)
    P = mk("sym", "earlier path")
    for m, a in (("render", []), ("get_toc", []), ("save", [P]), ("__repr__", [])):
        if C.method(card, m, a).raised is not None:
            return
    refs = {title(n): v for n, v in section_refs(C, card)}
    I = C.I
    I.reset_control()
    I.set_attr(refs[title("A")], "content", content("edited A"), None)
    I.set_attr(refs[title("B")], "visible", FALSE, None)
    I.set_attr(refs[title("D")], "folded", TRUE, None)
    C.method(card, "add", (), C.kwargs((path("A", "N"), content("old N"))))
    secs = [Sec("A", [Sec("B", vis=False), Sec("N", vis=True, fold=False)], vis=True, fold=False, content=content("edited A")),
            Sec("D", vis=True, fold=True)]
    texts = {}
    for r, meth, judge in (("C10.render", "render", judge_render), ("C10.toc", "get_toc", judge_toc)):
        o = C.method(card, meth)
        if o.raised is not None:
            rep.bad(r, "edited:raises", o.loc, f"{meth} raises {short(o.raised)} after the card was edited")
            continue
        texts[meth] = C.I.freeze(o.value)
        over_flags(rep, r, "after an edit", yloc(o, FILE), texts[meth], lambda tx, s, asm: judge(tx, s, secs, asm), secs)
    if "render" in texts:
        judge_save(rep, C, card, "after an edit", FALSE, texts["render"])


def section_refs(C, card):
    out = []
    todo = [C.data(card)]
    while todo:
        for g, (k, v) in C.I.dict_entries(todo.pop()):
            if v.op == "ref":
                out.append((nm(C.I.obj(v).attrs["title"]), v))
                s = C.I.obj(v).attrs.get("subsections")
                if s is not None and s.op == "ref":
                    todo.append(s)
    return out


def tree_refs(C, card):
    out = {card, C.data(card)}
    todo = [C.data(card)]
    while todo:
        d = todo.pop()
        out.add(d)
        for g, (k, v) in C.I.dict_entries(d):
            if v.op == "ref":
                out.add(v)
                s = C.I.obj(v).attrs.get("subsections")
                if s is not None and s.op == "ref":
                    todo.append(s)
    return out


def utf8(t):
    return is_str(t) and cval(t).lower().replace("_", "-") in ("utf-8", "utf8")


def arg(e, i, name, default=None):
    if len(e.args) > i:
        return e.args[i]
    for k, v in e.kw:
        if k == name:
            return v
    return default


def judge_save(rep, C, card, what, copy_files, rendered):
    r = "C10.save"
    P = mk("sym", "path")
    what = what + (" with files copied" if copy_files is TRUE else "")
    o = C.method(card, "save", [P], {"copy_files": copy_files})
    if o.raised is not None:
        rep.bad(r, what + ":raises", o.loc, f"save raises {short(o.raised)}")
        return
    fz = C.I.freeze
    chunks = []         # (guard, text, is bytes)
    handles = {}
    for e in o.events:
        if e.kind != "call" or e.fn is None:
            continue
        f = e.fn
        n = f.a[0] if f.op == "ext" else "." + f.a[1] if f.op == "attr" else ""
        if n in ("builtins.open", "io.open", "codecs.open") or n == ".open":
            mode = arg(e, 0 if n == ".open" else 1, "mode", const("r"))
            enc = dict(e.kw).get("encoding")
            if enc is None:
                enc = arg(e, 2 if n == ".open" else 3, "encoding")
            tgt = f.a[0] if n == ".open" else arg(e, 0, "file")
            if not about(fz(tgt), P):
                continue
            m = cval(mode) if is_str(mode) else None
            if m is None:
                rep.dunno(r, what, e.loc, "mode of the file not known")
                return
            if not set(m) & set("wxa+"):
                continue
            if "a" in m or ("+" in m and "w" not in m):
                rep.bad(r, "mode", e.loc, f"save opens the file with mode {m!r}: earlier content stays in the file")
                return
            if "b" not in m and not utf8(enc or NONE):
                rep.bad(r, "encoding", e.loc, f"save opens the file with encoding {show(enc) if enc is not None else 'of the locale'}, "
                                              "not UTF-8")
                return
            er = dict(e.kw).get("errors")
            if er is not None and er is not NONE and not (is_str(er) and cval(er) == "strict"):
                rep.bad(r, "errors", e.loc, f"save encodes with errors={show(er)}: not exactly the rendered text")
                return
            nl = dict(e.kw).get("newline")
            if nl is not None and nl is not NONE and not (is_str(nl) and cval(nl) in ("", "\n")):
                rep.bad(r, "newline", e.loc, f"save translates line ends to {show(nl)}")
                return
            handles[e.res] = "b" in m
            handles[fz(e.res)] = "b" in m
        elif n == ".write" and f.a[0] in handles:
            chunks.append((e.guard, fz(arg(e, 0, "data")), handles[f.a[0]], e.loc))
        elif n == ".writelines" and f.a[0] in handles:
            chunks.append((e.guard, mk("join", const(""), fz(arg(e, 0, "lines"))), handles[f.a[0]], e.loc))
        elif n in (".write_text", ".write_bytes") and about(fz(f.a[0]), P):
            if n == ".write_text":
                enc = arg(e, 1, "encoding")
                if not utf8(enc or NONE):
                    rep.bad(r, "encoding", e.loc, "save does not encode as UTF-8")
                    return
                er = dict(e.kw).get("errors")
                if er is not None and er is not NONE and not (is_str(er) and cval(er) == "strict"):
                    rep.bad(r, "errors", e.loc, f"save encodes with errors={show(er)}")
                    return
            chunks.append((e.guard, fz(arg(e, 0, "data")), n == ".write_bytes", e.loc))
        elif n == "builtins.print" and dict(e.kw).get("file") in handles:
            end = dict(e.kw).get("end", const("\n"))
            if len(e.args) != 1:
                rep.dunno(r, what, e.loc, "print with several values")
                return
            chunks.append((e.guard, concat([fz(e.args[0]), end]), False, e.loc))
    if not chunks:
        rep.dunno(r, what, FILE, "no write into the file found")
        return
    loc = chunks[-1][3]
    parts = []
    for g, t, isb, l in chunks:
        if isb:
            if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "encode":
                enc = t.a[1][0] if t.a[1] else dict(t.a[2]).get("encoding", const("utf-8"))
                if not utf8(enc) or len(t.a[1]) > 1 or dict(t.a[2]).get("errors") is not None:
                    rep.bad(r, "encoding", l, f"save encodes with {show(enc)}")
                    return
                t = t.a[0].a[0]
            else:
                rep.dunno(r, what, l, f"bytes written are {show(t)[:80]}")
                return
        parts.append((And(g), t))
    text = concat([ite(g, t, const("")) if g is not TRUE else t for g, t in parts])
    flags = flags_of([text, rendered])
    if len(flags) > 12:
        rep.dunno(r, what, loc, "too many flags")
        return
    for asm in assignments(flags):
        tx = Text()
        a, b = tx.of(assign(text, flag_fn(asm))), tx.of(assign(rendered, flag_fn(asm)))
        if a is None or b is None:
            rep.dunno(r, what, loc, f"text not determined: {show(assign(text, flag_fn(asm)))[:140]}")
            return
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            rep.bad(r, "text", loc, f"the {what} tree is saved with {show_line(tx, a[max(0, i - 20):i + 40])!r} where render gives "
                                    f"{show_line(tx, b[max(0, i - 20):i + 40])!r}")
            return
    rep.ok(r, what, loc)


def about(t, P):
    """t is the path P itself (or Path(P), str(P), ...)"""
    while True:
        if t is P:
            return True
        if t.op == "ite":
            return about(t.a[1], P) and about(t.a[2], P)
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("pathlib.Path", "os.fspath", "pathlib.PurePath",
                                                                    "os.path.abspath") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == "str":
            t = t.a[0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("resolve", "absolute", "expanduser") and not t.a[1]:
            t = t.a[0].a[0]
        else:
            return False
