"""The model card as an abstract object: calls on an abstract card over a symbolic heap.

Titles, contents, paths and flags are uninterpreted (strdom, symbols), so one analysed
call stands for every title and content with the same relation to the tree (present /
missing at a given depth).  A condition on a symbol the tree was built from is split into
both cases.
"""
from __future__ import annotations

from . import strdom
from .core import AnalysisBroken
from .engine import Interp
from .strdom import content, title, txt
from .terms import (BOOL_OPS, FALSE, NONE, T, TRUE, And, concat, const, cval, has_unknown, is_const, is_str, lit, lits_of,
                    mk, show, show_guard, subterms)

MOD = "skops.card._model_card"
MISSING = mk("missing")


class Undecided(Exception):
    pass


class Outcome:
    """result of one call: value term, or the exception classes it ends in"""

    def __init__(self, value, raised, loc, events):
        self.value, self.raised, self.loc, self.events = value, raised, loc, events


class CardModel:
    def __init__(self, root, overlay=None):
        self.I = I = Interp(root, "skops", overlay)
        strdom.install(I)
        I.known_args = self._known
        model = mk("sym", "model")

        def assume(a):
            if a.op == "isinstance" and a.a[0] is model:
                return False        # a loaded estimator
            if a.op == "sym" and str(a.a[0]).startswith("plot file"):
                return True         # the path of a file is not empty
            return None
        I.assume_fn = assume
        self.mod = I.load_module(MOD)
        if self.mod is None:
            raise AnalysisBroken("no module " + MOD)
        self.cls = {}
        for n in ("Card", "Section", "PlotSection", "TableSection"):
            c = I.get_global(MOD, n)
            if c is None or c.op != "cls":
                raise AnalysisBroken(f"{MOD}.{n} is not a class any more")
            self.cls[n] = c
        I.enter(MOD)
        I.reset_control()
        for f in ("load", "loads", "dump", "dumps"):
            g = I.get_global("skops.io", f)
            if g is not None and g.op == "fn":      # loading an archive is not the card's business
                q = I.fns[g.a[1]].qual
                I.intercepts[q] = lambda I, args, kw, node, q=q: I.opaque_call(mk("ext", q), args, kw, node)
        self.splitter = I.get_global(MOD, "split_subsection_names")
        if self.splitter is not None and self.splitter.op != "fn":
            self.splitter = None
        if self.splitter is not None:
            self._wrap_splitter()
        self.data_attr = self._find_data()

    def _wrap_splitter(self):
        """where the splitter's result is not an exact list, assume the specified one (rule_split judges it)"""
        I = self.I
        q = I.fns[self.splitter.a[1]].qual

        def h(I, args, kw, node):
            ps = strdom.parts_of(args[0]) if len(args) == 1 and not kw else None
            if ps is None:
                return NotImplemented
            del I.intercepts[q]
            n0 = len(I.strnotes)
            try:
                v = I.call(self.splitter, args, kw, node)
            finally:
                I.intercepts[q] = h
            try:
                es = I.entries(v)
            except Exception:
                es = [((1,), v)]
            if len(I.strnotes) > n0 or all(not g and x.op in ("txt", "const", "concat") for g, x in es):
                return v
            return strdom.ideal(I, ps)
        I.intercepts[q] = h

    def _known(self, args, kw):
        """the heap objects and literals among the arguments (recursion over the known tree)"""
        out = []
        for a in list(args) + [v for k, v in sorted(kw.items()) if isinstance(v, T)]:
            a = self.I.simp(a)
            if a.op == "ditems" or a.op == "dvalues":
                a = a.a[0]
            if a.op in ("ref", "const"):
                out.append(a)
        return tuple(out) if any(x.op == "ref" for x in out) else None

    # -------------------------------------------------------------- calls
    def run(self, f, args=(), kw=None):
        """call f under the current assumptions -> Outcome"""
        I = self.I
        I.reset_control()
        n0 = len(I.events)
        v = I.call(f, list(args), dict(kw or {}), None)
        ev = I.events[n0:]
        dead = I.dead()
        I.reset_control()
        raises = [e for e in ev if e.kind == "raise" and not e.caught]
        if dead:
            names = set()
            for e in raises:
                names |= set(e.x or ())
            if len(raises) > 1 and any(e.guard for e in raises):
                names = None
            return Outcome(None, names if raises else {"?"}, raises[-1].loc if raises else None, ev)
        cond = [e for e in raises if e.guard]
        out = Outcome(v, None, None, ev)
        out.maybe = cond
        return out

    def method(self, obj, name, args=(), kw=None):
        I = self.I
        I.reset_control()
        f = I.get_attr(obj, name)
        return self.run(f, args, kw)

    def new_card(self, template=NONE, **kw):
        self.I.reset_control()
        c = self.I.call(self.cls["Card"], [kw.pop("model", mk("sym", "model"))], {"template": template, **kw}, None)
        self.I.reset_control()
        if c.op != "ref":
            raise AnalysisBroken("Card(...) does not give an instance")
        return c

    def kwargs(self, *pairs):
        """a **kwargs mapping with arbitrary keys"""
        d = self.I.new("dict")
        for k, v in pairs:
            self.I.log(self.I.obj(d), "set", k, v)
        return {"**": [d]}

    def _find_data(self):
        """the attribute holding the sections: the one add() writes the new title to"""
        c = self.new_card()
        I = self.I
        o = self.method(c, "add", (), self.kwargs((txt("probe"), content("probe"))))
        if o.raised:
            raise AnalysisBroken("Card().add raises")
        # (a class attribute would be a defect that the rules report, not a reason to give up)
        for a, v in {**I.classes[self.cls["Card"].a[0]].ns, **I.obj(c).attrs}.items():
            if isinstance(v, T) and v.op == "ref" and I.obj(v).kind == "dict" and any(
                    kv[1].op == "ref" and I.typeof(kv[1]) in self.cls.values() for g, kv in I.dict_entries(v)):
                return a
        raise AnalysisBroken("no attribute of the card holds the added section")

    # -------------------------------------------------------------- trees
    def section(self, name, subs=(), cls="Section", **fields):
        """an arbitrary section: symbolic content and flags"""
        I = self.I
        d = I.new("dict")
        for s in subs:
            I.log(I.obj(d), "set", I.get_attr(s, "title"), s)
        kw = {"title": title(name), "content": content("old " + name), "subsections": d,
              "visible": mk("sym", "visible " + name), "folded": mk("sym", "folded " + name)}
        kw.update(fields)
        return I.call(self.cls[cls], [], kw, None)

    def card_with(self, sections):
        I = self.I
        c = self.new_card()
        d = I.new("dict")
        for s in sections:
            I.log(I.obj(d), "set", I.get_attr(s, "title"), s)
        I.obj(c).attrs[self.data_attr] = d
        return c

    def data(self, card):
        return self.I.get_attr(card, self.data_attr)

    def tree(self, d, depth=0):
        """[(guard, key, ref, fields, subtree)] of a dict of sections"""
        I = self.I
        if depth > 12:
            raise Undecided("cyclic tree")
        d = I.simp(d)
        if d.op != "ref" or I.obj(d).kind != "dict":
            raise Undecided("the sections are not in a dict: " + show(d)[:80])
        out = []
        for g, (k, v) in I.dict_entries(d):
            v = I.simp(v)
            if v.op != "ref":
                raise Undecided("a section is " + show(v)[:80])
            o = I.obj(v)
            f = {a: I.simp(x) for a, x in o.attrs.items()}
            sub = f.pop("subsections", None)
            if sub is None:
                raise Undecided("section without subsections")
            out.append((g, k, v, f, self.tree(sub, depth + 1), sub))
        return out

    # -------------------------------------------------------------- case split
    def explore(self, f, limit=64):
        """run f() under every assignment of the symbolic flags its outcome depends on.
        f() -> list of terms whose residual conditions matter (or raises Undecided).
        Yields (assumptions, result of f)"""
        I = self.I
        out = []
        todo = [{}]
        while todo:
            asm = todo.pop()
            if len(out) + len(todo) > limit:
                raise Undecided("too many cases")
            I.assume = dict(asm)
            try:
                r, terms = f()
            finally:
                I.assume = {}
            split = None
            for t in terms:
                for a in subterms(t):
                    if a in asm:
                        continue
                    if a.op == "sym" and str(a.a[0]).startswith(("visible ", "folded ", "flag ")) and _in_bool(t, a):
                        split = a
                        break
                if split is not None:
                    break
            if split is None:
                out.append((asm, r))
            else:
                todo.append({**asm, split: True})
                todo.append({**asm, split: False})
        return out


def _in_bool(t, a):
    return True


def path(*names):
    """'n0/n1/...' ; a name may be '' for an empty part"""
    out = []
    for i, n in enumerate(names):
        if i:
            out.append(const("/"))
        out.append(txt(n) if n else const(""))
    return concat(out) if len(out) > 1 else out[0]
