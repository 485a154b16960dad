"""Hash-consed provenance terms and boolean normalisation."""
from __future__ import annotations


class T:
    __slots__ = ("op", "a", "n", "_hasref")

    def __repr__(self):
        return show(self)

    # identity hash/eq: terms are interned


_tab: dict = {}


def _k(x):
    if isinstance(x, T):
        return x
    if isinstance(x, tuple):
        return tuple(_k(i) for i in x)
    return (type(x).__name__, x)


def mk(op, *a) -> T:
    key = (op, _k(a))
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.a = a
        t.n = len(_tab)
        _tab[key] = t
    return t


def const(v) -> T:
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNBOUND = mk("unbound")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.a[1]


def is_str(t):
    return t.op == "const" and t.a[0] == "str"


BOOL_OPS = {"not", "and", "eq", "lt", "in", "is", "isinstance", "issubclass",
            "hasattr", "callable", "each", "exc", "while"}


def boolish(t):
    return t.op in BOOL_OPS or t is TRUE or t is FALSE


# ---------------------------------------------------------------- booleans
# boolean terms: consts, not(x), and(frozenset-like sorted tuple of lits),
# atoms.  A literal is (term, polarity) with term not a `not`.

def Not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def lit(t):
    """normalise a boolean term to a literal (atom, polarity)"""
    pol = True
    while t.op == "not":
        t = t.a[0]
        pol = not pol
    return t, pol


def And(lits):
    """lits: iterable of (atom,pol).  -> boolean term"""
    out = {}
    todo = list(lits)
    i = 0
    while i < len(todo):
        t, p = todo[i]
        i += 1
        if t is TRUE or t is FALSE:
            if (t is TRUE) != p:
                return FALSE
            continue
        if t.op == "not":
            todo.append((t.a[0], not p))
            continue
        if t.op == "and" and p:
            todo.extend(t.a[0])
            continue
        if t in out:
            if out[t] != p:
                return FALSE
            continue
        out[t] = p
    if not out:
        return TRUE
    # simplify nested negative ands against the positive facts
    changed = True
    while changed:
        changed = False
        for t, p in list(out.items()):
            if t.op == "and" and not p:
                rem = []
                sat = False
                for (u, q) in t.a[0]:
                    if u in out and u is not t:
                        if out[u] == q:
                            continue
                        sat = True
                        break
                    rem.append((u, q))
                if sat:
                    del out[t]
                    changed = True
                    break
                if not rem:
                    return FALSE
                if len(rem) < len(t.a[0]):
                    del out[t]
                    r = And(rem)
                    r, q = lit(r)
                    q = not q
                    if r is TRUE or r is FALSE:
                        if (r is TRUE) != q:
                            return FALSE
                    elif r in out:
                        if out[r] != q:
                            return FALSE
                    else:
                        out[r] = q
                    changed = True
                    break
    if not out:
        return TRUE
    items = sorted(out.items(), key=lambda x: x[0].n)
    if len(items) == 1:
        t, p = items[0]
        return t if p else Not(t)
    return mk("and", tuple(items))


def Or(terms):
    return Not(And([(t, False) for t in terms]))


def lits_of(t):
    """conjunctive literals of a boolean term"""
    t, p = lit(t)
    if t.op == "and" and p:
        return list(t.a[0])
    return [(t, p)]


_weights: dict = {}


def weight(c):
    """number of atoms of a nested conjunction"""
    w = _weights.get(c)
    if w is None:
        w = _weights[c] = sum(weight(t) for t, _q in c.a[0]) if c.op == "and" else 1
    return w


def ite(c, a, b) -> T:
    if a is b:
        return a
    c, p = lit(c)
    if not p:
        a, b = b, a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "and" and (b is a or weight(c) <= 64):
        r = a
        for (t, q) in reversed(c.a[0]):
            r = ite(t if q else Not(t), r, b)
        return r
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE and boolish(c):
        return c
    if a is FALSE and b is TRUE and boolish(c):
        return Not(c)
    return mk("ite", c, a, b)


def concat(parts):
    out = []
    for p in parts:
        if p.op == "str":
            p = p.a[0]
        if p.op == "concat":
            ps = list(p.a)
        else:
            ps = [p]
        for q in ps:
            if is_const(q) and not isinstance(cval(q), str):
                q = const(str(cval(q)))
            if is_str(q) and cval(q) == "":
                continue
            if out and is_str(q) and is_str(out[-1]):
                out[-1] = const(cval(out[-1]) + cval(q))
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1:
        if out[0].op in ("const", "concat"):
            return out[0]
        return mk("str", out[0])
    return mk("concat", *out)


def subterms(t, seen=None):
    """all distinct sub terms (including t), through tuples"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def contains(t, u):
    return u in subterms(t)


def has_unknown(t):
    return any(x.op == "unk" for x in subterms(t))


def subst(t, mapping, memo=None):
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, T):
            if x in mapping:
                return mapping[x]
            if x in memo:
                return memo[x]
            if not x.a or x.op == "const":
                memo[x] = x
                return x
            na = tuple(go(i) for i in x.a)
            if all(p is q for p, q in zip(na, x.a)):
                r = x
            elif x.op == "ite":
                r = ite(*na)
            elif x.op == "concat":
                r = concat(na)
            elif x.op == "and":
                r = And([(u, q) for (u, q) in na[0]])
            elif x.op == "not":
                r = Not(na[0])
            else:
                r = mk(x.op, *na)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            r = tuple(go(i) for i in x)
            if all(p is q for p, q in zip(r, x)):
                return x
            return r
        return x

    return go(t)


def show(t, depth=12) -> str:
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.a
    if o == "const":
        return repr(a[1])
    if o == "sym":
        return "$" + str(a[0])
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "ext":
        return str(a[0])
    if o == "not":
        return "¬" + show(a[0], d)
    if o == "and":
        return "(" + " ∧ ".join(("" if p else "¬") + show(x, d) for x, p in a[0]) + ")"
    if o == "ite":
        return f"({show(a[0], d)} ? {show(a[1], d)} : {show(a[2], d)})"
    if o == "call":
        args = [show(x, d) for x in a[1]] + [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{show(a[0], d)}({', '.join(args)})"
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ",)"
    if o == "concat":
        return "‹" + "·".join(show(x, d) for x in a) + "›"
    if o == "ref":
        return f"#{a[0]}"
    if o == "fn" or o == "cls":
        return f"<{a[0]}>"
    return f"{o}[{', '.join(show(x, d) for x in a)}]"


def show_guard(g):
    return " ∧ ".join(("" if p else "¬") + show(t, 8) for t, p in g) or "always"
