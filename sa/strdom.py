"""Abstract strings for titles, paths and contents.

A text atom is ``txt(name, flags)``: an arbitrary non-empty string, different from every
other atom and from every literal.  The flags say how far it has been normalised:

    l, r   surrounding blanks removed on the left / right
    u      the escape sequence ``\\/`` replaced by ``/``
    c      arbitrary content (its internal structure is not a path)

A path is a concatenation of raw atoms (no flags) and literal "/" separators, a title is
the atom with the flags "lru".  A string operation with constant parameters is classified
by its effect as a function on strings (it is a pure library function with literal
arguments, so this is constant folding of the library, not execution of the analysed
code): it maps raw text to the atom with the corresponding flags, or to an opaque term.
"""
from __future__ import annotations

import itertools
import re

from .terms import T, const, cval, is_const, is_str, mk, concat, TRUE, FALSE

TOK = ["a", " ", "\n", "\\/", "\\b", ".", "-", "\u00fc"]


def raws(maxlen=3):
    """texts of one path part: no unescaped '/', not ending with a backslash, not blank"""
    out = []
    for n in range(1, maxlen + 1):
        for t in itertools.product(TOK, repeat=n):
            s = "".join(t)
            if s.strip():
                out.append(s)
    return out


RAWS = raws()
FUN = {
    "": lambda s: s,
    "l": lambda s: s.lstrip(),
    "r": lambda s: s.rstrip(),
    "u": lambda s: s.replace("\\/", "/"),
}


def apply_flags(s, flags):
    for f in "lru":
        if f in flags:
            s = FUN[f](s)
    return s


SPEC_SPLIT = re.compile(r"(?<!\\)/")


def txt(name, flags=""):
    return mk("txt", name, "".join(sorted(flags)))


def title(name):
    return txt(name, "lru")


def content(name):
    return txt(name, "c")


def classify(f, flags):
    """the flags after applying `f` to text with `flags`; None: something else"""
    dom = [apply_flags(s, flags) for s in RAWS]
    try:
        got = [f(s) for s in dom]
    except Exception:
        return None
    if not all(isinstance(x, str) for x in got):
        return None
    for add in ("", "l", "r", "lr", "u", "lu", "ru", "lru"):
        fl = "".join(sorted(set(flags) | set(add)))
        if all(apply_flags(s, fl) == g for s, g in zip(RAWS, got)):
            return fl
    return None


_memo = {}


def classify_memo(key, f, flags):
    k = (key, flags)
    if k not in _memo:
        _memo[k] = classify(f, flags)
    return _memo[k]


def parts_of(t):
    """pieces of a path term, or None"""
    if t.op == "txt":
        return [t]
    if t.op == "str" and t.a[0].op == "txt":
        return [t.a[0]]
    if t.op == "concat" and all(is_str(p) or p.op == "txt" for p in t.a) and any(p.op == "txt" for p in t.a):
        return list(t.a)
    return None


def split_class(key, f):
    """how a splitting function with constant parameters treats a path:
    the flags of the pieces when it splits exactly at unescaped slashes, else None"""
    if key in _memo:
        return _memo[key]
    sample = ["a", " a ", "b\\/c", " \\/b\n", "a.b", "x y", "d\\ "]
    res = None
    cands = {"": True, "lr": True, "l": True, "r": True, "u": True, "lru": True, "inner": True}
    ok = True
    for n in (1, 2, 3):
        for ps in itertools.product(sample, repeat=n):
            for lead in ("", "/"):
                whole = [""] * bool(lead) + list(ps)
                try:
                    got = f("/".join(whole))
                except Exception:
                    ok = False
                    break
                for c in cands:
                    if cands[c] and got != [apply_flags(p, piece_flags(c, i, len(whole))) for i, p in enumerate(whole)]:
                        cands[c] = False
    if ok:
        for c in cands:
            if cands[c]:
                res = c
                break
    _memo[key] = res
    return res


def piece_flags(c, i, n):
    if c == "inner":        # blanks around the separators removed, not those at the ends
        return ("" if i == 0 else "l") + ("" if i == n - 1 else "r")
    return c


def do_split(I, base, key, f):
    ps = parts_of(base)
    if ps is None:
        return None
    c = split_class(key, f)
    if c is None:
        I.strnotes.append((key, I.loc(I.cur) if I.frames else ("?", 0)))
        return None
    groups = [[]]
    for p in ps:
        if is_str(p):
            for i, b in enumerate(SPEC_SPLIT.split(cval(p))):
                if i:
                    groups.append([])
                if b:
                    groups[-1].append(const(b))
        else:
            groups[-1].append(p)
    items = []
    for i, g in enumerate(groups):
        fl = piece_flags(c, i, len(groups))
        if len(g) == 1 and is_str(g[0]):
            items.append(const(apply_flags(cval(g[0]), fl)))
        elif len(g) == 1 and "c" not in g[0].a[1]:
            items.append(txt(g[0].a[0], set(g[0].a[1]) | set(fl)))
        else:
            items.append(concat(g))
    return I.new_list(items)


def ideal(I, ps):
    groups = [[]]
    for p in ps:
        if is_str(p):
            for i, b in enumerate(SPEC_SPLIT.split(cval(p))):
                if i:
                    groups.append([])
                if b.strip():
                    groups[-1].append(const(b.strip().replace("\\/", "/")))
        else:
            groups[-1].append(txt(p.a[0], "lru"))
    return I.new_list([concat(g) if len(g) != 1 else g[0] for g in groups])


def const_args(args, kw):
    return all(is_const(a) for a in args) and all(isinstance(v, T) and is_const(v) for v in kw.values())


def apply_str(I, base, key, f):
    """unary string function with constant parameters"""
    ps = parts_of(base)
    if ps is None:
        return None
    if len(ps) == 1:
        p = ps[0]
        if "c" in p.a[1]:
            return None
        fl = classify_memo(key, f, p.a[1])
        return None if fl is None else txt(p.a[0], fl)
    # on a whole path: only blanks at the ends, or a purely local rewriting
    fl = classify_memo(key, f, "")
    if fl is None or not all("c" not in p.a[1] for p in ps if p.op == "txt"):
        return None
    out = list(ps)
    if "u" in fl:
        return None         # unescaping a whole path creates new separators
    if "l" in fl:
        i = 0
        if is_str(out[0]):
            return None if out[0].a and cval(out[0]) != cval(out[0]).lstrip() else base
        out[i] = txt(out[i].a[0], set(out[i].a[1]) | {"l"})
    if "r" in fl:
        if out[-1].op == "txt":
            out[-1] = txt(out[-1].a[0], set(out[-1].a[1]) | {"r"})
        elif cval(out[-1]) != cval(out[-1]).rstrip():
            return None
    return concat(out) if len(out) != 1 else out[0]


UNARY = {"strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "lower", "upper", "title",
         "casefold", "capitalize", "expandtabs"}
SPLITS = {"split", "rsplit", "splitlines"}


def method(I, base, name, args, kw, node):
    b = base
    if b.op == "str":
        b = b.a[0]
    if b.op in ("txt", "concat") and const_args(args, kw):
        av = [cval(a) for a in args]
        kv = {k: cval(v) for k, v in kw.items()}
        key = (name, tuple(av), tuple(sorted(kv.items())))
        if name in UNARY:
            r = apply_str(I, b, key, lambda s: getattr(s, name)(*av, **kv))
            if r is not None:
                return r
            if b.op == "txt" and "c" not in b.a[1] and name == "replace":
                return mk("call", mk("attr", b, name), tuple(args), I.kwt(kw))
        if name in SPLITS:
            r = do_split(I, b, key, lambda s: getattr(s, name)(*av, **kv))
            if r is not None:
                return r
        if name in ("startswith", "endswith") and av and isinstance(av[0], str):
            ps = parts_of(b)
            e = None if not ps else ps[0] if name == "startswith" else ps[-1]
            if ps and is_str(e) and len(cval(e)) >= len(av[0]):
                return const(getattr(cval(e), name)(av[0]))
            if ps and e.op == "txt" and av[0] == "/" and "u" not in e.a[1] and "c" not in e.a[1] and name == "startswith":
                return FALSE
    # compiled patterns
    if base.op == "call" and base.a[0].op == "ext" and base.a[0].a[0] == "re.compile" and name in ("split", "sub"):
        return regex(I, "re." + name, [*base.a[1], *args], kw)
    return None


def regex(I, name, args, kw):
    pats = list(args)
    if name in ("re.split", "re.sub") and const_args(pats, kw) and all(is_str(x) for x in pats[:2]):
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = getattr(re, name[3:])(*[cval(x) for x in pats], **{k: cval(v) for k, v in kw.items()})
        except Exception:
            return None
        return const(r) if isinstance(r, str) else I.new_list([const(x) for x in r])
    if name == "re.split" and len(pats) >= 2 and is_str(pats[0]) and parts_of(pats[1]):
        rest = pats[2:]
        if const_args(rest, kw):
            rv = [cval(x) for x in rest]
            kv = {k: cval(v) for k, v in kw.items()}
            p = cval(pats[0])
            return do_split(I, pats[1], (name, p, tuple(rv), tuple(sorted(kv.items()))),
                            lambda s: re.split(p, s, *rv, **kv))
    if name == "re.sub" and len(pats) >= 3 and is_str(pats[0]) and is_str(pats[1]) and parts_of(pats[2]):
        rest = pats[3:]
        if const_args(rest, kw):
            rv = [cval(x) for x in rest]
            kv = {k: cval(v) for k, v in kw.items()}
            p, q = cval(pats[0]), cval(pats[1])
            return apply_str(I, pats[2], (name, p, q, tuple(rv), tuple(sorted(kv.items()))),
                             lambda s: re.sub(p, q, s, *rv, **kv))
    return None


def _ni(r):
    return NotImplemented if r is None else r


def install(I):
    I.strnotes = []
    old = I.opaque_method_hook

    def hook(I, base, name, args, kw, node):
        r = method(I, base, name, args, kw, node)
        if r is None and old is not None:
            r = old(I, base, name, args, kw, node)
        return r
    I.opaque_method_hook = hook
    for n in ("re.split", "re.sub"):
        I.ext_handlers[n] = (lambda n: lambda I, args, kw, node: _ni(regex(I, n, args, kw)))(n)
    for n in UNARY | SPLITS:
        I.ext_handlers["builtins.str." + n] = (
            lambda n: lambda I, args, kw, node: _ni(method(I, args[0], n, list(args[1:]), kw, node)) if args else NotImplemented)(n)


# ---------------------------------------------------------------- library string terms
class NotString(Exception):
    pass


class _Break(Exception):
    pass


def evaluate(t, env):
    """value of a term made of library string functions with literal arguments, over the
    strings in env (constant folding of the library)"""
    if t in env:
        return env[t]
    if t.op == "const":
        return cval(t)
    if t.op == "ite":
        return evaluate(t.a[1] if evaluate(t.a[0], env) else t.a[2], env)
    if t.op == "not":
        return not evaluate(t.a[0], env)
    if t.op == "and":
        return all(bool(evaluate(u, env)) == q for u, q in t.a[0])
    if t.op == "in":
        return evaluate(t.a[0], env) in evaluate(t.a[1], env)
    if t.op == "eq":
        return evaluate(t.a[0], env) == evaluate(t.a[1], env)
    if t.op == "len":
        return len(evaluate(t.a[0], env))
    if t.op == "concat":
        return "".join(evaluate(x, env) for x in t.a)
    if t.op == "str":
        return str(evaluate(t.a[0], env))
    if t.op == "join":
        return evaluate(t.a[0], env).join(evaluate(t.a[1], env))
    if t.op in ("list", "tuple"):
        out = []
        for e in t.a:
            if e.op != "ent":
                out.append(evaluate(e, env))
                continue
            if e.a[1] not in ("append", "extend"):
                raise NotString(e.a[1])
            out += comprehend(e.a[0], e.a[3], env, e.a[1])
        return out
    if t.op == "map":
        raise NotString("map")
    if t.op == "item":
        b = evaluate(t.a[0], env)
        k = t.a[1]
        if k.op == "slice":
            return b[slice(*[evaluate(x, env) for x in k.a])]
        return b[evaluate(k, env)]
    if t.op == "call":
        f, args, kw = t.a[0], t.a[1], t.a[2]
        av = [evaluate(x, env) for x in args]
        kv = {k: evaluate(v, env) for k, v in kw}
        if f.op == "attr" and f.a[1] in UNARY | SPLITS | {"startswith", "endswith", "join", "find", "rfind", "count",
                                                          "partition", "rpartition", "isspace"}:
            b = f.a[0]
            if b.op == "call" and b.a[0].op == "ext" and b.a[0].a[0] == "re.compile":
                raise NotString("re.compile")
            b = evaluate(b, env)
            if not isinstance(b, str):
                raise NotString("method of " + type(b).__name__)
            return getattr(b, f.a[1])(*av, **kv)
        if f.op == "attr" and f.a[0].op == "call" and f.a[0].a[0].op == "ext" and f.a[0].a[0].a[0] == "re.compile" \
                and f.a[1] in ("split", "sub", "findall"):
            c = f.a[0]
            return getattr(re.compile(*[evaluate(x, env) for x in c.a[1]]), f.a[1])(*av, **kv)
        if f.op == "ext" and f.a[0] in ("re.split", "re.sub", "re.findall"):
            return getattr(re, f.a[0][3:])(*av, **kv)
        if f.op == "ext" and f.a[0].startswith("builtins.str.") and f.a[0][13:] in UNARY | SPLITS:
            return getattr(str, f.a[0][13:])(*av, **kv)
    raise NotString(t.op)


def comprehend(g, val, env, op):
    from .terms import lits_of
    each = [u for u, q in lits_of(g) if u.op == "each" and q]
    rest = [(u, q) for u, q in lits_of(g) if u.op != "each"]
    if len(each) > 1:
        raise NotString("nested loop")
    if not each:
        if all(bool(evaluate(u, env)) == q for u, q in rest):
            v = evaluate(val, env)
            return list(v) if op == "extend" else [v]
        return []
    src = each[0].a[0]
    out = []
    for x in evaluate(src, env):
        e2 = {**env, mk("elem", src): x}
        if all(bool(evaluate(u, e2)) == q for u, q in rest):
            v = evaluate(val, e2)
            out += list(v) if op == "extend" else [v]
    return out


def spec_split(s):
    return [p.strip().replace("\\/", "/") for p in SPEC_SPLIT.split(s)]


def path_samples(t):
    """paths over the separator, escapes, blanks and every literal mentioned in the term"""
    from .terms import subterms
    extra = sorted({cval(c) for c in subterms(t) if is_str(c) and 0 < len(cval(c)) <= 6})
    toks = ["a", " ", "/", "\\/", "\t", "\\b", "\u00fc"] + [x for x in extra if x not in ("a", " ", "/", "\\/", "\t")]
    for n in range(1, 5):
        for p in itertools.product(toks, repeat=n):
            yield "".join(p)
            if n == 4 and len(toks) > 9:
                break
    for x in toks:
        for y in toks:
            for z in toks:
                yield "a" + x + y + "/ b" + z
                yield x + "a" + y + z + "b"
