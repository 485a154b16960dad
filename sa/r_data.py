"""C04 / C05 / C07: what is loaded is what was dumped.

Every registered writer is composed with the reader it names (sa/trip.py): the loaded value and the mutations applied to
it are terms over the dumped object OBJ.  The rules compare them with the components an object of that type has."""
from __future__ import annotations

import re

from .audit_model import AuditModel
from .core import *
from .core import T
from .iomodel import OBJ, SC
from .r_audit import falsifier, opaque, structural
from .trip import Trip, TYPEOF, is_call, leaves, meth, trips

ELEM = mk("elem", OBJ)


def a_(*names):
    t = OBJ
    for n in names:
        t = mk("attr", t, n)
    return t


def tname(typ):
    if typ.op == "ext":
        return typ.a[0]
    if typ.op == "typeof":
        return "type(" + (typ.a[0].a[0] if typ.a[0].op == "ext" else "?") + ")"
    if typ.op == "ite":
        for x in (typ.a[1], typ.a[2]):
            n = tname(x)
            if n not in ("builtins.None", "None", "?"):
                return n
    if typ.op == "elem" or typ is NONE:
        return "?"
    return show(typ)[:60]


def get_trips(M):
    if not hasattr(M, "_trips"):
        M._trips = trips(M)
    return M._trips


def by_type(M):
    out = {}
    for t in get_trips(M):
        out.setdefault(tname(t.typ), []).append(t)
    return out


# ------------------------------------------------------------------ helpers
def live_leaves(t):
    """[(guard, leaf)] of the loaded value that are reachable when the writer did not refuse"""
    out = []
    for g, l in leaves(t.value):
        g = And(lits_of(g) + lits_of(t.path) + [(t.refused, False)])
        if g is FALSE:
            continue
        out.append((g, l))
    return out


def terms_of(t):
    """all terms the loaded object is built from"""
    out = []
    for g, l in live_leaves(t):
        out.append(l)
    for k, b, args, g, loc in t.muts:
        if k != "call:__init__":
            out.extend(args)
            out.append(b)
    return out


def flow(t):
    s = set()
    for x in terms_of(t):
        subterms(x, s)
    return s


PURE_OPS = {"typeof", "modof", "elem", "each", "len", "dictof", "json", "decoded", "is", "eq", "isinstance", "hasattr",
            "item", "ent", "kv", "star", "dkeys", "ditems", "dvalues", "ite", "and", "not", "in", "concat", "str",
            "issubclass", "saved", "tuple", "list", "set", "dict"}


def unknown_use(t, known=()):
    """is OBJ read in a way the analysis has no model for? (then nothing is concluded from an absent component)"""
    for x in flow(t):
        if x.op in ("unk", "lv", "again", "rec", "while", "unbound", "carried"):
            return "unmodelled value " + x.op
        if x.op == "attr" and x.a[0] is OBJ and x.a[1] not in known and x.a[1] not in COMMON_ATTRS:
            return f"reads .{x.a[1]}"
        if x.op == "call":
            ops = list(x.a[1]) + [v for _k, v in x.a[2]]
            if OBJ in ops and not (x.a[0].op == "ext" and x.a[0].a[0] in KNOWN_FUNCS):
                if x.a[0] is TYPEOF:
                    continue
                return "passes the object to " + show(x.a[0])[:60]
            for y in ops:
                if y.op == "star" and y.a and y.a[0] is OBJ:
                    return "unpacks the object"
    return None


COMMON_ATTRS = {"__class__", "__name__", "__module__", "__reduce__", "__getstate__", "__dict__"}
KNOWN_FUNCS = {"builtins.id", "builtins.type", "builtins.getattr", "builtins.hasattr", "builtins.isinstance",
               "numpy.isscalar", "numpy.ndarray", "numpy.empty", "numpy.asarray", "numpy.asanyarray", "json.dumps",
               "builtins.dict", "builtins.list", "builtins.tuple", "builtins.set", "numpy.load", "scipy.sparse.load_npz",
               "builtins.len", "builtins.str", "builtins.repr", "sys.modules.get"}


def plain_false(g, extra=()):
    """falsifier of g restricted to atoms with a plain meaning -> None (tautology) / list / 'cap'"""
    return falsifier(g)


def each_true(t):
    return True if t.op == "each" else None


def decide_guard(rep, rid, what, where, g, t, msg, key):
    """g must hold whenever the writer did not refuse"""
    f = Or([assign_bool(g, each_true), assign_bool(t.refused, each_true)] + [assign_bool(r, each_true) for r in t.raises]
           + [Not(assign_bool(t.path, each_true))])
    fz = falsifier(f, cap=16)
    if fz is None:
        rep.ok(rid, what, where)
    elif fz == "cap" or any(opaque(x) for x, _ in fz):
        rep.dunno(rid, what, where, "guard not modelled")
    else:
        rep.bad(rid, key, where, msg + (f" when {show_guard(fz)[:160]}" if fz else ""))


def component(rep, rid, t, label, name, alts, known, pred=None):
    """some way of reading the component must flow into the loaded object"""
    fl = flow(t)
    if any(a in fl for a in alts) or (pred and any(pred(x) for x in fl)):
        rep.ok(rid, f"{label}: {name} is restored", t.loc)
        return True
    u = unknown_use(t, known)
    if u:
        rep.dunno(rid, f"{label}: {name} is restored", t.loc, u)
    else:
        rep.bad(rid, f"{label}:{name}", t.loc, f"{t.qual.split('.')[-1]} and its reader lose {name} of {label}")
    return False


def norm_args(x):
    return list(x.a[1]), dict(x.a[2])


def positions(rep, rid, t, label, call, spec):
    """spec: [(position, keyword, {acceptable terms}, name)]"""
    args, kw = norm_args(call)
    if any(x.op == "star" for x in args) or "**" in kw:
        rep.dunno(rid, f"{label}: constructor arguments", t.loc, "unpacked arguments")
        return
    allterms = [s for _p, _k, s, _n in spec]
    for pos, k, ok, name in spec:
        v = args[pos] if pos is not None and pos < len(args) else kw.get(k)
        what = f"{label}: {name} is passed to {show(call.a[0])[:40]}"
        if v is None:
            continue            # absent: the component rule reports it
        if v in ok:
            rep.ok(rid, what, t.loc)
        elif v.op == "ite" and any(changed(lg, l, ok) for lg, l in leaves(v)):
            rep.bad(rid, f"{label}:{name}:position", t.loc,
                    f"the reader of {label} gets {show(v)[:80]} instead of {name}")
        elif any(v in o for o in allterms) or is_const(v):
            rep.bad(rid, f"{label}:{name}:position", t.loc,
                    f"the reader of {label} passes {show(v)[:80]} where {name} belongs")
        else:
            rep.dunno(rid, what, t.loc, show(v)[:100])


def changed(g, leaf, ok):
    """a constant takes the place of the value although the value may differ from it"""
    if leaf in ok or not is_const(leaf):
        return False

    def f(x):
        if x.op in ("is", "eq") and leaf in x.a and any(v in ok for v in x.a):
            return False
        return None
    fz = falsifier(Not(assign_bool(And(lits_of(g)), f)))
    return isinstance(fz, list) and all(x in ok or x.op in ("is", "eq", "in", "isinstance") and
                                        any(v in ok for v in x.a) for x, _ in fz)


def inst_of(t, leaf, base):
    return base is leaf or any(l is base for _g, l in live_leaves(t))


# ------------------------------------------------------------------ the type of the loaded object
FINAL = {"builtins.slice", "types.FunctionType", "types.MethodType", "numpy.ufunc", "operator.attrgetter",
         "operator.itemgetter", "operator.methodcaller", "type(builtins.len)", "builtins.bool", "builtins.NoneType",
         "builtins.range", "builtins.memoryview",
         "numpy._core._multiarray_umath._ArrayFunctionDispatcher", "numpy.core._multiarray_umath._ArrayFunctionDispatcher"}
RESULT_OF = {"numpy.load": "numpy.ndarray", "numpy.empty": "numpy.ndarray", "numpy.zeros": "numpy.ndarray",
             "numpy.array": "numpy.ndarray", "numpy.asarray": "numpy.ndarray", "numpy.full": "numpy.ndarray",
             "numpy.frombuffer": "numpy.ndarray",
             "numpy.ma.masked_array": "numpy.ma.MaskedArray", "numpy.ma.array": "numpy.ma.MaskedArray"}


def leaf_type(t, leaf):
    """('same',) | ('fixed', name) | ('json',) | ('npz',) | None"""
    if leaf is OBJ:
        return ("same",)
    if leaf.op == "attr" and leaf.a[1] == "dtype":
        return ("fixed", "numpy.dtype")
    if leaf.op == "json":
        return ("json",)
    if leaf.op == "decoded":
        return ("fixed", "numpy.ndarray") if cval(leaf.a[0]) == "numpy.load" else ("npz",)
    b = leaf.op.split(":")[0]
    if b in ("list", "dict", "set", "tuple"):
        return ("fixed", "builtins." + b)
    if leaf.op in ("dictof",):
        return ("fixed", "builtins.dict")
    if leaf.op == "const":
        return ("fixed", "builtins." + leaf.a[0])
    if leaf.op == "concat" or leaf.op == "str":
        return ("fixed", "builtins.str")
    if leaf.op == "call":
        f, args = leaf.a[0], leaf.a[1]
        if f is TYPEOF:
            return ("same",)
        if f.op == "attr" and f.a[1] == "__new__" and args:
            if args[0] is TYPEOF:
                return ("same",)
            if args[0].op == "ext":
                return ("fixed", args[0].a[0])
        if f.op == "ext" and f.a[0].endswith(".__new__") and args:
            if args[0] is TYPEOF:
                return ("same",)
            return ("fixed", args[0].a[0]) if args[0].op == "ext" else None
        if f.op == "attr" and f.a[1] == "view" and args:
            if args[0] is TYPEOF:
                return ("same",)
        if f.op == "ext":
            n = f.a[0]
            if n == "builtins.getattr":
                return None
            return ("fixed", RESULT_OF.get(n, n))
    return None


def exact_type_facts(tn, same):
    """facts about an object whose type is a proper subclass of tn (same=False) or tn itself"""
    mod, nm = tn.rsplit(".", 1) if "." in tn else ("builtins", tn)

    def f(x):
        if x.op in ("is", "eq") and TYPEOF in x.a:
            o = x.a[0] if x.a[1] is TYPEOF else x.a[1]
            if o.op == "ext":
                return same if o.a[0] == tn else (False if same else None)
        if x.op == "eq" and any(u.op == "concat" and u.a and u.a[0].op == "modof" for u in x.a):
            c = x.a[0] if is_str(x.a[0]) else x.a[1]
            if is_str(c) and cval(c) in (tn, ALIASES.get(tn)):
                return same
        if x.op == "eq" and any(u is mk("attr", TYPEOF, "__name__") for u in x.a):
            c = x.a[0] if is_str(x.a[0]) else x.a[1]
            if is_str(c) and cval(c) == nm and same:
                return True
        if x.op == "isinstance" and x.a[0] is OBJ and x.a[1].op == "ext" and x.a[1].a[0] == tn:
            return True
        if x.op == "issubclass" and x.a[0] is TYPEOF and x.a[1].op == "ext" and x.a[1].a[0] == tn:
            return True
        return None
    return f


ALIASES = {"numpy.ma.MaskedArray": "numpy.ma.core.MaskedArray"}


def rule_type(rep, M, prefix, only=None):
    rid = prefix + ".type"
    rep.rule(rid, "the loaded object has the type of the dumped one: it is made by the archived class, or by a fixed "
                  "class the type cannot differ from (final type, exact type test before writing, or a decoder followed "
                  "by an exact type test)")
    for tn, ts in by_type(M).items():
        for t in ts:
            if t.value is None:
                continue
            for g, leaf in live_leaves(t):
                what = f"{tn} via {t.kind}: {show(leaf)[:60]}"
                lt = leaf_type(t, leaf)
                if lt is None:
                    rep.dunno(rid, what, t.cls_loc, "loaded value not modelled")
                elif lt[0] == "same":
                    rep.ok(rid, what, t.cls_loc)
                elif lt[0] == "json":
                    if leaf.a[0] is not OBJ:
                        rep.dunno(rid, what, t.loc, "json of " + show(leaf.a[0])[:60])
                        continue

                    def same_t(x):
                        return x.op in ("is", "eq") and TYPEOF in x.a and any(
                            u.op == "typeof" and u.a[0].op == "json" for u in x.a)
                    r = falsifier(Not(assign_bool(And(lits_of(g)), lambda x: False if same_t(x) else None)))
                    exact = [x for x, _ in r if x.op in ("is", "eq", "in") and TYPEOF in x.a] if isinstance(r, list) else []
                    if r == "cap":
                        rep.dunno(rid, what, t.loc, "guard too large")
                        continue
                    if r is None:
                        rep.ok(rid, what, t.loc)
                    elif exact:
                        rep.dunno(rid, what, t.loc, "type test " + show(exact[0])[:80])
                    else:
                        rep.bad(rid, f"{tn}:json", t.loc, "an object json can write is loaded as whatever json reads back: "
                                                          "its own type (IntEnum, str subclass ..) is lost")
                elif lt[0] == "npz":
                    r = assign_bool(t.refused, lambda x: None)
                    if r is FALSE:
                        rep.bad(rid, f"{tn}:npz", t.loc, "load_npz only restores scipy types, but the writer accepts "
                                                         "every subclass of " + tn)
                    else:
                        mods = any(x.op == "modof" or x.op in ("is", "eq", "in") and TYPEOF in x.a for x in subterms(r))
                        (rep.ok(rid, what, t.loc) if mods else
                         rep.dunno(rid, what, t.loc, "refusal " + show(r)[:80]))
                else:
                    fixed = lt[1]
                    if tn == fixed == "numpy.dtype":
                        # its subclasses are one per kind of dtype: numpy.dtype() makes the one that fits
                        rep.ok(rid, what, t.cls_loc)
                        continue
                    if tn.endswith("._DictWithDeprecatedKeys") and fixed == tn:
                        # private class of scikit-learn < 1.2, not subclassed anywhere
                        rep.ok(rid, what, t.loc)
                        continue
                    if tn in FINAL or tn == fixed == "builtins.type":
                        ok = fixed == tn or ALIASES.get(tn) == fixed or tn in ("types.FunctionType", "numpy.ufunc")
                        if ok:
                            rep.ok(rid, what, t.loc)
                        else:
                            rep.bad(rid, f"{tn}:{fixed}", t.cls_loc, f"{tn} is loaded as {fixed}")
                        continue
                    facts = exact_type_facts(fixed, False)
                    r = assign_bool(And(lits_of(g)), facts)
                    fz = falsifier(Not(r))
                    if fz == "cap" or fz is not None and any(opaque(x) for x, _ in fz):
                        # one particular object: empty, and nothing raises on it
                        f2 = falsifier(Not(assign_bool(r, empty_quiet)))
                        fz = fz if f2 is None else f2
                    if fz is None:
                        rep.ok(rid, what, t.loc)
                    elif fz == "cap" or any(opaque(x) for x, _ in fz):
                        rep.dunno(rid, what, t.loc, "guard not modelled")
                    elif any(mentions_type(x) for x, _ in fz):
                        rep.dunno(rid, what, t.loc, "guarded by " + show_guard(fz)[:120])
                    else:
                        rep.bad(rid, f"{tn}:{fixed}", t.cls_loc,
                                f"an object of a subclass of {tn} is loaded as plain {fixed}"
                                + (f" when {show_guard(fz)[:120]}" if fz else ""))


def json_fails(x):
    """json cannot write the object: so it is for every object that is not a json value"""
    return x.op == "exc" and is_call(x.a[0], "json.dumps") and OBJ in x.a[0].a[1]


def empty_quiet(x):
    return False if x.op in ("each", "exc") else None


def mentions_type(x):
    """could the atom tell a class from its subclass"""
    if x.op in ("is", "eq", "in", "issubclass", "lt") and (TYPEOF in x.a or mk("attr", OBJ, "__class__") in x.a):
        return True
    return any(u.op == "modof" or u.op == "attr" and u.a[0] in (TYPEOF, mk("attr", OBJ, "__class__")) and
               u.a[1] in ("__name__", "__qualname__", "__module__") for u in subterms(x)) or \
        any(u.op == "call" and TYPEOF in u.a[1] for u in subterms(x))


# ------------------------------------------------------------------ adapters that lose information
LOSSY_FUNCS = {
    "builtins.round", "builtins.sorted", "builtins.reversed", "builtins.abs", "builtins.min", "builtins.max",
    "builtins.int", "builtins.float", "builtins.frozenset", "itertools.islice", "itertools.filterfalse",
    "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.round", "numpy.around", "numpy.nan_to_num", "numpy.unique",
    "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze", "numpy.ravel", "numpy.sort", "numpy.rint", "numpy.trunc",
    "numpy.float32", "numpy.float64", "numpy.int64", "numpy.require", "numpy.transpose", "numpy.copy",
    "numpy.any", "numpy.all", "numpy.sum", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "numpy.mean",
    "numpy.prod", "numpy.nonzero", "numpy.flatnonzero", "numpy.diag", "numpy.diagonal", "numpy.tril", "numpy.triu",
    "builtins.any", "builtins.all", "builtins.sum",
    "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "scipy.sparse.coo_matrix", "scipy.sparse.csr_array",
}
LOSSY_METHODS = {"astype", "flatten", "ravel", "squeeze", "round", "filled", "compressed", "newbyteorder", "byteswap",
                 "tocsr", "tocsc", "tocoo", "todense", "toarray", "todia", "tobsr", "lower", "upper", "strip", "lstrip",
                 "rstrip", "title", "casefold", "transpose", "swapaxes", "eliminate_zeros", "sum_duplicates", "tostring",
                 "tolist", "removeprefix", "removesuffix", "clip", "conj", "any", "all", "sum", "max", "min", "mean", "prod",
                 "std", "var", "nonzero", "cumsum", "argmax", "argmin", "argsort", "diagonal", "trace", "compress",
                 "hexdigest", "maximum", "minimum"}
LOSSY_INPLACE = {"sum_duplicates", "eliminate_zeros", "prune", "resize", "fill", "sort", "partition", "setdiag", "put",
                 "itemset", "byteswap", "pop", "popitem", "clear", "remove", "reverse", "discard", "shrink_mask",
                 "harden_mask", "soften_mask", "set_fill_value"}
LOSSY_ATTRS = {"T", "real", "imag", "flat", "str", "char", "kind", "name", "num", "descr", "base"}
CARRIERS = ("data",)


def data_of(x):
    """does the term denote (a part of) the data of the dumped object"""
    while True:
        if x is OBJ or is_reduce(x) or x.op == "decoded":
            return True
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[0] is OBJ and \
                x.a[0].a[1] in ("tolist", "__getstate__", "get_state", "items", "keys", "values"):
            return True
        if x.op == "attr" and x.a[1] in ("shape", "data", "mask", "args", "keywords", "state", "dtype"):
            x = x.a[0]
        elif x.op == "item" and x.a[1].op == "const":
            x = x.a[0]
        else:
            return False


def whole_use(t, x):
    """is the term used as a whole (not just to pick one item out of it)"""
    for y in flow(t):
        if y is x:
            continue
        for z in y.a if isinstance(y.a, tuple) else ():
            zs = z if isinstance(z, tuple) else (z,)
            for u in zs:
                if isinstance(u, tuple):
                    u = u[-1]
                if u is x and not (y.op == "item" and y.a[0] is x and is_const(y.a[1])) and \
                        y.op in ("call", "tuple", "star", "stateof", "elem", "cons", "list", "dict", "kv"):
                    return True
    return any(l is x for _g, l in live_leaves(t))


def short_format(spec):
    """does this format specification drop digits of a float?"""
    m = re.fullmatch(r"[<>=^+\- 0-9,_#]*\.(\d+)([eEfFgG%]?)", spec)
    return bool(m) and (int(m.group(1)) < 17 or m.group(2) in ("f", "F", "%"))


def rule_lossy(rep, M, prefix):
    rid = prefix + ".lossless"
    rep.rule(rid, "no conversion that drops information (dtype, byte order, memory layout, rounding, order, sparse "
                  "format, ..) is applied to the dumped data between reading it from the object and putting it back")
    n = 0
    for tn, ts in by_type(M).items():
        for t in ts:
            if t.value is None:
                continue
            bad = False
            used = None
            for e in t.wevents:
                fn = M.I.freeze(e.fn) if e.kind == "call" and isinstance(e.fn, T) else None
                if fn is None or fn.op != "attr" or fn.a[1] not in LOSSY_INPLACE or not contains(fn.a[0], OBJ) or \
                        rooted(fn.a[0]):
                    continue
                used = flow(t) if used is None else used
                if fn.a[0] in used:
                    bad = True
                    rep.bad(rid, f"{tn}:.{fn.a[1]}", e.loc, f"{tn} is written from a copy changed by {show(fn)[:80]}()")
            for x in flow(t):
                if x.op == "fmt" and contains(x.a[0], OBJ) and is_str(x.a[-1]) and short_format(cval(x.a[-1])):
                    bad = True
                    rep.bad(rid, f"{tn}:format", t.loc, f"{tn} is written as {show(x)[:80]}: not every digit of a number is kept")
                if x.op == "sorted" and contains(x, OBJ) and tn not in ("builtins.set",):
                    bad = True
                    rep.bad(rid, f"{tn}:sorted", t.loc, f"{tn}: the order of the items is not kept ({show(x)[:80]})")
                if x.op == "call":
                    if x.a[0].op == "ext" and x.a[0].a[0] in LOSSY_FUNCS and any(contains(y, OBJ) for y in x.a[1]) \
                            and not (x.a[0].a[0] in ("builtins.sorted",) and tn == "builtins.set"):
                        if x.a[0].a[0] == "numpy.copy" and dict(x.a[2]).get("order") is not None:
                            continue
                        bad = True
                        rep.bad(rid, f"{tn}:{x.a[0].a[0]}", t.loc,
                                f"{tn} goes through {show(x)[:100]}, which does not keep every value as it is")
                    elif x.a[0].op == "attr" and x.a[0].a[1] in LOSSY_METHODS and contains(x.a[0].a[0], OBJ) and \
                            not (x.a[0].a[1] == "tolist" and tn in ("numpy.ndarray", "numpy.generic", "numpy.bytes_")):
                        bad = True
                        rep.bad(rid, f"{tn}:.{x.a[0].a[1]}", t.loc,
                                f"{tn} goes through {show(x)[:100]}, which does not keep every value as it is")
                    elif x.a[0].op == "attr" and x.a[0].a[1] == "copy" and x.a[0].a[0] is OBJ and not x.a[1] \
                            and not x.a[2] and tn in ("numpy.ndarray",):
                        bad = True
                        rep.bad(rid, f"{tn}:.copy", t.loc, "ndarray.copy() without order= makes a C ordered copy: the "
                                                           "Fortran layout is lost")
                    elif x.a[0].op == "ext" and x.a[0].a[0] in ("numpy.array", "numpy.asarray", "numpy.asanyarray") \
                            and contains(mk("tuple", *x.a[1]), OBJ) and any(
                                k == "order" and not (is_str(v) and cval(v) in "KA") for k, v in x.a[2]):
                        bad = True
                        rep.bad(rid, f"{tn}:order", t.loc, f"{show(x)[:100]} changes the memory layout")
                if x.op == "attr" and x.a[0] is OBJ and x.a[1] in LOSSY_ATTRS and \
                        not (tn == "numpy.dtype" and x.a[1] == "base") and \
                        tn in ("numpy.ndarray", "numpy.generic", "numpy.dtype", "scipy.sparse.spmatrix",
                               "numpy.ma.MaskedArray"):
                    bad = True
                    rep.bad(rid, f"{tn}:.{x.a[1]}", t.loc, f"{tn} is rebuilt from .{x.a[1]}, which does not describe all of it")
                if x.op == "item" and x.a[1].op == "slice" and x.a[1].a != (NONE, NONE, NONE) and data_of(x.a[0]) and \
                        whole_use(t, x):
                    bad = True
                    rep.bad(rid, f"{tn}:slice", t.loc, f"{tn}: only a part of the items is written ({show(x)[:60]})")
            if not bad:
                rep.ok(rid, f"{tn} via {t.kind}", t.loc)


# ------------------------------------------------------------------ containers
def json_keys(t):
    """are keys taken from the object used as json object keys (and hence turned into strings)?"""
    for x in subterms(t.state_n):
        if x.op == "ent" and x.a[1] == "set" and x.a[2] is not None and not is_const(x.a[2]) and contains(x.a[2], OBJ):
            return True
        if x.op == "kv" and not is_const(x.a[0]) and contains(x.a[0], OBJ):
            return True
    return False


def stored_keys(t):
    """the terms used as json object keys for the keys of the object"""
    out = set()
    for x in subterms(t.state_n):
        if x.op == "ent" and x.a[1] == "set" and x.a[2] is not None and not is_const(x.a[2]) and contains(x.a[2], OBJ):
            out.add(x.a[2])
        if x.op == "kv" and not is_const(x.a[0]) and contains(x.a[0], OBJ):
            out.add(x.a[0])
    return out


def kind_leaves(k, facts):
    return [l for g, l in leaves(assign(k, facts)) if assign_bool(And(lits_of(g)), facts) is not FALSE]


def map_entries(t):
    """[(guard, key, value, loc)] put into the loaded mapping; None when some content is not enumerated"""
    out, other = [], False
    for k, b, args, g, loc in t.muts:
        if k == "item" and inst_of(t, None, b) and len(args) == 2:
            out.append((g, args[0], args[1], loc))
        elif k == "call:update" and inst_of(t, None, b) and args:
            di = dict_items(args[0])
            if di is None:
                other = True
            else:
                out += [(And(lits_of(g) + lits_of(g2)), kk, vv, loc) for g2, kk, vv in di]
    for g, leaf in live_leaves(t):
        ds = [leaf] if leaf.op.split(":")[0] == "dict" else \
            [x for x in leaf.a[1]] if leaf.op == "call" and leaf.a[0] is TYPEOF else []
        for d in ds:
            di = dict_items(d) if d.op.split(":")[0] == "dict" else None
            if di is None:
                other = True
            else:
                out += [(And(lits_of(g) + lits_of(g2)), kk, vv, t.cls_loc) for g2, kk, vv in di]
    return out, other


VAL_FORMS = None


def is_value(v):
    if v is mk("item", OBJ, ELEM):
        return True
    if v.op == "elem" and v.a[0].op == "dvalues" and v.a[0].a[0] is OBJ:
        return True
    if v.op in ("item", "idx") and v.a[0].op == "elem" and v.a[0].a[0].op == "ditems":
        return True
    return False


def type_alts(k):
    """the callables a restored key goes through"""
    out = []
    for _g, l in leaves(k):
        if l.op == "call":
            todo = [l.a[0]]
            while todo:
                f = todo.pop()
                if f.op == "ite":
                    todo += [f.a[1], f.a[2]]
                elif f.op == "elem" and f.a[0].op == "ite":
                    todo += [mk("elem", f.a[0].a[1]), mk("elem", f.a[0].a[2])]
                else:
                    out.append(f)
    return out


def is_key(k):
    return k is ELEM or (k.op == "elem" and k.a[0].op == "dkeys" and k.a[0].a[0] is OBJ)


def check_mapping(rep, rid, tn, t):
    ents, other = map_entries(t)
    if not ents:
        if other or unknown_use(t) or any(x is ELEM or x.op == "dictof" for x in flow(t)):
            rep.dunno(rid, f"{tn}: entries", t.loc, "entries not enumerated")
        else:
            rep.bad(rid, f"{tn}:entries", t.loc, f"{tn}: no entry of the dict reaches the loaded object")
        return
    for g, k, v, loc in ents:
        decide_guard(rep, rid, f"{tn}: every entry is restored", t.loc, g, t,
                     f"{tn}: entries are left out", f"{tn}:dropped")
        if is_value(v):
            rep.ok(rid, f"{tn}: values are restored", loc)
        elif not contains(v, OBJ):
            rep.bad(rid, f"{tn}:values", loc, f"{tn}: the loaded values are {show(v)[:80]}")
        elif is_key(v):
            rep.bad(rid, f"{tn}:values", loc, f"{tn}: keys are loaded as values")
        else:
            rep.dunno(rid, f"{tn}: values are restored", loc, show(v)[:100])
        typed = any(x.op == "typeof" and is_key(x.a[0]) for x in subterms(k))
        picked = [x for f in type_alts(k) for x in subterms(f) if x.op == "item" and
                  (x.a[1].op == "slice" and x.a[1].a != (NONE, NONE, NONE) or is_const(x.a[1])) and
                  any(y.op == "typeof" and is_key(y.a[0]) for y in subterms(x.a[0]))]
        if picked:
            rep.bad(rid, f"{tn}:key-type", loc, f"{tn}: keys are converted with types picked from those of other keys: "
                                                f"{show(picked[0])[:80]}")
        elif typed or (is_key(k) and not json_keys(t)):
            rep.ok(rid, f"{tn}: key types are restored", loc)
        elif not contains(k, OBJ) or (is_key(k) or ite_of(k, lambda x: is_key(x) or meth(x, "item"))) and json_keys(t):
            rep.bad(rid, f"{tn}:key-type", loc, f"{tn}: keys come back as {show(k)[:80]}, i.e. as json strings")
        else:
            w = [x for x in subterms(k) if x.op == "typeof"]
            if w and json_keys(t):
                rep.bad(rid, f"{tn}:key-type", loc, f"{tn}: keys are converted with the type of {show(w[0].a[0])[:60]}, not "
                                                    "with their own")
            else:
                rep.dunno(rid, f"{tn}: key types are restored", loc, show(k)[:100])


def ite_of(t, pred):
    return all(pred(l) for _g, l in leaves(t))


def key_kind(kind):
    """facts about a key of the given kind"""
    K = ELEM
    KI = mk("call", mk("attr", K, "item"), (), ())

    def about(x):
        if x is K or (x.op == "elem" and x.a[0].op == "dkeys"):
            return "key"
        if meth(x, "item") and not x.a[1] and about(x.a[0].a[0]) == "key":
            return "item"
        return None
    TYPES = {"bool": {"bool", "int", "object"}, "int": {"int", "object"}, "float": {"float", "object"},
             "str": {"str", "object"}, "none": {"NoneType", "object"},
             "np.int64": {"object"}, "np.float64": {"float", "object"}, "tuple": {"tuple", "object"},
             "np.bool": {"object"}, "np.float32": {"object"}}
    scal = {"bool": True, "int": True, "float": True, "str": True, "none": False, "np.int64": True, "np.float64": True,
            "tuple": False, "np.bool": True, "np.float32": True}
    inner = {"np.int64": {"int", "object"}, "np.float32": {"float", "object"}, "np.float64": {"float", "object"}, "np.bool": {"bool", "int", "object"}}
    exact = {"bool": "bool", "int": "int", "float": "float", "str": "str", "none": "NoneType", "np.int64": "np.int64",
             "np.float64": "np.float64", "tuple": "tuple", "np.bool": "np.bool",
             "np.float32": "np.float32"}

    def f(t):
        if t.op == "each":
            return True
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("numpy.isscalar", "numpy.core.numeric.isscalar") \
                and t.a[1] and about(t.a[1][0]):
            return scal[kind] if about(t.a[1][0]) == "key" else True
        if t.op == "hasattr" and about(t.a[0]) and is_str(mk2(t.a[1])):
            nm = cval(mk2(t.a[1]))
            if nm == "item":
                return kind.startswith("np.") if about(t.a[0]) == "key" else False
            return None
        if t.op == "isinstance" and about(t.a[0]) and t.a[1].op == "ext":
            n = t.a[1].a[0]
            ty = TYPES[kind] if about(t.a[0]) == "key" else inner.get(kind, TYPES[kind])
            if n.startswith("builtins."):
                return n.split(".")[1] in ty
            if n in ("numpy.generic", "numpy.number", "numpy.integer", "numpy.floating", "numpy.bool_"):
                if not kind.startswith("np.") or about(t.a[0]) == "item":
                    return False
                return {"numpy.generic": True, "numpy.number": kind != "np.bool", "numpy.integer": kind == "np.int64",
                        "numpy.floating": kind in ("np.float64", "np.float32"), "numpy.bool_": kind == "np.bool"}[n]
            return None
        if t.op in ("is", "eq") and len(t.a) == 2:
            for x, y in (t.a, t.a[::-1]):
                if about(x):
                    if y is NONE:
                        return kind == "none"
                    if y is TRUE or y is FALSE:
                        if t.op == "is":
                            if not (kind == "bool" or kind == "np.bool" and about(x) == "item"):
                                return False
                            return None
                        if kind in ("str", "none", "tuple"):
                            return False
                        return None
                if x.op == "typeof" and about(x.a[0]) and y.op == "ext" and y.a[0].startswith("builtins."):
                    n = y.a[0].split(".")[1]
                    e = exact[kind] if about(x.a[0]) == "key" else {"np.int64": "int", "np.float64": "float", "np.float32": "float",
                                                                   "np.bool": "bool"}.get(kind, exact[kind])
                    return n == e
        return None
    return f


def mk2(x):
    return x if isinstance(x, T) else const(x)


def rule_keys(rep, M, prefix, which):
    rid = prefix + ".dict-keys"
    if which == "refuse":
        rep.rule(rid, "dict keys that a json object cannot keep apart or restore (bool, None, two keys with the same json "
                      "string) make dumping raise, unless keys are not stored as json object keys")
    else:
        rep.rule(rid, "dicts whose keys are str, int, float or numpy numbers are never refused because of a key's type")
    for tn in ("builtins.dict",):
        for t in by_type(M).get(tn, []):
            if t.value is None:
                continue
            if which == "refuse":
                if not json_keys(t):
                    rep.dunno(rid, tn, t.loc, "keys are not json object keys")
                    continue
                for kind in ("bool", "none"):
                    r = assign_bool(t.refused, key_kind(kind))
                    if kind == "bool":
                        # both values
                        pass
                    fz = falsifier(r)
                    what = f"{tn}: a {kind} key is refused"
                    if fz is None:
                        rep.ok(rid, what, t.loc)
                    elif fz == "cap" or any(opaque(x) and x.op != "in" for x, _ in fz):
                        rep.dunno(rid, what, t.loc, "refusal not modelled")
                    elif r is FALSE or not any(contains(x, ELEM) and x.op != "in" for x, _ in fz):
                        rep.bad(rid, f"{tn}:{kind}", t.loc, f"a dict with a {kind} key is written, and loaded with another key")
                    else:
                        rep.dunno(rid, what, t.loc, show_guard(fz)[:120])
                # collisions: with ordinary keys something about other keys must still be able to refuse
                r = assign_bool(t.refused, key_kind("int"))
                what = f"{tn}: keys with the same json string are refused"
                if r is FALSE:
                    rep.bad(rid, f"{tn}:collision", t.loc, "two keys with the same json string (1 and '1') are written over "
                                                           "each other")
                elif any(x.op in ("in", "eq", "lt", "is") for x in subterms(r)):
                    rep.ok(rid, what, t.loc)
                else:
                    rep.dunno(rid, what, t.loc, show(r)[:100])
            else:
                for kind in ("str", "int", "float", "np.int64", "np.float64", "np.float32"):
                    if kind in ("np.int64", "np.float32") and json_keys(t):
                        plain = [k for k in stored_keys(t) for l in kind_leaves(k, key_kind(kind)) if is_key(l)]
                        what = f"{tn}: a {kind} key becomes a json key"
                        if plain:
                            rep.bad(rid, f"{tn}:{kind}:json", t.loc, f"a dict with a {kind} key is refused: json has no such "
                                                                     f"keys and {show(plain[0])[:80]} is stored as it is")
                        else:
                            rep.ok(rid, what, t.loc)
                    r = assign_bool(t.refused, key_kind(kind))
                    what = f"{tn}: a {kind} key is accepted"
                    if r is TRUE:
                        rep.bad(rid, f"{tn}:{kind}", t.loc, f"a dict with a {kind} key is refused")
                    else:
                        rep.ok(rid, what, t.loc)


def check_sequence(rep, rid, tn, t):
    found = False
    for g, leaf in live_leaves(t):
        seqs = []
        todo = [leaf]
        while todo:
            x = todo.pop()
            if x.op.split(":")[0] in ("list", "tuple", "set") and any(
                    i.op == "ent" for i in x.a):
                seqs.append(x)
            elif x.op == "call":
                todo.extend(x.a[1])
            elif x.op in ("star", "list_of", "set_of", "tuple_of"):
                todo.extend(i for i in x.a if isinstance(i, T))
        if not seqs:
            if opaque(leaf) or unknown_use(t) or any(x is ELEM for x in subterms(leaf)) or OBJ in (
                    leaf.a[1] if leaf.op == "call" else ()):
                rep.dunno(rid, f"{tn}: items", t.loc, show(leaf)[:100])
                continue
            rep.bad(rid, f"{tn}:items", t.cls_loc, f"{tn}: the items do not reach the loaded object ({show(leaf)[:60]})")
            continue
        for s in seqs:
            its = seq_items(s)
            if its is None:
                rep.dunno(rid, f"{tn}: items", t.loc, show(s)[:100])
                continue
            if len(its) != 1:
                rep.dunno(rid, f"{tn}: items", t.loc, f"{len(its)} parts")
                continue
            gi, v = its[0]
            found = True
            ent = [i for i in s.a if i.op == "ent"]
            if ent and ent[0].a[1] not in ("append", "add", "extend", "update"):
                rep.dunno(rid, f"{tn}: items", t.loc, "filled with " + str(ent[0].a[1]))
                continue
            decide_guard(rep, rid, f"{tn}: every item is restored", t.loc, gi, t, f"{tn}: items are left out",
                         f"{tn}:dropped")
            if v is ELEM:
                rep.ok(rid, f"{tn}: items are restored", t.cls_loc)
            elif not contains(v, OBJ):
                rep.bad(rid, f"{tn}:items", t.cls_loc, f"{tn}: the loaded items are {show(v)[:80]}")
            elif v.op == "elem" and v.a[0].op == "call" and v.a[0].a[0].op == "ext" and \
                    v.a[0].a[0].a[0] in ("builtins.reversed",) and tn != "builtins.set":
                rep.bad(rid, f"{tn}:order", t.cls_loc, f"{tn}: items are written in reverse order")
            else:
                rep.dunno(rid, f"{tn}: items are restored", t.cls_loc, show(v)[:100])
    return found


# ------------------------------------------------------------------ components per type
def reduce_part(i):
    def f(x):
        return x.op == "item" and is_const(x.a[1]) and cval(x.a[1]) == i and meth(x.a[0], "__reduce__", "__reduce_ex__")
    return f


def is_reduce(x):
    return meth(x, "__reduce__", "__reduce_ex__") and x.a[0].a[0] is OBJ


def red(*path):
    def f(x):
        for p in reversed(path):
            if not (x.op == "item" and is_const(x.a[1]) and cval(x.a[1]) == p):
                return False
            x = x.a[0]
        return is_reduce(x)
    return f


def find(fl, pred):
    return {x for x in fl if pred(x)}


def get_state_call(x, legacy=True):
    return meth(x, "get_state") and x.a[0].a[0] is OBJ


def rule_components(rep, M, prefix):
    rid = prefix + ".components"
    rep.rule(rid, "every component an object of the written type has (items, key types, arguments, attributes, data, mask, "
                  "generator state, ..) flows into the loaded object, unconditionally, and into its own place")
    bt = by_type(M)
    for tn, ts in bt.items():
        for t in ts:
            if t.value is None:
                if t.error and t.error.startswith("no reader"):
                    rep.bad(rid, f"{tn}:reader", t.loc, f"{t.qual.split('.')[-1]} writes {t.kind}, which no reader of the "
                                                        "current protocol is registered for")
                continue
            rep.guarded(rid, check_type_components, rep, rid, tn, t)


def check_type_components(rep, rid, tn, t):
    fl = flow(t)
    if tn == "builtins.dict":
        check_mapping(rep, rid, tn, t)
    elif tn in ("builtins.list", "builtins.set", "builtins.tuple"):
        check_sequence(rep, rid, tn, t)
    elif tn in ("builtins.bytes", "builtins.bytearray"):
        for g, leaf in live_leaves(t):
            if leaf is OBJ or (leaf.op == "call" and OBJ in leaf.a[1]):
                rep.ok(rid, f"{tn}: content is restored", t.loc)
            elif contains(leaf, OBJ) and not (leaf.op == "call" and leaf.a[0] is TYPEOF and
                                              not any(contains(a, OBJ) for a in leaf.a[1])):
                rep.dunno(rid, f"{tn}: content", t.loc, show(leaf)[:100])
            elif unread_member(leaf):
                rep.dunno(rid, f"{tn}: content", t.loc, "archive member not matched")
            else:
                rep.bad(rid, f"{tn}:content", t.loc, f"{tn}: the content does not reach the loaded object")
    elif tn == "collections.defaultdict" or tn.endswith("_DictWithDeprecatedKeys"):
        attr = "default_factory" if tn == "collections.defaultdict" else "_deprecated_key_to_new_key"
        component(rep, rid, t, tn, attr, {a_(attr)}, {attr, "items", "copy"})
        component(rep, rid, t, tn, "the entries", {mk("dictof", OBJ)}, {attr}, pred=lambda x: x is ELEM)
        for k, b, args, g, loc in t.muts:
            if k.startswith("attr:") and args and args[0] is a_(attr) and k != "attr:" + attr:
                rep.bad(rid, f"{tn}:{attr}:name", loc, f"{tn}: {attr} is restored as {k[5:]}")
            if k.startswith("attr:") and args and args[0] is a_(attr) or k == "call:update":
                decide_guard(rep, rid, f"{tn}: {k} always runs", loc, g, t, f"{tn}: {k} is skipped", f"{tn}:{k}:skipped")
    elif tn == "builtins.slice":
        for n in ("start", "stop", "step"):
            component(rep, rid, t, tn, n, {a_(n)}, {"start", "stop", "step", "indices"})
        for g, leaf in live_leaves(t):
            if is_call(leaf, "builtins.slice") and len(leaf.a[1]) == 3:
                positions(rep, rid, t, tn, leaf, [(i, None, {a_(n)}, n) for i, n in enumerate(("start", "stop", "step"))])
    elif tn == "types.MethodType":
        component(rep, rid, t, tn, "the bound object", {a_("__self__")}, {"__self__", "__func__", "__name__"})
        component(rep, rid, t, tn, "the function name", {a_("__func__", "__name__"), a_("__name__")},
                  {"__self__", "__func__", "__name__"})
    elif tn == "functools.partial":
        P4 = [("func", "func", lambda x: red(2, 0)(x) or x is a_("func")),
              ("args", "args", lambda x: red(2, 1)(x) or x is a_("args")),
              ("keywords", "keywords", lambda x: red(2, 2)(x) or x is a_("keywords")),
              ("the instance dict", "__dict__", lambda x: red(2, 3)(x) or x is a_("__dict__") or
               is_call(x, "builtins.vars"))]
        for name, _a, pr in P4:
            component(rep, rid, t, tn, name, set(), {"func", "args", "keywords"}, pred=pr)
        accs = [find(fl, pr) for _n, _a, pr in P4]
        for g, leaf in live_leaves(t):
            if is_call(leaf, "functools.partial"):
                args, kw = norm_args(leaf)
                if args and any(args[0] in a for a in accs[1:]):
                    rep.bad(rid, f"{tn}:func:position", t.cls_loc, f"partial is called with {show(args[0])[:60]} as function")
                for x in args[1:]:
                    if x.op == "star" and any(x.a[0] in a for i, a in enumerate(accs) if i != 1):
                        rep.bad(rid, f"{tn}:args:position", t.cls_loc, f"partial gets {show(x.a[0])[:60]} as arguments")
        for k, b, args, g, loc in t.muts:
            if k == "call:__setstate__" and args and args[0].op == "tuple" and len(args[0].a) == 4:
                for i, x in enumerate(args[0].a):
                    if any(x in a for j, a in enumerate(accs) if j != i):
                        rep.bad(rid, f"{tn}:setstate:{i}", loc, f"__setstate__ of partial gets {show(x)[:60]} as {P4[i][0]}")
                    elif not contains(x, OBJ):
                        rep.bad(rid, f"{tn}:setstate:{i}", loc, f"__setstate__ of partial gets {show(x)[:60]} as {P4[i][0]}")
                    else:
                        rep.ok(rid, f"{tn}: {P4[i][0]} goes to its place", loc)
    elif tn in ("operator.attrgetter", "operator.itemgetter", "operator.methodcaller"):
        component(rep, rid, t, tn, "the arguments", set(), set(), pred=red(1))
        if tn == "operator.methodcaller" and any(l.op == "call" and l.a[0] is TYPEOF for _g, l in live_leaves(t)):
            r = assign_bool(And(lits_of(t.path) + [(t.refused, False)]), lambda x: False if x.op in ("is", "eq") and (
                TYPEOF in x.a or any(y.op == "ext" and y.a[0] == tn for y in x.a)) and any(red(0)(y) for y in x.a) else None)
            fz = falsifier(Not(r))
            if fz is None:
                rep.ok(rid, f"{tn}: refused unless it reduces to its own type", t.loc)
            elif fz != "cap" and not any(opaque(x) or is_reduce(y) for x, _ in fz for y in subterms(x)):
                rep.bad(rid, f"{tn}:ctor", t.loc, "a methodcaller with keyword arguments reduces to a partial, whose "
                                                  "arguments are not those of methodcaller")
        for g, leaf in live_leaves(t):
            if leaf.op == "call" and leaf.a[0] is TYPEOF:
                a = leaf.a[1]
                if any(x.op == "star" and red(1)(x.a[0]) for x in a):
                    rep.ok(rid, f"{tn}: all arguments are passed on", t.cls_loc)
                elif any(red(1, 0)(x) for x in a) or any(red(1)(x) for x in a):
                    rep.bad(rid, f"{tn}:args", t.cls_loc, f"{tn} is rebuilt with {show(mk('tuple', *a))[:80]} instead of "
                                                          "all its arguments")
    elif tn in ("numpy.ndarray", "numpy.generic", "numpy.bytes_"):
        check_array(rep, rid, tn, t, fl)
    elif tn == "numpy.ma.MaskedArray":
        K = {"data", "mask", "_data", "_mask", "fill_value", "_fill_value", "hardmask", "_hardmask"}
        D = {a_("data"), a_("_data"), mk("call", mk("attr", OBJ, "__array__"), (), ())}
        MK = {a_("mask"), a_("_mask"), mk("call", mk("ext", "numpy.ma.getmaskarray"), (OBJ,), ()),
              mk("call", mk("ext", "numpy.ma.getmask"), (OBJ,), ())}
        component(rep, rid, t, tn, "data", D, K)
        component(rep, rid, t, tn, "mask", MK, K, pred=lambda x: x.op == "call" and x.a[0].op == "ext" and
                  x.a[0].a[0] in ("numpy.ma.getmaskarray", "numpy.ma.getmask"))
        component(rep, rid, t, tn, "fill_value", {a_("fill_value"), a_("_fill_value")}, K)
        hard = {a_("hardmask"), a_("_hardmask")}
        if any(contains(g, h) for k, _b, _a, g, _l in t.muts if k == "call:harden_mask" for h in hard):
            rep.ok(rid, f"{tn}: hardmask is restored", t.loc)
        else:
            component(rep, rid, t, tn, "hardmask", hard, K)
        for g, leaf in live_leaves(t):
            if leaf.op == "call" and (leaf.a[0] is TYPEOF or is_call(leaf, "numpy.ma.MaskedArray", "numpy.ma.masked_array",
                                                                    "numpy.ma.array")):
                positions(rep, rid, t, tn, leaf, [(0, "data", D, "data"), (1, "mask", MK, "mask")])
    elif tn == "numpy.dtype":
        check_dtype(rep, rid, tn, t)
    elif tn == "numpy.random.RandomState":
        check_random(rep, rid, tn, t, fl, [("the generator state", lambda x: get_state_call(x))])
    elif tn == "numpy.random.Generator":
        B, S = a_("bit_generator", "state"), a_("bit_generator", "seed_seq", "state")
        check_random(rep, rid, tn, t, fl, [("the bit generator state", lambda x: x is B),
                                           ("the seed sequence", lambda x: x is S)])
    elif tn == "scipy.sparse.spmatrix":
        for g, leaf in live_leaves(t):
            if leaf.op == "decoded" and leaf.a[1] is OBJ:
                rep.ok(rid, f"{tn}: content is restored", t.loc)
            elif unread_member(leaf) or contains(leaf, OBJ):
                rep.dunno(rid, f"{tn}: content", t.loc, show(leaf)[:100])
            else:
                rep.bad(rid, f"{tn}:content", t.loc, "the sparse matrix does not reach the loaded object")
    elif t.kind in ("TreeNode", "LossNode", "QuantileForestNode"):
        check_reduce(rep, rid, tn, t, fl)
    elif tn == "builtins.object":
        check_object(rep, rid, tn, t, fl)
    elif tn in ("types.FunctionType", "builtins.type", "numpy.ufunc", "type(builtins.len)"):
        for g, leaf in live_leaves(t):
            if leaf is OBJ:
                rep.ok(rid, f"{tn}: looked up under its own name", t.loc)
            elif not contains(leaf, OBJ):
                rep.bad(rid, f"{tn}:name", t.loc, f"{tn} is loaded as {show(leaf)[:80]}")
            else:
                rep.dunno(rid, f"{tn}: looked up under its own name", t.loc, show(leaf)[:100])


def prefix_of(rid):
    return rid.split(".")[0]


def unread_member(t):
    return any(meth(x, "read") for x in subterms(t))


def check_array(rep, rid, tn, t, fl):
    record_kept(rep, rid, tn, t, [a_("dtype", "type")], "arrays")
    isobj = lambda v: (lambda x: v if x.op in ("eq", "is") and any(
        y is a_("dtype") for y in x.a) and any(y.op == "ext" and y.a[0] == "builtins.object" or is_str(y) and
                                               cval(y) in ("O", "object") for y in x.a) else
        (v if x is a_("dtype", "hasobject") else None))
    for v, name in ((False, "data"), (True, "object data")):
        f = isobj(v)
        lv = [(assign_bool(g, f), assign(l, f)) for g, l in live_leaves(t)]
        lv = [(g, l) for g, l in lv if g is not FALSE]
        if not v:
            for g, l in lv:
                if any(x.op == "decoded" and x.a[1] is OBJ for x in subterms(l)):
                    rep.ok(rid, f"{tn}: {name} is restored", t.loc)
                elif any(x.op == "decoded" for x in subterms(l)) or unread_member(l) or opaque(l):
                    d = [x for x in subterms(l) if x.op == "decoded"]
                    rep.dunno(rid, f"{tn}: {name}", t.loc, show(d[0])[:100] if d else show(l)[:60])
                elif mentions_other(l):
                    rep.dunno(rid, f"{tn}: {name}", t.loc, show(l)[:60])
                else:
                    rep.bad(rid, f"{tn}:{name}", t.loc, f"{tn}: the data does not reach the loaded array")
        else:
            s = set()
            for g, l in lv:
                subterms(l, s)
            for k, b, args, g, loc in t.muts:
                if assign_bool(g, f) is not FALSE:
                    for x in args:
                        subterms(assign(x, f), s)
            if not lv:
                continue
            items = any(meth(x, "tolist") or x is ELEM or meth(x, "flat", "ravel", "flatten") for x in s) or \
                a_("flat") in s
            if items:
                rep.ok(rid, f"{tn}: {name} is restored", t.loc)
            elif unknown_use(t, {"dtype", "shape", "tolist", "flat", "ndim", "size"}):
                rep.dunno(rid, f"{tn}: {name}", t.loc, "not modelled")
            else:
                rep.bad(rid, f"{tn}:{name}", t.loc, f"{tn}: the cells do not reach the loaded array")
            for k, b, args, g, loc in t.muts:
                if (k == "attr:flat" or k == "item" and len(args) == 2 and args[0].op == "slice") and \
                        assign_bool(g, f) is not FALSE and args[-1].op == "list":
                    rep.bad(rid, f"{tn}:spread", loc, f"{tn}: the cells are set from a list at once: numpy takes cells that are "
                                                      "sequences for further dimensions")
            wrong = [x for x in s if bad_shape(x)]
            if wrong:
                rep.bad(rid, f"{tn}:shape-changed", t.loc, f"{tn}: object arrays are rebuilt as {show(wrong[0])[:100]}, "
                                                           "not in the shape they had")
            elif a_("shape") in s:
                rep.ok(rid, f"{tn}: shape of {name}", t.loc)
            elif unknown_use(t, {"dtype", "shape", "tolist", "flat", "ndim", "size"}):
                rep.dunno(rid, f"{tn}: shape of {name}", t.loc, "not modelled")
            else:
                rep.bad(rid, f"{tn}:shape", t.loc, f"{tn}: the shape of object arrays does not reach the loaded array")
            for k, b, args, g, loc in t.muts:
                if k == "item" and len(args) == 2:
                    gg = assign_bool(g, f)
                    if gg is FALSE:
                        continue
                    decide_guard(rep, rid, f"{tn}: every cell is restored", loc, gg, t, f"{tn}: cells are left out",
                                 f"{tn}:cells")


def bad_shape(x):
    """an array is created in a shape that is not the one of the object"""
    if not (x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("numpy.ndarray", "numpy.empty", "numpy.zeros",
                                                                      "numpy.full")):
        return False
    args, kw = norm_args(x)
    sh = kw.get("shape") or (args[0] if args else None)
    if sh is None or sh is a_("shape"):
        return False
    if sh.op == "tuple" and len(sh.a) == 1:
        u = sh.a[0]
        return u.op == "len" or is_const(u) or u is a_("size")
    if sh.op == "len" or is_const(sh) or sh is a_("size"):
        return True
    return sh.op == "item" and sh.a[0] is a_("shape") and sh.a[1].op == "slice" and sh.a[1].a != (NONE, NONE, NONE)


def mentions_other(l):
    return any(x.op == "attr" and x.a[0] is OBJ and x.a[1] not in ("dtype", "shape", "__class__") for x in subterms(l))


def dtype_value(x, shaped):
    """what a term says about the dumped dtype: "whole", "base" (all but the shape of a subarray dtype), "lost", or None;
    shaped: the dtype has a shape (numpy makes the shape of a subarray dtype part of the array that has this dtype)"""
    if x is OBJ:
        return "whole"
    if x is a_("base"):
        return "base" if shaped else "whole"
    if x.op == "ite":
        r = {dtype_value(l, shaped) for _g, l in leaves(x)}
        return r.pop() if len(r) == 1 else None
    if x.op == "attr" and x.a[1] == "dtype":
        return array_dtype(x.a[0], shaped)
    if x.op == "attr" and x.a[1] == "base":
        r = dtype_value(x.a[0], shaped)
        return "base" if r == "whole" and shaped else r
    if is_call(x, "numpy.dtype"):
        args, kw = norm_args(x)
        d = kw.get("dtype") or (args[0] if args else None)
        if d is None:
            return None
        if d.op == "tuple" and len(d.a) == 2:
            b = dtype_value(d.a[0], shaped)
            if not shaped:
                return b
            if b == "base" and (d.a[1] is a_("shape") or d.a[1] is mk("item", a_("subdtype"), const(1))):
                return "whole"
            return "base" if b == "base" and not contains(d.a[1], OBJ) else None
        return dtype_value(d, shaped)
    return None if contains(x, OBJ) else "lost"


ARRAY_MAKERS = ("numpy.ndarray", "numpy.empty", "numpy.zeros", "numpy.ones", "numpy.array", "numpy.recarray",
                "numpy.empty_like", "numpy.zeros_like", "numpy.asarray")


def array_dtype(x, shaped):
    """the same for the dtype of an array"""
    if x.op == "ite":
        r = {array_dtype(l, shaped) for _g, l in leaves(x)}
        return r.pop() if len(r) == 1 else None
    if x.op == "decoded":
        return array_dtype(x.a[1], shaped)
    if meth(x, "view") and len(x.a[1]) == 1 and x.a[1][0].op in ("ext", "typeof"):
        return array_dtype(x.a[0].a[0], shaped)
    if is_call(x, *ARRAY_MAKERS):
        args, kw = norm_args(x)
        d = kw.get("dtype") or (args[1] if len(args) > 1 else None)
        if d is None:
            return "lost"
        r = dtype_value(d, shaped)
        return "base" if r == "whole" and shaped else r
    return None if contains(x, OBJ) else "lost"


def check_dtype(rep, rid, tn, t):
    what = {False: f"{tn}: is restored whole", True: f"{tn}: the shape of a subarray dtype is restored"}
    for shaped in (False, True):
        def facts(x, shaped=shaped):
            if x is a_("shape") or x is a_("subdtype") or x is a_("ndim"):
                return shaped
            if x.op in ("is", "eq") and len(x.a) == 2:
                for u, v in (x.a, x.a[::-1]):
                    if u is a_("subdtype") and v is NONE or u is a_("shape") and v.op == "tuple" and not v.a or \
                            u is a_("ndim") and is_const(v) and cval(v) == 0 or \
                            u is a_("base") and v is OBJ:
                        return not shaped
            return None
        if assign_bool(t.refused, facts) is TRUE:
            rep.ok(rid, what[shaped] + " (refused)", t.loc)
            continue
        for g, leaf in live_leaves(t):
            if assign_bool(And(lits_of(g)), facts) is FALSE:
                continue
            r = dtype_value(assign(leaf, facts), shaped)
            if r == "whole":
                rep.ok(rid, what[shaped], t.loc)
            elif r == "lost":
                rep.bad(rid, f"{tn}:lost", t.loc, "the dtype does not reach the loaded object")
            elif r == "base" and assign_bool(t.refused, facts) is FALSE:
                rep.bad(rid, f"{tn}:subarray", t.loc, f"a subarray dtype is loaded as {show(leaf)[:80]}, without its shape")
            else:
                rep.dunno(rid, what[shaped], t.loc, show(leaf)[:100])
    # records: an array member does not say that its elements are records
    record_kept(rep, rid, tn, t, [a_("type"), a_("base", "type")], "dtype")


def record_kept(rep, rid, tn, t, types, label):
    what = f"{tn}: record dtypes are kept"
    terms = [t.path, t.refused] + [x for _g, x in live_leaves(t)] + [g for g, _x in live_leaves(t)]
    if any(x.op == "ext" and x.a[0] in ("numpy.record", "numpy.rec.record") and
           (y.op in ("is", "eq", "issubclass") or is_call(y, "builtins.issubclass")) for z in terms for y in subterms(z)
           for x in subterms(y)):
        rep.ok(rid, what, t.loc)
    elif any(x in subterms(z) for z in terms for x in types) or opaque(t.refused):
        rep.dunno(rid, what, t.loc, "type test of the elements not modelled")
    else:
        rep.bad(rid, f"{tn}:record", t.loc, f"{label}: that the elements are np.record is not stored, and not refused")


BITGENS = ("MT19937", "PCG64", "PCG64DXSM", "Philox", "SFC64")


STATE_FIELDS = {"bit_generator": {"state", "has_uint32", "uinteger"},
                "get_state": {"bit_generator", "state", "has_gauss", "gauss"}}


def lost_fields(x):
    """fields of a generator's state that a dict with picked fields leaves out"""
    di = dict_items(x) if x.op.split(":")[0] == "dict" else None
    if not di or not all(is_str(k) for _g, k, _v in di):
        return None
    have = {cval(k) for _g, k, _v in di}
    src = "get_state" if any(meth(y, "get_state") for y in subterms(x)) else "bit_generator"
    return STATE_FIELDS[src] - have


def check_random(rep, rid, tn, t, fl, comps):
    for name, pr in comps:
        component(rep, rid, t, tn, name, set(), {"bit_generator", "get_state", "_bit_generator"}, pred=pr)
    # which bit generator class is used for each name
    tabs = [x for x in fl if x.op == "eq" and any(is_str(y) and cval(y) in BITGENS for y in x.a)]
    if tabs:
        for n in BITGENS:
            def f(x, n=n):
                if x.op == "eq":
                    for y in x.a:
                        if is_str(y) and cval(y) in BITGENS:
                            return cval(y) == n
                return None
            names = set()
            for g, leaf in live_leaves(t):
                l = assign(leaf, f)
                for x in subterms(l):
                    if x.op == "ext" and x.a[0].startswith("numpy.random.") and x.a[0].split(".")[-1] in BITGENS:
                        names.add(x.a[0].split(".")[-1])
            what = f"{tn}: bit generator {n}"
            if names == {n}:
                rep.ok(rid, what, t.cls_loc)
            elif not names:
                if any(assign_bool(r, f) is TRUE for r in t.raises) or prefix_of(rid) == "C05":
                    if prefix_of(rid) in ("C05", "C07"):
                        rep.bad(rid, f"{tn}:{n}", t.cls_loc, f"{tn}: a generator over {n} cannot be loaded")
            else:
                rep.bad(rid, f"{tn}:{n}", t.cls_loc, f"{tn}: a {n} bit generator is loaded as {sorted(names)}")
    else:
        made = [x for x in fl if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].startswith("numpy.random.")
                and x.a[0].a[0].split(".")[-1] in BITGENS]
        made += [x for x in fl if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "numpy.random.default_rng"]
        plain = [l for _g, l in live_leaves(t) if l.op == "call" and l.a[0] is TYPEOF and not l.a[1] and not l.a[2]]
        if made or plain:
            rep.bad(rid, f"{tn}:bitgen", t.cls_loc, f"{tn}: the loaded generator runs on "
                    + (made[0].a[0].a[0] if made else "the default bit generator") + " whatever it was saved with")
    # the state is set
    pr = comps[0][1]
    setters = [(k, args, g, loc) for k, b, args, g, loc in t.muts
               if k in ("call:set_state", "call:__setstate__", "attr:state", "attr:set_state")]
    if not setters:
        if unknown_use(t, {"bit_generator", "get_state"}):
            rep.dunno(rid, f"{tn}: the state is set", t.cls_loc, "not modelled")
        else:
            rep.bad(rid, f"{tn}:set", t.cls_loc, f"{tn}: the saved state is never set on the loaded generator")
        return
    allg = Or([g for k, a, g, loc in setters])

    def ff(x):
        return None
    if tabs:
        for n in BITGENS:
            def f(x, n=n):
                if x.op == "eq":
                    for y in x.a:
                        if is_str(y) and cval(y) in BITGENS:
                            return cval(y) == n
                return None
            decide_guard(rep, rid, f"{tn}: the state is set for {n}", t.cls_loc, assign_bool(allg, f), t,
                         f"{tn}: the state is not restored", f"{tn}:set-guard")
    else:
        decide_guard(rep, rid, f"{tn}: the state is set", t.cls_loc, allg, t, f"{tn}: the state is not restored",
                     f"{tn}:set-guard")
    for k, args, g, loc in setters:
        if args and pr(args[0]):
            x = args[0]
            rep.ok(rid, f"{tn}: the state is set as saved", loc)
        elif args and not contains(args[0], OBJ):
            rep.bad(rid, f"{tn}:state", loc, f"{tn}: the state is set to {show(args[0])[:80]}")
        elif args and (lost := lost_fields(args[0])):
            rep.bad(rid, f"{tn}:partial-state", loc, f"{tn}: the state is set without {', '.join(sorted(lost))}")
        elif args:
            rep.dunno(rid, f"{tn}: the state is set as saved", loc, show(args[0])[:100])
    if tn == "numpy.random.RandomState":
        calls = find(fl, get_state_call)
        for c in calls:
            args, kw = norm_args(c)
            leg = kw.get("legacy") or (args[0] if args else TRUE)
            if leg is FALSE:
                rep.ok(rid, f"{tn}: complete state", t.loc)
            elif leg is TRUE:
                rep.bad(rid, f"{tn}:legacy", t.loc, "get_state(legacy=True) does not describe bit generators other than "
                                                    "MT19937")
            else:
                rep.dunno(rid, f"{tn}: complete state", t.loc, show(leg))


def check_reduce(rep, rid, tn, t, fl):
    """constructor(*args) + state"""
    args_ok = lambda x: red(1)(x) or red(1, 2)(x)
    component(rep, rid, t, tn, "the constructor arguments", set(), set(), pred=args_ok)
    for g, leaf in live_leaves(t):
        if leaf.op == "call":
            if any(x.op == "star" and args_ok(x.a[0]) for x in leaf.a[1]):
                rep.ok(rid, f"{tn}: all constructor arguments are passed on", t.cls_loc)
            elif leaf.a[0].op != "attr" and not any(contains(x, OBJ) for x in leaf.a[1]):
                rep.bad(rid, f"{tn}:args", t.cls_loc, f"{tn} is rebuilt without its constructor arguments")
    if any(red(1, 2)(x) for x in fl) and not any(red(2)(x) for x in fl):
        return              # cython objects without state
    component(rep, rid, t, tn, "the state", set(), set(), pred=lambda x: red(2)(x) or (meth(x, "__getstate__") and
                                                                                      x.a[0].a[0] is OBJ))
    setters = [(k, args, g, loc) for k, b, args, g, loc in t.muts if k in ("call:__setstate__", "call:update",
                                                                         "call:set_state")]
    if not setters:
        rep.bad(rid, f"{tn}:setstate", t.cls_loc, f"{tn}: the saved state is never set on the loaded object") \
            if not unknown_use(t) else rep.dunno(rid, f"{tn}: setstate", t.cls_loc, "not modelled")
        return

    def truthy(x):
        # there is a state, it is a dict
        if red(2)(x):
            return True
        if x.op == "eq" and any(y.op == "len" and is_reduce(y.a[0]) for y in x.a):
            c = [y for y in x.a if is_const(y)]
            return bool(c) and cval(c[0]) == 3
        if x.op == "lt" and any(y.op == "len" and is_reduce(y.a[0]) for y in x.a):
            a, b = x.a
            if a.op == "len" and is_const(b):
                return 3 < cval(b)
            if b.op == "len" and is_const(a):
                return cval(a) < 3
        if x.op == "isinstance" and red(2)(x.a[0]) and x.a[1].op == "ext":
            return x.a[1].a[0] == "builtins.dict"
        if x.op == "is" and NONE in x.a and any(red(2)(y) for y in x.a):
            return False
        if x.op == "hasattr" and x.a[0] is OBJ and mk2(x.a[1]) in (const("__getstate__"), const("__reduce__")):
            return True
        return None
    g = assign_bool(Or([assign_bool(g, truthy) for _k, _a, g, _l in setters]
                       + [assign_bool(r, truthy) for r in t.raises]), truthy)
    fz = falsifier(Or([g, assign_bool(t.refused, truthy), Not(assign_bool(t.path, truthy))]))
    what = f"{tn}: the state is set"
    if fz is None:
        rep.ok(rid, what, t.cls_loc)
    elif fz == "cap" or any(opaque(x) for x, _ in fz):
        rep.dunno(rid, what, t.cls_loc, "guard not modelled")
    else:
        rep.bad(rid, f"{tn}:state-skipped", t.cls_loc, f"{tn}: the saved state is not set on the loaded object"
                + (f" when {show_guard(fz)[:160]}" if fz else ""))
    for k, args, gg, loc in setters:
        v = assign(args[0], truthy) if args else None
        if v is None:
            continue
        if red(2)(v):
            rep.ok(rid, f"{tn}: the state is set as saved", loc)
        elif not contains(v, OBJ):
            rep.bad(rid, f"{tn}:state", loc, f"{tn}: the state is set to {show(v)[:80]}")
        else:
            rep.dunno(rid, f"{tn}: the state is set as saved", loc, show(v)[:100])


def not_json(x):
    """the object cannot be written as json"""
    if x.op == "exc" and any(is_call(y, "json.dumps") for y in subterms(x)):
        return True
    if any(y.op == "json" for y in subterms(x)):
        return False
    return None


def odd_reduce(x):
    """an atom about the reduce tuple that has no plain meaning here"""
    if x.op in ("is", "eq") and TYPEOF in x.a and any(red(0)(y) for y in x.a):
        return False
    if x.op in ("eq", "lt") and any(y.op == "len" and is_reduce(y.a[0]) for y in x.a) and any(is_const(y) for y in x.a):
        return False
    if x.op == "isinstance" and is_reduce(x.a[0]):
        return False
    return any(is_reduce(y) for y in subterms(x))


def check_object(rep, rid, tn, t, fl):
    if t.kind == "JsonNode":
        for g, leaf in live_leaves(t):
            if leaf.op == "json" and leaf.a[0] is OBJ:
                rep.ok(rid, "json value is restored", t.loc)
            elif not contains(leaf, OBJ):
                rep.bad(rid, "json:value", t.loc, f"a json value is loaded as {show(leaf)[:80]}")
            else:
                rep.dunno(rid, "json value is restored", t.loc, show(leaf)[:100])
        return
    if t.kind == "ConstructorFromReduceNode":
        ok = red(1)
        component(rep, rid, t, tn, "the constructor arguments", set(), set(), pred=ok)
        for g, leaf in live_leaves(t):
            if leaf.op == "call" and leaf.a[0] is TYPEOF:
                if any(x.op == "star" and ok(x.a[0]) for x in leaf.a[1]):
                    rep.ok(rid, "object: all constructor arguments are passed on", t.cls_loc)
                elif any(ok(x) for x in leaf.a[1]) or any(red(1, 0)(x) for x in leaf.a[1]):
                    rep.bad(rid, "object:ctor-args", t.cls_loc, f"the constructor gets {show(mk('tuple', *leaf.a[1]))[:80]}")

        # only when the constructor is the type and nothing else is part of the reduce tuple
        def notype(x):
            if x.op in ("is", "eq") and TYPEOF in x.a and any(red(0)(y) for y in x.a):
                return False
            return None

        def longer(x):
            if x.op == "eq" and any(y.op == "len" and is_reduce(y.a[0]) for y in x.a):
                c = [y for y in x.a if is_const(y)]
                return bool(c) and cval(c[0]) == 3
            if x.op == "lt" and any(y.op == "len" and is_reduce(y.a[0]) for y in x.a):
                a, b = x.a
                if a.op == "len" and is_const(b):
                    return 3 < cval(b)
                if b.op == "len" and is_const(a):
                    return cval(a) < 3
            return None
        for facts, what, msg in ((notype, "only if the constructor is the type", "another callable than the type"),
                                 (longer, "only if there is no further state", "state besides the arguments")):
            r = assign_bool(And(lits_of(t.path) + [(t.refused, False)]), lambda x: not_json(x) if facts(x) is None else facts(x))
            fz = falsifier(Not(r))
            if fz is None:
                rep.ok(rid, "object: constructor from reduce " + what, t.loc)
            elif fz == "cap" or any(opaque(x) for x, _ in fz) or any(odd_reduce(x) for x, _ in fz):
                rep.dunno(rid, "object: constructor from reduce " + what, t.loc, "path not modelled")
            else:
                rep.bad(rid, "object:ctor-" + what.split()[-1], t.loc, "objects whose __reduce__ names " + msg +
                        " are rebuilt from the constructor arguments alone")
        return
    if t.kind != "ObjectNode":
        return
    attrs = lambda x: (meth(x, "__getstate__") and x.a[0].a[0] is OBJ) or x is a_("__dict__") or \
        (is_call(x, "builtins.vars") and x.a[1] and x.a[1][0] is OBJ) or red(2)(x)
    component(rep, rid, t, tn, "the attributes", set(), set(), pred=attrs)
    for g, leaf in live_leaves(t):
        if leaf.op == "call" and leaf.a[0] is TYPEOF and not leaf.a[1] and not leaf.a[2]:
            rep.bad(rid, "object:init", t.cls_loc, "the instance is made by calling the class without arguments: classes "
                    "with required arguments cannot be loaded, and what __init__ sets survives in the loaded object")
        elif leaf.op == "call" and leaf.a[0].op == "attr" and leaf.a[0].a[1] == "__new__":
            rep.ok(rid, "object: the instance is made without calling __init__", t.cls_loc)
    own = [x for x in fl if meth(x, "__getstate__") and x.a[0].a[0] is OBJ] + [x for x in fl if red(2)(x)]
    if own:
        rep.ok(rid, "object: __getstate__ is used", t.loc)
    elif not unknown_use(t) and a_("__dict__") in fl or any(is_call(x, "builtins.vars") for x in fl):
        rep.bad(rid, "object:getstate", t.loc, "objects that define __getstate__ are saved from their __dict__")
    setters = [(k, b, args, g, loc) for k, b, args, g, loc in t.muts if k in ("call:__setstate__", "call:update")]

    def f(x):
        # the object has a state
        if x.op == "hasattr" and x.a[0] is OBJ and mk2(x.a[1]) is const("__getstate__"):
            return True
        if x.op in ("is", "eq") and NONE in x.a:
            o = x.a[0] if x.a[1] is NONE else x.a[1]
            if any(attrs(y) for y in subterms(o)):
                return False
        if attrs(x) or x.op in ("stateof", "cons") and any(attrs(y) for y in subterms(x)):
            return None
        return None

    def g_(x):
        v = f(x)
        if v is not None:
            return v
        if x.op in ("is", "eq") and NONE in x.a and any(y.op == "attr" and y.a[1] == "__setstate__" for y in x.a):
            return False        # a method
        if x.op == "attr" and x.a[1] == "__setstate__":
            return True
        if x.op in ("stateof",):
            return True         # states are non-empty dicts
        return None
    if not setters:
        if unknown_use(t):
            rep.dunno(rid, "object: attributes are set", t.cls_loc, "not modelled")
        else:
            rep.bad(rid, "object:attrs", t.cls_loc, "the saved attributes are never set on the loaded object")
        return
    g = Or([assign_bool(g, g_) for _k, _b, _a, g, _l in setters] + [assign_bool(r, g_) for r in t.raises])
    fz = falsifier(Or([g, assign_bool(t.refused, g_), Not(assign_bool(t.path, g_))]))
    if fz is None:
        rep.ok(rid, "object: attributes are set", t.cls_loc)
    elif fz == "cap" or any(opaque(x) and not json_fails(x) for x, _ in fz):
        rep.dunno(rid, "object: attributes are set", t.cls_loc, "guard not modelled: " + (show_guard(fz)[:300] if fz != "cap" else "cap"))
    else:
        rep.bad(rid, "object:attrs-skipped", t.cls_loc, "the saved attributes are not set on the loaded object"
                + (f" when {show_guard(fz)[:160]}" if fz else ""))
    for k, b, args, gd, loc in setters:
        v = strip_state(assign(args[0], g_)) if args else None
        if v is None:
            continue
        if attrs(v):
            rep.ok(rid, "object: attributes are set as saved", loc)
        elif not contains(v, OBJ):
            rep.bad(rid, "object:state", loc, f"the attributes are set to {show(v)[:80]}")
        else:
            # the alternative for states that are dicts
            filt = None
            for gl, w in leaves(v):
                di = dict_items(w) if w.op.split(":")[0] == "dict" else None
                if di is None or not all(x is TRUE or x.op == "isinstance" and attrs(x.a[0]) for x, _p in lits_of(gl)):
                    continue
                bad = [gg for g2, _k, _v in di for gg in [residual(g2, lambda x, p: x.op == "each")] if gg]
                if bad and all(not opaque(x) for gg in bad for x, _p in gg):
                    filt = bad[0]
            if filt is not None:
                rep.bad(rid, "object:attrs-filtered", loc, "some attributes are left out: kept only when "
                        + show_guard(filt)[:140])
                continue
            rep.dunno(rid, "object: attributes are set as saved", loc, show(v)[:120])
        # which setter
        if k == "call:update":
            r = assign_bool(gd, lambda x: True if x.op == "hasattr" and mk2(x.a[1]) is const("__setstate__") else g_(x))
            fz = falsifier(Not(r))
            if fz is None:
                rep.ok(rid, "object: __setstate__ takes precedence", loc)
            elif fz == "cap" or any(opaque(x) for x, _ in fz):
                rep.dunno(rid, "object: __setstate__ takes precedence", loc, "guard not modelled")
            else:
                rep.bad(rid, "object:setstate", loc, "objects that define __setstate__ get their __dict__ updated instead")


def strip_state(v):
    while v.op == "cons" and v.a[0].op == "node" and v.a[0].a[0].op == "stateof":
        v = v.a[0].a[0].a[0]
    return v


# ------------------------------------------------------------------ objects that must be refused
def rule_refuse(rep, M, prefix):
    rid = prefix + ".refuse"
    rep.rule(rid, "objects whose content the generic fallback cannot see (constructor arguments, list or dict items of "
                  "__reduce__, data in a builtin base) and names that denote another object make dumping raise")
    for t in by_type(M).get("builtins.object", []):
        if t.kind != "ObjectNode":
            continue
        used = flow(t)
        RD = [x for x in subterms(And([(t.refused, True), (t.path, True)])) if is_reduce(x)]
        if not RD:
            r0 = t.refused
            if r0 is FALSE:
                rep.bad(rid, "object:reduce", t.loc, "objects that keep data outside their attributes are never refused")
            else:
                rep.dunno(rid, "object fallback", t.loc, "the refusal does not look at __reduce__")
            continue
        R = RD[0]
        it = lambda i: mk("item", R, const(i))

        def at(x, *path):
            """x denotes reduce[path], also through a slice of reduce"""
            want = list(path)
            while want:
                if not (x.op == "item" and is_const(x.a[1])):
                    return False
                if cval(x.a[1]) != want[-1]:
                    # reduce[k:][i]
                    if len(want) == 1 and x.a[0].op == "item" and x.a[0].a[1].op == "slice":
                        lo = x.a[0].a[1].a[0]
                        lo = cval(lo) if is_const(lo) and cval(lo) is not None else 0
                        return is_reduce(x.a[0].a[0]) and lo + cval(x.a[1]) == want[0]
                    return False
                want.pop()
                x = x.a[0]
            if x.op == "item" and x.a[1].op == "slice":
                lo = x.a[1].a[0]
                if is_const(lo) and cval(lo) in (None, 0):
                    x = x.a[0]
            return is_reduce(x)

        def base(x, n):
            if x.op == "isinstance" and is_reduce(x.a[0]) and x.a[1].op == "ext":
                return x.a[1].a[0] == "builtins.tuple"
            if x.op == "is" and any(is_reduce(y) for y in x.a) and NONE in x.a:
                return False
            if x.op == "eq" and any(y.op == "len" and is_reduce(y.a[0]) for y in x.a):
                c = [y for y in x.a if is_const(y)]
                return bool(c) and cval(c[0]) == n
            if x.op == "lt" and any(y.op == "len" and is_reduce(y.a[0]) for y in x.a):
                a, b = x.a
                if a.op == "len" and is_const(b):
                    return n < cval(b)
                if b.op == "len" and is_const(a):
                    return cval(a) < n
            if x.op == "exc" and any(is_call(y, "json.dumps", "json.loads") or y.op == "json" for y in subterms(x)):
                return True
            return None

        def is_type(x, *p):
            return x.op in ("is", "eq") and any(at(y, *p) for y in x.a)

        def ctor_args(x):
            if is_type(x, 0):
                o = [y for y in x.a if not at(y, 0)][0]
                return o is TYPEOF
            if at(x, 1):
                return True
            if x.op == "eq" and any(y.op == "len" and at(y.a[0], 1) for y in x.a):
                return None
            if x.op == "each" and x.a[0].op == "item":
                return False
            return base(x, 3)

        def items(x):
            if is_type(x, 0):
                o = [y for y in x.a if not at(y, 0)][0]
                if o is TYPEOF:
                    return False
                if o.op == "ext":
                    return o.a[0] in ("copyreg.__newobj__",)
            if x.op == "each" and x.a[0].op == "item" and x.a[0].a[1].op == "slice" and is_reduce(x.a[0].a[0]):
                return True
            if x.op == "is" and NONE in x.a:
                o = x.a[0] if x.a[1] is NONE else x.a[1]
                if o.op == "elem" and o.a[0].op == "item" and is_reduce(o.a[0].a[0]):
                    lo = o.a[0].a[1].a[0] if o.a[0].a[1].op == "slice" else None
                    if lo is not None and is_const(lo) and (cval(lo) or 0) in (3, 4):
                        return False
                    return None
                if at(o, 3) or at(o, 4):
                    return False
            if at(x, 3) or at(x, 4):
                return True
            return base(x, 5)

        def recon(x):
            if is_type(x, 0):
                o = [y for y in x.a if not at(y, 0)][0]
                if o is TYPEOF:
                    return False
                if o.op == "ext":
                    return o.a[0] == "copyreg._reconstructor"
            if is_type(x, 1, 1):
                return False
            if x.op == "each" and x.a[0].op == "item":
                return False
            if at(x, 1):
                return True
            return base(x, 2)
        for facts, name, msg in (
                (ctor_args, "constructor arguments", "an object whose __reduce__ passes constructor arguments (frozenset) "
                                                     "is written without them"),
                (items, "reduce items", "an object whose __reduce__ yields items (deque, OrderedDict-like) is written "
                                        "without them"),
                (recon, "builtin base", "an object that keeps data in a builtin base (subclass of str, int, float) is "
                                        "written without it")):
            r = Or([assign_bool(t.refused, facts), Not(assign_bool(t.path, facts))])
            fz = falsifier(r)
            what = "object: refuses " + name
            if fz is None:
                rep.ok(rid, what, t.loc)
            elif fz == "cap" or any(opaque(x) for x, _ in fz):
                rep.dunno(rid, what, t.loc, "refusal not modelled")
            elif any(is_reduce(y) for x, _ in fz for y in subterms(x)) and r is not FALSE and \
                    not plain_reduce_free(fz):
                rep.dunno(rid, what, t.loc, show_guard(fz)[:140])
            else:
                rep.bad(rid, "object:" + name.replace(" ", "-"), t.loc, msg)
    # members stored as raw json
    for t in by_type(M).get("builtins.slice", []):
        if t.value is None:
            continue
        raw = any(x is a_("start") for x in subterms(strip_states(t.state_n)))
        if not raw:
            rep.ok(rid, "slice members are saved as objects", t.loc)
            continue
        for n in ("start", "stop", "step"):
            m = a_(n)

            def odd(x):
                # a member that is neither None nor a json scalar
                if x.op in ("is", "eq") and len(x.a) == 2:
                    for u, v in (x.a, x.a[::-1]):
                        if u is m and v is NONE:
                            return False
                        if u.op == "typeof" and u.a[0] is m and v.op == "ext":
                            return False
                        if u.op == "typeof" and u.a[0] is m and v.op == "typeof":
                            return False
                if x.op == "in" and x.a[0].op == "typeof" and x.a[0].a[0] is m:
                    return False
                if x.op == "isinstance" and x.a[0] is m:
                    return False
                if x is m:
                    return True
                return None
            r = assign_bool(t.refused, odd)
            fz = falsifier(r)
            if fz is None:
                rep.ok(rid, f"slice: odd {n} is refused", t.loc)
            elif fz == "cap" or any(opaque(x) for x, _ in fz) or any(contains(x, m) for x, _ in fz):
                rep.dunno(rid, f"slice: odd {n} is refused", t.loc, "refusal not modelled")
            else:
                rep.bad(rid, f"slice:{n}", t.loc, f"slice.{n} is written as raw json whatever its type: a tuple or numpy number "
                                                  "comes back as something else")
    # names
    for tn in ("types.FunctionType", "builtins.type", "types.MethodType"):
        for t in by_type(M).get(tn, []):
            if t.value is None:
                continue
            r = t.refused
            if r is FALSE:
                if tn == "types.MethodType":
                    msg = "a bound method is looked up by name without checking that the name leads back to it"
                else:
                    msg = f"a {tn} is looked up by name without checking that the name leads back to it"
                rep.bad(rid, tn + ":name", t.loc, msg)
            elif any(x.op in ("is", "eq") and OBJ in x.a for x in subterms(r)):
                rep.ok(rid, f"{tn}: the name leads back to the object", t.loc)
            elif not any(opaque(x) for x in atoms_of(r)) and all(existence_test(x) for x in atoms_of(r)):
                rep.bad(rid, tn + ":name", t.loc, f"a {tn} is written under a name that exists, without checking that it leads "
                                                  "back to the same object: another one is loaded")
            else:
                rep.dunno(rid, f"{tn}: the name leads back to the object", t.loc, show(r)[:100])


def existence_test(x):
    """the condition only asks whether there is something under a name"""
    if x.op in ("hasattr", "exc"):
        return True
    if x.op in ("is", "eq"):
        return any(is_const(y) for y in x.a)
    if x.op == "in":
        return is_const(x.a[0]) or x.a[0].op == "attr" and x.a[0].a[1] in ("__name__", "__qualname__", "__module__")
    if x.op == "call":
        return x.a[0].op == "ext" and x.a[0].a[0] in ("builtins.getattr", "builtins.callable", "builtins.hasattr")
    return False


def plain_reduce_free(fz):
    return not any(is_reduce(y) for x, _ in fz for y in subterms(x))


def strip_states(t):
    """remove what goes through get_state"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(i) for i in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x.op == "stateof":
            r = mk("sym", "saved")
        elif not x.a or x.op == "const":
            r = x
        else:
            r = mk(x.op, *(go(i) for i in x.a))
        memo[x] = r
        return r
    return go(t)


# ------------------------------------------------------------------ dumping does not change the object
INPLACE = {"pop", "popitem", "clear", "update", "setdefault", "append", "extend", "insert", "remove", "sort", "reverse",
           "add", "discard", "fill", "setflags", "resize", "itemset", "put", "partition", "byteswap_inplace", "seed",
           "set_state", "__setstate__", "sum_duplicates", "sort_indices", "eliminate_zeros", "setdiag", "harden_mask",
           "soften_mask", "unshare_mask", "shrink_mask", "set_fill_value", "random", "integers", "shuffle", "rand",
           "randn", "randint", "normal", "uniform", "choice", "standard_normal", "random_raw", "jumped", "advance",
           "random_sample", "bytes", "permutation", "__setitem__", "__delitem__", "__setattr__", "__delattr__",
           "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end", "prune",
           "set_params", "fit", "__init__"}
ALIAS_CALLS = {"numpy.asarray", "numpy.asanyarray", "builtins.vars", "builtins.getattr"}
ALIAS_METHODS = {"view", "ravel", "reshape", "__getstate__", "__reduce__", "__reduce_ex__", "get"}


def rooted(t):
    """is the value (a part of) the dumped object itself rather than a copy"""
    while True:
        if t is OBJ:
            return True
        if t.op in ("attr", "item", "elem", "idx"):
            t = t.a[0]
            continue
        if t.op in ("ditems", "dvalues", "dkeys"):
            t = t.a[0]
            continue
        if t.op == "ite":
            return rooted(t.a[1]) or rooted(t.a[2])
        if t.op == "call":
            f = t.a[0]
            if f.op == "ext" and f.a[0] in ALIAS_CALLS and t.a[1]:
                t = t.a[1][0]
                continue
            if f.op == "attr" and f.a[1] in ALIAS_METHODS:
                t = f.a[0]
                continue
        return False


def rule_no_mutation(rep, M, prefix):
    rid = prefix + ".dump-pure"
    rep.rule(rid, "no writer assigns, deletes or changes in place anything reachable from the object being dumped")
    seen = set()
    for t in get_trips(M):
        if t.qual in seen:
            continue
        seen.add(t.qual)
        bad = False
        for e in t.wevents:
            if not isinstance(e.fn, T):
                continue
            fn = M.I.freeze(e.fn)
            hit = None
            if e.kind in ("setitem", "delitem", "setattr", "delattr") and fn.op != "ref" and rooted(fn):
                hit = f"{e.kind} on {show(fn)[:60]}"
            elif e.kind == "call" and fn.op == "attr" and fn.a[1] in INPLACE and rooted(fn.a[0]):
                hit = f"calls {show(fn)[:60]}()"
            elif e.kind == "call" and fn.op == "ext" and fn.a[0] in (
                    "builtins.setattr", "builtins.delattr", "random.shuffle", "numpy.random.shuffle", "numpy.put",
                    "numpy.copyto", "numpy.place") and e.args and rooted(M.I.freeze(e.args[0])):
                hit = f"calls {fn.a[0]} on {show(M.I.freeze(e.args[0]))[:60]}"
            elif e.kind == "mut" and fn.op != "ref" and rooted(fn):
                hit = f"changes {show(fn)[:60]}"
            if hit and aguard(e.guard, lambda x: None) is not FALSE:
                bad = True
                rep.bad(rid, f"{t.qual.split('.')[-1]}:{hit[:60]}", e.loc, f"{t.qual.split('.')[-1]} {hit}: dumping changes "
                                                                          "the object")
        if not bad:
            rep.ok(rid, t.qual, t.loc)


# ------------------------------------------------------------------ supported data is accepted
FAMILIES = {
    "builtins.dict": "dict", "collections.defaultdict": "defaultdict", "builtins.list": "list", "builtins.set": "set",
    "builtins.tuple": "tuple", "builtins.bytes": "bytes", "builtins.bytearray": "bytearray", "builtins.slice": "slice",
    "types.FunctionType": "functions", "functools.partial": "partial", "builtins.type": "types",
    "operator.attrgetter": "attrgetter", "operator.itemgetter": "itemgetter", "numpy.generic": "numpy scalars",
    "numpy.bytes_": "np.bytes_ (also a bytes)",
    "numpy.ndarray": "arrays", "numpy.ma.MaskedArray": "masked arrays", "numpy.ufunc": "ufuncs", "numpy.dtype": "dtypes",
    "numpy.random.RandomState": "RandomState", "numpy.random.Generator": "Generator",
    "scipy.sparse.spmatrix": "sparse matrices", "builtins.object": "json scalars",
}
# a writer for one of these bases also serves
COVERED_BY = {"operator.attrgetter": (), "collections.defaultdict": ("builtins.dict",)}


def rule_supported(rep, M, prefix):
    rid = prefix + ".accepted"
    rep.rule(rid, "each supported family has its own writer registered for its type, and the writer does not refuse plain "
                  "members of the family (exact type, own name, json scalars as members)")
    bt = by_type(M)
    for t in bt.get("builtins.object", []):
        for x in subterms(t.path) | subterms(t.value or NONE) | flow(t):
            if is_call(x, "json.dumps"):
                kw = dict(x.a[2])
                if kw.get("allow_nan") is FALSE:
                    rep.bad(rid, "json:nan", t.loc, "nan and infinity are not written")
    for tn, label in FAMILIES.items():
        ts = bt.get(tn)
        if not ts:
            rep.bad(rid, f"{tn}:unregistered", M.io.I.modules[U_MOD].file if U_MOD in M.io.I.modules else None,
                    f"no writer is registered for {tn} ({label}); the generic fallback does not preserve it")
            continue
        if all(t.value is None for t in ts):
            rep.bad(rid, f"{tn}:unsupported", ts[0].loc, f"{label} are never written: {ts[0].qual}")
            continue
        facts = plain_member(tn)
        ref = assign_bool(ts[0].refused, facts)
        what = f"{label} are accepted"
        if ref is TRUE:
            rep.bad(rid, f"{tn}:refused", ts[0].loc, f"plain {label} are refused")
        elif ref is FALSE:
            rep.ok(rid, what, ts[0].loc)
        else:
            fz = falsifier(Not(ref))
            at = [x for x, _ in fz] if isinstance(fz, list) else []
            if any(x.op == "each" or opaque(x) for x in at) or fz == "cap" or tn in ("builtins.dict", "builtins.object"):
                rep.ok(rid, what + " (refusal depends on contents)", ts[0].loc)
            else:
                rep.dunno(rid, what, ts[0].loc, "refused when " + show_guard(fz or [])[:160])


U_MOD = "skops.io._utils"


def plain_member(tn):
    ex = exact_type_facts(tn, True)

    def f(x):
        v = ex(x)
        if v is not None:
            return v
        if x.op == "exc":
            return False
        if x.op in ("is", "eq") and any(y.op == "ext" and y.a[0] in ("numpy.record", "numpy.rec.record") for y in x.a):
            return False
        if x.op in ("is", "eq") and OBJ in x.a and any(is_call(y, "builtins.getattr") or y.op == "attr" for y in x.a):
            return True
        if x.op in ("is", "eq") and TYPEOF in x.a and any(red(0)(y) for y in x.a):
            return True
        if x.op == "eq" and any(meth(y.a[0], "split") and any(u.op == "modof" for u in subterms(y)) for y in x.a
                                if y.op == "item") and tn.startswith("scipy"):
            c = [y for y in x.a if is_str(y)]
            return bool(c) and cval(c[0]) == "scipy"
        if tn == "builtins.slice":
            if x.op in ("is", "eq") and NONE in x.a and any(y.op == "attr" and y.a[0] is OBJ for y in x.a):
                return False
            if x.op in ("is", "eq"):
                for u, v in (x.a, x.a[::-1]):
                    if u.op == "typeof" and u.a[0].op == "attr" and u.a[0].a[0] is OBJ and v.op == "ext":
                        return v.a[0] == "builtins.int"
            if x.op == "isinstance" and x.a[0].op == "attr" and x.a[1].op == "ext":
                return x.a[1].a[0] == "builtins.int"
        return None
    return f


# ------------------------------------------------------------------ default trust of estimators
def rule_estimators_trusted(rep, M, prefix):
    rid = prefix + ".estimators-trusted"
    rep.rule(rid, "every class all_estimators() lists is trusted by the reader of plain objects without a trusted list: the "
                  "table is built from all_estimators() with no filter except the sklearn prefix")
    I = M.io.I
    n = next((n for n in M.nodes if n.name == "ObjectNode" and ".old." not in n.qual), None)
    if n is None or n.trusted is None:
        rep.dunno(rid, "ObjectNode", None, "not modelled")
        return
    its = M.trusted_items(n, "none")
    if its is None:
        rep.dunno(rid, "ObjectNode", n.loc, "trusted list not modelled")
        return
    found = False
    for g, v in its:
        src = [x for x in subterms(mk("tuple", v, g)) if x.op == "call" and x.a[0].op == "ext" and
               x.a[0].a[0].endswith("all_estimators")]
        if not src:
            continue
        found = True
        s = src[0]
        if s.a[1] or s.a[2]:
            kw = dict(s.a[2])
            tf = kw.get("type_filter") or (s.a[1][0] if s.a[1] else NONE)
            if tf is not NONE:
                rep.bad(rid, "type-filter", n.loc, f"only all_estimators({show(tf)[:60]}) are trusted by default")
                continue
        left = residual(g, lambda t, p: t.op == "each" or (p and t.op == "call" and t.a[0].op == "attr" and
                        t.a[0].a[1] == "startswith" and t.a[1] and is_str(t.a[1][0]) and
                        "sklearn.".startswith(cval(t.a[1][0]))))
        left = [(t, p) for t, p in left if not (t.op == "eq" and p and any(is_str(x) and cval(x) == "sklearn" for x in t.a))]
        left = [(t, p) for t, p in left if not (t.op in ("isinstance", "is"))]
        if not left:
            rep.ok(rid, "all estimators are trusted", n.loc)
        elif all(structural(t) for t, _ in left):
            rep.bad(rid, "filtered", n.loc, "only estimators with " + show_guard(left)[:160] + " are trusted by default")
        else:
            rep.dunno(rid, "all estimators are trusted", n.loc, show_guard(left)[:160])
    if not found:
        if any(opaque(v) for _g, v in its):
            rep.dunno(rid, "all estimators are trusted", n.loc, "source of the names not modelled")
        else:
            rep.bad(rid, "missing", n.loc, "the reader of plain objects does not trust scikit-learn estimators by default")
