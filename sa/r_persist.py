"""Rules over the public load / inspect / dump entry points (skops.io._persist, _visualize)."""
from __future__ import annotations

from .audit_model import (A, LC, P, STATE, TRUSTED, U, AuditModel, scen_list, scen_none, SCEN)
from .core import *
from .core import T
from .r_audit import (dict_lookups, falsifier, inert_events, judge, opaque, reads_archive, structural, tautology)

FILE = mk("sym", "file")
DATA = mk("sym", "data")


class Run:
    """one run of a public function of skops.io"""

    def __init__(self, M, func, args, kw=None, mod=P):
        I = M.io.I
        I.reset_control()
        I.symattrs = {}
        n0 = len(I.events)
        f = I.get_global(mod, func)
        self.func = func
        I.enter(mod)
        try:
            self.ref = I.call(f, list(args), dict(kw or {}), None)
        finally:
            I.frames.pop()
        self.value = I.freeze(self.ref)
        self.events = I.events[n0:]
        self.M = M
        fn = None
        for x in I._alts(f):
            if x.op == "fn":
                fn = I.fns[x.a[1]]
        self.loc = (fn.module.file, fn.node.lineno) if fn else (mod, 0)

    def live(self, fn):
        out = []
        for e in self.events:
            g = aguard(e.guard, fn)
            if g is FALSE:
                continue
            out.append((e, g, assign(self.M.I.freeze(e.fn), fn) if isinstance(e.fn, T) else e.fn,
                        tuple(assign(self.M.I.freeze(a), fn) for a in e.args if isinstance(a, T))))
        return out


def is_unsafe_q(t):
    return t.op == "nodeq" and t.a[0] == "get_unsafe_set"


def with_unsafe(empty, scen):
    base = SCEN[scen]

    def f(t):
        if is_unsafe_q(t):
            return not empty
        if t.op == "each" and (is_unsafe_q(t.a[0]) or (t.a[0].op in ("sorted", "list_of") and
                                                       isinstance(t.a[0].a[0], T) and is_unsafe_q(t.a[0].a[0]))):
            return not empty
        if t.op == "len" and is_unsafe_q(t.a[0]):
            return not empty
        if t.op in ("eq", "lt") and any(x.op == "len" and is_unsafe_q(x.a[0]) for x in t.a):
            # comparisons of len(unsafe) with a constant
            c = [x for x in t.a if is_const(x)]
            if len(c) == 1 and isinstance(cval(c[0]), int):
                k = cval(c[0])
                left = t.a[0].op == "len"
                if t.op == "eq":
                    if empty:
                        return k == 0
                    return False if k <= 0 else None
                if left:         # len < k
                    if empty:
                        return 0 < k
                    return False if k <= 1 else None
                if empty:        # k < len
                    return k < 0
                return True if k <= 0 else None
        return base(t)
    return f


LOADERS = (("load", [FILE], {}), ("loads", [DATA], {}))


def load_runs(M):
    out = []
    for name, args, kw in LOADERS:
        out.append(Run(M, name, args, {"trusted": TRUSTED}))
    return out


def rule_load_order(rep, M, prefix):
    rid = prefix + ".load-order"
    rep.rule(rid, "in load and loads, construct() runs only on a node whose get_unsafe_set was computed and found "
                  "empty; a non-empty set always raises UntrustedTypesFoundException carrying that same set")
    for run in load_runs(M):
        for scen in ("none", "list"):
            ne, em = with_unsafe(False, scen), with_unsafe(True, scen)
            live_ne, live_em = run.live(ne), run.live(em)
            cons = [x for x in live_ne if x[0].kind == "construct"]
            what = f"{run.func} (trusted {scen})"
            audits = [e for e in run.events if e.kind == "nodecall" and e.x == "get_unsafe_set"]
            if not any(e.kind == "construct" for e in run.events):
                rep.dunno(rid, what, run.loc, "no construct() call found")
                continue
            # every constructed node was audited
            for e in run.events:
                if e.kind == "construct":
                    ok = any(a.fn is e.fn and a.seq < e.seq for a in audits)
                    if not ok:
                        if opaque(e.fn):
                            rep.dunno(rid, what, e.loc, "node not modelled")
                        else:
                            rep.bad(rid, f"{run.func}:unaudited", e.loc,
                                    f"{run.func} constructs {show(e.fn)[:80]} without computing its unsafe set first")
            for e, g, fn, a in cons:
                fz = falsifier(Not(g))
                if fz is None:
                    continue
                if fz == "cap" or not all(structural(x) for x, _ in fz):
                    rep.dunno(rid, what, e.loc, "construct guarded by " + show_guard(lits_of(g))[:200])
                else:
                    rep.bad(rid, f"{run.func}:construct-unsafe", e.loc,
                            f"{run.func} constructs the object although untrusted types were found"
                            + (f" when {show_guard(fz)[:200]}" if fz else ""))
            else:
                if not cons:
                    rep.ok(rid, what + ": no construct when untrusted types were found", run.loc)
            # must raise the documented exception with the set
            rs = [x for x in live_ne if x[0].kind == "new" and "UntrustedTypesFoundException" in show(x[2])]
            raises = [x for x in live_ne if x[0].kind == "raise"]
            if not raises:
                rep.bad(rid, f"{run.func}:no-raise", run.loc, f"{run.func} does not raise when untrusted types are found")
            elif not rs:
                rep.dunno(rid, what, raises[0][0].loc, "exception object not modelled")
            else:
                bad = False
                for e, g, fn, a in rs:
                    arg = a[0] if a else None
                    if arg is None:
                        rep.dunno(rid, what, e.loc, "no argument")
                        bad = True
                    elif not carries_set(arg):
                        bad = True
                        if opaque(arg):
                            rep.dunno(rid, what, e.loc, "exception argument not modelled")
                        else:
                            rep.bad(rid, f"{run.func}:exception-arg", e.loc,
                                    f"{run.func} raises with {show(arg)[:100]} instead of the set of untrusted types")
                if not bad:
                    rep.ok(rid, what + ": exception carries the audited set", rs[0][0].loc)
            # empty -> constructs, no raise
            cons_e = [x for x in live_em if x[0].kind == "construct"]
            if not cons_e:
                rep.bad(rid, f"{run.func}:blocked", run.loc, f"{run.func} never constructs although nothing is untrusted")
            else:
                fz = falsifier(guard_or_all([x[1] for x in cons_e]))
                if isinstance(fz, list) and fz and all(about_input(x) for x, _ in fz):
                    fz = None       # an argument that is refused for another reason
                judge(rep, rid, fz, what + ": constructs when nothing is untrusted", run.loc,
                      f"{run.func} does not construct although nothing is untrusted", f"{run.func}:blocked")
            ex = [x for x in live_em if x[0].kind == "new" and "UntrustedTypesFoundException" in show(x[2])]
            for e, g, fn, a in ex:
                fz = falsifier(Not(g))
                if fz is not None and fz != "cap" and all(structural(x) for x, _ in fz):
                    rep.bad(rid, f"{run.func}:false-alarm", e.loc,
                            f"{run.func} raises UntrustedTypesFoundException although nothing is untrusted")
            # value returned is the constructed node
            v = assign(run.value, em)
            if v.op == "cons":
                rep.ok(rid, what + " returns the constructed object", run.loc)
            elif opaque(v) or v.op == "ite":
                rep.dunno(rid, what, run.loc, "return value not modelled")
            else:
                rep.bad(rid, f"{run.func}:result", run.loc, f"{run.func} returns {show(v)[:80]}")


def about_input(t):
    return ((contains(t, DATA) or contains(t, FILE)) and not contains(t, TRUSTED)
            and not any(is_unsafe_q(x) for x in subterms(t)))


def guard_or_all(gs):
    return Or(gs)


def unwrap(t):
    """strip order/dup preserving wrappers"""
    while True:
        if t.op == "sorted" and isinstance(t.a[0], T):
            t = t.a[0]
            continue
        b = t.op.split(":")[0]
        if b in ("list", "set", "tuple") and len(t.a) == 1 and t.a[0].op == "ent" and \
                t.a[0].a[1] in ("append", "add") and t.a[0].a[3].op == "elem" and \
                t.a[0].a[0] is mk("each", t.a[0].a[3].a[0]):
            t = t.a[0].a[3].a[0]
            continue
        if b in ("list", "set", "tuple") and len(t.a) == 1 and t.a[0].op == "ent" and \
                t.a[0].a[1] in ("extend", "update") and t.a[0].a[0] is TRUE:
            t = t.a[0].a[3]
            continue
        return t


def carries_set(arg):
    return is_unsafe_q(unwrap(arg))


def rule_trusted_true(rep, M, prefix):
    rid = prefix + ".trusted-true"
    rep.rule(rid, "trusted=True raises in load and loads before anything is read or constructed, on every path")
    for name, args, kw in LOADERS:
        run = Run(M, name, args, {"trusted": TRUE})
        cons = [e for e in run.events if e.kind == "construct"]
        raises = [e for e in run.events if e.kind == "raise" and e.guard is not None]
        if cons:
            fz = falsifier(Not(aguard(cons[0].guard, lambda t: None)))
            if fz is None:
                rep.ok(rid, name, run.loc)
            elif fz == "cap" or not all(structural(x) or is_unsafe_q(x) for x, _ in fz):
                rep.dunno(rid, name, cons[0].loc, "guard not modelled")
            else:
                rep.bad(rid, name, cons[0].loc, f"{name}(trusted=True) reaches construct()")
        else:
            fz = falsifier(Or([aguard(e.guard, lambda t: None) for e in raises]))
            if fz is None:
                rep.ok(rid, name, run.loc)
            elif fz != "cap" and all(structural(x) for x, _ in fz):
                rep.bad(rid, name, run.loc, f"{name}(trusted=True) does not raise when {show_guard(fz)[:200]}")
            else:
                rep.dunno(rid, name, run.loc, "raise guarded by " + (show_guard(fz)[:200] if fz != "cap" else "?"))


def source_norm(t, scen_fn=None):
    """replace the zip source so that data= and file= runs can be compared"""
    return t


def rule_get_untrusted(rep, M, prefix):
    rid = prefix + ".get-untrusted"
    rep.rule(rid, "get_untrusted_types returns sorted(get_unsafe_set) of the tree built with trusted=None, from the "
                  "same schema load reads, and computes the same thing for data= and file=")
    res = {}
    for which, kw in (("data", {"data": DATA}), ("file", {"file": FILE})):
        run = Run(M, "get_untrusted_types", [], kw)
        v = run.value
        given = {DATA: True, FILE: True}

        def f(t):
            if t in given:
                return True
            if t.op == "is" and NONE in t.a and (t.a[0] in given or t.a[1] in given):
                return False
            return common_(t)
        v = assign(v, f)
        res[which] = (run, v)
        what = f"get_untrusted_types({which}=)"
        u = unwrap(v)
        if not is_unsafe_q(u):
            if opaque(v) or v.op == "ite":
                rep.dunno(rid, what, run.loc, "return value " + show(v)[:100])
            else:
                rep.bad(rid, which + ":value", run.loc, f"{what} returns {show(v)[:120]}, not the audited set")
            continue
        if has_sorted(v) is False:
            rep.bad(rid, which + ":order", run.loc, f"{what} returns {show(v)[:100]}, which is not sorted")
        elif has_sorted(v) is None:
            rep.dunno(rid, what, run.loc, "order not modelled")
        else:
            rep.ok(rid, what + " is sorted", run.loc)
        node = u.a[1]
        if node.op == "node":
            st, tr = node.a
            tr = assign(tr, scen_none)
            if tr is NONE or (tr.op.split(":")[0] in ("list", "tuple") and not tr.a):
                rep.ok(rid, what + " builds the tree without trust", run.loc)
            elif opaque(tr):
                rep.dunno(rid, what, run.loc, "trusted argument " + show(tr)[:60])
            else:
                rep.bad(rid, which + ":trust", run.loc, f"{what} builds the tree with trusted={show(tr)[:60]}")
        else:
            rep.dunno(rid, what, run.loc, "node not modelled")
    if len(res) == 2:
        a = normalise_src(res["data"][1], DATA)
        b = normalise_src(res["file"][1], FILE)
        if a is b:
            rep.ok(rid, "data= and file= compute the same term up to the source", res["data"][0].loc)
        elif opaque(a) or opaque(b):
            rep.dunno(rid, "data= vs file=", res["data"][0].loc, "not modelled")
        else:
            ua, ub = unwrap(a), unwrap(b)
            rep.dunno(rid, "data= vs file=", res["data"][0].loc, f"{show(a)} / {show(b)} / {[x.op for x in subterms(a) if x not in set(subterms(b))]}")
    # the tree of load: same schema source, trusted as given
    for run in load_runs(M):
        gts = [e for e in run.events if e.kind == "get_tree"]
        for e in gts:
            tr = M.I.freeze(e.args[2]) if len(e.args) > 2 else None
            t2 = assign(tr, scen_list) if tr is not None else None
            what = f"{run.func} passes trusted to get_tree"
            if t2 is TRUSTED:
                rep.ok(rid, what, e.loc)
            elif t2 is None or opaque(t2):
                rep.dunno(rid, what, e.loc, "not modelled")
            else:
                u = unwrap(t2)
                its = seq_items(t2)
                if u is TRUSTED:
                    rep.ok(rid, what, e.loc)
                elif not contains(t2, TRUSTED):
                    rep.bad(rid, run.func + ":trusted", e.loc, f"{run.func} builds the tree with trusted={show(t2)[:80]} "
                                                              "instead of the caller's list")
                elif its is not None and any(g is not FALSE and not contains(v, TRUSTED) for g, v in its):
                    rep.bad(rid, run.func + ":trusted-extra", e.loc,
                            f"{run.func} adds {[show(v)[:60] for g, v in its if not contains(v, TRUSTED)]} to the "
                            "trusted list")
                else:
                    rep.dunno(rid, what, e.loc, show(t2)[:100])


def common_(t):
    from .audit_model import common
    return common(t)


def has_sorted(v):
    x = v
    for _ in range(6):
        if x.op == "sorted":
            kw = x.a[1] if len(x.a) > 1 else ()
            if kw:
                d = dict(kw) if isinstance(kw, tuple) else {}
                if d.get("reverse") in (None, FALSE) and "key" not in d:
                    return True
                return False if d.get("reverse") is TRUE else None
            return True
        b = x.op.split(":")[0]
        if b in ("list", "tuple") and len(x.a) == 1 and x.a[0].op == "ent":
            v3 = x.a[0].a[3]
            x = v3.a[0] if v3.op == "elem" else v3
            continue
        break
    if is_unsafe_q(x) or x.op.split(":")[0] == "set":
        return False
    return None


def normalise_src(t, sym):
    src = mk("sym", "SOURCE")
    bio = [x for x in subterms(t) if x.op == "call" and callee(x) == "io.BytesIO" and x.a[1] and x.a[1][0] is sym]
    m = {b: src for b in bio}
    m[sym] = src

    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(i) for i in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        if not x.a or x.op == "const":
            return x
        if x in memo:
            return memo[x]
        na = tuple(go(i) for i in x.a)
        if x.op == "call":
            na = na[:3]         # the serial number of a stateful call
        r = mk(x.op, *na)
        memo[x] = r
        return r
    return go(t)


def rule_inert_entry(rep, M, prefix):
    rid = prefix + ".entry-inert"
    rep.rule(rid, "get_untrusted_types, visualize and the part of load/loads before the trust decision do nothing but "
                  "read the zip members and build the node tree: no dynamic import, attribute resolution, construct, "
                  "array decoding, extraction or file write; the zip file is opened for reading")
    runs = [Run(M, "get_untrusted_types", [], {"data": DATA}), Run(M, "get_untrusted_types", [], {"file": FILE})]
    try:
        runs.append(Run(M, "visualize", [FILE], {"trusted": TRUSTED}, mod="skops.io._visualize"))
    except AnalysisBroken:
        raise
    for r in load_runs(M):
        first = min((e.seq for e in r.events if e.kind == "nodecall" and e.x == "get_unsafe_set"), default=None)
        ra = Run.__new__(Run)
        ra.__dict__.update(r.__dict__)
        if first is None:
            # no audit at all: everything up to construct
            first = min((e.seq for e in r.events if e.kind == "construct"), default=1 << 60)
        ra.events = [e for e in r.events if e.seq < first]
        ra.func = r.func + " (before the decision)"
        runs.append(ra)
    for r in runs:
        inert_entry_events(rep, rid, M, r)


def inert_entry_events(rep, rid, M, r):
    for e, g, fn, a in r.live(scen_list):
        if not isinstance(fn, T):
            continue
        if e.kind == "construct":
            rep.bad(rid, f"{r.func}:construct", e.loc, f"{r.func} constructs {show(fn)[:80]}")
            continue
        if e.kind not in ("call", "new"):
            continue
        nm = ext_name(fn)
        from .r_audit import NP_READERS, denied
        what = f"{r.func}: {show(fn)[:60]}"
        if nm in ("builtins.open", "io.open", "pathlib.Path.open"):
            mode = a[1] if len(a) > 1 else const("r")
            if is_str(mode) and not set(cval(mode)) & set("wax+") and a and (a[0] is FILE or not reads_src(a[0])):
                rep.ok(rid, what, e.loc)
            elif is_str(mode):
                rep.bad(rid, f"{r.func}:open", e.loc, f"{r.func} opens {show(a[0])[:60] if a else ''} with mode "
                                                     f"{show(mode)}")
            else:
                rep.dunno(rid, what, e.loc, "mode not modelled")
        elif nm in ("zipfile.ZipFile",):
            kw = dict(e.kw)
            mode = a[1] if len(a) > 1 else kw.get("mode", const("r"))
            if is_str(mode) and cval(mode) == "r":
                rep.ok(rid, what, e.loc)
            elif is_str(mode):
                rep.bad(rid, f"{r.func}:zip-mode", e.loc, f"{r.func} opens the archive with mode {show(mode)}")
            else:
                rep.dunno(rid, what, e.loc, "mode not modelled")
        elif nm in ("importlib.import_module", "builtins.__import__") and a and not is_const(a[0]):
            rep.bad(rid, f"{r.func}:import", e.loc, f"{r.func} imports {show(a[0])[:80]}")
        elif denied(nm):
            rep.bad(rid, f"{r.func}:{nm}", e.loc, f"{r.func} calls {nm}")
        elif nm in NP_READERS or nm == "scipy.sparse.load_npz":
            rep.bad(rid, f"{r.func}:{nm}", e.loc, f"{r.func} decodes array data with {nm}")
        elif fn.op == "attr" and fn.a[1] in ("extract", "extractall", "writestr") and reads_src(fn):
            rep.bad(rid, f"{r.func}:.{fn.a[1]}", e.loc, f"{r.func} calls {show(fn)[:60]}")
        else:
            rep.ok(rid, what, e.loc)


def reads_src(t):
    return any(x.op == "call" and callee(x) == "zipfile.ZipFile" for x in subterms(t)) or reads_archive(t)


WHOLE = {"sorted", "list_of", "set_of", "tuple_of", "join", "str", "repr", "concat", "fmt", "tuple", "star"}
PICKS = {"builtins.next", "builtins.min", "builtins.max", "itertools.islice", "builtins.len"}


def rule_message(rep, M, prefix):
    """the exception load raises names every missing type"""
    rid = prefix + ".exception-names"
    rep.rule(rid, "the text of the exception raised for untrusted names is made from the whole set of reported names: "
                  "nothing is cut off, filtered or picked out")
    for name, args, kw in LOADERS:
        run = Run(M, name, args, {"trusted": TRUSTED})
        I = M.io.I
        rs = [e for e in run.events if e.kind == "raise" and e.x and "UntrustedTypesFoundException" in e.x]
        if not rs:
            rep.dunno(rid, name, run.loc, "the raise of UntrustedTypesFoundException was not found")
            continue
        for r in rs:
            texts = [e for e in run.events if e.kind == "call" and isinstance(e.fn, T) and e.fn.op == "attr" and
                     e.fn.a[1] == "__init__" and e.fn.a[0].op == "super" and e.fn.a[0].a[1] is r.fn]
            vals = [(I.freeze(a), e.loc) for e in texts for a in e.args if isinstance(a, T)]
            if not vals:
                vals = [(I.freeze(a), e.loc) for e in run.events if e.kind == "new" and e.res is r.fn
                        for a in e.args if isinstance(a, T)]
            what = f"{name}: the exception names all missing types"
            if not vals:
                rep.dunno(rid, what, r.loc, "arguments of the exception not found")
                continue
            good, worst, why = False, None, None
            for v, loc in vals:
                st = message_use(v)
                if st == "whole":
                    good = True
                elif st is not None:
                    worst, why = st, loc
            if good:
                rep.ok(rid, what, r.loc)
            elif worst == "?":
                rep.dunno(rid, what, why, show(vals[0][0])[:120])
            elif worst is not None:
                rep.bad(rid, f"{name}:cut", why, f"the exception raised by {name} does not name every untrusted type: "
                                                 f"{worst[:120]}")
            elif any(opaque(v) for v, _l in vals):
                rep.dunno(rid, what, r.loc, show(vals[0][0])[:120])
            else:
                rep.bad(rid, f"{name}:none", r.loc, f"the exception raised by {name} does not name the untrusted types")


def message_use(v):
    """how the reported names get into the text: "whole", the term that cuts them, "?" or None"""
    if is_unsafe_q(v) or v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] == "get_unsafe_set":
        return "whole"
    if not any(is_unsafe_q(x) or x.op == "attr" and x.a[1] == "get_unsafe_set" for x in subterms(v)):
        return None
    if v.op == "item" or v.op == "idx" or v.op == "len":
        return show(v)
    if v.op == "call":
        f = v.a[0]
        if f.op == "ext" and f.a[0] in PICKS or f.op == "attr" and f.a[1] in ("pop", "difference", "intersection"):
            return show(v)
        return "?"
    if v.op == "ite":
        rs = [message_use(v.a[1]), message_use(v.a[2])]
        cut = [r for r in rs if r not in ("whole", "?")]
        return "whole" if rs == ["whole", "whole"] else (cut[0] or show(v)) if cut else "?"
    if v.op in WHOLE:
        rs = [message_use(x) for x in v.a if isinstance(x, T)]
        for x in v.a:
            if isinstance(x, tuple):
                rs += [message_use(y) for y in x if isinstance(y, T)]
        return next((r for r in rs if r == "whole"), None) or next((r for r in rs if r is not None), "?")
    if v.op.split(":")[0] in ("list", "set", "tuple"):
        its = seq_items(v)
        if its is None:
            return "?"
        for g, x in its:
            left = [t for t, p in lits_of(g) if not (t.op == "each" and p)]
            if is_unsafe_q(x) or x.op == "elem" or x.op in ("concat", "str", "repr") and \
                    any(y.op == "elem" for y in x.a):
                if not left:
                    return "whole"
                return "?" if any(opaque(t) for t in left) else show(v)
        return "?"
    return "?"
