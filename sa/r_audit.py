"""Rules over the per-class audit model: C01, C02, C03, C11 (and parts of C13)."""
from __future__ import annotations

import re

from .audit_model import (A, LC, OBJ, OWN, P, SC, STATE, TRUSTED, U, AuditModel, child_of, common,
                          is_child_elem, scen_list, scen_none, scen_tuple, SCEN, item)
from .core import *
from .core import T


# ---------------------------------------------------------------- propositional helper
def _inconsistent(asg):
    """eq[x,'a'] and eq[x,'b'] cannot both hold; is None / isinstance clashes"""
    seen = {}
    for t, p in asg:
        if t.op in ("eq", "is") and p and len(t.a) == 2:
            for x, c in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if is_const(c):
                    if (x in seen) and seen[x] is not c:
                        return True
                    seen[x] = c
    return False


def falsifier(t, cap=14, path=()):
    """an assignment of the atoms making t false: list of (atom, pol); [] when t is FALSE outright;
    None when t is a tautology; 'cap' when not decided"""
    if t is TRUE:
        return None
    if t is FALSE:
        return list(path)
    if len(path) >= cap:
        return "cap"
    at = None
    todo = [t]
    while todo:
        x = todo.pop()
        x, _p = lit(x)
        if x is TRUE or x is FALSE:
            continue
        if x.op == "and":
            todo.extend(u for u, _q in x.a[0])
        elif x.op == "ite":
            todo.append(x.a[0])
            todo.append(x.a[1])
            todo.append(x.a[2])
        else:
            at = x
            break
    if at is None:
        return "cap"
    for val in (False, True):
        np_ = path + ((at, val),)
        if _inconsistent(np_):
            continue
        r = falsifier(assign_bool(t, lambda a: val if a is at else None), cap, np_)
        if r is not None:
            return r
    return None


def tautology(t):
    r = falsifier(t)
    return True if r is None else (None if r == "cap" else False)


# ---------------------------------------------------------------- names
def membership(v):
    """atom -> is it a membership test of the complete name v?"""
    def f(t):
        if t.op == "eq" and v in t.a:
            return True
        if t.op == "in" and t.a[0] is v:
            return True
        return False
    return f


def accepted_values(guard, v):
    """[(guard, value)] the complete name v is compared with inside guard; None if not enumerable"""
    out = []
    for t in subterms(guard):
        if not isinstance(t, T):
            continue
        if t.op == "eq" and v in t.a:
            out.append((TRUE, t.a[1] if t.a[0] is v else t.a[0]))
        elif t.op == "in" and t.a[0] is v:
            its = container_items(t.a[1])
            if its is None:
                return None
            out += its
    # an element taken from a loop carries the loop itself as its guard
    return out


def container_items(t):
    if t.op in ("sorted", "set_of", "list_of") and t.a and isinstance(t.a[0], T):
        its = seq_items(t)
        if its is not None:
            return its
        return container_items(t.a[0])
    its = seq_items(t)
    if its is not None:
        return its
    di = dict_items(t)
    if di is not None:
        return [(g, k) for g, k, _v in di]
    return None


def opaque(t):
    """does the truth of the atom depend on something the analysis did not model?"""
    for x in subterms(t):
        if x.op in ("unk", "lv", "fold", "again", "while", "exc", "rec", "unbound",
                    "carried"):
            return True
    return False


STRUCT_OPS = {"eq", "in", "is", "isinstance", "lt", "each", "issubclass", "hasattr"}
STR_TESTS = {"startswith", "endswith", "isidentifier", "isalnum", "islower", "isupper", "isalpha",
             "lower", "upper", "strip", "casefold"}


def structural(t):
    """an atom whose meaning is plain: a comparison, or a test method of a string"""
    if opaque(t):
        return False
    if t.op in STRUCT_OPS:
        return True
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in STR_TESTS:
        return True
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("re.match", "re.fullmatch", "re.search",
                                                                 "fnmatch.fnmatch", "fnmatch.fnmatchcase"):
        return True
    if t.op == "attr" and t.a[1] == "children" and t.a[0].op == "node":
        return True     # is there a child: a leaf has none, whatever it names
    if t.op == "nodeq" and t.a[0] == "is_self_safe":
        return True     # says nothing about what is beneath, or about another name
    return False


def reads_archive(t):
    return contains(t, STATE) or any(x.op in ("node", "cons") for x in subterms(t)) or contains(t, LC)


def judge(rep, rid, fals, what, where, msg, key):
    """fals: result of falsifier()"""
    if fals is None:
        rep.ok(rid, what, where)
    elif fals == "cap":
        rep.dunno(rid, what, where, "too many conditions")
    else:
        atoms = [a for a, _p in fals]
        if all(structural(a) for a in atoms):
            rep.bad(rid, key, where, msg + (" when " + show_guard(fals)[:300] if fals else ""))
        else:
            rep.dunno(rid, what, where, "depends on " + show_guard(fals)[:300])


def guard_or(pairs):
    return Or(pairs)


def own_names(M, n, scen):
    """{name term: or-ed guard}"""
    d = {}
    r = M.names(n, scen)
    if r is None:
        return None
    for g, v in r:
        d.setdefault(v, []).append(g)
    return {v: guard_or(gs) for v, gs in d.items()}


# ---------------------------------------------------------------- rules on names
def rule_own(rep, M, prefix):
    """every class reports its own (module, class) pair unless that complete name is listed"""
    rid = prefix + ".own-name"
    rep.rule(rid, "for every registered node class, get_unsafe_set contains <__module__>.<__class__> of the state "
                  "exactly when that complete name is not an element of the trusted list (proved for no list and for "
                  "a list); nothing else may switch the report off")
    for n in M.nodes:
        for scen in ("none", "list"):
            names = own_names(M, n, scen)
            what = f"{n.label} ({scen} given)"
            if names is None:
                rep.dunno(rid, what, n.loc, "get_unsafe_set is not a set the analysis can enumerate")
                continue
            if OWN not in names:
                others = [v for v in names if v is not OWN]
                rs = resolved_names(M, n, scen)
                if others and all(v is not OWN for v, _e in rs) and any(v in others for v, _e in rs):
                    rep.ok(rid, what + " reports the name it resolves instead", n.loc)
                    continue
                if opaque(n.unsafe):
                    rep.dunno(rid, what, n.loc, "get_unsafe_set not modelled")
                    continue
                rep.bad(rid, f"{n.label}:own", n.loc, f"{n.label} never reports its own type name")
                continue
            for v, g in names.items():
                if v.op != "concat" and not is_str(v):
                    rep.dunno(rid, what + ": " + show(v)[:80], n.loc, "not a type name")
                    continue
                m = membership(v)
                vs = show(v)[:120]
                # A: not listed -> reported
                t = assign_bool(g, lambda a: False if m(a) else None)
                judge(rep, rid, falsifier(t), f"{what}: {vs} reported when not listed", n.loc,
                      f"{n.label} does not report {vs}, although it is not in the trusted list",
                      f"{n.label}:{'own' if v is OWN else vs}:unreported")
                # B: listed -> not reported
                if accepted_values(g, v):
                    t = assign_bool(g, lambda a: True if m(a) else None)
                    fz = falsifier(Not(t))
                    if isinstance(fz, list) and fz and any(not reads_archive(a) for a, _ in fz):
                        fz = None       # depends on what the default list holds, not on the archive
                    judge(rep, rid, fz, f"{what}: {vs} not reported when listed", n.loc,
                          f"{n.label} still reports {vs} although it is listed", f"{n.label}:{vs}:overreported")


def rule_children(rep, M, prefix):
    rid = prefix + ".children"
    rep.rule(rid, "every child node created while the tree is built is searched by get_unsafe_set, under no other "
                  "condition than the one under which it was created; every node that construct() builds is one of them")
    for n in M.nodes:
        for scen in ("none", "list"):
            ch = M.child_reports(n, scen)
            if ch is None:
                rep.dunno(rid, n.label, n.loc, "not enumerable")
                continue
            made = [x for x in M.events(n.init_events, scen) if x[0].kind == "get_tree"]
            for e, g, fn, a, k, res in made:
                what = f"{n.label} child {show(res)[:80]} ({scen} given)"
                gs = [cg for cg, node in ch if node is res]
                if not gs:
                    # maybe the child was replaced by / wrapped in something unknown
                    if opaque(assign(n.unsafe, SCEN[scen])) or opaque(n.children or TRUE):
                        rep.dunno(rid, what, e.loc, "children not modelled")
                    elif rep_uncond_error(M, n, g):
                        rep.ok(rid, what, e.loc)
                    else:
                        rep.bad(rid, f"{n.label}:{show(res.a[0])[:60]}", e.loc,
                                f"{n.label}: the node built from {show(res.a[0])[:80]} is not among the children "
                                "that get_unsafe_set searches")
                    continue
                def f(x, res=res):
                    if x.op == "each":
                        return True
                    # only when the child has something to report is there something to miss
                    if x.op == "nodeq" and len(x.a) > 1 and x.a[1] is res:
                        return {"is_safe": False, "get_unsafe_set": True}.get(x.a[0])
                    return None
                # created -> searched
                t = Not(And([(assign_bool(g, f), True), (assign_bool(guard_or(gs), f), False)]))
                judge(rep, rid, falsifier(t), what, e.loc,
                      f"{n.label}: the child built from {show(res.a[0])[:80]} is skipped by get_unsafe_set",
                      f"{n.label}:{show(res.a[0])[:60]}:skipped")
            nodes = [node for _g, node in ch]
            for e, g, fn, a, k, res in M.events(n.construct_events, scen):
                if e.kind != "construct" or fn.op != "node":
                    continue
                what = f"{n.label} constructs {show(fn)[:80]}"
                if fn in nodes:
                    rep.ok(rid, what, e.loc)
                elif contains(fn, mk("attr", LC, "memo")) or opaque(fn):
                    rep.dunno(rid, what, e.loc, "node taken from the memo")
                else:
                    rep.bad(rid, f"{n.label}:{show(fn.a[0])[:60]}:constructed", e.loc,
                            f"{n.label}.construct builds {show(fn.a[0])[:80]} which get_unsafe_set never looked at")


    rule_depth(rep, M, prefix)


def rule_depth(rep, M, prefix):
    """when the search hands a number down (a depth), no value of it may end the search"""
    rid = prefix + ".children"
    for n in M.nodes:
        t = getattr(n, "unsafe_any", None)
        if t is None:
            continue
        for scen in ("none", "list"):
            base = {v for v in own_names(M, n, scen) or {}}
            names = {}
            for g, v in seq_items(assign(t, SCEN[scen])) or []:
                names.setdefault(v, []).append(g)
            what = f"{n.label} searched at any depth ({scen} given)"
            bad = False
            for v in base:
                if v not in names:
                    continue
                m = membership(v)
                fz = falsifier(assign_bool(guard_or(names[v]), lambda a: False if m(a) else None))
                lim = [a for a, _p in fz if a.op == "lt" and any(is_const(x) for x in a.a) and any(
                    x.op == "sym" and x.a[0] in M.extra_syms for x in subterms(a))] if isinstance(fz, list) else []
                if lim and len(lim) == len(fz):
                    bad = True
                    rep.bad(rid, f"{n.label}:depth", n.loc, f"{n.label} does not report {show(v)[:80]} when {show_guard(fz)[:120]}: "
                                                            "that argument is handed down by the search itself")
            if not bad:
                rep.ok(rid, what, n.loc)


def rep_uncond_error(M, n, g):
    return False


def rule_idempotent(rep, M, prefix):
    rid = prefix + ".idempotent"
    rep.rule(rid, "get_unsafe_set and construct leave the audited attributes of a node as they were: a second audit "
                  "of the same node reports the same set (a node reached twice, or audited before and after)")
    for n in M.nodes:
        for scen in ("none", "list"):
            a, b = (M.reported(n, scen), M.reported(n, scen, True))
            if a is None or b is None:
                rep.dunno(rid, n.label, n.loc, "not enumerable")
                continue
            A1 = {v: guard_or([g for g, w in a if w is v]) for _g, v in a}
            B1 = {v: guard_or([g for g, w in b if w is v]) for _g, v in b}
            miss = [v for v in A1 if v not in B1]
            if miss and not any(opaque(g) for g in B1.values()) and not opaque(n.unsafe2):
                rep.bad(rid, n.label, n.loc, f"{n.label}: a second get_unsafe_set no longer reports "
                                             f"{show(miss[0])[:120]}")
            elif miss:
                rep.dunno(rid, n.label, n.loc, "second audit not modelled")
            else:
                bad = None
                for v in A1:
                    if is_child_elem(v):
                        ga = assign_bool(A1[v], lambda t: True if t.op == "each" else None)
                        gb = assign_bool(B1[v], lambda t: True if t.op == "each" else None)
                        if ga is TRUE and gb is not TRUE:
                            fz = falsifier(gb)
                            if isinstance(fz, list) and all(structural(x) for x, _ in fz):
                                bad = (v, fz)
                    else:
                        m = membership(v)
                        ga = assign_bool(A1[v], lambda t: False if m(t) else None)
                        gb = assign_bool(B1[v], lambda t: False if m(t) else None)
                        if tautology(ga) is True:
                            fz = falsifier(gb)
                            if isinstance(fz, list) and all(structural(x) for x, _ in fz):
                                bad = (v, fz)
                if bad:
                    rep.bad(rid, n.label, n.loc, f"{n.label}: a second get_unsafe_set omits {show(bad[0])[:100]}")
                else:
                    rep.ok(rid, f"{n.label} ({scen} given)", n.loc)


# ---------------------------------------------------------------- trusted list
def caller_entries(rep, rid, M, n, user, kind):
    """does every string of the caller's list (or tuple) end up, as it is, in the list the node compares with"""
    e = mk("elem", TRUSTED)
    what = f"{n.label} honours the caller's {kind}"
    merged = {}
    for g, v in user:
        merged.setdefault(v, []).append(g)
    ok, bad, why = False, None, None
    for v, gs in merged.items():
        if v is mk("star", TRUSTED):
            ok = ok or any(falsifier(g) is None for g in gs)
            continue

        def plain(t):
            # the entry is a string, and there is one
            if t.op == "each" and (t.a[0] is TRUSTED or part_of(t.a[0], TRUSTED)):
                return True
            if t.op in ("isinstance", "issubclass") and t.a[1].op == "ext" and t.a[0].op == "elem" and \
                    (t.a[0] is e or part_of(t.a[0].a[0], TRUSTED)):
                return t.a[1].a[0] in ("builtins.str", "builtins.object")
            if t.op in ("is", "eq") and any(x.op == "typeof" and x.a[0] is e for x in t.a):
                return any(x.op == "ext" and x.a[0] == "builtins.str" for x in t.a)
            return None
        fz = falsifier(assign_bool(guard_or(gs), plain))
        sv = assign(v, plain)
        if fz is None and sv is e:
            ok = True
        elif sv is e and isinstance(fz, list) and not any(opaque(t) for t, _p in fz):
            why = why or f"an entry of the caller's {kind} is left out when {show_guard([(t, p) for t, p in fz])[:120]}"
        elif sv.op == "elem" and part_of(sv.a[0], TRUSTED) and not opaque(sv):
            why = why or f"only {show(sv.a[0])[:60]} of the caller's {kind} is used"
        elif fz is None and sv.op != "ite" and not opaque(sv) and contains(sv, e):
            bad = f"a string entry of the caller's {kind} is turned into {show(sv)[:80]}"
    def typ(t):
        # the entry is a class, and there is one
        if t.op == "each" and (t.a[0] is TRUSTED or part_of(t.a[0], TRUSTED)):
            return True
        if t.op in ("isinstance", "issubclass") and t.a[0] is e and t.a[1].op == "ext":
            return t.a[1].a[0] in ("builtins.type", "builtins.object")
        return None
    qn, nm = mk("attr", e, "__qualname__"), mk("attr", e, "__name__")
    for v, gs in merged.items():
        sv = assign(v, typ)
        if falsifier(assign_bool(guard_or(gs), typ)) is None and contains(sv, qn) and not contains(sv, nm) and \
                not archives_qualname(M):
            bad = f"a class in the caller's {kind} is turned into {show(sv)[:80]}; archives name it by its __name__"
    if bad:
        rep.bad(rid, f"{n.label}:entry:{kind}", n.loc, f"{n.label}: {bad}")
    elif ok:
        rep.ok(rid, what, n.loc)
    elif why:
        rep.bad(rid, f"{n.label}:entries:{kind}", n.loc, f"{n.label}: {why}")
    else:
        rep.dunno(rid, what, n.loc, "caller entries: " + "; ".join(show(v)[:80] for _g, v in user))


def archives_qualname(M):
    """does any writer of the package use __qualname__?"""
    from .r_data import get_trips
    return any(x.op == "attr" and x.a[1] == "__qualname__" for t in get_trips(M) if isinstance(t.state, T)
               for x in subterms(M.I.freeze(t.state)))


def part_of(t, whole):
    """a proper part of a sequence: x[1:], x[:2], .."""
    if t.op == "item" and t.a[1].op == "slice" and t.a[1].a != (NONE, NONE, NONE):
        return t.a[0] is whole or part_of(t.a[0], whole)
    return t.op == "call" and callee(t) == "itertools.islice" and bool(t.a[1]) and t.a[1][0] is whole


def rule_trusted_list(rep, M, prefix):
    rid = prefix + ".trusted-list"
    rep.rule(rid, "with a list given, a node trusts exactly the given entries (strings as they are, types by their "
                  "module and name) plus the defaults it trusts without a list; names reported and children searched "
                  "are otherwise the same")
    for n in M.nodes:
        a, b = M.trusted_items(n, "none"), M.trusted_items(n, "list")
        if a is None or b is None:
            rep.dunno(rid, n.label, n.loc, "trusted attribute is not a list the analysis can enumerate")
            continue
        user, rest = [], []
        for g, v in b:
            if g is FALSE:
                continue
            if contains(g, TRUSTED) and not contains(v, TRUSTED):
                # a default that is only left out when the caller's list has it already
                m = membership(v)
                g2 = assign_bool(g, lambda a: False if m(a) else None)
                if not contains(g2, TRUSTED):
                    g = g2
            (user if contains(v, TRUSTED) or contains(g, TRUSTED) else rest).append((g, v))
        names = own_names(M, n, "list") or {}
        if not user:
            if any(opaque(v) or opaque(g) for g, v in b) or not M_uses_trusted_unknown(n):
                rep.dunno(rid, n.label, n.loc, "cannot see where the caller's list goes")
            else:
                rep.bad(rid, n.label + ":caller", n.loc, f"{n.label} ignores the trusted list given by the caller")
        else:
            caller_entries(rep, rid, M, n, user, "list")
        # a tuple is as good as a list
        c = M.trusted_items(n, scen_tuple)
        if c is None:
            rep.dunno(rid, n.label, n.loc, "trusted attribute not enumerated for a tuple")
        else:
            tuser = [(g, v) for g, v in c if g is not FALSE and (contains(v, TRUSTED) or contains(g, TRUSTED))]
            if tuser:
                caller_entries(rep, rid, M, n, tuser, "tuple")
            elif not any(opaque(v) or opaque(g) for g, v in c):
                rep.bad(rid, n.label + ":caller-tuple", n.loc, f"{n.label} ignores names given as a tuple")
            else:
                rep.dunno(rid, n.label, n.loc, "cannot see where the caller's tuple goes")
        sa = {(v) for g, v in a if g is not FALSE}
        sb = {(v) for g, v in rest}
        if sa == sb:
            rep.ok(rid, n.label + " keeps its defaults when a list is given", n.loc)
        else:
            lost, extra = sa - sb, sb - sa
            if any(opaque(x) for x in lost | extra):
                rep.dunno(rid, n.label, n.loc, "defaults differ in unmodelled entries")
            else:
                rep.bad(rid, n.label + ":defaults", n.loc,
                        f"{n.label}: the default trusted names change when the caller gives a list "
                        f"(lost {[show(x)[:60] for x in sorted(lost, key=lambda t: t.n)][:4]}, "
                        f"gained {[show(x)[:60] for x in sorted(extra, key=lambda t: t.n)][:4]})")
        # same reports in both scenarios
        na, nb = own_names(M, n, "none"), own_names(M, n, "list")
        if na is not None and nb is not None:
            miss = set(nb) - set(na)
            if miss and not any(opaque(x) for x in miss):
                rep.bad(rid, n.label + ":names", n.loc, f"{n.label} reports {show(list(miss)[0])[:100]} only when a "
                                                        "list is given")
            elif set(na) - set(nb) and not any(opaque(x) for x in set(na) - set(nb)):
                rep.bad(rid, n.label + ":names", n.loc, f"{n.label} stops reporting "
                        f"{show(list(set(na) - set(nb))[0])[:100]} when a list is given")
            else:
                rep.ok(rid, n.label + " reports the same names with and without a list", n.loc)
        # children
        for e_, g, fn, aa, k, res in M.events(n.init_events, "list"):
            if e_.kind != "get_tree":
                continue
            tr = aa[2] if len(aa) > 2 else None
            what = f"{n.label} passes the caller's list to {show(aa[0])[:60]}"
            if tr is None or opaque(tr):
                rep.dunno(rid, what, e_.loc, "argument not modelled")
            elif contains(tr, TRUSTED):
                rep.ok(rid, what, e_.loc)
            elif tr.op == "ite":
                rep.dunno(rid, what, e_.loc, "conditional")
            else:
                rep.bad(rid, f"{n.label}:{show(aa[0])[:50]}:child-trust", e_.loc,
                        f"{n.label}: the child {show(aa[0])[:60]} is built with trusted={show(tr)[:60]} instead of "
                        "the caller's list")


def M_uses_trusted_unknown(n):
    return True


def strip_nodes(t):
    """replace node[...] subterms by their state so that their trust argument is ignored"""
    return assign_terms(t)


def assign_terms(t, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(assign_terms(x, memo) for x in t)
    if not isinstance(t, T) or not t.a or t.op == "const":
        return t
    if t in memo:
        return memo[t]
    if t.op == "node":
        r = mk("node", assign_terms(t.a[0], memo), NONE)
    else:
        na = tuple(assign_terms(x, memo) for x in t.a)
        r = t if all(p is q for p, q in zip(na, t.a)) else mk(t.op, *na)
    memo[t] = r
    return r


def rule_monotone(rep, M, prefix):
    rid = prefix + ".result-independent-of-trust"
    rep.rule(rid, "the value a node constructs does not depend on the trusted list")
    for n in M.nodes:
        v = assign_terms(n.value)
        evs = [e for e in n.construct_events if e.kind in ("call", "new", "construct")]
        if contains(v, TRUSTED):
            if opaque(v):
                rep.dunno(rid, n.label, n.loc, "value not modelled")
            else:
                rep.bad(rid, n.label, n.loc, f"{n.label}: the constructed value depends on the trusted list")
        else:
            rep.ok(rid, n.label, n.loc)


# ---------------------------------------------------------------- sinks
DENY_EXACT = {
    "builtins.eval", "builtins.exec", "builtins.compile", "builtins.open", "builtins.input", "builtins.breakpoint",
    "builtins.globals", "builtins.locals", "io.open", "io.FileIO", "io.open_code", "codecs.open", "linecache.getline",
    "numpy.fromfile", "numpy.memmap", "numpy.loadtxt", "numpy.genfromtxt", "numpy.fromregex", "numpy.save",
    "numpy.savez", "numpy.savez_compressed", "numpy.savetxt", "numpy.lib.format.open_memmap",
    "importlib.reload", "importlib.invalidate_caches", "zipimport.zipimporter", "sys.exit", "sys.settrace",
    "sys.setprofile", "types.FunctionType", "types.CodeType", "types.MethodType_", "builtins.__build_class__",
    "yaml.load", "yaml.unsafe_load", "numpy.random.seed", "numpy.random.set_state", "numpy.seterr",
    "random.seed", "os.chdir", "os.umask", "os.system", "faulthandler.enable", "gc.disable",
    "numpy.f2py.compile", "scipy.io.loadmat", "scipy.io.mmread", "pandas.read_pickle", "numpy.lib.npyio.NpzFile",
}
DENY_PREFIX = ("os.", "posix.", "subprocess.", "socket.", "shutil.", "tempfile.", "pickle.", "_pickle.", "dill.",
               "joblib.", "cloudpickle.", "marshal.", "shelve.", "ctypes.", "runpy.", "pty.", "code.", "codeop.",
               "urllib.", "requests.", "http.", "ftplib.", "webbrowser.", "multiprocessing.", "signal.", "atexit.",
               "importlib.util.", "importlib.machinery.", "asyncio.", "concurrent.", "mmap.", "fcntl.", "resource.",
               "site.", "ensurepip.", "pip.", "distutils.", "setuptools.", "sqlite3.", "dbm.", "pathlib.",
               "torch.", "tarfile.")
ALLOW_EXACT = {"os.fspath", "os.PathLike", "os.linesep", "os.sep"}
ALLOW_PREFIX = ("os.path.",)
DENY_METHODS = {"extract", "extractall", "tofile", "write_text", "write_bytes", "read_text", "unlink", "rmdir",
                "mkdir", "touch", "rename", "load_module", "exec_module", "savez", "dump", "writestr", "write"}
RESOLVERS = {"pydoc.locate", "pkgutil.resolve_name", "importlib.import_module", "builtins.__import__",
             "importlib.__import__", "pydoc.safeimport", "numpy.core._internal", "sys.modules",
             "operator.attrgetter", "django.utils.module_loading.import_string"}


def denied(name):
    if name is None:
        return False
    if name in ALLOW_EXACT or name.startswith(ALLOW_PREFIX):
        return False
    return name in DENY_EXACT or name.startswith(DENY_PREFIX)


def resolutions(M, evs, scen):
    """ways in which code obtains a module / attribute by name.
    -> [(kind, full name term | None, base term, name term, event, guard)]"""
    out = []
    for e, g, fn, a, k, res in M.events(evs, scen):
        if e.kind not in ("call", "import", "new"):
            continue
        nm = ext_name(fn) if isinstance(fn, T) else None
        kwd = dict(k)
        if nm == "importlib.import_module":
            mod = a[0] if a else kwd.get("name")
            out.append(("import", mod, None, mod, e, g))
        elif nm in ("builtins.__import__", "importlib.__import__"):
            mod = a[0] if a else kwd.get("name")
            out.append(("import", mod, None, mod, e, g))
        elif nm in ("pydoc.locate", "pkgutil.resolve_name", "pydoc.safeimport"):
            out.append(("locate", a[0] if a else None, None, a[0] if a else None, e, g))
        elif nm == "builtins.getattr" and len(a) >= 2 and not is_const(a[1]):
            base = a[0]
            if is_module_lookup(base):
                out.append(("resolve", concat([module_of_lookup(base), const("."), a[1]]), base, a[1], e, g))
            elif base.op == "ext":
                # a fixed module or class: what is resolved is one of its members
                out.append(("resolve", concat([const(base.a[0] + "."), a[1]]), None, a[1], e, g))
            else:
                out.append(("getattr", None, base, a[1], e, g))
        elif nm == "builtins.getattr" and len(a) >= 2 and is_module_lookup(a[0]):
            out.append(("resolve", concat([module_of_lookup(a[0]), const("."), a[1]]), a[0], a[1], e, g))
        elif nm in ("builtins.vars", "builtins.globals"):
            pass
        elif nm in ("operator.attrgetter", "operator.methodcaller") and a and reads_archive(a[0]):
            out.append(("getattr", None, None, a[0], e, g))
    return out


def is_module_lookup(t):
    if t.op == "call":
        n = callee(t)
        if n in ("importlib.import_module", "builtins.__import__", "importlib.__import__"):
            return True
    if t.op == "item" and t.a[0].op == "ext" and t.a[0].a[0] == "sys.modules":
        return True
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[0].op == "ext" and t.a[0].a[0].a[0] == "sys.modules":
        return True
    return False


def module_of_lookup(t):
    if t.op == "item":
        return t.a[1]
    if t.op == "call":
        args = t.a[1]
        kw = dict(t.a[2]) if len(t.a) > 2 and isinstance(t.a[2], tuple) else {}
        if args:
            return args[0]
        return kw.get("name", mk("unk", "module"))
    return mk("unk", "module")


def dict_lookups(M, evs, scen):
    """X.__dict__[name], vars(X)[name], sys.modules[name], globals()[name] reached in any event argument"""
    out = []
    seen = set()
    for e, g, fn, a, k, res in M.events(evs, scen):
        terms = [x for x in (fn, res) if isinstance(x, T)] + list(a) + [v for _k, v in k]
        for t in terms:
            for x in subterms(t):
                if x.op != "item" or x in seen or not isinstance(x.a[1], T):
                    continue
                b = x.a[0]
                ns = ((b.op == "attr" and b.a[1] == "__dict__")
                      or (b.op == "call" and callee(b) in ("builtins.vars", "builtins.globals", "builtins.locals"))
                      or (b.op == "ext" and b.a[0] in ("sys.modules", "builtins.__dict__")))
                if ns and reads_archive(x.a[1]):
                    seen.add(x)
                    out.append((x, e, g))
    return out


def resolved_names(M, n, scen):
    return [(r[1], r[4]) for r in resolutions(M, n.construct_events, scen) if r[0] == "resolve"]


def allow_listed(name, g, gathered):
    """is `name` compared with a fixed list on the way here?"""
    for t, p in lits_of(g):
        if t.op in ("eq", "in") and p and name in t.a[:1] + t.a[1:2]:
            other = t.a[1] if t.a[0] is name else t.a[0]
            if not reads_archive(other):
                return True
    return False


def rule_sinks(rep, M, prefix):
    rid = prefix + ".resolution"
    rep.rule(rid, "every module, class, function or attribute that construct() resolves from names in the archive is "
                  "resolved under exactly a name that get_unsafe_set reported for the same node; nothing resolves "
                  "names in any other way")
    rid2 = prefix + ".sinks"
    rep.rule(rid2, "no code evaluation, file system, process, network or unpickling primitive is called while a tree "
                   "is built, audited or constructed; numpy readers get allow_pickle=False")
    for n in M.nodes:
        for phase, evs in (("construct", n.construct_events), ("__init__", n.init_events),
                           ("get_unsafe_set", n.unsafe_events)):
            for scen in ("none", "list"):
                names = own_names(M, n, scen) or {}
                reslist = resolutions(M, evs, scen)
                for kind, full, base, nm, e, g in reslist:
                    what = f"{n.label}.{phase}: {kind} {show(full if full is not None else nm)[:100]}"
                    if kind == "import":
                        if nm is None or opaque(nm):
                            rep.dunno(rid, what, e.loc, "module name not modelled")
                        elif not reads_archive(nm):
                            if is_str(nm) and denied(cval(nm) + "."):
                                rep.bad(rid, f"{n.label}:{cval(nm)}", e.loc, f"{n.label} imports {cval(nm)}")
                            else:
                                rep.ok(rid, what + " (fixed)", e.loc)
                        elif any(starts_with(v, nm) for v in names):
                            rep.ok(rid, what, e.loc)
                        else:
                            rep.bad(rid, f"{n.label}:{phase}:import:{show(nm)[:50]}", e.loc,
                                    f"{n.label}.{phase} imports module {show(nm)[:80]}, which is not the module of "
                                    "any name get_unsafe_set reports for this node")
                    elif kind == "resolve":
                        if full in names:
                            rep.ok(rid, what, e.loc)
                        elif opaque(full):
                            rep.dunno(rid, what, e.loc, "name not modelled")
                        elif not reads_archive(full):
                            rep.ok(rid, what + " (fixed)", e.loc)
                        elif (base is None or not reads_archive(module_of_lookup(base))) and \
                                allow_listed(nm, g, None):
                            rep.ok(rid, what + " (fixed list)", e.loc)
                        else:
                            rep.bad(rid, f"{n.label}:{phase}:{show(full)[:60]}", e.loc,
                                    f"{n.label}.{phase} resolves {show(full)[:120]}, a name get_unsafe_set does not "
                                    f"report (reported: {[show(v)[:80] for v in names]})")
                    elif kind == "locate":
                        if nm in names:
                            rep.ok(rid, what, e.loc)
                        elif nm is None or opaque(nm):
                            rep.dunno(rid, what, e.loc, "")
                        elif reads_archive(nm):
                            rep.bad(rid, f"{n.label}:{phase}:locate", e.loc,
                                    f"{n.label}.{phase} locates {show(nm)[:100]}, a name get_unsafe_set does not report")
                    elif kind == "getattr":
                        if opaque(nm):
                            rep.dunno(rid, what, e.loc, "attribute name not modelled")
                        elif not reads_archive(nm):
                            rep.ok(rid, what + " (fixed)", e.loc)
                        elif any(ends_with(v, nm) for v in names):
                            rep.ok(rid, what, e.loc)
                        elif allow_listed(nm, g, None):
                            rep.ok(rid, what + " (fixed list)", e.loc)
                        else:
                            rep.bad(rid, f"{n.label}:{phase}:getattr:{show(nm)[:50]}", e.loc,
                                    f"{n.label}.{phase} takes attribute {show(nm)[:80]} of "
                                    f"{show(base)[:80] if base is not None else '?'}: the attribute name comes from the "
                                    "archive and no reported name covers it")
                for x, e, g in dict_lookups(M, evs, scen):
                    base, nm = x.a
                    ok = False
                    if base.op == "ext" and base.a[0] == "sys.modules":
                        ok = any(starts_with(v, nm) for v in names)
                    elif base.op == "attr" and is_module_lookup(base.a[0]):
                        ok = concat([module_of_lookup(base.a[0]), const("."), nm]) in names
                    elif base.op == "call" and base.a[1] and is_module_lookup(base.a[1][0]):
                        ok = concat([module_of_lookup(base.a[1][0]), const("."), nm]) in names
                    if ok:
                        rep.ok(rid, f"{n.label}.{phase}: {show(x)[:80]}", e.loc)
                    elif opaque(x):
                        rep.dunno(rid, f"{n.label}.{phase}: {show(x)[:80]}", e.loc)
                    else:
                        rep.bad(rid, f"{n.label}:{phase}:dict:{show(nm)[:50]}", e.loc,
                                f"{n.label}.{phase} looks up {show(nm)[:80]} in a namespace; no reported name covers it")
                # sinks
                for e, g, fn, a, k, res in M.events(evs, scen):
                    if e.kind == "import":
                        continue
                    if e.kind not in ("call", "new") or not isinstance(fn, T):
                        continue
                    sink_call(rep, rid2, n.label, phase, e, fn, a, dict(k))


NP_READERS = {"numpy.load", "numpy.lib.npyio.load", "numpy.lib.format.read_array", "numpy.lib.npyio.NpzFile"}


FILE_READERS = NP_READERS | {"scipy.sparse.load_npz", "numpy.fromfile", "numpy.genfromtxt", "numpy.loadtxt", "numpy.memmap"}


def alternatives(t):
    return alternatives(t.a[1]) + alternatives(t.a[2]) if t.op == "ite" else [t]


def sink_call(rep, rid2, label, phase, e, fn, a, kw):
    nm = ext_name(fn)
    if nm in FILE_READERS and a:
        for x in alternatives(a[0]):
            y = x
            while y.op == "item":
                y = y.a[0]
            if y is STATE or x.op == "call" and callee(x) in ("builtins.str", "pathlib.Path") and contains(x, STATE):
                rep.bad(rid2, f"{label}:{phase}:{nm}:path", e.loc, f"{label}.{phase}: {nm} may open the file {show(x)[:60]}, a "
                                                                   "name from the archive")
    if nm in NP_READERS:
        ap = kw.get("allow_pickle")
        pos = {"numpy.load": 2, "numpy.lib.npyio.load": 2, "numpy.lib.format.read_array": 1}.get(nm, 9)
        if ap is None and len(a) > pos:
            ap = a[pos]
        if ap is None or ap is FALSE:
            rep.ok(rid2, f"{label}.{phase}: {nm} without pickle", e.loc)
        elif opaque(ap):
            rep.dunno(rid2, f"{label}.{phase}: {nm}", e.loc, "allow_pickle not modelled")
        else:
            rep.bad(rid2, f"{label}:{phase}:{nm}:allow_pickle", e.loc,
                    f"{label}.{phase}: {nm} is called with allow_pickle={show(ap)[:60]}")
        return
    if denied(nm):
        rep.bad(rid2, f"{label}:{phase}:{nm}", e.loc, f"{label}.{phase} calls {nm}")
        return
    if fn.op == "attr" and fn.a[1] in DENY_METHODS:
        base = fn.a[0]
        root = base
        while root.op in ("attr", "item", "call", "elem"):
            root = root.a[0]
            if not isinstance(root, T):
                break
        if base is mk("attr", LC, "src") or (isinstance(root, T) and root is LC and fn.a[1] in
                                             ("extract", "extractall", "writestr", "write")):
            rep.bad(rid2, f"{label}:{phase}:.{fn.a[1]}", e.loc, f"{label}.{phase} calls {show(fn)[:80]}")
            return
        if fn.a[1] in ("tofile", "dump", "write_text", "write_bytes", "read_text", "extractall", "exec_module") \
                and reads_archive(base):
            rep.bad(rid2, f"{label}:{phase}:.{fn.a[1]}", e.loc, f"{label}.{phase} calls {show(fn)[:80]}")
            return
    rep.ok(rid2, f"{label}.{phase}: call of {show(fn)[:60]}", e.loc)


def starts_with(v, m):
    if v.op != "concat":
        return v is m
    p = concat([m, const(".")])
    parts = v.a[0] if isinstance(v.a[0], tuple) else v.a
    pp = p.a[0] if p.op == "concat" and isinstance(p.a[0], tuple) else (p.a if p.op == "concat" else (p,))
    if len(pp) > len(parts):
        return False
    for x, y in zip(pp[:-1], parts):
        if x is not y:
            return False
    x, y = pp[-1], parts[len(pp) - 1]
    return x is y or (is_str(x) and is_str(y) and cval(y).startswith(cval(x)))


def ends_with(v, nm):
    if v.op != "concat":
        return v is nm
    parts = v.a[0] if isinstance(v.a[0], tuple) else v.a
    return parts[-1] is nm and is_str(parts[-2]) and cval(parts[-2]).endswith(".")


# ---------------------------------------------------------------- families
BUILTIN_FAMILY = {"int", "float", "str", "bool", "complex", "list", "set", "tuple", "dict", "map", "frozenset",
                  "bytes", "bytearray", "slice", "range", "type", "NoneType", "object_"}
SPARSE = {"spmatrix", "sparray"} | {f"{f}_{k}" for f in ("csr", "csc", "coo", "bsr", "dia", "dok", "lil")
                                   for k in ("matrix", "array")}
NUMPY_CLASSES = {"numpy.ndarray", "numpy.ma.MaskedArray", "numpy.ma.core.MaskedArray", "numpy.dtype",
                 "numpy.random.RandomState", "numpy.random.mtrand.RandomState",
                 "numpy.random.Generator", "numpy.random._generator.Generator", "numpy.matrix"}
NUMPY_SCALARS = re.compile(r"numpy\.(bool_?|u?int(8|16|32|64|c|p|_)?|u?long(long)?|u?short|u?byte|uintc|uintp|"
                           r"float(16|32|64|128|_)?|half|single|double|longdouble|complex(64|128|256|_)?|csingle|"
                           r"cdouble|clongdouble|str_|bytes_|void|datetime64|timedelta64|generic|number|integer|"
                           r"signedinteger|unsignedinteger|inexact|floating|complexfloating|flexible|character)$")
BITGEN = {"MT19937", "PCG64", "PCG64DXSM", "Philox", "SFC64", "SeedSequence", "BitGenerator"}
OTHER = {"collections.OrderedDict", "collections.defaultdict", "builtins.NoneType"}
SKLEARN_INTERNAL = re.compile(r"sklearn\.(\w+\.)*_?[A-Za-z]*\.?[A-Z]\w*$")


def family(name):
    """True: documented family, False: certainly not, None: unknown"""
    if name in OTHER or name in NUMPY_CLASSES or NUMPY_SCALARS.match(name):
        return True
    if name.startswith("builtins."):
        return name.split(".", 1)[1] in BUILTIN_FAMILY
    if name.startswith("numpy.random."):
        return name.rsplit(".", 1)[1] in BITGEN
    if name.startswith("numpy."):
        last = name.rsplit(".", 1)[1]
        return None if last in NUMPY_UFUNCS_COMMON else False
    if name.startswith("scipy.sparse."):
        return name.rsplit(".", 1)[1] in SPARSE
    if name.startswith("scipy.special."):
        return None
    if name.startswith("sklearn."):
        last = name.rsplit(".", 1)[1]
        return bool(re.match(r"_?Cy[A-Z]|[A-Z]", last)) or None if re.match(r"_?[A-Z]", last) else False
    if name.startswith("skops."):
        return True if name.endswith("._DictWithDeprecatedKeys") else None
    return False


NUMPY_UFUNCS_COMMON = {
    "absolute", "add", "arccos", "arccosh", "arcsin", "arcsinh", "arctan", "arctan2", "arctanh", "cbrt", "ceil",
    "conjugate", "cos", "cosh", "deg2rad", "degrees", "divide", "divmod", "equal", "exp", "exp2", "expm1", "fabs",
    "floor", "fmax", "fmin", "fmod", "isfinite", "isinf", "isnan", "log", "log10", "log1p", "log2", "logaddexp",
    "maximum", "minimum", "multiply", "negative", "power", "rad2deg", "radians", "reciprocal", "remainder", "rint",
    "sign", "sin", "sinh", "sqrt", "square", "subtract", "tan", "tanh", "true_divide", "trunc"}


def ext_of_name(v):
    """modof[ext X].'.'.X.__name__  ->  'X' dotted"""
    if v.op == "concat":
        parts = v.a[0] if isinstance(v.a[0], tuple) else v.a
        if parts and parts[0].op == "modof" and parts[0].a[0].op == "ext":
            x = parts[0].a[0].a[0]
            rest = parts[1:]
            if len(rest) == 2 and is_str(rest[0]) and cval(rest[0]) == "." and rest[1].op == "attr" \
                    and rest[1].a[0] is parts[0].a[0] and rest[1].a[1] in ("__name__", "__qualname__"):
                return x
            if len(rest) == 1 and is_str(rest[0]):
                return x.rsplit(".", 1)[0] + cval(rest[0])
    if v.op == "const" and is_str(v):
        return cval(v)
    return None


def crawl_sources(t):
    """external containers a looped value is drawn from, with the filters on the way"""
    src, filt = [], []
    for x in subterms(t):
        if x.op == "call" and x.a[0].op == "ext":
            nm = x.a[0].a[0]
            if nm.rsplit(".", 1)[-1] in ("values", "keys", "items") and "." in nm:
                src.append((nm, x))
            if nm in ("builtins.dir", "builtins.vars", "inspect.getmembers") or nm.endswith("all_estimators"):
                src.append((nm, x))
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[0].op == "ext":
            src.append((x.a[0].a[0].a[0] + "." + x.a[0].a[1], x))
        if x.op in ("elem", "each") and x.a[0].op == "ext":
            src.append((x.a[0].a[0], x))
        if x.op in ("issubclass", "isinstance"):
            filt.append(x)
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "startswith":
            filt.append(x)
        if x.op in ("is", "eq") and any(y.op == "ext" and y.a[0] == "numpy.ufunc" for y in x.a):
            filt.append(x)
    return src, filt


NARROW = {"numpy.ufunc", "numpy.generic", "numpy.number", "numpy.dtype"}


def narrow_filter(f):
    """the filter only lets ufuncs, scalar types and dtypes through"""
    if f.op in ("is", "eq"):
        return any(y.op == "ext" and y.a[0] in NARROW for y in f.a)
    return all(y.op == "ext" and y.a[0] in NARROW for y in flat_types(f.a[1]))


def flat_types(t):
    if t.op == "tuple":
        return [z for y in (t.a[0] if isinstance(t.a[0], tuple) else t.a) for z in flat_types(y)]
    return [t]


def subst_atoms(t, atoms, value):
    return assign_bool(t, lambda x: (value is TRUE) if x in atoms else None)


def positive(g, atom):
    for t, p in lits_of(g):
        if t is atom:
            return p
        if t.op == "and" and p:
            for u, q in t.a[0]:
                if u is atom:
                    return q
    return None


def classify_value(g, v):
    """-> (True/False/None, text) for a value a complete name may equal by default"""
    if contains(v, TRUSTED):
        return True, "given by the caller"
    if is_const(v) and not is_str(v):
        return True, "not a name"
    if is_str(v):
        f = family(cval(v))
        return f, cval(v)
    x = ext_of_name(v)
    if x is not None:
        f = family(x)
        return f, x
    if reads_archive(v):
        return False, f"a name taken from the archive itself ({show(v)[:80]})"
    src, filt = crawl_sources(mk("tuple", g, v))
    if opaque(v) or opaque(g):
        return None, show(v)[:80]
    if src:
        names = {s for s, _ in src}
        if all(s.endswith("all_estimators") for s in names):
            return True, "an estimator of all_estimators()"
        if all("sctypeDict" in s or "sctypes" in s for s in names):
            return True, "a scalar type of numpy.sctypeDict"
        dirs = [x for s, x in src if s in ("builtins.dir", "builtins.vars", "inspect.getmembers")]
        if dirs:
            # every path into the set must carry a type filter on ufunc / generic
            tf = [f for f in filt if f.op in ("issubclass", "isinstance", "is", "eq")
                  and any(y.op == "ext" and y.a[0] in ("numpy.ufunc", "numpy.generic", "numpy.number", "numpy.dtype")
                          for y in subterms(f))]
            if not tf:
                other = [f for f in filt if f.op in ("issubclass", "isinstance")]
                wide = all(any(y.op == "ext" and y.a[0] in ("builtins.object", "builtins.type", "typing.Callable",
                                                            "collections.abc.Callable") for y in subterms(f))
                           for f in other)
                if wide:
                    return False, f"anything in {show(dirs[0])[:60]} (no filter on ufuncs or scalar types)"
                return None, show(v)[:80]
            narrow = {f for f in tf if narrow_filter(f)}
            unsure = None
            for x in subterms(mk("tuple", g, v)):
                if x.op == "ent":
                    if any(positive(x.a[0], f) is False for f in tf):
                        return False, "names that are *not* ufuncs"
                    if not any(y in tf for y in subterms(x.a[0])):
                        continue
                    others = falsifier(Not(subst_atoms(x.a[0], narrow, FALSE)))
                    if others is None:
                        continue
                    wide = [y for y in subterms(x.a[0]) if y.op in ("isinstance", "issubclass") and y not in narrow]
                    if wide:
                        return False, f"everything that passes {show(wide[0])[:120]}, not only ufuncs and scalar types"
                    unsure = show(x.a[0])[:80]
            if unsure:
                return None, unsure
            mods = {y.a[0] for d in dirs for y in subterms(d) if y.op == "ext" and not y.a[0].startswith("builtins.")}
            if any(not (m == "numpy" or m.startswith("scipy.special")) for m in mods):
                return None, show(v)[:80]
            return True, "ufuncs/scalar types of " + ", ".join(sorted(mods))
    return None, show(v)[:80]


def rule_families(rep, M, prefix):
    rid = prefix + ".families"
    rep.rule(rid, "every value that a node class accepts without a trusted list belongs to the documented families "
                  "(builtin primitives/containers, numpy array/scalar/dtype/RNG types and ufuncs, scipy.special "
                  "ufuncs, scipy.sparse types, scikit-learn estimators, trees and losses)")
    total = 0
    for n in M.nodes:
        names = own_names(M, n, "none")
        if names is None:
            rep.dunno(rid, n.label, n.loc, "not enumerable")
            continue
        vals = []
        for v, g in names.items():
            av = accepted_values(g, v)
            if av is None:
                rep.dunno(rid, n.label, n.loc, f"what {show(v)[:60]} is compared with is not enumerable")
                continue
            vals += av
        seen = set()
        for g, val in vals:
            if val in seen:
                continue
            seen.add(val)
            total += 1
            ok, txt = classify_value(g, val)
            what = f"{n.label} accepts {txt}"
            if ok:
                rep.ok(rid, what, n.loc)
            elif ok is None:
                rep.dunno(rid, what, n.loc, "family not known to the rule")
            else:
                rep.bad(rid, f"{n.label}:{txt[:80]}", n.loc, f"{n.label} trusts by default {txt}")
        # children: default trust handed down
        for e_, g, fn, aa, k, res in M.events(n.init_events, "none"):
            if e_.kind != "get_tree" or len(aa) < 3:
                continue
            its = seq_items(aa[2])
            for g2, val in its or []:
                if val in seen or g2 is FALSE:
                    continue
                seen.add(val)
                total += 1
                ok, txt = classify_value(g2, val)
                if ok is False:
                    rep.bad(rid, f"{n.label}:child:{txt[:80]}", e_.loc,
                            f"{n.label} lets its children trust {txt} by default")
                elif ok:
                    rep.ok(rid, f"{n.label} lets children accept {txt}", e_.loc)
            if its is None and aa[2].op == "const" and aa[2] is not NONE and aa[2] is not FALSE:
                rep.bad(rid, f"{n.label}:child-trust", e_.loc, f"{n.label} builds a child with trusted={show(aa[2])}")
    if total < 20:
        rep.errors.append({"rule": rid, "error": f"only {total} default-trusted values found"})


# ---------------------------------------------------------------- inspection is inert
def rule_inert_nodes(rep, M, prefix):
    rid = prefix + ".nodes-inert"
    rep.rule(rid, "building the tree and running get_unsafe_set, is_safe, is_self_safe and format on any node class "
                  "never imports or resolves a name from the archive, never constructs a node, never reads numpy data, "
                  "never opens, extracts or writes a file")
    for n in M.nodes:
        for phase, evs in (("__init__", n.init_events), ("get_unsafe_set", n.unsafe_events),
                           ("is_self_safe", n.self_safe_events), ("is_safe", n.is_safe_events),
                           ("format", n.format_events)):
            inert_events(rep, rid, M, n.label + "." + phase, evs, ("none", "list"))


def inert_events(rep, rid, M, label, evs, scens, state_syms=()):
    for scen in scens:
        for kind, full, base, nm, e, g in resolutions(M, evs, scen):
            t = full if full is not None else nm
            what = f"{label}: {kind} {show(t)[:80] if t is not None else ''}"
            if t is None or (opaque(t) and not reads_archive(t)):
                rep.dunno(rid, what, e.loc, "name not modelled")
            elif kind == "getattr" and base is not None and isinstance(base, T) and not reads_archive(base) and \
                    not base.op == "ext":
                rep.ok(rid, what + " (own object)", e.loc)
            elif kind == "getattr" and base is not None and base.op in ("node", "ref", "inst"):
                rep.ok(rid, what + " (node attribute)", e.loc)
            elif reads_archive(t) or (base is not None and reads_archive(base) and base.op != "ref"):
                rep.bad(rid, f"{label}:{kind}:{show(t)[:60]}", e.loc,
                        f"{label} resolves {show(t)[:100]} before the trust decision")
            else:
                rep.ok(rid, what + " (fixed)", e.loc)
        for x, e, g in dict_lookups(M, evs, scen):
            if x.a[0].op == "attr" and x.a[0].a[0].op in ("node", "inst", "ref"):
                continue
            rep.bad(rid, f"{label}:dict:{show(x.a[1])[:60]}", e.loc,
                    f"{label} looks up {show(x.a[1])[:80]} in a namespace before the trust decision")
        for e, g, fn, a, k, res in M.events(evs, scen):
            if not isinstance(fn, T):
                continue
            if e.kind == "construct":
                rep.bad(rid, f"{label}:construct:{show(fn)[:50]}", e.loc,
                        f"{label} constructs {show(fn)[:80]} before the trust decision")
                continue
            if e.kind not in ("call", "new"):
                continue
            nm = ext_name(fn)
            if denied(nm):
                rep.bad(rid, f"{label}:{nm}", e.loc, f"{label} calls {nm} while only inspecting")
            elif nm in NP_READERS or nm in ("scipy.sparse.load_npz", "numpy.frombuffer_"):
                rep.bad(rid, f"{label}:{nm}", e.loc, f"{label} reads array data with {nm} while only inspecting")
            elif fn.op == "attr" and fn.a[1] in ("extract", "extractall", "writestr", "write", "open") and \
                    contains(fn, LC) and not (fn.a[1] == "open" and not (len(a) > 1)):
                rep.bad(rid, f"{label}:.{fn.a[1]}", e.loc, f"{label} calls {show(fn)[:60]} while only inspecting")
            elif (is_module_lookup(fn) or (fn.op == "call" and callee(fn) == "builtins.getattr"
                                           and is_module_lookup(fn.a[1][0]))) and reads_archive(fn):
                rep.bad(rid, f"{label}:call:{show(fn)[:50]}", e.loc, f"{label} calls {show(fn)[:80]}")
            else:
                rep.ok(rid, f"{label}: call of {show(fn)[:60]}", e.loc)
