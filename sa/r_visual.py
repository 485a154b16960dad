"""Rules over skops.io._visualize: C13."""
from __future__ import annotations

from .audit_model import (A, LC, OWN, P, STATE, TRUSTED, U, SCEN, is_child_elem, scen_list, scen_none)
from .core import *
from .core import T
from .trip import leaves
from .r_audit import falsifier, judge as judge0, membership, opaque, own_names, structural
from .r_persist import FILE, Run

V = "skops.io._visualize"


def judge(rep, rid, fz, what, where, msg, key):
    """a state whose shape is wrong may be refused, so a condition on its shape settles nothing"""
    if isinstance(fz, list) and any(a.op in ("isinstance", "hasattr", "issubclass") and json_like(a.a[0])
                                    for a, _p in fz):
        fz = "cap"
    judge0(rep, rid, fz, what, where, msg, key)


def json_like(t):
    return any(x is STATE for x in subterms(t)) and t.op in ("item", "elem", "idx", "call", "attr")


def walk(M, n, level=None):
    I = M.I
    I.symattrs = {}
    I.reset_control()
    ref, _ = M.io.build(n.cls)
    n0 = len(I.events)
    f = I.get_global(V, "walk_tree")
    I.enter(P)
    try:
        v = I.call(f, [ref], {"level": const(level)} if level else {}, None)
    finally:
        I.frames.pop()
    return ref, v, I.events[n0:]


def info_kw(M, cls_t, e):
    """keyword view of a NodeInfo(...) creation event"""
    I = M.I
    kw = {k: I.freeze(v) for k, v in e.kw if isinstance(v, T)}
    names = None
    if e.fn.op == "cls":
        c = I.classes[e.fn.a[0]]
        names = [s.target.id for s in c.node.body if hasattr(s, "target") and hasattr(s.target, "id")]
    for i, a in enumerate(e.args):
        if names and i < len(names):
            kw[names[i]] = I.freeze(a)
    return kw


def rec_calls(evs, qual_part="walk_tree"):
    """recursive walks: (event, args, kw)"""
    out = []
    for e in evs:
        if e.kind not in ("yieldfrom",):
            # a loop over the recursive call that yields its items is as good
            if not (e.kind == "yield" and e.args and isinstance(e.args[0], T)):
                continue
        for a in e.args:
            if not isinstance(a, T):
                continue
            for x in split_ite(a):
                y = x
                while y.op in ("elem", "sorted", "list_of") and isinstance(y.a[0], T):
                    y = y.a[0]
                if y.op == "call" and y.a[0].op == "rec" and qual_part in str(y.a[0].a[0]):
                    out.append((e, y.a[1], dict((k, v) for k, v in y.a[2]), x))
    return out


def split_ite(t):
    if t.op == "ite":
        return split_ite(t.a[1]) + split_ite(t.a[2])
    return [t]


def pieces(t):
    return list(t.a) if t.op == "concat" else [t]


def displays(val, name):
    """does the text val contain the pieces of name next to each other?"""
    n = pieces(name)
    for x in subterms(val):
        p = pieces(x)
        for i in range(len(p) - len(n) + 1):
            if all(p[i + j] is n[j] or (is_str(n[j]) and is_str(p[i + j]) and
                                        (j in (0, len(n) - 1)) and cval(n[j]) in cval(p[i + j]))
                   for j in range(len(n))):
                return True
    return False


def find_infos(M, evs):
    out = []
    for e in evs:
        if e.kind != "yield":
            continue
        for a in e.args:
            for x in (M.I._alts(a) if isinstance(a, T) else []):
                if x.op == "ref" or x.op == "inst":
                    out.append((e, x))
    return out


def rule_rows(rep, M, prefix):
    rs, rd, rl, rt = (prefix + s for s in (".row-safety", ".descent", ".levels", ".total"))
    rep.rule(rs, "for every node class, walk_tree's row for the node has is_self_safe False when a name it displays is "
                 "not trusted, is_safe False when any name the node reports or anything a child reports is not trusted, "
                 "and is_safe True when nothing is reported")
    rep.rule(rd, "for every node class, every child that can report an untrusted name is walked when it is not safe")
    rep.rule(rl, "the row of a node is yielded before those of its children, at the level given, children one below")
    rep.rule(rt, "walk_tree has no raise on the path of a node that is built from a well-formed state")
    for n in M.nodes:
        ref, v, evs = walk(M, n, 3)
        if any(e.kind == "unmodelled" for e in evs):
            pass
        infos = [e for e in evs if e.kind == "new" and isinstance(e.fn, T) and e.fn.op == "cls"
                 and e.fn.a[0].endswith("NodeInfo")]
        yields = [e for e in evs if e.kind in ("yield", "yieldfrom")]
        if not infos:
            rep.dunno(rs, n.label, n.loc, "no NodeInfo is created")
            continue
        for scen in ("none", "list"):
            base = SCEN[scen]
            live = []
            for e in infos:
                g = aguard(e.guard, base)
                if g is FALSE:
                    continue
                live.append((e, g))
            own = own_names(M, n, scen)
            if len(live) != 1 or own is None:
                rep.dunno(rs, f"{n.label} ({scen})", n.loc, f"{len(live)} rows")
                continue
            e, g = live[0]
            kw = info_kw(M, None, e)
            ss, sf, val = kw.get("is_self_safe"), kw.get("is_safe"), kw.get("val")
            if ss is None or sf is None:
                rep.dunno(rs, n.label, e.loc, "row fields")
                continue
            what = f"{n.label} ({scen} given)"
            if g is not TRUE:
                fz = falsifier(g)
                if isinstance(fz, list) and any(contains(a, STATE) for a, _ in fz):
                    fz = "cap"      # malformed states may be refused
                judge(rep, rs, fz, what + ": a row is yielded", e.loc,
                      f"walk_tree yields no row for {n.label}", f"{n.label}:norow")
            ss, sf = assign_bool(ss, base), assign_bool(sf, base)
            for name in own:
                if not (name.op == "concat" or is_str(name)):
                    continue
                m = membership(name)
                # is it reported at all when unlisted?
                rg = assign_bool(own[name], lambda a: False if m(a) else None)
                w = f"{what}: {show(name)[:80]}"
                if val is None or displays(val, name) or name is OWN:
                    t = assign_bool(ss, lambda a: False if m(a) else None)
                    judge(rep, rs, falsifier(Not(And([(rg, True), (t, True)]))), w + " self", e.loc,
                          f"the row of {n.label} is not marked unsafe although {show(name)[:80]} is untrusted",
                          f"{n.label}:{show(name)[:60]}:self")
                t = assign_bool(sf, lambda a: False if m(a) else None)
                judge(rep, rs, falsifier(Not(And([(rg, True), (t, True)]))), w + " whole", e.loc,
                      f"the row of {n.label} is marked fully safe although {show(name)[:80]} is untrusted",
                      f"{n.label}:{show(name)[:60]}:whole")
            kids = M.child_reports(n, scen) or []
            ms = [membership(x) for x in own]
            for cg, child in kids:
                q = mk("nodeq", "get_unsafe_set", child)

                def dirty(a, child=child):
                    if a.op == "nodeq" and a.a[1] is child:
                        return True if a.a[0] == "get_unsafe_set" else (False if a.a[0] == "is_safe" else None)
                    if a.op == "each":
                        return True
                    if a.op == "len" and a.a[0].op == "nodeq" and a.a[0].a[1] is child:
                        return True
                    if any(m(a) for m in ms):
                        return True
                    return base(a)
                t = assign_bool(sf, dirty)
                cgd = assign_bool(cg, dirty)
                judge(rep, rs, falsifier(Not(And([(t, True), (cgd, True)]))), f"{what}: child {show(child)[:60]}", e.loc,
                      f"the row of {n.label} is marked fully safe although its child {show(child)[:60]} is not",
                      f"{n.label}:{show(child)[:60]}:childsafe")
            # clean

            def clean(a):
                if a.op == "nodeq":
                    return a.a[0] in ("is_safe", "is_self_safe")
                if a.op == "each" and a.a[0].op == "nodeq":
                    return False
                if a.op == "len" and a.a[0].op == "nodeq":
                    return False
                if any(m(a) for m in ms):
                    return True
                return base(a)
            if scen == "list" and not any(opaque(x) for x in own):
                t = assign_bool(sf, clean)
                fz = falsifier(t)
                if isinstance(fz, list) and fz and not all(structural(a) and not contains(a, TRUSTED) for a, _ in fz):
                    fz = "cap"
                if isinstance(fz, list) and fz and not any(contains(a, STATE) for a, _p in fz):
                    fz = None       # what the default list holds
                if isinstance(fz, list) and any(a.op == "each" and contains(a, STATE) for a, _p in fz):
                    fz = "cap"
                judge(rep, rs, fz, f"{what}: fully safe when nothing is reported", e.loc,
                      f"the row of {n.label} is not marked safe although the audit reports nothing", f"{n.label}:clean")
            # descent
            calls = rec_calls(evs)

            def has_arg(x, node):
                if x is node:
                    return True
                if x.op == "ite":
                    return has_arg(x.a[1], node) or has_arg(x.a[2], node)
                if x.op.split(":")[0] in ("list", "dict", "set", "tuple", "kv", "ent", "ditems", "dvalues"):
                    return any(isinstance(i, T) and has_arg(i, node) for i in x.a)
                return False

            def own_bad(child, own=None):
                def f(a):
                    if a.op == "nodeq" and a.a[1] is child:
                        # its own type may be trusted or not: what is reported may be beneath it
                        return True if a.a[0] == "get_unsafe_set" else (False if a.a[0] == "is_safe" else
                                                                        own if a.a[0] == "is_self_safe" else None)
                    if a.op == "each":
                        return True
                    return base(a)
                return f
            for cg, child, sown in [(cg, child, x) for cg, child in kids for x in (None, True, False)]:
                f = own_bad(child, sown)
                if sown is not None and not any(y.op == "nodeq" and y.a[0] == "is_self_safe" and y.a[1] is child
                                                for c in calls for t, _p in c[0].guard for y in subterms(t)):
                    continue
                cgd = assign_bool(cg, f)
                if cgd is FALSE:
                    continue
                gs = []
                for ce, cargs, ckw, x in calls:
                    arg = cargs[0] if cargs else ckw.get("node")
                    if arg is None:
                        continue
                    fa = M.I.freeze(arg)
                    if has_arg(assign(fa, base), child) or has_arg(fa, child):
                        gs.append(aguard(ce.guard, f))
                w = f"{what}: walks {show(child)[:70]}"
                if not gs:
                    if opaque(child) or any(opaque(M.I.freeze(c[1][0])) for c in calls if c[1]):
                        rep.dunno(rd, w, e.loc, "walk not modelled")
                    else:
                        rep.bad(rd, f"{n.label}:{show(child)[:60]}", e.loc,
                                f"walk_tree never visits the child {show(child)[:80]} of {n.label}, although the audit "
                                "reports its names")
                    continue
                fz = falsifier(Not(And([(cgd, True), (Or(gs), False)])))
                if isinstance(fz, list) and any(is_type_atom(a) for a, _ in fz):
                    fz = "cap"
                judge(rep, rd, fz, w, e.loc, f"walk_tree skips the child {show(child)[:80]} of {n.label} although it is "
                                             "not safe", f"{n.label}:{show(child)[:60]}:skipped")
            # nested node instances
            for inst, path in nested_nodes(M, ref):
                gs = []
                for ce, cargs, ckw, x in calls:
                    arg = cargs[0] if cargs else ckw.get("node")
                    if arg is not None and any(y is inst for y in split_ite(arg)):
                        gs.append(aguard(ce.guard, base))
                w = f"{what}: walks the nested {path}"
                if not gs:
                    rep.bad(rd, f"{n.label}:{path}", e.loc, f"walk_tree never visits the child {path} of {n.label}")
                else:
                    judge(rep, rd, falsifier(Or(gs)), w, e.loc, f"walk_tree skips the child {path} of {n.label}",
                          f"{n.label}:{path}:skipped")
            # the text of the row is made without failing
            for x in evs:
                if x.kind == "call" and isinstance(x.fn, T) and x.fn.op == "attr" and x.fn.a[1] == "decode" and not x.caught \
                        and any(y.op == "call" and y.a[0].op in ("ext", "attr") and
                                (y.a[0].a[0] if y.a[0].op == "ext" else y.a[0].a[1]) in ("io.BytesIO", "read", "getvalue", "tobytes")
                                for y in subterms(M.I.freeze(x.fn.a[0]))):
                    aa, ak = [M.I.freeze(y) for y in x.args], {k: M.I.freeze(y) for k, y in x.kw}
                    enc, err = aa[0] if aa else ak.get("encoding", const("utf-8")), aa[1] if len(aa) > 1 else ak.get("errors", const("strict"))
                    if is_str(enc) and is_str(err) and cval(err) == "strict" and \
                            cval(enc).lower().replace("-", "").replace("_", "") in ("utf8", "ascii", "utf16", "utf32", "usascii") and \
                            aguard(x.guard, base) is not FALSE:
                        rep.bad(rt, f"{n.label}:decode", x.loc, f"the row of {n.label} decodes its bytes as {cval(enc)}, which "
                                                                "raises for other content")
            # levels
            lv = kw.get("level")
            if lv is not None and is_const(lv):
                rep.check(rl, cval(lv) == 3, f"{what}: row level", e.loc,
                          f"the row of {n.label} has level {cval(lv)} when walked at level 3", f"{n.label}:level")
            else:
                rep.dunno(rl, what, e.loc, "level not constant")
            ye = [y for y, _x in find_infos(M, evs)]
            first = min((y.seq for y in ye), default=None)
            for ce, cargs, ckw, x in calls:
                if aguard(ce.guard, base) is FALSE:
                    continue
                l2 = ckw.get("level") if "level" in ckw else (cargs[2] if len(cargs) > 2 else const(0))
                if is_const(l2):
                    rep.check(rl, cval(l2) == 4, f"{what}: child level", ce.loc,
                              f"children of {n.label} are walked at level {cval(l2)}, their parent is at 3",
                              f"{n.label}:childlevel")
                else:
                    rep.dunno(rl, what, ce.loc, "child level " + show(l2)[:80])
                if first is not None:
                    rep.check(rl, first < ce.seq, f"{what}: row before children", ce.loc,
                              f"rows of children of {n.label} come before its own row", f"{n.label}:order")
            # totality
            for r in evs:
                if r.kind == "raise":
                    g = aguard(r.guard, base)
                    if g is FALSE:
                        rep.ok(rt, f"{what}: raise at line {r.loc[1]} unreachable", r.loc)
                        continue
                    fz = falsifier(Not(g))
                    if fz is None:
                        rep.ok(rt, f"{what}: raise at line {r.loc[1]} unreachable", r.loc)
                    elif isinstance(fz, list) and not fz:
                        rep.bad(rt, f"{n.label}:raise", r.loc, f"walking a {n.label} always raises "
                                                               f"{show(M.I.freeze(r.fn))[:60]}")
                    else:
                        rep.dunno(rt, what, r.loc, "raise under a condition")
            for ce, cargs, ckw, x in calls:
                arg = cargs[0] if cargs else ckw.get("node")
                if arg is None:
                    continue
                for g2, y in guarded_alts(assign(M.I.freeze(arg), base)):
                    if y.op in ("node", "inst", "rec") or y.op.split(":")[0] in ("list", "dict", "tuple"):
                        rep.ok(rt, f"{what}: walks a node", ce.loc)
                        continue
                    g = And([(aguard(ce.guard, base), True), (g2, True)])
                    fz = falsifier(Not(g))
                    w = f"{what}: walks {show(y)[:60]}"
                    if fz is None:
                        rep.ok(rt, w + " is unreachable", ce.loc)
                    elif isinstance(fz, list) and not fz and (y.op == "const" or (
                            y.op == "call" and y.a[0].op == "ext" and y.a[0].a[0] in ("io.BytesIO", "json.loads"))):
                        rep.bad(rt, f"{n.label}:{show(y)[:50]}", ce.loc,
                                f"walking a {n.label} visits {show(y)[:60]}, which is not a node, and raises TypeError")
                    else:
                        rep.dunno(rt, w, ce.loc, "may not be a node")


def guarded_alts(t, g=TRUE):
    if t.op == "ite":
        return (guarded_alts(t.a[1], And([(g, True), (t.a[0], True)]))
                + guarded_alts(t.a[2], And([(g, True), (t.a[0], False)])))
    return [(g, t)]


def is_type_atom(a):
    return a.op == "isinstance" and a.a[0].op == "node"


def nested_nodes(M, ref):
    """Node instances among the children of a built node"""
    I = M.I
    ch = I.obj(ref).attrs.get("children") if ref.op == "ref" else None
    out = []

    def go(t, path, depth=0):
        if depth > 4 or t is None:
            return
        if t.op == "ite":
            go(t.a[1], path, depth + 1)
            go(t.a[2], path, depth + 1)
            return
        if t.op != "ref":
            return
        f = I.freeze(t)
        if f.op == "inst":
            out.append((t, path))
            return
        if f.op.split(":")[0] == "dict":
            for g, (k, v) in I.dict_entries(t):
                go(v, show(k), depth + 1)
    if ch is not None:
        go(ch, "children")
    return out


# ---------------------------------------------------------------- presentation
NODES = mk("sym", "nodes")
SHOW = mk("sym", "show")


def is_row(t):
    """the generic row of the iteration, possibly copied by dataclasses.replace"""
    e = mk("elem", NODES)
    while True:
        if t is e:
            return True
        if t.op == "call" and callee(t) in ("dataclasses.replace", "copy.copy", "copy.replace") and t.a[1]:
            kws = dict(t.a[2])
            if set(kws) & {"is_safe", "is_self_safe", "val", "key"}:
                return False
            t = t.a[1][0]
            continue
        return False


def is_root(t):
    return t.op == "call" and callee(t) == "builtins.next" and t.a[1] and t.a[1][0] is NODES


def rows_scen(mode, self_safe, safe, rich, first, level_error=()):
    def f(t):
        if t.op == "eq" and SHOW in t.a:
            o = t.a[0] if t.a[1] is SHOW else t.a[1]
            if is_str(o):
                return cval(o) == mode
        if t.op == "in" and t.a[0] is SHOW:
            its = seq_items(t.a[1])
            if its is not None and all(is_str(v) for _g, v in its):
                return mode in [cval(v) for _g, v in its]
        if t.op == "attr" and t.a[1] in ("is_safe", "is_self_safe"):
            x = t.a[0]
            if is_row(x) or (is_root(x) and first):
                return safe if t.a[1] == "is_safe" else self_safe
        if t.op == "each" and t.a[0] is NODES:
            return not first
        if t.op == "exc" and isinstance(t.a[0], T) and t.a[0].op == "import":
            return not rich
        if t in level_error:
            return False
        return None
    return f


TU, TS = mk("sym", "tag_unsafe"), mk("sym", "tag_safe")


def rule_show(rep, M, prefix):
    rv, rg = prefix + ".shown", prefix + ".tags"
    rep.rule(rv, "pretty_print_tree shows the root and every row that is not fully safe in the modes all and untrusted, "
                 "every self-safe row in the mode trusted")
    rep.rule(rg, "a shown row carries the unsafe tag exactly when its own type is not trusted, with and without rich "
                 "and colours; a row with untrusted content below never gets the colour of a safe row")
    I = M.I
    for rich in (True, False):
        kw = {"tag_unsafe": TU, "tag_safe": TS}
        for s in ("CS", "CU", "CC"):
            pass
        kw.update(color_safe=mk("sym", "CS"), color_unsafe=mk("sym", "CU"), color_child_unsafe=mk("sym", "CC"))
        run = Run(M, "pretty_print_tree", [NODES, SHOW], kw, mod=V)
        lerr = set()            # the conditions of the level check, which are not met by a proper walk
        for e in run.events:
            if e.kind == "raise":
                lerr |= {a for a in subterms(And(list(e.guard))) if a.op == "lt" and opaque(a)}
        for mode in ("all", "untrusted", "trusted"):
            for ss, sf in ((False, False), (True, False), (True, True)):
                for first in (True, False):
                    want = first or mode == "all" or (mode == "untrusted" and not sf) or (mode == "trusted" and ss)
                    if not want:
                        continue
                    f = rows_scen(mode, ss, sf, rich, first, lerr)

                    def f2(t, f=f):
                        if t is TU or t is TS:
                            return True
                        return f(t)
                    what = (f"show={mode!r}, {'root' if first else 'row'} self_safe={ss} safe={sf}, "
                            f"{'rich' if rich else 'plain'}")
                    hits = []
                    for e in run.events:
                        if e.kind != "call":
                            continue
                        g = aguard(e.guard, f2)
                        if g is FALSE:
                            continue
                        args = [assign(I.freeze(a), f2) for a in e.args if isinstance(a, T)]
                        args = [a for a in args if shows_row(a, first)]
                        if args and is_output(e, I):
                            hits.append((g, e, args))
                    if not hits:
                        unk = any(e.kind == "call" and opaque(I.freeze(e.fn)) for e in run.events
                                  if isinstance(e.fn, T))
                        if has_unknown_rows(run, I):
                            rep.dunno(rv, what, run.loc, "rows not modelled")
                        else:
                            rep.bad(rv, f"{mode}:{ss}:{sf}:{first}:{rich}", run.loc,
                                    f"pretty_print_tree does not show it: {what}")
                        continue
                    fz = falsifier(Or([h[0] for h in hits]))
                    if isinstance(fz, list) and not all(structural(a) for a, _ in fz):
                        fz = None if any(soft(a) for a, _ in fz) else "cap"
                    judge(rep, rv, fz, what, hits[0][1].loc, f"pretty_print_tree does not show it: {what}",
                          f"{mode}:{ss}:{sf}:{first}:{rich}")
                    for g, e, args in hits:
                        for a in args:
                            syms = {x for x in subterms(a) if x in (TU, TS)}
                            tag_bad = TU in row_syms(a)
                            if ss and TU in row_syms(a) and TS not in row_syms(a):
                                rep.bad(rg, f"tagged:{mode}:{ss}:{first}:{rich}", e.loc,
                                        f"a trusted row is tagged unsafe: {what}")
                            elif not ss and TU not in row_syms(a):
                                if opaque_text(a):
                                    rep.dunno(rg, what, e.loc, "label not modelled")
                                else:
                                    rep.bad(rg, f"untagged:{mode}:{ss}:{first}:{rich}", e.loc,
                                            f"an untrusted row is shown without the unsafe tag: {what}")
                            else:
                                rep.ok(rg, what, e.loc)
                            if rich and not (ss and sf) and contains(a, mk("sym", "CS")):
                                if any(x.op == "ite" for x in subterms(a)):
                                    rep.dunno(rg, what, e.loc, "colour not decided")
                                else:
                                    rep.bad(rg, f"colour:{mode}:{ss}:{sf}:{first}", e.loc,
                                            f"a row with untrusted content has the colour of safe rows: {what}")


def soft(a):
    return a.op in ("while", "lv", "fold", "hasattr", "is", "not") or opaque(a)


def row_syms(a):
    return {x for x in subterms(a) if x in (TU, TS)}


def opaque_text(a):
    return any(x.op in ("unk", "fold") for x in subterms(a))


def has_unknown_rows(run, I):
    return not any(e.kind == "yield" for e in run.events) and any(e.kind == "call" and isinstance(e.fn, T) and
                                                                   opaque(e.fn) for e in run.events)


def shows_row(a, first):
    if a.op in ("fold", "lv"):
        return False
    for x in subterms(a):
        if x.op == "attr" and x.a[1] == "val":
            if first and is_root(x.a[0]):
                return True
            if not first and is_row(x.a[0]):
                return True
    return False


OUT_EXT = ("builtins.print", "rich.tree.Tree", "rich.print")


def is_output(e, I):
    f = I.freeze(e.fn) if isinstance(e.fn, T) else None
    if f is None:
        return False
    if f.op == "ext":
        return f.a[0] in OUT_EXT
    if f.op == "attr":
        return f.a[1] in ("add", "print", "write")
    # methods of an unknown tree node
    return f.op not in ("cls", "fn", "bound", "partial", "rec")


def rule_visualize(rep, M, prefix):
    rid = prefix + ".entry"
    rep.rule(rid, "visualize builds the node tree with the caller's trusted list from the whole schema and hands the walk "
                  "of that tree, the show mode and the options to the sink")
    I = M.I
    sink, show_, tag = mk("sym", "sink"), SHOW, mk("sym", "opt")
    run = Run(M, "visualize", [FILE], {"show": show_, "trusted": TRUSTED, "sink": sink, "opt": tag}, mod=V)
    trees = [e for e in run.events if e.kind == "get_tree"]
    calls = [e for e in run.events if e.kind == "call" and e.fn is sink]
    if len(trees) < 1:
        rep.dunno(rid, "tree", run.loc, "no get_tree call")
        return
    for e in trees:
        st = I.freeze(e.args[0])
        for g, l in leaves(e.args[1]):
            if l.op == "ref" and I.obj(l).kind == "inst":
                v = I.freeze(I.obj(l).attrs.get("protocol", mk("unk", "none")))
                if v.op == "item" and is_str(v.a[1]) and cval(v.a[1]) == "protocol" and v.a[0] is st:
                    rep.ok(rid, "the nodes are those of the protocol the archive records", e.loc)
                elif is_const(v):
                    rep.bad(rid, "protocol", e.loc, f"visualize reads every archive as protocol {show(v)}, the audit as the one "
                                                    "it records: their nodes and verdicts differ")
        tr = I.freeze(e.args[2])
        for scen in ("none", "list"):
            t = assign(tr, SCEN[scen])
            ok = t is TRUSTED or (t.op in ("list_of", "sorted") and t.a[0] is TRUSTED) or (scen == "none" and t is NONE)
            its = None if ok else seq_items(t)
            if ok:
                rep.ok(rid, f"trusted forwarded ({scen})", e.loc)
            elif t is NONE or (its is not None and not contains(t, TRUSTED)) or is_const(t):
                rep.bad(rid, "trusted", e.loc, f"visualize audits with trusted={show(t)[:60]} instead of the caller's list")
            else:
                rep.dunno(rid, "trusted", e.loc, show(t)[:80])
    if not calls:
        rep.dunno(rid, "sink", run.loc, "no call of sink found")
        return
    for e in calls:
        allv = [I.freeze(a) for a in e.args if isinstance(a, T)] + [I.freeze(v) for _k, v in e.kw if isinstance(v, T)]
        rep.check(rid, any(a is show_ for a in allv), "show forwarded", e.loc,
                  "visualize does not forward the show mode to the sink", "show")
        rep.check(rid, dict(e.kw).get("opt") is tag, "options forwarded", e.loc,
                  "visualize does not forward its options to the sink", "options")
        infos = [x for x in run.events if x.kind == "new" and isinstance(x.fn, T) and x.fn.op == "cls"
                 and x.fn.a[0].endswith("NodeInfo")]
        rows = [x for x in infos if x.seq < e.seq]
        if not rows:
            rep.dunno(rid, "rows", e.loc, "rows are created elsewhere")
            continue
        for x in rows:
            kw = info_kw(M, None, x)
            for fld in ("is_self_safe", "is_safe"):
                t = kw.get(fld)
                if t is not None and t.op == "nodeq":
                    rep.check(rid, t.a[0] == fld and t.a[1] is I.freeze(trees[0].res), f"root {fld}", x.loc,
                              f"the root row takes {fld} from {show(t)[:80]}", "root:" + fld)
