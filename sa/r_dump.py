"""Rules over the writing side: identity bookkeeping, protocol dispatch, archive layout, failure atomicity."""
from __future__ import annotations

from .audit_model import A, LC, OBJ, P, SC, STATE, TRUSTED, U, common, scen_none
from .core import *
from .core import T
from .r_audit import falsifier, judge, opaque, structural
from .r_data import get_trips, tname
from .r_persist import FILE, Run
from .trip import is_call, leaves, meth

COMP = mk("sym", "compression")
LEVEL = mk("sym", "compresslevel")
ID_OBJ = mk("call", mk("ext", "builtins.id"), (OBJ,), ())


# ------------------------------------------------------------------ shared
def fcall(e, M):
    """(function term, args, kw) of a call event, frozen"""
    I = M.I
    return (I.freeze(e.fn) if isinstance(e.fn, T) else e.fn, tuple(I.freeze(a) for a in e.args if isinstance(a, T)),
            {k: I.freeze(v) for k, v in e.kw if isinstance(v, T)})


def dump_runs(M):
    if not hasattr(M, "_dump_runs"):
        kw = {"compression": COMP, "compresslevel": LEVEL}
        M._dump_runs = [Run(M, "dump", [OBJ, FILE], kw), Run(M, "dumps", [OBJ], kw)]
    return M._dump_runs


def is_zip_open(f):
    return f.op == "ext" and f.a[0] == "zipfile.ZipFile"


def zips_of(run, M):
    """[(event, zip term, buffer term, kw)] of the archives opened for writing"""
    out = []
    for e in run.events:
        if e.kind != "call":
            continue
        f, a, kw = fcall(e, M)
        if not is_zip_open(f):
            continue
        names = ("file", "mode", "compression", "allowZip64", "compresslevel")
        full = dict(zip(names, a))
        full.update(kw)
        if is_str(full.get("mode", const("r"))) and cval(full.get("mode", const("r"))) in ("w", "x"):
            z = M.I.freeze(e.res) if isinstance(e.res, T) else mk("call", f, a, tuple(sorted(kw.items())))
            out.append((e, z, full.get("file"), full))
    return out


def on(t, base):
    """t is base (or base.something)"""
    while t.op == "attr":
        t = t.a[0]
        if t is base:
            return True
    return t is base


def whole(t, buf):
    """t is the complete content of buf: True / False / None, with the kind of access"""
    n = 0
    while n < 12:
        n += 1
        if t is buf:
            return True
        if is_call(t, "builtins.bytes", "builtins.memoryview", "builtins.bytearray") and len(t.a[1]) == 1:
            t = t.a[1][0]
            continue
        if meth(t, "tobytes", "getbuffer", "getvalue", "cast", "toreadonly"):
            t = t.a[0].a[0]
            continue
        if meth(t, "read", "read1") and not t.a[1]:
            t = t.a[0].a[0]
            continue
        if t.op == "item" and t.a[1].op in ("slice",):
            return False if contains(t, buf) else None
        break
    if t.op == "const" or t is NONE:
        return False
    return None


SINK = {"str": ("builtins.str",), "Path": ("pathlib.Path", "pathlib.PurePath", "os.PathLike"), "file": ()}


def sink_scen(kind):
    def f(t):
        if t.op == "isinstance" and t.a[0] is FILE:
            c = t.a[1]
            if c.op == "ext":
                if kind in ("str", "Path"):
                    return c.a[0] in SINK[kind]
                if c.a[0] in SINK["str"] + SINK["Path"] + ("builtins.bytes",):
                    return False
                return None
            return None
        if t.op == "hasattr" and t.a[0] is FILE and is_str(t.a[1]):
            n = cval(t.a[1])
            if n in ("write", "read", "seek", "close", "flush"):
                return kind == "file"
            if n == "__fspath__":
                return kind == "Path"
            return None
        if t.op in ("is", "eq") and any(x.op == "typeof" and x.a[0] is FILE for x in t.a):
            o = [x for x in t.a if not (x.op == "typeof" and x.a[0] is FILE)]
            if o and o[0].op == "ext" and o[0].a[0] in ("builtins.str", "pathlib.Path"):
                return o[0].a[0] == SINK[kind][0] if kind != "file" else False
            return None
        if t.op == "callable":
            g = t.a[0]
            if is_call(g, "builtins.getattr") and g.a[1][0] is FILE and is_str(g.a[1][1]):
                if cval(g.a[1][1]) in ("write", "read", "seek"):
                    return kind == "file"
        if t.op == "is" and FILE in t.a and NONE in t.a:
            return False
        return None
    return f


def to_path(t):
    """strip Path(..), os.fspath(..), str(..)"""
    while True:
        if is_call(t, "pathlib.Path", "os.fspath", "os.path.abspath", "os.path.expanduser", "os.path.realpath",
                   "builtins.str") and len(t.a[1]) == 1:
            t = t.a[1][0]
            continue
        if t.op in ("str", "repr") and isinstance(t.a[0], T):
            t = t.a[0]
            continue
        if meth(t, "resolve", "absolute", "expanduser") and not t.a[1]:
            t = t.a[0].a[0]
            continue
        return t


PURE_ON_DEST = {"builtins.isinstance", "builtins.str", "builtins.hasattr", "os.fspath", "pathlib.Path",
                "builtins.getattr", "builtins.type", "builtins.repr", "builtins.callable", "os.path.abspath",
                "os.path.exists", "os.path.isdir", "os.path.isfile", "os.path.dirname", "os.path.basename",
                "os.path.join", "os.path.splitext", "os.path.expanduser", "os.path.realpath", "builtins.id",
                "warnings.warn", "builtins.print", "builtins.issubclass"}
PURE_METHODS = {"exists", "is_dir", "is_file", "with_suffix", "resolve", "absolute", "expanduser", "endswith",
                "startswith", "lower", "upper", "rsplit", "split", "strip", "tell", "seekable", "writable", "readable",
                "as_posix", "fileno", "format", "replace_suffix", "joinpath", "with_name", "stat"}
PURE_LOGGERS = {"debug", "info", "warning", "error", "exception", "log"}


def open_mode(f, a, kw):
    """mode of an open call, or None when not an open of the destination"""
    if f.op == "ext" and f.a[0] in ("builtins.open", "io.open"):
        m = a[1] if len(a) > 1 else kw.get("mode", const("r"))
        return m, (to_path(a[0]) if a else to_path(kw.get("file", NONE)))
    if f.op == "attr" and f.a[1] == "open":
        m = a[0] if a else kw.get("mode", const("r"))
        return m, to_path(f.a[0])
    return None


def touches(e, M, facts=None):
    """how event e affects the destination: None | (kind, content, mode)"""
    if e.kind not in ("call", "new"):
        return None
    f, a, kw = fcall(e, M)
    if facts is not None:
        f, a, kw = assign(f, facts), tuple(assign(x, facts) for x in a), {k: assign(v, facts) for k, v in kw.items()}
    om = open_mode(f, a, kw)
    if om and om[1] is FILE:
        if is_str(om[0]) and not set(cval(om[0])) & set("wax+"):
            return None
        return ("open", None, om[0])
    if f.op == "attr":
        base, name = f.a
        b = to_path(base)
        if b is FILE:
            if name in PURE_METHODS:
                return None
            if name in ("write", "write_bytes"):
                return ("write", a[0] if a else NONE, None)
            if name == "writelines":
                return ("write", mk("unk", "writelines"), None)
            if name in ("flush", "close"):
                return ("after", None, None)
            return ("other:" + name, None, None)
        if is_call(base, "builtins.open", "io.open") or meth(base, "open"):
            o = open_mode(base.a[0], base.a[1], dict(base.a[2]))
            if o and o[1] is FILE:
                if name in ("write",):
                    return ("write", a[0] if a else NONE, None)
                if name in ("flush", "close", "fileno", "tell"):
                    return ("after", None, None)
                return ("other:" + name, None, None)
        if base.op == "ext" and base.a[0].startswith("logging") or name in PURE_LOGGERS:
            return None
    allargs = list(a) + list(kw.values())
    if is_zip_open(f) and any(to_path(x) is FILE or dest_handle(x) for x in allargs):
        return ("stream", None, None)
    if f.op == "ext":
        n = f.a[0]
        if n in PURE_ON_DEST or n.startswith("logging.") or n.startswith("os.path."):
            return None
        if n in ("shutil.copyfileobj",) and len(a) >= 2 and (a[1] is FILE or dest_handle(a[1])):
            return ("write", mk("copied", a[0]), None)
        if any(to_path(x) is FILE or dest_handle(x) for x in allargs):
            if n in ("os.replace", "os.rename", "shutil.move", "shutil.copyfile", "shutil.copy", "os.makedirs"):
                return ("replace", a[0] if a else None, None)
            return ("other:" + n, None, None)
    return None


def dest_handle(x):
    if is_call(x, "builtins.open", "io.open") or meth(x, "open"):
        o = open_mode(x.a[0], x.a[1], dict(x.a[2]))
        return bool(o and o[1] is FILE)
    return False


# ------------------------------------------------------------------ C18
def may_fail(e, M):
    """work whose failure the property is about"""
    if e.kind in ("get_state", "_get_state"):
        return "taking the state of the object"
    if e.kind == "call":
        f, a, kw = fcall(e, M)
        if f.op == "ext" and f.a[0] in ("json.dumps", "json.dump"):
            return "encoding the schema"
        if is_zip_open(f):
            return "creating the archive"
        if f.op == "attr" and f.a[1] in ("writestr",):
            return "adding archive members"
    return None


def exc_atoms(t):
    return [x for x in subterms(t) if x.op == "exc"]


def failing(x, M=None):
    """the exc atom covers a failure of the serialisation"""
    return any(y.op in ("stateof", "rawstate") or is_call(y, "json.dumps") for y in subterms(x)) or M is not None and \
        any(t.op in ("stateof", "rawstate") or is_call(t, "json.dumps") for t in M.I.exc_covers.get(x, ()) if isinstance(t, T))


def rule_atomic(rep, M, prefix):
    rid = prefix + ".serialise-first"
    rep.rule(rid, "in dump, everything that can fail because of the object (taking its state, encoding the schema, "
                  "assembling the archive) happens before the destination is opened or written, on every path")
    run = dump_runs(M)[0]
    for kind in ("str", "Path", "file"):
        fn = sink_scen(kind)
        first = None
        seen = 0
        for e in run.events:
            g = aguard(e.guard, fn)
            if g is FALSE:
                continue
            t = touches(e, M, fn)
            if t and t[0] != "after":
                seen += 1
                what = f"dump to a {kind}: {t[0]}"
                if first is None:
                    first = e
                if t[0] == "stream":
                    rep.bad(rid, f"stream:{kind}", e.loc, "the archive is written straight into the destination")
                    continue
                if e.final and e.kind == "call":
                    rep.bad(rid, f"finally:{kind}", e.loc,
                            "the destination is written in a finally block, also after a failure")
                    continue
                bad = False
                for x in exc_atoms(g):
                    if failing(x, M):
                        h = assign_bool(g, lambda y: True if y is x else None)
                        if h is not FALSE:
                            bad = True
                            rep.bad(rid, f"handler:{kind}", e.loc,
                                    "the destination is written although serialising the object failed")
                            break
                if t[0] == "write" and t[1] is not None and not bad:
                    c = assign(t[1], fn)
                    for x in exc_atoms(c):
                        if failing(x, M):
                            bad = True
                            rep.bad(rid, f"fallback:{kind}", e.loc,
                                    "after a failed serialisation something else is written to the destination")
                            break
                if t[0].startswith("other") and not bad:
                    rep.dunno(rid, what, e.loc, "effect on the destination not known")
                elif not bad:
                    rep.ok(rid, what + " after serialising", e.loc)
                continue
            w = may_fail(e, M)
            if w and first is not None:
                rep.bad(rid, f"order:{kind}:{w}", e.loc,
                        f"{w} happens after the destination was opened (at line {first.loc[1]})")
        if not seen:
            rep.dunno(rid, f"dump to a {kind}", run.loc, "no write to the destination was found")
    # swallowed failures
    for run in dump_runs(M):
        v = run.value
        bad = [x for x in exc_atoms(v) if failing(x, M)] if isinstance(v, T) else []
        used = set()
        for e in run.events:
            for x in (e.fn,) + tuple(e.args) + tuple(v for _k, v in e.kw):
                if isinstance(x, T):
                    used.update(a for a in exc_atoms(M.I.freeze(x)) if failing(a, M))
            used.update(a for a, _p in e.guard if a.op == "exc" and failing(a, M))
        for at in used:
            rs = Or([aguard(e.guard, lambda y: True if y is at else None) for e in run.events if e.kind == "raise"])
            if falsifier(rs) is not None:
                bad.append(at)
        if bad:
            rep.bad(rid, f"{run.func}:swallow", run.loc, f"{run.func} returns although serialising the object failed")
        else:
            rep.ok(rid, f"{run.func} propagates failures", run.loc)


def around(evs, at):
    """the facts under which a failure point is reached: what every event of its block has in common"""
    sets = [{l for l in lits_of(And(list(e.guard))) if l[0] is not at} for e in evs
            if any(l[0] is at for l in lits_of(And(list(e.guard))))]
    if not any((at, False) in lits_of(And(list(e.guard))) for e in evs):
        return []
    return list(set.intersection(*sets)) if sets else []


def rule_swallow(rep, M, prefix):
    rid = prefix + ".refusal-propagates"
    rep.rule(rid, "no writer and no layer between a writer and dump catches the failure of a nested value and goes on "
                  "without it")
    for t in get_trips(M):
        label = f"{tname(t.typ)} ({t.qual.rsplit('.', 1)[-1]})"
        terms = [t.state] if t.state is not None else []
        bad = None
        for x in terms:
            for at in exc_atoms(x):
                if failing(at, M) and not any(is_call(y, "json.dumps") for y in subterms(at)):
                    h = assign(x, lambda y: True if y is at else None)
                    # swallowed when the remaining state still exists on that path and nothing is raised
                    rs = [aguard(e.guard, lambda y: True if y is at else None) for e in t.wevents if e.kind == "raise"]
                    if falsifier(Or(rs + [Not(And(around(t.wevents, at)))])) is not None:
                        bad = at
        for e in t.wevents:
            if e.kind in ("call", "get_state", "setitem", "mut"):
                for at, p in lits_of(And(list(e.guard))):
                    if at.op == "exc" and p and failing(at, M) and not any(is_call(y, "json.dumps") for y in subterms(at)):
                        rs = [aguard(e2.guard, lambda y: True if y is at else None)
                              for e2 in t.wevents if e2.kind == "raise"]
                        here = aguard(e.guard, lambda y: True if y is at else None)
                        if falsifier(Or(rs + [Not(here)])) is not None:
                            bad = at
        if bad is not None:
            rep.bad(rid, f"{t.qual}:swallow", t.loc,
                    f"{t.qual} catches the refusal of {show(bad.a[0])[:80] if isinstance(bad.a[0], T) else 'a value'} "
                    "and continues without it")
        else:
            rep.ok(rid, label, t.loc)
    # get_state itself
    gs = get_state_run(M)
    ats = [x for e in gs.events for l in e.guard for x in ([l[0]] if l[0].op == "exc" else [])
           if failing(x, M)]
    if isinstance(gs.value, T):
        ats += [x for x in exc_atoms(gs.value) if failing(x, M)]
    live = []
    for at in ats:
        rs = [aguard(e.guard, lambda y: True if y is at else None) for e in gs.events if e.kind == "raise"]
        if falsifier(Or(rs)) is not None:
            live.append(at)
    if live:
        rep.bad(rid, "get_state:swallow", gs.loc, "get_state catches the refusal of a value and returns a state for it")
    else:
        rep.ok(rid, "get_state", gs.loc)


def rule_one_write(rep, M, prefix):
    rid = prefix + ".single-write"
    rep.rule(rid, "the destination receives the finished archive in one write of the whole in-memory buffer, and dumps "
                  "returns only the finished archive")
    run = dump_runs(M)[0]
    for kind in ("str", "Path", "file"):
        fn = sink_scen(kind)
        zs = zips_of(run, M)
        if not zs:
            rep.dunno(rid, f"dump to a {kind}", run.loc, "no archive found")
            continue
        ws = []
        for e in run.events:
            g = aguard(e.guard, fn)
            if g is FALSE:
                continue
            t = touches(e, M, fn)
            if t and t[0] == "write":
                ws.append((e, g, assign(t[1], fn)))
        for e, g, c in ws:
            oks = [whole(c, z[2]) for z in zs if z[2] is not None]
            if True in oks:
                rep.ok(rid, f"dump to a {kind} writes the whole buffer", e.loc)
            elif oks and all(x is False for x in oks):
                rep.bad(rid, f"part:{kind}", e.loc, f"dump writes {show(c)[:80]}, not the finished archive")
            else:
                rep.dunno(rid, f"dump to a {kind}", e.loc, "written content not modelled: " + show(c)[:80])


# ------------------------------------------------------------------ C12
def schema_fields(M, run, upto, X):
    """const key -> value set on the dict X (a stateof term or a frozen dict) before event seq upto"""
    out = {}
    bases = []

    def collect(t):
        if t.op == "stateof" or t.op == "rawstate":
            bases.append(t)
            return
        if t.op == "ite":
            bases.append(t)
            return
        if t.op.split(":")[0] == "dict":
            for i in t.a:
                if i.op == "kv" and is_str(i.a[0]):
                    out[cval(i.a[0])] = (TRUE, i.a[1])
                elif i.op == "ent" and i.a[1] == "set" and is_str(i.a[2]):
                    out[cval(i.a[2])] = (i.a[0], i.a[3])
                elif i.op == "ent" and i.a[1] == "update":
                    collect(i.a[3])
                else:
                    bases.append(i)
            return
        if meth(t, "copy") and not t.a[1]:
            collect(t.a[0].a[0])
            return
        if t.op == "op" and t.a[0] == "|":
            collect(t.a[1])
            collect(t.a[2])
            return
        if is_call(t, "copy.copy", "copy.deepcopy", "builtins.dict") and t.a[1]:
            collect(t.a[1][0])
            for k, v in t.a[2]:
                out[k] = (TRUE, v)
            return
        bases.append(t)
    collect(X)
    for e in run.events:
        if e.seq >= upto:
            break
        if e.kind == "setitem" and isinstance(e.fn, T):
            b = M.I.freeze(e.fn)
            if b in bases or b is X:
                k = M.I.freeze(e.args[0])
                if is_str(k):
                    out[cval(k)] = (And(list(e.guard)), M.I.freeze(e.args[1]))
        elif e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == "update" and M.I.freeze(e.fn.a[0]) in bases:
            for k, v in e.kw:
                out[k] = (And(list(e.guard)), M.I.freeze(v))
            for a in e.args:
                for i in (dict_items(M.I.freeze(a)) or []):
                    if is_str(i[1]):
                        out[cval(i[1])] = (And(lits_of(i[0]) + list(e.guard)), i[2])
    return out, bases


def dumped_text(t):
    """json.dumps(X) inside encodings"""
    while meth(t, "encode"):
        t = t.a[0].a[0]
    if is_call(t, "json.dumps") and t.a[1]:
        return t
    return None


def rule_schema(rep, M, prefix):
    rid = prefix + ".schema"
    rep.rule(rid, "schema.json is added exactly once, on every path, after the state was taken and before the archive "
                  "is closed, and is json.dumps of the object's whole state plus the current protocol and version")
    I = M.I
    version = I.get_global("skops", "__version__")
    for run in dump_runs(M):
        zs = zips_of(run, M)
        if not zs:
            rep.dunno(rid, run.func, run.loc, "no archive opened for writing")
            continue
        for ze, z, buf, full in zs:
            writes = []
            for e in run.events:
                if e.kind == "call":
                    f, a, kw = fcall(e, M)
                    if f.op == "attr" and on(f.a[0], z) and f.a[1] == "writestr" and a:
                        nm = a[0]
                        if is_call(nm, "zipfile.ZipInfo") and nm.a[1]:
                            nm = nm.a[1][0]
                        writes.append((e, nm, a[1] if len(a) > 1 else kw.get("data", NONE)))
            sch = [w for w in writes if is_str(w[1]) and cval(w[1]) == "schema.json"]
            if not sch:
                unk = [w for w in writes if not is_const(w[1])]
                if unk or not writes:
                    rep.dunno(rid, run.func, run.loc, "no schema.json write found")
                else:
                    rep.bad(rid, f"{run.func}:missing", run.loc, f"{run.func} does not add schema.json")
                continue
            for e, nm, d in writes:
                if is_str(nm) and cval(nm) != "schema.json":
                    rep.bad(rid, f"{run.func}:extra:{cval(nm)}", e.loc,
                            f"{run.func} adds a member {cval(nm)!r} no node refers to")
            if len(sch) > 1:
                gs = [And(list(w[0].guard)) for w in sch]
                both = And([x for g in gs for x in lits_of(g)])
                if both is not FALSE and all(structural(x) for x, _ in lits_of(both)):
                    rep.bad(rid, f"{run.func}:twice", sch[1][0].loc, "schema.json can be added twice")
                    continue
            guard = Or([And(list(w[0].guard)) for w in sch])
            judge(rep, rid, falsifier(guard), f"{run.func}: schema.json always added", sch[0][0].loc,
                  "schema.json is not added on every path", f"{run.func}:conditional")
            last = max(w[0].seq for w in sch)
            for e in run.events:
                if e.kind == "get_state" and e.seq > last:
                    rep.bad(rid, f"{run.func}:order", e.loc, "a state is taken after schema.json was written")
            closes = [e for e in run.events if (e.kind == "exit" and M.I.freeze(e.fn) is z) or
                      (e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == "close" and
                       M.I.freeze(e.fn.a[0]) is z)]
            if any(c.seq < last for c in closes):
                rep.bad(rid, f"{run.func}:closed", sch[0][0].loc, "schema.json is written after the archive was closed")
            for w in sch:
                js = dumped_text(w[2])
                if js is None:
                    if opaque(w[2]):
                        rep.dunno(rid, run.func + " content", w[0].loc, "content not modelled")
                    else:
                        rep.bad(rid, f"{run.func}:content", w[0].loc,
                                f"schema.json contains {show(w[2])[:80]}, not json.dumps of the state")
                    continue
                kw = dict(js.a[2])
                for k in ("skipkeys",):
                    if k in kw and not (is_const(kw[k]) and not cval(kw[k])):
                        rep.bad(rid, f"{run.func}:{k}", w[0].loc, "entries whose keys are not strings are dropped silently")
                for k in ("default", "cls"):
                    if k in kw and kw[k] is not NONE:
                        rep.bad(rid, f"{run.func}:{k}", w[0].loc,
                                "the state is passed through a custom encoder: values that JSON cannot hold would be "
                                "replaced instead of refused")
                dseq = [e.seq for e in run.events if e.kind == "call" and I.freeze(e.fn) is js.a[0] and
                        e.args and I.freeze(e.args[0]) is js.a[1][0]]
                flds, bases = schema_fields(M, run, min(dseq) if dseq else w[0].seq, js.a[1][0])
                if mk("stateof", OBJ) not in bases:
                    if any(opaque(b) for b in bases):
                        rep.dunno(rid, run.func + " state", w[0].loc, "state not modelled: " + show(js.a[1][0])[:80])
                    else:
                        rep.bad(rid, f"{run.func}:state", w[0].loc, "schema.json does not contain the state of the object")
                else:
                    rep.ok(rid, f"{run.func}: state of the object", w[0].loc)
                for key, want in (("protocol", M.io.protocol), ("_skops_version", version)):
                    got = flds.get(key)
                    if got is None:
                        rep.bad(rid, f"{run.func}:{key}", w[0].loc, f"schema.json lacks {key!r}")
                    elif got[1] is not want:
                        if opaque(got[1]) or not is_const(got[1]):
                            rep.dunno(rid, f"{run.func} {key}", w[0].loc, show(got[1])[:80])
                        else:
                            rep.bad(rid, f"{run.func}:{key}", w[0].loc,
                                    f"schema.json has {key}={show(got[1])}, expected {show(want)}")
                    elif falsifier(got[0]) is not None:
                        rep.bad(rid, f"{run.func}:{key}", w[0].loc, f"{key!r} is not always written")
                    else:
                        rep.ok(rid, f"{run.func}: {key} = {show(want)}", w[0].loc)
                for key in flds:
                    if key in ("__class__", "__module__", "__loader__", "__id__", "content", "file", "type"):
                        rep.bad(rid, f"{run.func}:clobber:{key}", w[0].loc, f"{run.func} overwrites {key!r} of the root state")


def rule_sinks(rep, M, prefix):
    rid = prefix + ".sinks"
    rep.rule(rid, "every sink (str, Path, file object, dumps) receives the complete finished buffer the archive was "
                  "assembled in, read after the archive was closed; paths are opened for binary truncating write")
    rid2 = prefix + ".compression"
    rep.rule(rid2, "compression and compresslevel are handed to the ZipFile unchanged and influence nothing else")
    I = M.I
    for run in dump_runs(M):
        zs = zips_of(run, M)
        if len(zs) != 1:
            rep.dunno(rid, run.func, run.loc, f"{len(zs)} archives found")
            continue
        ze, z, buf, full = zs[0]
        # compression
        for k, sym in (("compression", COMP), ("compresslevel", LEVEL)):
            v = full.get(k)
            if v is sym:
                rep.ok(rid2, f"{run.func}: {k} forwarded", ze.loc)
            elif v is None or is_const(v):
                rep.bad(rid2, f"{run.func}:{k}", ze.loc, f"{run.func} ignores {k}")
            elif opaque(v):
                rep.dunno(rid2, f"{run.func}: {k}", ze.loc, show(v)[:60])
            else:
                rep.bad(rid2, f"{run.func}:{k}", ze.loc, f"{run.func} changes {k} to {show(v)[:60]}")
        if falsifier(And(list(ze.guard))) is not None:
            fz = falsifier(And(list(ze.guard)))
            rep.dunno(rid2, run.func, ze.loc, f"archive created conditionally ({show_guard(fz) if fz != 'cap' else ''})")
        for e in run.events:
            if e is ze or e.kind in ("enter",):
                continue
            ts = [subst(M.I.freeze(x), {z: mk("sym", "zip")}) for x in (e.fn,) + tuple(e.args) + tuple(v for _k, v in e.kw)
                  if isinstance(x, T)]
            gs = [subst(t, {z: mk("sym", "zip")}) for t, _p in e.guard]
            for what, xs in (("argument", ts), ("condition", gs)):
                for x in xs:
                    if (contains(x, COMP) or contains(x, LEVEL)) and e.kind in ("call", "setitem", "get_state", "raise"):
                        # validating the value up front is fine: nothing is produced
                        if e.kind == "raise" or (e.kind == "call" and e.fn.op == "ext" and
                                                 e.fn.a[0] in ("builtins.isinstance", "builtins.getattr", "builtins.int")):
                            continue
                        lits = [l for l in gs if contains(l, COMP) or contains(l, LEVEL)]
                        if what == "condition" and all(raised_otherwise(run, l) for l in lits):
                            continue
                        rep.bad(rid2, f"{run.func}:{what}:{callee_name(e)}", e.loc,
                                f"the {what} of {callee_name(e)} depends on the compression settings")
        closes = [e.seq for e in run.events if (e.kind == "exit" and I.freeze(e.fn) is z) or
                  (e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == "close" and I.freeze(e.fn.a[0]) is z)]
        reads = []
        for e in run.events:
            if e.kind == "call" and e.fn.op == "attr" and I.freeze(e.fn.a[0]) is buf and \
                    e.fn.a[1] in ("getvalue", "getbuffer", "read"):
                reads.append(e)
        if buf is not None and is_call(buf, "io.BytesIO"):
            if not closes:
                rep.bad(rid, f"{run.func}:open", ze.loc, "the archive is never closed: its directory is missing")
            for e in reads:
                if closes and e.seq < min(closes):
                    rep.bad(rid, f"{run.func}:early", e.loc, "the buffer is read before the archive is closed")
                if e.fn.a[1] == "read":
                    seeks = [x for x in run.events if x.kind == "call" and x.fn.op == "attr" and x.fn.a[1] == "seek" and
                             I.freeze(x.fn.a[0]) is buf and x.seq < e.seq]
                    if not seeks:
                        rep.bad(rid, f"{run.func}:position", e.loc, "the buffer is read from its end")
            for e in run.events:
                if e.kind == "call" and e.fn.op == "attr" and I.freeze(e.fn.a[0]) is buf and \
                        e.fn.a[1] in ("truncate", "write", "close"):
                    rep.bad(rid, f"{run.func}:{e.fn.a[1]}", e.loc, f"the buffer is changed ({e.fn.a[1]}) beside the archive")
        if run.func == "dumps":
            v = run.value
            for g, leaf in leaves(v):
                w = whole(leaf, buf)
                if w is True and not raw_buffer(leaf):
                    rep.ok(rid, "dumps returns the whole buffer", run.loc)
                elif w is True:
                    rep.bad(rid, "dumps:type", run.loc, f"dumps returns {show(leaf)[:60]}, not bytes")
                elif w is False:
                    rep.bad(rid, "dumps:value", run.loc, f"dumps returns {show(leaf)[:60]}")
                else:
                    rep.dunno(rid, "dumps", run.loc, show(leaf)[:80])
            continue
        for kind in ("str", "Path", "file"):
            fn = sink_scen(kind)
            ws, opens, others = [], [], []
            for e in run.events:
                g = aguard(e.guard, fn)
                if g is FALSE:
                    continue
                t = touches(e, M, fn)
                if not t:
                    continue
                if t[0] == "write":
                    ws.append((e, g, assign(t[1], fn)))
                elif t[0] == "open":
                    opens.append((e, g, t[2]))
                elif t[0] != "after":
                    others.append((e, t[0]))
            what = f"dump to a {kind}"
            for e, g, mt in opens:
                for g2, leaf in leaves(assign(mt, fn)):
                    if not is_str(leaf):
                        rep.dunno(rid, what, e.loc, "mode not constant")
                    elif cval(leaf) in ("wb", "bw", "xb", "bx"):
                        rep.ok(rid, what + ": opened " + cval(leaf), e.loc)
                    else:
                        rep.bad(rid, f"dump:{kind}:mode", e.loc, f"the destination is opened with mode {cval(leaf)!r}")
            if others:
                rep.dunno(rid, what, others[0][0].loc, others[0][1])
            if not ws:
                if others or buf is FILE or any(not is_str(o[2] or NONE) for o in []):
                    continue
                rep.bad(rid, f"dump:{kind}:nothing", run.loc, f"nothing is written to a {kind} destination")
                continue
            if len(ws) > 1:
                both = And([x for _e, g, _c in ws for x in lits_of(g)])
                if both is not FALSE:
                    rep.dunno(rid, what, ws[1][0].loc, "several writes")
                    continue
            judge(rep, rid, falsifier(Or([g for _e, g, _c in ws])), what + ": always written", ws[0][0].loc,
                  f"nothing is written to a {kind} destination on some path", f"dump:{kind}:conditional")
            for e, g, c in ws:
                if c.op == "copied":
                    sk = [x for x in run.events if x.kind == "call" and x.fn.op == "attr" and x.fn.a[1] == "seek" and
                          I.freeze(x.fn.a[0]) is buf and x.seq < e.seq]
                    if c.a[0] is buf and sk:
                        rep.ok(rid, what + ": buffer copied", e.loc)
                    elif c.a[0] is buf:
                        rep.bad(rid, f"dump:{kind}:position", e.loc, "the buffer is copied from its end")
                    else:
                        rep.dunno(rid, what, e.loc, show(c)[:80])
                    continue
                w = whole(c, buf)
                if w is True:
                    rep.ok(rid, what + ": whole buffer", e.loc)
                elif w is False:
                    rep.bad(rid, f"dump:{kind}:part", e.loc, f"dump writes {show(c)[:80]} to a {kind}")
                else:
                    rep.dunno(rid, what, e.loc, "content not modelled: " + show(c)[:80])


def raw_buffer(t):
    """the value is a view or the buffer object, not bytes"""
    if t.op == "call" and t.a[0].op == "attr":
        return t.a[0].a[1] in ("getbuffer", "toreadonly", "cast")
    if is_call(t, "builtins.bytes"):
        return False
    return is_call(t, "io.BytesIO", "builtins.memoryview", "builtins.bytearray")


def raised_otherwise(run, l):
    """a condition that only excludes refused settings"""
    return any(e.kind == "raise" and any(contains(t, COMP) or contains(t, LEVEL) for t, _p in e.guard)
               for e in run.events)


def callee_name(e):
    f = e.fn
    if isinstance(f, T):
        if f.op == "ext":
            return f.a[0]
        if f.op == "attr":
            return str(f.a[1])
        return f.op
    return e.kind


META = ("__class__", "__module__", "__loader__")


def rule_node_fields(rep, M, prefix):
    rid = prefix + ".node-fields"
    rep.rule(rid, "every state a registered writer returns carries __class__, __module__ and __loader__ on every path, "
                  "the loader being a constant registered for the current protocol; get_state adds __id__ to each")
    reg = {(k, p) for g, k, p, c in M.regs}
    proto = cval(M.io.protocol)
    for t in get_trips(M):
        label = f"{tname(t.typ)} ({t.qual.rsplit('.', 1)[-1]})"
        if t.state is None:
            if t.refused is not TRUE:
                rep.dunno(rid, label, t.loc, "no state found")
            continue
        d = dict_items(t.state)
        if d is None:
            flat = [i for i in t.state.a if i.op in ("kv",)] if t.state.op.split(":")[0] == "dict" else []
            d = [(TRUE, i.a[0], i.a[1]) for i in flat]
            partial = True
        else:
            partial = False
        for k in META:
            gs = [(g, v) for g, kk, v in d if is_str(kk) and cval(kk) == k]
            if not gs:
                if partial:
                    rep.dunno(rid, f"{label} {k}", t.loc, "state not modelled")
                else:
                    rep.bad(rid, f"{t.qual}:{k}", t.loc, f"the state of {label} lacks {k}")
                continue
            cover = Or([g for g, v in gs] + [Not(t.path), t.refused])
            judge(rep, rid, falsifier(cover), f"{label} {k}", t.loc, f"{k} is not always set in the state of {label}",
                  f"{t.qual}:{k}")
            if k == "__loader__":
                for g, v in gs[-1:]:
                    if not is_str(v):
                        rep.dunno(rid, f"{label} loader", t.loc, show(v)[:60])
                    elif (cval(v), proto) not in reg:
                        rep.bad(rid, f"{t.qual}:loader", t.loc,
                                f"{label} names loader {cval(v)!r}, not registered for protocol {proto}")
                    else:
                        rep.ok(rid, f"{label} loader {cval(v)}", t.loc)
            for g, v in gs:
                if v is NONE or (is_const(v) and not is_str(v)):
                    rep.bad(rid, f"{t.qual}:{k}:value", t.loc, f"{k} of {label} is {show(v)}")
    gs = get_state_run(M)
    ids = id_sets(M, gs)
    v = gs.value
    its = state_items(v) if isinstance(v, T) else None
    fields = [(TRUE if not i[0] else i[0], i[2]) for i in (its or []) if is_str(i[1]) and cval(i[1]) == "__id__"]
    if not ids and not fields:
        if isinstance(v, T) and opaque(v):
            rep.dunno(rid, "get_state __id__", gs.loc, "result not modelled")
        else:
            rep.bad(rid, "get_state:__id__", gs.loc, "get_state does not put __id__ into the state")
    else:
        g = Or([g for g, _v, _l in ids] + [f[0] for f in fields] +
               [And(list(e.guard)) for e in gs.events if e.kind == "raise"])
        judge(rep, rid, falsifier(g), "get_state __id__", gs.loc, "__id__ is not always set", "get_state:__id__")


class GS:
    pass


def id_sets(M, gs):
    """[(guard, value, loc)] of the places where get_state sets __id__ on the state of the dispatch"""
    I = M.I
    out = []
    for e in gs.events:
        if e.kind == "setitem" and is_str(I.freeze(e.args[0])) and cval(I.freeze(e.args[0])) == "__id__":
            out.append((And(list(e.guard)), I.freeze(e.args[1]), e.loc))
        elif e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] in ("update", "setdefault", "__setitem__"):
            if not any(x.op in ("rawstate", "stateof") for x in subterms(I.freeze(e.fn.a[0]))):
                continue
            if e.fn.a[1] != "update":
                k = I.freeze(e.args[0])
                if is_str(k) and cval(k) == "__id__" and len(e.args) > 1:
                    out.append((And(list(e.guard)), I.freeze(e.args[1]), e.loc))
                continue
            for k, v in e.kw:
                if k == "__id__":
                    out.append((And(list(e.guard)), I.freeze(v), e.loc))
            for a in e.args:
                for g, k, v in (dict_items(I.freeze(a)) or []):
                    if is_str(k) and cval(k) == "__id__":
                        out.append((And(lits_of(g) + list(e.guard)), v, e.loc))
    return out


def state_items(v):
    """what get_state itself puts into the dict it returns: [(guard, key, value)] or None"""
    if v.op == "ite":
        out = []
        for pol, br in ((True, v.a[1]), (False, v.a[2])):
            out += [(And([(v.a[0], pol)] + lits_of(g)), k, x) for g, k, x in state_items(br) or []]
        return out
    if v.op.split(":")[0] != "dict":
        return None
    out = []
    for i in v.a:
        if i.op == "kv":
            out.append((TRUE, i.a[0], i.a[1]))
        elif i.op == "ent" and i.a[1] == "set":
            out.append((i.a[0], i.a[2], i.a[3]))
        elif i.op == "ent" and i.a[1] == "update" and i.a[3].op == "rawstate":
            pass            # the state of the dispatch, which has no __id__ of its own
        else:
            return None
    return out


def get_state_run(M):
    """get_state itself, with the dispatch as a boundary"""
    if hasattr(M, "_gs_run"):
        return M._gs_run
    I = M.I
    I.reset_control()
    I.symattrs = {}
    q = M.io.fn_qual(U, "get_state")
    ic = I.intercepts.pop(q)
    n0 = len(I.events)
    f = I.get_global(U, "get_state")
    I.enter(U)
    try:
        ref = I.call(f, [OBJ, SC], {}, None)
    finally:
        I.frames.pop()
        I.intercepts[q] = ic
    r = GS()
    r.ref, r.value, r.events = ref, I.freeze(ref), I.events[n0:]
    r.fn = [x for x in I._alts(f) if x.op == "fn"]
    r.loc = (I.fns[r.fn[0].a[1]].module.file, I.fns[r.fn[0].a[1]].node.lineno) if r.fn else (U, 0)
    M._gs_run = r
    return r


UUIDS = ("uuid.uuid4", "uuid.uuid1")


def name_parts(t):
    """member name -> parts"""
    if t.op == "concat":
        return [p for x in t.a for p in (name_parts(x) if isinstance(x, T) else [])] if not \
            (len(t.a) == 1 and isinstance(t.a[0], tuple)) else [p for x in t.a[0] for p in name_parts(x)]
    if t.op == "str" and isinstance(t.a[0], T):
        return name_parts(t.a[0])
    return [t]


def part_kind(p):
    """'const' | ('id', x) | 'uuid' | None"""
    if is_const(p):
        return "const"
    if is_call(p, "builtins.id") and p.a[1]:
        return ("id", p.a[1][0])
    if is_call(p, *UUIDS):
        return "uuid"
    if p.op == "attr" and p.a[1] in ("hex", "int") and is_call(p.a[0], *UUIDS):
        return "uuid"
    if is_call(p, "builtins.hex", "builtins.format", "builtins.abs") and p.a[1]:
        return part_kind(p.a[1][0])
    return None


def derived(p):
    """a property read off the object (attributes, items, its type, a checksum), which does not identify it"""
    while True:
        if p.op in ("attr", "item", "typeof", "str", "repr", "len", "fmt") and isinstance(p.a[0], T):
            p = p.a[0]
        elif is_call(p, "zlib.crc32", "zlib.adler32", "binascii.crc32", "builtins.hash", "builtins.hex", "builtins.format",
                     "builtins.abs", "builtins.len", "builtins.int", "builtins.bytes", "builtins.memoryview") and p.a[1]:
            p = p.a[1][0]
        elif p.op == "op" and p.a[0] in ("&", "%", ">>") and isinstance(p.a[1], T) and is_const(p.a[2]):
            p = p.a[1]
        else:
            return p is OBJ


def member_writes(M, t):
    """[(event, zip term, name term, data term, guard)] of a writer"""
    out = []
    I = M.I
    for e in t.wevents:
        if e.kind != "call" or e.fn.op != "attr":
            continue
        f, a, kw = fcall(e, M)
        if f.a[1] == "writestr" and contains(f.a[0], SC):
            nm = a[0] if a else kw.get("zinfo_or_arcname", NONE)
            if is_call(nm, "zipfile.ZipInfo") and nm.a[1]:
                nm = nm.a[1][0]
            out.append((e, f.a[0], nm, a[1] if len(a) > 1 else kw.get("data", NONE), And(list(e.guard))))
        elif f.a[1] in ("mkdir",) and contains(f.a[0], SC):
            out.append((e, f.a[0], None, None, And(list(e.guard))))
    return out


def is_listing(t, z):
    """namelist()/NameToInfo of the archive"""
    if meth(t, "namelist", "infolist") and t.a[0].a[0] is z:
        return True
    if t.op == "attr" and t.a[1] in ("NameToInfo", "filelist") and t.a[0] is z:
        return True
    if is_call(t, "builtins.set", "builtins.list", "builtins.tuple") and t.a[1]:
        return is_listing(t.a[1][0], z)
    if t.op.split(":")[0] in ("set", "list", "tuple") and len(t.a) == 1 and t.a[0].op == "ent":
        g, v = t.a[0].a[0], t.a[0].a[3]
        if v.op == "elem" and all(x.op == "each" and x.a[0] is v.a[0] and p for x, p in lits_of(g)):
            v = v.a[0]
        return is_listing(v, z)
    return False


def absent_before(g, name, z):
    """the guard tests that the member does not exist yet"""
    for x, p in lits_of(g):
        if not p and x.op == "in" and x.a[0] is name and is_listing(x.a[1], z):
            return x
    return None


def rule_members(rep, M, prefix):
    rid = prefix + ".member-names"
    rep.rule(rid, "members are added under flat, collision-free names (no directory separator, not schema.json; made of "
                  "the id of an object kept alive, or a fresh uuid), and never twice under one name")
    rid2 = prefix + ".member-refs"
    rep.rule(rid2, "whatever a writer adds to the archive, or lets nested values add, is referred to in the state it "
                   "returns, and whatever the reader reads from the archive was added by the writer")
    done = set()
    nwrites = 0
    for t in get_trips(M):
        short = t.qual.rsplit(".", 1)[-1]
        ws = member_writes(M, t)
        nwrites += len(ws)
        if t.state is None:
            continue
        for e, z, nm, data, g in ws:
            if nm is None:
                rep.bad(rid, f"{t.qual}:mkdir", e.loc, f"{short} adds a directory to the archive")
                continue
            # name
            whole_name = nm
            for ng, nm in leaves(whole_name):
                if (t.qual, e.loc, nm) in done or And(lits_of(ng) + lits_of(g)) is FALSE:
                    continue
                done.add((t.qual, e.loc, nm))
                parts = name_parts(nm)
                kinds = [part_kind(p) for p in parts]
                txt = "".join(str(cval(p)) for p, k in zip(parts, kinds) if k == "const")
                if any(c in txt for c in "/\\:") or txt.startswith("."):
                    if not (txt.startswith(".") and kinds and kinds[0] != "const"):
                        rep.bad(rid, f"{t.qual}:path", e.loc, f"member name {show(nm)[:80]} is not flat")
                        continue
                if all(k == "const" for k in kinds):
                    rep.bad(rid, f"{t.qual}:constant", e.loc,
                            f"every {tname(t.typ)} is stored under the same member name {txt!r}")
                    continue
                ids = [k[1] for k in kinds if isinstance(k, tuple)]
                if not ids and "uuid" not in kinds and all(k == "const" or derived(p) for p, k in zip(parts, kinds)):
                    rep.bad(rid, f"{t.qual}:shared", e.loc,
                            f"member name {show(nm)[:60]} is made of properties different objects can share")
                    continue
                if any(k is None for k in kinds):
                    rep.dunno(rid, f"{short} {show(nm)[:60]}", e.loc, "name not modelled")
                    continue
                if ids and not any(k == "uuid" for k in kinds):
                    if not absent_before(g, whole_name, z) and not absent_before(g, nm, z):
                        rep.bad(rid, f"{t.qual}:duplicate", e.loc,
                                f"{short} adds {show(nm)[:60]} again for every reference to the object")
                        continue
                rep.ok(rid, f"{short}: {show(nm)[:60]}", e.loc)
            nm = whole_name
            # referred to
            ab = absent_before(g, nm, z)
            both = And(lits_of(g) + lits_of(t.path) + [(t.refused, False)])
            if both is FALSE:
                continue
            names = [(gg, v) for gg, v in file_fields(t.state) if v is nm]
            if not names:
                if contains(t.state, nm):
                    rep.dunno(rid2, f"{short} refers to {show(nm)[:60]}", e.loc, "reference not modelled")
                elif opaque(t.state):
                    rep.dunno(rid2, f"{short} refers to {show(nm)[:60]}", e.loc, "state not modelled")
                else:
                    rep.bad(rid2, f"{t.qual}:orphan", e.loc, f"{short} adds a member its state does not refer to")
            else:
                need = Or([Not(both)] + [gg for gg, v in names])
                judge2(rep, rid2, smooth(need), f"{short} refers to its member", e.loc,
                      f"{short} adds a member its state does not always refer to", f"{t.qual}:orphan")
        # every file field was added
        for gg, v in file_fields(t.state):
            if not (v.op in ("concat", "str", "call") or is_str(v)):
                continue
            if is_str(v):
                continue
            cov = []
            for e, z, nm, data, g in ws:
                if nm is v:
                    ab = absent_before(g, nm, z)
                    cov.append(assign_bool(g, lambda y: False if y is ab else None) if ab is not None else g)
            need = Or(cov + [Not(And(lits_of(gg) + lits_of(t.path) + [(t.refused, False)]))])
            if not cov:
                if looks_member(v):
                    rep.bad(rid2, f"{t.qual}:dangling", t.loc, f"{short} refers to member {show(v)[:60]}, never added")
            else:
                judge2(rep, rid2, smooth(need), f"{short}: member added whenever referred to", t.loc,
                      f"{short} refers to a member that is not always added", f"{t.qual}:dangling")
        # what the reader reads
        for nm, gd, loc in reader_reads(M, t):
            if nm is None or not any(x is nm for _e, _z, x, _d, _g in ws):
                if nm is None or opaque(nm) or nm.op in ("item", "elem"):
                    continue
                rep.bad(rid2, f"{t.qual}:read", loc, f"the reader of {tname(t.typ)} reads {show(nm)[:60]}, which "
                                                     f"{short} does not add")
            else:
                rep.ok(rid2, f"{short}: member read back", loc)
        # nested states
        for e in t.wevents:
            if e.kind != "get_state":
                continue
            res = M.I.freeze(e.res)
            g = And(list(e.guard) + lits_of(t.path) + [(t.refused, False)])
            if g is FALSE or not possible(g):
                continue
            if state_uses(t, res):
                rep.ok(rid2, f"{short}: nested state kept", e.loc)
            elif any(x.op in ("unk", "again", "while", "rec", "unbound") for x in subterms(t.state)):
                rep.dunno(rid2, f"{short}: nested state", e.loc, "state not modelled")
            elif other_leaf(M, t, res):
                rep.ok(rid2, f"{short}: nested state kept on another path", e.loc)
            else:
                rep.bad(rid2, f"{t.qual}:dropped", e.loc,
                        f"{short} takes the state of {show(e.args[0])[:60]} but does not put it into its state: members "
                        "added for it are not referred to")
    if not nwrites:
        raise AnalysisBroken("no writer adds archive members")


def smooth(need):
    """falsifier, preferably one on which nothing failed"""
    fz = falsifier(assign_bool(need, lambda y: False if y.op == "exc" else None))
    if fz is not None and fz != "cap" and not any(opaque(x) for x, _ in fz):
        return fz
    return falsifier(need)


def judge2(rep, rid, fz, what, where, msg, key):
    """conditions on the dumped object count, whatever they are"""
    if fz is None:
        rep.ok(rid, what, where)
    elif fz == "cap" or any(opaque(x) for x, _ in fz):
        rep.dunno(rid, what, where, "guard not modelled")
    else:
        rep.bad(rid, key, where, msg + (f" (when {show_guard(fz)[:120]})" if fz else ""))


def state_uses(t, res):
    return contains(t.state, res)


def other_leaf(M, t, res):
    """the guard of the state decides; another outcome of the same writer holds it"""
    return any(x.qual == t.qual and x.typ is t.typ and x.state is not None and contains(x.state, res)
               for x in get_trips(M) if x is not t)


def possible(g):
    fz = falsifier(Not(g))
    return fz is not None


def looks_member(v):
    ks = [part_kind(p) for p in name_parts(v)]
    return any(k == "uuid" or isinstance(k, tuple) for k in ks) and any(k == "const" for k in ks)


def file_fields(state, g=TRUE, depth=0):
    """[(guard, value)] of all values in the state (nested dicts included)"""
    out = []
    if depth > 4 or not isinstance(state, T):
        return out
    its = dict_items(state)
    if its is None and state.op.split(":")[0] == "dict":
        its = [(TRUE, i.a[0], i.a[1]) for i in state.a if i.op == "kv"]
    # a later entry under the same key replaces an earlier one
    for gg, k, v in its or []:
        gx = And(lits_of(g) + lits_of(gg))
        for g3, leaf in leaves(v):
            g4 = And(lits_of(gx) + lits_of(g3))
            if g4 is FALSE:
                continue
            out.append((g4, leaf))
            if leaf.op.split(":")[0] == "dict":
                out += file_fields(leaf, g4, depth + 1)
    return out


def reader_reads(M, t):
    """member names the reader asks the archive for"""
    out = []
    for e in getattr(t, "revents", None) or []:
        if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == "read" and e.args and \
                M.I.freeze(e.fn.a[0]) is mk("attr", LC, "src"):
            out.append((t.norm(M.I.freeze(e.args[0])), And(list(e.guard)), e.loc))
    return out


# ------------------------------------------------------------------ C06
def rule_pinning(rep, M, prefix):
    rid = prefix + ".pinned"
    rep.rule(rid, "get_state keeps every object it is given alive for the rest of the dump (in the context's memo) before "
                  "it dispatches, identifies it by id() of that same object, and nothing drops the memo before the "
                  "whole state has been taken")
    I = M.I
    gs = get_state_run(M)
    # memoisation
    sets = [e for e in gs.events if e.kind == "setitem" and isinstance(e.fn, T) and
            M.I.freeze(e.fn) is mk("attr", SC, "memo")]
    pins = []
    for e in sets:
        k, v = I.freeze(e.args[0]), I.freeze(e.args[1])
        if k is not ID_OBJ:
            rep.bad(rid, "memo:key", e.loc, f"the memo is keyed by {show(k)[:60]}, not by the id of the object")
        elif v is not OBJ:
            rep.bad(rid, "memo:value", e.loc, f"the memo keeps {show(v)[:60]} alive, not the object")
        else:
            pins.append(e)
    pins += [e for e in gs.events if e.kind == "call" and e.fn.op == "attr" and
             e.fn.a[1] in ("append", "add", "setdefault") and contains(M.I.freeze(e.fn.a[0]), SC) and
             any(I.freeze(a) is OBJ for a in e.args)]
    disp = [e for e in gs.events if e.kind == "_get_state"]
    if not pins:
        if sets:
            return
        if any(opaque(M.I.freeze(a)) for e in gs.events if e.kind == "call" for a in e.args if isinstance(a, T)):
            rep.dunno(rid, "get_state", gs.loc, "no memo entry found")
        else:
            rep.bad(rid, "memo:missing", gs.loc, "get_state does not keep the object alive: its id can be reused by a "
                                                 "later temporary")
    else:
        def already(y):
            """the object is in the memo already: keyed by its id"""
            if y.op == "in" and y.a[0] is ID_OBJ and contains(y.a[1], SC):
                return True
            return None
        for what, lst in (("before dispatching", disp),):
            for d in lst:
                gp = Or([And(list(p.guard)) for p in pins if p.seq < d.seq] +
                        [And([(mk("in", ID_OBJ, mk("attr", SC, "memo")), True)])])
                need = Or([gp, Not(And(list(d.guard)))])
                judge(rep, rid, falsifier(need), "get_state pins the object " + what, d.loc,
                      "the object is not kept alive on every path before its state is taken", "memo:conditional")
    for e in gs.events:
        if e.kind in ("delitem",) and contains(M.I.freeze(e.fn), SC):
            rep.bad(rid, "memo:drop", e.loc, "get_state removes an entry of the memo again")
        if e.kind in ("call", "mut") and drops(e, M):
            rep.bad(rid, "memo:drop", e.loc, "get_state drops memo entries while the dump is running")
    # the id written
    ids = id_sets(M, gs)
    vals = [(v, l) for _g, v, l in ids]
    its = state_items(gs.value) if isinstance(gs.value, T) else None
    vals += [(v, gs.loc) for g, k, v in (its or []) if is_str(k) and cval(k) == "__id__"]
    if not vals:
        rep.bad(rid, "id:missing", gs.loc, "the state gets no __id__: shared objects are loaded as separate ones")
    if vals:
        cov = Or([g for g, _v, _l in ids] + [g for g, k, v in (its or []) if is_str(k) and cval(k) == "__id__"] +
                 [And(list(e.guard)) for e in gs.events if e.kind == "raise"])
        judge(rep, rid, falsifier(cov), "every state gets an __id__", vals[0][1],
              "not every state gets an __id__: shared objects are loaded as separate ones", "id:conditional")
    for v, loc in vals:
        for g, leaf in leaves(v):
            if leaf is ID_OBJ:
                rep.ok(rid, "__id__ is the id of the object", loc)
            elif opaque(leaf):
                rep.dunno(rid, "__id__", loc, show(leaf)[:60])
            else:
                rep.bad(rid, "id:value", loc, f"__id__ is {show(leaf)[:60]}, not the id of the object")
    # memo lifetime in the writers and in dump
    for t in get_trips(M):
        for e in t.wevents:
            if (e.kind in ("delitem", "delattr") and contains(I.freeze(e.fn), SC)) or drops(e, M):
                rep.bad(rid, f"{t.qual}:drop", e.loc, f"{t.qual} drops memo entries while the dump is running")
            if e.kind == "setitem" and isinstance(e.fn, T) and I.freeze(e.fn) is mk("attr", SC, "memo"):
                k, v = I.freeze(e.args[0]), I.freeze(e.args[1])
                if is_call(k, "builtins.id") and k.a[1] and k.a[1][0] is v:
                    rep.ok(rid, f"{t.qual.rsplit('.', 1)[-1]} pins {show(v)[:40]}", e.loc)
                elif opaque(k) or opaque(v):
                    rep.dunno(rid, t.qual, e.loc, "memo entry not modelled")
                else:
                    rep.bad(rid, f"{t.qual}:memo", e.loc, f"{t.qual} registers {show(v)[:50]} under {show(k)[:50]}")
    for run in dump_runs(M):
        gsev = [e for e in run.events if e.kind == "get_state"]
        if not gsev:
            rep.dunno(rid, run.func, run.loc, "get_state is not called")
            continue
        last = max(e.seq for e in gsev)
        first = min(e.seq for e in gsev)
        news = [e for e in run.events if e.kind == "new" and "SaveContext" in show(I.freeze(e.fn))]
        if not news:
            rep.dunno(rid, run.func, run.loc, "no SaveContext is created")
        elif not any(e.seq < first for e in news):
            rep.bad(rid, f"{run.func}:context", run.loc, "the save context is not created by the call")
        else:
            rep.ok(rid, f"{run.func} creates its own save context", news[0].loc)
        for e in run.events:
            if e.kind == "mut" and e.x in ("clear", "pop", "popitem") and e.seq < last and e.seq > first and \
                    "memo" in str(e.loc):
                rep.bad(rid, f"{run.func}:drop", e.loc, "memo cleared too early")


def drops(e, M):
    if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] in ("clear", "pop", "popitem"):
        b = M.I.freeze(e.fn.a[0])
        return b is mk("attr", SC, "memo")
    if e.kind == "mut" and e.x in ("clear", "pop", "popitem") and isinstance(e.fn, T):
        return M.I.freeze(e.fn) is mk("attr", SC, "memo")
    return False


def rule_ids(rep, M, prefix):
    rid = prefix + ".ids"
    rep.rule(rid, "every id() a writer puts into the archive (member names, keys) is the id of an object that is kept "
                  "alive: the dumped object itself or one handed to memoize/get_state before")
    rid2 = prefix + ".stored-once"
    rep.rule(rid2, "arrays and sparse matrices are stored under a name derived only from their identity, and only if the "
                   "archive has no such member yet")
    I = M.I
    seen = set()
    stored = 0
    for t in get_trips(M):
        short = t.qual.rsplit(".", 1)[-1]
        pinned = {OBJ}
        for e in t.wevents:
            if e.kind == "get_state":
                pinned.add(I.freeze(e.args[0]))
            if e.kind == "setitem" and isinstance(e.fn, T) and I.freeze(e.fn) is mk("attr", SC, "memo"):
                pinned.add(I.freeze(e.args[1]))
        terms = [t.state] if t.state is not None else []
        terms += [nm for e, z, nm, d, g in member_writes(M, t) if nm is not None]
        for x in terms:
            for y in subterms(x):
                if is_call(y, "builtins.id") and y.a[1] and (t.qual, y) not in seen:
                    seen.add((t.qual, y))
                    o = y.a[1][0]
                    if o in pinned or stable(o):
                        rep.ok(rid, f"{short}: id of {show(o)[:40]}", t.loc)
                    elif opaque(o):
                        rep.dunno(rid, f"{short}: id of {show(o)[:40]}", t.loc, "object not modelled")
                    else:
                        rep.bad(rid, f"{t.qual}:ephemeral", t.loc,
                                f"{short} uses the id of {show(o)[:60]}, a temporary nothing keeps alive: the id can be "
                                "reused within the dump")
        tn = tname(t.typ)
        if tn in ("numpy.ndarray", "scipy.sparse.spmatrix", "numpy.generic", "scipy.sparse.sparray"):
            for e, z, nm, d, g in member_writes(M, t):
                if nm is None or (t.qual, e.loc) in seen:
                    continue
                seen.add((t.qual, e.loc))
                stored += 1
                kinds = [part_kind(p) for p in name_parts(nm)]
                if "uuid" in kinds:
                    rep.bad(rid2, f"{t.qual}:uuid", e.loc, f"{short} stores the object under a new name for each reference")
                elif not any(isinstance(k, tuple) for k in kinds):
                    if any(k is None and not derived(p) for p, k in zip(name_parts(nm), kinds)):
                        rep.dunno(rid2, short, e.loc, "name not modelled")
                    else:
                        rep.bad(rid2, f"{t.qual}:name", e.loc, f"{short} stores different objects under one name")
                elif [k[1] for k in kinds if isinstance(k, tuple)] != [OBJ]:
                    o = [k[1] for k in kinds if isinstance(k, tuple)]
                    rep.check(rid2, None if any(opaque(x) for x in o) else False, short, e.loc,
                              f"{short} names the member after {show(o[0])[:60]}, not after the object", f"{t.qual}:name")
                elif not absent_before(g, nm, z):
                    rep.bad(rid2, f"{t.qual}:twice", e.loc, f"{short} stores the object again for each reference")
                else:
                    rest = residual(g, lambda x, p: x.op == "in" and x.a[0] is nm)
                    rep.ok(rid2, f"{short} stores once under its id", e.loc)
    if not stored:
        rep.dunno(rid2, "arrays and sparse matrices", None, "no member writes found")


def stable(o):
    """part of the dumped object that lives as long as it does and is one object per access"""
    if o.op in ("ext", "cls", "fn", "const"):
        return True
    if o.op == "elem" and o.a[0] is OBJ:
        return True
    return o.op == "item" and o.a[0] is OBJ


def rule_share_load(rep, M, prefix):
    rid = prefix + ".load-memo"
    rep.rule(rid, "loading keeps one node per saved __id__: every node registers itself under its own __id__ before its "
                  "children are built, get_tree returns that node when the id repeats, and construct() builds once")
    I = M.I
    SID = mk("item", STATE, const("__id__"))
    for n in M.nodes:
        if n.name == "CachedNode" or "CachedNode" in [k for k, _p in n.kinds]:
            continue
        what = n.label
        evs = n.init_events
        regs = []
        for e in evs:
            if e.kind == "setitem" and isinstance(e.fn, T):
                b = I.freeze(e.fn)
                if b is mk("attr", LC, "memo"):
                    regs.append((e, I.freeze(e.args[0]), e.args[1]))
            elif e.kind == "call" and e.fn.op == "attr" and I.freeze(e.fn.a[0]) is LC and e.fn.a[1] == "memoize":
                regs.append((e, I.freeze(e.args[1]), e.args[0]))
        own = [(e, k, v) for e, k, v in regs if isinstance(v, T) and v is n.ref]
        if not own:
            if regs:
                rep.bad(rid, f"{n.qual}:register", regs[0][0].loc,
                        f"{n.label} registers something else than itself")
            else:
                rep.bad(rid, f"{n.qual}:register", n.loc,
                        f"{n.label} does not register itself in the load context: a second reference loads a copy")
            continue
        bad = False
        for e, k, v in own:
            kk = [l for g, l in leaves(assign(k, has_id))]
            if not all(is_sid(x) for x in kk):
                bad = True
                if any(opaque(x) for x in kk):
                    rep.dunno(rid, what, e.loc, "key " + show(k)[:60])
                else:
                    rep.bad(rid, f"{n.qual}:key", e.loc, f"{n.label} registers itself under {show(k)[:60]}")
        if bad:
            continue
        cov = Or([And(list(e.guard)) for e, k, v in own])
        cov = assign_bool(cov, has_id)
        fz = falsifier(cov)
        if isinstance(fz, list) and not all(structural(a) for a, _p in fz) and mutable_written(M, n, fz):
            rep.bad(rid, f"{n.qual}:conditional", own[0][0].loc,
                    f"{n.label} does not always register itself under its __id__: not when {show_guard(fz)[:200]}, "
                    "as is written for an empty object")
        else:
            judge(rep, rid, fz, f"{what} registers itself under its __id__", own[0][0].loc,
                  f"{n.label} does not always register itself under its __id__", f"{n.qual}:conditional")
        firstchild = [e.seq for e in evs if e.kind == "get_tree"]
        rule_cached(rep, M, n, rid)
    # get_tree: memo hit
    for hit in (True, False):
        r = tree_run(M, "ListNode", cval(M.io.protocol), hit)
        if r is None:
            rep.dunno(rid, "get_tree", None, "get_tree not modelled")
            break
        built = [e for e in r.events if e.kind == "new" and e.fn.op == "cls" and
                 any(e.fn is n.cls for n in M.nodes) and aguard(e.guard, common) is not FALSE]
        vals = [l for g, l in leaves(assign(r.ref, common))]
        if hit:
            if built:
                rep.bad(rid, "get_tree:miss", r.loc, "get_tree builds a new node although the __id__ is known")
            elif vals and all(v is r.marker for v in vals):
                rep.ok(rid, "get_tree returns the registered node for a known __id__", r.loc)
            else:
                rep.dunno(rid, "get_tree", r.loc, "result for a known id not modelled: " + show(r.ref)[:80])
        else:
            if r.marker in vals:
                rep.bad(rid, "get_tree:alias", r.loc, "get_tree returns another node for an __id__ it has not seen")
            elif built:
                rep.ok(rid, "get_tree builds a node for a new __id__", r.loc)
            else:
                rep.dunno(rid, "get_tree", r.loc, "result for a new id not modelled: " + show(r.ref)[:80])
    # load contexts are per call
    for fn, args in (("load", [FILE]), ("loads", [mk("sym", "data")])):
        run = Run(M, fn, args, {"trusted": TRUSTED})
        news = [e for e in run.events if e.kind == "new" and "LoadContext" in show(I.freeze(e.fn))]
        gts = [e for e in run.events if e.kind == "get_tree"]
        if gts and news and all(any(nw.seq < g.seq for nw in news) for g in gts):
            rep.ok(rid, f"{fn} uses its own load context", news[0].loc)
        elif gts and not news:
            rep.dunno(rid, fn, run.loc, "no load context created")


def is_sid(t):
    if t is mk("item", STATE, const("__id__")):
        return True
    if meth(t, "get") and t.a[0].a[0] is STATE and t.a[1] and is_str(t.a[1][0]) and cval(t.a[1][0]) == "__id__":
        return True
    return False


def has_id(t):
    if is_sid(t):
        return True
    if t.op == "in" and is_str(t.a[0]) and cval(t.a[0]) == "__id__":
        return True
    if t.op == "is" and NONE in t.a and any(is_sid(x) for x in t.a):
        return False
    if t.op == "isinstance" and is_sid(t.a[0]):
        return True if t.a[1].op == "ext" and t.a[1].a[0] == "builtins.int" else None
    # a fresh id is not in the memo
    if t.op == "in" and is_sid(t.a[0]):
        return False
    return None


IMMUTABLE_TYPES = {"builtins.tuple", "builtins.bytes", "builtins.str", "builtins.slice", "builtins.frozenset",
                   "numpy.generic", "numpy.bytes_", "numpy.dtype", "builtins.type", "types.FunctionType"}


def mutable_written(M, n, fz):
    """is there a dump of a mutable object, handled by this node, whose state satisfies the conditions?  Only presence and
    emptiness of the stored values are judged"""
    for t in get_trips(M):
        if t.cls is not n.cls or t.state is None or tname(t.typ) in IMMUTABLE_TYPES:
            continue
        di = dict_items(t.state_n)
        if di is None:
            continue
        saved = {}
        for g, k, v in di:
            if is_str(k):
                saved.setdefault(cval(k), []).append((g, v))
        if all(attainable(a, p, saved) for a, p in fz):
            return True
    return False


def attainable(a, p, saved):
    if a.op == "in" and a.a[1] is STATE and is_str(a.a[0]):
        alts = saved.get(cval(a.a[0]), [])
        always = any(g is TRUE for g, _v in alts)
        return always if p else not alts
    if a.op in ("not",):
        return attainable(a.a[0], not p, saved)
    x = a.a[0] if a.op in ("len", "nonempty") else a
    if x.op == "item" and x.a[0] is STATE and is_str(x.a[1]):
        alts = saved.get(cval(x.a[1]), [])
        return len(alts) == 1 and alts[0][0] is TRUE and varied(alts[0][1])
    return False


def varied(v):
    """a container with one entry per item of the object: it may be empty or not"""
    if v.op not in ("list", "tuple", "dict", "set"):
        return False
    ents = [x for x in v.a if isinstance(x, T) and x.op == "ent"]
    if not ents:
        ents = [x for y in v.a if isinstance(y, tuple) for x in y if isinstance(x, T) and x.op == "ent"]
    return bool(ents) and all(any(t.op == "each" and p for t, p in lits_of(e.a[0])) for e in ents)


def rule_cached(rep, M, n, rid):
    """construct() twice with _construct replaced by a marker"""
    I = M.I
    what = f"{n.label}.construct"
    ref, _ev = M.io.build(n.cls)
    m = I.get_attr(ref, "_construct")
    fns = [x for x in I._alts(m) if x.op == "bound"]
    qual = None
    for x in fns:
        for y in x.a:
            if isinstance(y, T) and y.op == "fn":
                qual = I.fns[y.a[1]].qual
    if qual is None:
        rep.dunno(rid, what, n.loc, "_construct not found")
        return
    built = []

    def h(I_, args, kw, node):
        v = mk("sym", f"built{len(built)}")
        built.append(v)
        I_.event("built", mk("ext", "@built"), (), (), node, res=v)
        return v
    old = I.intercepts.get(qual)
    I.intercepts[qual] = h
    try:
        I.reset_control()
        v1, ev1 = M.io.invoke(ref, "construct")
        v1 = I.freeze(v1)
        v2, ev2 = M.io.invoke(ref, "construct")
        v2 = I.freeze(v2)
    finally:
        if old is None:
            del I.intercepts[qual]
        else:
            I.intercepts[qual] = old

    def f(t):
        if t.op == "is" and any(x.op == "sym" and str(x.a[0]).startswith("built") for x in t.a) and \
                any(x.op in ("cls", "const", "ext") for x in t.a):
            return False
        return None
    if not any(e.kind == "built" for e in ev1):
        calls2 = [e for e in ev2 if e.kind in ("call", "new", "construct")]
        if not calls2:
            rep.ok(rid, what + " is cached", n.loc)
        else:
            rep.dunno(rid, what, n.loc, "construct() does not use _construct()")
        return
    again = [e for e in ev2 if e.kind == "built" and aguard(e.guard, f) is not FALSE]
    r2 = assign(v2, f)
    if not again and r2 is assign(v1, f):
        rep.ok(rid, what + " is cached", n.loc)
    elif again:
        fz = falsifier(Not(aguard(again[0].guard, f)))
        if fz is None:
            rep.ok(rid, what + " is cached", n.loc)
        else:
            rep.bad(rid, f"{n.qual}:cache", again[0].loc,
                    f"construct() of {n.label} builds the object again when it is called a second time"
                    + (f" ({show_guard(fz)[:100]})" if fz != "cap" and fz else "")
                    + ": two references load as two objects")
    elif opaque(r2):
        rep.dunno(rid, what, n.loc, show(r2)[:80])
    else:
        rep.bad(rid, f"{n.qual}:cache", n.loc, f"a second construct() of {n.label} yields {show(r2)[:60]}")


class TreeRun:
    pass


def tree_run(M, kind, proto, known=False, extra=None, state=None, lc_proto=None):
    """get_tree on a concrete dict state of the given kind under the given archive protocol"""
    I = M.I
    I.reset_control()
    I.symattrs = {}
    q = M.io.fn_qual(A, "get_tree")
    f = I.get_global(A, "get_tree")
    sid = const(77)
    if state is None:
        items = {"__loader__": const(kind), "__id__": sid, "__class__": mk("sym", "aclass"), "__module__": mk("sym", "amodule")}
        items.update(extra or {})
        state = I.call(mk("ext", "builtins.dict"), [], items, None)
    marker = mk("node", mk("sym", "earlier"), NONE)
    other = mk("node", mk("sym", "another"), NONE)
    lc = I.call(M.io.lc_cls, [], {"src": mk("sym", "zip"), "protocol": const(proto)}, None)
    memo = I.get_attr(lc, "memo")
    I.set_item(memo, const(13), other, None)
    if known:
        I.set_item(memo, sid, marker, None)
    ic = I.intercepts.get(q)
    first = [True]

    def outer(I_, args, kw, node):
        # the outermost call runs the real function, nested ones stay boundaries
        if first[0]:
            first[0] = False
            return NotImplemented
        return ic(I_, args, kw, node)
    if ic is not None:
        I.intercepts[q] = outer
    r = TreeRun()
    n0 = len(I.events)
    I.enter(A)
    try:
        fn = [x for x in I._alts(f) if x.op == "fn"]
        r.loc = (I.fns[fn[0].a[1]].module.file, I.fns[fn[0].a[1]].node.lineno) if fn else (A, 0)
        r.ref = I.call(f, [state, lc, TRUSTED], {}, None)
    finally:
        I.frames.pop()
        if ic is not None:
            I.intercepts[q] = ic
    r.events = I.events[n0:]
    r.marker = marker if known else other
    r.state, r.lc = state, lc
    return r


COPIES = ("copy.deepcopy", "copy.copy")


def rule_no_copy(rep, M, prefix):
    rid = prefix + ".no-copies"
    rep.rule(rid, "no writer takes the state of a copy of a sub-object and no reader copies a constructed child: the "
                  "objects whose states are taken are the sub-objects themselves")
    I = M.I
    for t in get_trips(M):
        short = t.qual.rsplit(".", 1)[-1]
        bad = False
        for e in t.wevents:
            if e.kind != "get_state":
                continue
            x = I.freeze(e.args[0])
            g = And(list(e.guard) + [(t.refused, False)])
            if g is FALSE:
                continue
            for g2, leaf in leaves(x):
                c = copy_of(leaf)
                if c is not None:
                    bad = True
                    rep.bad(rid, f"{t.qual}:copy", e.loc,
                            f"{short} takes the state of a copy ({show(leaf)[:60]}): two references to the value load as "
                            "two objects")
        if not bad:
            rep.ok(rid, f"{short} ({tname(t.typ)})", t.loc)
        if t.value is None:
            continue
        for x in subterms(t.value):
            if is_call(x, *COPIES):
                rep.bad(rid, f"{t.qual}:reader-copy", t.cls_loc, f"the reader of {tname(t.typ)} copies {show(x)[:60]}")
                break
    for n in M.nodes:
        bad = False
        for x in subterms(n.value):
            if (is_call(x, *COPIES) or meth(x, "copy")) and any(y.op == "cons" for y in subterms(x)):
                if is_call(x, *COPIES) and any(y.op == "cons" for y in subterms(x.a[1][0])):
                    bad = x
                elif meth(x, "copy") and x.a[0].a[0].op == "cons":
                    bad = x
        if bad:
            rep.bad(rid, f"{n.qual}:reader-copy", n.loc, f"{n.label} hands out a copy of a constructed child")
        else:
            rep.ok(rid, f"{n.label} does not copy children", n.loc)


def copy_of(t):
    """t is a copy of a sub-object: what is copied"""
    if is_call(t, *COPIES) and t.a[1]:
        x = t.a[1][0]
        if x is OBJ:
            return None
        return x
    if meth(t, "copy") and not t.a[1]:
        x = t.a[0].a[0]
        if x is OBJ or (x.op == "call" and meth(x)):
            return None
        if x.op in ("elem", "item") or (x.op == "attr" and contains(x, OBJ)):
            return x
    return None


# ------------------------------------------------------------------ C08
def expected_class(M, kind, p):
    """the class registered for the smallest protocol not below p"""
    best = None
    for g, k, q, c in M.regs:
        if k == kind and isinstance(q, int) and q >= p and (best is None or q < best[0]):
            best = (q, c)
    return best


def node_news(M, r):
    cs = {n.cls for n in M.nodes} | {c for _g, _k, _p, c in M.regs}
    return [e for e in r.events if e.kind == "new" and e.fn in cs]


def rule_tree(rep, M, prefix):
    rid = prefix + ".tree"
    rep.rule(rid, "get_tree builds every node with the trusted list it was given and from the state it was given")
    done = set()
    I = M.I
    for g, k, p, c in M.regs:
        if not isinstance(k, str) or (k, p) in done:
            continue
        done.add((k, p))
        r = tree_run(M, k, cval(p) if isinstance(p, T) else p, extra={"content": mk("sym", "acontent")})
        what = f"{k} under protocol {p}"
        news = node_news(M, r)
        for e in news[:1]:
            kw = dict(e.kw)
            tr = kw.get("trusted", e.args[2] if len(e.args) > 2 else None)
            st = kw.get("state", e.args[0] if e.args else None)
            if tr is None or st is None:
                rep.dunno(rid, what, e.loc, "arguments not modelled")
                continue
            wrong = [x for _g, x in leaves(I.simp(tr)) if x is not TRUSTED and not (x.op == "call" and contains(x, TRUSTED))]
            if wrong and opaque(I.freeze(wrong[0])):
                rep.dunno(rid, what, e.loc, "trusted is " + show(wrong[0])[:60])
            elif wrong and not contains(I.freeze(wrong[0]), TRUSTED):
                rep.bad(rid, f"{k}:trusted", e.loc, f"get_tree builds {k} with trusted={show(I.freeze(wrong[0]))[:80]} instead of "
                                                    "the list it was given")
            elif wrong:
                rep.dunno(rid, what, e.loc, "trusted is " + show(wrong[0])[:60])
            elif st is not r.state:
                rep.dunno(rid, what, e.loc, "state is " + show(st)[:60])
            else:
                rep.ok(rid, what, e.loc)


def rule_dispatch(rep, M, prefix):
    rid = prefix + ".dispatch"
    rep.rule(rid, "for every registered node kind and every archive protocol 0..current, get_tree builds the class "
                  "registered for the smallest protocol not below the archive's")
    proto = cval(M.io.protocol)
    kinds = sorted({k for g, k, p, c in M.regs if isinstance(k, str)})
    for p in range(proto + 1):
        for k in kinds:
            want = expected_class(M, k, p)
            r = tree_run(M, k, p, extra={"content": mk("sym", "acontent")})
            news = node_news(M, r)
            what = f"{k} under protocol {p}"
            if want is None:
                rep.bad(rid, f"{k}@{p}", r.loc, f"no loader is registered for {what} or any later protocol")
                continue
            if not news:
                rs = [e for e in r.events if e.kind == "raise" and not e.guard]
                if rs:
                    rep.bad(rid, f"{k}@{p}", r.loc, f"get_tree raises for {what}; {want[1].a[0]} is registered")
                else:
                    rep.dunno(rid, what, r.loc, "no node is built")
                continue
            got = {e.fn for e in news[:1]}
            if len({e.fn for e in news if not e.guard}) == 1 or len(news) == 1:
                c = news[0].fn
                if c is want[1]:
                    rep.ok(rid, f"{what} -> {c.a[0] if c.op == 'cls' else show(c)}", r.loc)
                else:
                    rep.bad(rid, f"{k}@{p}", r.loc,
                            f"{what} is built by {show(c)}, but {show(want[1])} is registered for protocol {want[0]}")
            else:
                rep.dunno(rid, what, r.loc, "several classes possible")
    rid2 = prefix + ".unknown-kind"
    rep.rule(rid2, "a node kind nobody registered raises TypeError naming it, under every protocol")
    for p in range(proto + 2):
        r = tree_run(M, "@NoSuchNode@", p, extra={"content": mk("sym", "acontent")})
        rs = [e for e in r.events if e.kind == "raise" and not e.caught]
        what = f"unregistered kind under protocol {p}"
        if node_news(M, r):
            rep.bad(rid2, f"unknown@{p}", r.loc, f"{what}: {show(node_news(M, r)[0].fn)} is built")
            continue
        if not rs:
            rep.check(rid2, None if opaque(r.ref) and not is_const(r.ref) and r.ref.a[:1] != ("noreturn",) else False,
                      what, r.loc, f"{what}: nothing is raised", f"unknown@{p}")
            continue
        e = rs[-1]
        n = e.x if isinstance(e.x, (set, frozenset)) else set()
        t = M.I.freeze(e.fn) if isinstance(e.fn, T) else None
        if not any("TypeError" in str(x) for x in n):
            if "TypeError" not in (show(t) if t is not None else ""):
                rep.bad(rid2, f"unknown@{p}", e.loc, f"{what} raises {sorted(map(str, n))[:3]}, not TypeError")
                continue
        txt = show_all(M, t)
        if "@NoSuchNode@" not in txt:
            rep.bad(rid2, f"unknown:name@{p}", e.loc, f"{what}: the message does not name the kind")
        else:
            rep.ok(rid2, what, e.loc)


def show_all(M, t):
    """all constant text in a term"""
    if t is None:
        return ""
    out = []
    for x in subterms(t):
        if is_str(x):
            out.append(cval(x))
    if t.op == "inst":
        for e in M.I.events[-60:]:
            for a in list(e.args) + [v for _k, v in e.kw]:
                if isinstance(a, T):
                    out += [cval(y) for y in subterms(M.I.freeze(a)) if is_str(y)]
    return "\n".join(out)


def rule_emitted(rep, M, prefix):
    rid = prefix + ".emitted"
    rep.rule(rid, "every loader name a writer emits is registered for the current protocol")
    proto = cval(M.io.protocol)
    reg = {(k, p) for g, k, p, c in M.regs}
    n = 0
    for t in get_trips(M):
        if t.state is None:
            continue
        ls = [x for g, k, x in (dict_items(t.state) or []) if is_str(k) and cval(k) == "__loader__"]
        if not ls:
            ls = [i.a[1] for i in t.state.a if i.op == "kv" and is_str(i.a[0]) and cval(i.a[0]) == "__loader__"] \
                if t.state.op.split(":")[0] == "dict" else []
        label = f"{tname(t.typ)} ({t.qual.rsplit('.', 1)[-1]})"
        if not ls:
            rep.dunno(rid, label, t.loc, "no loader found")
            continue
        v = ls[-1]
        n += 1
        if not is_str(v):
            rep.dunno(rid, label, t.loc, show(v)[:60])
        elif (cval(v), proto) not in reg:
            rep.bad(rid, f"{t.qual}:{cval(v)}", t.loc,
                    f"{label} names loader {cval(v)!r}, which is not registered for the current protocol {proto}")
        else:
            rep.ok(rid, f"{label} -> {cval(v)}@{proto}", t.loc)
    if not n:
        raise AnalysisBroken("no writer names a loader")


def rule_protocol_flow(rep, M, prefix):
    rid = prefix + ".protocol-flow"
    rep.rule(rid, "dump/dumps record the current protocol, and load, loads, get_untrusted_types and visualize hand the "
                  "protocol recorded in the archive (schema['protocol']) to the load context that dispatches")
    I = M.I
    for run in dump_runs(M):
        for ze, z, buf, full in zips_of(run, M):
            for e in run.events:
                if e.kind == "call" and e.fn.op == "ext" and e.fn.a[0] == "json.dumps" and e.args:
                    flds, bases = schema_fields(M, run, e.seq, I.freeze(e.args[0]))
                    if mk("stateof", OBJ) not in bases:
                        continue
                    v = flds.get("protocol")
                    if v is None:
                        rep.bad(rid, f"{run.func}:missing", e.loc, f"{run.func} does not record the protocol")
                    elif v[1] is M.io.protocol:
                        rep.ok(rid, f"{run.func} records protocol {cval(v[1])}", e.loc)
                    elif is_const(v[1]):
                        rep.bad(rid, f"{run.func}:value", e.loc,
                                f"{run.func} records protocol {show(v[1])}, the current one is {show(M.io.protocol)}")
                    else:
                        rep.dunno(rid, run.func, e.loc, show(v[1])[:80])
    D = mk("sym", "data")
    runs = [("load", [FILE], {"trusted": TRUSTED}, P), ("loads", [D], {"trusted": TRUSTED}, P),
            ("get_untrusted_types", [], {"file": FILE}, P), ("get_untrusted_types", [], {"data": D}, P),
            ("visualize", [FILE], {}, "skops.io._visualize")]
    for name, a, kw, mod in runs:
        try:
            run = Run(M, name, a, kw, mod)
        except Exception as ex:
            rep.dunno(rid, name, None, f"not analysed: {ex}")
            continue
        gts = [e for e in run.events if e.kind == "get_tree"]
        if not gts:
            rep.dunno(rid, name, run.loc, "get_tree is not called")
            continue
        for e in gts:
            lc = e.args[1]
            for g, l in leaves(lc):
                if l.op == "ref" and I.obj(l).kind == "inst":
                    v = I.freeze(I.obj(l).attrs.get("protocol", mk("unk", "none")))
                    st = I.freeze(e.args[0])
                    if v.op == "item" and is_str(v.a[1]) and cval(v.a[1]) == "protocol" and v.a[0] is st:
                        rep.ok(rid, f"{name} passes schema['protocol']", e.loc)
                    elif meth(v, "get") and v.a[0].a[0] is st and v.a[1] and is_str(v.a[1][0]) and \
                            cval(v.a[1][0]) == "protocol":
                        rep.ok(rid, f"{name} passes schema.get('protocol')", e.loc)
                    elif is_const(v):
                        rep.bad(rid, f"{name}:constant", e.loc,
                                f"{name} loads every archive as protocol {show(v)} whatever it records")
                    elif v.op in ("ite", "call", "op") and contains(v, st) and not opaque(v):
                        rep.bad(rid, f"{name}:changed", e.loc, f"{name} changes the recorded protocol: {show(v)[:80]}")
                    else:
                        rep.dunno(rid, name, e.loc, "protocol: " + show(v)[:80])
                else:
                    rep.dunno(rid, name, e.loc, "load context not modelled")


def build_layout(M, lay, path, leafs):
    from . import layouts as L
    I = M.I
    if isinstance(lay, dict):
        return I.call(mk("ext", "builtins.dict"), [], {k: build_layout(M, v, path + (k,), leafs) for k, v in lay.items()},
                      None)
    if isinstance(lay, L.Const):
        return const(lay.v)
    nm = "a:" + ".".join(path)
    if lay == L.STR:
        t = const("‹" + nm + "›")
    elif lay == L.INT:
        t = const(7700 + len(leafs))
    elif lay == L.FILEM:
        t = const("‹" + nm + "›.bin")
    else:
        t = mk("sym", nm)
    leafs.append((path, lay, t))
    return t


def rule_layouts(rep, M, prefix):
    from . import layouts as L
    rid = prefix + ".layouts"
    rep.rule(rid, "for every node kind and archive protocol, the loader get_tree picks reads the layout dump wrote under "
                  "that protocol: no missing key, every stored part is used in the object it builds, and the audit "
                  "of the node does not fail")
    I = M.I
    proto = cval(M.io.protocol)
    kinds = sorted({k for g, k, p, c in M.regs if isinstance(k, str)} | set(L.LAYOUTS))
    n = 0
    for k in kinds:
        for p in range(proto + 1):
            for i, lay in enumerate(L.layouts(k, p)):
                leafs = []
                items = {kk: build_layout(M, v, (kk,), leafs) for kk, v in lay.items()}
                r = tree_run(M, k, p, extra=items)
                what = f"{k}@{p}" + (f" layout {i + 1}" if len(L.layouts(k, p)) > 1 else "")
                key = f"{k}@{p}"
                n += 1
                ke = [e for e in r.events if e.kind == "keyerror" and not caught(e)]
                if not (r.ref.op == "ref" and I.obj(r.ref).kind == "inst"):
                    if ke:
                        rep.bad(rid, f"{key}:key", ke[0].loc, f"reading {what} fails: key {show(I.freeze(ke[0].args[0]))[:60] if ke[0].args else '?'} is not in archives of that protocol")
                    elif k in {kk for g, kk, q, c in M.regs}:
                        rs = [e for e in r.events if e.kind == "raise" and not e.caught and not e.guard]
                        if rs:
                            rep.bad(rid, f"{key}:raise", rs[0].loc, f"reading {what} raises")
                        else:
                            rep.dunno(rid, what, r.loc, "node not modelled: " + show(r.ref)[:80])
                    else:
                        rep.bad(rid, f"{key}:gone", r.loc, f"no loader is registered for {k}")
                    continue
                n0 = len(I.events)
                I.enter(P)
                try:
                    us = I.call(I.get_attr(r.ref, "get_unsafe_set"), [], {}, None)
                    n1 = len(I.events)
                    I.reset_control()
                    val = I.call(I.get_attr(r.ref, "construct"), [], {}, None)
                finally:
                    I.frames.pop()
                aev, cev = I.events[n0:n1], I.events[n1:]
                bad = False
                for e in aev:
                    if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] in ("get_unsafe_set", "is_safe") and \
                            I.freeze(e.fn.a[0]).op in ("const", "dict", "sym", "item", "elem") and \
                            aguard(e.guard, scen_none) is not FALSE:
                        bad = True
                        rep.bad(rid, f"{key}:audit", e.loc,
                                f"auditing {what} asks the raw archive value {show(I.freeze(e.fn.a[0]))[:60]} for its unsafe set "
                                "(AttributeError)")
                        break
                ke += [e for e in cev if e.kind == "keyerror" and not caught(e)]
                for e in ke[:1]:
                    g = aguard(e.guard, scen_none)
                    if g is FALSE or opt_import(g):
                        continue
                    bad = True
                    rep.bad(rid, f"{key}:key", e.loc,
                            f"reading {what} fails: key {show(I.freeze(e.args[0]))[:60] if e.args else '?'} is not in "
                            "archives of that protocol")
                v = assign(I.freeze(val), scen_none)
                used = [v]
                for e in cev:
                    if e.kind in ("setitem", "setattr", "call", "mut") and aguard(e.guard, scen_none) is not FALSE:
                        if e.kind == "setattr" and e.fn is r.ref:
                            continue
                        used += [I.freeze(a) for a in e.args if isinstance(a, T)]
                        used += [I.freeze(a) for _k, a in e.kw if isinstance(a, T)]
                        used += [t for t, _p in e.guard]
                        if isinstance(e.fn, T):
                            used.append(I.freeze(e.fn))
                for path, lay_, t in leafs:
                    nm = ".".join(path)
                    if lay_ == L.NODE:
                        ok = any(x.op == "cons" and x.a[0].op == "node" and x.a[0].a[0] is t
                                 for u in used for x in subterms(u))
                        rawuse = any(contains(u, t) for u in used)
                    else:
                        ok = any(contains(u, t) for u in used)
                        if not ok and is_str(t):
                            ok = any(x.op == "attr" and x.a[1] == cval(t) for u in used for x in subterms(u))
                        rawuse = False
                    if ok:
                        continue
                    if any(opaque(u) for u in used) and not rawuse:
                        rep.dunno(rid, f"{what} {nm}", n_loc(M, r), "value not modelled")
                        bad = True
                        continue
                    bad = True
                    rep.bad(rid, f"{key}:{nm}", n_loc(M, r),
                            f"the loader of {what} does not use the stored {nm!r}"
                            + (" as a nested value" if rawuse else ""))
                if not bad:
                    rep.ok(rid, what, n_loc(M, r))
    if n < 20:
        raise AnalysisBroken("fewer than twenty archive layouts analysed")


def caught(e):
    return bool(getattr(e, "caught", False))


def opt_import(g):
    return any(t.op == "exc" and isinstance(t.a[0], T) and t.a[0].op == "import" and p for t, p in lits_of(g))


def n_loc(M, r):
    c = M.I.obj(r.ref).cls
    if c is not None and c.op == "cls":
        return (M.I.classes[c.a[0]].file, M.I.classes[c.a[0]].node.lineno)
    return r.loc


def rule_old_values(rep, M, prefix):
    rid = prefix + ".old-values"
    rep.rule(rid, "functions of protocol 0 load as the attribute `function` of module `module_path`; generators of "
                  "protocol 1 load with the recorded bit generator kind and its whole recorded state")
    I = M.I
    from . import layouts as L
    # FunctionNode@0
    want = expected_class(M, "FunctionNode", 0)
    leafs = []
    items = {kk: build_layout(M, v, (kk,), leafs) for kk, v in L.OLD[("FunctionNode", 0)][0].items()}
    mod, fun = leafs[0][2], leafs[1][2]
    r = tree_run(M, "FunctionNode", 0, extra=items)
    if r.ref.op == "ref" and I.obj(r.ref).kind == "inst":
        v, _ev = M.io.invoke(r.ref, "construct", keep=False)
        v = I.freeze(v)
        exp = [x for x in subterms(v) if is_call(x, "builtins.getattr") and len(x.a[1]) >= 2 and
               x.a[1][1] is fun and is_call(x.a[1][0], "importlib.import_module") and x.a[1][0].a[1][0] is mod]
        alt = v.op == "attr" and v.a[1] == cval(fun) and is_call(v.a[0], "importlib.import_module") and \
            v.a[0].a[1][0] is mod
        if alt or (exp and exp[0] is v):
            rep.ok(rid, "FunctionNode@0", n_loc(M, r))
        elif opaque(v) or (exp and v.op == "ite"):
            rep.dunno(rid, "FunctionNode@0", n_loc(M, r), show(v)[:100])
        else:
            rep.bad(rid, "FunctionNode@0", n_loc(M, r), f"functions of protocol 0 load as {show(v)[:120]}")
    else:
        rep.dunno(rid, "FunctionNode@0", r.loc, "node not modelled")
    # RandomGeneratorNode@1
    leafs = []
    items = {kk: build_layout(M, v, (kk,), leafs) for kk, v in L.OLD[("RandomGeneratorNode", 1)][0].items()}
    st = leafs[0][2]
    r = tree_run(M, "RandomGeneratorNode", 1, extra=items)
    if r.ref.op == "ref" and I.obj(r.ref).kind == "inst":
        v, ev = M.io.invoke(r.ref, "construct", keep=False)
        v = I.freeze(v)
        loc = n_loc(M, r)
        states = [e for e in ev if e.kind == "setattr" and e.x == "state"]
        full = [e for e in states if I.freeze(e.args[0]).op == "cons" and I.freeze(e.args[0]).a[0].a[0] is st]
        if full and falsifier(Or([And(list(e.guard)) for e in full])) is None:
            rep.ok(rid, "RandomGeneratorNode@1 state", loc)
        elif states and not any(opaque(I.freeze(e.args[0])) for e in states):
            rep.bad(rid, "RandomGeneratorNode@1:state", loc, "the bit generator does not get the recorded state")
        elif not states and not opaque(v):
            rep.bad(rid, "RandomGeneratorNode@1:state", loc, "the recorded state of the bit generator is not restored")
        else:
            rep.dunno(rid, "RandomGeneratorNode@1", loc, "state not modelled")
    else:
        rep.dunno(rid, "RandomGeneratorNode@1", r.loc, "node not modelled")
