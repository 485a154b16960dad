"""C16, C17: the command line tools.

`main` of a tool is analysed once per combination of its arguments (given / not given,
flag set or not); the calls that touch the file system are collected with the condition
under which they happen, and paths, conditions and written values are folded over
representative inputs (fold.py): file names, protocol numbers, reported types.
"""
from __future__ import annotations

import posixpath
from pathlib import PurePosixPath

from .core import AnalysisBroken
from .engine import Interp
from .fold import CWD, Fails, Fold, Free, NotPure, Opaque, abspath
from .terms import FALSE, NONE, T, TRUE, const, contains, cval, is_const, is_str, mk, show, subterms

IN, OUT, NS = mk("sym", "input file"), mk("sym", "output file"), mk("sym", "parsed_args")
IO = "skops.io._persist."
UPD, CNV = "skops.cli._update", "skops.cli._convert"
FILES = {UPD: "skops/cli/_update.py", CNV: "skops/cli/_convert.py"}
PATHS = [("in/old.skops", "out/new.skops"), ("/abs/a/old.skops", "new.skops"), ("m.v1.skops", "/abs/b/new.v2"), ("m.v2.pkl", "sub/dir/n.v3.skops"),
         ("d/x.pkl", "d/y"), ("noext", "/z.skops"), ("/q/.hidden", "../up/o.skops")]


class Cli:
    def __init__(self, root, overlay=None):
        self.I = I = Interp(root, "skops", overlay)
        for m in (UPD, CNV):
            if I.load_module(m) is None:
                raise AnalysisBroken("no module " + m)
        for f in ("load", "loads", "dump", "dumps", "get_untrusted_types", "visualize"):
            g = I.get_global("skops.io", f)
            if g is not None and g.op == "fn":
                q = I.fns[g.a[1]].qual
                I.intercepts[q] = lambda I, args, kw, node, n=IO + f: I.opaque_call(mk("ext", n), args, kw, node)
        p = I.get_global("skops.io._protocol", "PROTOCOL")
        if p is None or not is_const(p):
            raise AnalysisBroken("PROTOCOL is not a constant")
        self.protocol = cval(p)
        I.assume_fn = assume

    def run(self, mod, name, args, kw=None, ns=None):
        """-> (events, always raises)"""
        I = self.I
        f = I.get_global(mod, name)
        if f is None or f.op != "fn":
            raise AnalysisBroken(f"{mod}.{name} is not a function")
        I.enter(mod)
        I.reset_control()
        I.symattrs.clear()
        for k, v in (ns or {}).items():
            I.symattrs[(NS, k)] = v
        n0 = len(I.events)
        I.call(f, args, dict(kw or {}), None)
        dead = I.dead()
        I.reset_control()
        I.frames.pop()
        return I.events[n0:], dead


def assume(a):
    """the file names given on the command line are not empty; a Path is an object"""
    if a in (IN, OUT):
        return True
    if a.op == "call" and a.a[0].op == "ext" and a.a[0].a[0] in ("pathlib.Path",):
        return True
    if a.op == "is" and NONE in a.a:
        o = a.a[0] if a.a[1] is NONE else a.a[1]
        if o in (IN, OUT) or assume(o):
            return False
    return None


# ------------------------------------------------------------------ paths and values
def arg(t_args, t_kw, i, name, default=None):
    if len(t_args) > i and t_args[i].op != "star":
        return t_args[i]
    for k, v in t_kw:
        if k == name:
            return v
    return default


EXISTS = {"os.path.exists", "os.path.isfile", "os.path.lexists", "os.access"}
FSMETH = {"exists", "is_file"}
TEMPS = {"tempfile.TemporaryDirectory": (2, "dir"), "tempfile.mkdtemp": (2, "dir"), "tempfile.mkstemp": (2, "dir"),
         "tempfile.NamedTemporaryFile": (6, "dir"), "tempfile.SpooledTemporaryFile": None}


class World:
    """one choice of the inputs"""

    def __init__(self, I, i, o, protocol, types, version="0.1", env=None):
        self.I, self.fs = I, env
        self.i, self.o, self.types = i, o, types
        self.model = Opaque("the loaded object")
        self.data = Opaque("the dumped bytes")
        self.schema = {"protocol": protocol, "_skops_version": version, "__class__": "A", "__module__": "m",
                       "__loader__": "ObjectNode", "__id__": 1, "content": {}}
        self.env = {IN: i, OUT: o}
        self.temps = {}
        self.bytes = {}         # term of file content -> path

    def fold(self):
        return Fold(self.env, self.hook)

    def same(self, p, q):
        return abspath(p) == abspath(q)

    def tempname(self, t):
        """path of the temporary file / directory made by this call"""
        if t not in self.temps:
            n = t.a[0].a[0]
            i, k = TEMPS[n]
            d = arg(t.a[1], t.a[2], i, k)
            d = self.fold()(d) if d is not None else None
            d = "/TMP" if d is None else abspath(d or ".")
            self.temps[t] = posixpath.join(str(d), f"TEMP{len(self.temps)}")
        return self.temps[t]

    def variants(self):
        """the same inputs with every question about the file system answered yes / no"""
        out = []
        for env in (True, False):
            w = World(self.I, self.i, self.o, self.schema["protocol"], self.types, self.schema["_skops_version"], env)
            out.append(w)
        return out

    def hook(self, F, t):
        if t.op == "ref" or t.op == "ditems" and t.a[0].op == "ref":
            z = self.I.freeze(t)
            return F(z) if z is not t else NotImplemented
        if t.op in ("item", "op"):
            xs = [x for x in t.a if isinstance(x, T) and x.op in ("call", "item", "op")]
            if any(F(x) is self.data for x in xs):
                full = t.op == "item" and t.a[1].op == "slice" and all(x is NONE for x in t.a[1].a)
                return self.data if full else Opaque("a part of the dumped bytes" if t.op == "item" else "changed bytes")
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.bytes", "builtins.memoryview", "builtins.bytearray") \
                and len(t.a[1]) == 1 and F(t.a[1][0]) is self.data:
            return self.data
        if t.op == "call" and self.fs is not None:
            f = t.a[0]
            if f.op == "ext" and f.a[0] in EXISTS:
                return self.fs
            if f.op == "attr" and f.a[1] in FSMETH and pathish(f.a[0]):
                return self.fs
        if t.op == "call":
            f = t.a[0]
            if f.op == "ext":
                n = f.a[0]
                if n in ("tempfile.mkdtemp",):
                    return self.tempname(t)
                if n == "tempfile.mkstemp":
                    return (Opaque("fd"), self.tempname(t))
                if n == "tempfile.gettempdir":
                    return "/TMP"
                if n in TEMPS:
                    return Opaque("temporary file")
                if n in ("uuid.uuid4", "uuid.uuid1"):
                    return "UUID"
                if n in ("os.getpid", "time.time_ns"):
                    return 4242
                if n in ("os.path.samefile",):
                    return self.same(F(t.a[1][0]), F(t.a[1][1]))
                if n in (IO + "get_untrusted_types",):
                    return list(self.types)
                if n in (IO + "load", IO + "loads", "pickle.load", "pickle.loads"):
                    src = t.a[1][0] if t.a[1] else dict(t.a[2]).get("file", dict(t.a[2]).get("data"))
                    if src is not None and self.reads(F, src):
                        if n.startswith(IO):
                            tr = arg(t.a[1], t.a[2], 1, "trusted")
                            have = F(tr) if tr is not None else []
                            if set(self.types) - set(have or []):
                                raise Fails("load is not given the untrusted types the archive reports")
                        return self.model
                    raise NotPure("loading " + show(src)[:60] if src is not None else "load()")
                if n == IO + "dumps":
                    if F(arg(t.a[1], t.a[2], 0, "obj")) is self.model:
                        return self.data
                    raise NotPure("dumps of something else")
                if n in ("json.loads", "json.load") and contains(t, IN):
                    return self.schema
                if n in ("zipfile.ZipFile",):
                    return Opaque("zip")
                if n in ("builtins.open", "io.open"):
                    return Opaque("file")
            if f.op == "attr":
                if f.a[1] == "samefile":
                    return self.same(F(f.a[0]), F(t.a[1][0]))
                if f.a[1] in ("resolve", "absolute", "expanduser"):
                    return NotImplemented
                if f.a[1] == "hex":
                    return "UUID"
            return NotImplemented
        if t.op == "attr":
            b = t.a[0]
            if b.op == "call" and b.a[0].op == "ext" and b.a[0].a[0] in TEMPS and t.a[1] == "name":
                return self.tempname(b)
            if b.op == "call" and b.a[0].op == "ext" and b.a[0].a[0].startswith("uuid.") and t.a[1] in ("hex", "int"):
                return "UUID"
            if b.op == "call" and b.a[0].op == "ext" and b.a[0].a[0] in ("builtins.open", "io.open") and t.a[1] == "name":
                return F(b.a[1][0])
        return NotImplemented

    def reads(self, F, src):
        """src denotes (the content of) the input file"""
        try:
            v = F(src)
            if isinstance(v, (str, PurePosixPath)) and self.same(v, self.i):
                return True
        except (NotPure, Fails):
            pass
        t = src
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("read", "read_bytes", "getvalue"):
            return self.reads(F, t.a[0].a[0])
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.open", "io.open", "io.BytesIO",
                                                                    "io.BufferedReader") and t.a[1]:
            return self.reads(F, t.a[1][0])
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "open":
            return self.reads(F, t.a[0].a[0])
        return False


# ------------------------------------------------------------------ effects
class Split(Exception):
    """a path depends on the file system: look at both answers separately"""


class Eff:
    __slots__ = ("kind", "path", "e", "src", "data", "handle")

    def __init__(self, kind, path, e, src=None, data=None, handle=None):
        self.kind, self.path, self.e, self.src, self.data, self.handle = kind, path, e, src, data, handle


MOVE = {"os.replace": "rename", "os.rename": "rename", "os.renames": "rename", "shutil.move": "move",
        "shutil.copy": "copy", "shutil.copy2": "copy", "shutil.copyfile": "copy", "shutil.copytree": "copy",
        "os.link": "copy", "os.symlink": "copy"}
DEL = {"os.remove": "delete", "os.unlink": "delete", "shutil.rmtree": "delete", "os.rmdir": "delete"}
MAKE = {"os.makedirs": "mkdir", "os.mkdir": "mkdir"}
MISC = {"os.truncate": "write", "os.utime": "touch", "os.chmod": "touch", "shutil.copystat": "touch",
        "shutil.copymode": "touch"}
PMETH = {"replace": "rename", "rename": "rename", "write_bytes": "write", "write_text": "write", "unlink": "delete",
         "rmdir": "delete", "mkdir": "mkdir", "touch": "touch", "symlink_to": "copy", "hardlink_to": "copy", "chmod": "touch"}


def mode_of(e, i):
    return arg(e.args, e.kw, i, "mode", const("r"))


def effects(evs):
    out = []
    handles = {}
    for e in evs:
        if e.kind != "call" or e.fn is None:
            continue
        f = e.fn
        if f.op == "ext":
            n = f.a[0]
            if n in ("builtins.open", "io.open", "codecs.open"):
                m = mode_of(e, 1)
                if not is_str(m) or set(cval(m)) & set("wax+"):
                    out.append(Eff("write", e.args[0] if e.args else arg(e.args, e.kw, 0, "file"), e, handle=e.res))
                    handles[e.res] = out[-1]
            elif n == "os.open":
                out.append(Eff("write", e.args[0], e))
            elif n == "zipfile.ZipFile":
                m = mode_of(e, 1)
                if not is_str(m) or cval(m) != "r":
                    out.append(Eff("write", arg(e.args, e.kw, 0, "file"), e, handle=e.res))
                    handles[e.res] = out[-1]
            elif n in MOVE:
                out.append(Eff(MOVE[n], arg(e.args, e.kw, 1, "dst"), e, src=arg(e.args, e.kw, 0, "src")))
            elif n in DEL or n in MAKE or n in MISC:
                out.append(Eff(DEL.get(n) or MAKE.get(n) or MISC[n], e.args[0] if e.args else mk("unk", "path"), e))
            elif n == IO + "dump":
                p = arg(e.args, e.kw, 1, "file")
                out.append(Eff("dump", p, e, data=arg(e.args, e.kw, 0, "obj"), handle=p))
            elif n in ("pickle.dump", "joblib.dump", "json.dump"):
                out.append(Eff("handle", arg(e.args, e.kw, 1, "file"), e, data=arg(e.args, e.kw, 0, "obj")))
            elif n in TEMPS:
                out.append(Eff("temp", e.res, e))
            elif n == "os.write":
                out.append(Eff("handle", e.args[0], e, data=e.args[1] if len(e.args) > 1 else None))
            elif n.startswith(("subprocess.", "os.system", "os.popen", "os.exec", "os.spawn")):
                out.append(Eff("process", mk("unk", n), e))
        elif f.op == "attr":
            n = f.a[1]
            if n in ("write", "writelines", "truncate", "writestr"):
                out.append(Eff("handle", f.a[0], e, data=e.args[0] if e.args else None))
            elif n == "open" and pathish(f.a[0]):
                m = mode_of(e, 0)
                if not is_str(m) or set(cval(m)) & set("wax+"):
                    out.append(Eff("write", f.a[0], e, handle=e.res))
                    handles[e.res] = out[-1]
            elif n in PMETH and pathish(f.a[0]):
                k = PMETH[n]
                if k == "rename":
                    if n == "replace" and len(e.args) != 1:
                        continue
                    out.append(Eff(k, e.args[0], e, src=f.a[0]))
                else:
                    out.append(Eff(k, f.a[0], e, data=e.args[0] if e.args else None))
            elif n == "cleanup":
                out.append(Eff("delete", mk("attr", f.a[0], "name"), e))
    return out


def pathish(t):
    """may be a Path (not text): made by pathlib"""
    if t.op == "call" and t.a[0].op == "ext":
        return t.a[0].a[0].startswith("pathlib.")
    if t.op == "call" and t.a[0].op == "attr":
        return t.a[0].a[1] in ("with_suffix", "with_name", "with_stem", "resolve", "absolute", "joinpath", "expanduser") \
            and pathish(t.a[0].a[0])
    if t.op == "op" and t.a[0] == "/":
        return True
    if t.op == "attr" and t.a[1] == "parent":
        return True
    if t.op == "ite":
        return pathish(t.a[1]) or pathish(t.a[2])
    return False


def when(F, e):
    """does the event happen: True / False / None (environment); may raise NotPure"""
    return F.guard([(u, q) for u, q in e.guard])


def names_in(evs):
    """text constants the tool compares or combines its paths with: file names built from them are tried as well"""
    out = []
    for e in evs:
        for t in [u for u, q in e.guard] + list(e.args):
            for s in subterms(t):
                if is_str(s) and 0 < len(cval(s)) < 16 and not set(cval(s)) & set(" \n%{}/:,") and cval(s) not in out:
                    if e.kind == "call" and e.fn is not None and e.fn.op == "attr" and e.fn.a[1] in LEVEL:
                        continue
                    out.append(cval(s))
    return out[:24]


def path_samples(evs):
    more = []
    for c in names_in(evs):
        more += [("in/h" + c, "out/g"), ("in/" + c, "out/h" + c), ("k.pkl", "out/" + c)]
    return PATHS + [x for x in more if abspath(x[0]) != abspath(x[1])]


# ------------------------------------------------------------------ C16
def scenarios():
    for entry in ("main", "_update_file"):
        for out in (True, False):
            for inplace in (False, True):
                yield entry, out, inplace


def scene_name(entry, out, inplace):
    return f"{entry} {'with' if out else 'without'} an output file, {'' if inplace else 'not '}in place"


def call_update(M, entry, out, inplace):
    o = OUT if out else NONE
    if entry == "main":
        return M.run(UPD, "main", [NS], ns={"input": IN, "output_file": o, "inplace": const(inplace),
                                             "loglevel": const(0)})
    return M.run(UPD, "_update_file", [], {"input_file": IN, "output_file": o, "inplace": const(inplace)})


def rule_update(rep, ctx, p):
    M = ctx.cli
    R = {k: "C16." + k for k in ("guard", "error", "atomic", "same-filesystem", "faithful", "untouched", "temporaries")}
    rep.rule(R["guard"], "the destination is replaced exactly when the archive is older and a destination was requested")
    rep.rule(R["error"], "an output file together with --inplace is an error, before any file is touched")
    rep.rule(R["atomic"], "the destination is only ever changed by renaming a complete file over it")
    rep.rule(R["same-filesystem"], "the renamed file was created in the destination's directory")
    rep.rule(R["faithful"], "what is written is dump of load(input, trusted=the types the input reports)")
    rep.rule(R["untouched"], "no other file is written, renamed or deleted")
    rep.rule(R["temporaries"], "temporary files are removed on every exit")
    for entry, out, inplace in scenarios():
        try:
            evs, dead = call_update(M, entry, out, inplace)
        except AnalysisBroken as e:
            if entry == "main":
                raise
            continue
        what = scene_name(entry, out, inplace)
        judge_update(rep, M, R, what, evs, dead, out, inplace)


def judge_update(rep, M, R, what, evs, dead, out, inplace):
    effs = effects(evs)
    file = FILES[UPD]
    raises = [e for e in evs if e.kind == "raise" and not e.caught]
    done = {k: 0 for k in R}
    stop = set()

    def bad(k, key, where, msg):
        if k not in stop:
            stop.add(k)
            rep.bad(R[k], f"{what}:{key}", where, f"{what}: {msg}")

    def dunno(k, where, why):
        if k not in stop:
            stop.add(k)
            rep.dunno(R[k], what, where, why)

    N = M.protocol
    worlds = []
    for i, o in path_samples(evs):
        worlds.append((N - 1, World(M.I, i, o, N - 1, ["m.A"])))
    for pr in range(0, N + 3):
        for types in ([], ["m.A", "m.B"]):
            for v in ("0.0.1", "99.0"):
                worlds.append((pr, World(M.I, "in/old.skops", "out/new.skops", pr, types, v)))
    if out and inplace:
        k = "error"
        for pr, w in worlds:
            F = w.fold()
            try:
                r = [when(F, e) for e in raises]
            except (NotPure, Fails) as e:
                dunno(k, raises[0].loc if raises else file, str(e))
                break
            if True not in r:
                bad(k, "no-error", file, "does not raise")
                break
            first = min(e.seq for e, x in zip(raises, r) if x is True)
            if not any({"ValueError", "SystemExit", "TypeError", "RuntimeError"} & set(e.x or ()) or not e.x
                       for e, x in zip(raises, r) if x is True):
                pass
            for ef in effs:
                try:
                    hit = ef.kind != "temp" and ef.e.seq < first and when(F, ef.e) is not False
                except (NotPure, Fails) as e:
                    dunno(k, ef.e.loc, str(e))
                    break
                if hit:
                    bad(k, "effect", ef.e.loc, f"{ef.kind} of a file before the error is raised")
                    break
            if k in stop:
                break
        if k not in stop:
            rep.ok(R[k], what, raises[0].loc)
        return
    todo = list(worlds)
    while todo:
        pr, w = todo.pop(0)
        F = w.fold()
        dest = w.o if out else w.i if inplace else None
        needed = dest is not None and pr < N
        ctxt = f" (archive protocol {pr}, current {N}; input {w.i}" + (f", output {w.o})" if out else ")")
        live = []
        undecided = None
        for ef in effs:
            try:
                g = when(F, ef.e)
            except (NotPure, Fails) as e:
                if isinstance(e, Fails) and "not given the untrusted" in str(e):
                    bad("faithful", "trusted", ef.e.loc, str(e) + ctxt)
                    return
                undecided = (ef, str(e))
                continue
            if g is not False:
                live.append((ef, g))
        # early exits through an exception
        for e in raises:
            try:
                g = when(F, e)
            except (NotPure, Fails):
                continue
            if g is True and needed:
                bad("guard", "raises", e.loc, f"raises although the archive has to be updated{ctxt}")
                return
        if undecided is not None:
            for k in R:
                if k != "error":
                    dunno(k, undecided[0].e.loc, "condition of a file operation: " + undecided[1])
            return
        try:
            check_effects(w, F, live, evs, dest, needed, bad, dunno, ctxt)
        except Split:
            todo = [(pr, v) for v in w.variants()] + todo
        if len(stop) >= len(R) - 1:
            break
    for k in R:
        if k != "error" and k not in stop:
            if dest is None and k in ("atomic", "same-filesystem", "faithful", "temporaries"):
                continue
            rep.ok(R[k], f"{what}: {len(worlds)} cases", file)


def check_effects(w, F, live, evs, dest, needed, bad, dunno, ctxt):
    """the file operations that happen in one case"""
    def path(t):
        v = F(t)
        if isinstance(v, bytes):
            v = v.decode()
        if not isinstance(v, (str, PurePosixPath)):
            raise NotPure("path " + repr(v))
        return abspath(v)
    temps = {}          # path -> (event, kind)
    made = {}           # path -> effect which wrote it
    handles = {}
    D = abspath(dest) if dest is not None else None
    renamed = None
    ok = True
    for ef, g in live:
        k = ef.kind
        loc = ef.e.loc
        try:
            if k == "temp":
                n = ef.e.fn.a[0]
                if TEMPS.get(n) is None:
                    continue
                temps[w.tempname(ef.path)] = (ef, n)
                continue
            if k == "process":
                dunno("untouched", loc, "another program is started")
                continue
            if k == "handle":
                h = ef.path
                p = handles.get(h)
                if p is None and h.op == "call" and h.a[0].op == "ext" and h.a[0].a[0] in TEMPS:
                    p = w.tempname(h)
                elif p is None and h.op == "item":
                    continue        # a raw descriptor of mkstemp
                elif p is None:
                    continue        # a memory buffer
                made[p] = ef
                continue
            if k == "dump":
                h = ef.path
                if h in handles:
                    made[handles[h]] = ef
                    continue
                if h.op == "call" and h.a[0].op == "ext" and h.a[0].a[0] in TEMPS:
                    made[w.tempname(h)] = ef
                    continue
                if h.op == "call" and h.a[0].op == "ext" and h.a[0].a[0] in ("io.BytesIO",):
                    continue
                if h.op == "call" and h.a[0].op == "ext" and h.a[0].a[0] == "os.fdopen":
                    d = h.a[1][0]
                    if d.op == "item" and d.a[0].op == "call":
                        made[w.tempname(d.a[0])] = ef
                        continue
            p = path(ef.path)
            s = path(ef.src) if ef.src is not None else None
        except Free as e:
            if w.fs is None:
                raise Split()
            dunno("untouched", loc, f"{k}: {e}")
            return False
        except (NotPure, Fails) as e:
            dunno("untouched", loc, f"{k}: {e}")
            dunno("guard", loc, f"{k}: {e}")
            return False
        if k == "write":
            handles[ef.handle] = p
            made.setdefault(p, ef)
        if k in ("dump",) or k == "write" and ef.data is not None:
            made[p] = ef
        tmp = any(p == t or p.startswith(t + "/") for t in temps)
        stmp = s is not None and any(s == t or s.startswith(t + "/") for t in temps)
        if k == "mkdir":
            if not tmp and not (D is not None and needed and posixpath.dirname(D) == p):
                bad("untouched", "mkdir", loc, f"directory {p} is created{ctxt}")
            continue
        if not needed:
            if not tmp:
                key = "guard" if D is not None and p == D or dest is None else "untouched"
                bad(key, "effect", loc, f"{k} of {p} although nothing has to be written{ctxt}")
                return False
            continue
        if p == D:
            if k == "touch":
                continue
            if k in ("rename", "move"):
                if renamed is not None:
                    dunno("atomic", loc, "renamed twice")
                    return False
                renamed = (ef, s, g)
                if g is None:
                    bad("guard", "conditional", loc, f"the new archive is put at the destination only when "
                                                     f"{cond(F, ef.e)}{ctxt}")
                    return False
                dirp = posixpath.dirname(D)
                if not (posixpath.dirname(s) == dirp or s.startswith(dirp.rstrip("/") + "/")):
                    if k == "move":
                        bad("same-filesystem", "move", loc, f"{s} is moved to {D} from another directory: across file systems the "
                                                            f"destination is copied piecemeal, not replaced at once{ctxt}")
                    else:
                        bad("same-filesystem", "rename", loc, f"{s} is renamed to {D} from another directory: across file systems "
                                                              f"this fails and nothing is written{ctxt}")
                src = made.get(s)
                if src is None:
                    dunno("faithful", loc, f"what {s} holds")
                else:
                    judge_content(w, F, src, evs, ef, bad, dunno, ctxt)
            elif k == "delete":
                bad("atomic", "delete", loc, f"the destination {p} is deleted before the new archive is in place{ctxt}")
            elif k == "copy":
                bad("atomic", "copy", loc, f"the destination {p} is overwritten by copying: a partial file is visible until it "
                                           f"ends{ctxt}")
                renamed = renamed or (ef, s, g)
                if ef.src is not None and made.get(s) is not None:
                    judge_content(w, F, made[s], evs, ef, bad, dunno, ctxt)
            else:
                bad("atomic", "in-place", loc, f"the destination {p} is opened for writing directly: a partial file is visible until "
                                               f"it is complete{ctxt}")
                renamed = renamed or (ef, None, g)
            continue
        if tmp:
            continue
        if k in ("rename", "move") and stmp or k in ("dump", "write", "copy"):
            if p == abspath(w.i):
                bad("untouched", "input", loc, f"the input file is overwritten{ctxt}")
                return False
            # a sibling used as temporary file
            temps[p] = (ef, "sibling")
            continue
        if k == "delete" and (p in made or p in temps or p == "/TMP"):
            continue
        if k == "rename" and s == D:
            bad("atomic", "backup", loc, f"the destination {s} is moved away before the new archive is in place{ctxt}")
            continue
        if s is not None and p in temps and False:
            continue
        bad("untouched", "other", loc, f"{k} of {p}, which is neither the destination nor a temporary file{ctxt}")
        ok = False
    if needed and renamed is None:
        others = [t for t, (ef, n) in temps.items() if n == "sibling"]
        bad("guard", "missing", live[-1][0].e.loc if live else FILES[UPD],
            "no new archive is put at the requested destination" + (f", but {others[0]} is written" if others else "") + ctxt)
        return False
    # clean up
    last = renamed[1] if renamed else None
    for t, (ef, n) in temps.items():
        if n == "sibling":
            if t != last and not any(e2.kind in ("delete",) and safe_path(path, e2.path) == t for e2, g in live):
                if needed:
                    bad("untouched", "other", ef.e.loc, f"{t} is written, which is neither the destination nor removed again{ctxt}")
            elif t == last:
                if ef.kind == "write" and not any(e2.e.final and e2.kind == "delete" and safe_path(path, e2.path) == t
                                                  for e2, g in live):
                    bad("temporaries", "sibling", ef.e.loc, f"{t} is created first and stays behind when writing it fails{ctxt}")
                else:
                    dunno("untouched", ef.e.loc, f"temporary name {t} may belong to another file")
            continue
        entered = any(e.kind == "enter" and e.fn is ef.e.res for e in evs)
        delete = dict(ef.e.kw).get("delete", TRUE)
        auto = n == "tempfile.TemporaryDirectory" or n == "tempfile.NamedTemporaryFile" and delete is TRUE
        if entered and auto:
            continue
        fin = [e2 for e2, g in live if e2.kind == "delete" and e2.e.final and safe_path(path, e2.path) == t]
        exc = [e for e in evs if e.kind == "call" and any(u.op == "exc" for u, q in e.guard)]
        if fin:
            continue
        if auto:
            continue        # removed when the object is finalised
        if exc:
            dunno("temporaries", ef.e.loc, "removed in an exception handler")
            continue
        bad("temporaries", "leak", ef.e.loc, f"the temporary {'directory' if 'd' in n[9:12] else 'file'} made by {n} is not removed when "
                                             f"writing fails{ctxt}")
    return ok


def safe_path(path, t):
    try:
        return path(t)
    except (NotPure, Fails, Free):
        return None


def cond(F, e):
    out = []
    for u, q in e.guard:
        try:
            F(u)
        except Free:
            out.append(("" if q else "not ") + show(u)[:100])
        except (NotPure, Fails):
            pass
    return " and ".join(out) or "the environment allows it"


def judge_content(w, F, src, evs, put, bad, dunno, ctxt):
    """src: the effect that wrote the file which is put at the destination"""
    loc = src.e.loc
    if src.e.seq > put.e.seq:
        bad("atomic", "order", put.e.loc, f"the destination is replaced before the new archive is written{ctxt}")
        return
    try:
        if src.kind == "dump":
            v = F(src.data)
            if v is not w.model:
                bad("faithful", "object", loc, f"dumps {show(src.data)[:80]} instead of the loaded object{ctxt}")
        else:
            if src.data is None:
                dunno("faithful", loc, "what is written")
                return
            if F(src.data) is not w.data:
                dunno("faithful", loc, f"writes {show(src.data)[:80]}")
                return
        if when(F, src.e) is None:
            bad("faithful", "conditional", loc, f"the new archive is only written when {cond(F, src.e)}{ctxt}")
    except Fails as e:
        if "untrusted" in str(e):
            bad("faithful", "trusted", loc, f"{e}{ctxt}")
        else:
            dunno("faithful", loc, str(e))
        return
    except (NotPure, Free) as e:
        dunno("faithful", loc, str(e))
        return
    h = src.path if src.kind == "dump" and is_handle(src.path) else src.path if src.kind == "handle" else None
    if h is not None:
        closed = any(e.seq < put.e.seq and (e.kind == "exit" and e.fn is h or e.kind == "call" and e.fn is not None
                     and e.fn.op == "attr" and e.fn.a[0] is h and e.fn.a[1] in ("close", "flush")) for e in evs
                     if e.seq > src.e.seq)
        if not closed:
            bad("atomic", "flush", put.e.loc, f"the file is put in place before it is closed or flushed: the destination is "
                                              f"incomplete until then{ctxt}")
    # the loaded object is not changed in between
    for e in evs:
        if e.kind in ("setattr", "setitem", "delattr", "delitem") and e.fn is not None and e.fn.op == "call":
            try:
                if F(e.fn) is w.model and when(F, e) is not False:
                    bad("faithful", "changed", e.loc, f"the loaded object is changed before it is dumped{ctxt}")
            except (NotPure, Fails, Free):
                pass


def is_handle(t):
    return t.op == "call" and (t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.open", "io.open", "tempfile.NamedTemporaryFile",
                                                                     "os.fdopen") or t.a[0].op == "attr" and t.a[0].a[1] == "open")


# ------------------------------------------------------------------ wiring
def rule_wiring(rep, ctx, p):
    """main_cli registers each command with the function and the arguments that function reads"""
    r = p + ".wiring"
    rep.rule(r, "the command is registered with its main function, and its arguments have the names and defaults main relies on")
    M = ctx.cli
    I = M.I
    if I.load_module("skops.cli.entrypoint") is None:
        raise AnalysisBroken("no module skops.cli.entrypoint")
    cmd, mod = ("update", UPD) if p == "C16" else ("convert", CNV)
    evs, dead = M.run("skops.cli.entrypoint", "main_cli", [mk("sym", "argv")])
    main = I.get_global(mod, "main")
    subs = [e for e in evs if e.kind == "call" and e.fn is not None and e.fn.op == "attr" and e.fn.a[1] == "add_parser"
            and e.args and is_str(e.args[0]) and cval(e.args[0]) == cmd]
    if not subs:
        rep.dunno(r, cmd, "skops/cli/entrypoint.py", "the command's parser was not found")
        return
    ps = subs[-1].res
    fam = {ps}
    opts = {}
    func = None
    for e in evs:
        if e.kind != "call" or e.fn is None or e.fn.op != "attr":
            continue
        if e.fn.a[0] in fam and e.fn.a[1] in ("add_argument_group", "add_mutually_exclusive_group"):
            fam.add(e.res)
        elif e.fn.a[0] in fam and e.fn.a[1] == "set_defaults":
            d = dict(e.kw)
            for k, v in d.items():
                if k == "func":
                    func = (v, e)
                else:
                    opts.setdefault(k, {})["default"] = v
        elif e.fn.a[0] in fam and e.fn.a[1] == "add_argument":
            names = [cval(a) for a in e.args if is_str(a)]
            kw = dict(e.kw)
            if "dest" in kw and is_str(kw["dest"]):
                dest = cval(kw["dest"])
            else:
                long = [n for n in names if n.startswith("--")]
                dest = (long or names or ["?"])[0].lstrip("-").replace("-", "_")
            kw["names"] = names
            kw["loc"] = e.loc
            opts[dest] = kw
    if func is None:
        rep.bad(r, "func", subs[-1].loc, f"the {cmd} command is not given a function")
    elif func[0] is main:
        rep.ok(r, f"{cmd} -> {mod}.main", func[1].loc)
    elif func[0].op == "fn":
        rep.bad(r, "func", func[1].loc, f"the {cmd} command runs {show(func[0])[:60]} instead of {mod}.main")
    else:
        rep.dunno(r, cmd, func[1].loc, f"function {show(func[0])[:80]}")
    if not opts:
        rep.dunno(r, cmd + " arguments", subs[-1].loc, "none found")
        return
    want = {"input": None, "output_file": NONE}
    if cmd == "update":
        want["inplace"] = FALSE
    for d, dflt in want.items():
        o = opts.get(d)
        if o is None:
            rep.bad(r, d, subs[-1].loc, f"{cmd}: no argument {d}, which main reads (there are {', '.join(sorted(opts))})")
            continue
        loc = o.get("loc", subs[-1].loc)
        if d == "input":
            rep.check(r, not any(n.startswith("-") for n in o["names"]), f"{cmd} input", loc, "input is not a positional argument")
            continue
        if d == "inplace":
            act = o.get("action")
            df = o.get("default", FALSE)
            rep.check(r, act is not None and is_str(act) and cval(act) == "store_true" and df is FALSE, f"{cmd} --inplace", loc,
                      f"--inplace is not an off-by-default flag: action {show(act) if act is not None else 'store'}, default {show(df)}")
            continue
        df = o.get("default", NONE)
        ty = o.get("type")
        good = df is NONE or is_str(df) and cval(df) == ""
        rep.check(r, good, f"{cmd} {d} default", loc, f"the default of {d} is {show(df)}: the tool then writes a file although no "
                                                      "output was requested" if cmd == "update" else f"the default of {d} is {show(df)}")
        if ty is not None and not (ty.op == "ext" and ty.a[0] in ("builtins.str", "pathlib.Path", "pathlib.PurePath",
                                                                  "os.path.expanduser")):
            rep.dunno(r, f"{cmd} {d} type", loc, f"converted by {show(ty)[:60]}")


# ------------------------------------------------------------------ C17
def rule_convert(rep, ctx, p):
    M = ctx.cli
    R = {k: "C17." + k for k in ("output", "content", "order", "untouched", "warning")}
    rep.rule(R["output"], "the archive is written at the given path, by default <cwd>/<input stem>.skops")
    rep.rule(R["content"], "the written bytes are dumps of the unpickled object, unchanged")
    rep.rule(R["order"], "the output is not opened before the object was dumped successfully")
    rep.rule(R["untouched"], "no other file is written; the input is only read")
    rep.rule(R["warning"], "a warning naming every untrusted type is logged exactly when there are any")
    for entry, out in (("main", True), ("main", False), ("_convert_file", True)):
        o = OUT if out else NONE
        try:
            if entry == "main":
                evs, dead = M.run(CNV, "main", [NS], ns={"input": IN, "output_file": o, "loglevel": const(0)})
            else:
                evs, dead = M.run(CNV, "_convert_file", [], {"input_file": IN, "output_file": o})
        except AnalysisBroken:
            if entry == "main":
                raise
            continue
        what = f"{entry} {'with' if out else 'without'} an output file"
        judge_convert(rep, M, R, what, evs, out)


def judge_convert(rep, M, R, what, evs, out):
    stop = set()
    file = FILES[CNV]

    def bad(k, key, where, msg):
        if k not in stop:
            stop.add(k)
            rep.bad(R[k], f"{what}:{key}", where, f"{what}: {msg}")

    def dunno(k, where, why):
        if k not in stop:
            stop.add(k)
            rep.dunno(R[k], what, where, why)
    effs = effects(evs)
    logs = [e for e in evs if e.kind == "call" and e.fn is not None and is_log(e)]
    worlds = [World(M.I, i, o, M.protocol, ["m.A"]) for i, o in path_samples(evs)]
    more = [[c.strip(".") + ".mod.Type"] for c in names_in(evs) if c.strip(".").replace("_", "a").isidentifier()]
    for types in ([], ["m.A"], ["m.B", "n.C"], [f"pkg.mod{i}.Type{i}" for i in range(12)], ["numpy.a.B"], ["sklearn.a.B"],
                  ["__main__.Foo"], ["builtins.eval", "_private.x"], *more[:12]):
        worlds.append(World(M.I, "d/x.pkl", "o/y.skops", M.protocol, types))
    todo = list(worlds)
    while todo:
        w = todo.pop(0)
        F = w.fold()
        dest = abspath(w.o) if out else posixpath.join(CWD, PurePosixPath(w.i).stem + ".skops")
        if dest == abspath(w.i):
            continue            # the user asks for the input itself to be written
        ctxt = f" (input {w.i}" + (f", output {w.o})" if out else ")")
        try:
            live = [(ef, when(F, ef.e)) for ef in effs]
        except (NotPure, Fails) as e:
            for k in ("output", "content", "order", "untouched"):
                dunno(k, file, str(e))
            live = None
        if live is not None:
            try:
                convert_effects(w, F, [x for x in live if x[1] is not False], evs, dest, bad, dunno, ctxt)
            except Split:
                todo = w.variants() + todo
                continue
        convert_logs(w, F, logs, evs, bad, dunno, ctxt)
        for e in evs:
            if e.kind == "raise" and not e.caught:
                try:
                    if when(F, e) is True:
                        bad("output", "raises", e.loc, f"raises{ctxt}")
                except (NotPure, Fails):
                    pass
    for k in R:
        if k not in stop:
            rep.ok(R[k], f"{what}: {len(worlds)} cases", file)


def convert_effects(w, F, live, evs, dest, bad, dunno, ctxt):
    made = {}
    handles = {}
    placed = None
    dumped = [e for e in evs if e.kind == "call" and e.fn is not None and e.fn.op == "ext" and e.fn.a[0] == IO + "dumps"]
    for ef, g in live:
        loc = ef.e.loc
        k = ef.kind
        if k == "temp":
            try:
                made[w.tempname(ef.path)] = None
            except (NotPure, Fails, Free):
                pass
            continue
        if k == "handle" or k == "dump" and ef.path in handles:
            pth = handles.get(ef.path)
            if pth is not None:
                made.setdefault(pth, [])
                made[pth].append(ef)
            continue
        if k == "process":
            dunno("untouched", loc, "another program is started")
            continue
        try:
            p = F(ef.path)
            if not isinstance(p, (str, PurePosixPath)):
                raise NotPure("path")
            p = abspath(p)
            s = abspath(F(ef.src)) if ef.src is not None else None
        except Free as e:
            if w.fs is None:
                raise Split()
            dunno("output", loc, f"{k}: {e}")
            return
        except (NotPure, Fails) as e:
            dunno("output", loc, f"{k}: {e}")
            dunno("untouched", loc, f"{k}: {e}")
            return
        if k == "mkdir":
            if p != posixpath.dirname(dest):
                bad("untouched", "mkdir", loc, f"directory {p} is created{ctxt}")
            continue
        tmp = any(t != dest and made.get(t, 0) is None and (p == t or p.startswith(t + "/")) for t in made)
        if p == abspath(w.i) and k != "touch":
            bad("untouched", "input", loc, f"{k} of the input file{ctxt}")
            continue
        if k == "delete":
            if p == dest:
                bad("order", "delete", loc, f"the output file is deleted{ctxt}")
            elif not tmp and p not in made:
                bad("untouched", "other", loc, f"{p} is deleted{ctxt}")
            continue
        if k == "write":
            handles[ef.handle] = p
            if ef.data is not None:
                made.setdefault(p, [])
                made[p].append(ef)
        elif k == "dump":
            made.setdefault(p, [])
            made[p].append(ef)
        elif k in ("rename", "move", "copy"):
            made[p] = made.get(s)
        if p == dest:
            placed = placed or ef
            if g is None:
                bad("output", "conditional", loc, f"the output is only written when {cond(F, ef.e)}{ctxt}")
            if k == "write":
                m = arg(ef.e.args, ef.e.kw, 1 if ef.e.fn.op == "ext" else 0, "mode", const("?"))
                try:
                    m = const(F(m)) if not is_str(m) else m
                except Free:
                    if w.fs is None:
                        raise Split()
                except (NotPure, Fails):
                    pass
                if ef.data is None and is_str(m) and cval(m) not in ("wb", "bw", "wb+", "w+b"):
                    if "x" in cval(m):
                        bad("output", "mode", loc, f"mode {cval(m)!r}: fails when the output file exists{ctxt}")
                    elif "a" in cval(m) or "w" not in cval(m):
                        bad("content", "mode", loc, f"the output is opened with mode {cval(m)!r}: old content stays in it{ctxt}")
                first = [e for e in dumped if e.seq < ef.e.seq]
                if not first:
                    late = "dump" if dumped else "serialisation"
                    bad("order", "early", loc, f"the output file is opened for writing before the object was dumped: a failing {late} "
                                               f"leaves it truncated{ctxt}")
        elif not tmp and k not in ("touch",):
            made.setdefault(p, [])
            if not any(e2.kind in ("rename", "move") and path_is(F, e2.src, p) for e2, g2 in live) \
                    and not any(e2.kind == "delete" and path_is(F, e2.path, p) for e2, g2 in live):
                bad("output" if placed is None and not any(path_is(F, e2.path, dest) for e2, _ in live) else "untouched", "other", loc,
                    f"{p} is written instead of {dest}{ctxt}" if placed is None else f"{p} is written{ctxt}")
    if placed is None:
        bad("output", "missing", live[-1][0].e.loc if live else FILES[CNV], f"nothing is written at {dest}{ctxt}")
        return
    ws = made.get(dest)
    if not ws:
        dunno("content", placed.e.loc, "what is written")
        return
    if len(ws) > 1:
        dunno("content", ws[1].e.loc, "written in pieces")
        return
    ef = ws[0]
    try:
        v = F(ef.data)
        want = w.model if ef.kind == "dump" else w.data
        if v is not want:
            bad("content", "data", ef.e.loc, f"writes {show(ef.data)[:80]} instead of dumps(the unpickled object){ctxt}")
        g = when(F, ef.e)
        if g is not True:
            bad("content", "conditional", ef.e.loc, f"the bytes are only written when {cond(F, ef.e)}{ctxt}")
    except Fails as e:
        dunno("content", ef.e.loc, str(e))
    except (NotPure, Free) as e:
        dunno("content", ef.e.loc, str(e))
    for e in evs:
        if e.kind in ("setattr", "setitem", "delattr", "delitem") and e.fn is not None and e.fn.op == "call":
            try:
                if F(e.fn) is w.model and when(F, e) is not False:
                    bad("content", "changed", e.loc, f"the unpickled object is changed before it is dumped{ctxt}")
            except (NotPure, Fails, Free):
                pass


def path_is(F, t, p):
    if t is None:
        return False
    try:
        v = F(t)
        return isinstance(v, (str, PurePosixPath)) and abspath(v) == p
    except (NotPure, Fails, Free):
        return False


LEVEL = {"debug": 10, "info": 20, "warning": 30, "warn": 30, "error": 40, "exception": 40, "critical": 50, "fatal": 50}


def is_log(e):
    f = e.fn
    if f.op == "ext" and f.a[0].startswith("logging.") and f.a[0][8:] in LEVEL or f.op == "ext" and f.a[0] == "logging.log":
        return True
    return f.op == "attr" and (f.a[1] in LEVEL or f.a[1] == "log") and loggerish(f.a[0])


def loggerish(t):
    return any(s.op == "ext" and s.a[0] in ("logging.getLogger", "logging.Logger") for s in subterms(t)) or \
        any(s.op == "sym" and "log" in str(s.a[0]) for s in subterms(t))


def level_of(F, e):
    n = e.fn.a[0][8:] if e.fn.op == "ext" else e.fn.a[1]
    if n != "log":
        return LEVEL[n], list(e.args)
    lv = e.args[0]
    if lv.op == "ext" and lv.a[0].startswith("logging."):
        return LEVEL.get(lv.a[0][8:].lower(), 0), list(e.args[1:])
    return F(lv), list(e.args[1:])


def convert_logs(w, F, logs, evs, bad, dunno, ctxt):
    """warnings logged in one case"""
    ctxt = f" (untrusted types {w.types[:3]}{'...' if len(w.types) > 3 else ''})"
    texts = []
    for e in logs:
        try:
            g = when(F, e)
            if g is False:
                continue
            lv, args = level_of(F, e)
            if lv < 30:
                continue
            if g is None:
                dunno("warning", e.loc, "depends on the environment")
                return
            msg = F(args[0]) if args else ""
            rest = [F(a) for a in args[1:]]
            if rest:
                msg = msg % tuple(rest)
            texts.append((lv, str(msg), e))
        except (NotPure, Fails, Free) as x:
            dunno("warning", e.loc, str(x))
            return
    if w.types:
        hit = [t for t in texts if t[0] == 30 and all(n in t[1] for n in w.types)]
        if not texts:
            bad("warning", "missing", logs[-1].loc if logs else FILES[CNV], f"no warning is logged{ctxt}")
        elif not hit:
            names = [n for n in w.types if not any(n in t[1] for t in texts)]
            if names:
                bad("warning", "names", texts[0][2].loc, f"the warning does not name {names[0]}{ctxt}")
            else:
                dunno("warning", texts[0][2].loc, "several log records")
    elif texts:
        bad("warning", "spurious", texts[0][2].loc, f"a warning is logged although there are no untrusted types")


def rule_loglevel(rep, ctx, p):
    """the level the tool sets lets warnings through"""
    r = "C17.level"
    rep.rule(r, "at every verbosity the logging level lets warnings through")
    M = ctx.cli
    bad = False
    loc = FILES[CNV]
    n = 0
    for lv in (0, 1, 2, 3, 7):
        evs, dead = M.run(CNV, "main", [NS], ns={"input": IN, "output_file": OUT, "loglevel": const(lv)})
        for e in evs:
            if e.kind != "call" or e.fn is None:
                continue
            t = None
            if e.fn is mk("ext", "logging.basicConfig"):
                t = dict(e.kw).get("level")
            elif e.fn.op == "attr" and e.fn.a[1] == "setLevel" and loggerish(e.fn.a[0]):
                t = arg(e.args, e.kw, 0, "level")
            elif e.fn is mk("ext", "logging.disable"):
                t = arg(e.args, e.kw, 0, "level", mk("ext", "logging.CRITICAL"))
            if t is None:
                continue
            loc = e.loc
            v = None
            if t.op == "ext" and t.a[0].startswith("logging."):
                v = LEVEL.get(t.a[0][8:].lower(), 0)
            elif is_const(t) and isinstance(cval(t), int):
                v = cval(t)
            if v is None:
                rep.dunno(r, f"verbosity {lv}", e.loc, show(t)[:80])
            elif v > 30 or e.fn is mk("ext", "logging.disable") and v >= 30:
                rep.bad(r, "level", e.loc, f"with verbosity {lv} the level is {v}: warnings are not shown")
                return
            else:
                n += 1
    rep.ok(r, f"{n} settings", loc)
