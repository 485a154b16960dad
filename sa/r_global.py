"""C19, C20: what the public functions may do to the process, and what they may remember.

Both work on the events (calls, writes, imports) of the abstract interpretation of every
public entry point, every node class, every writer and every card operation.

* the process: no call, write or file operation among those events changes the working
  directory, the environment, the import path, a global random generator, another
  process-wide setting, or creates a file;
* memory: an object that existed when the modules were imported (module globals, class
  attributes, default arguments, closures and results kept by a cache) is never changed
  by a call, and every call makes its own context.
"""
from __future__ import annotations

import ast
import os

from .audit_model import AuditModel
from .core import *
from .iomodel import A, LC, OBJ, P, SC, STATE, TRUSTED, U
from .r_audit import opaque, reads_archive
from .r_dump import dump_runs, get_state_run, tree_run
from .r_persist import DATA, FILE, LOADERS, Run

V = "skops.io._visualize"


# ------------------------------------------------------------------ runs
class Part:
    """events of one analysed entry, with a label"""

    def __init__(self, label, events, loc=None, value=None):
        self.label, self.events, self.loc, self.value = label, events, loc, value


def load_parts(M):
    """the entry points of the loading side and every node class, as (label, events)"""
    if hasattr(M, "_load_parts"):
        return M._load_parts
    out = []
    for name, args, kw in LOADERS:
        r = Run(M, name, args, {"trusted": TRUSTED})
        out.append(Part(name, r.events, r.loc))
    for kw in ({"data": DATA}, {"file": FILE}):
        r = Run(M, "get_untrusted_types", [], kw)
        out.append(Part("get_untrusted_types", r.events, r.loc))
    r = Run(M, "visualize", [FILE], {"trusted": TRUSTED}, mod=V)
    out.append(Part("visualize", r.events, r.loc))
    for n in M.nodes:
        for phase in ("init", "unsafe", "unsafe2", "self_safe", "is_safe", "format", "construct", "construct2"):
            out.append(Part(f"{n.label}.{phase}", getattr(n, phase + "_events"), n.loc,
                            n.value if phase == "construct" else None))
    done = set()
    kinds = [(k, p) for _, k, p, _ in M.regs if k is not None]
    for k, p in kinds[:3] + [kp for kp in kinds if kp[1] != cval(M.io.protocol)][:4] + \
            [("NdArrayNode", 0), ("NoSuchNode", cval(M.io.protocol))]:
        if (k, p) in done:
            continue
        done.add((k, p))
        for known in (False, True):
            r = tree_run(M, k, p, known=known)
            out.append(Part(f"get_tree({k}, protocol {p})", r.events, r.loc))
    M._load_parts = out
    return out


def dump_parts(M):
    if hasattr(M, "_dump_parts"):
        return M._dump_parts
    out = []
    for r in dump_runs(M):
        out.append(Part(r.func, r.events, r.loc))
    gs = get_state_run(M)
    out.append(Part("get_state", gs.events, gs.loc))
    seen = set()
    for g, t, f, loc in M.io.writers():
        for x in M.I._alts(f):
            if x.op not in ("fn", "partial") or x in seen:
                continue
            seen.add(x)
            v, ev = M.io.write(x)
            out.append(Part("writer of " + show(t)[:40], ev, loc))
    out += helper_parts(M)
    M._dump_parts = out
    return out


HELPERS = (("get_module", 1), ("gettype", 2), ("get_type_name", 1), ("get_type_paths", 1))


def helper_parts(M):
    """the utilities behind the boundaries"""
    I = M.I
    out = []
    for name, n in HELPERS:
        f = I.get_global(U, name)
        if f is None or f.op != "fn":
            continue
        q = I.fns[f.a[1]].qual
        ic = I.intercepts.pop(q, None)
        I.reset_control()
        I.symattrs = {}
        n0 = len(I.events)
        I.enter(U)
        try:
            I.call(f, [mk("sym", f"arg{i}") for i in range(n)], {}, None)
        finally:
            I.frames.pop()
            if ic is not None:
                I.intercepts[q] = ic
        out.append(Part(name, I.events[n0:], (I.fns[f.a[1]].file, I.fns[f.a[1]].node.lineno)))
    return out


# ------------------------------------------------------------------ process state
# (dotted prefix or exact name) -> what it changes
EXACT = {
    "os.chdir": "the working directory", "os.fchdir": "the working directory", "os.chroot": "the root directory",
    "contextlib.chdir": "the working directory", "os.putenv": "the environment", "os.unsetenv": "the environment",
    "os.umask": "the file mode mask", "os.nice": "the priority", "os.setsid": "the session",
    "sys.setrecursionlimit": "the recursion limit", "sys.settrace": "the trace function",
    "sys.setprofile": "the profile function", "sys.setswitchinterval": "the switch interval",
    "threading.settrace": "the trace function", "threading.setprofile": "the profile function",
    "threading.stack_size": "the thread stack size", "locale.setlocale": "the locale",
    "gc.disable": "the garbage collector", "gc.enable": "the garbage collector", "gc.set_threshold": "the garbage collector",
    "gc.freeze": "the garbage collector", "signal.signal": "a signal handler", "signal.alarm": "the alarm",
    "signal.setitimer": "the alarm", "resource.setrlimit": "a resource limit", "faulthandler.enable": "the fault handler",
    "faulthandler.disable": "the fault handler", "socket.setdefaulttimeout": "the default timeout",
    "numpy.seterr": "numpy's error handling", "numpy.seterrcall": "numpy's error handling",
    "numpy.set_printoptions": "numpy's print options", "numpy.setbufsize": "numpy's buffer size",
    "sklearn.set_config": "sklearn's configuration", "pandas.set_option": "pandas' options",
    "pandas.reset_option": "pandas' options", "matplotlib.use": "matplotlib's backend",
    "matplotlib.pyplot.switch_backend": "matplotlib's backend", "matplotlib.style.use": "matplotlib's style",
    "matplotlib.pyplot.style.use": "matplotlib's style", "matplotlib.rc": "matplotlib's settings",
    "matplotlib.pyplot.rc": "matplotlib's settings", "decimal.setcontext": "the decimal context",
    "warnings.resetwarnings": "the warning filters", "importlib.reload": "an imported module",
    "importlib.invalidate_caches": "the import caches", "builtins.breakpoint": "the debugger",
    "sys.path.append": "sys.path", "sys.path.insert": "sys.path", "sys.path.extend": "sys.path",
    "sys.path.remove": "sys.path", "sys.path.pop": "sys.path", "sys.path.clear": "sys.path", "site.addsitedir": "sys.path",
    "os.environ.update": "the environment", "os.environ.setdefault": "the environment", "os.environ.pop": "the environment",
    "os.environ.clear": "the environment", "os.environ.popitem": "the environment",
    "sys.modules.pop": "sys.modules", "sys.modules.update": "sys.modules", "sys.modules.clear": "sys.modules",
    "sys.modules.setdefault": "sys.modules", "logging.disable": "the logging level", "logging.basicConfig": "the logging set-up",
    "sys.set_int_max_str_digits": "the integer conversion limit", "os.setuid": "the user", "os.setgid": "the group",
    "multiprocessing.set_start_method": "the process start method", "time.tzset": "the time zone",
    "scipy.special.seterr": "scipy's error handling",
}
DIES = {"os._exit", "os.abort", "os.kill", "os.killpg", "sys.exit", "builtins.exit", "builtins.quit", "signal.raise_signal",
        "os.execv", "os.execve", "os.execvp", "os.fork", "ctypes.string_at", "_thread.interrupt_main"}
# settings held in an attribute or a mapping: writing them is a change of the process
HOLDERS = ("os.environ", "sys.path", "sys.modules", "sys.meta_path", "sys.path_hooks", "sys.argv", "sys.stdout", "sys.stderr",
           "sys.flags", "os.environb", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "warnings.filters",
           "sys.path_importer_cache", "builtins", "copyreg.dispatch_table", "numpy.random.mtrand._rand")
RNG = {"seed", "set_state", "rand", "randn", "randint", "random", "random_sample", "ranf", "sample", "choice", "bytes",
       "shuffle", "permutation", "uniform", "normal", "standard_normal", "beta", "binomial", "exponential", "poisson",
       "gamma", "lognormal", "laplace", "multinomial", "dirichlet", "setstate", "getrandbits", "randrange", "choices",
       "betavariate", "gauss", "normalvariate", "triangular", "random_integers", "set_bit_generator", "randbytes",
       "integers", "permuted", "set_state_"}
MUTATORS = {"append", "add", "update", "setdefault", "pop", "popleft", "popitem", "clear", "extend", "extendleft", "appendleft",
            "insert", "remove", "discard", "set", "reset", "put", "send", "write", "writestr", "seed", "shuffle", "sort",
            "reverse", "__setitem__", "__delitem__", "__next__", "set_state", "push", "move_to_end", "subtract", "register",
            "rotate", "appendleft", "difference_update", "intersection_update", "symmetric_difference_update", "__setattr__",
            "__iadd__", "__ior__", "simplefilter", "append_row", "increment", "fill", "resize", "truncate", "seek"}


def dotted(t):
    """dotted name of an external object or attribute of one, or None"""
    if not isinstance(t, T):
        return None
    if t.op == "ext":
        return t.a[0]
    if t.op == "attr":
        b = dotted(t.a[0])
        return None if b is None else b + "." + str(t.a[1])
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("importlib.import_module", "builtins.__import__") and \
            t.a[1] and is_str(t.a[1][0]) and cval(t.a[1][0]):
        return cval(t.a[1][0])
    return None


def global_rng(t):
    """t denotes a random generator shared by the whole process"""
    n = dotted(t)
    if n in ("numpy.random", "random", "numpy.random.mtrand", "numpy.random.mtrand._rand", "random._inst", "numpy.random._rand"):
        return n
    if t.op == "call" and callee(t) in ("sklearn.utils.check_random_state", "sklearn.utils.validation.check_random_state",
                                        "scipy._lib._util.check_random_state"):
        a = t.a[1]
        if not a or a[0] is NONE or global_rng(a[0]):
            return "the global numpy generator (check_random_state(None))"
    if t.op == "attr" and t.a[1] in ("__self__",):
        b = dotted(t.a[0])
        if b and b.startswith(("numpy.random.", "random.")):
            return "the generator behind " + b
    if t.op == "call" and callee(t) == "builtins.getattr" and len(t.a[1]) > 1:
        if global_rng(t.a[1][0]) and is_str(t.a[1][1]) and cval(t.a[1][1]) in ("_rand",):
            return "numpy.random.mtrand._rand"
    return None


def process_effect(e, fn, args, guarded=False):
    """what of the process this event changes -> (name, what) or None"""
    if e.kind in ("call", "new"):
        n = dotted(fn)
        if n in EXACT:
            return n, EXACT[n]
        if n in DIES:
            return n, "whether the process lives"
        if fn.op == "attr" and fn.a[1] in RNG | MUTATORS:
            g = global_rng(fn.a[0])
            if g and fn.a[1] in RNG:
                return n or f"{g}.{fn.a[1]}", "a global random generator"
            b = dotted(fn.a[0])
            if b in HOLDERS and fn.a[1] in MUTATORS:
                return n, b
        if n is not None and "." in n:
            b, last = n.rsplit(".", 1)
            if b in HOLDERS and last in MUTATORS:
                return n, b
            if last in RNG and b in ("numpy.random", "random", "numpy.random.mtrand", "numpy.random.mtrand._rand"):
                return n, "a global random generator"
            if n in ("warnings.simplefilter", "warnings.filterwarnings") and not guarded:
                return n, "the warning filters"
            if n.startswith("matplotlib.pyplot.") and last in PYPLOT:
                return n, "pyplot's current figure, which every thread shares"
        if n in ("builtins.setattr", "builtins.delattr", "setattr") and args:
            b = dotted(args[0])
            if b is not None:
                return f"setattr({b}, ...)", b
    elif e.kind in ("setitem", "delitem", "setattr", "delattr", "mut"):
        b = dotted(fn)
        if b is not None:
            return f"{e.kind} on {b}", b
        g = global_rng(fn)
        if g:
            return f"{e.kind} on {g}", "a global random generator"
    elif e.kind == "raise":
        names = e.x or ()
        for x in ("SystemExit", "KeyboardInterrupt", "GeneratorExit"):
            t = e.fn
            top = dotted(t) or (callee(t) if isinstance(t, T) and t.op == "call" else None)
            if top == "builtins." + x and not e.caught:
                return "raise " + x, "whether the process lives"
    return None


PYPLOT = {"savefig", "title", "xlabel", "ylabel", "plot", "gca", "gcf", "boxplot", "bar", "barh", "hist", "legend", "sca", "sci",
          "clf", "cla", "scatter", "imshow", "xticks", "yticks", "tight_layout", "suptitle", "axes", "subplot", "axis", "grid",
          "colorbar", "text", "annotate", "ylim", "xlim", "draw", "show"}


def freeze_ev(I, e):
    fn = I.freeze(e.fn) if isinstance(e.fn, T) else e.fn
    return fn, tuple(I.freeze(a) for a in e.args if isinstance(a, T)), {k: I.freeze(v) for k, v in e.kw if isinstance(v, T)}


def func_of(e):
    return e.stack[-1] if e.stack else "?"


def scan_process(rep, rid, I, parts, files=False):
    """no event of the parts changes the process"""
    for part in parts:
        bad = 0
        n = inside = 0
        for e in part.events:
            if e.imp:
                continue
            fn, args, kw = freeze_ev(I, e)
            if not isinstance(fn, T):
                continue
            if e.kind in ("enter", "exit") and fn.op == "call" and callee(fn) == "warnings.catch_warnings":
                inside += 1 if e.kind == "enter" else -1
            n += 1
            x = process_effect(e, fn, args, inside > 0)
            if x is not None:
                bad += 1
                rep.bad(rid, f"{x[0]}", e.loc, f"{part.label}: {func_of(e)} changes {x[1]} ({x[0]})")
        if not bad:
            rep.ok(rid, f"{part.label}: {n} calls and writes", part.loc)


# ------------------------------------------------------------------ C19
OPENS = {"builtins.open": 1, "io.open": 1, "codecs.open": 1, "gzip.open": 1, "bz2.open": 1, "lzma.open": 1, "os.fdopen": 1,
         "io.FileIO": 1, "zipfile.ZipFile": 1, "tarfile.open": 1, "tarfile.TarFile": 1, "gzip.GzipFile": 1, "h5py.File": 1}
CREATES = {"os.mkdir", "os.makedirs", "os.mknod", "os.mkfifo", "os.symlink", "os.link", "os.rename", "os.replace", "os.remove",
           "os.unlink", "os.rmdir", "os.truncate", "os.utime", "os.chmod", "os.chown", "os.open", "os.removedirs", "os.renames",
           "numpy.save", "numpy.savez", "numpy.savez_compressed", "numpy.savetxt", "numpy.memmap",
           "numpy.lib.format.open_memmap", "scipy.sparse.save_npz", "scipy.io.savemat", "scipy.io.mmwrite", "logging.FileHandler",
           "pickle.dump", "joblib.dump", "marshal.dump", "shelve.open", "dbm.open", "sqlite3.connect", "zipfile.PyZipFile"}
CREATE_PREFIX = ("tempfile.", "shutil.", "subprocess.", "multiprocessing.")
CREATE_METHODS = {"extract", "extractall", "write_text", "write_bytes", "touch", "mkdir", "tofile", "symlink_to", "hardlink_to",
                  "rename", "unlink", "rmdir", "to_csv", "to_pickle", "savefig"}
IN_MEMORY = ("io.BytesIO", "io.StringIO")


def rule_clean(rep, M, p):
    """process state and files"""
    r = p + ".process"
    rep.rule(r, "nothing reachable from load, loads, get_untrusted_types and visualize changes the working directory, the environment, "
                "the import path, a global random generator or another process-wide setting, or ends the process")
    parts = load_parts(M)
    scan_process(rep, r, M.I, parts)
    r = p + ".files"
    rep.rule(r, "nothing reachable from load, loads, get_untrusted_types and visualize creates, changes or removes a file")
    for part in parts:
        bad = n = 0
        for e in part.events:
            if e.imp or e.kind not in ("call", "new"):
                continue
            fn, args, kw = freeze_ev(M.I, e)
            if not isinstance(fn, T):
                continue
            n += 1
            x = file_effect(fn, args, kw)
            if x is None:
                continue
            if x[0] == "bad":
                bad += 1
                rep.bad(r, x[1], e.loc, f"{part.label}: {func_of(e)} {x[2]}")
            else:
                bad += 1
                rep.dunno(r, f"{part.label}: {x[1]}", e.loc, x[2])
        if not bad:
            rep.ok(r, f"{part.label}: {n} calls", part.loc)


def file_effect(fn, args, kw):
    n = dotted(fn)
    if n in OPENS:
        i = OPENS[n]
        mode = args[i] if len(args) > i else kw.get("mode", const("r"))
        tgt = args[0] if args else kw.get("file", kw.get("name"))
        if tgt is not None and tgt.op == "call" and callee(tgt) in IN_MEMORY:
            return None
        if is_str(mode):
            if set(cval(mode)) & set("wax+"):
                return "bad", n, f"opens {show(tgt)[:60]} with mode {cval(mode)!r}"
            return None
        if is_const(mode):
            return None
        if reads_archive(mode):
            return "bad", n, f"opens {show(tgt)[:60]} with a mode from the archive"
        return "dunno", n, f"opens {show(tgt)[:60]} with mode {show(mode)[:60]}"
    if n in CREATES or n is not None and n.startswith(CREATE_PREFIX) and n not in ("tempfile.gettempdir",):
        return "bad", n, f"calls {n}"
    if fn.op == "attr" and fn.a[1] in CREATE_METHODS:
        b = fn.a[0]
        if fn.a[1] in ("rename",) and not (b.op == "call" and (callee(b) or "").startswith("pathlib.")):
            return None
        return "bad", "." + str(fn.a[1]), f"calls {show(fn)[:60]}"
    if fn.op == "attr" and fn.a[1] == "open":
        b = fn.a[0]
        mode = args[0] if args and not contains(b, LC) and b is not LC else None
        if b.op == "call" and (callee(b) or "").startswith("pathlib.") or b is FILE:
            mode = args[0] if args else kw.get("mode", const("r"))
        else:
            mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
        if is_str(mode) and set(cval(mode)) & set("wax+"):
            return "bad", ".open", f"opens {show(b)[:60]} with mode {cval(mode)!r}"
    return None


# ---- native decoders
UNSAFE_NATIVE = {
    "marshal.loads": "marshal", "marshal.load": "marshal", "numpy.lib.stride_tricks.as_strided": "as_strided",
    "types.CodeType": "a code object", "numpy.lib.stride_tricks.DummyArray": "raw memory", "numpy.ctypeslib.as_array": "raw memory",
    "numpy.core.multiarray._reconstruct": "an unchecked array", "numpy.core.multiarray.scalar": "an unchecked scalar",
    "pickle.loads": "pickle", "pickle.load": "pickle", "pickle.Unpickler": "pickle", "_pickle.loads": "pickle",
    "joblib.load": "pickle", "pandas.read_pickle": "pickle", "dill.loads": "pickle", "cloudpickle.loads": "pickle",
    "numpy.DataSource": "a file", "_pickle.load": "pickle", "cloudpickle.load": "pickle", "shelve.open": "pickle",
    "numpy.lib.format.open_memmap": "a file",
}
NP_LOADS = {"numpy.load": 2, "numpy.lib.npyio.load": 2, "numpy.lib.format.read_array": 1, "numpy.lib.npyio.NpzFile": 2}


def rule_native(rep, M, p):
    r = p + ".decoders"
    rep.rule(r, "binary members are decoded with pickling off and numpy's limit on the header kept; no decoder that trusts its input "
                "(pickle, marshal, raw memory) is reached")
    reached = 0
    for part in load_parts(M):
        for e in part.events:
            if e.imp or e.kind not in ("call", "new"):
                continue
            fn, args, kw = freeze_ev(M.I, e)
            n = dotted(fn) if isinstance(fn, T) else None
            if n is None:
                if isinstance(fn, T) and fn.op == "attr" and fn.a[1] in ("read_array",):
                    rep.dunno(r, f"{part.label}: {show(fn)[:60]}", e.loc, "decoder not modelled")
                continue
            if n in UNSAFE_NATIVE or n.startswith("ctypes."):
                rep.bad(r, n, e.loc, f"{part.label}: {func_of(e)} decodes with {n}: {UNSAFE_NATIVE.get(n, 'raw memory')} crashes or runs "
                                     "code on malformed input")
                continue
            if n in NP_LOADS:
                reached += 1
                pk = args[NP_LOADS[n]] if len(args) > NP_LOADS[n] else kw.get("allow_pickle", FALSE)
                hs = kw.get("max_header_size")
                mm = args[1] if len(args) > 1 and n.endswith(".load") else kw.get("mmap_mode", NONE)
                ok = True
                if pk is not FALSE:
                    ok = False
                    if is_const(pk) or reads_archive(pk):
                        rep.bad(r, "allow_pickle", e.loc, f"{part.label}: {n} with allow_pickle={show(pk)[:60]}: a corrupted member is "
                                                          "unpickled")
                    else:
                        rep.dunno(r, f"{part.label}: {n}", e.loc, f"allow_pickle={show(pk)[:80]}")
                if hs is not None and not (is_const(hs) and type(cval(hs)) is int and cval(hs) <= 10000):
                    ok = False
                    if is_const(hs):
                        rep.bad(r, "max_header_size", e.loc, f"{part.label}: {n} with max_header_size={show(hs)}: a crafted header crashes "
                                                             "the parser (numpy documents this)")
                    else:
                        rep.dunno(r, f"{part.label}: {n} header", e.loc, f"max_header_size={show(hs)[:60]}")
                if ok:
                    rep.ok(r, f"{part.label}: {n}", e.loc)
            elif n in ("scipy.sparse.load_npz", "json.loads", "json.load", "numpy.frombuffer"):
                reached += 1
                rep.ok(r, f"{part.label}: {n}", e.loc)
    if not reached:
        rep.dunno(r, "decoders", None, "no decoder is reached by the analysis")


# ---- amounts
ALLOC = {"numpy.empty", "numpy.zeros", "numpy.ones", "numpy.full", "builtins.bytearray", "builtins.bytes", "numpy.arange",
         "numpy.eye", "numpy.identity", "numpy.linspace", "numpy.ndarray", "itertools.repeat", "numpy.tile", "numpy.repeat",
         "numpy.resize", "time.sleep", "numpy.ma.masked_all", "numpy.indices"}


def is_number_of(t):
    """a value of the schema itself (not a length, not a decoded object)"""
    if t.op == "item":
        x = t
        while x.op == "item":
            x = x.a[0]
        return x is STATE
    if t.op in ("tuple",) or t.op.split(":")[0] == "list":
        return any(is_number_of(x) for x in t.a if isinstance(x, T))
    if t.op == "op":
        return any(is_number_of(x) for x in t.a if isinstance(x, T))
    if t.op == "call" and callee(t) in ("builtins.int", "builtins.abs", "builtins.tuple", "builtins.max", "builtins.list"):
        return any(is_number_of(x) for x in t.a[1])
    if t.op == "elem":
        return is_number_of(t.a[0])
    return False


def rule_amounts(rep, M, p):
    r = p + ".amounts"
    rep.rule(r, "no loop, allocation, repetition or power has a size that the schema merely names: work is bounded by the size of the archive")
    for part in load_parts(M):
        bad = n = 0
        for e in part.events:
            if e.imp:
                continue
            fn, args, kw = freeze_ev(M.I, e)
            if not isinstance(fn, T):
                continue
            vals = list(args) + list(kw.values())
            if e.kind in ("call", "new"):
                n += 1
                nm = dotted(fn)
                if nm in ALLOC and any(is_number_of(a) for a in vals):
                    if nm in ("builtins.bytes", "builtins.bytearray"):
                        continue
                    bad += 1
                    rep.bad(r, nm, e.loc, f"{part.label}: {func_of(e)} calls {nm} with a size read from the schema: a corrupted number "
                                          "exhausts memory or time")
                if nm in ALLOC and nm.startswith("numpy."):
                    big = [u for a in vals for u in subterms(a) if u.op == "cons" and not any(
                        u in subterms(k) and k.op == "call" and k is not u for k in subterms(a))]
                    size = [a for a in vals if a.op == "cons" or a.op in ("tuple", "op") and any(u.op == "cons" for u in a.a if
                                                                                                  isinstance(u, T))]
                    if size and big and not checked_before(M.I, part, e, big):
                        bad += 1
                        rep.bad(r, nm + " of a member", e.loc, f"{part.label}: {func_of(e)} calls {nm} with a size that the archive names, "
                                                               "before anything compared it with what the archive holds")
            for g, pol in e.guard:
                for x in subterms(g):
                    if x.op == "each" and x.a[0].op == "range" and any(is_number_of(y) for y in x.a[0].a if isinstance(y, T)):
                        bad += 1
                        rep.bad(r, "range", e.loc, f"{part.label}: {func_of(e)} repeats work as often as a number in the schema says")
            for v in vals:
                for x in subterms(v):
                    if x.op == "op" and x.a[0] in ("*", "**", "<<") and any(is_number_of(y) for y in x.a[1:] if isinstance(y, T)):
                        ks = [y for y in x.a[1:] if isinstance(y, T)]
                        if x.a[0] != "*" or any(y.op.split(":")[0] in ("list", "tuple") or is_str(y) for y in ks):
                            bad += 1
                            rep.bad(r, "repeat", e.loc, f"{part.label}: {func_of(e)} builds a value whose size is a number in the schema")
        if isinstance(part.value, T) and not bad:
            for x in subterms(part.value):
                if x.op == "range" and any(is_number_of(y) for y in x.a if isinstance(y, T)):
                    bad += 1
                    rep.bad(r, "range", part.loc, f"{part.label}: the object has as many elements as a number in the schema says")
        if not bad:
            rep.ok(r, f"{part.label}: {n} calls", part.loc)


def checked_before(I, part, e, sizes):
    """something other than their own construction looked at the sizes before the event"""
    for u in sizes:
        if any(u in subterms(g) for g, _ in e.guard):
            return True
    for x in part.events:
        if x.seq >= e.seq or x.imp or x.kind in ("construct", "import"):
            continue
        fn, args, kw = freeze_ev(I, x)
        for a in list(args) + list(kw.values()):
            if any(u in subterms(a) for u in sizes):
                return True
    return False


# ---- loops
def load_functions(M):
    """qualified names of the functions the loading side runs: analysed so far on a loader-only model"""
    if not hasattr(M, "_load_fns"):
        names = set()
        for part in load_parts(M):
            for e in part.events:
                if not e.imp:
                    names.update(e.stack)
        M._load_fns = names
    return M._load_fns


def rule_loops(rep, M, p):
    r = p + ".termination"
    rep.rule(r, "every while loop on the loading side takes from a collection that it only refills with elements not seen before, counts, or "
                "reads an input to its end; none follows references without remembering where it has been; no handler that "
                "swallows RecursionError sits around a recursive walk; each audit visits a shared node once")
    I = M.I
    names = load_functions(M)
    seen = set()
    count = 0
    for f in I.fns:
        if f.qual not in names and not any(f.qual.startswith(n + ".") for n in names):
            continue
        if id(f.node) in seen or isinstance(f.node, ast.Lambda):
            continue
        seen.add(id(f.node))
        for w in own_nodes(f.node):
            if isinstance(w, ast.While):
                count += 1
                v, why = judge_while(w, f.node)
                loc = (f.file, w.lineno)
                if v == "ok":
                    rep.ok(r, f"{f.qual}: while loop ({why})", loc)
                elif v == "bad":
                    rep.bad(r, f"{f.qual}:while", loc, f"{f.qual}: {why}")
                else:
                    rep.dunno(r, f"{f.qual}: while loop", loc, why)
            elif isinstance(w, (ast.For, ast.comprehension)):
                it = w.iter
                if isinstance(it, ast.Call):
                    nm = ast.unparse(it.func)
                    if nm.rsplit(".", 1)[-1] in ("count", "cycle") or nm == "iter" and len(it.args) == 2 or \
                            nm.rsplit(".", 1)[-1] == "repeat" and len(it.args) == 1:
                        if not has_exit(w):
                            rep.bad(r, f"{f.qual}:for", (f.file, it.lineno), f"{f.qual}: the loop over {nm} never ends")
                        else:
                            rep.dunno(r, f"{f.qual}: loop over {nm}", (f.file, it.lineno), "end condition not decided")
                count += 1
        # handlers around a recursive walk
        for t in own_nodes(f.node):
            if not isinstance(t, ast.Try):
                continue
            rec = recursive_calls(t.body, f, I)
            if not rec:
                continue
            for h in t.handlers:
                ns = handler_names(h)
                if ns & {"RecursionError", "RuntimeError", "Exception", "BaseException", "*"}:
                    if not always_raises(h.body):
                        rep.bad(r, f"{f.qual}:swallow", (f.file, h.lineno),
                                f"{f.qual} swallows the RecursionError of {rec[0]}: on a cycle the walk goes on at every level and "
                                "does not end")
                    else:
                        rep.ok(r, f"{f.qual}: handler re-raises", (f.file, h.lineno))
    rep.ok(r, f"{count} loops in {len(seen)} functions of the loading side")
    # a shared node is audited once per reference
    owners = {}
    for n in M.nodes:
        calls = [e for e in n.unsafe2_events if e.kind == "nodecall" and e.x == "get_unsafe_set"]
        if calls:
            e = calls[0]
            owners.setdefault(func_of(e), (e.loc, n.label))
    for q, (loc, label) in sorted(owners.items())[:1]:
        rep.bad(r, "audit:rewalk", loc, f"{q} audits a node again for every reference to it: a chain of n lists holding the next one "
                                        "twice by id takes 2**n steps")
    if not owners:
        rep.ok(r, "the audit visits each node once")


def own_nodes(fn):
    todo = list(fn.body) if hasattr(fn, "body") else []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def handler_names(h):
    if h.type is None:
        return {"*"}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {ast.unparse(t).rsplit(".", 1)[-1] for t in ts}


def always_raises(body):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
    return False


WALKS = {"get_unsafe_set", "construct", "_construct", "get_tree", "walk_tree", "is_safe"}


def recursive_calls(body, f, I):
    """names of calls in body that (may) come back to f"""
    out = []
    me = f.qual.rsplit(".", 1)[-1]
    local = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm == me or me in WALKS and nm in WALKS or me == "__init__" and nm == "get_tree" or \
                        me == "get_tree" and isinstance(n.func, ast.Name) and nm in local and len(n.args) + len(n.keywords) > 1:
                    out.append(nm)
    return out


def has_exit(loop):
    if isinstance(loop, ast.comprehension):
        return False
    todo = list(loop.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.Return, ast.Raise)):
            return True
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While)):
            # a break inside belongs to the inner loop
            for x in ast.walk(n):
                if isinstance(x, (ast.Return, ast.Raise)):
                    return True
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


TAKES = {"pop", "popleft", "popitem", "get_nowait"}
PUTS = {"append", "extend", "appendleft", "extendleft", "insert", "add", "update", "put", "push", "heappush"}


def roots(e):
    """names and dotted attributes an expression reads"""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add(ast.unparse(n))
    return out


def judge_while(w, fn):
    test = w.test
    forever = isinstance(test, ast.Constant) and bool(test.value)
    body = list(own_nodes(ast.Module(body=w.body, type_ignores=[])))
    takes, puts = {}, {}
    for n in body:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            base = ast.unparse(n.func.value)
            if n.func.attr in TAKES:
                takes.setdefault(base, []).append(n)
            elif n.func.attr in PUTS:
                puts.setdefault(base, []).append(n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("heappop", "heappush") and n.args:
            (takes if n.func.id == "heappop" else puts).setdefault(ast.unparse(n.args[0]), []).append(n)
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
            b = ast.unparse(n.target)
            puts.setdefault(b, []).append(n)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    takes.setdefault(ast.unparse(t.value), []).append(n)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.Name)):
            # a, *rest = rest ; rest = rest[1:]
            for t in (n.targets[0].elts if isinstance(n.targets[0], ast.Tuple) else []):
                if isinstance(t, ast.Starred) and ast.unparse(t.value) == ast.unparse(n.value):
                    takes.setdefault(ast.unparse(n.value), []).append(n)
            if isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Subscript) and \
                    isinstance(n.value.slice, ast.Slice) and ast.unparse(n.value.value) == n.targets[0].id:
                takes.setdefault(n.targets[0].id, []).append(n)
    used = roots(test)
    for b in takes:
        if not (b in used or forever):
            continue
        if b not in puts:
            if forever and not has_exit(w):
                # pop of an empty collection raises
                pass
            return "ok", f"takes from {b}"
        if guarded_puts(w, fn, puts[b]):
            return "ok", f"takes from {b}, refilled with unseen elements only"
        if refills_parts(w, takes[b], puts[b]):
            return "bad", (f"the loop takes from {b} and puts the elements' parts back without remembering what was seen: "
                           "on a cycle it never ends")
        return "dunno", f"takes from {b} and refills it"
    # refills before the loop's condition: work list in two names (level, next level)
    for n in body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in used:
            x = n.targets[0].id
            reads = {m.id for m in ast.walk(n.value) if isinstance(m, ast.Name)}
            if isinstance(n.value, ast.Name) and n.value.id in puts:
                if guarded_puts(w, fn, puts[n.value.id]):
                    return "ok", f"{x} is refilled with unseen elements only"
                return "bad", f"the loop replaces {x} by its elements' parts without remembering what was seen: on a cycle it never ends"
            if x in reads and (isinstance(n.value, (ast.Attribute, ast.Subscript)) or
                               isinstance(n.value, ast.Call)) and not isinstance(n.value, ast.BinOp):
                if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "next":
                    continue
                if has_seen_guard(w, fn):
                    return "ok", f"follows {x} and remembers where it has been"
                if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
                        n.value.func.attr in ("strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "replace", "partition"):
                    return "dunno", f"shortens {x}"
                return "bad", f"the loop follows {ast.unparse(n.value)[:60]} without remembering where it has been: on a cycle it never ends"
    # counters
    for n in body:
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub, ast.FloorDiv)) and ast.unparse(n.target) in used:
            return "ok", f"counts {ast.unparse(n.target)}"
    if forever or True:
        reads = [n for n in body if isinstance(n, ast.Call) and (
            isinstance(n.func, ast.Attribute) and n.func.attr in ("read", "readline", "recv", "get_nowait", "__next__", "read1") or
            isinstance(n.func, ast.Name) and n.func.id == "next")]
        if reads and (has_exit(w) or any(isinstance(m, ast.NamedExpr) for m in ast.walk(test))):
            for t in body:
                if isinstance(t, ast.Try):
                    for h in t.handlers:
                        if any(isinstance(x, ast.Continue) for x in ast.walk(h)) or not has_exit_stmts(h.body):
                            return "dunno", "a handler keeps the loop going"
            return "ok", "reads to the end of an input"
    for t in body:
        if isinstance(t, ast.Try):
            for h in t.handlers:
                if forever and not has_exit_stmts(h.body):
                    return "bad", "the loop tries again for as long as the operation fails: on a malformed archive it never ends"
    if forever and not has_exit(w):
        return "bad", "the loop has no exit"
    return "dunno", "no decreasing quantity recognised"


def has_exit_stmts(body):
    return any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for s in body for x in ast.walk(s))


def seen_names(w, fn):
    """names that the loop both tests membership of and adds to"""
    tests, adds = set(), set()
    for n in ast.walk(w):
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            for c in n.comparators:
                tests.add(ast.unparse(c))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "append", "setdefault", "update"):
            adds.add(ast.unparse(n.func.value))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    adds.add(ast.unparse(t.value))
        elif isinstance(n, ast.AugAssign):
            adds.add(ast.unparse(n.target))
    return tests & adds


def has_seen_guard(w, fn):
    return bool(seen_names(w, fn))


def guarded_puts(w, fn, puts):
    return has_seen_guard(w, fn)


def refills_parts(w, takes, puts):
    return True


# ------------------------------------------------------------------ C20
WRITES = ("setattr", "setitem", "delitem", "delattr", "mut", "global-write", "sdregister")


def shared_values(I):
    """results of external calls that module globals, class attributes and default arguments hold"""
    out = {}
    for m in I.modules.values():
        for k, v in list(m.env.items()):
            if isinstance(v, T):
                for x in I._alts(v):
                    if x.op in ("call", "partial"):
                        out.setdefault(x, f"{m.name}.{k}")
    for c in I.classes.values():
        for k, v in list(getattr(c, "ns", {}).items()):
            if isinstance(v, T) and v.op == "call":
                out.setdefault(v, f"{c.qual}.{k}")
    for f in I.fns:
        for v in list(f.defaults) + [x for x in f.kwdefaults if x is not None]:
            if v.op == "call":
                out.setdefault(v, f"a default argument of {f.qual}")
    return out


def holder_of(I, ref):
    """the name under which a shared object is known"""
    o = I.obj(ref)
    if o.note:
        return {"default-arg": "the default argument of ", "class-attr": "the class attribute "}.get(o.note[0], "") + str(o.note[1])
    for m in I.modules.values():
        for k, v in m.env.items():
            if isinstance(v, T) and ref in I._alts(v):
                return f"{m.name}.{k}"
    return f"an object made at {fmtloc(o.loc)}"


def write_target(I, e, held):
    """what process-wide object this event changes, or None"""
    if e.kind == "global-write":
        return "the module global " + str(cval(e.fn) if is_const(e.fn) else show(e.fn))
    f = e.fn
    if not isinstance(f, T):
        return None
    if e.kind == "sdregister":
        return "the dispatch registry " + show(f)[:60]
    if e.kind in WRITES:
        for x in I._alts(f):
            if x.op == "ref" and I.obj(x).shared:
                return holder_of(I, x)
            if x.op == "cls":
                return "the class " + x.a[0]
            if x.op == "mod":
                return "the module " + x.a[0]
            if x.op in ("fn", "cmfn", "sd"):
                return "an attribute of the function " + str(x.a[0])
            if x in held:
                return held[x]
            if x.op == "typeof":
                return "the class of " + show(x.a[0])[:40]
            b = dotted(x)
            if b is not None:
                return b
        return None
    if e.kind == "call":
        if f.op == "attr" and f.a[1] in MUTATORS and f.a[0] in held:
            return held[f.a[0]]
        if f.op == "ext" and f.a[0] in ("builtins.next", "builtins.setattr", "builtins.delattr") and e.args:
            a = I.simp(e.args[0])
            if a in held:
                return held[a]
            if a.op == "ref" and I.obj(a).shared:
                return holder_of(I, a)
            if a.op in ("cls", "mod", "fn"):
                return f"{a.op} {a.a[0]}"
    return None


ATTR_READS = ()


def scan_writes(rep, rid, I, parts, held=None):
    held = shared_values(I) if held is None else held
    for part in parts:
        bad = n = 0
        for e in part.events:
            if e.imp:
                continue
            n += e.kind in WRITES
            t = write_target(I, e, held)
            if t is None:
                continue
            if e.kind == "call" and "getLogger" in str(t):
                continue
            bad += 1
            rep.bad(rid, f"{t}", e.loc, f"{part.label}: {func_of(e)} writes to {t}, which later and concurrent calls share")
        if not bad:
            rep.ok(rid, f"{part.label}: {n} writes, all to objects of the call", part.loc)


def scan_caches(rep, rid, I, parts):
    """functions with a memoising decorator: their key must determine the result"""
    if not I.caches:
        rep.ok(rid, "no function of the package has a memoising decorator")
        return
    used = {}
    for part in parts:
        for e in part.events:
            if e.kind == "cachedcall":
                used.setdefault(e.fn.a[1], []).append((part, e))
    for n, dec in I.caches.items():
        fn = I.fns[n]
        loc = (fn.file, fn.node.lineno)
        if n not in used:
            rep.ok(rid, f"{fn.qual}: {dec}, not reached", loc)
            continue
        verdict = None
        for part, e in used[n]:
            for a in list(e.args) + [v for _, v in e.kw]:
                a = I.freeze(a)
                k = key_kind(I, a)
                if k in ("object",):
                    verdict = ("bad", f"{part.label}: {fn.qual} ({dec}) is keyed by {show(a)[:60]}: values that compare equal (1, 1.0, "
                                      "True) get each other's result, and the result of the first call stays")
                    break
                if k is None and verdict is None:
                    verdict = ("dunno", f"{part.label}: keyed by {show(a)[:80]}")
            if verdict and verdict[0] == "bad":
                break
        reads = cached_reads(I, parts, fn.qual)
        if reads and (verdict is None or verdict[0] != "bad"):
            verdict = ("bad", f"{fn.qual} ({dec}) keeps what {reads} gave for a file; a later call gives the old content")
        if verdict is None:
            rep.ok(rid, f"{fn.qual}: {dec}, keyed by names and types", loc)
        elif verdict[0] == "bad":
            rep.bad(rid, fn.qual, loc, verdict[1])
        else:
            rep.dunno(rid, f"{fn.qual}: {dec}", loc, verdict[1])


READERS = {"builtins.open", "io.open", "zipfile.ZipFile", "zipfile.is_zipfile", "joblib.load", "pickle.load", "numpy.load",
           "json.load", "os.path.exists", "os.path.getmtime", "os.stat", "os.listdir", "pandas.read_csv", "scipy.sparse.load_npz"}
READER_METHODS = {"exists", "read_text", "read_bytes", "stat", "is_file", "is_dir", "iterdir", "glob"}


def cached_reads(I, parts, qual):
    """the file read inside a memoised function, if any"""
    for part in parts:
        for e in part.events:
            if e.imp or e.kind not in ("call", "new") or not any(q == qual for q in e.stack):
                continue
            fn, args, kw = freeze_ev(I, e)
            n = dotted(fn)
            if n in READERS and not (args and args[0].op == "call" and callee(args[0]) in IN_MEMORY):
                return n
            if fn.op == "attr" and fn.a[1] in READER_METHODS and fn.a[0].op == "call" and \
                    (callee(fn.a[0]) or "").startswith(("pathlib.", "os.")):
                return f"{show(fn)[:40]}"
    return None


def key_kind(I, a):
    if a.op in ("const", "cls", "ext", "fn", "typeof", "mod", "modof", "concat", "str"):
        return "name"
    if a is OBJ or a.op in ("rawstate", "cons", "node", "inst"):
        return "object"
    if a.op in ("item", "elem", "attr", "idx"):
        x = a
        while x.op in ("item", "elem", "idx"):
            x = x.a[0]
        if x is STATE:
            return "name"
        if x.op == "attr" and x.a[1] in ("__name__", "__module__", "__qualname__", "__class__"):
            return "name"
        if x.op == "attr" or x is OBJ:
            y = x
            while y.op in ("attr", "item", "elem"):
                y = y.a[0]
            if y is OBJ:
                return "object"
        return None
    if a.op == "sym":
        return None
    if a.op == "tuple":
        ks = [key_kind(I, x) for x in a.a]
        return "object" if "object" in ks else None if None in ks else "name"
    return None


def rule_memory_io(rep, M, p):
    r = p + ".io-writes"
    rep.rule(r, "no call of dump, dumps, load, loads, get_untrusted_types or visualize changes an object that existed when the modules "
                "were imported (registry, module global, class attribute, default argument, closure, cached result)")
    parts = load_parts(M) + dump_parts(M)
    scan_writes(rep, r, M.I, parts)
    r = p + ".io-caches"
    rep.rule(r, "a memoised function is keyed by names and types only")
    scan_caches(rep, r, M.I, parts)
    r = p + ".io-process"
    rep.rule(r, "no call changes a process-wide setting or draws from a global random generator")
    scan_process(rep, r, M.I, parts)
    r = p + ".io-arguments"
    rep.rule(r, "the caller's trusted list is not changed")
    for part in load_parts(M):
        hits = [e for e in part.events if not e.imp and changes_arg(M.I, e, TRUSTED)]
        if hits:
            rep.bad(r, func_of(hits[0]), hits[0].loc, f"{part.label}: {func_of(hits[0])} changes the caller's trusted list")
        else:
            rep.ok(r, part.label, part.loc)
    r = p + ".io-contexts"
    rep.rule(r, "every call makes its own context with an empty memo")
    rule_contexts(rep, M, r)
    r = p + ".io-paths"
    rep.rule(r, "no call writes to a file whose name it does not get from its arguments")
    for part in parts:
        bad = 0
        for e in part.events:
            if e.imp or e.kind not in ("call", "new"):
                continue
            fn, args, kw = freeze_ev(M.I, e)
            if isinstance(fn, T):
                x = file_effect(fn, args, kw)
                if x is not None and x[0] == "bad" and args and dotted(fn) in OPENS and fixed_path(args[0]):
                    bad += 1
                    rep.bad(r, x[1], e.loc, f"{part.label}: {func_of(e)} {x[2]}: calls running at the same time share the file")
        if not bad:
            rep.ok(r, part.label, part.loc)


def fixed_path(t):
    """a path that does not depend on the arguments of the call nor on a fresh name"""
    if is_str(t):
        return True
    if any(x.op in ("sym", "unk", "node", "item", "elem") for x in subterms(t)):
        return False
    names = {callee(x) for x in subterms(t) if x.op == "call"}
    return bool(names) and names <= {"tempfile.gettempdir", "os.path.join", "pathlib.Path", "builtins.str", "os.getcwd",
                                     "os.path.expanduser", "os.path.abspath", "os.getpid", "pathlib.Path.cwd", "pathlib.Path.home"}


def changes_arg(I, e, arg):
    if e.kind in WRITES and isinstance(e.fn, T):
        return any(x is arg for x in I._alts(e.fn))
    if e.kind == "call" and isinstance(e.fn, T) and e.fn.op == "attr" and e.fn.a[0] is arg and e.fn.a[1] in MUTATORS:
        return True
    return False


def rule_contexts(rep, M, r):
    I = M.I
    for make, kind, cls in ((lambda: [Run(M, "load", [FILE], {"trusted": TRUSTED}), Run(M, "loads", [DATA], {"trusted": TRUSTED}),
                                      Run(M, "get_untrusted_types", [], {"data": DATA}),
                                      Run(M, "get_untrusted_types", [], {"file": FILE}),
                                      Run(M, "visualize", [FILE], {"trusted": TRUSTED}, mod=V)], "get_tree", M.io.lc_cls),
                            (lambda: [Run(M, "dump", [OBJ, FILE]), Run(M, "dumps", [OBJ])], "get_state", M.io.sc_cls)):
        one, two = make(), make()
        for a, b in zip(one, two):
            ca, cb = contexts(I, a, kind), contexts(I, b, kind)
            if not ca or not cb:
                rep.dunno(r, f"{a.func}: context", a.loc, f"no {kind} call with a context found")
                continue
            bad = None
            for t in ca:
                if t.op != "ref":
                    bad = ("dunno", f"the context is {show(t)[:80]}")
                    continue
                if I.obj(t).shared or t in cb:
                    bad = ("bad", "uses a context that other calls use too")
                    break
                for k, v in I.obj(t).attrs.items():
                    for x in I._alts(v):
                        if x.op == "ref" and I.obj(x).kind in ("dict", "list", "set") and (
                                I.obj(x).shared or any(x in I._alts(w) for u in cb if u.op == "ref" for w in I.obj(u).attrs.values())):
                            bad = ("bad", f"the {k} of its context is shared with other calls")
                    if bad and bad[0] == "bad":
                        break
                if bad and bad[0] == "bad":
                    break
            if bad is None:
                rep.ok(r, f"{a.func}: own context", a.loc)
            elif bad[0] == "bad":
                rep.bad(r, a.func, a.loc, f"{a.func} {bad[1]}")
            else:
                rep.dunno(r, a.func, a.loc, bad[1])


def contexts(I, run, kind):
    out = []
    for e in run.events:
        if e.kind == kind and len(e.args) > 1:
            for x in I._alts(e.args[1]):
                if x not in out:
                    out.append(x)
    return out


# ---- cards
def rule_memory_card(rep, ctx, p):
    """the runs of the card, builder and parser rules, examined for what they leave behind"""
    from . import r_build, r_card, r_parse
    C = ctx.card
    I = C.I
    quiet = Report(p)
    quiet.deadline, quiet.budget = rep.deadline, 40
    n0 = len(I.events)
    drivers = [(r_card.rule_tree, "card operations"), (r_card.rule_render, "rendering"), (r_build.rule_cells, "tables"),
               (r_build.rule_metrics, "metrics"), (r_build.rule_hyper, "hyperparameters"), (r_build.rule_place, "builders"),
               (r_build.rule_plot, "plots"), (r_build.rule_multi, "several sections"), (r_parse.rule_history, "conversions"),
               (r_parse.rule_entry, "parsing")]
    parts = []
    for f, label in drivers:
        a = len(I.events)
        quiet.guarded(f.__name__, f, quiet, ctx, p)
        I.reset_control()
        parts.append(Part(label, I.events[a:]))
    parts.append(templates_part(C))
    parts += more_parts(C)
    r = p + ".card-writes"
    rep.rule(r, "no card operation, rendering, parse or conversion changes an object that existed when the modules were imported, nor "
                "one that another card holds")
    scan_writes(rep, r, I, parts)
    r = p + ".card-caches"
    rep.rule(r, "a memoised function is keyed by names and types only")
    scan_caches(rep, r, I, parts)
    r = p + ".card-process"
    rep.rule(r, "no card operation changes a process-wide setting, draws from a global random generator or relies on pyplot's current figure")
    scan_process(rep, r, I, parts)
    r = p + ".card-paths"
    rep.rule(r, "no card operation writes to a file whose name it does not get from its arguments")
    for part in parts:
        bad = 0
        for e in part.events:
            if e.imp or e.kind not in ("call", "new"):
                continue
            fn, args, kw = freeze_ev(I, e)
            if isinstance(fn, T) and dotted(fn) in OPENS:
                x = file_effect(fn, args, kw)
                if x is not None and x[0] == "bad" and args and fixed_path(args[0]):
                    bad += 1
                    rep.bad(r, x[1], e.loc, f"{part.label}: {func_of(e)} {x[2]}")
        if not bad:
            rep.ok(r, part.label)


def templates_part(C):
    I = C.I
    n0 = len(I.events)
    from .terms import const as k
    for t in ("skops", "hub"):
        try:
            C.new_card(template=k(t))
        except Exception:
            pass
    d = I.new("dict")
    I.log(I.obj(d), "set", k("A"), k("text"))
    I.log(I.obj(d), "set", k("A/B"), k("text"))
    C.new_card(template=d)
    return Part("templates", I.events[n0:])


def more_parts(C):
    """operations the other drivers leave out"""
    I = C.I
    s = lambda n: mk("sym", n)  # noqa: E731
    jobs = [("importance plot", "add_permutation_importances", (s("importances"), s("columns")),
             {"plot_file": s("plot file"), "plot_name": s("plot name"), "description": s("description")}),
            ("fairness table", "add_fairlearn_metric_frame", (s("metric frame"),), {"description": s("description")}),
            ("get_model", "get_model", (), {}), ("saving", "save", (s("path"),), {}), ("get_toc", "get_toc", (), {}),
            ("repr", "__repr__", (), {})]
    out = []
    for label, name, args, kw in jobs:
        for model in (s("model"), mk("call", mk("ext", "pathlib.Path"), (s("model path"),), ())):
            n0 = len(I.events)
            try:
                c = C.new_card(model=model)
                C.method(c, "add", (), C.kwargs((const("A"), const("text"))))
                C.method(c, name, args, dict(kw))
            except AnalysisBroken:
                pass
            I.reset_control()
            out.append(Part(label, I.events[n0:]))
    return out


def reach_refs(I, t, stop=()):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T):
            continue
        for u in subterms(x):
            if u.op == "ref" and u not in seen and u not in stop:
                seen.add(u)
                o = I.obj(u)
                todo += list(o.attrs.values()) if o.attrs else []
                for e in o.log:
                    todo += [z for z in (e.key, e.val) if isinstance(z, T)]
    return seen


def rule_apart(rep, ctx, p):
    r = p + ".cards-apart"
    rep.rule(r, "two cards made with the same arguments have no list, dict, set or section in common, before and after sections and metrics "
                "are added to one of them; the other one stays as it was")
    from . import r_card
    from .strdom import content, txt
    C = ctx.card
    I = C.I
    k = const

    def tdict():
        d = I.new("dict")
        for a, b in (("A", "text"), ("A/B", "more"), ("C", "")):
            I.log(I.obj(d), "set", k(a), k(b))
        return d
    user = tdict()
    forms = [("no template", NONE), ("the default template", k("skops")), ("a template dict", user)]
    loc = (I.classes[C.cls["Card"].a[0]].file, I.classes[C.cls["Card"].a[0]].node.lineno)
    for what, t in forms:
        try:
            a, b = C.new_card(template=t), C.new_card(template=t)
        except AnalysisBroken:
            rep.dunno(r, what, loc, "Card(...) is not an instance")
            continue
        steps = [("made", lambda: None),
                 ("a section is added", lambda: C.method(a, "add", (), C.kwargs((k("A"), k("new")), (k("A/New"), k("sub")), (k("Z"), k("z"))))),
                 ("metrics are added", lambda: C.method(a, "add_metrics", (), C.kwargs((k("acc"), k(1))))),
                 ("a table is added", lambda: C.method(a, "add_table", (), C.kwargs((k("Tab"), table(I))))),
                 ("a plot is added", lambda: C.method(a, "add_plot", (), C.kwargs((k("Plot"), k("p.png"))))),
                 ("a section is selected", lambda: C.method(a, "select", (k("A"),))),
                 ("it is rendered", lambda: C.method(a, "render")),
                 ("a section is deleted", lambda: C.method(a, "delete", (k("Z"),)))]
        before = state_terms(I, b)
        failed = None
        for st, f in steps:
            o = f()
            ra, rb = mutable(I, a), mutable(I, b)
            common = [x for x in ra & rb if not (t.op == "ref" and x is t)]
            if common:
                failed = ("shared", f"after one of them was {st}" if st == "made" else f"after {st} to one of them" , common[0])
                break
            now = state_terms(I, b)
            if now != before:
                failed = ("changed", st, None)
                break
        if failed is None:
            rep.ok(r, f"two cards with {what}, {len(steps)} steps", loc)
        elif failed[0] == "shared":
            rep.bad(r, "shared", fmtloc(I.obj(failed[2]).loc) or loc,
                    f"two cards made with {what} share {describe(I, failed[2], a)}")
        else:
            rep.bad(r, "changed", loc, f"with {what}: after {failed[1]} to one card, another card made before has changed")
    # a later card does not see what was done to an earlier one
    for what, t in forms[:2] + [("a template dict", tdict())]:
        a = C.new_card(template=t)
        z = frozen_card(I, a)
        C.method(a, "add", (), C.kwargs((k("A"), k("new")), (k("Z"), k("z"))))
        C.method(a, "add_metrics", (), C.kwargs((k("acc"), k(1))))
        c = C.new_card(template=t)
        if frozen_card(I, c) == z:
            rep.ok(r, f"a card with {what} made after another one was changed", loc)
        else:
            rep.bad(r, "later", loc, f"a card made with {what} after another one was changed is not the one a fresh process gives")


def table(I):
    d = I.new("dict")
    I.log(I.obj(d), "set", const("c"), I.new_list([const(1), const(2)]))
    return d


def describe(I, ref, card):
    for n, v in I.obj(card).attrs.items():
        if ref in I._alts(v):
            return f"their {n}"
        if ref in held_refs(I, v):
            return f"an object inside their {n}"
    return "an object"


def mutable(I, card):
    out = set()
    for x in held_refs(I, card):
        o = I.obj(x)
        if x is card:
            continue
        if o.kind in ("dict", "list", "set") or o.kind == "inst" and o.cls is not None and o.cls.op == "cls":
            out.add(x)
    return out


def held_refs(I, t):
    """objects held (not merely used to compute a value) by t"""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T):
            continue
        for u in I._alts(x):
            if u.op == "tuple":
                todo += list(u.a)
            if u.op == "ref" and u not in seen:
                seen.add(u)
                o = I.obj(u)
                todo += list(o.attrs.values()) if o.attrs else []
                for e in o.log:
                    todo += [z for z in (e.key, e.val) if isinstance(z, T)]
    return seen


def state_terms(I, card):
    return {n: I.freeze(v) for n, v in I.obj(card).attrs.items()}


def frozen_card(I, card):
    """the card's state without the numbering of the heap"""
    def norm(t, m):
        if not isinstance(t, T):
            return tuple(norm(x, m) for x in t) if isinstance(t, tuple) else t
        if t.op == "inst":
            return ("inst", norm(t.a[0], m))
        if t.op in ("const", "sym", "ext"):
            return (t.op, str(t.a))
        return (t.op.split(":")[0],) + tuple(norm(x, m) for x in t.a)
    out = []
    for n, v in sorted(I.obj(card).attrs.items()):
        out.append((n, deep(I, v, 0)))
    return out


def deep(I, v, d):
    v = I.simp(v)
    if v.op == "ref" and d < 12:
        o = I.obj(v)
        if o.kind == "inst":
            return ("inst", show(o.cls) if o.cls is not None else "", tuple((k, deep(I, x, d + 1)) for k, x in sorted(o.attrs.items())))
        return (o.kind, tuple((e.op, show(deepkey(I, e.key)), deep(I, e.val, d + 1) if isinstance(e.val, T) else str(e.val))
                              for e in o.log))
    return show(v)


def deepkey(I, k):
    return k if isinstance(k, T) else const(str(k))


# ---------------------------------------------------------------- default trust is not moved by use (C03, C11)
def rule_defaults_kept(rep, M, p):
    """building or auditing a node does not write to a list of names that exists since import: what is trusted by default
    would grow with every call"""
    r = p + ".defaults-kept"
    rep.rule(r, "no node kind changes a list of names made when the modules were imported: what is trusted by default does not "
                "depend on earlier calls")
    I = M.I
    for n in M.nodes:
        for phase in ("init", "unsafe", "self_safe", "is_safe"):
            bad = w = 0
            for e in getattr(n, phase + "_events", None) or ():
                if e.imp or e.kind not in WRITES or not isinstance(e.fn, T):
                    continue
                w += 1
                for x in I._alts(e.fn):
                    if x.op == "ref" and I.obj(x).shared and name_list(I, x):
                        bad += 1
                        rep.bad(r, holder_of(I, x), e.loc, f"{n.label}.{phase}: {func_of(e)} changes {holder_of(I, x)}: the names "
                                                           "stay trusted in later calls")
            if not bad:
                rep.ok(r, f"{n.label}.{phase}: {w} writes", n.loc)


def name_list(I, ref):
    """a list or set whose items are names or types"""
    v = I.simp(I.freeze(ref))
    items = [x for x in v.a if not (isinstance(x, T) and x.op == "ent")] if v.op in ("list", "set") else []
    return bool(items) and all(isinstance(x, T) and (is_str(x) or x.op in ("ext", "cls", "star", "concat")) for x in items)
