"""Abstract interpreter producing an interprocedural gated value-flow graph.

Never imports or executes the analysed code: it walks the syntax tree, values are
provenance terms (terms.py), conditions become guards, loops are analysed once.
"""
from __future__ import annotations

import ast
import builtins
import os
import sys
from contextlib import contextmanager

from .terms import (FALSE, NONE, T, TRUE, UNBOUND, And, Not, Or, boolish, concat, const,
                    contains, cval, is_const, is_str, ite, lit, lits_of, mk,
                    show, show_guard, subst, subterms)

sys.setrecursionlimit(20000)


class AnalysisBroken(Exception):
    """a public anchor is gone or the engine cannot analyse the tree"""


class HObj:
    __slots__ = ("kind", "cls", "base", "log", "attrs", "lazy", "loc", "n", "note", "shared")

    def __init__(self, n, kind, cls, base, loc):
        self.n = n
        self.kind = kind
        self.cls = cls
        self.base = base
        self.log = []
        self.attrs = {}
        self.lazy = False
        self.loc = loc
        self.note = None
        self.shared = False     # made while a module was imported, or handed out by a cache


class Entry:
    __slots__ = ("g", "op", "key", "val", "seq")

    def __init__(self, g, op, key, val, seq):
        self.g, self.op, self.key, self.val, self.seq = g, op, key, val, seq


class Fn:
    __slots__ = ("node", "module", "closure", "defaults", "kwdefaults", "cls",
                 "qual", "decorators", "iscm", "cached", "isgen", "static", "clsm", "prop",
                 "file")


class Cls:
    __slots__ = ("name", "module", "node", "bases", "ns", "qual", "dataclass",
                 "fields", "enum", "file", "decorators", "assigned")


class Module:
    __slots__ = ("name", "file", "tree", "env", "done", "doing", "frame")


class Event:
    __slots__ = ("kind", "fn", "args", "kw", "guard", "loc", "stack", "seq",
                 "res", "x", "final", "caught", "imp")

    def __repr__(self):
        return (f"{self.kind} {show(self.fn) if self.fn is not None else ''}"
                f"({', '.join(show(a) for a in self.args)}"
                f"{''.join(', ' + str(k) + '=' + show(v) for k, v in self.kw)})"
                f" @{self.loc[0]}:{self.loc[1]} if {show_guard(self.guard)}")


class Scope:
    __slots__ = ("kind", "exits", "handlers", "raised", "mark", "excterm", "frame")

    def __init__(self, kind):
        self.kind = kind
        self.exits = []
        self.handlers = None
        self.raised = []
        self.excterm = None
        self.frame = None


class Frame:
    def __init__(self, module, fn=None, closure=None):
        self.module = module
        self.fn = fn
        self.closure = closure
        self.vars = {}
        self.base = {}
        self.rets = []
        self.globals = set()
        self.nonlocals = set()
        self.cls = None
        self.selfv = None
        self.arg0 = None
        self.yields = None
        self.yield_hook = None
        self.known = None
        self.qual = fn.qual if fn else module.name


TEXT_TO_TEXT = {"strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "lower", "upper", "title", "casefold",
                "capitalize", "expandtabs", "join", "zfill", "ljust", "rjust", "center", "translate", "format", "swapcase"}
STR_METHODS = {"replace", "split", "rsplit", "strip", "lstrip", "rstrip", "lower",
               "upper", "startswith", "endswith", "title", "partition", "rpartition",
               "splitlines", "isdigit", "format", "removeprefix", "removesuffix",
               "capitalize", "zfill", "find", "count", "encode", "index"}

# external calls whose result is a fresh object (never merged between sites)
ALLOC = {"io.BytesIO", "io.StringIO", "uuid.uuid4", "uuid.uuid1", "builtins.object",
         "zipfile.ZipFile", "builtins.open", "tempfile.TemporaryDirectory",
         "tempfile.mkdtemp", "tempfile.NamedTemporaryFile", "tempfile.mkstemp",
         "collections.defaultdict", "collections.OrderedDict", "contextlib.ExitStack"}

FRESH_TYPES = {"io.BytesIO", "io.StringIO", "zipfile.ZipFile", "pathlib.Path",
               "collections.OrderedDict", "collections.defaultdict"}
BUILTIN_DATA = {"builtins.str", "builtins.list", "builtins.tuple", "builtins.set",
                "builtins.bytes", "builtins.int", "builtins.bool", "builtins.float"}

CM_SELF = {"zipfile.ZipFile", "builtins.open", "io.BytesIO", "io.StringIO",
           "tempfile.NamedTemporaryFile", "contextlib.ExitStack"}


# text and container queries whose evaluation leaves nothing behind
PURE_TESTS = {"strip", "lstrip", "rstrip", "startswith", "endswith", "lower", "upper", "casefold", "isspace", "isdigit",
              "isalpha", "isidentifier", "find", "rfind", "count", "keys", "values", "items"}


class Interp:
    def __init__(self, root="/repo", package="skops", overlay=None):
        self.root = root
        self.package = package
        self.overlay = overlay or {}
        self.modules = {}
        self.heap = []
        self.fns = []
        self.classes = {}
        self.events = []
        self.seq = 0
        self.frames = []
        self.lits = []          # structural literals
        self.scopes = [Scope("top")]
        self._pg = None
        self.carried = {}
        self.exit_stacks = {}
        self.importing = 0
        self.snippets = {}
        self.caches = {}        # fn number -> decorator of a memoising decorator
        self.intercepts = {}    # repo fn qualname -> handler(interp, args, kw, node)
        self.ext_handlers = {}  # extra external handlers
        self.typeof_hook = None
        self.inst_type_hook = None
        self.opaque_method_hook = None
        self.assume = {}        # atom -> bool
        self.assume_fn = None   # callable(atom)->bool|None
        self.sd_registry = {}   # fn index -> list of (guard, cls, fn)
        self.symattrs = {}      # (obj,name) -> T
        self.stacklimit = 60
        self.uid = 0
        self.exc_covers = {}     # exc atom -> the operations whose failure it stands for
        self.files_parsed = []
        self.fn_analysed = set()
        self.warn = []
        self.cur = None
        self.quiet_depth = 0
        self.no_inline = set()
        self.fold_lookup = True
        self.visits = {}
        self.known_args = None  # callable(args, kw) -> identity of the known structure passed, or None

    # ------------------------------------------------------------ modules
    def module_file(self, name):
        rel = name.replace(".", "/")
        for cand in (rel + ".py", rel + "/__init__.py"):
            if cand in self.overlay or os.path.isfile(os.path.join(self.root, cand)):
                return cand
        if os.path.isdir(os.path.join(self.root, rel)):
            return rel + "/"
        return None

    def is_repo_module(self, name):
        return (name == self.package or name.startswith(self.package + ".")) and \
            self.module_file(name) is not None

    def load_module(self, name) -> Module:
        m = self.modules.get(name)
        if m is not None:
            return m
        f = self.module_file(name)
        if f is None:
            raise AnalysisBroken(f"module {name} not found")
        m = Module()
        m.name, m.file, m.done, m.doing = name, f, False, True
        if f.endswith("/"):
            src = ""
        elif f in self.overlay:
            src = self.overlay[f]
        else:
            with open(os.path.join(self.root, f), encoding="utf-8") as fh:
                src = fh.read()
        try:
            m.tree = ast.parse(src, f)
        except SyntaxError as e:
            raise AnalysisBroken(f"{f} does not parse: {e}")
        self.files_parsed.append(f)
        fr = Frame(m)
        m.frame = fr
        m.env = fr.vars
        self.modules[name] = m
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            if self.is_repo_module(parent):
                # importing a package runs its __init__ first; when that imports
                # this module it must find it executed, so run the parent first
                del self.modules[name]
                pm = self.load_module(parent)
                if name in self.modules:
                    return self.modules[name]
                self.modules[name] = m
                pm.env.setdefault(leaf, mk("mod", name))
        m.env["__name__"] = const(name)
        m.env["__file__"] = mk("sym", f"{name}.__file__")
        # module level code runs unconditionally and outside any caller context
        saved = (self.lits, self.scopes, self.frames)
        self.lits, self.scopes, self.frames = [], [Scope("top")], []
        self._pg = None
        self.frames.append(fr)
        self.importing += 1
        try:
            self.exec_block(m.tree.body)
        finally:
            self.importing -= 1
            self.lits, self.scopes, self.frames = saved
            self._pg = None
        m.doing = False
        m.done = True
        return m

    def lookup_module_attr(self, modname, name):
        m = self.load_module(modname)
        if name in m.env:
            return self.simp(m.env[name])
        sub = modname + "." + name
        if self.is_repo_module(sub):
            self.load_module(sub)
            return mk("mod", sub)
        return None

    def get_global(self, modname, name):
        v = self.lookup_module_attr(modname, name)
        if v is None:
            raise AnalysisBroken(f"{modname}.{name} not found")
        return v

    # ------------------------------------------------------------ guards
    @staticmethod
    def _derive(f, t, p):
        """consequences of a literal for the fact map"""
        f[t] = p
        if t.op == "isinstance" and p and t.a[1].op == "ext":
            pass

    def facts(self):
        pg = self.path()
        return pg[1]

    def path(self):
        """-> (lits tuple or None if dead, facts dict)"""
        if self._pg is not None:
            return self._pg
        facts = {}
        order = []
        dead = False

        def add(t, p):
            nonlocal dead
            while t.op == "not":
                t, p = t.a[0], not p
            if t is TRUE or t is FALSE:
                if (t is TRUE) != p:
                    dead = True
                return
            a = self.assumed(t)
            if a is not None:
                if a != p:
                    dead = True
                return
            if t.op == "and":
                if p:
                    for (u, q) in t.a[0]:
                        add(u, q)
                    return
                rem = []
                for (u, q) in t.a[0]:
                    if u in facts:
                        if facts[u] == q:
                            continue
                        return  # satisfied
                    au = self.assumed(u)
                    if au is not None:
                        if au == q:
                            continue
                        return
                    rem.append((u, q))
                if not rem:
                    dead = True
                    return
                if len(rem) == 1:
                    add(rem[0][0], not rem[0][1])
                    return
                r, q = lit(And(rem))
                if r in (TRUE, FALSE):
                    if (r is TRUE) == q:
                        dead = True
                    return
                t, p = r, not q
            if t in facts:
                if facts[t] != p:
                    dead = True
                return
            facts[t] = p
            order.append((t, p))

        for (t, p) in self.lits:
            add(t, p)
        # exits, iterate for propagation
        pend = [e for s in self.scopes for e in s.exits]
        for _ in range(3):
            before = len(order)
            for e in pend:
                add(And(e), False) if not isinstance(e, T) else add(e, False)
            for (t, p) in list(order):
                if t.op == "and" and not p:
                    rem = [(u, q) for (u, q) in t.a[0] if facts.get(u) != q]
                    if any(u in facts and facts[u] != q for u, q in rem):
                        order.remove((t, p))
                        facts.pop(t, None)
                    elif len(rem) < len(t.a[0]):
                        order.remove((t, p))
                        facts.pop(t, None)
                        add(And(rem), False)
            if len(order) == before or dead:
                break
        self._pg = (None if dead else tuple(order), facts)
        return self._pg

    def assumed(self, t):
        if t in self.assume:
            return self.assume[t]
        if self.assume_fn is not None:
            return self.assume_fn(t)
        return None

    def dead(self):
        return self.path()[0] is None

    def truth_of(self, t):
        """True/False/None of a boolean atom/term under current facts"""
        t, p = lit(t)
        if t is TRUE:
            return p
        if t is FALSE:
            return not p
        f = self.facts()
        if t in f:
            return f[t] == p
        a = self.assumed(t)
        if a is not None:
            return a == p
        if t.op == "and":
            allt = True
            for (u, q) in t.a[0]:
                v = self.truth_of(u)
                if v is None:
                    allt = False
                elif v != q:
                    return not p
            if allt:
                return p
        return None

    @contextmanager
    def push(self, *lits):
        n = len(self.lits)
        for (t, p) in lits:
            self.lits.append((t, p))
        self._pg = None
        try:
            yield
        finally:
            del self.lits[n:]
            self._pg = None

    def simp(self, t, keep=False, fuel=None):
        """resolve ite under the current facts (top spine only); gives up on very branchy terms, which stay as they are"""
        n = 0
        fuel = [256] if fuel is None else fuel
        while t.op == "ite" and n < 500:
            v = self.truth_of(t.a[0])
            if v is None:
                a, b = t.a[1], t.a[2]
                if b is UNBOUND and not keep:
                    t = a
                elif a is UNBOUND and not keep:
                    t = b
                else:
                    if fuel[0] <= 0:
                        return t
                    fuel[0] -= 1
                    with self.push((t.a[0], True)):
                        da = self.dead()
                        a2 = a if da else self.simp(a, keep, fuel)
                    with self.push((t.a[0], False)):
                        db = self.dead()
                        b2 = b if db else self.simp(b, keep, fuel)
                    if da and not db:
                        return b2
                    if db and not da:
                        return a2
                    return ite(t.a[0], a2, b2)
            else:
                t = t.a[1] if v else t.a[2]
            n += 1
        return t

    def rel_guard(self, base):
        p = self.path()[0]
        if p is None:
            return None
        return tuple((t, q) for (t, q) in p if base.get(t) != q)

    # ------------------------------------------------------------ events
    def stack_names(self):
        return tuple(f.qual for f in self.frames)

    def loc(self, node=None):
        node = node or self.cur
        f = self.frames[-1].module.file if self.frames else "?"
        return (f, getattr(node, "lineno", 0))

    def event(self, kind, fn=None, args=(), kw=(), node=None, res=None, x=None):
        p = self.path()[0]
        if p is None:
            return None
        e = Event()
        self.seq += 1
        e.kind, e.fn, e.args, e.kw = kind, fn, tuple(args), tuple(kw)
        e.guard, e.loc, e.stack, e.seq = p, self.loc(node), self.stack_names(), self.seq
        e.res, e.x, e.caught, e.imp = res, x, False, self.importing > 0
        e.final = any(s.kind == "finally" for s in self.scopes)
        self.events.append(e)
        return e

    # may-raise bookkeeping: an opaque operation inside try bodies
    def may_raise(self, kind, term):
        if self.quiet_depth:
            return
        if kind == "call" and term.op == "call" and term.a[0].op == "ext" and len(term.a[1]) == 2 and \
                term.a[0].a[0] == "builtins.getattr":
            kind = "getattr"
        for s in reversed(self.scopes):
            if s.kind == "try" and s.handlers:
                hit = None
                for h in s.handlers:
                    c = self._handler_accepts_kind(h, kind)
                    if c:
                        hit = (h, c)
                        break
                if hit is None:
                    continue
                h, c = hit
                if c == "key":
                    d, k = term.a
                    t = Not(self.b_in(k, d))
                elif c == "attr":
                    t = Not(mk("hasattr", term.a[0], const(term.a[1])))
                else:
                    if s.excterm is None:
                        names = tuple(sorted(x for x in self._handler_names(h)))
                        s.excterm = mk("exc", term, names)
                    t = s.excterm
                    self.exc_covers.setdefault(t, set()).add(term)
                tv = self.truth_of(t)
                if tv is False:
                    return
                g = self.path()[0]
                if g is None:
                    return
                e = And(list(g) + lits_of(t))
                s.raised.append((e, t, c, None, h))
                s.exits.append(e)
                self._pg = None
                return
            if s.kind == "top":
                return

    @staticmethod
    def _handler_names(h):
        return h["names"]

    def _handler_accepts_kind(self, h, kind):
        names = h["names"]
        if names & {"Exception", "BaseException", "*"}:
            return "any"
        if kind == "item" and names & {"KeyError", "LookupError"}:
            return "key"
        if kind == "item" and names & {"IndexError", "TypeError"}:
            return "any"
        if kind == "attr":
            return "attr" if "AttributeError" in names else None
        if kind == "import":
            return "any" if names & {"ImportError", "ModuleNotFoundError"} else None
        if kind == "getattr":
            if "AttributeError" in names:
                return "any"
            kind = "call"
        if kind == "call":
            if names <= {"KeyError", "AttributeError", "LookupError"}:
                return None
            return "any"
        return None

    def exc_bases(self, name):
        """set of exception class simple names incl. ancestors"""
        out = []
        todo = [name]
        while todo:
            n = todo.pop()
            if n in out:
                continue
            out.append(n)
            if n in self.classes:
                for b in self.classes[n].bases:
                    if b.op == "cls":
                        todo.append(b.a[0])
                    elif b.op == "ext":
                        todo.append(b.a[0])
            else:
                short = n.rsplit(".", 1)[-1]
                b = getattr(builtins, short, None)
                if isinstance(b, type) and issubclass(b, BaseException):
                    out.extend(c.__name__ for c in b.__mro__ if c is not object)
        return {o.rsplit(".", 1)[-1] for o in out} | set(out)

    def do_raise(self, exc, node):
        names = None
        c = exc
        if c.op == "ref" and self.heap[c.a[0]].kind == "inst":
            k = self.heap[c.a[0]].cls
            names = self.exc_bases(k.a[0]) if k is not None and k.op in ("cls", "ext") else None
        elif c.op == "call" and c.a[0].op == "ext":
            names = self.exc_bases(c.a[0].a[0])
        elif c.op in ("ext", "cls"):
            names = self.exc_bases(c.a[0])
        ev = self.event("raise", exc, (), (), node, x=names)
        g = self.path()[0]
        if g is None:
            return
        e = And(g)
        for s in reversed(self.scopes):
            if s.kind == "try" and s.handlers:
                for h in s.handlers:
                    if "*" in h["names"] or "BaseException" in h["names"]:
                        m = True
                    elif names is None:
                        m = "Exception" in h["names"]
                    else:
                        m = bool(h["names"] & names)
                    if m:
                        s.raised.append((e, None, "raise", exc, h))
                        s.exits.append(e)
                        if ev is not None:
                            ev.caught = True
                        self._pg = None
                        return
            if s.kind == "top":
                s.exits.append(e)
                self._pg = None
                return

    # ------------------------------------------------------------ heap
    def new(self, kind, cls=None):
        n = len(self.heap)
        o = HObj(n, kind, cls, dict(self.facts()), self.loc() if self.frames else ("?", 0))
        o.shared = self.importing > 0
        self.heap.append(o)
        return mk("ref", n)

    def obj(self, t) -> HObj:
        return self.heap[t.a[0]]

    def log(self, o, op, key, val):
        g = self.rel_guard(o.base)
        if g is None:
            return
        self.seq += 1
        o.log.append(Entry(g, op, key, val, self.seq))

    def edit_list(self, base, op, key=None, val=None):
        """change an exactly known list in place; False: not possible"""
        o = self.obj(base)
        if o.lazy or base in self.carried or self.rel_guard(o.base) != () or any(e.op != "append" or e.g for e in o.log):
            return False
        n = len(o.log)
        if op in ("setitem", "pop"):
            if key.op == "slice" and all(is_const(x) for x in key.a):
                sl = slice(*[cval(x) for x in key.a])
                if op == "pop":
                    del o.log[sl]
                    return True
                new = self.new_list([])
                es = self.entries(val)
                if any(g for g, _ in es):
                    return False
                for _, e in es:
                    self.log(self.obj(new), "append", None, e)
                try:
                    o.log[sl] = self.obj(new).log
                except ValueError:
                    return False
                return True
            if not is_const(key) or not isinstance(cval(key), int) or not -n <= cval(key) < n:
                return False
            if op == "pop":
                del o.log[cval(key)]
                return True
            self.seq += 1
            o.log[cval(key)] = Entry((), "append", None, val, self.seq)
            return True
        if op == "insert" and is_const(key) and isinstance(cval(key), int):
            self.seq += 1
            o.log.insert(cval(key), Entry((), "append", None, val, self.seq))
            return True
        if op == "reverse":
            o.log.reverse()
            return True
        return False

    def new_list(self, items, cls=None):
        r = self.new("list", cls)
        o = self.obj(r)
        for i in items:
            self.log(o, "append", None, i)
        return r

    def freeze(self, t, memo=None, depth=0):
        """structural term without refs"""
        if memo is None:
            memo = {}

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(i) for i in x)
            if not isinstance(x, T):
                return x
            if x in memo:
                return memo[x]
            if x.op == "ref":
                o = self.heap[x.a[0]]
                memo[x] = mk("cyc", x.a[0])
                if o.kind in ("list", "set", "dict"):
                    es = []
                    for e in o.log:
                        k = go(e.key) if e.key is not None else None
                        v = go(e.val) if e.val is not None else None
                        g = And([(go(t2), p) for (t2, p) in e.g])
                        if o.kind == "list" and e.op == "append" and g is TRUE:
                            es.append(v)
                        elif o.kind == "dict" and e.op == "set" and g is TRUE:
                            es.append(mk("kv", k, v))
                        elif o.kind == "set" and e.op == "add" and g is TRUE:
                            es.append(v)
                        else:
                            es.append(mk("ent", g, e.op, k, v))
                    kind = o.kind
                    if o.cls == "tuple":
                        kind = "tuple"
                    elif isinstance(o.cls, T):
                        kind = o.kind + ":" + str(o.cls.a[0])
                    r = mk(kind, *es)
                else:
                    cn = o.cls.a[0] if isinstance(o.cls, T) and o.cls.a else str(o.cls)
                    r = mk("inst", cn, o.n)
                memo[x] = r
                return r
            if not x.a or x.op == "const":
                memo[x] = x
                return x
            na = tuple(go(i) for i in x.a)
            if x.op == "ite":
                r = ite(*na)
            elif x.op == "and":
                r = And([(u, q) for (u, q) in na[0]])
            elif x.op == "not":
                r = Not(na[0])
            elif x.op == "concat":
                r = concat(na)
            elif x.op == "item":
                r = self.mk_item(na[0], na[1])
            else:
                r = mk(x.op, *na)
            memo[x] = r
            return r

        return go(t)

    # ------------------------------------------------------------ iteration
    def entries(self, it):
        """-> list of (guard lits, element term, exact) ; always succeeds"""
        it = self.simp(it)
        op = it.op
        if op == "tuple":
            return [((), x) for x in it.a]
        if op == "ite":
            out = []
            with self.push((it.a[0], True)):
                if not self.dead():
                    out += [(((it.a[0], True),) + tuple(g), e) for g, e in self.entries(it.a[1])]
            with self.push((it.a[0], False)):
                if not self.dead():
                    out += [(((it.a[0], False),) + tuple(g), e) for g, e in self.entries(it.a[2])]
            return out
        if op == "ref":
            o = self.obj(it)
            if o.kind in ("list", "set"):
                out = []
                ok = True
                for e in o.log:
                    if e.op in ("append", "add"):
                        out.append((e.g, e.val))
                    elif e.op in ("extend", "update"):
                        for g, v in self.entries(e.val):
                            out.append((tuple(e.g) + tuple(g), v))
                    elif e.op == "clear" and not e.g:
                        out = []
                    elif e.op == "sort":
                        pass
                    else:
                        ok = False
                if ok:
                    return out
            elif o.kind == "dict":
                return [(g, kv[0]) for g, kv in self.dict_entries(it)]
        if op == "ditems":
            d = it.a[0]
            if d.op == "ref" and self.obj(d).kind == "dict":
                return [(g, mk("tuple", *kv)) for g, kv in self.dict_entries(d)]
            k = mk("elem", d)
            return [(((mk("each", d), True),), mk("tuple", k, mk("item", d, k)))]
        if op == "dvalues":
            d = it.a[0]
            if d.op == "ref" and self.obj(d).kind == "dict":
                return [(g, kv[1]) for g, kv in self.dict_entries(d)]
            k = mk("elem", d)
            return [(((mk("each", d), True),), mk("item", d, k))]
        if op == "dkeys":
            return self.entries(it.a[0])
        if op == "enumerate":
            es = self.entries(it.a[0])
            st = it.a[1]
            if all(not any(l[0].op == "each" for l in g) for g, _ in es) and not any(g for g, _ in es) and is_const(st):
                return [(g, mk("tuple", const(cval(st) + i), e)) for i, (g, e) in enumerate(es)]
            out = []
            for g, e in es:
                ix = self.binop("+", mk("idx", it.a[0] if it.a[0].op != "ref" else self.freeze(it.a[0])), st)
                out.append((g, mk("tuple", ix, e)))
            return out
        if op == "zip":
            rep = [self._repeated(x) for x in it.a]
            if any(r is not None for r in rep) and not all(r is not None for r in rep):
                # [x] * len(y) next to y: as many as there are of y
                rest = [x for x, r in zip(it.a, rep) if r is None]
                if all(r is None or self.freeze(r[1].a[0]) is self.freeze(x) for r in rep for x in rest[:1]):
                    out = []
                    for g, e in self.entries(rest[0]) if len(rest) == 1 else self.entries(mk("zip", *rest)):
                        es = iter([e] if len(rest) == 1 else e.a)
                        out.append((g, mk("tuple", *[next(es) if r is None else r[0] for r in rep])))
                    return out
            lists = [self.entries(x) for x in it.a]
            plain = [all(not g for g, _ in l) for l in lists]
            if all(plain):
                n = min(len(l) for l in lists) if lists else 0
                return [((), mk("tuple", *[l[i][1] for l in lists])) for i in range(n)]
            if all(len(l) == 1 for l in lists):
                g = []
                for l in lists:
                    for x in l[0][0]:
                        if x not in g:
                            g.append(x)
                return [(tuple(g), mk("tuple", *[l[0][1] for l in lists]))]
        if op == "range":
            st, en, step = it.a
            if all(is_const(x) for x in it.a) and isinstance(cval(en), int):
                r = range(cval(st), cval(en), cval(step))
                if len(r) <= 16:
                    return [((), const(i)) for i in r]
            if st is const(0) and step is const(1) and en.op == "len":
                x = en.a[0]
                return [(((mk("each", x), True),), mk("idx", x))]
        if op == "map" :
            es = self.entries(it.a[1])
            out = []
            for g, e in es:
                with self.push(*g):
                    out.append((g, self.call(it.a[0], [e], {}, self.cur)))
            return out
        if op == "cls":
            c = self.classes[it.a[0]]
            if c.enum:
                return [((), mk("enum", it, n)) for n in c.assigned]
        if op == "filter":
            es = self.entries(it.a[1])
            out = []
            for g, e in es:
                with self.push(*g):
                    c = self.cond(e) if it.a[0] is NONE else self.cond(self.call(it.a[0], [e], {}, self.cur))
                out.append((tuple(g) + tuple(lits_of(c)), e))
            return out
        if op == "iter":
            return self.entries(it.a[0])
        base = self.freeze(it)
        e = mk("each", base)
        n = 0
        while self.facts().get(e) is True and n < 5:
            base = mk("again", base)
            e = mk("each", base)
            n += 1
        return [(((e, True),), mk("elem", base))]

    def dict_entries(self, d):
        """-> [(guard, (key, val))] of a heap dict"""
        o = self.obj(d)
        out = []
        for e in o.log:
            if e.op == "set":
                if not e.g:
                    at = [i for i, x in enumerate(out) if x[1][0] is e.key]
                    if at and not out[at[0]][0]:        # assigning to an existing key keeps its position
                        out[at[0]] = (e.g, (e.key, e.val))
                        for i in reversed(at[1:]):
                            del out[i]
                        continue
                    out = [x for x in out if x[1][0] is not e.key]
                elif not any(l[0].op in ("each", "while", "lv", "fold") for l in e.g):
                    # may replace the value of a key that is there already
                    at = [i for i, x in enumerate(out) if x[1][0] is e.key and not x[0]]
                    if len(at) == 1:
                        out[at[0]] = ((), (e.key, ite(And(list(e.g)), e.val, out[at[0]][1][1])))
                        continue
                out.append((e.g, (e.key, e.val)))
            elif e.op == "update":
                src = e.val
                if src.op == "ref" and self.obj(src).kind == "dict":
                    for g, kv in self.dict_entries(src):
                        out.append((tuple(e.g) + tuple(g), kv))
                else:
                    k = mk("elem", src)
                    out.append((tuple(e.g) + ((mk("each", src), True),), (k, mk("item", src, k))))
            elif e.op == "clear" and not e.g:
                out = []
            elif e.op == "del" and not e.g:
                out = [x for x in out if x[1][0] is not e.key]
        return out

    def exact_dict(self, d):
        """[(key, value)] of a dict all of whose entries are known and different, or None"""
        o = self.obj(d)
        if o.kind != "dict" or d in self.carried or any(e.g or e.op not in ("set", "del", "clear") for e in o.log):
            return None
        es = [kv for g, kv in self.dict_entries(d)]
        for i, (k, _) in enumerate(es):
            if any(self.keys_eq(k, x) is not False for x, _ in es[:i]):
                return None
        return es

    # ------------------------------------------------------------ item/attr
    def keys_eq(self, a, b):
        """True / False / None"""
        if a is b:
            return True
        if is_const(a) and is_const(b):
            return cval(a) == cval(b) and True
        if a.op == "tuple" and b.op == "tuple":
            if len(a.a) != len(b.a):
                return False
            r = True
            for x, y in zip(a.a, b.a):
                v = self.keys_eq(x, y)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if {a.op, b.op} == {"const", "tuple"}:
            return False
        if (a.op == "txt" or b.op == "txt") and {a.op, b.op} <= {"txt", "const"}:
            return False    # text atoms are pairwise different (see strdom)
        for x, y in ((a, b), (b, a)):
            if x.op == "concat" and any(i.op == "txt" for i in x.a) and all(i.op in ("txt", "const") for i in x.a) \
                    and (y.op in ("txt", "const") or y.op == "concat" and all(i.op in ("txt", "const") for i in y.a)):
                return False
        if a.op in ("ext", "cls") and b.op in ("ext", "cls"):
            return None
        return None

    def mk_item(self, base, key):
        if key.op == "idx" and key.a[0] is base:
            return mk("elem", base)
        if base.op in ("tuple",) and is_const(key) and isinstance(cval(key), int) and -len(base.a) <= cval(key) < len(base.a):
            return base.a[cval(key)]
        return mk("item", base, key)

    def known_len(self, v):
        """number of elements of an exactly known sequence, or None"""
        v = self.simp(v)
        if v.op == "tuple":
            return len(v.a)
        if v.op == "ref":
            o = self.obj(v)
            if (o.kind == "list" and not o.lazy and v not in self.carried and self.rel_guard(o.base) == ()
                    and all(e.op == "append" and not e.g for e in o.log)
                    and not any(e.val.op == "starred" for e in o.log)):
                return len(o.log)
        return None

    def get_item(self, base, key, node=None):
        base = self.simp(base)
        key = self.simp(key)
        if base.op == "ite":
            return self.lift(base, lambda b: self.get_item(b, key, node))
        if key.op == "ite" and base.op in ("tuple", "ref"):
            return self.lift(key, lambda k: self.get_item(base, k, node))
        if base.op == "ref":
            o = self.obj(base)
            if o.kind == "dict":
                return self.dict_get(base, key, None, node)
            if o.kind == "list" and is_const(key) and isinstance(cval(key), int):
                if all(e.op == "append" and not e.g for e in o.log):
                    i = cval(key)
                    if -len(o.log) <= i < len(o.log):
                        return o.log[i].val
            if o.kind == "list" and key.op == "slice":
                if all(is_const(x) for x in key.a) and all(e.op == "append" and not e.g for e in o.log):
                    return self.new_list([e.val for e in o.log][slice(*[cval(x) for x in key.a])])
                return mk("item", base, key)
            if o.kind == "list" and key.op == "idx":
                es = self.entries(base)
                if len(es) == 1:
                    return es[0][1]
            if o.kind == "inst" and o.cls is not None and o.cls.op == "cls":
                m = self.class_attr(o.cls, "__getitem__")
                if m is not None:
                    return self.call(self.bind(m, base), [key], {}, node)
            k = self.known_len(base)
            if k is not None and is_const(key) and type(cval(key)) is int:
                self.do_raise(mk("ext", "builtins.IndexError"), node)
                return mk("unk", "indexerror")
            t = mk("item", base, key)
            self.may_raise("item", t)
            return t
        if base.op == "tuple" and is_const(key) and type(cval(key)) is int:
            i = cval(key)
            if -len(base.a) <= i < len(base.a):
                return base.a[i]
            self.do_raise(mk("ext", "builtins.IndexError"), node)
            return mk("unk", "indexerror")
        if base.op == "tuple" and key.op == "slice" and all(is_const(x) for x in key.a):
            return mk("tuple", *base.a[slice(*[cval(x) for x in key.a])])
        if is_str(base) and is_const(key):
            try:
                return const(cval(base)[cval(key)])
            except Exception:
                pass
        if base.op == "ditems" or base.op == "dvalues":
            pass
        t = self.mk_item(base, key)
        if t.op == "item":
            sk = ("@item", base, key)
            if sk in self.symattrs:
                return self.simp(self.symattrs[sk])
            self.may_raise("item", t)
        return t

    def dict_get(self, d, key, default, node=None):
        """default None -> subscript semantics; otherwise a term"""
        o = self.obj(d)
        res = default
        if res is None:
            if o.lazy:
                res = mk("item", d, key)
            else:
                res = UNBOUND
        elif o.lazy:
            res = ite(self.b_in(key, d), mk("item", d, key), default)
        opaque = False
        for e in o.log:
            if e.op == "set":
                q = self.keys_eq(e.key, key)
                if q is False:
                    continue
                lits_ = list(e.g)
                if q is None:
                    lits_ = lits_ + lits_of(self.b_eq(e.key, key))
                if any(l[0].op == "each" for l in lits_) and not all(
                        self.truth_of(l[0]) is l[1] for l in lits_ if l[0].op == "each"):
                    opaque = True
                    continue
                res = ite(And(lits_), e.val, res)
            elif e.op == "update":
                src = e.val
                if src.op == "ref" and self.obj(src).kind == "dict":
                    v = self.dict_get(src, key, mk("missing"))
                    if v is not mk("missing"):
                        res = ite(And(e.g), ite(mk("is", v, mk("missing")), res, v), res)
                else:
                    res = ite(And(list(e.g) + lits_of(self.b_in(key, src))), mk("item", src, key), res)
            elif e.op == "clear":
                res = ite(And(e.g), UNBOUND if default is None else default, res)
            elif e.op == "del":
                q = self.keys_eq(e.key, key)
                if q is not False:
                    res = ite(And(list(e.g) + ([] if q else lits_of(self.b_eq(e.key, key)))),
                              UNBOUND if default is None else default, res)
        res = self.simp(res)
        if opaque:
            t = mk("item", d, key)
            if default is None:
                self.may_raise("item", t)
                return t
            return ite(self.b_in(key, d), t, default)
        if default is None and contains(res, UNBOUND):
            t = mk("item", d, key)
            self.may_raise("item", t)
            if self.dead():
                return mk("unk", "keyerror")
            res = self.simp(res)
            if res is UNBOUND:
                # definite KeyError when nothing unknown can alias
                if self._in_try_for("KeyError"):
                    self.do_raise(mk("ext", "builtins.KeyError"), node)
                else:
                    self.event("keyerror", d, (key,), (), node)
                    self.do_raise(mk("ext", "builtins.KeyError"), node)
                return mk("unk", "keyerror")
            res = subst(res, {UNBOUND: t})
        return res

    def _in_try_for(self, name):
        for s in reversed(self.scopes):
            if s.kind == "try" and s.handlers:
                for h in s.handlers:
                    if h["names"] & {name, "LookupError", "Exception", "BaseException", "*"}:
                        return True
            if s.kind == "top":
                return False
        return False

    def lift(self, t, f):
        c = t.a[0]
        r1 = r2 = None
        with self.push((c, True)):
            if not self.dead():
                r1 = f(t.a[1])
        with self.push((c, False)):
            if not self.dead():
                r2 = f(t.a[2])
        if r1 is None:
            return r2 if r2 is not None else mk("unk", "dead")
        if r2 is None:
            return r1
        return ite(c, r1, r2)

    def set_item(self, base, key, val, node):
        base = self.simp(base)
        if base.op == "ite":
            self.lift(base, lambda b: (self.set_item(b, key, val, node), NONE)[1])
            return
        self.event("setitem", base, (key, val), (), node)
        if base.op == "ref":
            o = self.obj(base)
            if o.kind == "dict":
                self.log(o, "set", key, val)
                return
            if o.kind == "list":
                if not self.edit_list(base, "setitem", key, val):
                    self.log(o, "setitem", key, val)
                return
            if o.kind == "inst" and o.cls is not None and o.cls.op == "cls":
                m = self.class_attr(o.cls, "__setitem__")
                if m is not None:
                    self.call(self.bind(m, base), [key, val], {}, node)
                    return
        else:
            g = self.path()[0]
            if g is not None:
                sk = ("@item", base, key)
                old = self.symattrs.get(sk, mk("item", base, key))
                self.symattrs[sk] = ite(And(g), val, old)

    def class_mro(self, c):
        """linearised list of cls/ext terms"""
        out = []

        def go(x):
            if x in out:
                return
            out.append(x)
            if x.op == "cls":
                for b in self.classes[x.a[0]].bases:
                    go(b)
        # simple C3 approximation: depth first keeping last occurrence
        def lin(x):
            r = [x]
            if x.op == "cls":
                for b in self.classes[x.a[0]].bases:
                    for y in lin(b):
                        if y in r:
                            r.remove(y)
                        r.append(y)
            return r
        return lin(c)

    def class_attr(self, c, name, after=None):
        mro = self.class_mro(c)
        if after is not None:
            if after in mro:
                mro = mro[mro.index(after) + 1:]
        for k in mro:
            if k.op == "cls":
                ns = self.classes[k.a[0]].ns
                if name in ns:
                    return ns[name]
        return None

    def has_ext_base(self, c):
        return any(k.op != "cls" and k is not mk("ext", "builtins.object") for k in self.class_mro(c))

    def bind(self, f, selfv):
        f = self.simp(f)
        if f.op == "fn":
            fn = self.fns[f.a[1]]
            if fn.static:
                return f
            if fn.prop:
                return self.call(f, [selfv], {}, self.cur)
            if fn.clsm:
                t = self.typeof(selfv)
                return mk("bound", f, t if t is not None else mk("typeof", selfv))
            return mk("bound", f, selfv)
        if f.op == "cmfn":
            fn = self.fns[f.a[1]]
            return f if fn.static else mk("bound", f, selfv)
        if f.op == "ite":
            return ite(f.a[0], self.bind(f.a[1], selfv), self.bind(f.a[2], selfv))
        return f

    def typeof(self, t):
        """repo class term of a value or None"""
        if t.op == "ref":
            o = self.obj(t)
            if o.kind == "inst" and o.cls is not None and o.cls.op == "cls":
                return o.cls
            return None
        if t.op in ("lv",):
            r = self.typeof(t.a[2])
            if r is not None:
                return r
        if t.op == "fold":
            r = self.typeof(t.a[2])
            if r is not None:
                return r
        if t.op == "enum":
            return t.a[0]
        if self.typeof_hook is not None:
            return self.typeof_hook(t)
        return None

    def get_attr(self, base, name, node=None):
        base = self.simp(base)
        if base.op == "ite":
            return self.lift(base, lambda b: self.get_attr(b, name, node))
        op = base.op
        if op == "mod":
            v = self.lookup_module_attr(base.a[0], name)
            if v is None:
                return mk("unk", f"{base.a[0]}.{name}")
            return v
        if op == "ext":
            if name in ("__name__", "__qualname__"):
                if base.a[0].startswith("builtins."):
                    return const(base.a[0].rsplit(".", 1)[-1])
                return mk("attr", base, "__name__")
            return mk("ext", base.a[0] + "." + name)
        if op == "cls":
            c = self.classes[base.a[0]]
            if name == "__name__":
                return const(c.name)
            if c.enum and name in c.assigned:
                return mk("enum", base, name)
            v = self.class_attr(base, name)
            if v is not None:
                v = self.simp(v)
                if v.op == "fn" and self.fns[v.a[1]].clsm:
                    return mk("bound", v, base)
                return v
            return mk("attr", base, name)
        if op == "enum":
            c = self.classes[base.a[0].a[0]]
            if name == "value" or name == "_value_":
                return self.simp(c.ns[base.a[1]])
            if name == "name":
                return const(base.a[1])
        if op == "super":
            v = self.class_attr(self.typeof(base.a[1]) or base.a[0], name, after=base.a[0])
            if v is not None:
                return self.bind(v, base.a[1])
            return mk("attr", base, name)
        if op == "ref":
            o = self.obj(base)
            if o.kind == "inst":
                v = o.attrs.get(name)
                if v is not None:
                    v = self.simp(v, True)
                    if v is not UNBOUND:
                        if contains(v, UNBOUND):
                            if o.lazy:
                                v = subst(v, {UNBOUND: mk("attr", base, name)})
                            else:
                                cv = self.class_attr(o.cls, name) if o.cls is not None and o.cls.op == "cls" else None
                                v = subst(v, {UNBOUND: self.bind(cv, base) if cv is not None else mk("attr", base, name)})
                        return v
                if o.cls is not None and o.cls.op == "cls":
                    cv = self.class_attr(o.cls, name)
                    if cv is not None:
                        v = self.bind(cv, base)
                        if cv.op == "fn" and self.fns[cv.a[1]].cached and not self.dead():
                            o.attrs[name] = ite(And(self.rel_guard(o.base)), v, o.attrs.get(name, UNBOUND))
                        return v
                    if name == "__class__":
                        return o.cls
                    if name == "__dict__":
                        return mk("attr", base, name)
                t = mk("attr", base, name)
                self.may_raise("attr", t)
                return t
            return mk("bmeth", base, name)
        if op in ("sd",) and name in ("register", "dispatch"):
            return mk("sdm", base, name)
        if op == "fn" and name in ("__name__", "__qualname__"):
            return const(self.fns[base.a[1]].node.name if hasattr(self.fns[base.a[1]].node, "name") else "<lambda>")
        sk = (base, name)
        if sk in self.symattrs:
            return self.simp(self.symattrs[sk])
        ty = self.typeof(base)
        if ty is not None and ty.op == "cls":
            cv = self.class_attr(ty, name)
            if cv is not None:
                s = self.simp(cv)
                c = self.classes[ty.a[0]]
                if s.op == "fn" or not c.dataclass:
                    return self.bind(cv, base)
            if name == "__class__":
                return ty
        if name in ("parent",) and False:
            pass
        if op == "slice" and name in ("start", "stop", "step"):
            return base.a[("start", "stop", "step").index(name)]
        t = mk("attr", base, name)
        if not (is_str(base) or base.op in ("concat", "str")):
            self.may_raise("attr", t)
        return t

    def set_attr(self, base, name, val, node):
        base = self.simp(base)
        if base.op == "ite":
            self.lift(base, lambda b: (self.set_attr(b, name, val, node), NONE)[1])
            return
        ty = self.typeof(base)
        self.event("setattr", base, (val,), (), node, x=name)
        g = self.path()[0]
        if g is None:
            return
        if base.op == "ref":
            o = self.obj(base)
            rel = self.rel_guard(o.base)
            old = o.attrs.get(name, UNBOUND)
            o.attrs[name] = ite(And(rel), val, old)
        elif base.op == "cls":
            c = self.classes[base.a[0]]
            c.ns[name] = ite(And(g), val, c.ns.get(name, UNBOUND))
        elif base.op == "mod":
            m = self.load_module(base.a[0])
            m.env[name] = val
        else:
            sk = (base, name)
            old = self.symattrs.get(sk, mk("attr", base, name))
            self.symattrs[sk] = ite(And(g), val, old)

    # ------------------------------------------------------------ variables
    def assign(self, name, val):
        fr = self.frames[-1]
        if name in fr.globals:
            m = fr.module
            self.event("global-write", const(m.name + "." + name), (val,))
            m.env[name] = val
            return
        if name in fr.nonlocals:
            c = fr.closure
            while c is not None:
                if name in c.vars:
                    g = self.rel_guard(c.base)
                    if g is not None:
                        c.vars[name] = ite(And(g), val, c.vars[name])
                    return
                c = c.closure
            return
        g = self.rel_guard(fr.base)
        if g is None:
            return
        old = fr.vars.get(name, UNBOUND)
        fr.vars[name] = ite(And(g), val, old)

    def lookup(self, name, node):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if name in f.vars and not (f is fr and name in fr.globals):
                if not (f is not fr and f.cls == "classbody"):
                    v = self.simp(f.vars[name])
                    if v is not UNBOUND:
                        if contains(v, UNBOUND):
                            v = subst(v, {UNBOUND: mk("unk", "unbound:" + name)}) if v.op != "ite" else self._strip_unbound(v)
                        return v
            f = f.closure
        m = fr.module
        if name in m.env:
            v = self.simp(m.env[name])
            if v is not UNBOUND:
                return v
        if hasattr(builtins, name):
            return mk("ext", "builtins." + name)
        if name == "__class__":
            return fr.cls or mk("unk", name)
        return mk("unk", "name:" + name)

    def _strip_unbound(self, v, memo=None):
        if v.op != "ite":
            return v
        memo = {} if memo is None else memo
        if v not in memo:
            a = self._strip_unbound(v.a[1], memo)
            b = self._strip_unbound(v.a[2], memo)
            memo[v] = b if a is UNBOUND else a if b is UNBOUND else ite(v.a[0], a, b)
        return memo[v]

    # ------------------------------------------------------------ booleans
    def b_eq(self, a, b):
        a, b = self.simp(a), self.simp(b)
        if a.op == "ite":
            return self.lift(a, lambda x: self.b_eq(x, b))
        if b.op == "ite":
            return self.lift(b, lambda x: self.b_eq(a, x))
        if a.op == "const" and a is b and cval(a) != cval(b):
            return FALSE            # nan
        q = self.keys_eq(a, b)
        if q is not None:
            return const(bool(q))
        for x, y in ((a, b), (b, a)):
            if x.op == "len" and y is const(0):
                return Not(self.cond(x.a[0]))
            if is_str(y) and cval(y) == "" and (x.op in ("concat", "str")):
                return Not(self.cond(x))
        if a.op in ("ext", "cls") and b.op in ("ext", "cls"):
            return const(a is b) if (a.op == b.op == "cls") else mk("eq", *sorted((a, b), key=lambda t: t.n))
        if (a is TRUE or a is FALSE) and b.op in ("not", "and", "in", "eq", "is", "isinstance", "lt"):
            return b if a is TRUE else Not(b)
        if is_const(a) and b.op == "tuple" or is_const(b) and a.op == "tuple":
            return FALSE
        if a.op == "ref" and b.op == "ref" and self.obj(a).kind == "dict" and self.obj(b).kind == "dict":
            x, y = self.exact_dict(a), self.exact_dict(b)
            if x is not None and y is not None:
                if len(x) != len(y):
                    return FALSE
                if not x:
                    return TRUE
                if all(is_const(k) or k.op == "txt" for k, _ in x + y) and {k for k, _ in x} != {k for k, _ in y}:
                    return FALSE
        if is_const(a):
            a, b = b, a
        elif not is_const(b) and a.n > b.n:
            a, b = b, a
        return mk("eq", a, b)

    def b_is(self, a, b):
        a, b = self.simp(a), self.simp(b)
        if a.op == "ite":
            return self.lift(a, lambda x: self.b_is(x, b))
        if b.op == "ite":
            return self.lift(b, lambda x: self.b_is(a, x))
        if a is b and a.op in ("const", "ref", "cls", "ext", "mod", "fn"):
            return TRUE
        if a.op == "call" and a.a[0].op == "ext" and a.a[0].a[0] == "builtins.object":
            a, b = b, a
        if b.op == "call" and b.a[0].op == "ext" and b.a[0].a[0] == "builtins.object":
            # a sentinel: itself, and no other known object
            if a is b:
                return TRUE
            if is_const(a) or a.op in ("ref", "cls", "fn", "mod", "tuple", "new", "node", "nodeq") or a.op == "call" and \
                    a.a[0] is b.a[0]:
                return FALSE
        if is_const(a):
            a, b = b, a
        if is_const(b) and (is_const(a) or a.op in ("ref", "tuple", "cls", "ext", "mod", "fn", "bound", "concat", "str", "enum", "new")):
            if is_const(a):
                return const(a is b)
            return FALSE
        if a.op in ("ref", "cls", "fn", "mod", "enum") and b.op in ("ref", "cls", "fn", "mod", "enum"):
            return const(a is b)
        if not is_const(b) and a.n > b.n:
            a, b = b, a
        return mk("is", a, b)

    def b_in(self, k, d, raw=False):
        d = self.simp(d)
        k = self.simp(k)
        if d.op == "ref" and not raw:
            c = self.obj(d).cls
            if c is not None and c.op == "cls":
                f = self.class_attr(c, "__contains__")
                if f is not None and f.op in ("fn", "bound", "cmfn"):
                    return self.cond(self.call(self.bind(f, d), [k], {}, self.cur))
        if d.op == "ite":
            return self.lift(d, lambda x: self.b_in(k, x))
        if k.op == "ite":
            return self.lift(k, lambda x: self.b_in(x, d))
        if d.op == "dkeys":
            return self.b_in(k, d.a[0])
        if d in self.carried:
            c = self.carried.pop(d)
            try:
                now = self.b_in(k, d)
            finally:
                self.carried[d] = c
            return Or([now, mk("in", k, c)])
        els = None
        if d.op == "tuple":
            els = [((), x) for x in d.a]
        elif d.op == "ref":
            o = self.obj(d)
            if o.kind in ("list", "set"):
                if all(e.op in ("append", "add") for e in o.log):
                    els = [(e.g, e.val) for e in o.log]
            elif o.kind == "dict" and not o.lazy:
                if all(e.op == "set" or e.op == "update" or e.op in ("del", "clear") and not e.g for e in o.log):
                    els = [(g, kv[0]) for g, kv in self.dict_entries(d)]
            if o.kind == "dict" and o.lazy:
                return mk("in", k, d)
        if els is not None and not any(l[0].op == "each" for g, _ in els for l in g) and len(els) <= 64:
            alts = []
            for g, x in els:
                q = self.keys_eq(x, k)
                if q is False:
                    continue
                c = TRUE if q else self.b_eq(x, k)
                alts.append(And(list(g) + lits_of(c)))
            return Or(alts) if alts else FALSE
        if is_str(k) and is_str(d):
            return const(cval(k) in cval(d))
        return mk("in", k, self.freeze(d) if d.op == "ref" else d)

    def cond(self, t):
        """truthiness of a value as boolean term"""
        t = self.simp(t)
        if boolish(t):
            return t
        if is_const(t):
            return const(bool(cval(t)))
        if t.op == "ite":
            c = t.a[0]
            with self.push((c, True)):
                a = self.cond(t.a[1]) if not self.dead() else FALSE
            with self.push((c, False)):
                b = self.cond(t.a[2]) if not self.dead() else FALSE
            return Or([And([(c, True)] + lits_of(a)), And([(c, False)] + lits_of(b))])
        if t.op == "tuple":
            return const(bool(t.a))
        if t.op in ("cls", "fn", "ext", "mod", "bound", "enum", "txt"):
            return TRUE
        if t.op == "str" and t.a[0].op == "txt":
            return TRUE
        if t.op == "concat" and any(x.op == "txt" for x in t.a):
            return TRUE
        if t.op == "concat" and any(is_str(x) and cval(x) for x in t.a):
            return TRUE
        if t.op == "str":
            return t.a[0] if False else t
        if t.op in ("dkeys", "ditems", "dvalues"):
            return self.cond(t.a[0])
        if t.op == "len":
            return self.cond(t.a[0])
        if t.op == "ref":
            o = self.obj(t)
            if o.kind in ("list", "set", "dict"):
                if o.lazy:
                    return t
                if o.kind == "dict":
                    es = self.exact_dict(t)
                    if es is not None:
                        return const(bool(es))
                alts = []
                for e in o.log:
                    if e.op in ("append", "add", "set"):
                        alts.append(And(e.g))
                    elif e.op in ("extend", "update"):
                        alts.append(And(list(e.g) + lits_of(self.cond(e.val))))
                    else:
                        return mk("nonempty", self.freeze(t))
                return Or(alts) if alts else FALSE
            if o.kind == "inst":
                if o.cls is not None and o.cls.op == "cls":
                    for m in ("__bool__", "__len__"):
                        f = self.class_attr(o.cls, m)
                        if f is not None:
                            return self.cond(self.call(self.bind(f, t), [], {}, self.cur))
                return TRUE
        return t

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.b_eq(a, b)
        if isinstance(op, ast.NotEq):
            return Not(self.b_eq(a, b))
        if isinstance(op, ast.Is):
            return self.b_is(a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.b_is(a, b))
        if isinstance(op, ast.In):
            return self.b_in(a, b)
        if isinstance(op, ast.NotIn):
            return Not(self.b_in(a, b))
        a, b = self.simp(a), self.simp(b)
        if isinstance(op, ast.Gt):
            return self.b_lt(b, a)
        if isinstance(op, ast.GtE):
            return Not(self.b_lt(a, b))
        if isinstance(op, ast.Lt):
            return self.b_lt(a, b)
        if isinstance(op, ast.LtE):
            return Not(self.b_lt(b, a))
        return mk("unk", "cmp")

    def b_lt(self, a, b):
        if a.op == "ite":
            return self.lift(a, lambda x: self.b_lt(x, b))
        if b.op == "ite":
            return self.lift(b, lambda x: self.b_lt(a, x))
        if is_const(a) and is_const(b):
            try:
                return const(cval(a) < cval(b))
            except TypeError:
                pass
        if a is const(0) and b.op == "len":
            return self.cond(b.a[0])
        if b is const(1) and a.op == "len":
            return Not(self.cond(a.a[0]))
        return mk("lt", a, b)

    def binop(self, op, a, b):
        a, b = self.simp(a), self.simp(b)
        if a.op == "ite":
            return self.lift(a, lambda x: self.binop(op, x, b))
        if b.op == "ite":
            return self.lift(b, lambda x: self.binop(op, a, x))
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                     "%": lambda: x % y, "//": lambda: x // y, "**": lambda: x ** y if abs(y) < 64 else 1 / 0,
                     "|": lambda: x | y, "&": lambda: x & y, "^": lambda: x ^ y,
                     "/": lambda: x / y, "<<": lambda: x << y, ">>": lambda: x >> y}[op]()
                if not isinstance(r, str) or len(r) < 10000:
                    return const(r)
            except Exception:
                pass
        strish = ("concat", "str")
        if op == "+":
            if is_str(a) or is_str(b) or a.op in strish or b.op in strish:
                return concat([a, b])
            ka, kb = self.seqkind(a), self.seqkind(b)
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *(a.a + b.a))
            if ka == "list" or kb == "list":
                r = self.new("list")
                for x in (a, b):
                    if self.seqkind(x) == "list":
                        self._copy_entries(x, r)
                    else:
                        self.log(self.obj(r), "extend", None, x)
                return r
            if is_const(a):
                a, b = b, a
            elif not is_const(b) and a.n > b.n and a.op in ("len", "idx"):
                a, b = b, a
            if is_const(b) and a.op == "op" and a.a[0] == "+" and is_const(a.a[2]) and \
                    isinstance(cval(b), int) and isinstance(cval(a.a[2]), int):
                b = const(cval(a.a[2]) + cval(b))
                a = a.a[1]
            if b is const(0):
                return a
            return mk("op", "+", a, b)
        if op == "-" and is_const(b) and isinstance(cval(b), int) and not isinstance(cval(b), bool):
            return self.binop("+", a, const(-cval(b)))
        if op == "%" and (is_str(a)):
            return self.percent_format(cval(a), b)
        if op == "|":
            if self.seqkind(a) == "set" or self.seqkind(b) == "set":
                r = self.new("set")
                for x in (a, b):
                    self._copy_entries(x, r)
                return r
            if self.seqkind(a) == "dict" or self.seqkind(b) == "dict":
                r = self.new("dict")
                for x in (a, b):
                    self._copy_dict(x, r)
                return r
        if op == "*" and (is_const(a) or a.op == "len") and self.seqkind(b) in ("list", "tuple"):
            a, b = b, a
        if op == "*" and self.seqkind(a) in ("list", "tuple") and is_const(b) and isinstance(cval(b), int) \
                and cval(b) <= 64 and a not in self.carried and not (a.op == "ref" and self.obj(a).lazy):
            es = self.entries(a)
            if not any(g for g, _ in es):
                es = [e for _, e in es] * cval(b)
                if a.op == "tuple":
                    return mk("tuple", *es)
                r = self.new("list")
                for e in es:
                    self.log(self.obj(r), "append", None, e)
                return r
        if op == "*" and is_const(a) and not is_const(b):
            a, b = b, a
        return mk("op", op, a, b)

    def _repeated(self, x):
        """[e] * len(y) -> (e, len(y))"""
        x = self.simp(x)
        if x.op != "op" or x.a[0] != "*" or not isinstance(x.a[1], T) or not isinstance(x.a[2], T) or x.a[2].op != "len":
            return None
        if self.seqkind(x.a[1]) not in ("list", "tuple") or x.a[1] in self.carried:
            return None
        es = self.entries(x.a[1])
        return (es[0][1], x.a[2]) if len(es) == 1 and not es[0][0] else None

    def percent_format(self, fmt, b):
        args = list(b.a) if b.op == "tuple" else [b]
        parts = []
        i = 0
        buf = ""
        k = 0
        while i < len(fmt):
            ch = fmt[i]
            if ch == "%" and i + 1 < len(fmt):
                c2 = fmt[i + 1]
                if c2 == "%":
                    buf += "%"
                elif c2 in "sd" and k < len(args):
                    parts.append(const(buf))
                    buf = ""
                    parts.append(args[k])
                    k += 1
                elif c2 == "r" and k < len(args):
                    parts.append(const(buf))
                    buf = ""
                    parts.append(mk("repr", args[k]))
                    k += 1
                else:
                    return mk("op", "%", const(fmt), b)
                i += 2
                continue
            buf += ch
            i += 1
        parts.append(const(buf))
        return concat(parts)

    def str_format(self, fmt, args, kw):
        import string
        parts = []
        auto = 0
        try:
            for text, field, spec, conv in string.Formatter().parse(fmt):
                parts.append(const(text))
                if field is None:
                    continue
                if spec:
                    return None
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                if conv == "r":
                    v = mk("repr", v)
                elif conv not in (None, "s"):
                    return None
                parts.append(v)
        except Exception:
            return None
        return concat(parts)

    def seqkind(self, t):
        if t.op == "ref":
            return self.obj(t).kind
        if t.op == "tuple":
            return "tuple"
        if t.op == "sorted":
            return "list"
        return None

    def _plain(self, t):
        return t.op == "ref"

    def _copy_entries(self, src, dst):
        """append entries of iterable src to list/set dst"""
        o = self.obj(dst)
        if src.op == "star":        # every item of src is an iterable of its own
            for g, v in self.entries(src.a[0]):
                with self.push(*g):
                    if not self.dead():
                        self._copy_entries(v, dst)
            return
        op = "append" if o.kind == "list" else "add"
        for g, v in self.entries(src):
            with self.push(*g):
                self.log(o, op, None, v)

    def _copy_dict(self, src, dst):
        o = self.obj(dst)
        src = self.simp(src)
        if src.op == "ite":
            self.lift(src, lambda s: (self._copy_dict(s, dst), NONE)[1])
            return
        if src.op == "ref" and self.obj(src).kind == "dict":
            for g, (k, v) in self.dict_entries(src):
                with self.push(*g):
                    self.log(o, "set", k, v)
        elif src.op in ("ref", "tuple", "ditems", "zip"):
            for g, e in self.entries(src):
                with self.push(*g):
                    self.log(o, "set", self.get_item(e, const(0)), self.get_item(e, const(1)))
        else:
            self.log(o, "update", None, src)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node):
        f = self.simp(f)
        op = f.op
        if op == "ite":
            return self.lift(f, lambda x: self.call(x, args, kw, node))
        if op == "fn":
            return self.call_fn(f, args, kw, node)
        if op == "bound":
            return self.call(f.a[0], [f.a[1]] + list(args), kw, node)
        if op == "partial":
            k2 = dict(f.a[2])
            k2.update(kw)
            return self.call(f.a[0], list(f.a[1]) + list(args), k2, node)
        if op == "cls":
            return self.instantiate(f, args, kw, node)
        if op == "sd":
            r = self.intercepts.get(self.fns[f.a[1]].qual)
            if r is not None:
                return r(self, args, kw, node)
            return self.opaque_call(f, args, kw, node)
        if op == "sdm":
            return self.call_sdm(f, args, kw, node)
        if op == "sdreg":
            sd, c = f.a
            g = self.path()[0]
            if g is not None and args:
                self.sd_registry.setdefault(sd.a[1], []).append((g, c, args[0], self.loc(node)))
                self.event("sdregister", sd, (c, args[0]), (), node)
            return args[0] if args else NONE
        if op == "bmeth":
            return self.builtin_method(f.a[0], f.a[1], args, kw, node)
        if (op in ("ext", "call")) and len(args) == 1 and self.is_cache(f) and self.simp(args[0]).op == "fn":
            g = self.simp(args[0])
            self.caches[g.a[1]] = show(f)
            return g
        if op == "ext":
            return self.call_ext(f, args, kw, node)
        if op == "attr":
            base, name = f.a
            if self.opaque_method_hook is not None:
                r = self.opaque_method_hook(self, base, name, args, kw, node)
                if r is not None:
                    return r
            return self.method_on_opaque(base, name, f, args, kw, node)
        if op == "pyfn":
            return self.pyfns[f.a[0]](self, args, kw, node)
        if op == "ref":
            o = self.obj(f)
            if o.kind == "inst" and o.cls is not None and o.cls.op == "cls":
                m = self.class_attr(o.cls, "__call__")
                if m is not None:
                    return self.call(self.bind(m, f), args, kw, node)
        return self.opaque_call(f, args, kw, node)

    def call_sdm(self, f, args, kw, node):
        if f.a[1] == "register":
            if len(args) == 2:
                g = self.path()[0]
                if g is not None:
                    self.sd_registry.setdefault(f.a[0].a[1], []).append((g, args[0], args[1], self.loc(node)))
                    self.event("sdregister", f.a[0], tuple(args), (), node)
                return args[1]
            if len(args) == 1:
                return mk("sdreg", f.a[0], args[0])
        return self.opaque_call(f, args, kw, node)

    def kwt(self, kw):
        out = []
        for k, v in kw.items():
            if k == "**":
                for x in v:
                    out.append(("**", x))
            else:
                out.append((k, v))
        return tuple(sorted(out, key=lambda x: (x[0], x[1].n)))

    def on_stack(self, f, args, kw, node):
        """a call on a contextlib.ExitStack that is being used: what it enters or calls is left when the stack is"""
        st = self.exit_stacks[f.a[0]]
        g = self.rel_guard(st[0])
        if g is None:
            return None
        if f.a[1] == "enter_context" and len(args) == 1 and not kw:
            ctx = self.simp(args[0])
            if ctx.op == "ite":
                return self.lift(ctx, lambda x: self.on_stack(f, [x], {}, node))
            if ctx.op == "call":
                name, v = self.entered(ctx)
                self.event("enter", ctx, (), (), node)
                st[1].append((g, lambda s: self.event("exit", ctx, (), (), s)))
                return v
        if f.a[1] == "callback" and args:
            st[1].append((g, lambda s: self.call(args[0], list(args[1:]), kw, s)))
            return args[0]
        return None

    def entered(self, ctx):
        """what `with ctx as v` binds -> (name, v)"""
        name = None
        if ctx.op == "call" and ctx.a[0].op == "ext":
            name = ctx.a[0].a[0]
        elif ctx.op == "call" and ctx.a[0].op == "attr":
            name = "." + ctx.a[0].a[1]
        if name in CM_SELF or name == ".open":
            v = ctx
        elif name == "tempfile.TemporaryDirectory":
            v = mk("attr", ctx, "name")
        elif name == "contextlib.nullcontext":
            v = ctx.a[1][0] if ctx.a[1] else NONE
        elif ctx.op == "call":
            v = mk("entered", ctx)
        else:
            v = ctx
        return name, v

    def opaque_call(self, f, args, kw, node, uid=None):
        if f.op == "attr" and f.a[0] in self.exit_stacks:
            v = self.on_stack(f, args, kw, node)
            if v is not None:
                return v
        k = self.kwt(kw)
        if uid is None and self.importing and f.op == "ext":
            last = f.a[0].rsplit(".", 1)[-1]
            if last[:1].isupper() or last in ("count", "cycle", "local", "deque", "defaultdict", "iter"):
                uid = self.next_uid()       # an object made once, at import
        if uid is not None:
            t = mk("call", f, tuple(args), k, uid)
        else:
            t = mk("call", f, tuple(args), k)
        self.event("call", f, args, k, node, res=t)
        self.may_raise("call", t)
        return t

    def next_uid(self):
        self.uid += 1
        return self.uid

    CACHES = ("functools.lru_cache", "functools.cache")

    def is_cache(self, dv):
        return dv.op == "ext" and dv.a[0] in self.CACHES or \
            dv.op == "call" and dv.a[0].op == "ext" and dv.a[0].a[0] in self.CACHES

    def call_fn(self, f, args, kw, node):
        if f.a[1] in self.caches:
            self.event("cachedcall", f, args, self.kwt(kw), node)
            v = self.call_fn0(f, args, kw, node)
            for x in self._alts(v):
                if x.op == "ref":
                    self.obj(x).shared = True
            return v
        return self.call_fn0(f, args, kw, node)

    def call_fn0(self, f, args, kw, node):
        fn = self.fns[f.a[1]]
        h = self.intercepts.get(fn.qual)
        if h is not None:
            r = h(self, args, kw, node)
            if r is not NotImplemented:
                return r
        depth = sum(1 for fr in self.frames if fr.fn is fn)
        if depth and depth < 8 and args and args[0].op == "ref" and self.obj(args[0]).kind == "inst" and \
                all(fr.selfv is not None and fr.selfv.op == "ref" and fr.selfv is not args[0]
                    for fr in self.frames if fr.fn is fn):
            depth = 0       # structural recursion over distinct known objects
        a0 = args[0] if args else None
        if depth and depth < 8 and a0 is not None:
            a0 = self.simp(a0)
            if a0.op == "ite" and all(x.op == "ref" and self.obj(x).kind in ("list", "dict", "set")
                                      for x in self._alts(a0)):
                return self.lift(a0, lambda x: self.call_fn(f, [x] + list(args[1:]), kw, node))
            if a0.op == "ref" and self.obj(a0).kind in ("list", "dict", "set") and \
                    all(fr.arg0 is not None and fr.arg0 is not a0 for fr in self.frames if fr.fn is fn):
                depth = 0   # recursion into a nested known container
        if depth and depth < 10 and self.known_args is not None:
            ka = self.known_args(args, kw)
            if ka and all(fr.known is not None and fr.known != ka for fr in self.frames if fr.fn is fn):
                depth = 0   # recursion into another part of a fully known structure
        if depth >= 1 or len(self.frames) > self.stacklimit or fn.qual in self.no_inline:
            return self.opaque_call(mk("rec", fn.qual), args, kw, node)
        fr = Frame(fn.module, fn, fn.closure)
        fr.arg0 = a0
        fr.known = self.known_args(args, kw) if self.known_args is not None else None
        self.bind_args(fn, fr, args, kw, node)
        fr.cls = fn.cls
        if fn.cls is not None and args:
            fr.selfv = args[0]
        return self.run_frame(fr, fn, node)

    def run_frame(self, fr, fn, node, yield_hook=None):
        self.fn_analysed.add((fn.file, fn.qual))
        fr.base = dict(self.facts())
        if fn.isgen:
            if yield_hook is not None:
                fr.yield_hook = yield_hook
            else:
                fr.yields = self.new("list", None)
        sc = Scope("frame")
        sc.frame = fr
        self.scopes.append(sc)
        self._pg = None
        self.frames.append(fr)
        saved_cur = self.cur
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body)
                if not self.dead():
                    fr.rets.append((self.rel_guard(fr.base), v))
                fell = False
            else:
                self.exec_block(fn.node.body)
                fell = not self.dead()
        finally:
            self.frames.pop()
            self.scopes.pop()
            self._pg = None
            self.cur = saved_cur
        if fn.isgen and yield_hook is None:
            return fr.yields
        rets = [r for r in fr.rets if r[0] is not None]
        if fell:
            res = NONE
        elif rets:
            res = rets[-1][1]
            rets = rets[:-1]
        else:
            return mk("unk", "noreturn")
        for g, v in reversed(rets):
            res = ite(And(g), v, res)
        return res

    def bind_args(self, fn, fr, args, kw, node):
        a = fn.node.args
        kw = dict(kw)
        params = [p.arg for p in a.posonlyargs + a.args]
        pos = list(args)
        vals = {}
        star = None
        rest = []
        for i, v in enumerate(pos):
            if v.op == "star":
                star = v.a[0]
                continue
            if star is None and i < len(params):
                vals[params[i]] = v
            elif star is None:
                rest.append(v)
            else:
                rest.append(v)
        dstar = kw.pop("**", None)
        for k in list(kw):
            if k in params or k in [p.arg for p in a.kwonlyargs]:
                vals[k] = kw.pop(k)
        nd = len(fn.defaults)
        for i, p in enumerate(params):
            if p not in vals:
                j = i - (len(params) - nd)
                d = fn.defaults[j] if 0 <= j < nd else None
                if star is not None:
                    vals[p] = mk("item", star, const(i))
                elif dstar:
                    x = mk("item", dstar[0], const(p))
                    vals[p] = ite(self.b_in(const(p), dstar[0]), x, d) if d is not None else x
                elif d is not None:
                    vals[p] = d
                else:
                    vals[p] = mk("unk", "missing-arg:" + p)
        for p, d in zip(a.kwonlyargs, fn.kwdefaults):
            if p.arg not in vals:
                if dstar:
                    x = mk("item", dstar[0], const(p.arg))
                    vals[p.arg] = ite(self.b_in(const(p.arg), dstar[0]), x, d) if d is not None else x
                else:
                    vals[p.arg] = d if d is not None else mk("unk", "missing-arg:" + p.arg)
        if a.vararg:
            if star is not None:
                vals[a.vararg.arg] = star if not rest else mk("unk", "varargs")
            else:
                vals[a.vararg.arg] = mk("tuple", *rest)
        if a.kwarg:
            if dstar and not kw and len(dstar) == 1:
                vals[a.kwarg.arg] = dstar[0]
            else:
                d = self.new("dict")
                for k, v in kw.items():
                    self.log(self.obj(d), "set", const(k), v)
                for x in dstar or ():
                    self._copy_dict(x, d)
                vals[a.kwarg.arg] = d
        fr.vars.update(vals)

    def instantiate(self, c, args, kw, node):
        h = self.intercepts.get("new:" + c.a[0])
        if h is not None:
            r = h(self, args, kw, node)
            if r is not NotImplemented:
                return r
        cl = self.classes[c.a[0]]
        if cl.enum and len(args) == 1:
            return mk("call", c, tuple(args), ())
        r = self.new("inst", c)
        o = self.obj(r)
        init = self.class_attr(c, "__init__")
        self.event("new", c, args, self.kwt(kw), node, res=r)
        if init is not None:
            self.call(self.bind(init, r), args, kw, node)
        elif self.is_dataclass(c):
            fields = self.dc_fields(c)
            kw = dict(kw)
            dst = kw.pop("**", None)
            for i, (n, d, factory) in enumerate(fields):
                if i < len(args):
                    v = args[i]
                elif n in kw:
                    v = kw[n]
                elif factory is not None:
                    v = self.call(factory, [], {}, node)
                elif d is not None:
                    v = d
                elif dst:
                    v = mk("item", dst[0], const(n))
                else:
                    v = mk("unk", "missing-arg:" + n)
                o.attrs[n] = v
            pi = self.class_attr(c, "__post_init__")
            if pi is not None:
                self.call(self.bind(pi, r), [], {}, node)
        else:
            if args or kw:
                o.attrs["args"] = mk("tuple", *args)
        return r

    def is_dataclass(self, c):
        return any(k.op == "cls" and self.classes[k.a[0]].dataclass for k in self.class_mro(c))

    def dc_fields(self, c):
        out = {}
        for k in reversed(self.class_mro(c)):
            if k.op == "cls" and self.classes[k.a[0]].dataclass:
                for (n, d, f) in self.classes[k.a[0]].fields:
                    out[n] = (n, d, f)
        return list(out.values())

    # ------------------------------------------------------------ builtins
    def builtin_method(self, base, name, args, kw, node):
        o = self.obj(base)
        k = o.kind
        if k == "list":
            if name == "append" and len(args) == 1:
                self.event("mut", base, args, (), node, x=name)
                self.log(o, "append", None, args[0])
                return NONE
            if name == "extend" and len(args) == 1:
                self.event("mut", base, args, (), node, x=name)
                self._copy_entries(args[0], base)
                return NONE
            if name == "copy":
                r = self.new("list", o.cls)
                self._copy_entries(base, r)
                return r
            if name in ("sort", "reverse"):
                self.event("mut", base, args, (), node, x=name)
                if name == "reverse" and self.edit_list(base, "reverse"):
                    return NONE
                if name == "sort" and not args and not kw:
                    r = self.sort_exact(base)
                    if r is not None and not self.rel_guard(o.base):
                        o.log[:] = self.obj(r).log
                        return NONE
                self.log(o, "sort", None, None)
                return NONE
            if name == "pop":
                self.event("mut", base, args, (), node, x=name)
                if all(e.op == "append" and not e.g for e in o.log) and o.log and base not in self.carried and \
                        (not args or is_const(args[0])):
                    i = cval(args[0]) if args else -1
                    if -len(o.log) <= i < len(o.log) and not self.rel_guard(o.base):
                        return o.log.pop(i).val
                pos = args[0] if args else const(-1)
                v = mk("item", self.freeze(base), pos)
                self.log(o, "pop", pos, None)
                return v
            if name in ("insert", "remove", "clear", "__setitem__"):
                self.event("mut", base, args, (), node, x=name)
                if name == "clear":
                    self.log(o, "clear", None, None)
                elif name == "insert" and len(args) == 2 and self.edit_list(base, "insert", *args):
                    pass
                else:
                    self.log(o, name, args[0] if args else None, args[1] if len(args) > 1 else None)
                return NONE
        if k == "set":
            if name == "add":
                self.event("mut", base, args, (), node, x=name)
                self.log(o, "add", None, args[0])
                return NONE
            if name == "update":
                self.event("mut", base, args, (), node, x=name)
                for a in args:
                    self._copy_entries(a, base)
                return NONE
            if name == "union":
                r = self.new("set")
                for a in (base,) + tuple(args):
                    self._copy_entries(a, r)
                return r
            if name == "copy":
                r = self.new("set")
                self._copy_entries(base, r)
                return r
            if name in ("discard", "remove", "clear"):
                self.event("mut", base, args, (), node, x=name)
                self.log(o, name, args[0] if args else None, None)
                return NONE
        if k == "dict":
            if name == "get":
                return self.dict_get(base, args[0], args[1] if len(args) > 1 else NONE)
            if name == "items":
                return mk("ditems", base)
            if name == "keys":
                return mk("dkeys", base)
            if name == "values":
                return mk("dvalues", base)
            if name == "update":
                self.event("mut", base, args, self.kwt(kw), node, x=name)
                for a in args:
                    self._copy_dict(a, base)
                for q, v in kw.items():
                    if q == "**":
                        for x in v:
                            self._copy_dict(x, base)
                    else:
                        self.log(o, "set", const(q), v)
                return NONE
            if name == "setdefault":
                d = args[1] if len(args) > 1 else NONE
                c = self.b_in(args[0], base)
                old = self.dict_get(base, args[0], mk("missing")) if not o.lazy else mk("item", base, args[0])
                self.event("mut", base, args, (), node, x=name)
                with self.push((c, False)):
                    if not self.dead():
                        self.log(o, "set", args[0], d)
                if c is TRUE:
                    return old
                return ite(c, old, d)
            if name == "pop":
                self.event("mut", base, args, (), node, x=name)
                v = self.dict_get(base, args[0], args[1] if len(args) > 1 else None, node)
                self.log(o, "del", args[0], None)
                return v
            if name == "copy":
                r = self.new("dict", o.cls)
                self._copy_dict(base, r)
                return r
            if name == "clear":
                self.event("mut", base, args, (), node, x=name)
                self.log(o, "clear", None, None)
                return NONE
            if name == "__contains__":
                return self.b_in(args[0], base, raw=True)
        t = mk("call", mk("attr", base, name), tuple(args), self.kwt(kw))
        self.event("call", mk("attr", base, name), args, self.kwt(kw), node, res=t)
        self.may_raise("call", t)
        return t

    def method_on_opaque(self, base, name, f, args, kw, node):
        # strings
        if is_str(base):
            if name == "join" and len(args) == 1:
                return self.str_join(base, args[0], node)
            if name == "format":
                r = self.str_format(cval(base), args, {k: v for k, v in kw.items() if k != "**"})
                if r is not None:
                    return r
            if name in STR_METHODS and all(is_const(x) for x in args) and not kw:
                try:
                    r = getattr(cval(base), name)(*[cval(x) for x in args])
                    if isinstance(r, (list, tuple)):
                        it = [const(x) for x in r]
                        return self.new_list(it) if isinstance(r, list) else mk("tuple", *it)
                    return const(r)
                except Exception:
                    pass
        if name == "join" and len(args) == 1 and base.op in ("concat", "str"):
            return self.str_join(base, args[0], node)
        if name == "items" and not args:
            self.may_raise("call", mk("call", f, (), ()))
            return mk("ditems", base)
        if name == "keys" and not args:
            return mk("dkeys", base)
        if name == "values" and not args:
            return mk("dvalues", base)
        if name == "get" and args and base.op not in ("ext",):
            c = self.b_in(args[0], base)
            d = args[1] if len(args) > 1 else NONE
            return self.simp(ite(c, mk("item", base, args[0]), d))
        if name == "__contains__" and len(args) == 1:
            return self.b_in(args[0], base, raw=True)
        if name == "__getitem__" and len(args) == 1:
            return self.get_item(base, args[0], node)
        return self.opaque_call(f, args, kw, node)

    def str_join(self, sep, it, node):
        it = self.simp(it)
        if is_str(sep) and cval(sep) == "" and (is_str(it) or it.op in ("concat", "str", "txt", "join", "fmt")):
            return it       # the characters of a text
        if it.op == "ite":
            return self.lift(it, lambda x: self.str_join(sep, x, node))
        es = self.entries(it)
        if all(not g for g, _ in es):
            parts = []
            for i, (g, e) in enumerate(es):
                if i:
                    parts.append(sep)
                parts.append(e)
            return concat(parts) if parts else const("")
        fz = self.freeze(it) if it.op == "ref" else it
        if fz.op in ("list", "tuple", "set") or it.op == "ref":
            pass
        t = mk("join", sep, fz)
        return t

    def call_ext(self, f, args, kw, node):
        name = f.a[0]
        h = self.ext_handlers.get(name)
        if h is not None:
            r = h(self, args, kw, node)
            if r is not NotImplemented:
                return r
        if name.startswith("builtins."):
            b = name[9:]
            if b in ("min", "max", "abs", "round", "divmod") and args and not kw and all(is_const(a) for a in args):
                try:
                    r = getattr(builtins, b)(*[cval(a) for a in args])
                    if isinstance(r, (int, float, str)):
                        return const(r)
                except Exception:
                    pass
            if b in ("sum", "min", "max") and len(args) == 1 and not kw:
                x = self.simp(args[0])
                if x.op == "tuple" or x.op == "ref" and self.obj(x).kind == "list" and not self.obj(x).lazy and x not in self.carried:
                    es = self.entries(x)
                    if all(not g and is_const(e) and isinstance(cval(e), (int, float)) for g, e in es) and (es or b == "sum"):
                        return const(getattr(builtins, b)([cval(e) for _, e in es]))
            m = getattr(self, "bi_" + b, None)
            if m is not None and "**" not in kw and not any(a.op == "star" for a in args):
                r = m(args, kw, node)
                if r is not None:
                    return r
            if b == "dict.fromkeys" and len(args) in (1, 2) and not kw and args[0] not in self.carried:
                x = self.simp(args[0])
                if x.op == "tuple" or x.op == "ref" and self.obj(x).kind in ("list", "dict") and not self.obj(x).lazy:
                    es = self.entries(x)
                    if all(not g for g, _ in es):
                        r = self.new("dict")
                        for _, e in es:
                            self.log(self.obj(r), "set", e, args[1] if len(args) > 1 else NONE)
                        return r
        elif name in ("functools.partial",):
            if args and not any(a.op == "star" for a in args) and "**" not in kw:
                return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        elif name in ("functools.reduce",) and 2 <= len(args) <= 3 and not kw and not any(a.op == "star" for a in args):
            it = args[1]
            if len(args) == 3:
                return self._reduce(args[0], it, args[2], node)
            it = self.simp(it)
            if it.op == "tuple" or it.op == "ref" and self.obj(it).kind == "list" and not self.obj(it).lazy and it not in self.carried:
                es = self.entries(it)
                if es and not any(g for g, _ in es):
                    return self._reduce(args[0], mk("tuple", *[e for _, e in es[1:]]), es[0][1], node)
        elif name in ("os.fspath",) and len(args) == 1 and is_str(args[0]):
            return args[0]
        elif name == "importlib.import_module" and args and is_str(args[0]):
            nm = cval(args[0])
            if nm.startswith("."):
                pk = kw.get("package") or (args[1] if len(args) > 1 else None)
                if pk is not None and is_str(pk):
                    lvl = len(nm) - len(nm.lstrip("."))
                    base = cval(pk).split(".")
                    base = base[:len(base) - (lvl - 1)] if lvl > 1 else base
                    nm = ".".join(base + [nm.lstrip(".")])
            if self.is_repo_module(nm):
                self.load_module(nm)
                return mk("mod", nm)
        elif name == "itertools.chain" and not kw:
            r = self.new("list")
            for a in args:
                self._copy_entries(a, r)
            return r
        elif name == "itertools.chain.from_iterable" and len(args) == 1:
            r = self.new("list")
            for g, e in self.entries(args[0]):
                with self.push(*g):
                    self._copy_entries(e, r)
            return r
        elif name in ("typing.cast",) and len(args) == 2:
            return args[1]
        elif name in ("copy.copy",) and len(args) == 1 and self.seqkind(args[0]) in ("list", "dict", "set"):
            r = self.new(self.seqkind(args[0]))
            if self.seqkind(args[0]) == "dict":
                self._copy_dict(args[0], r)
            else:
                self._copy_entries(args[0], r)
            return r
        elif name == "contextlib.suppress":
            return mk("suppress", tuple(args))
        elif name == "collections.OrderedDict" and not kw:
            r = self.new("dict", mk("ext", name))
            if args:
                self._copy_dict(args[0], r)
            return r
        elif name == "dataclasses.field":
            return mk("dcfield", self.kwt(kw))
        elif name == "dataclasses.replace" and args:
            b = args[0]
            ty = self.typeof(b)
            if ty is not None:
                r = self.new("inst", ty)
                for (n, d, fac) in self.dc_fields(ty):
                    self.obj(r).attrs[n] = kw[n] if n in kw else self.get_attr(b, n)
                return r
        elif name.startswith("operator.") and len(args) in (1, 2):
            b = name[9:]
            if b == "contains":
                return self.b_in(args[1], args[0])
            if b == "not_":
                return Not(self.cond(args[0]))
            if b == "eq":
                return self.b_eq(*args)
            if b == "getitem":
                return self.get_item(args[0], args[1], node)
            if b in ("attrgetter", "itemgetter") and len(args) == 1 and is_const(args[0]):
                return mk("getter", b, args[0])
        uid = self.next_uid() if name in ALLOC else None
        return self.opaque_call(f, args, kw, node, uid)

    # each bi_* returns None when it does not apply
    def bi_len(self, args, kw, node):
        if len(args) != 1:
            return None
        t = self.simp(args[0])
        if t.op == "ite":
            return self.lift(t, lambda x: self.bi_len([x], {}, node))
        if t.op == "tuple":
            return const(len(t.a))
        if is_str(t):
            return const(len(cval(t)))
        if t.op == "ref":
            o = self.obj(t)
            if o.kind == "list" and all(e.op == "append" and not e.g for e in o.log):
                return const(len(o.log))
            if o.kind == "dict":
                x = self.exact_dict(t)
                if x is not None:
                    return const(len(x))
            if o.kind == "inst" and o.cls is not None and o.cls.op == "cls":
                m = self.class_attr(o.cls, "__len__")
                if m is not None:
                    return self.call(self.bind(m, t), [], {}, node)
            return mk("len", t)
        if t.op in ("ditems", "dkeys", "dvalues"):
            return self.bi_len([t.a[0]], {}, node)
        return mk("len", t)

    def bi_isinstance(self, args, kw, node):
        if len(args) != 2:
            return None
        x, c = self.simp(args[0]), self.simp(args[1])
        if x.op == "ite":
            return self.lift(x, lambda y: self.bi_isinstance([y, c], {}, node))
        return self.isinst(x, c)

    def isinst(self, x, c):
        if c.op == "ite":
            return self.lift(c, lambda y: self.isinst(x, y))
        if c.op in ("tuple", "ref"):
            els = self.entries(c)
            return Or([And(list(g) + lits_of(self.isinst(x, e))) for g, e in els])
        r = self.isinst1(x, c)
        if r is not None:
            return const(r)
        return mk("isinstance", x, c)

    def texty(self, x):
        """a library call whose result is a text"""
        if is_str(x) or x.op in ("concat", "str", "join", "txt", "repr", "fmt"):
            return True
        if x.op != "call":
            return False
        f = x.a[0]
        if f.op == "ext":
            return f.a[0] in ("builtins.str", "builtins.repr", "builtins.format", "re.sub", "textwrap.dedent", "textwrap.indent",
                              "html.escape", "json.dumps")
        if f.op != "attr":
            return False
        if f.a[1] in ("get_string", "get_html_string", "get_formatted_string"):
            return f.a[0].op == "call" and f.a[0].a[0].op == "ext" and f.a[0].a[0].a[0].endswith("PrettyTable")
        return f.a[1] in TEXT_TO_TEXT and self.texty(f.a[0])

    def isinst1(self, x, c):
        bt = None
        if x.op == "ext" and c.op == "ext" and c.a[0] in ("builtins.str", "builtins.list", "builtins.tuple",
                                                          "builtins.dict", "builtins.bytes", "builtins.int"):
            # an imported name used as a type/function object; module level
            # string constants of other packages are spelled in capitals or known
            leaf = x.a[0].rsplit(".", 1)[-1]
            if not leaf.isupper() and x.a[0] not in ("os.sep", "os.linesep", "sys.platform", "sys.executable",
                                                     "sys.argv", "sys.path", "os.environ"):
                return False
            return None
        if self.inst_type_hook is not None:
            ty = self.inst_type_hook(x)
            if ty is not None:
                if c.op == "cls":
                    return True if c in self.class_mro(ty) else None
                return False
        if x.op == "const":
            bt = x.a[0]
        elif x.op in ("concat", "str", "join", "txt") or x.op == "call" and self.texty(x):
            bt = "str"
        elif x.op == "tuple":
            bt = "tuple"
        elif x.op == "sorted":
            bt = "list"
        elif x.op == "ref":
            o = self.obj(x)
            if o.kind in ("list", "dict", "set"):
                bt = "tuple" if o.cls == "tuple" else o.kind
            elif o.cls is not None and o.cls.op == "cls":
                mro = self.class_mro(o.cls)
                if c in mro or c is mk("ext", "builtins.object"):
                    return True
                if c.op == "cls":
                    return False
                if all(k.op == "cls" for k in mro):
                    return False
                return None
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in FRESH_TYPES:
            if c is x.a[0]:
                return True
            if c.op == "cls" or (c.op == "ext" and c.a[0] in BUILTIN_DATA):
                return False
            if c is mk("ext", "builtins.dict"):
                return x.a[0].a[0].startswith("collections.")
        if x.op == "elem" and x.a[0].op in ("sorted", "list", "set", "tuple"):
            src = x.a[0]
            if src.op == "sorted":
                src = src.a[0]
            vals = [i.a[3] if i.op == "ent" else i for i in src.a if isinstance(i, T)]
            if vals and all(isinstance(v, T) for v in vals):
                rs = {self.isinst1(v, c) for v in vals}
                if len(rs) == 1:
                    return rs.pop()
        if bt is None:
            t = self.typeof(x)
            if t is not None:
                mro = self.class_mro(t)
                if c in mro:
                    return True
            return None
        if c.op == "ext" and c.a[0].startswith("builtins."):
            n = c.a[0][9:]
            if n == "object":
                return True
            py = getattr(builtins, n, None)
            bp = type(None) if bt == "NoneType" else getattr(builtins, bt, None)
            if isinstance(py, type) and isinstance(bp, type):
                return issubclass(bp, py)
        if c.op == "cls":
            return False
        if c.op == "ext" and bt in ("str", "int", "bool", "NoneType", "float", "bytes", "list", "dict", "tuple", "set"):
            if c.a[0].startswith("collections.abc."):
                import collections.abc
                ab = getattr(collections.abc, c.a[0].rsplit(".", 1)[-1], None)
                bp = type(None) if bt == "NoneType" else getattr(builtins, bt, None)
                return issubclass(bp, ab) if isinstance(ab, type) else None
            if c.a[0].startswith(("collections.abc", "typing", "numbers")):
                return None
            return False
        return None

    def bi_getattr(self, args, kw, node):
        if len(args) < 2 or not is_str(args[1]):
            if len(args) >= 2:
                n = self.simp(args[1])
                if n.op == "ite":
                    return self.lift(n, lambda x: self.bi_getattr([args[0], x] + list(args[2:]), {}, node) or
                                     self.opaque_call(mk("ext", "builtins.getattr"), [args[0], x] + list(args[2:]), {}, node))
            return None
        base = self.simp(args[0])
        name = cval(args[1])
        if len(args) == 2:
            return self.get_attr(base, name, node)
        if base.op == "mod":
            m = self.load_module(base.a[0])
            v = m.env.get(name, UNBOUND)
            return subst(self.simp(v, True), {UNBOUND: args[2]}) if v is not UNBOUND else args[2]
        if base.op == "ref":
            o = self.obj(base)
            if o.kind == "inst" and not o.lazy and o.cls is not None and o.cls.op == "cls":
                v = o.attrs.get(name)
                cv = self.class_attr(o.cls, name)
                d = args[2] if cv is None else self.bind(cv, base)
                if v is None:
                    return d
                return subst(self.simp(v, True), {UNBOUND: d})
        h = mk("hasattr", base, args[1])
        self.quiet_depth += 1
        try:
            v = self.get_attr(base, name, node)
        finally:
            self.quiet_depth -= 1
        if v.op not in ("attr", "ext"):
            return v
        return self.simp(ite(h, v, args[2]))

    def bi_hasattr(self, args, kw, node):
        if len(args) != 2:
            return None
        base = self.simp(args[0])
        if base.op == "ite":
            return self.lift(base, lambda x: self.bi_hasattr([x, args[1]], {}, node))
        if is_str(args[1]):
            n = cval(args[1])
            if base.op == "ref" and self.obj(base).kind == "inst":
                o = self.obj(base)
                if n in o.attrs:
                    v = self.simp(o.attrs[n], True)
                    if not contains(v, UNBOUND):
                        return TRUE
                    if v is UNBOUND:
                        return FALSE
                    if v.op == "ite":
                        # set on some paths only: on the others it is as it was at first
                        first = mk("hasattr", base, args[1])

                        def there(x):
                            if x.op == "ite":
                                return ite(x.a[0], there(x.a[1]), there(x.a[2]))
                            return first if x is UNBOUND else TRUE
                        return self.simp(there(v))
                elif o.cls is not None and o.cls.op == "cls" and self.class_attr(o.cls, n) is not None:
                    return TRUE
            t = self.typeof(base)
            if t is not None and t.op == "cls" and self.class_attr(t, n) is not None:
                return TRUE
        return mk("hasattr", base, args[1])

    def bi_setattr(self, args, kw, node):
        if len(args) == 3 and is_str(args[1]):
            self.set_attr(args[0], cval(args[1]), args[2], node)
            return NONE
        return None

    def bi_delattr(self, args, kw, node):
        if len(args) == 2 and is_str(args[1]):
            self.del_attr(args[0], cval(args[1]), node)
            return NONE
        return None

    def bi_type(self, args, kw, node):
        if len(args) != 1:
            return None
        x = self.simp(args[0])
        if x.op == "ite":
            return self.lift(x, lambda y: self.bi_type([y], {}, node))
        t = self.typeof(x)
        if t is not None and x.op == "ref":
            return t
        if x.op == "const":
            return mk("ext", "builtins." + x.a[0])
        if x.op == "tuple":
            return mk("ext", "builtins.tuple")
        if x.op == "ref" and self.obj(x).kind in ("list", "dict", "set") and self.obj(x).cls is None:
            return mk("ext", "builtins." + self.obj(x).kind)
        return mk("typeof", x)

    def bi_str(self, args, kw, node):
        if len(args) == 0:
            return const("")
        if len(args) != 1:
            return None
        x = self.simp(args[0])
        if is_const(x) and isinstance(cval(x), (str, int, bool, type(None))):
            return const(str(cval(x)))
        if x.op in ("concat", "str", "join", "txt"):
            return x
        return mk("str", x)

    def bi_repr(self, args, kw, node):
        return mk("repr", args[0]) if len(args) == 1 else None

    def bi_bool(self, args, kw, node):
        return self.cond(args[0]) if len(args) == 1 else FALSE

    def bi_dict(self, args, kw, node):
        r = self.new("dict")
        if args:
            self._copy_dict(args[0], r)
        for k, v in kw.items():
            self.log(self.obj(r), "set", const(k), v)
        return r

    def bi_list(self, args, kw, node):
        r = self.new("list")
        if args:
            self._copy_entries(args[0], r)
        return r

    def bi_tuple(self, args, kw, node):
        if not args:
            return mk("tuple")
        x = self.simp(args[0])
        if x.op == "tuple":
            return x
        es = self.entries(x)
        if all(not g for g, _ in es):
            return mk("tuple", *[e for _, e in es])
        r = self.new("list", "tuple")
        self._copy_entries(x, r)
        return r

    def bi_set(self, args, kw, node):
        r = self.new("set")
        if args:
            self._copy_entries(args[0], r)
        return r

    def bi_frozenset(self, args, kw, node):
        r = self.new("set", mk("ext", "builtins.frozenset"))
        if args:
            self._copy_entries(args[0], r)
        return r

    def bi_enumerate(self, args, kw, node):
        st = args[1] if len(args) > 1 else kw.get("start", const(0))
        return mk("enumerate", args[0], st)

    def bi_zip(self, args, kw, node):
        return mk("zip", *args)

    def bi_range(self, args, kw, node):
        a = [const(0), None, const(1)]
        if len(args) == 1:
            a[1] = args[0]
        elif len(args) == 2:
            a[0], a[1] = args
        else:
            a = args
        return mk("range", *a)

    def bi_map(self, args, kw, node):
        return mk("map", args[0], args[1]) if len(args) == 2 else None

    def bi_filter(self, args, kw, node):
        return mk("filter", args[0], args[1]) if len(args) == 2 else None

    def bi_iter(self, args, kw, node):
        return mk("iter", args[0]) if len(args) == 1 else None

    def bi_sorted(self, args, kw, node):
        if len(args) != 1:
            return None
        r = self.sort_exact(args[0]) if not kw else None
        if r is not None:
            return r
        return mk("sorted", self.freeze(args[0]), self.kwt(kw))

    def sort_exact(self, x):
        """sorted(x) of a small display of different constants (or of tuples starting with such), or None"""
        x = self.simp(x)
        if x in self.carried or x.op == "ref" and self.obj(x).lazy or x.op not in ("ref", "tuple", "ditems", "dkeys") \
                or x.op in ("ditems", "dkeys") and (x.a[0].op != "ref" or x.a[0] in self.carried or self.exact_dict(x.a[0]) is None):
            return None
        es = self.entries(x)
        if not es or len(es) > 50 or any(g for g, _ in es):
            return None
        keys = []
        for _, e in es:
            k = e.a[0] if e.op == "tuple" and e.a else e
            if not is_str(k):
                return None
            keys.append(cval(k))
        if len({e.op for _, e in es}) != 1:
            return None
        seen = {}
        for k, (_, e) in zip(keys, es):
            if k in seen and (e.op == "tuple" or x.op == "ref" and self.obj(x).kind == "list"):
                return None
            seen[k] = e
        return self.new_list([seen[k] for k in sorted(seen)])

    def bi_any(self, args, kw, node):
        if len(args) != 1:
            return None
        alts = []
        for g, e in self.entries(args[0]):
            with self.push(*g):
                c = self.cond(e)
            alts.append(And(list(g) + lits_of(c)))
        return Or(alts) if alts else FALSE

    def bi_all(self, args, kw, node):
        if len(args) != 1:
            return None
        alts = []
        for g, e in self.entries(args[0]):
            with self.push(*g):
                c = self.cond(e)
            alts.append(And(list(g) + lits_of(Not(c))))
        return Not(Or(alts)) if alts else TRUE

    def bi_callable(self, args, kw, node):
        t = self.simp(args[0])
        if t.op in ("fn", "cls", "bound", "partial"):
            return TRUE
        if is_const(t):
            return FALSE
        return mk("callable", t)

    def bi_issubclass(self, args, kw, node):
        if len(args) != 2:
            return None
        a, b = self.simp(args[0]), self.simp(args[1])
        if a.op == "cls" and b.op == "cls":
            return const(b in self.class_mro(a))
        return mk("issubclass", a, b)

    def bi_super(self, args, kw, node):
        fr = self.frames[-1]
        if not args:
            f = fr
            while f is not None and f.selfv is None:
                f = f.closure
            if f is None:
                return mk("unk", "super")
            return mk("super", f.cls, f.selfv)
        if len(args) == 2:
            return mk("super", args[0], args[1])
        return None

    def bi_vars(self, args, kw, node):
        if len(args) == 1:
            return self.get_attr(args[0], "__dict__", node)
        return None

    def bi_property(self, args, kw, node):
        return args[0] if args else None

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.dead():
                return
            self.cur = s
            m = getattr(self, "st_" + type(s).__name__, None)
            if m is None:
                self.warn.append(f"unmodelled statement {type(s).__name__} at {self.loc(s)}")
                continue
            m(s)

    def st_Pass(self, s):
        pass

    def st_Expr(self, s):
        self.eval(s.value)

    def st_Global(self, s):
        self.frames[-1].globals.update(s.names)

    def st_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def st_Assign(self, s):
        v = self.eval(s.value)
        if self.dead():
            return
        for t in s.targets:
            self.assign_target(t, v, s)

    def st_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            if self.dead():
                return
            self.assign_target(s.target, v, s)

    def assign_target(self, t, v, node):
        if isinstance(t, ast.Name):
            self.assign(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value), t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.eval(t.value), self.eval(t.slice), v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                v = self.simp(v)
                if v.op == "tuple" and len(v.a) >= n - 1:
                    tail = n - 1 - i
                    for j in range(i):
                        self.assign_target(t.elts[j], v.a[j], node)
                    mid = v.a[i:len(v.a) - tail]
                    self.assign_target(t.elts[i].value, self.new_list(mid), node)
                    for j in range(tail):
                        self.assign_target(t.elts[i + 1 + j], v.a[len(v.a) - tail + j], node)
                    return
                for j in range(i):
                    self.assign_target(t.elts[j], self.get_item(v, const(j), node), node)
                tail = n - 1 - i
                sl = mk("slice", const(i), const(-tail) if tail else NONE, NONE)
                self.assign_target(t.elts[i].value, self.get_item(v, sl, node), node)
                for j in range(tail):
                    self.assign_target(t.elts[i + 1 + j], self.get_item(v, const(j - tail), node), node)
                return
            k = self.known_len(v)
            if k is not None and k != n:
                self.do_raise(mk("ext", "builtins.ValueError"), node)
                return
            for j, e in enumerate(t.elts):
                self.assign_target(e, self.get_item(v, const(j), node), node)
        elif isinstance(t, ast.Starred):
            self.assign_target(t.value, v, node)

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
           ast.Mod: "%", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^",
           ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}

    def st_AugAssign(self, s):
        op = self.OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, t)
            base = key = None
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            old = self.get_attr(base, t.attr, t)
        else:
            base = self.eval(t.value)
            key = self.eval(t.slice)
            old = self.get_item(base, key, t)
        v = self.eval(s.value)
        old = self.simp(old)
        new = self.aug(op, old, v, s)
        if new is None:
            return
        if isinstance(t, ast.Name):
            self.assign(t.id, new)
        elif isinstance(t, ast.Attribute):
            self.set_attr(base, t.attr, new, s)
        else:
            self.set_item(base, key, new, s)

    def aug(self, op, old, v, s):
        k = self.seqkind(old)
        if op == "+" and k == "list" and self.obj(old).cls != "tuple":
            self.builtin_method(old, "extend", [v], {}, s)
            return None
        if op == "|" and k in ("set", "dict"):
            self.builtin_method(old, "update", [v], {}, s)
            return None
        # in place on a list, set or dict that is not ours
        name = {"+": "extend", "|": "update"}.get(op)
        if name and k is None and old.op not in ("const", "concat", "tuple", "op") and \
                all(self.seqkind(x) in (("list",) if op == "+" else ("set", "dict")) for x in self._alts(self.simp(v))):
            for x in self._alts(old):
                if x.op in ("sym", "attr", "item", "elem", "call"):
                    self.event("mut", x, [v], (), s, x=name)
        return self.binop(op, old, v)

    def st_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.dead():
            return
        fr = self.frames[-1]
        fr.rets.append((self.rel_guard(fr.base), v))
        self.exit_scope("frame")

    def exit_scope(self, kind):
        g = self.path()[0]
        if g is None:
            return
        for s in reversed(self.scopes):
            if s.kind == kind:
                s.exits.append(And(g))
                self._pg = None
                return

    def st_Raise(self, s):
        if s.exc is None:
            h = None
            for fr in reversed(self.frames):
                h = fr.vars.get("@exc")
                if h is not None:
                    break
            self.do_raise(h or mk("sym", "reraise"), s)
            return
        e = self.eval(s.exc)
        if s.cause is not None:
            self.eval(s.cause)
        if self.dead():
            return
        self.do_raise(e, s)

    def st_Assert(self, s):
        c = self.eval_cond(s.test)
        with self.push(*lits_of(Not(c))):
            if not self.dead():
                self.do_raise(mk("ext", "builtins.AssertionError"), s)

    def st_Break(self, s):
        self.exit_scope("loop")

    def st_Continue(self, s):
        self.exit_scope("iter")

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b, k = self.eval(t.value), self.eval(t.slice)
                self.del_item(b, k, s)
            elif isinstance(t, ast.Attribute):
                self.del_attr(self.eval(t.value), t.attr, s)
            elif isinstance(t, ast.Name):
                self.assign(t.id, UNBOUND)

    def del_item(self, b, k, s):
        b = self.simp(b)
        if b.op == "ite":
            self.lift(b, lambda x: (self.del_item(x, k, s), NONE)[1])
            return
        if b.op == "ref" and self.obj(b).kind == "dict" and self.b_in(k, b) is FALSE:
            if not self._in_try_for("KeyError"):
                self.event("keyerror", b, (k,), (), s)
            self.do_raise(mk("ext", "builtins.KeyError"), s)
            return
        self.event("delitem", b, (k,), (), s)
        t = mk("item", b, k)
        if b.op == "ref" and self.obj(b).kind == "dict":
            self.may_raise("item", t)
            self.log(self.obj(b), "del", k, None)
        elif b.op == "ref" and self.obj(b).kind == "list":
            if not self.edit_list(b, "pop", k):
                self.log(self.obj(b), "pop", k, None)
        else:
            self.may_raise("item", t)

    def del_attr(self, b, name, s):
        b = self.simp(b)
        self.event("delattr", b, (), (), s, x=name)
        if b.op == "ref":
            o = self.obj(b)
            rel = self.rel_guard(o.base)
            if rel is not None and name in o.attrs:
                o.attrs[name] = ite(And(rel), UNBOUND, o.attrs[name])

    def st_If(self, s):
        c = self.eval_cond(s.test)
        with self.push(*lits_of(c)):
            if not self.dead():
                self.exec_block(s.body)
        with self.push(*lits_of(Not(c))):
            if not self.dead():
                self.exec_block(s.orelse)

    @staticmethod
    def assigned_names(stmts):
        out = set()
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
        return out

    def accumulating(self, body):
        """the loop body in which `n = n.union(x)`, `n = n | x`, `n = n + x`, ... on a set or list that the function built is
        n.update(x) / n.extend(x) on a copy made before the loop, which is the same where n has no other use"""
        fr = self.frames[-1]
        stores, loads, acc, allowed = {}, {}, {}, set()
        for st in body:
            for x in ast.walk(st):
                if isinstance(x, ast.Name):
                    (loads if isinstance(x.ctx, ast.Load) else stores).setdefault(x.id, []).append(x)
                for y in ([x.left] + x.comparators if isinstance(x, ast.Compare) else [x.value] if isinstance(
                        x, (ast.Attribute, ast.Return)) else []):
                    if isinstance(y, ast.Name):
                        allowed.add(y)
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    r = self._accumulates(x.targets[0].id, x.value)
                    if r is not None:
                        acc.setdefault(x.targets[0].id, []).append((x, *r))
        swap = {}
        for n, sites in acc.items():
            if len(sites) != len(stores[n]) or n not in fr.vars or n in fr.globals or n in fr.nonlocals:
                continue
            init = self.simp(fr.vars[n])
            if init.op != "ref" or self.obj(init).kind not in ("set", "list") or init in self.carried:
                continue
            kind = self.obj(init).kind
            if any(k != kind for _, k, _, _ in sites):
                continue
            own = {b for _, _, b, _ in sites}
            if any(x not in own and x not in allowed for x in loads.get(n, ())):
                continue
            r = self.new(kind, self.obj(init).cls)
            self._copy_entries(init, r)
            fr.vars[n] = r
            for st, k, _, args in sites:
                for i, a in enumerate(args):
                    c = ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), "update" if k == "set" else "extend", ast.Load()),
                                          [a], []))
                    swap.setdefault(st, []).append(ast.fix_missing_locations(ast.copy_location(c, st)))
        if not swap:
            return body

        class Sub(ast.NodeTransformer):
            def visit(self, x):
                if x in swap:
                    return swap[x]
                if not isinstance(x, (ast.stmt, ast.ExceptHandler)):
                    return x
                y = type(x)(**{f: getattr(x, f) for f in x._fields if hasattr(x, f)})
                ast.copy_location(y, x)
                for f in ("body", "orelse", "finalbody", "handlers"):
                    if isinstance(getattr(y, f, None), list):
                        new = []
                        for z in getattr(y, f):
                            v = self.visit(z)
                            new += v if isinstance(v, list) else [v]
                        setattr(y, f, new)
                return y
        out = []
        for st in body:
            v = Sub().visit(st)
            out += v if isinstance(v, list) else [v]
        return out

    @staticmethod
    def _accumulates(n, v):
        """n = v extends n: -> (kind, the Name node of n, [iterables added])"""
        def own(x):
            return isinstance(x, ast.Name) and x.id == n
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "union" and own(v.func.value) and \
                not v.keywords and not any(isinstance(a, ast.Starred) for a in v.args):
            return "set", v.func.value, v.args
        if isinstance(v, ast.BinOp) and own(v.left):
            if isinstance(v.op, ast.BitOr):
                return "set", v.left, [v.right]
            if isinstance(v.op, ast.Add):
                return "list", v.left, [v.right]
        if isinstance(v, (ast.List, ast.Set)) and v.elts and isinstance(v.elts[0], ast.Starred) and own(v.elts[0].value):
            kind = "list" if isinstance(v, ast.List) else "set"
            return kind, v.elts[0].value, [x.value if isinstance(x, ast.Starred) else ast.copy_location(
                ast.Tuple([x], ast.Load()), x) for x in v.elts[1:]]
        return None

    def loop(self, entries, target, body, orelse, node):
        body = self.accumulating(body)
        sc = Scope("loop")
        self.scopes.append(sc)
        self._pg = None
        fr = self.frames[-1]
        names = self.assigned_names(body)
        tn = self.assigned_names([ast.Assign(targets=[target], value=ast.Constant(0))]) if target is not None else set()
        try:
            for g, e in entries:
                isloop = any(l[0].op in ("each", "while") for l in g)
                lvs = {}
                if isloop:
                    key = [l[0] for l in g if l[0].op in ("each", "while")][-1]
                    for n in sorted(names - tn):
                        if n in fr.vars and n not in fr.globals and n not in fr.nonlocals:
                            init = self.simp(fr.vars[n])
                            if init is UNBOUND:
                                continue
                            if init.op == "ref" and not self._reassigned(body, n, self._inplace_ops(init)):
                                continue
                            lv = mk("lv", n, key, init)
                            lvs[n] = (lv, init, fr.vars[n])
                carried = []
                if isloop:
                    for n in self._mutated(body):
                        r = fr.vars.get(n)
                        if r is not None and r.op == "ref" and r not in self.carried:
                            self.carried[r] = mk("carried", const(n), key)
                            carried.append(r)
                it = Scope("iter")
                self.scopes.append(it)
                with self.push(*g):
                    if not self.dead():
                        for n, (lv, init, raw) in lvs.items():
                            fr.vars[n] = lv
                        if target is not None:
                            self.assign_target(target, e, node)
                        self.exec_block(body)
                self.scopes.pop()
                for r in carried:
                    del self.carried[r]
                self._pg = None
                for n, (lv, init, raw) in lvs.items():
                    new = fr.vars[n]
                    if new is lv or new is raw:
                        fr.vars[n] = raw
                    elif contains(new, lv) and self._only_self(new, lv):
                        fr.vars[n] = raw
                    else:
                        fr.vars[n] = mk("fold", n, key, init, self._resolve_g(new, g))
        finally:
            while self.scopes[-1] is not sc:
                self.scopes.pop()
            brk = list(sc.exits)
            self.scopes.pop()
            self._pg = None
        if orelse:
            ne = Scope("x")
            ne.exits = brk
            self.scopes.append(ne)
            self._pg = None
            try:
                self.exec_block(orelse)
            finally:
                self.scopes.pop()
                self._pg = None
        elif brk:
            pass

    @staticmethod
    def _mutated(body):
        """names whose value is changed in place inside the statements"""
        out = set()
        for st in body:
            for x in ast.walk(st):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                        isinstance(x.func.value, ast.Name) and x.func.attr in (
                            "add", "append", "update", "extend", "setdefault", "insert", "appendleft"):
                    out.add(x.func.value.id)
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    out.add(x.value.id)
                elif isinstance(x, ast.AugAssign) and isinstance(x.op, (ast.Add, ast.BitOr)) and isinstance(x.target, ast.Name):
                    out.add(x.target.id)
        return sorted(out)

    def _resolve_g(self, t, g):
        """value of t under loop guard g (drop the outer gating)"""
        with self.push(*g):
            if self.dead():
                return t
            return self.simp(t)

    @staticmethod
    def _only_self(new, lv):
        return new is lv

    @staticmethod
    def _reassigned(body, n, inplace=()):
        for st in body:
            ours = {id(x.target) for x in ast.walk(st) if isinstance(x, ast.AugAssign) and isinstance(x.op, inplace)} \
                if inplace else ()
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) and id(x) not in ours:
                    return True
        return False

    def _inplace_ops(self, ref):
        """the augmented assignments that change this object and leave the name bound to it"""
        k = self.seqkind(ref)
        if k == "list" and self.obj(ref).cls != "tuple":
            return (ast.Add,)
        return (ast.BitOr,) if k in ("set", "dict") else ()

    def st_For(self, s):
        it = self.eval(s.iter)
        if self.dead():
            return
        x = self.simp(it)
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "itertools.count" and not s.orelse:
            a = list(x.a[1]) + [v for k, v in x.a[2] if k == "start"]
            if all(is_const(v) for v in a) and len(a) <= 2 and all(k == "start" for k, v in x.a[2]):
                # an endless counter: the iterations up to a decided break, then one arbitrary iteration
                st = [cval(v) for v in a]
                lo, step = (st + [0] if not st else st)[0], st[1] if len(st) > 1 else 1
                es = [((), const(lo + i * step)) for i in range(24)]
                self.loop(es + [(g, e) for g, e in self.entries(it)], s.target, s.body, s.orelse, s)
                return
        es = self.entries(it)
        if len(es) > 12 and self._search_loop(s, it):
            return
        self.loop(es, s.target, s.body, s.orelse, s)

    def _search_loop(self, s, it):
        """`for x in long: if test: <leave>` as `if any(test for x in long): <leave>`; one path instead of one per item"""
        body = list(s.body)
        if len(body) == 2 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and \
                isinstance(body[0].body[0], ast.Continue):
            test, then = ast.UnaryOp(op=ast.Not(), operand=body[0].test), body[1:]
        elif len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
            test, then = body[0].test, body[0].body
        else:
            return False
        last = then[-1]
        if not isinstance(last, (ast.Return, ast.Break, ast.Raise)) or any(
                isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(test)):
            return False
        targets = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        if any(isinstance(x, ast.Name) and x.id in targets or isinstance(x, (ast.Break, ast.Continue)) and x is not last
               for t in then for x in ast.walk(t)):
            return False
        fr = self.frames[-1]
        fr.vars["@iter"] = it
        gen = ast.GeneratorExp(elt=test, generators=[ast.comprehension(
            target=s.target, iter=ast.Name(id="@iter", ctx=ast.Load()), ifs=[], is_async=0)])
        ast.copy_location(gen, s)
        ast.fix_missing_locations(gen)
        hit = self.bi_any([self.eval(gen)], {}, s)
        fr.vars["@hit"] = hit
        new = ast.If(test=ast.Name(id="@hit", ctx=ast.Load()), body=then[:-1] + (
            [] if isinstance(last, ast.Break) else [last]) or [ast.Pass()], orelse=list(s.orelse))
        ast.copy_location(new, s)
        ast.fix_missing_locations(new)
        self.exec_block([new])
        return True

    def st_While(self, s):
        sc = Scope("loop")
        self.scopes.append(sc)
        self._pg = None
        try:
            if not self._unroll(s):
                self._while_generic(s)
        finally:
            while self.scopes[-1] is not sc:
                self.scopes.pop()
            brk = list(sc.exits)
            self.scopes.pop()
            self._pg = None
        if s.orelse:
            ne = Scope("x")
            ne.exits = brk
            self.scopes.append(ne)
            self._pg = None
            try:
                self.exec_block(s.orelse)
            finally:
                self.scopes.pop()
                self._pg = None

    def _unroll(self, s, limit=64):
        """run the iterations whose test is decided; True: the loop ended"""
        if isinstance(s.test, ast.Constant) or any(
                isinstance(x, ast.NamedExpr) or isinstance(x, ast.Call) and not (
                    isinstance(x.func, ast.Name) and x.func.id in ("len", "isinstance", "any", "all", "str") or
                    isinstance(x.func, ast.Attribute) and x.func.attr in PURE_TESTS)
                for x in ast.walk(s.test)):
            return False
        for _ in range(limit):
            if self.dead():
                return True
            n0 = len(self.events)
            c = self.simp(self.eval_cond(s.test))
            if c is FALSE:
                return True
            if c is not TRUE:
                del self.events[n0:]
                return False
            self.scopes.append(Scope("iter"))
            self._pg = None
            self.exec_block(s.body)
            self.scopes.pop()
            self._pg = None
        return False

    def _while_generic(self, s):
        fr = self.frames[-1]
        names = self.assigned_names(s.body)
        key = mk("while", self.loc(s)[0], self.frames[-1].qual, ast.dump(s.test))
        lvs = {}
        for n in sorted(names):
            if n in fr.vars and n not in fr.globals and n not in fr.nonlocals:
                init = self.simp(fr.vars[n])
                if init is UNBOUND or (
                        init.op == "ref" and not self._reassigned(s.body, n, self._inplace_ops(init))):
                    continue
                lv = mk("lv", n, key, init)
                lvs[n] = (lv, init, fr.vars[n])
        it = Scope("iter")
        self.scopes.append(it)
        self._pg = None
        with self.push((key, True)):
            for n, (lv, init, raw) in lvs.items():
                fr.vars[n] = lv
            c = self.eval_cond(s.test)
            with self.push(*lits_of(c)):
                if not self.dead():
                    self.exec_block(s.body)
        self.scopes.pop()
        self._pg = None
        for n, (lv, init, raw) in lvs.items():
            new = fr.vars[n]
            if new is lv:
                fr.vars[n] = raw
            else:
                fr.vars[n] = mk("fold", n, key, init, self._resolve_g(new, ((key, True),)))

    def _reduce(self, f, it, init, node):
        """functools.reduce as the loop it stands for, in a frame of its own"""
        key = ("reduce", id(node))
        body = self.snippets.get(key)
        if body is None:
            body = ast.parse("for item in iterable:\n    value = function(value, item)\n").body
            for st in body:
                for x in ast.walk(st):
                    if hasattr(x, "lineno") and node is not None and hasattr(node, "lineno"):
                        x.lineno, x.col_offset = node.lineno, node.col_offset
            self.snippets[key] = body
            self.snippets[key + ("keep",)] = node
        here = self.frames[-1]
        fr = Frame(here.module)
        fr.qual = here.qual
        fr.vars.update(function=f, iterable=it, value=init)
        self.frames.append(fr)
        try:
            self.exec_block(body)
            return self.simp(fr.vars["value"])
        finally:
            self.frames.pop()

    def handler_spec(self, h):
        names = set()
        if h.type is None:
            names = {"*"}
        else:
            t = self.eval(h.type)
            for g, e in (self.entries(t) if t.op in ("tuple", "ref") else [((), t)]):
                if e.op == "ext":
                    n = e.a[0].rsplit(".", 1)[-1]
                    # handler catches subclasses: store the class simple name;
                    # matching is done against the raised class' ancestors
                    names.add({"OSError": "OSError", "IOError": "OSError"}.get(n, n))
                elif e.op == "cls":
                    names.add(e.a[0].rsplit(".", 1)[-1])
                else:
                    names.add("Exception")
        return {"node": h, "names": names}

    def st_Try(self, s):
        self.with_try(
            lambda: self.exec_block(s.body),
            [self.handler_spec(h) for h in s.handlers],
            lambda h: self.exec_block(h["node"].body),
            (lambda: self.exec_block(s.orelse)) if s.orelse else None,
            (lambda: self.exec_block(s.finalbody)) if s.finalbody else None, s)

    st_TryStar = st_Try

    def with_try(self, body, handlers, run_handler, orelse, final, node):
        snap = [(sc, len(sc.exits)) for sc in self.scopes]
        depth = len(self.scopes)
        sc = Scope("try")
        sc.handlers = handlers
        self.scopes.append(sc)
        self._pg = None
        body()
        sc.handlers = None if not handlers else sc.handlers
        del self.scopes[depth + 1:]
        # else clause: still excludes the raised paths but is outside the try
        sc.kind = "tryelse"
        if orelse is not None and not self.dead():
            orelse()
        del self.scopes[depth:]
        self._pg = None
        # exits made by the body which left through the try scope stay in outer scopes
        fr = self.frames[-1]
        for h in handlers:
            rs = [r for r in sc.raised if r[4] is h]
            if rs:
                t = Or([r[0] for r in rs])
            else:
                # handlers of an unmodelled raise site
                t = mk("exc", mk("sym", "nothing-modelled"), tuple(sorted(h["names"])))
            excv = mk("caught", tuple(sorted(h["names"])))
            exp = [r[3] for r in rs if r[3] is not None]
            if len(exp) == 1 and len(rs) == 1:
                excv = exp[0]
            with self.push(*lits_of(t)):
                if not self.dead():
                    old = fr.vars.get("@exc")
                    fr.vars["@exc"] = excv
                    if h["node"] is not None and h["node"].name:
                        self.assign(h["node"].name, excv)
                    run_handler(h)
                    if old is None:
                        fr.vars.pop("@exc", None)
                    else:
                        fr.vars["@exc"] = old
        if final is not None:
            saved = []
            for (c, n) in snap:
                saved.append((c, c.exits[n:]))
                del c.exits[n:]
            f = Scope("finally")
            self.scopes.append(f)
            self._pg = None
            try:
                final()
            finally:
                while self.scopes[-1] is not f:
                    self.scopes.pop()
                self.scopes.pop()
                for (c, ex) in saved:
                    c.exits.extend(ex)
                self._pg = None

    def st_With(self, s):
        self._with(list(s.items), s.body, s)

    st_AsyncWith = st_With

    def _with(self, items, body, s):
        if not items:
            self.exec_block(body)
            return
        it = items[0]
        ctx = self.eval(it.context_expr)
        if self.dead():
            return
        ctx = self.simp(ctx)

        def inner(v):
            if it.optional_vars is not None and v is not None:
                self.assign_target(it.optional_vars, v, s)
            if not self.dead():
                self._with(items[1:], body, s)

        self.enter_ctx(ctx, inner, s)

    def enter_ctx(self, ctx, inner, s):
        if ctx.op == "cmcall":
            f, args, kw = ctx.a
            fn = self.fns[f.a[1]]
            fr = Frame(fn.module, fn, fn.closure)
            self.bind_args(fn, fr, list(args), dict(kw), s)
            fr.cls = fn.cls
            if fn.cls is not None and args:
                fr.selfv = args[0]
            caller = self.frames[-1]

            def hook(v):
                # run the with-body in the caller's frame
                saved = self.frames
                idx = None
                for i in range(len(self.frames) - 1, -1, -1):
                    if self.frames[i] is fr:
                        idx = i
                        break
                self.frames = self.frames[:idx] if idx is not None else [caller]
                # a return in the body exits the caller's frame scope
                try:
                    inner(v)
                finally:
                    self.frames = saved
                return NONE
            # frame scope of the cm must not capture returns of the body: mark
            self.run_cm(fr, fn, s, hook)
            return
        if ctx.op == "suppress":
            names = set()
            for a in ctx.a[0]:
                if a.op in ("ext", "cls"):
                    names.add(a.a[0].rsplit(".", 1)[-1])
            self.with_try(lambda: inner(NONE), [{"node": None, "names": names}], lambda h: None, None, None, s)
            return
        if ctx.op == "ref" and self.obj(ctx).kind == "inst" and self.typeof(ctx) is not None and \
                self.class_attr(self.typeof(ctx), "__enter__") is not None:
            v = self.call(self.get_attr(ctx, "__enter__"), [], {}, s)

            def fin():
                self.call(self.get_attr(ctx, "__exit__"), [NONE, NONE, NONE], {}, s)
            self.with_try(lambda: inner(v), [], None, None, fin, s)
            return
        name, v = self.entered(ctx)
        self.event("enter", ctx, (), (), s)
        if name == "contextlib.ExitStack":
            self.exit_stacks[ctx] = st = (dict(self.facts()), [])

            def leave():
                self.exit_stacks.pop(ctx, None)
                for g, act in reversed(st[1]):
                    with self.push(*g):
                        if not self.dead():
                            act(s)
                self.event("exit", ctx, (), (), s)
            self.with_try(lambda: inner(v), [], None, None, leave, s)
            return
        self.event("enter", ctx, (), (), s)
        self.with_try(lambda: inner(v), [], None, None,
                      lambda: self.event("exit", ctx, (), (), s), s)

    def run_cm(self, fr, fn, s, hook):
        """inline a @contextmanager generator with the with-body at its yield"""
        self.fn_analysed.add((fn.file, fn.qual))
        fr.base = dict(self.facts())
        fr.yield_hook = hook
        sc = Scope("cmframe")
        self.scopes.append(sc)
        self._pg = None
        self.frames.append(fr)
        try:
            self.exec_block(fn.node.body)
        finally:
            self.frames.pop()
            while self.scopes[-1] is not sc:
                self.scopes.pop()
            self.scopes.pop()
            self._pg = None

    def st_FunctionDef(self, s):
        f = self.make_fn(s)
        fr = self.frames[-1]
        fn = self.fns[f.a[1]]
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            nm = dv.a[0] if dv.op == "ext" else None
            fn.decorators.append((nm or show(dv), s.lineno))
            if nm == "contextlib.contextmanager":
                fn.iscm = True
            elif nm == "builtins.staticmethod":
                fn.static = True
            elif nm == "builtins.classmethod":
                fn.clsm = True
            elif nm in ("builtins.property", "functools.cached_property"):
                fn.prop = True
                fn.cached = nm == "functools.cached_property"
            elif nm == "functools.singledispatch":
                v = mk("sd", fn.qual, f.a[1])
            elif dv.op == "fn":
                v = self.call(dv, [v], {}, s)
            elif dv.op == "call" and dv.a[0] is mk("ext", "functools.wraps"):
                pass
            elif dv.op == "sdreg" or dv.op == "sdm":
                if dv.op == "sdreg":
                    self.call(dv, [v], {}, s)
            elif dv.op == "attr" and dv.a[1] in ("setter",):
                return
            else:
                self.event("decorator", dv, (v,), (), s)
                if self.is_cache(dv):
                    self.caches[f.a[1]] = show(dv)
        if fn.iscm:
            v = mk("cmfn", f.a[0], f.a[1])
        self.assign(s.name, v)

    st_AsyncFunctionDef = st_FunctionDef

    def make_fn(self, s):
        fr = self.frames[-1]
        fn = Fn()
        fn.node = s
        fn.module = fr.module
        fn.file = fr.module.file
        fn.closure = fr if (fr.fn is not None or fr.cls == "classbody" and fr.closure is not None) else None
        if fr.cls == "classbody":
            fn.closure = fr.closure if (fr.closure is not None and fr.closure.fn is not None) else None
        fn.defaults = [self.eval(d) for d in s.args.defaults]
        fn.kwdefaults = [self.eval(d) if d is not None else None for d in s.args.kw_defaults]
        fn.cls = None
        nm = getattr(s, "name", "<lambda>")
        fn.qual = fr.qual + "." + nm
        if nm == "<lambda>":
            fn.qual += f"@{s.lineno}"
        fn.decorators = []
        fn.iscm = fn.static = fn.clsm = fn.prop = fn.cached = False
        fn.isgen = False
        if not isinstance(s, ast.Lambda):
            fn.isgen = any(self._own_yield(s))
        self.fns.append(fn)
        for d in fn.defaults + [x for x in fn.kwdefaults if x is not None]:
            if d.op == "ref":
                self.obj(d).note = ("default-arg", fn.qual)
        return mk("fn", fn.qual, len(self.fns) - 1)

    @staticmethod
    def _own_yield(s):
        todo = list(s.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                yield True
            todo.extend(ast.iter_child_nodes(n))

    def st_ClassDef(self, s):
        fr = self.frames[-1]
        c = Cls()
        c.name = s.name
        c.module = fr.module
        c.file = fr.module.file
        c.node = s
        c.qual = fr.qual + "." + s.name
        c.bases = []
        for b in s.bases:
            v = self.eval(b)
            for x in ([v] if v.op != "ite" else self._alts(v)):
                c.bases.append(x)
        c.dataclass = False
        c.enum = any(b.op == "ext" and b.a[0] in ("enum.Enum", "enum.IntEnum", "enum.StrEnum") for b in c.bases)
        c.decorators = []
        for d in s.decorator_list:
            dv = self.eval(d)
            n = show(dv)
            c.decorators.append(n)
            if "dataclasses.dataclass" in n:
                c.dataclass = True
        t = mk("cls", c.qual)
        self.classes[c.qual] = c
        sub = Frame(fr.module, None, fr)
        sub.qual = c.qual
        sub.cls = "classbody"
        sub.base = dict(self.facts())
        c.fields = []
        c.assigned = []
        self.frames.append(sub)
        try:
            for st in s.body:
                self.cur = st
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    d = self.eval(st.value) if st.value is not None else None
                    fac = None
                    init = True
                    if d is not None and d.op == "dcfield":
                        kwd = dict(d.a[0])
                        fac = kwd.get("default_factory")
                        d = kwd.get("default")
                        if kwd.get("init") is FALSE:
                            init = True
                    if "ClassVar" not in ast.dump(st.annotation):
                        c.fields.append((st.target.id, d, fac))
                    if d is not None:
                        sub.vars[st.target.id] = d
                        if d.op == "ref":
                            self.obj(d).note = ("class-attr", c.qual + "." + st.target.id)
                    continue
                if isinstance(st, ast.Assign):
                    for tg in st.targets:
                        if isinstance(tg, ast.Name):
                            c.assigned.append(tg.id)
                self.exec_block([st])
                if isinstance(st, ast.Assign):
                    for tg in st.targets:
                        if isinstance(tg, ast.Name):
                            v = sub.vars.get(tg.id)
                            if v is not None and v.op == "ref":
                                self.obj(v).note = ("class-attr", c.qual + "." + tg.id)
        finally:
            self.frames.pop()
        c.ns = sub.vars
        for n, v in c.ns.items():
            for x in self._alts(v):
                if x.op in ("fn", "cmfn"):
                    fn = self.fns[x.a[1]]
                    if fn.qual.startswith(c.qual + ".") and fn.cls is None:
                        fn.cls = t
        self.assign(s.name, t)

    def _alts(self, v):
        if v.op == "ite":
            return self._alts(v.a[1]) + self._alts(v.a[2])
        return [v]

    def st_Import(self, s):
        for a in s.names:
            nm = a.name
            if self.is_repo_module(nm):
                self.load_module(nm)
                v = mk("mod", nm) if a.asname else mk("mod", nm.split(".")[0])
                if not a.asname:
                    self.load_module(nm.split(".")[0])
            else:
                v = mk("ext", nm) if a.asname else mk("ext", nm.split(".")[0])
                self.import_event(nm, s)
            if not self.dead():
                self.assign(a.asname or nm.split(".")[0], v)

    def import_event(self, nm, s):
        if len(self.frames) and self.frames[-1].fn is not None:
            self.event("import", const(nm), (), (), s)
        self.may_raise("import", mk("import", nm))

    def st_ImportFrom(self, s):
        fr = self.frames[-1]
        mod = s.module or ""
        if s.level:
            base = fr.module.name.split(".")
            if not fr.module.file.endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if mod == "__future__":
            return
        if self.is_repo_module(mod):
            self.load_module(mod)
            for a in s.names:
                if a.name == "*":
                    for k, v in self.load_module(mod).env.items():
                        if not k.startswith("_"):
                            self.assign(k, v)
                    continue
                v = self.lookup_module_attr(mod, a.name)
                if v is None:
                    if self.modules[mod].doing:
                        v = mk("unk", f"circular {mod}.{a.name}")
                    else:
                        raise AnalysisBroken(f"{fr.module.file}: cannot import {a.name} from {mod}")
                self.assign(a.asname or a.name, v)
            return
        self.import_event(mod, s)
        if self.dead():
            return
        for a in s.names:
            self.assign(a.asname or a.name, mk("ext", mod + "." + a.name))

    def st_Match(self, s):
        subj = self.eval(s.subject)
        neg = []
        for case in s.cases:
            c, binds = self.match_pat(case.pattern, subj)
            with self.push(*[(n, False) for n in neg]):
                with self.push(*lits_of(c)):
                    if not self.dead():
                        for n, v in binds:
                            self.assign(n, v)
                        if case.guard is not None:
                            gc = self.eval_cond(case.guard)
                        else:
                            gc = TRUE
                        with self.push(*lits_of(gc)):
                            if not self.dead():
                                self.exec_block(case.body)
                        c = And(lits_of(c) + lits_of(gc))
            neg.append(c)

    def match_pat(self, p, x):
        if isinstance(p, ast.MatchValue):
            return self.b_eq(x, self.eval(p.value)), []
        if isinstance(p, ast.MatchSingleton):
            return self.b_is(x, const(p.value)), []
        if isinstance(p, ast.MatchOr):
            cs = [self.match_pat(q, x) for q in p.patterns]
            return Or([c for c, _ in cs]), [b for _, bs in cs for b in bs]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, x)] if p.name else [])
            c, b = self.match_pat(p.pattern, x)
            return c, b + ([(p.name, x)] if p.name else [])
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinst(x, self.eval(p.cls)), []
        return mk("unk", "match"), []

    # ------------------------------------------------------------ expressions
    def eval_cond(self, n):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            acc = []
            ctx = []
            # evaluate left to right under the facts established so far
            def go(i):
                c = self.eval_cond(n.values[i])
                acc.append(c)
                if i + 1 < len(n.values):
                    with self.push(*lits_of(c if isand else Not(c))):
                        if self.dead():
                            return
                        go(i + 1)
            go(0)
            if isand:
                return And([l for c in acc for l in lits_of(c)])
            return Or(acc)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return Not(self.eval_cond(n.operand))
        return self.cond(self.eval(n))

    def eval(self, n):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            self.warn.append(f"unmodelled expression {type(n).__name__} at {self.loc(n)}")
            return mk("unk", type(n).__name__)
        return self.simp(m(n))

    def ex_Constant(self, n):
        if n.value is Ellipsis:
            return mk("ellipsis")
        if isinstance(n.value, complex):
            return mk("complex", repr(n.value))
        return const(n.value)

    def ex_Name(self, n):
        return self.lookup(n.id, n)

    def ex_Attribute(self, n):
        b = self.eval(n.value)
        return self.get_attr(b, n.attr, n)

    def ex_Subscript(self, n):
        b = self.eval(n.value)
        k = self.eval(n.slice)
        if b.op in ("cls",) or (b.op == "ext" and b.a[0].startswith(("typing.", "builtins."))):
            return b
        return self.get_item(b, k, n)

    def ex_Slice(self, n):
        return mk("slice", *[self.eval(x) if x is not None else NONE for x in (n.lower, n.upper, n.step)])

    def ex_Tuple(self, n):
        vals = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                es = self.entries(v)
                if all(not g for g, _ in es):
                    vals.extend(x for _, x in es)
                else:
                    r = self.new("list", "tuple")
                    for x in vals:
                        self.log(self.obj(r), "append", None, x)
                    self._copy_entries(v, r)
                    for e2 in n.elts[n.elts.index(e) + 1:]:
                        if isinstance(e2, ast.Starred):
                            self._copy_entries(self.eval(e2.value), r)
                        else:
                            self.log(self.obj(r), "append", None, self.eval(e2))
                    return r
            else:
                vals.append(self.eval(e))
        return mk("tuple", *vals)

    def _seq(self, n, kind):
        r = self.new(kind)
        o = self.obj(r)
        op = "append" if kind == "list" else "add"
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self._copy_entries(self.eval(e.value), r)
            else:
                self.log(o, op, None, self.eval(e))
        return r

    def ex_List(self, n):
        return self._seq(n, "list")

    def ex_Set(self, n):
        return self._seq(n, "set")

    def ex_Dict(self, n):
        r = self.new("dict")
        o = self.obj(r)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self._copy_dict(self.eval(v), r)
            else:
                kk = self.eval(k)
                self.log(o, "set", kk, self.eval(v))
        return r

    def ex_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.eval(n.values[i])
            if i + 1 == len(n.values):
                return v
            c = self.cond(v)
            with self.push(*lits_of(c if isand else Not(c))):
                rest = go(i + 1) if not self.dead() else v
            return ite(c, rest, v) if isand else ite(c, v, rest)
        return go(0)

    def ex_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return Not(self.eval_cond(n.operand))
        v = self.eval(n.operand)
        if is_const(v):
            try:
                if isinstance(n.op, ast.USub):
                    return const(-cval(v))
                if isinstance(n.op, ast.UAdd):
                    return const(+cval(v))
                if isinstance(n.op, ast.Invert):
                    return const(~cval(v))
            except Exception:
                pass
        return mk("op", type(n.op).__name__, v)

    def ex_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(self.OPS[type(n.op)], a, b)

    def ex_Compare(self, n):
        left = self.eval(n.left)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            res.append(self.compare(op, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        return And([l for c in res for l in lits_of(c)])

    def ex_IfExp(self, n):
        c = self.eval_cond(n.test)
        a = b = None
        with self.push(*lits_of(c)):
            if not self.dead():
                a = self.eval(n.body)
        with self.push(*lits_of(Not(c))):
            if not self.dead():
                b = self.eval(n.orelse)
        if a is None:
            return b if b is not None else mk("unk", "dead")
        if b is None:
            return a
        return ite(c, a, b)

    def ex_NamedExpr(self, n):
        v = self.eval(n.value)
        # in comprehensions the target binds in the enclosing function: same frame here
        self.assign(n.target.id, v)
        return v

    def ex_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value)
                if v.conversion == 114:
                    x = mk("repr", x)
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec)
                    if not (is_str(spec) and cval(spec) in ("", "s")):
                        x = mk("fmt", x, spec)
                parts.append(x)
        return concat(parts)

    def ex_FormattedValue(self, n):
        return self.eval(n.value)

    def ex_Lambda(self, n):
        return self.make_fn(n)

    def ex_Starred(self, n):
        return mk("star", self.eval(n.value))

    def ex_Await(self, n):
        return self.eval(n.value)

    def ex_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        return self.do_yield(v)

    def do_yield(self, v):
        fr = self.frames[-1]
        if fr.yield_hook is not None:
            return fr.yield_hook(v)
        if fr.yields is not None:
            self.event("yield", fr.yields, (v,))
            self.log(self.obj(fr.yields), "append", None, v)
        return NONE

    def ex_YieldFrom(self, n):
        v = self.eval(n.value)
        fr = self.frames[-1]
        if fr.yields is not None:
            if v.op == "call":
                self.event("yieldfrom", fr.yields, (v,))
                self.log(self.obj(fr.yields), "extend", None, v)
            else:
                self._copy_entries(v, fr.yields)
        return NONE

    def _comp(self, n, kind):
        r = self.new(kind)
        o = self.obj(r)
        fr = self.frames[-1]
        names = set()
        for g in n.generators:
            names |= self.assigned_names([ast.Assign(targets=[g.target], value=ast.Constant(0))])
        saved = {k: fr.vars.get(k) for k in names}

        def go(i):
            if self.dead():
                return
            if i == len(n.generators):
                if kind == "dict":
                    k = self.eval(n.key)
                    v = self.eval(n.value)
                    self.log(o, "set", k, v)
                else:
                    v = self.eval(n.elt)
                    self.log(o, "append" if kind == "list" else "add", None, v)
                return
            g = n.generators[i]
            it = self.eval(g.iter)
            for gl, e in self.entries(it):
                sc = Scope("iter")
                self.scopes.append(sc)
                with self.push(*gl):
                    if not self.dead():
                        self.assign_target(g.target, e, n)
                        conds = []

                        def gocond(j):
                            if j == len(g.ifs):
                                go(i + 1)
                                return
                            c = self.eval_cond(g.ifs[j])
                            with self.push(*lits_of(c)):
                                if not self.dead():
                                    gocond(j + 1)
                        gocond(0)
                while self.scopes[-1] is not sc:
                    self.scopes.pop()
                self.scopes.pop()
                self._pg = None
        go(0)
        for k, v in saved.items():
            if v is None:
                fr.vars.pop(k, None)
            else:
                fr.vars[k] = v
        return r

    def ex_ListComp(self, n):
        return self._comp(n, "list")

    def ex_GeneratorExp(self, n):
        return self._comp(n, "list")

    def ex_SetComp(self, n):
        return self._comp(n, "set")

    def ex_DictComp(self, n):
        return self._comp(n, "dict")

    def ex_Call(self, n):
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                es = self.entries(v) if v.op in ("tuple", "ref", "ditems", "dkeys", "dvalues", "zip", "enumerate", "range") else None
                if es is not None and all(not g for g, _ in es):
                    args.extend(e for _, e in es)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.eval(a))
            if self.dead():
                return mk("unk", "dead")
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                v = self.simp(v)
                if v.op == "ref" and self.obj(v).kind == "dict" and not self.obj(v).lazy:
                    es = self.dict_entries(v)
                    if all(not g and is_str(kv[0]) for g, kv in es):
                        for g, kv in es:
                            kw[cval(kv[0])] = kv[1]
                        continue
                kw.setdefault("**", []).append(v)
            else:
                kw[k.arg] = v
        if self.dead():
            return mk("unk", "dead")
        self.cur = n
        if f.op == "cmfn":
            return mk("cmcall", mk("fn", *f.a), tuple(args), tuple(sorted(kw.items())))
        if f.op == "bound" and f.a[0].op == "cmfn":
            return mk("cmcall", mk("fn", *f.a[0].a), (f.a[1],) + tuple(args), tuple(sorted(kw.items())))
        return self.call(f, args, kw, n)

    # ------------------------------------------------------------ API for rules
    def enter(self, modname):
        """synthetic frame so rules can call functions directly"""
        m = self.load_module(modname)
        fr = Frame(m)
        fr.qual = "<entry>"
        self.frames.append(fr)
        return fr

    def run(self, modname, func, args=(), kw=None, method_of=None):
        """call a function of the analysed package with given argument terms"""
        self.enter(modname)
        try:
            f = self.get_global(modname, func) if isinstance(func, str) else func
            return self.call(f, list(args), dict(kw or {}), None)
        finally:
            self.frames.pop()

    def reset_control(self):
        self.lits = []
        self.scopes = [Scope("top")]
        self._pg = None

    def typename(self, t):
        t = self.freeze(t)
        return show(t)
