"""Constant propagation of representative inputs through an extracted term.

A term over pure library functions (str, re, pathlib/os.path name manipulation, number
formatting, containers) is folded to a constant after its input symbols were given values.
Nothing of the analysed package is executed: the term was extracted by the abstract
interpreter, and only whitelisted, side effect free library functions are folded.

NotPure   the term contains something that is not such a function (undecided)
Free      the value depends on the environment (file system): any outcome is possible
Fails     the folded operation raises for this input
"""
from __future__ import annotations

import itertools
import json
import os.path
import posixpath
import re
from pathlib import PurePosixPath

from .terms import And, T, TRUE, const, cval, is_const, lits_of, mk, subterms


class NotPure(Exception):
    pass


class Free(Exception):
    pass


class Fails(Exception):
    pass


class Opaque:
    """a value without structure (identity only)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


STR = {"strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "lower", "upper", "title", "casefold",
       "capitalize", "expandtabs", "split", "rsplit", "splitlines", "startswith", "endswith", "join", "find", "rfind",
       "count", "partition", "rpartition", "isspace", "isdigit", "isalpha", "isnumeric", "isdecimal", "isalnum", "zfill",
       "ljust", "rjust", "center", "index", "translate", "encode", "format", "isidentifier", "isupper", "islower",
       "swapcase"}
LIST = {"count", "index", "copy"}
DICT = {"get", "keys", "values", "items", "copy"}
NUM = {"is_integer", "bit_length", "conjugate", "hex"}
PATHM = {"with_suffix", "with_name", "with_stem", "joinpath", "as_posix", "is_absolute", "relative_to", "match"}
PATHA = {"stem", "name", "suffix", "suffixes", "parent", "parts", "parents", "anchor", "root"}
FSM = {"exists", "is_file", "is_dir", "is_symlink", "stat", "lstat", "samefile", "is_mount", "glob", "iterdir"}
BUILTIN = {"str": str, "repr": repr, "int": int, "float": float, "bool": bool, "len": len, "list": list, "tuple": tuple,
           "dict": dict, "set": set, "sorted": sorted, "round": round, "abs": abs, "min": min, "max": max, "sum": sum,
           "any": any, "all": all, "zip": lambda *a: list(zip(*a)), "enumerate": lambda *a: list(enumerate(*a)),
           "range": range, "reversed": lambda x: list(reversed(x)), "format": format, "ascii": ascii, "ord": ord,
           "chr": chr, "bytes": bytes, "iter": lambda x: x, "next": lambda x, *d: next(iter(x), *d), "divmod": divmod,
           "frozenset": frozenset, "isinstance": None, "hasattr": None, "type": None, "callable": None}
TYPES = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool, "builtins.list": list,
         "builtins.tuple": tuple, "builtins.dict": dict, "builtins.set": set, "builtins.bytes": bytes,
         "builtins.object": object, "numbers.Number": (int, float, complex), "numbers.Real": (int, float),
         "numbers.Integral": int, "pathlib.Path": PurePosixPath, "pathlib.PurePath": PurePosixPath,
         "builtins.complex": complex, "builtins.bytearray": bytearray, "builtins.frozenset": frozenset,
         "collections.abc.Sequence": (list, tuple, str, range, bytes), "collections.abc.Mapping": dict,
         "collections.abc.Iterable": (list, tuple, str, dict, set, range, bytes), "os.PathLike": PurePosixPath}
CWD = "/CWD"


def abspath(p):
    return posixpath.normpath(posixpath.join(CWD, str(p)))


EXT = {
    "re.sub": re.sub, "re.split": re.split, "re.findall": re.findall, "re.escape": re.escape,
    "re.fullmatch": None, "re.match": None, "re.search": None,
    "pathlib.Path": PurePosixPath, "pathlib.PurePath": PurePosixPath, "pathlib.PosixPath": PurePosixPath,
    "pathlib.PurePosixPath": PurePosixPath,
    "pathlib.Path.cwd": lambda: PurePosixPath(CWD), "os.getcwd": lambda: CWD,
    "os.fspath": str, "os.path.join": posixpath.join, "os.path.basename": posixpath.basename,
    "os.path.dirname": posixpath.dirname, "os.path.splitext": posixpath.splitext, "os.path.split": posixpath.split,
    "os.path.abspath": abspath, "os.path.realpath": abspath, "os.path.normpath": posixpath.normpath,
    "os.path.isabs": posixpath.isabs, "os.path.expanduser": lambda p: p, "os.path.normcase": lambda p: p,
    "json.dumps": json.dumps, "itertools.chain": lambda *a: list(itertools.chain(*a)),
    "itertools.zip_longest": lambda *a, **k: list(itertools.zip_longest(*a, **k)),
    "html.escape": __import__("html").escape, "textwrap.shorten": __import__("textwrap").shorten,
    "textwrap.dedent": __import__("textwrap").dedent, "textwrap.indent": __import__("textwrap").indent,
    "math.isnan": __import__("math").isnan,
}
FREE = {"os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.samefile", "os.path.getsize", "os.path.islink",
        "os.access", "os.path.lexists", "os.stat", "os.path.getmtime", "zipfile.is_zipfile", "os.listdir",
        "os.path.ismount", "sys.platform", "shutil.disk_usage"}


class Fold:
    def __init__(self, env=None, hook=None):
        self.env = dict(env or {})
        self.hook = hook        # hook(fold, term) -> value or NotImplemented

    # -------------------------------------------------------------- entry
    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        if self.hook is not None:
            r = self.hook(self, t)
            if r is not NotImplemented:
                return r
        try:
            return self.go(t)
        except (NotPure, Free, Fails, RecursionError):
            raise
        except NameError as e:          # not an effect of the analysed code
            raise NotPure(str(e))
        except Exception as e:
            raise Fails(f"{type(e).__name__}: {e}")

    def truth(self, t):
        """True / False / None (environment) ; NotPure"""
        try:
            return bool(self(t))
        except Free:
            return None

    def guard(self, lits):
        """lits [(term, polarity)] -> True / False / None (depends on the environment)"""
        free = False
        err = None
        loops = [u for u, q in lits if u.op == "each" and q and mk("elem", u.a[0]) not in self.env
                 and u not in self.env]
        if loops:
            # for some element
            try:
                return bool(self.comprehend(And(list(lits)), const(True), False))
            except Free:
                return None
        for u, q in lits:
            try:
                v = bool(self(u))
                if v != q:
                    return False
            except Free:
                free = True
            except (NotPure, Fails) as e:
                err = e
        if err is not None:
            raise err
        return None if free else True

    def go(self, t):
        op = t.op
        if op == "const":
            return cval(t)
        if op == "ite":
            return self(t.a[1] if self(t.a[0]) else t.a[2])
        if op == "not":
            return not self(t.a[0])
        if op == "and":
            r = self.guard(t.a[0])
            if r is None:
                raise Free("condition")
            return r
        if op == "in":
            return self(t.a[0]) in self(t.a[1])
        if op == "eq":
            return self(t.a[0]) == self(t.a[1])
        if op == "is":
            a, b = self(t.a[0]), self(t.a[1])
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool) or isinstance(a, Opaque):
                return a is b
            raise NotPure("is")
        if op == "lt":
            return self(t.a[0]) < self(t.a[1])
        if op == "nonempty":
            return bool(self(t.a[0]))
        if op == "len":
            return len(self(t.a[0]))
        if op == "concat":
            return "".join(format(self(x)) if not isinstance(self(x), PurePosixPath) else str(self(x)) for x in t.a)
        if op == "str":
            return str(self.plain(t.a[0]))
        if op == "repr":
            return repr(self.plain(t.a[0]))
        if op == "fmt":
            return format(self.plain(t.a[0]), self(t.a[1]))
        if op == "join":
            return self(t.a[0]).join(self(t.a[1]))
        if op in ("list", "tuple", "set"):
            out = []
            for e in t.a:
                if e.op != "ent":
                    out.append(self(e))
                elif e.a[1] in ("append", "extend", "add", "update"):
                    out += self.comprehend(e.a[0], e.a[3], e.a[1] in ("extend", "update"))
                else:
                    raise NotPure(op + " " + str(e.a[1]))
            return {"list": list, "tuple": tuple, "set": set}[op](out)
        if op == "dict":
            out = {}
            for e in t.a:
                if e.op == "kv":
                    out[self(e.a[0])] = self(e.a[1])
                elif e.op == "ent" and e.a[1] == "set":
                    for k, v in self.comprehend(e.a[0], (e.a[2], e.a[3]), False):
                        out[k] = v
                elif e.op == "ent" and e.a[1] == "del":
                    for k in self.comprehend(e.a[0], e.a[2], False):
                        out.pop(k, None)
                elif e.op == "ent" and e.a[1] == "clear":
                    if self.comprehend(e.a[0], e.a[2] if isinstance(e.a[2], T) else TRUE, False):
                        out.clear()
                elif e.op == "ent" and e.a[1] == "update":
                    for v in self.comprehend(e.a[0], e.a[3], False):
                        out.update(v)
                else:
                    raise NotPure(op)
            return out
        if op == "item":
            b = self(t.a[0])
            if t.a[1].op == "slice":
                return b[slice(*[self(x) for x in t.a[1].a])]
            return b[self(t.a[1])]
        if op == "range":
            return range(*[self(x) for x in t.a])
        if op == "zip":
            return list(zip(*self.args(t.a)))
        if op == "enumerate":
            return list(enumerate(self(t.a[0]), *[self(x) for x in t.a[1:] if isinstance(x, T)]))
        if op == "ditems":
            return list(self(t.a[0]).items())
        if op == "dkeys":
            return list(self(t.a[0]).keys())
        if op == "dvalues":
            return list(self(t.a[0]).values())
        if op == "sorted":
            kw = {k: self(v) for k, v in t.a[1]} if len(t.a) > 1 and isinstance(t.a[1], tuple) else {}
            return sorted(self(t.a[0]), **kw)
        if op == "map":
            f = t.a[0]
            if f.op == "ext":
                return [self.ext(f.a[0], [x], {}) for x in self(t.a[1])]
            raise NotPure("map")
        if op == "isinstance":
            return isinstance(self(t.a[0]), self.type(t.a[1]))
        if op == "typeof":
            return type(self(t.a[0]))
        if op == "hasattr":
            v = self(t.a[0])
            if isinstance(v, Opaque):
                raise NotPure("hasattr")
            return hasattr(v, self(t.a[1]))
        if op == "op":
            return self.operator(t.a[0], [self(x) for x in t.a[1:]])
        if op == "attr":
            return self.attr(self(t.a[0]), t.a[1])
        if op == "call":
            return self.call(t)
        if op == "ext":
            if t.a[0] in TYPES:
                return TYPES[t.a[0]]
            if t.a[0] in ("os.sep", "posixpath.sep"):
                return "/"
            if t.a[0] in ("os.linesep",):
                return "\n"
            if t.a[0] in FREE:
                raise Free(t.a[0])
        raise NotPure(op + (" " + str(t.a[0])[:60] if op in ("ext", "sym", "unk") else ""))

    def args(self, ts):
        out = []
        for x in ts:
            if x.op == "star":
                out += list(self(x.a[0]))
            else:
                out.append(self(x))
        return out

    def plain(self, t):
        v = self(t)
        if isinstance(v, Opaque):
            raise NotPure("text of " + v.name)
        return v

    # -------------------------------------------------------------- pieces
    def type(self, c):
        if c.op == "ext" and c.a[0] in TYPES:
            return TYPES[c.a[0]]
        if c.op == "tuple":
            out = []
            for x in c.a:
                y = self.type(x)
                out += list(y) if isinstance(y, tuple) else [y]
            return tuple(out)
        raise NotPure("type " + str(c.a[0] if c.a else c.op)[:60])

    def operator(self, op, v):
        if any(isinstance(x, Opaque) for x in v):
            raise NotPure(op)
        if op == "+":
            return v[0] + v[1]
        if op == "-":
            return v[0] - v[1]
        if op == "*":
            return v[0] * v[1]
        if op == "/":
            return v[0] / v[1]
        if op == "//":
            return v[0] // v[1]
        if op == "%":
            return v[0] % v[1]
        if op == "|":
            return v[0] | v[1]
        if op == "&":
            return v[0] & v[1]
        if op in ("USub",):
            return -v[0]
        raise NotPure("operator " + op)

    def attr(self, v, name):
        if isinstance(v, PurePosixPath) and name in PATHA:
            r = getattr(v, name)
            return r
        if isinstance(v, type) and name in ("__name__", "__qualname__"):
            return v.__name__
        if name == "__class__" and not isinstance(v, Opaque):
            return type(v)
        raise NotPure(f"attribute {name} of {type(v).__name__}")

    def ext(self, name, av, kv):
        if any(isinstance(x, Opaque) for x in av) and name not in ("builtins.isinstance", "builtins.list", "builtins.tuple"):
            raise NotPure(name + " of " + str([x for x in av if isinstance(x, Opaque)][0]))
        if name.startswith("builtins."):
            b = name[9:]
            if b == "dict.fromkeys":
                return dict.fromkeys(*av, **kv)
            if BUILTIN.get(b) is not None:
                return BUILTIN[b](*av, **kv)
            if b.startswith("str.") and b[4:] in STR:
                return getattr(str, b[4:])(*av, **kv)
            raise NotPure(name)
        if EXT.get(name) is not None:
            return EXT[name](*av, **kv)
        if name in FREE:
            raise Free(name)
        raise NotPure(name)

    def call(self, t):
        f, args, kw = t.a[0], t.a[1], t.a[2]
        if f.op == "ext" and f.a[0] in FREE:
            raise Free(f.a[0])
        if f.op == "attr":
            base = f.a[0]
            if base.op == "call" and base.a[0].op == "ext" and base.a[0].a[0] == "re.compile" \
                    and f.a[1] in ("split", "sub", "findall"):
                c = re.compile(*[self(x) for x in base.a[1]])
                return getattr(c, f.a[1])(*[self(x) for x in args], **{k: self(v) for k, v in kw})
            b = self(base)
            n = f.a[1]
            if isinstance(b, PurePosixPath):
                if n in FSM:
                    raise Free(n)
                if n in ("resolve", "absolute"):
                    return PurePosixPath(abspath(b))
                if n == "expanduser":
                    return b
                if n in PATHM:
                    return getattr(b, n)(*[self(x) for x in args], **{k: self(v) for k, v in kw})
            ok = (isinstance(b, str) and n in STR or isinstance(b, (list, tuple)) and n in LIST
                  or isinstance(b, dict) and n in DICT or isinstance(b, (int, float)) and n in NUM
                  or isinstance(b, bytes) and n in ("decode", "strip", "split"))
            if not ok:
                raise NotPure(f"method {n} of {type(b).__name__}" + (f" {b.name}" if isinstance(b, Opaque) else ""))
            r = getattr(b, n)(*self.args(args), **{k: self(v) for k, v in kw})
            return list(r) if n in ("keys", "values", "items") else r
        if f.op == "ext":
            return self.ext(f.a[0], self.args(args), {k: self(v) for k, v in kw})
        raise NotPure("call of " + f.op)

    def comprehend(self, g, val, splice):
        """values of one guarded entry: loops over the 'each' literals in the guard"""
        lits = lits_of(g)
        each = [u.a[0] for u, q in lits if u.op == "each" and q]
        rest = [(u, q) for u, q in lits if u.op != "each"]
        out = []

        def value():
            if isinstance(val, tuple):
                out.append(tuple(self(v) for v in val))
            elif splice:
                out.extend(self(val))
            else:
                out.append(self(val))

        def run(todo):
            if not todo:
                for u, q in rest:
                    if bool(self(u)) != q:
                        return
                value()
                return
            src = todo[0]
            key = mk("elem", src)
            idx = mk("idx", src)
            vals = self(src)
            if isinstance(vals, Opaque):
                raise NotPure("loop over " + vals.name)
            old = self.env.get(key), self.env.get(idx)
            for i, x in enumerate(vals):
                self.env[key] = x
                self.env[idx] = i
                run(todo[1:])
            self.env.pop(key, None)
            self.env.pop(idx, None)
            if old[0] is not None:
                self.env[key] = old[0]
            if old[1] is not None:
                self.env[idx] = old[1]
        # a loop over something that depends on another loop's element comes after it
        fixed = [l for l in rest if not any(x.op in ("elem", "idx") for x in subterms(l[0]))]
        if each and fixed:
            try:
                if self.guard(fixed) is False:
                    return out
            except (NotPure, Fails):
                pass
        order = sorted(each, key=lambda s: sum(1 for o in each if o is not s and _mentions(s, mk("elem", o))))
        run(order)
        return out


def _mentions(t, x):
    from .terms import contains
    return contains(t, x)
