"""Reports, findings and term helpers shared by the rules."""
from __future__ import annotations

import json
import os
import time
import signal
import traceback

from .engine import AnalysisBroken, Interp
from .terms import (BOOL_OPS, FALSE, NONE, T, TRUE, UNBOUND, And, Not, Or, concat, const,
                    contains, cval, has_unknown, is_const, is_str, ite, lit, lits_of,
                    mk, show, show_guard, subst, subterms)

REPO = os.environ.get("VERIF_REPO", "/repo")


class Finding:
    def __init__(self, rule, key, where, msg):
        self.rule, self.key, self.where, self.msg = rule, key, where, msg

    def as_dict(self):
        return {"rule": self.rule, "key": self.key, "where": self.where, "message": self.msg}


class Report:
    """outcome of the rules of one property"""

    def __init__(self, prop):
        self.prop = prop
        self.findings = []
        self.undecided = []
        self.rules = {}        # rule -> {"text":..., "proved": n, "violated": n, "undecided": n}
        self.obligations = []  # sample of discharged obligations
        self.errors = []
        self.controls = []
        self.control_failures = []
        self.analysed = {"files": set(), "functions": set()}
        self.budget = 80.0          # seconds for one rule
        self.deadline = time.time() + 480

    def rule(self, rid, text):
        self.rules.setdefault(rid, {"text": text, "proved": 0, "violated": 0, "undecided": 0})

    def _r(self, rid):
        return self.rules.setdefault(rid, {"text": "", "proved": 0, "violated": 0, "undecided": 0})

    def ok(self, rid, what, where=None):
        self._r(rid)["proved"] += 1
        self.obligations.append({"rule": rid, "instance": what, "where": fmtloc(where), "result": "holds"})

    def bad(self, rid, key, where, msg):
        self._r(rid)["violated"] += 1
        self.findings.append(Finding(rid, key, fmtloc(where), msg))

    def dunno(self, rid, what, where=None, why=""):
        self._r(rid)["undecided"] += 1
        self.undecided.append({"rule": rid, "instance": what, "where": fmtloc(where), "why": why})

    def check(self, rid, cond, what, where, msg, key=None):
        """cond: True / False / None"""
        if cond is None:
            self.dunno(rid, what, where, msg)
        elif cond:
            self.ok(rid, what, where)
        else:
            self.bad(rid, key or what, where, msg)

    def use(self, interp):
        self.analysed["files"].update(interp.files_parsed)
        self.analysed["functions"].update(interp.fn_analysed)

    def guarded(self, rid, fn, *args):
        """run a rule; an engine failure is recorded, not raised"""
        try:
            with time_limit(max(1.0, min(self.budget, self.deadline - time.time()))):
                return fn(*args)
        except TimeUp:
            self.errors.append({"rule": rid, "error": f"not finished within {self.budget} s"})
        except AnalysisBroken:
            raise
        except RecursionError as e:
            self.errors.append({"rule": rid, "error": "RecursionError"})
        except Exception as e:
            self.errors.append({"rule": rid, "error": f"{type(e).__name__}: {e}",
                                "trace": traceback.format_exc()[-1500:]})
        return None


class TimeUp(BaseException):
    """the analysis of one rule took too long (a rule is then undecided, not hung)"""


class time_limit:
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def stop(sig, frame):
            raise TimeUp()
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def fmtloc(w):
    if w is None:
        return ""
    if isinstance(w, str):
        return w
    if isinstance(w, tuple) and len(w) == 2:
        return f"{w[0]}:{w[1]}"
    return str(w)


# ------------------------------------------------------------ term helpers
def assign(t, fn, memo=None):
    """replace boolean atoms by constants according to fn(atom)->True/False/None.
    fn sees comparison-like terms anywhere and every term in boolean position"""
    gmemo = {}
    bmemo = {}

    def gb(x):
        """x in boolean position"""
        if not isinstance(x, T):
            return x
        if x in bmemo:
            return bmemo[x]
        v = fn(x)
        if v is not None:
            r = TRUE if v else FALSE
        elif x.op == "and":
            r = And([(gb(u), q) for (u, q) in x.a[0]])
        elif x.op == "not":
            r = Not(gb(x.a[0]))
        else:
            r = go(x)
        bmemo[x] = r
        return r

    def go(x):
        if isinstance(x, tuple):
            r = tuple(go(i) for i in x)
            return x if all(p is q for p, q in zip(r, x)) else r
        if not isinstance(x, T):
            return x
        if x in gmemo:
            return gmemo[x]
        if x.op in BOOL_OPS:
            v = fn(x)
            if v is not None:
                r = TRUE if v else FALSE
                gmemo[x] = r
                return r
        if not x.a or x.op == "const":
            gmemo[x] = x
            return x
        if x.op == "ite":
            c = gb(x.a[0])
            if c is TRUE:
                r = go(x.a[1])
            elif c is FALSE:
                r = go(x.a[2])
            else:
                r = ite(c, go(x.a[1]), go(x.a[2]))
            gmemo[x] = r
            return r
        if x.op == "and":
            r = And([(gb(u), q) for (u, q) in x.a[0]])
            gmemo[x] = r
            return r
        if x.op == "not":
            r = Not(gb(x.a[0]))
            gmemo[x] = r
            return r
        if x.op == "ent":
            g = gb(x.a[0])
            if g is FALSE:
                r = mk("absent")
            else:
                k, v = go(x.a[2]), go(x.a[3])
                if g is TRUE and x.a[1] in ("append", "add"):
                    r = v
                elif g is TRUE and x.a[1] == "set":
                    r = mk("kv", k, v)
                else:
                    r = mk("ent", g, x.a[1], k, v)
            gmemo[x] = r
            return r
        na = tuple(go(i) for i in x.a)
        if x.op == "concat":
            r = concat(na)
        elif x.op.split(":")[0] in ("list", "set", "dict", "tuple"):
            na = tuple(i for i in na if not (isinstance(i, T) and i.op == "absent"))
            r = mk(x.op, *na)
        elif all(p is q for p, q in zip(na, x.a)):
            r = x
        else:
            r = mk(x.op, *na)
        gmemo[x] = r
        return r

    return go(t)


def assign_bool(t, fn):
    """assign, with t itself in boolean position"""
    return assign(mk("ite", t, TRUE, FALSE), fn) if t is not TRUE and t is not FALSE else t


def aguard(guard, fn):
    return assign_bool(And(list(guard)), fn)


def seq_items(t):
    """frozen list/set -> [(guard term, value)]  or None"""
    if t.op == "ite":
        a, b = seq_items(t.a[1]), seq_items(t.a[2])
        if a is None or b is None:
            return None
        c = t.a[0]
        return ([(And([(c, True)] + lits_of(g)), v) for g, v in a]
                + [(And([(c, False)] + lits_of(g)), v) for g, v in b])
    base = t.op.split(":")[0]
    if base in ("list", "set", "tuple"):
        out = []
        for i in t.a:
            if i.op == "ent":
                if i.a[1] in ("append", "add"):
                    out.append((i.a[0], i.a[3]))
                elif i.a[1] in ("extend", "update"):
                    v = i.a[3]
                    sub = seq_items(v)
                    if sub is None:
                        e = mk("each", v)
                        out.append((And(lits_of(i.a[0]) + [(e, True)]), mk("elem", v)))
                    else:
                        out += [(And(lits_of(i.a[0]) + lits_of(g)), v2) for g, v2 in sub]
                else:
                    return None
            else:
                out.append((TRUE, i))
        return out
    return None


def dict_items(t):
    """frozen dict -> [(guard, key, value)] or None"""
    if t.op.split(":")[0] != "dict":
        return None
    out = []
    for i in t.a:
        if i.op == "kv":
            out.append((TRUE, i.a[0], i.a[1]))
        elif i.op == "ent" and i.a[1] == "set":
            out.append((i.a[0], i.a[2], i.a[3]))
        else:
            return None
    return out


def residual(g, drop):
    """literals of the guard term that drop(atom, pol) does not excuse"""
    return [(t, p) for t, p in lits_of(g) if t is not TRUE and not drop(t, p)]


def atoms_of(t):
    """boolean atoms inside a boolean term"""
    out = []

    def go(x):
        x, _ = lit(x)
        if x is TRUE or x is FALSE:
            return
        if x.op == "and":
            for u, _p in x.a[0]:
                go(u)
        elif x not in out:
            out.append(x)
    go(t)
    return out


def ext_name(t):
    return t.a[0] if t.op == "ext" else None


def callee(t):
    """dotted name of the called thing, for calls on externals"""
    f = t.a[0] if t.op == "call" else t
    if f.op == "ext":
        return f.a[0]
    if f.op == "attr":
        return "." + str(f.a[1])
    return None
