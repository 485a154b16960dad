"""C14: the content builders of the model card.

add_table, add_metrics, add_hyperparams, add_plot and add_model_plot are analysed on
abstract cards; the text the built section formats to is extracted as one term over the
arguments (with the calls that fill the PrettyTable) and constant-propagated for a fixed
family of tables, metrics, parameters, paths and flags (fold.py); the text is then read
back as markdown and compared with what the property prescribes.
"""
from __future__ import annotations

import re

from .card_model import Undecided, path
from .core import AnalysisBroken
from .fold import Fails, Fold, Free, NotPure, Opaque
from .r_card import base_tree, cmp_nodes, file_card, find, nm, short, snapshot, spec_add  # noqa: F401
from .strdom import content, title, txt
from .terms import FALSE, NONE, T, TRUE, And, const, contains, cval, is_const, is_str, lits_of, mk, show, subterms

FILE = "skops/card/_model_card.py"
TABLE, DESC, ALT = mk("sym", "table"), mk("sym", "flag description"), mk("sym", "alt text")
FOLDED = mk("sym", "flag folded arg")


def br(v):
    return re.sub(r"\r\n?|\n", "<br />", str(v))


class Single:
    """a number of single precision: its text is short, that of the Python float it converts to is not"""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    __repr__ = __str__
    __format__ = lambda self, spec: format(self.text, spec)  # noqa: E731

    def __eq__(self, other):
        return isinstance(other, Single) and other.text == self.text

    def __hash__(self):
        return hash(self.text)

    def widened(self):
        import struct
        return struct.unpack("f", struct.pack("f", float(self.text)))[0]


def widened(x):
    return x.widened() if isinstance(x, Single) else x


class Series(list):
    """a column: iterating over it converts the values to Python scalars, positional access does not"""

    def __init__(self, vals):
        super().__init__(vals.raw() if isinstance(vals, Series) else vals)

    def raw(self):
        return [list.__getitem__(self, i) for i in range(len(self))]

    def __iter__(self):
        return iter([widened(x) for x in self.raw()])

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return Series(r) if isinstance(k, slice) else r


class DF:
    """a data frame: named columns of equal length"""

    def __init__(self, cols):
        self.cols = {k: Series(v) for k, v in dict(cols).items()}

    def __len__(self):
        return len(next(iter(self.cols.values()), []))

    def __iter__(self):
        return iter(self.cols)

    def __getitem__(self, k):
        if isinstance(k, list):
            return DF({c: self.cols[c] for c in k})
        return self.cols[k]

    def __contains__(self, k):
        return k in self.cols

    def items(self):
        return self.cols.items()

    def keys(self):
        return self.cols.keys()

    def values(self):
        raise TypeError("'numpy.ndarray' object is not callable")

    def rows(self, upcast):
        cs = list(self.cols.values())
        out = []
        kinds = {type(x) for c in cs for x in c}
        for i in range(len(self)):
            r = [c[i] for c in cs]
            if upcast and kinds <= {int, float} and float in kinds:
                r = [float(x) for x in r]
            out.append(r)
        return out


DFM = {"head", "tail", "items", "keys", "iterrows", "itertuples", "to_dict", "to_numpy", "round", "fillna", "astype", "copy",
       "reset_index", "dropna", "drop_duplicates", "iteritems", "map", "applymap", "sort_index", "get", "convert_dtypes",
       "infer_objects"}


def df_call(d, n, av, kv):
    if n in ("items", "iteritems"):
        return list(d.cols.items())
    if n == "keys":
        return list(d.cols)
    if n == "get":
        return d.cols.get(*av)
    if n in ("head", "tail"):
        k = av[0] if av else kv.get("n", 5)
        return DF({c: (v[:k] if n == "head" else v[-k:]) for c, v in d.cols.items()})
    if n == "iterrows":
        return [(i, dict(zip(d.cols, r))) for i, r in enumerate(d.rows(True))]
    if n == "itertuples":
        idx = av[0] if av else kv.get("index", True)
        return [tuple(([i] if idx else []) + [widened(x) for x in r]) for i, r in enumerate(d.rows(False))]
    if n == "to_numpy":
        return d.rows(True)
    if n == "to_dict":
        how = av[0] if av else kv.get("orient", "dict")
        if how == "list":
            return {c: list(v) for c, v in d.cols.items()}
        if how == "dict":
            return {c: dict(enumerate(v)) for c, v in d.cols.items()}
        if how == "records":
            return [dict(zip(d.cols, [widened(x) for x in r])) for r in d.rows(False)]
        raise NotPure("to_dict " + str(how))
    if n == "round":
        k = av[0] if av else kv.get("decimals", 0)
        return DF({c: [round(x, k) if isinstance(x, float) and x == x else x for x in v] for c, v in d.cols.items()})
    if n == "fillna":
        x = av[0] if av else kv["value"]
        return DF({c: [x if y is None or y != y else y for y in v] for c, v in d.cols.items()})
    if n == "astype":
        if av and av[0] in (str, "str"):
            return DF({c: [str(x) for x in v.raw()] for c, v in d.cols.items()})
        raise NotPure("astype")
    if n == "convert_dtypes":
        return DF({c: [int(x) for x in v.raw()] if v and all(isinstance(x, float) and x == x and x.is_integer() for x in v.raw())
                   else v for c, v in d.cols.items()})
    if n in ("copy", "infer_objects"):
        return d
    if n == "reset_index" and kv.get("drop"):
        return d
    if n == "drop_duplicates":
        keep = []
        for r in d.rows(False):
            if r not in keep:
                keep.append(r)
        return DF({c: [r[i] for r in keep] for i, c in enumerate(d.cols)})
    if n == "dropna":
        keep = [r for r in d.rows(False) if not any(x is None or x != x for x in r)]
        return DF({c: [r[i] for r in keep] for i, c in enumerate(d.cols)})
    raise NotPure("DataFrame." + n)


# ------------------------------------------------------------------ PrettyTable
HARMLESS = {"align", "valign", "padding_width", "left_padding_width", "right_padding_width", "title"}
BREAKS = {"max_width", "max_table_width", "float_format", "int_format", "sortby", "reversesort", "start", "end", "fields",
          "header", "border", "row_filter", "custom_format", "none_format", "header_style", "break_on_hyphens", "hrules",
          "vrules", "sort_key", "max_rows", "oldsortslice", "print_empty", "use_header_width"}


class Bad(Exception):
    def __init__(self, key, msg, loc):
        self.key, self.msg, self.loc = key, msg, loc


class Pretty:
    """the table the extracted calls build, for one concrete input"""

    def __init__(self, F, obj, events, I):
        self.F, self.obj, self.I = F, obj, I
        self.names, self.cols, self.markdown = [], None, False
        self.rowbased = None
        self.loc = None
        if obj.op == "call" and (obj.a[1] or obj.a[2]):
            kw = dict(obj.a[2])
            f = obj.a[1][0] if obj.a[1] else kw.get("field_names")
            if f is not None:
                self.names = [x for x in F(f)]
            for k in kw:
                if k not in HARMLESS | {"field_names"}:
                    raise NotPure("PrettyTable(" + k + ")") if k not in BREAKS else Bad("option", f"PrettyTable({k}=...)", None)
        for e in events:
            self.step(e)

    def step(self, e):
        if e.kind == "setattr" and e.fn is self.obj:
            for v in self.expand(e, [e.args[0]]):
                self.loc = e.loc
                if e.x == "field_names":
                    self.names = list(v[0])
                elif e.x in HARMLESS:
                    pass
                elif e.x in BREAKS:
                    raise Bad("option", f"the table's {e.x} is set: cells no longer show the value's whole text in order", e.loc)
                else:
                    raise NotPure("PrettyTable." + str(e.x))
            return
        if e.kind != "call" or e.fn is None or e.fn.op != "attr" or e.fn.a[0] is not self.obj:
            return
        n = e.fn.a[1]
        kw = dict(e.kw)
        if n == "set_style":
            for v in self.expand(e, []):
                s = e.args[0] if e.args else kw.get("style")
                if s is not None and s.op == "ext" and s.a[0].rsplit(".", 1)[-1] == "MARKDOWN":
                    self.markdown = True
                elif s is not None and s.op == "ext":
                    self.markdown = False
                else:
                    raise NotPure("set_style")
        elif n == "add_column":
            a = [x for x in (e.args[0] if e.args else kw.get("fieldname"),
                             e.args[1] if len(e.args) > 1 else kw.get("column"))]
            for name, col in self.expand(e, a):
                self.loc = e.loc
                name, col = name, list(col)
                if name in self.names:
                    raise Fails("Field names must be unique")
                if self.cols and len(self.cols[0]) != len(col):
                    raise Fails("Column length does not match number of rows")
                self.names.append(name)
                self.cols = (self.cols or []) + [col]
        elif n in ("add_row", "add_rows"):
            for (v,) in self.expand(e, [e.args[0] if e.args else kw.get("row", kw.get("rows"))]):
                self.loc = e.loc
                for r in (v if n == "add_rows" else [v]):
                    r = list(r)
                    if self.cols is None:
                        if self.names and len(self.names) != len(r):
                            raise Fails("Row has incorrect number of values")
                        self.cols = [[] for _ in r]
                    if len(r) != len(self.cols):
                        raise Fails("Row has incorrect number of values")
                    for c, x in zip(self.cols, r):
                        c.append(x)
        elif n in ("get_string", "get_formatted_string", "get_csv_string", "get_html_string", "get_json_string"):
            pass
        elif n in ("del_row", "del_column", "clear", "clear_rows", "add_autoindex", "add_divider"):
            for v in self.expand(e, []):
                raise Bad("option", f"{n} is called on the table", e.loc)
        elif n in ("copy",):
            raise NotPure("PrettyTable.copy")
        else:
            raise NotPure("PrettyTable." + n)

    def expand(self, e, terms):
        g = And(list(e.guard))
        return self.F.comprehend(g, tuple(self.I.freeze(t) for t in terms), False)

    def text(self, kw):
        for k, v in kw.items():
            if k in BREAKS:
                raise Bad("option", f"get_string({k}=...): not every row and column is shown as it is", self.loc)
            if k not in HARMLESS:
                raise NotPure("get_string " + k)
        if not self.markdown:
            raise Bad("style", "the table is not printed in markdown style", self.loc)

        def cell(v):
            if isinstance(v, Opaque):
                raise NotPure("cell " + v.name)
            return str(v).replace("\t", "    ")

        def line(cs):
            # a line break in a cell starts a new table line
            parts = [cell(c).split("\n") for c in cs]
            h = max((len(p) for p in parts), default=1)
            return ["| " + " | ".join((p + [""] * h)[i] for p in parts) + " |" for i in range(h)]
        out = line(self.names)
        out.append("|" + "|".join(" :---: " for _ in self.names) + "|")
        for i in range(len((self.cols or [[]])[0])):
            out += line([c[i] for c in self.cols])
        return "\n".join(out)


class TabFold:
    """fold the text of a section for one concrete input"""

    def __init__(self, C, events, env, pandas=True):
        self.C, self.events, self.pandas = C, events, pandas
        self.F = Fold(env, self.hook)
        self.keep = []

    def __call__(self, t):
        return self.F(t)

    def hook(self, F, t):
        I = self.C.I
        if t.op == "ref":
            z = I.freeze(t)
            return F(z) if z is not t else NotImplemented
        if t.op == "exc":
            if isinstance(t.a[0], T) and t.a[0].op == "import":
                return not self.pandas
            return False
        if t.op == "isinstance" and t.a[1].op == "ext" and t.a[1].a[0] in ("pandas.DataFrame", "pandas.core.frame.DataFrame"):
            return isinstance(F(t.a[0]), DF)
        if t.op == "isinstance" and isinstance(F(t.a[0]), DF):
            cs = t.a[1].a if t.a[1].op == "tuple" else [t.a[1]]
            return any(c.op == "ext" and c.a[0].endswith("DataFrame") for c in cs)
        if t.op == "hasattr":
            v = F(t.a[0])
            if isinstance(v, DF):
                return F(t.a[1]) in DFM | {"columns", "shape", "index", "values", "iloc", "loc", "dtypes", "empty", "T"}
            return NotImplemented
        if t.op == "attr":
            if t.a[0] is TABLE or t.a[0].op in ("call", "attr", "item", "elem", "idx"):
                try:
                    b = F(t.a[0])
                except (NotPure, Fails):
                    return NotImplemented
                if isinstance(b, DF):
                    return self.df_attr(b, t.a[1])
                if isinstance(b, Series) and t.a[1] in ("iloc", "iat", "values", "array"):
                    return b.raw()
                if isinstance(b, Series) and t.a[1] in ("loc", "at"):
                    return b.raw()
                if isinstance(b, Series) and t.a[1] in ("size", "shape", "index"):
                    return {"size": len(b), "shape": (len(b),), "index": list(range(len(b)))}[t.a[1]]
            return NotImplemented
        if t.op == "call":
            f = t.a[0]
            if f.op == "attr":
                n = f.a[1]
                b = f.a[0]
                if b.op == "call" and b.a[0].op == "ext" and b.a[0].a[0].endswith("PrettyTable"):
                    if n == "get_string" or n == "get_formatted_string" and t.a[1] and F(t.a[1][0]) in ("text",):
                        p = Pretty(F, b, self.events, I)
                        return p.text({k: v for k, v in t.a[2]})
                    raise NotPure("PrettyTable." + n)
                if b is TABLE or b.op in ("call", "attr", "item", "elem", "idx", "sym"):
                    try:
                        v = F(b)
                    except (NotPure, Fails):
                        return NotImplemented
                    if isinstance(v, DF):
                        return df_call(v, n, [F(x) for x in t.a[1]], {k: F(x) for k, x in t.a[2]})
                    if isinstance(v, Series) and n == "to_numpy" and not t.a[1] and not t.a[2]:
                        return v.raw()
                    if isinstance(v, Series) and n == "copy":
                        return v
                    if isinstance(v, Series) and n in ("items", "iteritems"):
                        return list(enumerate(v))
                    if isinstance(v, Series) and n in ("map", "apply") and len(t.a[1]) == 1 and F(t.a[1][0]) in (str, repr):
                        return [F(t.a[1][0])(x) for x in v]
                    if isinstance(v, Series) and n == "astype" and t.a[1] and F(t.a[1][0]) in (str, "str"):
                        return [str(x) for x in v.raw()]
                    if isinstance(v, Series) and n == "astype" and t.a[1] and F(t.a[1][0]) in (object, "object", "O"):
                        return list(v)
                    if isinstance(v, list) and n in ("tolist", "to_list", "to_numpy", "copy"):
                        return list(v)
                    if isinstance(v, list) and n == "astype" and t.a[1] and F(t.a[1][0]) in (str, "str"):
                        return [str(x) for x in v]
            if f.op == "ext" and f.a[0].endswith("PrettyTable"):
                return Opaque("PrettyTable")
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.str" or t.op == "str":
            x = t.a[0] if t.op == "str" else t.a[1][0]
            if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].endswith("PrettyTable"):
                return Pretty(F, x, self.events, I).text({})
        return NotImplemented

    @staticmethod
    def df_attr(d, n):
        if n == "columns":
            return list(d.cols)
        if n == "shape":
            return (len(d), len(d.cols))
        if n == "index":
            return list(range(len(d)))
        if n == "empty":
            return not len(d)
        if n == "values":
            return d.rows(True)
        raise NotPure("DataFrame." + n)


def parse_table(text):
    """-> (header, rows, text before) or None"""
    lines = text.split("\n")
    n = next((i for i, l in enumerate(lines) if l.startswith("|")), None)
    if n is None:
        return None
    body = []
    for l in lines[n:]:
        if not l.startswith("|"):
            break
        body.append(l)

    def cells(l):
        return [c.strip() for c in l.strip().strip("|").split("|")]
    if len(body) < 2 or not re.fullmatch(r"\|(\s*:?-+:?\s*\|)+", body[1].strip()):
        return None
    after = lines[n + len(body):]
    return cells(body[0]), [cells(l) for l in body[2:]], "\n".join(lines[:n]), "\n".join(after)


# ------------------------------------------------------------------ tables
def tables():
    out = [
        ("two rows", {"a": [1, 2], "b": ["x", "y"]}),
        ("line breaks in cells", {"a": ["p\nq", "r\r\ns"], "b": ["t\ru", "v\n\nw"]}),
        ("a line break in a column name", {"a\nb": [1], "c\r\nd": [2], "e\rf": [3]}),
        ("column order", {"z": [1, 3, 2], "a": [9, 7, 8], "m": [0, 0, 0]}),
        ("None, True and empty values", {"a": [None, True, False], "b": ["", 0, "None"]}),
        ("numbers", {"a": [1.23456789, 0.1, 1e-20], "b": [10 ** 20, -5, 0.0], "c": [1 / 3, 2.0, 1e16]}),
        ("single precision numbers", {"f": [Single("0.1"), Single("0.7")]}),
        ("whole floats", {"a": [1.0, 2.0], "b": [-0.0, 100.0]}),
        ("texts that look like numbers", {"a": ["1", "02"], "b": ["1.50", "1e3"], "c": ["True", "nan"]}),
        ("mixed int and float columns", {"i": [1, 2], "f": [0.5, 1.0]}),
        ("nan", {"a": [float("nan"), 1.0]}),
        ("lists and dicts as values", {"a": [[1, 2], {"k": [3]}], "b": [("x",), {"n": None}]}),
        ("a long text", {"a": ["word " * 60 + "end", "x" * 300]}),
        ("equal rows", {"a": [1, 1, 1], "b": [2, 2, 2]}),
        ("one column", {"only": ["v"]}),
        ("many rows", {"a": list(range(40)), "b": [f"r{i}" for i in range(40)]}),
        ("many columns", {f"c{i}": [i, -i] for i in range(30)}),
        ("markdown and html characters", {"*a*": ["<b>x</b>", "a_b_c & d"], "#h": ["`code`", "\\n \\r"]}),
        ("names that are no text", {1: [1], None: [2], 2.5: [3]}),
        ("upper case", {"Name": ["ABC", "é"], "name": ["abc", "日本"]}),
        ("empty cells last and first", {"a": ["", "x", ""], "b": [" ", "y", "  "]}),
        ("no rows", {"a": [], "b": []}),
    ]
    return out


def section_at(C, card, names):
    act, res = snapshot(C.tree(C.data(card)))
    par, node = find(act, names)
    return node, res


def text_of(C, node):
    o = C.method(node.ref, "format")
    if o.raised is not None:
        raise Undecided("format raises " + short(o.raised))
    return o


def judge_table(text, want):
    """-> None or (key, message); want [(name, [cells])]"""
    p = parse_table(text)
    names = [br(k).strip() for k, _ in want]
    if p is None:
        return "no-table", "no markdown table is shown"
    head, rows, before, after = p
    if head != names:
        return "header", f"the header is {short_list(head)} instead of {short_list(names)}"
    n = len(want[0][1]) if want else 0
    exp = [[br(c[i]).strip() for _, c in want] for i in range(n)]
    if len(rows) != n:
        return "rows", f"{len(rows)} rows instead of {n}"
    for r, x in zip(rows, exp):
        if r != x:
            j = next((j for j in range(max(len(r), len(x))) if j >= len(r) or j >= len(x) or r[j] != x[j]), 0)
            return "cell", f"the cell of {names[j] if j < len(names) else '?'} is {r[j][:60]!r} instead of {x[j][:60]!r}" \
                if j < len(r) and j < len(x) else "a row has another number of cells"
    return None


def short_list(xs):
    s = "[" + ", ".join(map(repr, xs)) + "]"
    return s if len(s) < 90 else s[:90] + "...]"


def std_env(extra=None):
    env = {content("d"): "A description.", FOLDED: False}
    env.update(extra or {})
    return env


def known_table(C, tab, fl, pandas):
    """the text of add_table for a table that the interpreter knows entry by entry, so that loops over it are taken one
    iteration at a time; None: not decided"""
    I = C.I
    if not isinstance(tab, dict):
        return None

    def term(v):
        if isinstance(v, list):
            return I.new_list([term(x) for x in v])
        if isinstance(v, tuple):
            return mk("tuple", *[term(x) for x in v])
        if isinstance(v, dict):
            d = I.new("dict")
            for k, x in v.items():
                I.log(I.obj(d), "set", const(k), term(x))
            return d
        if v is None or isinstance(v, (str, int, float)) and type(v) in (str, int, float, bool):
            return const(v)
        raise NotPure("no constant")
    try:
        card = base_tree(C)
        o = C.method(card, "add_table", (), {**C.kwargs((path("A", "N"), term(tab))), "description": content("d"),
                                             "folded": const(fl)})
        if o.raised is not None:
            return None
        node, res = section_at(C, card, ("A", "N"))
        f = text_of(C, node)
        return TabFold(C, o.events + f.events, std_env({FOLDED: fl}), pandas)(f.value)
    except (NotPure, Free, Undecided):
        return None


def rule_cells(rep, ctx, p):
    r = p + ".table"
    rep.rule(r, "an added table is shown with its column names, one row per entry and every cell as the value's text with line "
                "breaks as <br />, for a dict and a data frame alike")
    C = ctx.card
    I = C.I
    card = base_tree(C)
    o = C.method(card, "add_table", (), {**C.kwargs((path("A", "N"), TABLE)), "description": content("d"), "folded": FOLDED})
    if o.raised is not None:
        rep.bad(r, "raises", o.loc, f"add_table raises {short(o.raised)}")
        return
    node, res = section_at(C, card, ("A", "N"))
    if node is None:
        rep.dunno(r, "add_table", FILE, "the section was not found")
        return
    f = text_of(C, node)
    evs = o.events + f.events
    loc = next((e.loc for e in evs if e.kind == "call" and e.fn is not None and e.fn.op == "attr" and e.fn.a[1] in
                ("add_column", "add_row", "add_rows")), FILE + " TableSection.format")
    raises = [e for e in evs if e.kind == "raise" and not e.caught]
    for kind in ("dict", "tuple columns", "DataFrame"):
        for what, tab in tables():
            if kind == "DataFrame" and what == "names that are no text":
                tab = {1: [1], 2.5: [3]}
            t = DF(tab) if kind == "DataFrame" else {k: tuple(v) for k, v in tab.items()} if kind == "tuple columns" else tab
            for pandas in ((True,) if kind == "DataFrame" else (True, False)):
                for fl in ((False, True) if what == "two rows" else (False,)):
                    Fo = TabFold(C, evs, std_env({TABLE: t, FOLDED: fl}), pandas)
                    name = f"{kind}: {what}" + ("" if pandas else " (pandas missing)")
                    try:
                        hit = None
                        for e in raises:
                            if Fo.F.guard([(u, q) for u, q in e.guard]):
                                hit = e
                                break
                        if hit is not None:
                            rep.bad(r, f"{kind}:raises", hit.loc, f"{name}: raises {short(hit.x)}")
                            return
                        try:
                            text = Fo(f.value)
                        except (NotPure, Free) as e:
                            text = known_table(C, t, fl, pandas)
                            if text is None:
                                rep.dunno(r, name, loc, str(e))
                                continue
                    except Bad as b:
                        rep.bad(r, f"{kind}:{b.key}", b.loc or loc, f"{name}: {b.msg}")
                        return
                    except (NotPure, Free) as e:
                        rep.dunno(r, name, loc, str(e))
                        continue
                    except Fails as e:
                        rep.bad(r, f"{kind}:fails", loc, f"{name}: formatting fails ({e})")
                        return
                    v = judge_table(text, list(tab.items()))
                    if v is None and "A description." not in text.split("|")[0]:
                        v = "description", "the description is not shown before the table"
                    if v is not None:
                        rep.bad(r, f"{kind}:{v[0]}", loc, f"{name}: {v[1]}")
                        return
                    rep.ok(r, name, loc)


# ------------------------------------------------------------------ metrics
SEQS = [
    ("one call", [({"acc": 0.5, "f1": 1},)]),
    ("two calls", [({"acc": 0.5, "f1": 1},), ({"f1": 2, "roc": 3},)]),
    ("a metric set again", [({"b": 1},), ({"a": 2},), ({"b": 3},)]),
    ("a metric set to 0", [({"b": 1, "a": 5},), ({"b": 0},)]),
    ("a metric set to None and back", [({"b": 1},), ({"b": None, "c": ""},), ({"b": 4},)]),
    ("a metric set to None", [({"b": 1},), ({"b": None, "c": None},)]),
    ("a metric set to an empty text", [({"b": 1, "c": False},), ({"b": ""},)]),
    ("a metric set to nan", [({"b": 1, "c": float("nan")},), ({"b": float("nan"), "d": 0.0},)]),
    ("a metric set to a smaller and a negative value", [({"b": 2, "c": 3.5},), ({"b": -1, "c": float("-inf")},)]),
    ("a metric set to a value of another type", [({"b": 2, "c": "0.5"},), ({"b": "two", "c": True},)]),
    ("an empty call", [({"b": 1},), ({},)]),
    ("only an empty call", [({},)]),
    ("empty before the first", [({},), ({"z": 1, "a": 2},)]),
    ("long history", [({"m%d" % (i % 5): i, "k": i},) for i in range(7)]),
    ("two sections", [({"a": 1}, ("o1", "N")), ({"b": 2}, ("A", "N"))]),
    ("two sections and back", [({"a": 1},), ({"b": 2}, ("o1", "N")), ({"a": 3},)]),
    ("upper case names", [({"Acc": 1},), ({"acc": 2},)]),
    ("equal values", [({"a": 1, "b": 1, "c": 1},)]),
    ("text values", [({"a": "0.5 ± 0.1", "b": "x\ny"},)]),
]


def rule_metrics(rep, ctx, p):
    r = p + ".metrics"
    rep.rule(r, "after any calls of add_metrics the table lists each metric once, in first-seen order, with its latest value")
    C = ctx.card
    for what, seq in SEQS:
        card = base_tree(C)
        env = std_env()
        evs = []
        want = {}
        o = None
        names = ("A", "N")
        for n, call in enumerate(seq):
            vals = call[0]
            names = call[1] if len(call) > 1 else ("A", "N")
            kw = {}
            for k, v in vals.items():
                kw[k] = const(v)
                want[k] = v
            o = C.method(card, "add_metrics", (), {**kw, "section": path(*names), "description": content("d")})
            evs += o.events
            if o.raised is not None:
                rep.bad(r, "raises", o.loc, f"{what}: add_metrics raises {short(o.raised)}")
                return
        loc = yloc14(o, FILE + " Card.add_metrics")
        if not section_check(rep, r, C, card, names, evs, env, what, loc, [("Metric", list(want)), ("Value", list(want.values()))]):
            return


def section_check(rep, r, C, card, names, evs, env, what, loc, want, desc="A description."):
    """the table shown in the section at the path; False when a violation was reported"""
    try:
        node, res = section_at(C, card, names)
        if node is None:
            rep.bad(r, "section", loc, f"{what}: there is no section {'/'.join(names)}")
            return False
        f = text_of(C, node)
    except Undecided as e:
        rep.dunno(r, what, loc, str(e))
        return True
    evs = evs + f.events
    Fo = TabFold(C, evs, env)
    try:
        if any(not Fo.F.guard(lits_of(g)) for g in res):
            pass
        text = Fo(f.value)
    except Bad as b:
        rep.bad(r, b.key, b.loc or loc, f"{what}: {b.msg}")
        return False
    except (NotPure, Free) as e:
        rep.dunno(r, what, loc, str(e))
        return True
    except Fails as e:
        rep.bad(r, "fails", loc, f"{what}: formatting fails ({e})")
        return False
    v = judge_table(text, want)
    if v is None and desc and desc not in text.split("|")[0]:
        v = "description", "the description is not shown before the table"
    if v is not None:
        rep.bad(r, v[0], loc, f"{what}: {v[1]}")
        return False
    rep.ok(r, what, loc)
    return True


def yloc14(o, default):
    ev = [e for e in o.events if e.kind in ("setitem", "new", "call") and e.loc and str(e.loc[0]).startswith("skops/card")]
    return ev[-1].loc if ev else default


# ------------------------------------------------------------------ hyperparameters
class Est:
    """a nested estimator"""

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text

    def get_params(self, deep=True):
        raise NotPure("get_params of a nested estimator")

    fit = set_params = get_params


PARAMS = [
    ("estimators as values", {"base": Est("A(b=B())"), "base__b": Est("B()"), "base__b__c": 1, "steps": [("s", Est("S()"))],
                              "s": Est("S()"), "none": None, "type": int, "e__f": True}),
    ("simple", {"C": 1.0, "kernel": "rbf", "a": None}),
    ("nested", {"memory": None, "steps": [("s", "S()")], "s": "S()", "s__C": 1, "s__alpha": {"k": 1}, "verbose": False}),
    ("a value of several lines", {"est": "A(b=1,\n  c=2)", "z": 0, "b": ""}),
    ("many", {f"p{i}": i for i in range(25)}),
    ("a long value", {"x": list(range(100)), "y": "t" * 200}),
    ("underscore names", {"_hidden": 1, "b__a": 2, "a": 3}),
]


def rule_hyper(rep, ctx, p):
    r = p + ".hyperparameters"
    rep.rule(r, "add_hyperparams lists the names and values of model.get_params(deep=True), all of them and nothing else")
    C = ctx.card
    for names in (("A", "N"), ("A", "B"), ("N",)):
        card = base_tree(C)
        o = C.method(card, "add_hyperparams", (), {"section": path(*names), "description": content("d")})
        loc = yloc14(o, FILE + " Card.add_hyperparams")
        if o.raised is not None:
            rep.bad(r, "raises", o.loc, f"add_hyperparams raises {short(o.raised)}")
            return
        calls = [e for e in o.events if e.kind == "call" and e.fn is not None and e.fn.op == "attr" and e.fn.a[1] == "get_params"]
        if not calls:
            rep.dunno(r, "/".join(names), loc, "get_params is not called")
            continue
        for what, ps in PARAMS:
            env = std_env()
            for e in calls:
                d = e.args[0] if e.args else dict(e.kw).get("deep", TRUE)
                if d is TRUE:
                    env[e.res] = ps
                elif d is FALSE:
                    env[e.res] = {k: v for k, v in ps.items() if "__" not in k}
            if not section_check(rep, r, C, card, names, o.events, env, f"{what} parameters at {'/'.join(names)}", calls[-1].loc,
                                 [("Hyperparameter", list(ps)), ("Value", list(ps.values()))]):
                return


# ------------------------------------------------------------------ placement
PATHS14 = [("N",), ("A", "N"), ("A", "B"), ("A", "B", "C"), ("N", "M"), ("A", "N", "M"), ("A",), ("N", "M", "K")]


def builders(C):
    I = C.I

    def tab(n=""):
        t = I.new("dict")
        I.log(I.obj(t), "set", const("col" + n), I.new_list([mk("sym", "cell" + n)]))
        return t
    return {
        "add_plot": lambda c, ps, kw: C.method(c, "add_plot", (), {**C.kwargs(*[(q, content("file" + str(i))) for i, q in
                                                                               enumerate(ps)]), **kw}),
        "add_table": lambda c, ps, kw: C.method(c, "add_table", (), {**C.kwargs(*[(q, tab(str(i))) for i, q in enumerate(ps)]),
                                                                     **kw}),
        "add_metrics": lambda c, ps, kw: C.method(c, "add_metrics", (), {"section": ps[0], "m1": mk("sym", "metric"), **kw}),
        "add_hyperparams": lambda c, ps, kw: C.method(c, "add_hyperparams", (), {"section": ps[0], **kw}),
        "add_model_plot": lambda c, ps, kw: C.method(c, "add_model_plot", (), {"section": ps[0], **kw}),
    }


def rule_place(rep, ctx, p):
    r = p + ".place"
    rep.rule(r, "each builder puts its section at the given path, headed by the last part of the path, and leaves everything else")
    C = ctx.card
    for name, do in builders(C).items():
        stop = False
        for names in PATHS14:
            if stop:
                break
            for described in (True, False):
                what = f"{name} at {'/'.join(names)}" + ("" if described else " without a description")
                card = base_tree(C)
                exp, _ = snapshot(C.tree(C.data(card)))
                loc = FILE + " Card." + name
                try:
                    kw = {"description": content("d") if described else NONE}
                    o = do(card, [path(*names)], kw)
                    loc = yloc14(o, loc)
                    if o.raised is not None:
                        rep.bad(r, f"{name}:raises", o.loc, f"{what}: raises {short(o.raised)}")
                        stop = True
                        break
                    spec_add(exp, names, NONE, NONE)
                    par, node = find(exp, names)
                    node.f = {"title": title(names[-1]), "visible": TRUE}
                    act, res = snapshot(C.tree(C.data(card)))
                    d = cmp_nodes(exp, act)
                    if d is not None:
                        if dubious(d[2]):
                            rep.dunno(r, what, loc, d[1])
                            continue
                        rep.bad(r, f"{name}:{d[0]}", loc, f"{what}: {d[1]}")
                        stop = True
                        break
                    par, got = find(act, names)
                    c = got.f.get("content")
                    if described and not contains(c, content("d")):
                        rep.bad(r, f"{name}:description", loc, f"{what}: the description is not part of the section")
                        stop = True
                        break
                    if name == "add_model_plot":
                        hr = [s for s in subterms(c) if s.op == "call" and s.a[0].op == "ext" and s.a[0].a[0].endswith(
                            "estimator_html_repr")]
                        if not hr:
                            rep.dunno(r, what, loc, "the diagram is not made by estimator_html_repr")
                            continue
                        if not any(s.a[1] and s.a[1][0] is mk("sym", "model") for s in hr):
                            rep.dunno(r, what, loc, "the diagram is of " + show(hr[0])[:60])
                            continue
                    if any(C.I.simp(x) is not TRUE for x in res):
                        rep.dunno(r, what, loc, "only when " + show(res[0])[:80])
                        continue
                    rep.ok(r, what, loc)
                except Undecided as e:
                    rep.dunno(r, what, loc, str(e))


def dubious(ts):
    from .r_card import opaque
    return opaque([t for t in ts if isinstance(t, T)])


ALTS = [("given", ALT, "ALT TEXT"), ("None", NONE, None)]
FILES = ["plots/p.png", "a b.png", "/abs/x.svg"]


def rule_plot(rep, ctx, p):
    r = p + ".plot"
    rep.rule(r, "a plot is shown as an image link to its path whose alt text is the given one, by default the plot's own title")
    C = ctx.card
    for items in ((("A", "N"),), (("N",), ("A", "B")), (("A", "N"), ("A", "M"), ("o1", "N"))):
        for an, at, av in ALTS:
            for described in (True, False):
                card = base_tree(C)
                pairs = [(path(*q), mk("sym", f"plot file {i}")) for i, q in enumerate(items)]
                o = C.method(card, "add_plot", (), {**C.kwargs(*pairs), "alt_text": at, "folded": FOLDED,
                                                    "description": content("d") if described else NONE})
                what = f"{len(items)} plots, alt text {an}" + ("" if described else ", no description")
                loc = yloc14(o, FILE + " Card.add_plot")
                if o.raised is not None:
                    rep.bad(r, "raises", o.loc, f"{what}: raises {short(o.raised)}")
                    return
                for i, q in enumerate(items):
                    node, res = section_at(C, card, q)
                    if node is None:
                        rep.bad(r, "missing", loc, f"{what}: no section {'/'.join(q)}")
                        return
                    try:
                        f = text_of(C, node)
                    except Undecided as e:
                        rep.dunno(r, what, loc, str(e))
                        continue
                    for file in FILES:
                        for fl in (False, True):
                            env = std_env({ALT: av or "", FOLDED: fl})
                            for j in range(len(items)):
                                env[mk("sym", f"plot file {j}")] = file + str(j)
                            for j, qq in enumerate(items):
                                for x in qq:
                                    env[txt(x)] = x
                                    env[title(x)] = "Title " + x
                            try:
                                text = TabFold(C, o.events + f.events, env)(f.value)
                            except (NotPure, Free) as e:
                                rep.dunno(r, what, loc, str(e))
                                break
                            except Fails as e:
                                rep.bad(r, "fails", loc, f"{what}: fails ({e})")
                                return
                            link = f"![{av or 'Title ' + q[-1]}]({file}{i})"
                            if link not in text or text.count("![") != 1:
                                m = re.search(r"!\[.*\)", text)
                                rep.bad(r, "link", loc, f"{what}: plot {i + 1} is shown as {(m.group(0) if m else text)[:80]!r} "
                                                        f"instead of {link!r}")
                                return
                            if described and "A description." not in text.split("![")[0]:
                                rep.bad(r, "description", loc, f"{what}: the description is not shown before the plot")
                                return
                rep.ok(r, what, loc)


# constant names: what a call may order by
NAMED = [("Zeta",), ("Alpha", "Beta"), ("alpha",), ("Alpha",)]
MULTI = [("add_plot", [(("A", "N"), ("A", "M"), ("N",)), (("A", "B"), ("o1",)), (("N",), ("N", "M"))]),
         ("add_table", [(("A", "N"), ("A", "M"), ("N",)), (("A", "B"), ("o1",)), (("N",), ("N", "M"))])]


def rule_multi(rep, ctx, p):
    r = p + ".several"
    rep.rule(r, "several items passed in one call give the same card as passing them one at a time")
    C = ctx.card
    I = C.I
    for name, cases in MULTI:
        stop = False
        for items in cases + [NAMED]:
            named = items is NAMED
            for desc in (NONE, content("d")):
                for alt in ((NONE, ALT) if name == "add_plot" else (NONE,)):
                    if stop:
                        continue
                    what = f"{name}({', '.join('/'.join(q) for q in items)})" + (" with a description" if desc is not NONE else "") + \
                        (" with an alt text" if alt is not NONE else "")
                    kw = {"description": desc, "folded": FOLDED}
                    if name == "add_plot":
                        kw["alt_text"] = alt
                    vals = []
                    for i, q in enumerate(items):
                        if name == "add_plot":
                            vals.append(mk("sym", f"plot file {i}"))
                        else:
                            t = I.new("dict")
                            I.log(I.obj(t), "set", const(f"col {i}"), I.new_list([mk("sym", f"cell {i}")]))
                            vals.append(t)
                    one, many = (C.card_with([]), C.card_with([])) if named else (base_tree(C), base_tree(C))
                    keys = [const("/".join(q)) if named else path(*q) for q in items]
                    o1 = C.method(one, name, (), {**C.kwargs(*zip(keys, vals)), **kw})
                    os = [C.method(many, name, (), {**C.kwargs((k, v)), **kw}) for k, v in zip(keys, vals)]
                    loc = yloc14(o1, FILE + " Card." + name)
                    if o1.raised is not None or any(x.raised is not None for x in os):
                        if o1.raised is None or all(x.raised is None for x in os):
                            rep.bad(r, f"{name}:raises", o1.loc or loc, f"{what}: raises in only one of the two ways")
                            stop = True
                        continue
                    try:
                        a, ra = snapshot(C.tree(C.data(one)))
                        b, rb = snapshot(C.tree(C.data(many)))
                    except Undecided as e:
                        rep.dunno(r, what, loc, str(e))
                        continue
                    freeze(I, a)
                    freeze(I, b)
                    d = cmp_nodes(b, a)
                    if d is None:
                        rep.ok(r, what, loc)
                    elif dubious(d[2]):
                        rep.dunno(r, what, loc, d[1])
                    else:
                        rep.bad(r, f"{name}:{d[0]}", loc, f"{what}: {d[1]} when passed one at a time")
                        stop = True


def freeze(I, nodes):
    for n in nodes:
        n.f = {k: I.freeze(v) for k, v in n.f.items() if k != "subsections"}
        freeze(I, n.subs)
