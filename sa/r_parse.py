"""C15: the document parser and the conversion of elements to markdown.

PandocParser.generate and Markdown.__call__ are partially evaluated by the abstract
interpreter for document trees whose shape is known and whose texts are symbols or
literals: every header level pattern up to a bound, every kind of element and every pair
of nested kinds.  The resulting abstract card (or text term) is compared with a
specification tree (or with what reading the markdown back gives).  The heap of the
converter and of the parsed document before and after is compared to decide that nothing
is carried over to the next conversion.
"""
from __future__ import annotations

import itertools
import re

from .card_model import Undecided
from .core import AnalysisBroken
from .fold import Fails, Free, NotPure
from .r_build import TabFold, Bad, judge_table
from .r_card import names_of, short, snapshot, tree_refs
from .strdom import txt
from .terms import T, TRUE, const, cval, is_const, is_str, mk, show, subterms

PMOD, MMOD = "skops.card._parser", "skops.card._markup"
PFILE, MFILE = "skops/card/_parser.py", "skops/card/_markup.py"
NOATTR = ["", [], []]


class Doc:
    """the analysed converter and parser"""

    def __init__(self, ctx):
        self.C = C = ctx.card
        self.I = I = C.I
        if not getattr(I, "_c15", False):
            for m in (PMOD, MMOD):
                if I.load_module(m) is None:
                    raise AnalysisBroken("no module " + m)
            old = I.assume_fn

            def assume(a):
                # a handler around fully analysed code: nothing else raises for a well formed document
                if a.op == "exc" and isinstance(a.a[0], T) and a.a[0] is mk("sym", "nothing-modelled"):
                    return False
                return old(a) if old is not None else None
            I.assume_fn = assume
            I._c15 = True
        self.P = I.get_global(PMOD, "PandocParser")
        self.M = I.get_global(MMOD, "Markdown")
        for n, c in (("PandocParser", self.P), ("Markdown", self.M)):
            if c is None or c.op != "cls":
                raise AnalysisBroken(n + " is not a class any more")

    def js(self, x):
        """a parsed json value on the abstract heap"""
        I = self.I
        if isinstance(x, T):
            return x
        if isinstance(x, dict):
            d = I.new("dict")
            for k, v in x.items():
                I.log(I.obj(d), "set", const(k), self.js(v))
            return d
        if isinstance(x, (list, tuple)):
            return I.new_list([self.js(y) for y in x])
        return const(x)

    def markdown(self):
        self.I.reset_control()
        m = self.C.run(self.M)
        if m.raised is not None or m.value.op != "ref":
            raise AnalysisBroken("Markdown() does not give an instance")
        return m.value

    def convert(self, md, item):
        """-> Outcome of md(item)"""
        return self.C.method(md, "__call__", [item])

    def parser(self, doc, source=None):
        I = self.I
        src = source if source is not None else mk("sym", "source")
        d = self.js(doc)
        self.doc = d
        self.loads = []

        def loads(I, args, kw, node):
            self.loads.append((args[0] if args else None, I.loc(node)))
            return d
        I.ext_handlers["json.loads"] = loads
        I.reset_control()
        o = self.C.run(self.P, [src])
        if o.raised is not None or o.value.op != "ref":
            raise AnalysisBroken("PandocParser(source) does not give an instance")
        return o.value


# ------------------------------------------------------------------ pandoc elements
def Str(s):
    return {"t": "Str", "c": s}


SP = {"t": "Space"}
SOFT = {"t": "SoftBreak"}
BREAK = {"t": "LineBreak"}


def words(s):
    out = []
    for i, w in enumerate(s.split(" ")):
        if i:
            out.append(SP)
        out.append(Str(w))
    return out


def H(level, *inl):
    return {"t": "Header", "c": [level, NOATTR, list(inl)]}


def Para(*inl):
    return {"t": "Para", "c": list(inl)}


def Plain(*inl):
    return {"t": "Plain", "c": list(inl)}


def Code(s):
    return {"t": "Code", "c": [NOATTR, s]}


def CodeBlock(s, *cls):
    return {"t": "CodeBlock", "c": [["", list(cls), []], s]}


def RawB(s):
    return {"t": "RawBlock", "c": ["html", s]}


def RawI(s):
    return {"t": "RawInline", "c": ["html", s]}


def Inl(t, *inl):
    return {"t": t, "c": list(inl)}


def Link(dest, *inl):
    return {"t": "Link", "c": [NOATTR, list(inl), [dest, ""]]}


def Image(dest, *inl):
    return {"t": "Image", "c": [NOATTR, list(inl), [dest, "fig:"]]}


def Figure(dest, *inl):
    return {"t": "Figure", "c": [NOATTR, [None, [Plain(*inl)]],
                                 [Plain({"t": "Image", "c": [NOATTR, list(inl), [dest, ""]]})]]}


def Quoted(kind, *inl):
    return {"t": "Quoted", "c": [{"t": kind}, list(inl)]}


def BlockQuote(*bl):
    return {"t": "BlockQuote", "c": list(bl)}


def Div(attr, *bl):
    return {"t": "Div", "c": [attr, list(bl)]}


def Bullet(*items):
    return {"t": "BulletList", "c": [list(i) for i in items]}


def Ordered(start, *items):
    return {"t": "OrderedList", "c": [[start, {"t": "Decimal"}, {"t": "Period"}], [list(i) for i in items]]}


def TableOld(cols, rows):
    al = [{"t": "AlignDefault"}] * len(cols)
    return {"t": "Table", "c": [[], al, [0.0] * len(cols), [list(c) for c in cols], [[list(x) for x in r] for r in rows]]}


def cell_new(bl):
    return [NOATTR, {"t": "AlignDefault"}, 1, 1, list(bl)]


def TableNew(cols, rows):
    return {"t": "Table", "c": [
        NOATTR, [None, []], [[{"t": "AlignDefault"}, {"t": "ColWidthDefault"}]] * len(cols),
        [NOATTR, [[NOATTR, [cell_new(c) for c in cols]]]],
        [[NOATTR, 0, [], [[NOATTR, [cell_new(x) for x in r]] for r in rows]]],
        [NOATTR, []]]}


# ------------------------------------------------------------------ outline
class Sp:
    """specification of one section"""

    def __init__(self, title, level):
        self.title, self.level, self.blocks, self.subs = title, level, [], []


def spec_outline(blocks):
    """[("h", level, title) | ("b", text)] -> list of Sp"""
    top, stack = [], []
    for b in blocks:
        if b[0] == "h":
            s = Sp(b[2], b[1])
            while stack and stack[-1].level >= b[1]:
                stack.pop()
            (stack[-1].subs if stack else top).append(s)
            stack.append(s)
        else:
            stack[-1].blocks.append(b[1])
    return top


def text(t):
    return cval(t) if is_str(t) else None


def name_of(t):
    return text(t) if is_str(t) else show(t)[:60]


def cmp_outline(exp, act, where="the document"):
    """-> None, ("bad", key, message) or ("dunno", message)"""
    et, at = [e.title for e in exp], [a.f.get("title") for a in act]
    vague = [a.key for a in act if not (is_str(a.key) or all(is_str(x) or x.op == "txt" for x in pieces(a.key)))]
    if vague:
        return "dunno", f"a section of {where} has the key {show(vague[0])[:90]}"
    if any(t is None for t in at):
        return "dunno", f"a section of {where} has no title"
    # symbols: identical terms are equal texts, different atoms are different texts
    if not all(is_str(t) or t.op == "txt" or t.op == "concat" and all(is_str(x) or x.op == "txt" for x in t.a) for t in at):
        return "dunno", f"title is {show([t for t in at if not is_str(t)][0])[:90]}"
    if et != at:
        return "bad", "outline", f"{where} has the sections {[name_of(t) for t in at]} instead of {[name_of(t) for t in et]}"
    for e, a in zip(exp, act):
        w = f"section {name_of(e.title)!r}"
        c = a.f.get("content")
        if c is None:
            return "dunno", f"{w} has no content"
        r = cmp_content(e.blocks, c, w)
        if r is not None:
            return r
        if a.f.get("visible") is not TRUE:
            return ("bad", "hidden", f"{w} is not visible: it is missing in the rendered card") if is_const(a.f["visible"]) else \
                ("dunno", f"{w}: visible is {show(a.f['visible'])[:60]}")
        r = cmp_outline(e.subs, a.subs, w)
        if r is not None:
            return r
    return None


def pieces(t):
    if t.op == "concat":
        out = []
        for x in t.a:
            out += pieces(x)
        return out
    if t.op == "str" and t.a[0].op == "txt":
        return [t.a[0]]
    return [t]


def cmp_content(blocks, c, w):
    """the blocks' texts, each once, in order, separated by blank lines"""
    ps = pieces(c)
    if not all(is_str(x) or x.op == "txt" for x in ps):
        return "dunno", f"the content of {w} is {show(c)[:90]}"
    marks = {}
    s = ""
    for x in ps:
        if is_str(x):
            s += cval(x)
        else:
            marks[x] = f"\x02{x.a[0]}\x03"
            s += marks[x]
    want = [cval(b) if is_str(b) else f"\x02{b.a[0]}\x03" for b in blocks]
    ok = re.fullmatch(r"[ \t]*\n[ \t]*\n\s*".join(re.escape(x) for x in want) + r"\s*", s) if want else not s.strip()
    if ok:
        return None
    counts = {x: s.count(x) for x in want}
    lost = [x for x in want if x.strip() and not counts[x]]
    say = lambda x: x.replace("\x02", "<").replace("\x03", ">")[:60]  # noqa: E731
    if lost:
        return "bad", "lost-block", f"{w} does not contain the block {say(lost[0])!r} verbatim: its content is {say(s)!r}"
    pos = -1
    for x in want:
        p = s.find(x, pos + 1)
        if p < 0:
            return "bad", "block-order", f"the blocks of {w} are not each there once, in document order: {say(s)!r}"
        pos = p + len(x) - 1
    if any(counts[x] > sum(1 for y in want if x in y) for x in want if x):
        return "bad", "repeated-block", f"a block appears twice in {w}: {say(s)!r}"
    return "bad", "separation", f"the blocks of {w} are not separated by blank lines: {s[:80]!r}"


def level_patterns(tier):
    out = []
    for n in range(1, 5 if tier != "thorough" else 6):
        out += itertools.product((1, 2, 3), repeat=n)
    out += [(4, 2, 3, 1, 5), (6, 5, 4, 3, 2, 1), (1, 6, 2, 6, 3), (2, 4, 3, 4, 2), (1, 3, 5, 4, 2, 6), (3, 3, 6, 6, 1, 1),
            (5, 1, 6, 2, 5, 3, 4), (2, 1, 2, 4, 4, 3, 1)]
    return out


TITLES = [
    ("the same title everywhere", ["A"] * 8),
    ("titles with a slash", ["Input/Output", "Input", "Output", "Input/Output", "a / b", "/x", "x/"]),
    ("titles with a backslash slash", ["a\\\\/b", "a", "b", "\\\\", "a\\\\/b"]),
    ("numbered titles", ["A", "A (2)", "A", "A (2)", "A (3)", "A"]),
    ("titles that look like paths of others", ["A", "A/B", "B", "A/B/C", "C"]),
    ("upper and lower case", ["Ab", "ab", "AB", "Ab"]),
    ("markup in titles", ["# x", "- y", "**z**", "Ünïcode 日本", "a  b", "1. one", "{x}", "%s"]),
]
ALLPAT = [(1, 1, 1), (1, 2, 2), (1, 2, 3), (1, 2, 1, 2), (1, 3, 2, 2), (2, 1, 2, 1), (2, 2, 1, 1), (1, 2, 3, 1, 2, 3), (3, 2, 1),
          (1, 2, 2, 2), (1, 2, 3, 3, 2, 3), (1, 1, 1, 1, 1)]


def rule_outline(rep, ctx, p):
    r = p + ".outline"
    rep.rule(r, "one section per header, nested under the nearest preceding header of lower level, titled verbatim; every block once, "
                "in order, in the section it follows; the same for a second call")
    D = Doc(ctx)
    bad = set()
    # symbolic titles and blocks
    for n, levels in enumerate(level_patterns(ctx.tier)):
        blocks = []
        for i, l in enumerate(levels):
            blocks.append(("h", l, txt(f"title {i}")))
            for j in range((i + n) % 3):
                blocks.append(("b", txt(f"block {i}.{j}")))
        check_doc(rep, r, D, "levels " + " ".join(map(str, levels)), blocks, bad)
    for what, ts in TITLES:
        for levels in ALLPAT:
            blocks = []
            for i, (l, t) in enumerate(zip(levels, itertools.cycle(ts))):
                blocks.append(("h", l, const(t)))
                if i % 2:
                    blocks.append(("b", txt(f"block {i}")))
            check_doc(rep, r, D, f"{what}, levels " + " ".join(map(str, levels)), blocks, bad)
    # blocks that are equal, empty or look like something else
    texts = ["x", "x", "y", "", "x", "# no header", "  indented", "a\n\nb", "---", "None", "0"]
    for k in range(0, len(texts), 2):
        blocks = [("h", 1, const("A"))] + [("b", const(t)) for t in texts[k:] + texts[:k]] + [("h", 2, const("B"))] + \
            [("b", const(t)) for t in texts[:k]] + [("h", 1, const("A")), ("b", const("x"))]
        check_doc(rep, r, D, f"block texts {k}", [b for b in blocks if b[0] == "h" or cval(b[1])], bad)


def elements_of(blocks):
    """the document's block elements for a specification: text -> Str / RawBlock, which keep it verbatim"""
    out = []
    for b in blocks:
        if b[0] == "h":
            out.append({"t": "Header", "c": [b[1], NOATTR, [RawI(b[2])]]})
        else:
            out.append(RawB(b[1]))
    return out


def check_doc(rep, r, D, what, blocks, bad):
    C, I = D.C, D.I
    if len(bad) > 6:
        return
    pa = D.parser({"pandoc-api-version": [1, 22], "meta": {}, "blocks": elements_of(blocks)})
    before = I.freeze(D.doc)
    exp = spec_outline(blocks)
    for call in ("", "a second call: "):
        o = C.method(pa, "generate")
        loc = o.loc or PFILE + " PandocParser.generate"
        if o.raised is not None:
            if "raises" not in bad:
                rep.bad(r, "raises", loc, f"{call}{what}: generate raises {short(o.raised)}")
            bad.add("raises")
            return
        loc = next((e.loc for e in reversed(o.events) if e.kind in ("setitem", "setattr", "mut") and e.loc[0] == PFILE), loc)
        try:
            act, res = snapshot(C.tree(C.data(o.value)))
        except (Undecided, KeyError, AttributeError) as e:
            rep.dunno(r, call + what, loc, str(e)[:200])
            return
        v = cmp_outline(exp, act)
        if v is None and res:
            v = "dunno", "only when " + show(res[0])[:100]
        if v is None:
            rep.ok(r, call + what, loc)
        elif v[0] == "dunno":
            rep.dunno(r, call + what, loc, v[1])
        else:
            if v[1] not in bad:
                rep.bad(r, call and "second-call" or v[1], loc, f"{call}{what}: {v[2]}")
            bad.add(v[1])
            return
    if I.freeze(D.doc) is not before and "mutates" not in bad:
        bad.add("mutates")
        rep.bad(r, "mutates", loc, f"{what}: generate changes the parsed document")


# ------------------------------------------------------------------ reading the markdown back
def leaf_words(x):
    """the words of the element in document order: [(text, verbatim)]"""
    if isinstance(x, list):
        out = []
        for y in x:
            out += leaf_words(y)
        return out
    t, c = x["t"], x.get("c")
    if t == "Str":
        return [c]
    if t in ("Space", "SoftBreak", "LineBreak"):
        return []
    if t in ("Code", "CodeBlock", "RawInline", "RawBlock"):
        return [c[1]]
    if t in ("Link", "Image"):
        return leaf_words(c[1]) + [c[2][0]]
    if t == "Figure":
        return leaf_words(c[2][0]["c"])
    if t == "Header":
        return leaf_words(c[2])
    if t in ("Quoted", "Div"):
        return leaf_words(c[1])
    if t == "OrderedList":
        return leaf_words(c[1])
    if t == "Table":
        return leaf_words(c[3:]) if len(c) == 5 else []
    return leaf_words(c)


def unescape(s):
    return re.sub(r"\\(\W)", r"\1", s)


def in_order(ws, s):
    """None or message: the words appear in s in this order, each once"""
    pos = 0
    for w in ws:
        if not w:
            continue
        i = s.find(w, pos)
        if i < 0:
            return f"{w!r} is missing or out of order"
        pos = i + len(w)
    for w in set(ws):
        if len(w) > 1 and s.count(w) > sum(u.count(w) for u in ws):
            return f"{w!r} appears more than once"
    return None


# ------------------------------------------------------------------ elements
def wrap(pairs):
    return lambda inner: [a + inner + b for a, b in pairs]


def inlines():
    """(kind, element maker, accepted texts for the text of its children)"""
    return [
        ("Strong", lambda *i: Inl("Strong", *i), wrap([("**", "**"), ("__", "__"), ("<strong>", "</strong>"), ("<b>", "</b>")])),
        ("Emph", lambda *i: Inl("Emph", *i), wrap([("_", "_"), ("*", "*"), ("<em>", "</em>"), ("<i>", "</i>")])),
        ("Strikeout", lambda *i: Inl("Strikeout", *i), wrap([("~~", "~~"), ("<del>", "</del>"), ("<s>", "</s>")])),
        ("Quoted double", lambda *i: Quoted("DoubleQuote", *i), wrap([('"', '"'), ("\u201c", "\u201d")])),
        ("Quoted single", lambda *i: Quoted("SingleQuote", *i), wrap([("'", "'"), ("\u2018", "\u2019")])),
        ("Link", lambda *i: Link("https://e.org/a?b=c#d", *i), wrap([("[", "](https://e.org/a?b=c#d)"), ("[", "](<https://e.org/a?b=c#d>)")])),
        ("Image", lambda *i: Image("dir/fig 1.png", *i), wrap([("![", "](dir/fig 1.png)"), ("![", "](<dir/fig 1.png>)")])),
    ]


def blocks1():
    """(kind, element maker over inline children, accepted texts)"""
    same = wrap([("", "")])
    return [
        ("Para", Para, same),
        ("Plain", Plain, same),
        ("Header", lambda *i: H(2, *i), same),
        ("Figure", lambda *i: Figure("f.png", *i), wrap([("![", "](f.png)"), ("![", "](<f.png>)")])),
    ]


LEAVES = [
    ("Str", Str, lambda s, v: unescape(s) == v, ["word", "x_y", "äöü", "a*b", "日本", "back\\slash", "\\", "a\\/b", "[x]", "1.", "&amp;", "<"]),
    ("Space", lambda v: SP, lambda s, v: s == " ", [""]),
    ("LineBreak", lambda v: BREAK, lambda s, v: "\n" in s and not s.strip(" \n\\"), [""]),
    ("SoftBreak", lambda v: SOFT, lambda s, v: s in ("\n", " "), [""]),
    ("RawInline", RawI, lambda s, v: s == v, ["<b>", "<br/>", " x ", "a\nb", "&nbsp;"]),
    ("RawBlock", RawB, lambda s, v: s == v, ["<div>\n  <p>\n</div>", "  x", "<table>\n\n</table>", "a\\b"]),
    ("Code", Code, lambda s, v: s.strip("`").strip() == v.strip() and s.startswith("`") and s.endswith("`"),
     ["x = 1", "a_b", "*s*", "p\\q", "{'a': 1}", "# x"]),
    ("CodeBlock", CodeBlock, lambda s, v: fenced(s, v, []), ["x = 1", "def f():\n    pass\n\n\n# y", "    indented\n", "a\\b", ""]),
    ("CodeBlock with a language", lambda v: CodeBlock(v, "python"), lambda s, v: fenced(s, v, ["python"]), ["x = 1\ny"]),
    ("CodeBlock with classes", lambda v: CodeBlock(v, "python", "numberLines"), lambda s, v: fenced(s, v, ["python", "numberLines"]),
     ["x = 1\ny"]),
]


def fenced(s, v, classes):
    ls = s.split("\n")
    if not (ls[0].startswith("```") and ls[-1].strip() == "```" and "\n".join(ls[1:-1]) == v):
        return False
    pos = 3
    for c in classes:
        pos = ls[0].find(c, pos)
        if pos < 0:
            return False
        pos += len(c)
    return bool(classes) or ls[0].strip() == "```"


class Conv:
    """conversion of one element by a fresh or given converter, folded to a text"""

    def __init__(self, rep, rule, D):
        self.rep, self.r, self.D = rep, rule, D
        self.bad = set()
        self.where = MFILE + " Markdown.__call__"

    def loc(self, o, kind):
        t = kind.split(" ")[0]
        ev = [e for e in o.events if e.kind == "enter" and e.loc[0] == MFILE]
        return o.loc if o.raised is not None and o.loc else ev[-1].loc if ev else self.where

    def text(self, what, item, md=None, kind=""):
        """-> text or None (reported)"""
        if kind in self.bad:
            return None
        D = self.D
        md = md if md is not None else D.markdown()
        ref = item if isinstance(item, T) else D.js(item)
        z = D.I.freeze(ref)
        o = D.convert(md, ref)
        self.last = o
        if o.raised is not None:
            self.fail(kind, "raises", self.loc(o, kind), f"{what}: the conversion raises {short(o.raised)}")
            return None
        if D.I.freeze(ref) is not z:
            ev = [e for e in o.events if e.kind in ("setitem", "mut", "delitem") and e.loc[0] == MFILE]
            self.fail(kind, "mutates", ev[-1].loc if ev else self.where, f"{what}: the conversion changes the document")
            return None
        v = D.I.simp(o.value)
        if is_str(v):
            return cval(v)
        try:
            s = TabFold(D.C, o.events, {})(v)
        except Bad as b:
            self.fail(kind, b.key, b.loc or self.where, f"{what}: {b.msg}")
            return None
        except (NotPure, Free, Undecided, RecursionError) as e:
            self.rep.dunno(self.r, what, self.loc(o, kind), str(e)[:200])
            return None
        except Fails as e:
            self.fail(kind, "fails", self.loc(o, kind), f"{what}: the conversion fails ({e})")
            return None
        if not isinstance(s, str):
            self.fail(kind, "no-text", self.loc(o, kind), f"{what}: the conversion gives {type(s).__name__} instead of text")
            return None
        return s

    def fail(self, kind, key, loc, msg):
        if (kind, key) not in self.bad:
            self.rep.bad(self.r, f"{kind}:{key}", loc, msg)
        self.bad |= {(kind, key), kind}

    def ok(self, what):
        self.rep.ok(self.r, what, self.loc(self.last, ""))

    def judge(self, what, kind, good, s, why=""):
        if s is None:
            return
        if good:
            self.ok(what)
        else:
            self.fail(kind, "text", self.loc(self.last, kind), f"{what}: converted to {s[:120]!r}{why}")


def rule_elements(rep, ctx, p):
    r = p + ".elements"
    rep.rule(r, "every supported element is converted with all its texts, in order, in markdown of its kind")
    D = Doc(ctx)
    V = Conv(rep, r, D)
    for kind, make, good, vals in LEAVES:
        for v in vals:
            s = V.text(f"{kind} {v!r}", make(v), kind=kind)
            V.judge(f"{kind} {v!r}", kind, s is not None and good(s, v), s)
    for kind, make, acc in inlines() + blocks1():
        for kids, inner in (([Str("one")], "one"), (words("one two three"), "one two three"),
                            ([Str("a"), Inl("Strong", Str("b")), Code("c"), SP, Inl("Emph", Str("d")), Str("e")], None),
                            ([RawI("<i>"), Str("x"), RawI("</i>"), SP, Str("x"), SP, Str("x")], "<i>x</i> x x")):
            what = f"{kind} of {len(kids)} inline elements"
            s = V.text(what, make(*kids), kind=kind)
            if s is None:
                continue
            if inner is None:
                accepted = [a for b in ("**b**", "__b__") for e in ("_d_", "*d*") for a in acc(f"a{b}`c` {e}e")]
            else:
                accepted = acc(inner)
            V.judge(what, kind, s in accepted, s)
    # every inline kind in every inline and simple block kind
    for ko, mo, ao in inlines() + blocks1():
        for ki, mi, ai in inlines():
            what = f"{ki} in {ko}"
            s = V.text(what, mo(Str("p"), SP, mi(Str("q")), SP, Str("r")), kind=what)
            V.judge(what, what, s is not None and any(s == a for i in ai("q") for a in ao(f"p {i} r")), s)
    # containers of blocks
    conts = [("BlockQuote", BlockQuote), ("Div", lambda *b: Div(NOATTR, *b)), ("BulletList", lambda *b: Bullet(*[[x] for x in b])),
             ("OrderedList", lambda *b: Ordered(1, *[[x] for x in b])), ("one list item", lambda *b: Bullet(list(b)))]
    inner = [("Para", Para(*words("in one"))), ("Plain", Plain(Str("pl"))), ("CodeBlock", CodeBlock("code", "py")), ("RawBlock", RawB("<raw>")),
             ("BulletList", Bullet([Plain(Str("b1"))], [Plain(Str("b2"))])), ("OrderedList", Ordered(3, [Plain(Str("o3"))], [Plain(Str("o4"))])),
             ("BlockQuote", BlockQuote(Para(Str("quoted")))), ("Div", Div(["i", ["k"], []], Para(Str("divided")))),
             ("Figure", Figure("f.png", Str("cap"))), ("Header", H(3, Str("head"))),
             ("SoftBreak", Para(Str("l1"), SOFT, Str("l2"), SOFT, Str("l3")))]
    for ko, mo in conts:
        for ki, ei in inner:
            what = f"{ki} in {ko}"
            item = mo(Para(Str("first")), ei, Para(Str("last")))
            s = V.text(what, item, kind=what)
            if s is not None:
                m = in_order(leaf_words(item), s)
                V.judge(what, what, m is None, s, f" ({m})")
    rule_lists(V)
    rule_quotes(V)
    rule_divs(V)


def rule_quotes(V):
    for what, bl, lines in (("one paragraph", [Para(*words("a b"))], ["a b"]),
                            ("two paragraphs", [Para(Str("a")), Para(Str("b"))], ["a", "b"]),
                            ("soft breaks", [Para(Str("a"), SOFT, Str("b")), Para(Str("c"))], ["a", "b", "c"]),
                            ("code", [CodeBlock("x\n\ny")], ["```", "x", "", "y", "```"]),
                            ("nested", [Para(Str("a")), BlockQuote(Para(Str("b"), SOFT, Str("c")))], ["a", "> b", "> c"])):
        what = "BlockQuote: " + what
        s = V.text(what, BlockQuote(*bl), kind="BlockQuote")
        if s is None:
            continue
        got = s.rstrip("\n").split("\n")
        good = all(x.startswith(">") for x in got)
        inner = [re.sub(r"^> ?", "", x).rstrip() for x in got]
        keep = "" in lines
        V.judge(what, "BlockQuote", good and [x for x in inner if x or keep] == lines, s)


def rule_divs(V):
    for attr in (["", [], []], ["id1", [], []], ["", ["c1", "c2"], []], ["", [], [["k", "v"], ["hidden", ""]]],
                 ["id1", ["c1"], [["a", "b"], ["c", "d e"]]]):
        for bl in ([Para(Str("x"))], [Para(Str("x")), Para(Str("y"))], [RawB("<p>"), Plain(Str("x")), RawB("</p>")], []):
            what = f"Div {attr} of {len(bl)} blocks"
            s = V.text(what, Div(attr, *bl), kind="Div")
            if s is None:
                continue
            m = re.match(r"<div([^>]*)>", s)
            good = m is not None and s.rstrip().endswith("</div>")
            if good:
                a = m.group(1)
                found = dict(re.findall(r'([\w-]+)="([^"]*)"', a))
                bare = set(re.sub(r'[\w-]+="[^"]*"', "", a).split())
                want = dict(([("id", attr[0])] if attr[0] else []) + ([("class", " ".join(attr[1]))] if attr[1] else []) +
                            [(k, v) for k, v in attr[2] if v])
                flags = {k for k, v in attr[2] if not v}
                good = {k: v for k, v in found.items() if v or k not in flags} == want and flags <= bare | set(found)
                body = s[m.end():].rstrip()[:-len("</div>")]
                good = good and in_order(leaf_words(bl), body) is None and not (not bl and body.strip())
            V.judge(what, "Div", good, s)


# lists: (depth, marker, text) of every item, read back from the indentation
def list_spec(item, depth=0):
    out = []
    c = item["c"]
    bullet = item["t"] == "BulletList"
    start = None if bullet else c[0][0]
    for i, bl in enumerate(c if bullet else c[1]):
        first = True
        for b in bl:
            if b["t"] in ("BulletList", "OrderedList"):
                out += list_spec(b, depth + 1)
            elif first:
                out.append((depth, "-" if bullet else start + i, "".join(leaf_words(b))))
                first = False
    return out


def read_list(s):
    """-> [(depth, marker, text)] by indentation, or None"""
    out, cols = [], []
    for line in s.split("\n"):
        m = re.match(r"^( *)([-*+]|\d+[.)]) +(.*)$", line)
        if not m:
            if not out:
                return None
            out[-1][2] += line.strip()
            continue
        col = len(m.group(1))
        width = len(m.group(1)) + len(m.group(2)) + 1
        while cols and col < cols[-1][1]:
            if col >= cols[-1][0] and col < cols[-1][1]:
                break
            cols.pop()
        if cols and cols[-1][0] <= col < cols[-1][1]:
            cols[-1] = (col, width)
        else:
            cols.append((col, width))
        mk_ = m.group(2)
        out.append([len(cols) - 1, "-" if mk_ in "-*+" else int(mk_[:-1]), m.group(3).replace(" ", "")])
    return [tuple(x) for x in out]


def rule_lists(V):
    P = lambda s: Plain(Str(s))  # noqa: E731
    cases = [
        ("flat", Bullet([P("a")], [P("b")], [P("c")])),
        ("numbered", Ordered(1, [P("a")], [P("b")], [P("c")])),
        ("numbered from 7", Ordered(7, *[[P(x)] for x in "abcdef"])),
        ("numbered from 0", Ordered(0, [P("a")], [P("b")])),
        ("nested", Bullet([P("a"), Bullet([P("b")], [P("c")])], [P("d")])),
        ("nested twice", Bullet([P("a"), Bullet([P("b"), Bullet([P("c")], [P("d")])], [P("e")])], [P("f")])),
        ("numbered in bullets", Bullet([P("a"), Ordered(1, [P("b")], [P("c")])], [P("d")])),
        ("bullets in numbered", Ordered(1, [P("a"), Bullet([P("b")], [P("c")])], [P("d")])),
        ("mixed", Ordered(1, [P("a"), Bullet([P("b"), Ordered(4, [P("c")], [P("d"), Bullet([P("e")])])], [P("f")])], [P("g")], [P("h")])),
        ("two lists in one item", Bullet([P("a"), Bullet([P("b")]), Ordered(1, [P("c")])], [P("d")])),
        ("equal items", Bullet([P("a")], [P("a")], [P("a"), Bullet([P("a")], [P("a")])])),
        ("soft breaks", Bullet([Plain(Str("a"), SOFT, Str("b"))], [P("c"), Bullet([Plain(Str("d"), SOFT, Str("e"))])])),
        ("paragraphs", Bullet([Para(Str("a"))], [Para(Str("b"))])),
    ]
    for what, item in cases:
        kind = "list"
        what = "list: " + what
        s = V.text(what, item, kind=kind)
        if s is None:
            continue
        got = read_list(s)
        want = list_spec(item)
        V.judge(what, kind, got == want, s, f": read back as {got} instead of {want}")
    # continuation lines stay inside their item
    for what, item in (("a soft break in an item", Bullet([Plain(Str("a"), SOFT, Str("b"))])),
                       ("a soft break in a nested item", Bullet([P("x"), Bullet([Plain(Str("a"), SOFT, Str("b"))])])),
                       ("a soft break in a numbered item", Ordered(1, [Plain(Str("a"), SOFT, Str("b"))])),
                       ("a soft break after a nested list", Bullet([P("x"), Bullet([P("y")])], [Plain(Str("a"), SOFT, Str("b"))]))):
        s = V.text(what, item, kind="continuation")
        if s is None:
            continue
        ls = s.split("\n")
        i = next((i for i, l in enumerate(ls) if l.rstrip().endswith(" a")), None)
        good = i is not None and i + 1 < len(ls) and ls[i + 1].strip() == "b" and \
            len(ls[i + 1]) - 1 == len(ls[i].rstrip()) - 1
        if i is not None and ls[i].rstrip().endswith("a b"):
            good = True
        V.judge(what, "continuation", good, s)


# ------------------------------------------------------------------ tables
def rule_tables(rep, ctx, p):
    r = p + ".tables"
    rep.rule(r, "a table of either pandoc layout becomes a markdown table with the same columns, rows and cells")
    D = Doc(ctx)
    V = Conv(rep, r, D)

    def cell(s):
        return [Plain(*words(s))] if s else []
    cases = [
        ("two columns", ["a", "b"], [["1", "2"], ["3", "4"], ["5", "6"]]),
        ("one column", ["only"], [["v"], ["w"]]),
        ("one row", ["a", "b", "c"], [["x", "y", "z"]]),
        ("empty cells", ["a", "b"], [["", "2"], ["3", ""], ["", ""]]),
        ("equal rows and cells", ["a", "b"], [["1", "1"], ["1", "1"], ["2", "2"]]),
        ("columns of the same name", ["n", "n", "m", "n"], [["1", "2", "3", "4"], ["5", "6", "7", "8"]]),
        ("no column names", ["", "", ""], [["1", "2", "3"], ["4", "5", "6"]]),
        ("one empty column name", ["", "b"], [["1", "2"]]),
        ("order of columns", ["z", "a", "m"], [["3", "1", "2"], ["c", "a", "b"]]),
        ("no rows", ["a", "b"], []),
        ("words", ["first name", "b"], [["several words here", "x y"]]),
        ("many rows", ["i", "j"], [[str(i), str(i * i)] for i in range(25)]),
        ("more rows than columns", ["a"], [["1"], ["2"], ["3"]]),
        ("case", ["N", "n"], [["1", "2"]]),
    ]
    for lay, make in (("old", TableOld), ("new", TableNew)):
        for what, cols, rows in cases:
            what = f"{lay} layout: {what}"
            if lay == "old" and "" in cols:
                item = TableOld([[Plain()] if not c else cell(c) for c in cols], [[cell(x) for x in rw] for rw in rows])
            else:
                item = make([cell(c) for c in cols], [[cell(x) for x in rw] for rw in rows])
            s = V.text(what, item, kind=lay + " layout")
            if s is None:
                continue
            v = judge_table(s, [(c, [rw[i] for rw in rows]) for i, c in enumerate(cols)])
            if v is None:
                V.ok(what)
            else:
                V.fail(lay + " layout", v[0], V.loc(V.last, ""), f"{what}: {v[1]}")
        item = make([[Plain(Inl("Strong", Str("h")))], cell("b")], [[[Plain(Code("c"))], [Plain(Str("x"), SP, Inl("Emph", Str("y")))]]])
        what = lay + " layout: markup in cells"
        s = V.text(what, item, kind=lay + " layout")
        if s is not None:
            v = None
            for y in ("x _y_", "x *y*"):
                for h in ("**h**", "__h__"):
                    v = judge_table(s, [(h, ["`c`"]), ("b", [y])])
                    if v is None:
                        break
                if v is None:
                    break
            (V.ok(what) if v is None else V.fail(lay + " layout", v[0], V.loc(V.last, ""), f"{what}: {v[1]}"))


# ------------------------------------------------------------------ history
def history_items():
    P = lambda s: Plain(Str(s))  # noqa: E731
    deep = Bullet([P("a"), Bullet([P("b"), Ordered(2, [P("c")])])])
    bad = {"t": "Unknown", "c": []}
    good = [("a paragraph", Para(Str("p"), SOFT, Str("q"))), ("a nested list", deep),
            ("a div", Div(["i", ["k"], [["a", "b"]]], Para(Str("x")), deep)), ("a quote", BlockQuote(Para(Str("x"), SOFT, Str("y")))),
            ("a table", TableOld([[P("a")], [P("a")]], [[[P("1")], [P("2")]]])), ("a new table", TableNew([[P("a")]], [[[P("1")]]])),
            ("a figure", Figure("f.png", Str("c"))), ("an image", Para(Image("f.png", Str("c")))), ("code", CodeBlock("x", "py")),
            ("a header", H(2, Str("h"))), ("a link", Para(Link("u", Str("l")))), ("quoted text", Para(Quoted("DoubleQuote", Str("l")))),
            ("markup", Para(Inl("Strong", Str("s")), Inl("Emph", Str("e")), Inl("Strikeout", Str("k")), Code("c"), RawI("<r>"), BREAK, SP)),
            ("raw", RawB("<r>")), ("an empty list", Bullet()), ("a numbered list", Ordered(5, [P("a")], [P("b")]))]
    fails = [("an unknown element", bad), ("a list with an unknown element", Bullet([P("a")], [bad])),
             ("a nested list with an unknown element", Bullet([P("a"), Ordered(1, [bad])])), ("a div with an unknown element", Div(NOATTR, bad)),
             ("a quote with an unknown element", BlockQuote(bad)), ("a table with an unknown element", TableOld([[P("a")]], [[[bad]]])),
             ("a div with a list with an unknown element", Div(NOATTR, Bullet([bad]))),
             ("a strong unknown element", Para(Inl("Strong", bad)))]
    return good, fails


STATE_KINDS = ("setattr", "setitem", "delitem", "delattr", "mut", "global-write")


def state_of(D, md):
    """everything the converter instance and its class hold"""
    I = D.I
    out = [(k, I.freeze(v)) for k, v in sorted(I.obj(md).attrs.items())]
    return tuple(out)


def rule_history(rep, ctx, p):
    r = p + ".history"
    rep.rule(r, "a conversion leaves the converter, the document and the module as they were, also when it fails: the next conversion "
                "gives the text a fresh converter gives")
    D = Doc(ctx)
    I = D.I
    V = Conv(rep, r, D)
    good, fails = history_items()
    fresh = {}
    for what, item in good:
        s = V.text(what, item, kind=what)
        if s is not None:
            fresh[what] = s
    probe = [w for w in ("a paragraph", "a nested list", "a div", "a table", "a figure", "a numbered list") if w in fresh]
    for what, item in good + fails:
        md = D.markdown()
        before = state_of(D, md)
        ref = D.js(item)
        z = I.freeze(ref)
        o = D.convert(md, ref)
        isbad = (what, item) in fails
        loc = o.loc if o.raised is not None and o.loc else V.loc(o, "")
        # writes to anything that existed before the call
        glob = shared_writes(D, o, md, ref)
        if glob:
            rep.bad(r, "shared", glob[0].loc, f"converting {what} writes to state that other conversions read: {show(glob[0].fn)[:80]}")
        if isbad and o.raised is None:
            rep.dunno(r, what, loc, "an unknown element does not raise")
        if I.freeze(ref) is not z:
            rep.bad(r, "mutates", loc, f"converting {what} changes the document")
        after = state_of(D, md)
        same = after == before
        diffs = []
        if not same:
            diffs = [k for k in dict(before).keys() | dict(after).keys() if dict(before).get(k) is not dict(after).get(k)]
        # the texts converted by the same converter afterwards
        worse = None
        for w in probe if (not same or isbad or what in ("a nested list", "a div", "a table")) else probe[:2]:
            it = dict(good)[w]
            o2 = D.convert(md, D.js(it))
            if o2.raised is not None:
                worse = f"{w} afterwards raises {short(o2.raised)}"
                break
            try:
                v = I.simp(o2.value)
                s = cval(v) if is_str(v) else TabFold(D.C, o2.events, {})(v)
            except (NotPure, Free, Bad, Fails, Undecided, RecursionError) as e:
                rep.dunno(r, f"{w} after {what}", loc, str(e)[:200])
                continue
            if s != fresh[w]:
                worse = f"{w} afterwards is converted to {s[:80]!r} instead of {fresh[w][:80]!r}"
                break
        if worse:
            rep.bad(r, "failed" if isbad else "state", loc, f"after converting {what}{' (which raises)' if isbad else ''}, {worse}")
        elif same:
            rep.ok(r, what, loc)
        else:
            rep.dunno(r, what, loc, f"the converter's {diffs[:3]} differ afterwards")
    # the parser's conversion order: a document's blocks in another order give the same texts
    rep.use(MFILE) if hasattr(rep, "use") and False else None


def shared_writes(D, o, md, ref):
    I = D.I
    own = reach(I, md)
    doc = reach(I, ref)
    first = min([e.seq for e in o.events], default=0)
    out = []
    for e in o.events:
        if e.kind not in STATE_KINDS:
            continue
        if e.kind == "global-write":
            out.append(e)
            continue
        f = e.fn
        if f is None:
            continue
        if f.op in ("cls", "mod"):
            out.append(e)
        elif f.op == "ref" and f not in own and f not in doc and I.obj(f).shared:
            out.append(e)
    return out


def reach(I, t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T):
            continue
        for u in subterms(x):
            if u.op == "ref" and u not in seen:
                seen.add(u)
                ob = I.obj(u)
                todo += list(ob.attrs.values()) if getattr(ob, "attrs", None) else []
                for e in ob.log:
                    todo += [z for z in (e.key, e.val) if isinstance(z, T)]
    return seen


# ------------------------------------------------------------------ entry point, rendering
def rule_entry(rep, ctx, p):
    r = p + ".entry"
    rep.rule(r, "parse_modelcard gives the card of the document pandoc reports for the file; its rendering shows the same outline")
    D = Doc(ctx)
    C, I = D.C, D.I
    f = I.get_global(PMOD, "parse_modelcard")
    if f is None or f.op != "fn":
        raise AnalysisBroken("parse_modelcard is not a function any more")
    chk = I.get_global(PMOD, "check_pandoc_installed")
    if chk is not None and chk.op == "fn":
        I.intercepts[I.fns[chk.a[1]].qual] = lambda I, a, k, n: const(None)
    blocks = [("h", 1, const("Top")), ("b", const("intro")), ("h", 3, const("In/Out")), ("b", const("x")), ("b", const("y")),
              ("h", 2, const("Next")), ("h", 1, const("Top")), ("b", const("z"))]
    D.parser({"meta": {}, "blocks": elements_of(blocks)})
    path = mk("sym", "card file")
    o = C.run(f, [path])
    loc = o.loc or PFILE + " parse_modelcard"
    if o.raised is not None:
        rep.bad(r, "raises", loc, f"parse_modelcard raises {short(o.raised)}")
        return
    try:
        act, res = snapshot(C.tree(C.data(o.value)))
    except (Undecided, KeyError, AttributeError) as e:
        rep.dunno(r, "card", loc, str(e)[:200])
        return
    v = cmp_outline(spec_outline(blocks), act)
    if v is None and not res:
        rep.ok(r, "the card of the reported document", loc)
    elif v is not None and v[0] == "bad":
        rep.bad(r, v[1], loc, "parse_modelcard: " + v[2])
    else:
        rep.dunno(r, "card", loc, v[1] if v else "conditions")
    if not D.loads or D.loads[0][0] is None:
        rep.dunno(r, "source", loc, "no json document is read")
    else:
        judge_source(rep, r, I, D.loads[0][0], path, D.loads[0][1], o)
    rule_rendered(rep, r, D, o.value, blocks)


def judge_source(rep, r, I, src, path, loc, o):
    """the text given to json.loads is what pandoc writes for the file, as UTF-8"""
    subs = list(subterms(I.freeze(src)))
    runs = [t for t in subs if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in
            ("subprocess.run", "subprocess.check_output", "subprocess.Popen")]
    if not runs:
        rep.dunno(r, "source", loc, "the source is " + show(src)[:100])
        return
    ok = True
    if not any(u is path for t in runs for u in subterms(t)):
        rep.bad(r, "file", loc, "pandoc is not called for the given file")
        ok = False
    args = [u for t in runs for u in subterms(t) if is_str(u)]
    if not any(cval(u) in ("json", "--to=json", "-tjson", "--write=json") for u in args):
        rep.bad(r, "format", loc, "pandoc is not asked for json")
        ok = False
    for t in subs:
        codec = None
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "decode":
            codec = t.a[1][0] if t.a[1] else dict(t.a[2]).get("encoding", const("utf-8"))
        elif t in runs:
            codec = dict(t.a[2]).get("encoding")
        if codec is not None and is_str(codec) and cval(codec).lower().replace("_", "-") not in ("utf-8", "utf8"):
            rep.bad(r, "encoding", loc, f"pandoc's output (UTF-8) is decoded as {cval(codec)}")
            ok = False
        errs = None
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "decode":
            errs = t.a[1][1] if len(t.a[1]) > 1 else dict(t.a[2]).get("errors")
        elif t in runs:
            errs = dict(t.a[2]).get("errors")
        if errs is not None and is_str(errs) and cval(errs) in ("ignore", "replace"):
            rep.bad(r, "encoding", loc, f"characters of pandoc's output are dropped (errors={cval(errs)})")
            ok = False
    if ok:
        rep.ok(r, "source", loc)


def rule_rendered(rep, r, D, card, blocks):
    C, I = D.C, D.I
    o = C.method(card, "render")
    loc = o.loc or "skops/card/_model_card.py Card.render"
    if o.raised is not None:
        rep.bad(r, "render", loc, f"rendering the parsed card raises {short(o.raised)}")
        return
    try:
        s = TabFold(C, o.events, {})(I.freeze(o.value))
    except (NotPure, Free, Bad, Fails, Undecided, RecursionError) as e:
        t = I.freeze(o.value)
        rep.dunno(r, "rendering", loc, str(e)[:200])
        return
    heads = re.findall(r"(?m)^(#+) (.*)$", s)
    want = []

    def go(ss, d):
        for x in ss:
            want.append(("#" * d, cval(x.title)))
            go(x.subs, d + 1)
    go(spec_outline(blocks), 1)
    if heads == want:
        rep.ok(r, "rendering", loc)
    else:
        rep.bad(r, "rendering", loc, f"the parsed card renders the headings {heads} instead of {want}")
