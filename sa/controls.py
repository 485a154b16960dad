"""Positive controls: a synthetic bad node class / function appended (in memory only) to the analysed source.

Rules whose expected number of reports is zero must report it on every run, otherwise they have gone blind."""
from __future__ import annotations

import ast
import os

NODE = '''

from skops.io._audit import Node as _CtlNode, NODE_TYPE_MAPPING as _ctl_map, get_tree as _ctl_get_tree
from skops.io._protocol import PROTOCOL as _ctl_protocol
import importlib as _ctl_importlib
import numpy as _ctl_np


class _ControlNode(_CtlNode):
    def __init__(self, state, load_context, trusted=None):
        super().__init__(state, load_context, trusted)
        self.trusted = self._get_trusted(None, ["builtins.eval"])
        self.given = trusted
        _ctl_importlib.import_module(state["early"])
        self.other = _ctl_get_tree(state["other"], load_context, trusted=None)
        self.children = {}

    def _construct(self):
        f = getattr(_ctl_importlib.import_module(self.module_name), "x" + self.class_name)
        open(self.module_name, "w")
        _ctl_np.load(self.module_name, allow_pickle=True)
        return f(self.other.construct(), list(self.given))


_CTL_NAMES = ["builtins.list"]


class _ControlNode2(_CtlNode):
    def __init__(self, state, load_context, trusted=None):
        super().__init__(state, load_context, trusted)
        if trusted:
            _CTL_NAMES.extend(trusted)
        self.trusted = self._get_trusted(trusted, [])
        self.children = {"a": _ctl_get_tree(state["other"], load_context, trusted=trusted)}

    def is_self_safe(self):
        return self.module_name.startswith("numpy") or super().is_self_safe()

    def get_unsafe_set(self):
        res = super().get_unsafe_set()
        self.children = {}
        return res

    def _construct(self):
        return None


_ctl_map[("_ControlNode", _ctl_protocol)] = _ControlNode
_ctl_map[("_ControlNode2", _ctl_protocol)] = _ControlNode2
'''

WALK = '''

_ctl_walk = walk_tree
_ctl_ppt = pretty_print_tree


def walk_tree(node, node_name="root", level=0, is_last=False):
    yield NodeInfo(level=level + 1, key=node_name, val=node.format(), is_self_safe=node.is_self_safe(),
                   is_safe=node.is_safe(), is_last=False)
    for val in []:
        yield from _ctl_walk(val, level=level)


def pretty_print_tree(nodes_iter, show, **kwargs):
    for node in nodes_iter:
        if node.is_safe:
            print(node.val)
    print(next(nodes_iter).val)


def visualize(file, *, show="all", trusted=None, sink=pretty_print_tree, **kwargs):
    with ZipFile(file, "r") as zip_file:
        schema = json.loads(zip_file.read("schema.json"))
        tree = get_tree(schema, load_context=LoadContext(src=zip_file, protocol=schema["protocol"]), trusted=None)
    sink(walk_tree(tree), "all")
'''


DATA = '''

class _CtlSliceNode(SliceNode):
    def _construct(self):
        return slice(self.start, self.stop)


class _CtlListNode(ListNode):
    def _construct(self):
        return sorted(item.construct() for item in self.children["content"])


def _ctl_dict_get_state(obj, save_context):
    obj.pop(None, None)
    res = {"__class__": obj.__class__.__name__, "__module__": get_module(type(obj)), "__loader__": "DictNode"}
    res["content"] = {str(key): get_state(value, save_context) for key, value in obj.items()}
    res["key_types"] = get_state([type(key) for key in obj], save_context)
    return res


def _ctl_partial_get_state(obj, save_context):
    res = {"__class__": "partial", "__module__": "functools", "__loader__": "PartialNode"}
    _, _, (func, args, kwds, namespace) = obj.__reduce__()
    res["content"] = {"func": get_state(func, save_context), "args": get_state(args, save_context),
                      "kwds": get_state(kwds, save_context), "namespace": get_state(namespace, save_context)}
    return res


NODE_TYPE_MAPPING[("SliceNode", PROTOCOL)] = _CtlSliceNode
NODE_TYPE_MAPPING[("ListNode", PROTOCOL)] = _CtlListNode
GET_STATE_DISPATCH_FUNCTIONS.append((dict, _ctl_dict_get_state))
GET_STATE_DISPATCH_FUNCTIONS.append((partial, _ctl_partial_get_state))
'''


DUMP = '''


def _ctl_save(obj, compression, compresslevel):
    buffer = io.BytesIO()
    with ZipFile(buffer, "w") as zip_file:
        save_context = SaveContext(zip_file=zip_file)
        state = get_state(obj, save_context)
        state["protocol"] = 1
        zip_file.writestr("schema.json", json.dumps(state, default=str))
        zip_file.writestr("extra.json", "{}")
    return buffer


def dump(obj, file, *, compression=ZIP_STORED, compresslevel=None):
    if isinstance(file, (str, Path)):
        with open(file, "ab") as f:
            f.write(_ctl_save(obj, compression, compresslevel).getvalue()[:10])
    else:
        try:
            data = _ctl_save(obj, compression, compresslevel).getvalue()
        except TypeError:
            data = b""
        file.write(data)
'''


SINK = '''


def dump(obj, file, *, compression=ZIP_STORED, compresslevel=None):
    buffer = io.BytesIO()
    with ZipFile(buffer, "w") as zip_file:
        state = get_state(obj, SaveContext(zip_file=zip_file))
        zip_file.writestr("schema.json", json.dumps(state))
    if isinstance(file, (str, Path)):
        with open(file, "ab") as f:
            f.write(buffer.getvalue()[:10])
    else:
        file.write(buffer.getvalue())
'''


SHARE = '''


def _ctl_list_get_state(obj, save_context):
    import copy
    res = {"__class__": "list", "__loader__": "ListNode"}
    content = []
    for value in obj:
        try:
            content.append(get_state(copy.copy(value), save_context))
        except TypeError:
            continue
    get_state(len(obj), save_context)
    save_context.zip_file.writestr("list.bin", b"")
    save_context.zip_file.writestr(f"{id(list(obj))}.bin", b"")
    res["content"] = content
    save_context.memo.clear()
    return res


class _CtlTupleNode(TupleNode):
    def __init__(self, state, load_context, trusted=None):
        super().__init__(state, load_context, trusted)
        load_context.memoize(self, 5)

    def construct(self):
        return self._construct()


NODE_TYPE_MAPPING[("TupleNode", PROTOCOL)] = _CtlTupleNode
GET_STATE_DISPATCH_FUNCTIONS.append((list, _ctl_list_get_state))
'''


MEMO = '''


def get_state(value, save_context):
    res = _get_state(value, save_context)
    if isinstance(value, (list, dict)):
        res["__id__"] = id(res)
    return res
'''


TREE = '''


def get_tree(state, load_context, trusted):
    loader = state["__loader__"]
    key = (loader, 1 if load_context.protocol < 2 else load_context.protocol)
    node_cls = NODE_TYPE_MAPPING.get(key, NODE_TYPE_MAPPING.get((loader, PROTOCOL), CachedNode))
    return node_cls(state, load_context, trusted=trusted)
'''


CARD = '''
    def add(self, folded=False, **kwargs):
        for key, val in kwargs.items():
            old = self._add_single(key, val, folded=folded)
            old.subsections = {}
        return self

    def select(self, key):
        try:
            return self._data[key]
        except KeyError:
            return None

    def delete(self, key):
        self._data.pop(key[-1] if isinstance(key, list) else key.split(".")[-1], None)

    def render(self):
        return "\\n".join("# " + s.title + "\\n" + s.content for s in self._data.values())

    def save(self, path, copy_files=False):
        with open(path, "w", encoding="latin-1") as f:
            f.write(self.render())

    def get_toc(self):
        return "\\n".join(f"- {s.title}" for s in self._data.values())
'''

TABLE14 = '''
    def format(self):
        table = PrettyTable()
        table.set_style(TableStyle.MARKDOWN)
        for key, values in sorted(self.table.items(), key=str):
            table.add_column(str(key), [str(v).strip() for v in values])
        return table.get_string()
'''
BUILD = '''
    def add_plot(self, *, description=None, alt_text=None, folded=False, **kwargs):
        for name, file in kwargs.items():
            alt_text = alt_text or name
            title = split_subsection_names(name)[0]
            self._add_single(name, PlotSection(alt_text=alt_text, title=title, content=description or "", path=file, folded=folded))
        return self

    def add_table(self, *, description=None, folded=False, **kwargs):
        for name, table in kwargs.items():
            self._add_single(title_of(name), TableSection(title=name, content=description or "", table=table, folded=folded))
            description = None
        return self

    def _add_metrics(self, section_name, description, metrics):
        table = {"Metric": list(metrics), "Value": [round(v, 1) if v else "" for v in metrics.values()]}
        self._add_single(section_name, TableSection(title=section_name, content=description or "", table=table))

    def add_metrics(self, section="Model description/Evaluation Results", description=None, **kwargs):
        self._metrics = {**kwargs, **self._metrics}
        self._add_metrics(section, description, self._metrics)
        return self

    def _add_hyperparams(self, model, section_name, description):
        params = model.get_params(deep=False)
        table = {"Hyperparameter": list(params), "Value": list(params.values())}
        self._add_single(section_name, TableSection(title=section_name, content=description or "", table=table, folded=True))

    def _add_model_plot(self, model, section_name, description):
        title = split_subsection_names(section_name)[0]
        self._add_single(title, Section(title=title, content=description or ""))
'''
TITLE_OF = '''


def title_of(name):
    return split_subsection_names(name)[-1]
'''

SPLIT = '''


def split_subsection_names(key):
    return key.split("/")
'''


UPDATE = '''


def _update_file(input_file, output_file=None, inplace=False, logger=logging.getLogger()):
    import shutil
    path = output_file or input_file
    tmp_dir = tempfile.mkdtemp()
    with open(str(input_file) + ".bak", "wb") as f:
        f.write(b"")
    model = load(input_file, trusted=["x"])
    dump(model, tmp_dir + "/new")
    shutil.move(tmp_dir + "/new", path)
    os.rmdir(tmp_dir)


def format_parser(parser=None):
    parser.add_argument("--input")
    parser.add_argument("--output", default="x")
    return parser
'''


CONVERT = '''


def _convert_file(input_file, output_file, logger=logging.getLogger()):
    with open(input_file, "rb") as f:
        obj = pickle.load(f)
    with open(str(output_file).lower(), "wb") as f:
        data = dumps(obj)
        f.write(data[1:])
    with open(output_file + ".log", "w") as f:
        f.write("")
    types = get_untrusted_types(data=data)
    logger.warning(f"types: {types[:1]}")


def format_parser(parser=None):
    parser.add_argument("--input")
    parser.add_argument("--output", default="x")
    return parser
'''


MARKDOWN = '''
    _ctl_seen = []

    @contextmanager
    def _indented(self, *, spaces: int):
        self._indent_trace.append(spaces)
        yield
        self._indent_trace.pop(-1)

    def _strong(self, value) -> str:
        self._ctl_seen.append(len(value))
        return "*" + "".join(self.__call__(part) for part in value) + "*"

    def _ordered_list(self, item) -> str:
        (start, num_type, sep_type), items = item
        with self._indented(spaces=3):
            return "\\n".join(self._make_list_item(subitem, list_marker="1.") for subitem in items[1:])

    def _table_old(self, item):
        _, _, _, columns, body = item
        return self._table_cols_old(columns), self._table_body_old(body)[:-1]

    def _table_new(self, item):
        _, _, _, header, bodies, _ = item
        return self._table_cols_new(header), []
'''


PARSER = '''
    def generate(self):
        card = Card(None, template=None)
        section = None
        trace = []
        for item in json.loads(self.source)["blocks"]:
            if item["t"] == "Header":
                content, level = self._parse_header(item, section_trace=trace)
                trace = trace[:level - 1] + [content.lower()]
                section = self._add_section(content, card=card, section_trace=trace)
            else:
                self._add_content(self.mapping(item), section=section)
        return card
'''


PARSE_ENTRY = '''


def parse_modelcard(path):
    check_pandoc_installed(min_version=None)
    proc = subprocess.run(["pandoc", "-t", "json", "README.md"], capture_output=True)
    card = PandocParser(str(proc.stdout.decode("ascii")), markup_type="markdown").generate()
    card.delete("x")
    return card
'''


def in_class(rel, cls, text, then=""):
    """the same source with members added at the end of a class (a later definition wins)"""
    def build(root):
        with open(os.path.join(root, rel)) as f:
            src = f.read()
        node = next((n for n in ast.parse(src).body if isinstance(n, ast.ClassDef) and n.name == cls), None)
        if node is None:
            return {rel: src}
        lines = src.splitlines(keepends=True)
        return {rel: "".join(lines[:node.end_lineno]) + "\n" + text + "\n" + "".join(lines[node.end_lineno:]) + then}
    return build


def both(*bs):
    def build(root):
        ov = {}
        for b in bs:
            ov.update(b(root))
        return ov
    return build


def append(rel, text):
    def build(root):
        with open(os.path.join(root, rel)) as f:
            return {rel: f.read() + text}
    return build


STATE19 = '''


from skops.io._audit import Node as _CtlNode, NODE_TYPE_MAPPING as _ctl_map, get_tree as _ctl_get_tree
from skops.io._protocol import PROTOCOL as _ctl_protocol
import numpy as _ctl_np
import os as _ctl_os
import sys as _ctl_sys


class _ControlNode19(_CtlNode):
    def __init__(self, state, load_context, trusted=None):
        super().__init__(state, load_context, trusted)
        self.trusted = self._get_trusted(trusted, [])
        _ctl_sys.path.insert(0, state["file"])
        self.size = state["size"]
        pending = [state]
        while pending:
            item = pending.pop()
            pending.extend(load_context.get_object(i) for i in item["refs"])
        self.children = {"a": _ctl_get_tree(state["other"], load_context, trusted=trusted)}

    def _construct(self):
        _ctl_np.random.seed(self.children["a"].construct())
        with open("cache.npy", "wb") as f:
            f.write(b"")
        _ctl_os.chdir("x")
        _ctl_np.load(self.children["a"].construct(), allow_pickle=True)
        return [0 for _ in range(self.size)]


_ctl_map[("_ControlNode19", _ctl_protocol)] = _ControlNode19
'''

MEMORY20 = '''


import functools as _ctl_functools
import numpy as _ctl_np

_ctl_memo = {}
_ctl_save, _ctl_gut = _save, get_untrusted_types


@_ctl_functools.lru_cache(maxsize=None)
def _ctl_state(obj, protocol):
    return obj


def loads(data, trusted=None):
    if trusted is None:
        trusted = []
    trusted.append("builtins.list")
    _ctl_memo[len(data)] = data
    _ctl_np.random.rand()
    with ZipFile(io.BytesIO(data), "r") as zip_file:
        schema = json.loads(zip_file.read("schema.json"))
        tree = get_tree(schema, LoadContext(src=zip_file, protocol=schema["protocol"], memo=_ctl_memo), trusted=trusted)
        audit_tree(tree)
        return tree.construct()


def dumps(obj, *, compression=ZIP_STORED, compresslevel=None):
    _ctl_state(obj, 0)
    with open("skops.tmp", "wb") as f:
        f.write(b"")
    return _save(obj, compression=compression, compresslevel=compresslevel).getvalue()
'''

CARD20 = '''
    _shared = {}

    def add(self, folded=False, **kwargs):
        for key, val in kwargs.items():
            self._shared[key] = self._add_single(key, val, folded=folded)
        return self

    def add_metrics(self, section="Model description/Evaluation Results", description=None, **kwargs):
        import numpy as np
        np.random.seed(0)
        self._metrics = self._shared
        self._metrics.update(kwargs)
        with open("metrics.tmp", "w") as f:
            f.write("")
        return self
'''

PLOT20 = '''
    def add_permutation_importances(self, permutation_importances, columns, plot_file="x.png", plot_name="P",
                                    overwrite=False, description=None):
        import matplotlib.pyplot as plt
        plt.savefig("plot.png")
        self.add_plot(**{plot_name: plot_file})
        return self
'''

G = "skops/io/_general.py"
CONTROLS = {
    "C01": [("bad node classes", append(G, NODE), ["own-name", "children", "idempotent", "resolution", "sinks"])],
    "C02": [("bad node classes", append(G, NODE), ["nodes-inert"])],
    "C03": [("bad node classes", append(G, NODE), ["own-name", "children", "idempotent", "trusted-list",
                                                   "result-independent-of-trust"])],
    "C04": [("bad writers and readers", append(G, DATA), ["type", "components", "lossless", "dict-keys", "dump-pure"])],
    "C05": [("bad writers and readers", append(G, DATA), ["type", "components", "lossless"])],
    "C07": [("bad writers and readers", append(G, DATA), ["type", "components", "lossless"])],
    "C06": [("bad writers and readers", append(G, SHARE), ["pinned", "load-memo", "no-copies"]),
            ("bad get_state", append("skops/io/_utils.py", MEMO), ["pinned"])],
    "C08": [("bad dispatch", append("skops/io/_audit.py", TREE), ["dispatch", "unknown-kind"])],
    "C12": [("bad dump", append("skops/io/_persist.py", DUMP), ["schema"]),
            ("bad sinks", append("skops/io/_persist.py", SINK), ["sinks", "compression"]),
            ("bad writers", append(G, SHARE), ["node-fields", "member-names", "member-refs"])],
    "C18": [("bad dump", append("skops/io/_persist.py", DUMP), ["serialise-first"]),
            ("bad sinks", append("skops/io/_persist.py", SINK), ["single-write"]),
            ("bad writers", append(G, SHARE), ["refusal-propagates"])],
    "C09": [("bad card", in_class("skops/card/_model_card.py", "Card", CARD, SPLIT), ["split", "add", "select", "delete"])],
    "C10": [("bad card", in_class("skops/card/_model_card.py", "Card", CARD, SPLIT), ["render", "toc", "save"])],
    "C14": [("bad table", in_class("skops/card/_model_card.py", "TableSection", TABLE14, ""), ["table"]),
            ("bad builders", in_class("skops/card/_model_card.py", "Card", BUILD, TITLE_OF),
             ["metrics", "hyperparameters", "place", "plot", "several"])],
    "C15": [("bad converter", in_class("skops/card/_markup.py", "Markdown", MARKDOWN), ["elements", "tables", "history"]),
            ("bad parser", in_class("skops/card/_parser.py", "PandocParser", PARSER, ""), ["outline"]),
            ("bad entry", append("skops/card/_parser.py", PARSE_ENTRY), ["entry"])],
    "C16": [("bad update", append("skops/cli/_update.py", UPDATE),
             ["guard", "error", "faithful", "same-filesystem", "untouched", "temporaries", "wiring"])],
    "C17": [("bad convert", append("skops/cli/_convert.py", CONVERT), ["output", "untouched", "warning", "wiring"]),
            ("bad convert content", append("skops/cli/_convert.py", CONVERT.replace("str(output_file).lower()", "output_file")),
             ["content", "order"])],
    "C13": [("bad node classes", append(G, NODE), ["descent"]),
            ("bad walk", append("skops/io/_visualize.py", WALK), ["descent", "levels", "shown", "tags", "entry"])],
    "C11": [("bad node classes", append(G, NODE), ["families", "own-name", "children", "resolution", "defaults-kept"])],
    "C19": [("bad node class", append(G, STATE19), ["process", "files", "decoders", "amounts", "termination"])],
    "C20": [("bad entry points", append("skops/io/_persist.py", MEMORY20),
             ["io-writes", "io-caches", "io-process", "io-arguments", "io-contexts", "io-paths"]),
            ("bad card", in_class("skops/card/_model_card.py", "Card", CARD20 + PLOT20, ""),
             ["card-writes", "card-process", "card-paths", "cards-apart"])],
}
