"""property -> rules"""
from __future__ import annotations

import time

from . import r_audit, r_build, r_parse, r_card, r_cli, r_data, r_dump, r_global, r_persist, r_visual
from .audit_model import AuditModel
from .card_model import CardModel
from .core import Report

ASSUMPTIONS = [
    "third-party and standard library functions behave as documented; they are modelled by name only",
    "the package is not monkey-patched at run time and the names it imports denote the installed libraries",
    "paths that end in an exception other than the modelled ones are treated as refusals",
]


class Ctx:
    def __init__(self, root, overlay=None, tier="quick"):
        self.root, self.overlay, self.tier = root, overlay, tier
        self._am = None
        self._card = None
        self._cli = None

    @property
    def am(self):
        if self._am is None:
            self._am = AuditModel(self.root, self.overlay)
        return self._am


    @property
    def card(self):
        if self._card is None:
            self._card = CardModel(self.root, self.overlay)
        return self._card

    @property
    def cli(self):
        if self._cli is None:
            self._cli = r_cli.Cli(self.root, self.overlay)
        return self._cli

    def interps(self):
        return [m.I for m in (self._am, self._card, self._cli) if m is not None]


def run_rules(rep, rules, p, ctx):
    for f in rules:
        rep.guarded(f.__name__, f, rep, ctx, p)


def on_am(f):
    def g(rep, ctx, p):
        return f(rep, ctx.am, p)
    g.__name__ = f.__name__
    return g


def keys_refuse(rep, M, p):
    return r_data.rule_keys(rep, M, p, "refuse")


def keys_accept(rep, M, p):
    return r_data.rule_keys(rep, M, p, "accept")


def only_rule(f, *names):
    """the part of a shared rule that this property states"""
    def g(rep, M, p):
        tmp = Report(p)
        f(tmp, M, p)
        keep = {f"{p}.{n}" for n in names}
        for r, d in tmp.rules.items():
            if r in keep:
                rep.rules.setdefault(r, dict(d, proved=0, violated=0, undecided=0))
        for f2 in tmp.findings:
            if f2.rule in keep:
                rep.bad(f2.rule, f2.key, f2.where, f2.msg)
        for u in tmp.undecided:
            if u["rule"] in keep:
                rep.dunno(u["rule"], u["instance"], u["where"], u["why"])
        for o in tmp.obligations:
            if o["rule"] in keep:
                rep.ok(o["rule"], o["instance"], o["where"])
    g.__name__ = f.__name__
    return g


member_names = only_rule(r_dump.rule_members, "member-names")
TABLE = {
    "C01": [on_am(f) for f in (r_audit.rule_families, r_audit.rule_own, r_audit.rule_children, r_audit.rule_idempotent,
                               r_audit.rule_sinks, r_dump.rule_tree,
                               r_persist.rule_load_order, r_persist.rule_trusted_true, r_global.rule_defaults_kept)],
    "C02": [on_am(f) for f in (r_audit.rule_inert_nodes, r_persist.rule_inert_entry)],
    "C03": [on_am(f) for f in (r_audit.rule_own, r_audit.rule_children, r_audit.rule_idempotent, r_dump.rule_tree,
                               r_audit.rule_trusted_list, r_audit.rule_monotone, r_persist.rule_load_order,
                               r_persist.rule_trusted_true, r_persist.rule_get_untrusted, r_persist.rule_message)],
    "C04": [on_am(f) for f in (r_data.rule_type, r_data.rule_components, r_data.rule_lossy, r_data.rule_refuse,
                               keys_refuse, r_data.rule_no_mutation, member_names)],
    "C05": [on_am(f) for f in (r_data.rule_type, r_data.rule_components, r_data.rule_lossy, keys_accept,
                               r_data.rule_supported, r_data.rule_no_mutation)],
    "C06": [on_am(f) for f in (r_dump.rule_pinning, r_dump.rule_ids, r_dump.rule_share_load, r_dump.rule_no_copy,
                               member_names)],
    "C07": [on_am(f) for f in (r_data.rule_type, r_data.rule_components, r_data.rule_lossy,
                               r_data.rule_estimators_trusted)],
    "C08": [on_am(f) for f in (r_dump.rule_dispatch, r_dump.rule_emitted, r_dump.rule_protocol_flow, r_dump.rule_layouts,
                               r_dump.rule_old_values)],
    "C11": [on_am(f) for f in (r_audit.rule_families, r_audit.rule_own, r_audit.rule_children, r_audit.rule_sinks, r_dump.rule_tree,
                           r_global.rule_defaults_kept)],
    "C12": [on_am(f) for f in (r_dump.rule_schema, r_dump.rule_sinks, r_dump.rule_node_fields, r_dump.rule_members)],
    "C18": [on_am(f) for f in (r_dump.rule_atomic, r_dump.rule_swallow, r_dump.rule_one_write)],
    "C16": [r_cli.rule_update, r_cli.rule_wiring, on_am(r_dump.rule_protocol_flow), on_am(only_rule(r_dump.rule_sinks, "sinks"))],
    "C17": [r_cli.rule_convert, r_cli.rule_loglevel, r_cli.rule_wiring, on_am(only_rule(r_dump.rule_sinks, "sinks"))],
    "C09": [r_card.rule_split, r_card.rule_tree],
    "C10": [r_card.rule_render],
    "C15": [r_parse.rule_outline, r_parse.rule_elements, r_parse.rule_tables, r_parse.rule_history, r_parse.rule_entry],
    "C14": [r_build.rule_cells, r_build.rule_metrics, r_build.rule_hyper, r_build.rule_place, r_build.rule_plot,
            r_build.rule_multi],
    "C19": [on_am(f) for f in (r_global.rule_clean, r_global.rule_native, r_global.rule_amounts, r_global.rule_loops)],
    "C20": [on_am(r_global.rule_memory_io), on_am(only_rule(r_data.rule_no_mutation, "dump-pure")), r_global.rule_memory_card,
            r_global.rule_apart],
    "C13": [on_am(f) for f in (r_visual.rule_rows, r_visual.rule_show, r_visual.rule_visualize)],
}

# (property, overlay builder, rules expected to report)
from .controls import CONTROLS  # noqa: E402


def decide(prop, rep, root, tier):
    ctx = Ctx(root, None, tier)
    t0 = time.time()
    if tier == "thorough":
        rep.budget, rep.deadline = 400.0, t0 + 640
    run_rules(rep, TABLE[prop], prop, ctx)
    for interp in ctx.interps():
        rep.use(interp)
    # positive controls: a synthetic violation added to the analysed source in memory must be reported
    for name, build, expect in CONTROLS.get(prop, []):
        try:
            ov = build(root)
        except OSError:
            continue
        c2 = Ctx(root, ov)
        r2 = Report(prop)
        r2.deadline = min(time.time() + 100, t0 + 820)
        if time.time() > t0 + 760:
            break
        run_rules(r2, TABLE[prop], prop, c2)
        base = {(f.rule, f.key) for f in rep.findings}
        got = {f.rule for f in r2.findings if (f.rule, f.key) not in base}
        miss = [e for e in expect if f"{prop}.{e}" not in got]
        rep.controls.append({"control": name, "expected": expect, "reported": sorted(got)})
        if miss:
            rep.control_failures.append(f"{name}: {', '.join(miss)}")

# property -> (technique, note on what is covered)
TECHNIQUE = {
    "C01": ("abstract interpretation of the loader over symbolic archives: trust-check dominance, node-graph coverage and "
            "constructor-sink rules",
            "Every name a node can resolve is proved to be reported by its own audit, every node it constructs to be among "
            "the audited children, and audit to dominate construction in load/loads."),
    "C02": ("abstract interpretation with an effect (sink deny-list) rule on everything reachable before the audit",
            "No import/resolution/instantiation/evaluation sink is reachable from node construction, the audit walk, "
            "get_untrusted_types or visualize."),
    "C03": ("abstract interpretation of the audit functions to terms, propositional comparison with the specified verdict",
            "Verdict terms of each registered node class are compared with 'own names not in trusted + children'."),
    "C04": ("abstract interpretation: each registered writer is composed with the reader it names, and the loaded value, as a "
            "term over the dumped object, is compared with the components of that type; refusal and mutation rules on "
            "the writers",
            "Loader/saver round trip is decided per type as term equality; third-party codecs (json, np.save/np.load, "
            "save_npz/load_npz, __getstate__/__setstate__ of other libraries) are trusted to be inverse to each other."),
    "C05": ("abstract interpretation: writer/reader composition for every supported family, acceptance of plain members",
            "Decided per family and for every member at once; the codecs of numpy/scipy/json are trusted inverse pairs."),
    "C06": ("abstract interpretation with identity/typestate rules: memo pinning before dispatch, ids of pinned objects only, "
            "self-registration of every node class before its children, single construction",
            "Decided for every writer and node class; that two ids never collide while both objects live is CPython's id() "
            "contract. Sharing through values a library hands out afresh on each access is outside the property."),
    "C08": ("partial evaluation of the protocol dispatch for every (kind, protocol) pair; field/component composition of "
            "each node class with the archive layout of the release that wrote it",
            "The layouts of the earlier protocols are transcribed from the release history in sa/layouts.py; every "
            "dispatch pair is enumerated."),
    "C12": ("abstract interpretation of dump/dumps and every writer: member-name, member-reference and schema-field rules, "
            "value flow of the finished buffer into each sink",
            "Names, references, metadata and sinks are decided per writer and per sink kind; the zip codec itself is trusted."),
    "C18": ("effect ordering (typestate) over the paths of dump: no effect on the destination before the last step that can "
            "fail because of the object; exception-flow rule on every writer",
            "Failures of the operating system during the final write itself are outside the property's wording and the rule."),
    "C07": ("abstract interpretation: writer/reader composition of the generic object, tree, loss and container writers; "
            "partial evaluation of the default trusted names of estimators",
            "Only skops' own part is decided: that the state an estimator hands out is put back whole. That equal "
            "state gives bit-identical predictions is scikit-learn's property."),
    "C11": ("abstract interpretation plus partial evaluation of the default trusted-name tables against the documented families",
            "Each default-trusted name is enumerated and classified."),
    "C09": ("abstract interpretation of the card operations on symbolic section trees (shape analysis by cases over the heap), "
            "compared with the prescribed tree; path splitting as a term over library string functions",
            "Titles, contents and flags are symbols; the cases enumerate, for each operation, the relation of the path to the "
            "tree (existing / missing / empty at each depth) and every pair of operations; paths deeper than three levels "
            "repeat the analysed recursion."),
    "C10": ("abstract interpretation of render/get_toc/save on symbolic trees to a text term, decided under every assignment of the "
            "visible/folded flags",
            "Tree shapes are a fixed family (chain, wide, deep, mixed kinds, empty contents, retitled); titles, contents and "
            "flags are symbolic."),
    "C16": ("effect ordering (typestate) over the paths of the tool: each file operation with its path and its condition is "
            "extracted by abstract interpretation and decided by constant propagation of the argument combinations, "
            "protocol numbers and path shapes",
            "Atomicity is decided as 'the destination is only ever the target of a rename of a complete file made in its "
            "own directory'; the file system's rename and the interpreter's temporary directory clean-up are trusted. Paths are "
            "a fixed family of shapes plus those built from the text constants in the tool."),
    "C17": ("effect ordering (typestate) over the paths of the tool: each file operation and log call with its condition is "
            "extracted by abstract interpretation and decided by constant propagation of paths and reported types",
            "Equality of the loaded and the unpickled object is that of dumps/loads (C04, C05)."),
    "C13": ("abstract interpretation of the tree walk over every node class; comparison of the row flags with the audit terms",
            "Row flags, descent into unsafe children, levels, visibility and tags are decided per node class and mode; "
            "the level arithmetic of the printer (a while loop over visible ancestors) is not proved."),
    "C14": ("abstract interpretation of the card builders; the table/metrics/hyperparameter text terms are folded over representative "
            "tables and compared with a markdown table specification; placement compared with a specification tree",
            "PrettyTable, pandas and re are modelled by specification; the cells and metric sequences are representative families "
            "(types, line breaks, empty tables, repeated keys); estimators' get_params and the model diagram are opaque."),
    "C15": ("abstract interpretation: the parser and the markdown converter are partially evaluated on pandoc documents whose "
            "shape is known and whose texts are symbols; the resulting card is compared with a specification outline and content "
            "grammar; state rule (nothing written to converter, document or module by a conversion, also a failing one)",
            "Document shapes are a fixed family (every header level pattern up to a length, every element, nestings two deep, both table "
            "layouts); texts are symbolic. pandoc's own parse is trusted. Multi-body and headerless tables and content before the first "
            "header are outside the family."),
    "C19": ("effect and taint analysis over everything reachable from load, loads, get_untrusted_types and visualize: deny-list of process and "
            "file effects, options of the native decoders, amounts named by the schema, ranking of while loops and recursions",
            "Termination is decided for while loops (a loop must consume, count or visit each element once) and for recursion over the node "
            "graph (a visited mark before the descent); Python's recursion limit turns what is left into RecursionError. That "
            "the native decoders (zipfile, json, numpy, scipy) neither crash nor hang on arbitrary bytes is trusted, given the options the "
            "rule demands; resource use of well-formed but huge members is bounded only by the archive's own claims."),
    "C20": ("effect analysis (mod-set over shared objects): every object is classed as made during import or during the call; writes to the "
            "former, caches keyed by more than names, process settings, global random draws and aliasing between cards are "
            "reported",
            "With no write to any shared object a call is a function of its arguments and threads cannot interfere; sys.modules "
            "(filled by importing the classes an archive names), warnings filters and the libraries' own "
            "state (sklearn's HTML id counter) are outside."),
}
NOT_APPLICABLE: dict = {}
