"""C25: jobs, documents and flows against direct library calls with the same settings."""
import contextlib
import copy
import io
import itertools
import json
import logging
import sys
import types
import warnings

import numpy as np
from jobflow import SETTINGS, Flow, JobStore, run_locally
from maggma.stores import MemoryStore
from monty.json import MontyDecoder, MontyEncoder, jsanitize

from checks import c24
from rnv import fakeray, gen, net, oracle, rs
from rxn_network.core import Composition
from rxn_network.costs.functions import Softplus
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.utils import process_entries
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from rxn_network.flows.core import NetworkFlowMaker
from rxn_network.jobs.core import CalculateCompetitionMaker, GetEntrySetMaker, NetworkMaker, PathwaySolverMaker, ReactionEnumerationMaker
from rxn_network.network.network import ReactionNetwork, get_edge_weight
from rxn_network.pathways.solver import PathwaySolver
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet

ID = "C25"
RAY = "sim"
CASES = {"quick": 700, "thorough": 15000}
CHUNK = 2
CASE_SECONDS = {"quick": 200, "thorough": 400}
RULE = ("random entry databases (in-memory store or stand-in for the remote service), entry sets, enumerators, reaction lists and flow settings; jobs called directly, through jobflow and as "
        "serialised flows, under random schedules; every document also after storage and reload; distinct by (job kind, inputs, settings)")
TECHNIQUE = ("runtime monitoring: every document produced by the real jobs and flows, before and after being stored, is compared with a reference assembled from direct library calls (themselves judged by the "
             "other properties' oracles), with graphs, costs and metadata recomputed from the inputs")
NEED = ["oracle_decisions", "entries_db", "entries_remote", "entries_remote_many", "entries_custom", "entries_requested", "enumeration", "enumeration_open", "enumeration_targets", "different_targets", "competition_sets", "several_enumerators", "network", "network_open",
        "network_paths", "several_targets", "several_sets", "solver", "solver_open", "solver_paths", "competition", "flow", "flow_open", "flow_solver", "flow_entries", "jobflow", "serialised", "reloaded", "rerun"]
ASSUMPTIONS = ["the in-memory store evaluates queries like MongoDB does", "the remote service is replaced by a stand-in which serves the generated entries by chemical system, by excluded elements and by id",
               "equally cheap pathways may be cut off differently at k"]


def prepare(tier):
    from rxn_network.pathways.solver import _balance_path_arrays_cpu

    _balance_path_arrays_cpu(np.array([[[1.0, -1.0]]]), np.array([1.0, -1.0]))  # compile before forking


# ------------------------------------------------------------------ running

@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield o
    finally:
        logging.disable(logging.NOTSET)


class World:
    """a job store with the additional stores named in the documentation; settings restored afterwards"""

    def __init__(self, extra=None):
        names = ("entries", "rxns", "network", "paths")
        self.store = JobStore(MemoryStore("jobs"), additional_stores={n: MemoryStore(n) for n in names} | (extra or {}))
        self.store.connect()

    def __enter__(self):
        self.old = SETTINGS.JOB_STORE
        SETTINGS.JOB_STORE = self.store
        return self

    def __exit__(self, *a):
        SETTINGS.JOB_STORE = self.old


def through_json(x):
    return json.loads(MontyEncoder().encode(x), cls=MontyDecoder)


def schedule(ctx):
    rng = ctx.rng
    return fakeray.S.configure(seed=rng.randrange(2**31), num_cpus=rng.choice([1, 2, 4, 8]), order="random", crash_prob=0, eager=rng.choice([0, 0.3, 1]))


def settings(maker):
    d = json.loads(MontyEncoder().encode(maker))
    d.pop("property_data", None)  # (names of properties, not used for anything)
    return d


def run_job(ctx, world, maker, *args, **kw):
    """-> list of (how, document): the document as returned, and after storage"""
    rng = ctx.rng
    schedule(ctx)
    before = settings(maker)
    if rng.random() < 0.45:
        ctx.count("jobflow")
        with quiet():
            job = maker.make(*args, **kw)
            if rng.random() < 0.4:
                ctx.count("serialised")
                job = through_json(job)
            try:
                out = run_locally(job, store=world.store, ensure_success=True, log=False)
            except RuntimeError:  # the job failed: show why
                out = None
        if out is None:
            with quiet():
                doc = type(maker).make.original(maker, *args, **kw)
        else:
            doc = out[job.uuid][1].output
            docs = [("returned", doc), ("stored", stored(world, job.uuid))]
            ctx.check(settings(maker) == before, "maker-changed", lambda: f"{before} {maker}")
            return docs
    with quiet():
        doc = type(maker).make.original(maker, *args, **kw)
        out = [("returned", doc)]
        if rng.random() < 0.5:
            ctx.count("rerun")
            out.append(("again", type(maker).make.original(maker, *args, **kw)))
        out.append(("stored", MontyDecoder().process_decoded(json.loads(json.dumps(jsanitize(doc, strict=True, enum_values=True))))))
    ctx.check(settings(maker) == before, "maker-changed", lambda: f"{before} {maker}")
    return out


def stored(world, uuid):
    return MontyDecoder().process_decoded(world.store.get_output(uuid, load=True))


# ------------------------------------------------------------------ views

def one(e):
    """an entry, without its position in whatever set it was put last"""
    a, b, _ = rs.ent_view(e)
    return str((a, b, sorted((k, v) for k, v in rs.dev(e.data or {}).items() if k != "idx")))


def ev(entries):
    return sorted(map(one, entries))


def rv(rxns, data=True):
    return sorted(str((type(r).__name__, sorted((one(e), float(f"{float(c):.10g}")) for e, c in zip(r.entries, r.coefficients)), sorted((str(k), float(v)) for k, v in r.chempots.items()) if isinstance(r, OpenComputedReaction) else None,
                       sorted(rs.dev(r.data or {}).items()) if data else None)) for r in rxns)


def diff(a, b):
    a, b = list(a), list(b)
    for x in list(a):
        if x in b:
            a.remove(x)
            b.remove(x)
    return f"only in the first: {a[:4]} only in the second: {b[:4]} ({len(a)}/{len(b)})"


def same(ctx, key, got, want, how=""):
    ctx.check(got == want, key, lambda: f"{how}: {diff(got, want) if isinstance(got, list) and isinstance(want, list) else (got, want)}")


def els_of(formulas):
    return {str(e) for f in formulas for e in Composition(f).elements}


def metadata(ctx, how, doc, chemsys, targets, name):
    same(ctx, "label", doc.task_label, name, how)
    if targets:
        added = chemsys - els_of(targets)
        same(ctx, "added-elements", sorted(map(str, doc.added_elements)), sorted(added), how)
        same(ctx, "added-chemsys", doc.added_chemsys, "-".join(sorted(added)), how)


# ------------------------------------------------------------------ entries

class Remote:
    """the parts of the remote service which the job uses"""

    def __init__(self, entries):
        self.entries = entries

    def __call__(self, **kw):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    @property
    def summary(self):
        return types.SimpleNamespace(search=self.search)

    @property
    def materials(self):
        return types.SimpleNamespace(summary=self.summary)

    def variants(self, found, criteria):
        types_ = (criteria or {}).get("thermo_types")
        out = []
        for e in found:
            out.append(e)
            if types_ != ["GGA_GGA+U"]:  # the service would mix in other functionals
                o = e.copy()
                o._energy *= 1.3
                out.append(o)
        return [type(e).from_dict(e.as_dict()) for e in out]

    def get_entries_in_chemsys(self, elements, additional_criteria=None, **kw):
        els = elements.split("-") if isinstance(elements, str) else list(elements)
        return self.variants([e for e in self.entries if {str(x) for x in e.composition.elements} <= set(map(str, els))], additional_criteria)

    def search(self, exclude_elements=None, **kw):
        bad = set(map(str, exclude_elements or []))
        return [types.SimpleNamespace(material_id=e.entry_id) for e in self.entries if not ({str(x) for x in e.composition.elements} & bad)]

    def get_entries(self, ids, additional_criteria=None, **kw):
        ids = [ids] if isinstance(ids, str) else list(ids)
        return self.variants([e for e in self.entries if e.entry_id in ids], additional_criteria)


def entries_case(ctx):
    rng = ctx.rng
    sub = type(ctx)(rng, ctx.tier, ctx.index)  # c24's generator counts in its own context
    raw, els = c24.raw(rng, sub)
    many = rng.random() < 0.12
    if many:
        from pymatgen.core.periodic_table import Element

        more = [e.symbol for e in Element if e.Z <= 83 and e.symbol not in ("D", "T", "He", "Ne", "Ar", "Kr", "Xe")]
        extra = rng.sample([e for e in more if e not in els], rng.choice([25, 26, 27]) - len(els))
        raw += [c24.raw_entry(rng, {e: 1}, f"mp-{e}", rng.uniform(-9, -1)) for e in extra]
        els = els + extra
    other = rng.choice([e for e in gen.METALS if e not in els])
    foreign = [c24.raw_entry(rng, {other: 1}, "mp-x1", -3.0), c24.raw_entry(rng, {other: 1, els[0]: 2}, "mp-x2", -4.0)]
    served = raw + foreign
    rng.shuffle(served)
    custom = []
    if rng.random() < 0.3:
        ctx.count("entries_custom")
        d = gen.comp_dict(rng, els[:4], 1, 3)
        custom = [c24.raw_entry(rng, d, "mine", -rng.uniform(1, 9))]
    formulas = []
    if rng.random() < 0.5 and len(els) > 1:
        ctx.count("entries_requested")
        formulas = [gen.reduced(gen.comp_dict(rng, els[:5], 2, 3))] + ([rng.choice(raw).composition.reduced_formula] if rng.random() < 0.5 else [])
    kw = dict(temperature=rng.choice([300, 600, 900, 1234]), e_above_hull=rng.choice([0.0, 0.0, 0.02, 0.2]), include_nist_data=rng.random() < 0.7, include_freed_data=rng.random() < 0.2,
              filter_at_temperature=rng.choice([None, None, 300, 1000]), include_polymorphs=rng.random() < 0.4, formulas_to_include=formulas,
              calculate_e_above_hulls=rng.random() < 0.6, ignore_nist_solids=rng.random() < 0.6)
    name = rng.choice(["get_and_process_entries", "mine"])
    remote = many or rng.random() < 0.4
    maker = GetEntrySetMaker(name=name, custom_entries=[e.copy() for e in custom], entry_db_name=None if remote else "materials_db",
                             property_data=rng.choice([None, [], ["theoretical"], ["icsd_ids"]]), **{k: list(v) if isinstance(v, list) else v for k, v in kw.items()})
    chemsys = "-".join(rng.sample(els, len(els)))
    ctx.note(chemsys, kw, [gen.desc(e) for e in raw])
    ctx.count("entries_remote" if remote else "entries_db")
    ctx.count("entries_remote_many", len(els) > 25)
    db = MemoryStore("materials", key="task_id")
    db.connect()
    byid = {e.entry_id: e for e in served}
    db.update([dict(task_id=i, chemsys="-".join(sorted(str(x) for x in e.composition.elements)), elements=[str(x) for x in e.composition.elements], nelements=len(e.composition.elements),
                    entries={"GGA": json.loads(MontyEncoder().encode(e))}) for i, e in byid.items()])
    mods = {}
    try:
        if remote:
            for n in ("mp_api", "mp_api.client"):
                mods[n] = sys.modules.get(n)
                sys.modules[n] = types.ModuleType(n)
            sys.modules["mp_api"].client = sys.modules["mp_api.client"]
            sys.modules["mp_api.client"].MPRester = Remote(served)
        with World({"materials_db": db}) as w:
            docs = run_job(ctx, w, maker, chemsys)
    finally:
        for n, m in mods.items():
            sys.modules.pop(n, None)
            if m is not None:
                sys.modules[n] = m
    with quiet():
        want = process_entries([type(e).from_dict(e.as_dict()) for e in raw + custom], **kw)
    for how, d in docs:
        ctx.check(type(d.entries) is GibbsEntrySet, "entries-type", lambda: f"{how} {type(d.entries)}")
        same(ctx, "entries", ev(d.entries), ev(want), how)
        same(ctx, "entries-doc", (d.e_above_hull, d.include_polymorphs, sorted(d.formulas_to_include), d.task_label), (kw["e_above_hull"], kw["include_polymorphs"], sorted(formulas), name), how)
        ctx.count("reloaded", how == "stored")
    ctx.sig("entries", ev(raw), sorted(map(str, kw.items())))
    ctx.sample(dict(kind="entries", entries=len(want), served=len(served), settings={k: str(v) for k, v in kw.items()}))


# ------------------------------------------------------------------ enumeration

def entry_set(rng, els=None, **kw):
    kw.setdefault("n_comp", rng.randint(2, 5))
    ents, els, T = gen.system(rng, els=els, n_el=rng.choice([2, 3]), poly=rng.choice([0, 0.3]), nist=0.15, interp=0.1, **kw)
    E = GibbsEntrySet(ents)
    if rng.random() < 0.7:
        E.build_indices()
    return E, ents, els


def merged(sets):
    """distinct reactions of the enumerators, regardless of scale: {class: reaction}"""
    out = {}
    for s in sets:
        for r in s:
            out.setdefault(rs.scale_class(r), r)
    return out


def same_rxns(ctx, key, got, want, how, el=None, mu=None):
    """got: iterable of reactions, want: {class: reaction}"""
    got = list(got)
    g = {}
    for r in got:
        k = rs.scale_class(r)
        ctx.check(k not in g, key + "-repeated", lambda: f"{how}: {r}")
        g[k] = r
    ctx.check(set(g) == set(want), key, lambda: f"{how}: missing {[str(want[k]) for k in set(want) - set(g)][:4]}, extra {[str(g[k]) for k in set(g) - set(want)][:4]} of {len(want)}")
    a = sorted({one(e) for r in got for e in r.entries})
    b = sorted({one(e) for r in want.values() for e in r.entries})
    same(ctx, key + "-entries", a, b, how)
    for k, r in g.items():
        if el is None:
            ctx.check(not isinstance(r, OpenComputedReaction), key + "-closed", lambda: f"{how}: {r!r}")
        else:
            ctx.check(isinstance(r, OpenComputedReaction) and {str(x): float(v) for x, v in r.chempots.items()} == {el: mu}, key + "-open", lambda: f"{how}: {r} {getattr(r, 'chempots', None)}, expected {el} at {mu}")


def random_enumerators(rng, els, fs):
    kw, own = {}, {}
    if rng.random() < 0.4:
        kw["targets"] = rng.sample(fs, min(len(fs), rng.choice([1, 1, 2])))
    elif rng.random() < 0.4:  # each its own targets, or none
        own = {i: {"targets": rng.sample(fs, min(len(fs), rng.choice([1, 1, 2])))} for i in range(4) if rng.random() < 0.75}
    if rng.random() < 0.25:
        kw["precursors"] = rng.sample(fs, min(len(fs), 3)) + [gen.el_formula(els[0])]
        kw["exclusive_precursors"] = rng.random() < 0.5
    o, mu = rng.choice([e for e in els if e in gen.DIATOMIC] or els), rng.choice([0.0, -0.4, -1.0, round(rng.uniform(-2, 0), 3)])
    kinds = [lambda: BasicEnumerator(**kw, **own.get(0, {}), **({"n": 1} if rng.random() < 0.2 else {})), lambda: MinimizeGibbsEnumerator(**kw, **own.get(1, {})),
             lambda: BasicOpenEnumerator(open_phases=[gen.el_formula(o)], **kw, **own.get(2, {})), lambda: MinimizeGrandPotentialEnumerator(open_elem=gen.El(o), mu=mu, **kw, **own.get(3, {}))]
    n = rng.choice([1, 1, 2, 3])
    pick = sorted(rng.sample(range(4), n)) if rng.random() < 0.8 else rng.sample(range(4), n)
    # (a grand potential enumerator alone or first makes the whole set an open one)
    if 3 in pick and len(pick) > 1:
        pick = [i for i in pick if i != 3] + [3]
    out = [kinds[i]() for i in pick]
    return out, kw, pick, (o, mu)


def enumeration_case(ctx):
    rng = ctx.rng
    E, ents, els = entry_set(rng, n_comp=rng.randint(2, 4))
    fs = sorted({e.composition.reduced_formula for e in ents if not e.is_element})
    if not fs:
        return
    enums, kw, pick, (o, mu) = random_enumerators(rng, els, fs)
    ctx.note([gen.desc(e) for e in ents], kw, pick, o, mu)
    ctx.count("enumeration")
    ctx.count("enumeration_open", 3 in pick)
    ctx.count("several_enumerators", len(enums) > 1)
    name = rng.choice(["enumerate_reactions", "other"])
    maker = ReactionEnumerationMaker(name=name)
    cpy = [type(e).from_dict(e.as_dict()) for e in enums]
    with quiet():
        schedule(ctx)
        E2 = GibbsEntrySet([copy.deepcopy(e) for e in ents])
        want = merged([e.enumerate(E2) for e in cpy])
    with World() as w:
        docs = run_job(ctx, w, maker, enums, E)
    chem = {str(x) for e in ents for x in e.composition.elements}
    T = sorted({t for e in cpy for t in e.targets})
    ctx.count("different_targets", len({tuple(sorted(e.targets)) for e in cpy}) > 1)
    if "targets" in kw:
        ctx.count("enumeration_targets")
        same(ctx, "enumerator-targets", T, sorted(map(gen_reduced, set(kw["targets"]))))
    openset = pick[0] == 3
    for how, d in docs:
        same_rxns(ctx, "reactions", d.rxns, want, how, o if openset else None, mu)
        ctx.check(not want or (str(d.rxns.open_elem) if d.rxns.open_elem else None) == (o if openset else None), "rxns-open", lambda: f"{how} {d.rxns.open_elem}")
        same(ctx, "targets", sorted(d.targets or []), T, how)
        same(ctx, "chemsys", d.chemsys, "-".join(sorted(chem)), how)
        same(ctx, "elements", sorted(map(str, d.elements)), sorted(chem), how)
        same(ctx, "enumerators", [MontyEncoder(sort_keys=True).encode(e) for e in d.enumerators], [MontyEncoder(sort_keys=True).encode(e) for e in cpy], how)
        metadata(ctx, how, d, chem, T, name)
        ctx.count("reloaded", how == "stored")
    same(ctx, "stored-reactions", rv(docs[-1][1].rxns), rv(docs[0][1].rxns))
    ctx.sig("enum", sorted(map(gen.desc, ents)), sorted(kw.items()), pick, o, mu, [sorted(e.targets) for e in cpy])
    ctx.sample(dict(kind="enumeration", enumerators=[type(e).__name__ for e in enums], reactions=len(want), targets=T))


def gen_reduced(f):
    return Composition(f).reduced_formula


# ------------------------------------------------------------------ networks

def path_view(p):
    return tuple(tuple(map(sorted, net.sides(r))) for r in p.reactions), tuple(round(float(c), 8) for c in p.costs)


def same_paths(ctx, key, got, want, how):
    """lists of paths per target in cost order; ties at the end may be cut differently"""
    got, want = list(got), list(want)
    ctx.check(len(got) == len(want), key + "-number", lambda: f"{how}: {len(got)} paths, {len(want)} expected")
    a, b = [sum(map(float, p.costs)) for p in got], [sum(map(float, p.costs)) for p in want]
    ctx.check(len(a) == len(b) and all(abs(x - y) < 1e-7 for x, y in zip(a, b)), key + "-costs", lambda: f"{how}: {a} vs {b}")
    last = max(b, default=0.0)
    clear = lambda P: sorted(str(path_view(p)) for p in P if sum(map(float, p.costs)) < last - 1e-7)
    if len(set(round(x, 6) for x in b)) == len(b):
        same(ctx, key, clear(got), clear(want), how)


def graph_view(g, cf):
    nodes, edges = net.observed(g)
    key = {i: (g.get_node_data(i).description.name, net.fuid(g.get_node_data(i).entries)) for i in g.node_indices()}
    w = sorted((key[a][0], sorted(key[a][1]), key[b][0], sorted(key[b][1]), round(float(get_edge_weight(o, cf)), 7)) for a, b, o in g.weighted_edge_list())
    return nodes, edges, w


def low(ents, f):
    """lowest-energy entry of a formula"""
    c = [e for e in ents if e.composition.reduced_formula == f]
    return min(c, key=lambda e: e.energy_per_atom)


def unique(rxns):
    out = {}
    for r in rxns:
        out.setdefault(rs.scale_class(r), r)
    return list(out.values())


def reference_network(rxns, cf, precursors, targets, k, el, mu):
    S = ReactionSet.from_rxns(unique(rxns), open_elem=el, chempot=mu)
    rn = ReactionNetwork(S, cost_function=cf)
    rn.build()
    paths = None
    if precursors:
        rn.set_precursors(precursors)
    if targets:
        rn.set_target(targets[0])
    if k and targets:
        paths = [list(rn.find_pathways([t], k=k)) for t in targets]
    return rn, paths


def split_paths(doc, n):
    """the paths of a document, target by target"""
    P = [] if doc.paths is None else list(doc.paths)
    return P


def check_network(ctx, how, d, rxns, cf, pre, targets, k, el, mu, name, n_sets=1):
    with quiet():
        rn, paths = reference_network(rxns, cf, pre, targets, k, el, mu)
    want = {rs.scale_class(r): r for r in unique(rxns)}
    same_rxns(ctx, "network-reactions", d.network.rxns, want, how, el, mu)
    used = {one(e) for r in want.values() for e in r.entries}
    have = {one(e) for e in d.network.rxns.entries}
    ctx.check(used <= have, "network-entries", lambda: f"{how}: {used - have}")
    ctx.check(MontyEncoder(sort_keys=True).encode(d.network.cost_function) == MontyEncoder(sort_keys=True).encode(cf), "cost-function", lambda: f"{how} {d.network.cost_function}")
    lw = lambda f: gen.uid(low(list(rn.entries), f))
    pn = {lw(f) for f in pre} if pre else None
    last = (targets[-1] if k else targets[0]) if targets else None
    tn = lw(last) if last else None
    ctx.check((pn or set()) == {gen.uid(e) for e in d.network.precursors or []}, "network-precursors", lambda: f"{how}: {d.network.precursors} vs {pn}")
    ctx.check(tn == (gen.uid(d.network.target) if d.network.target else None), "network-target", lambda: f"{how}: {d.network.target} vs {tn}")
    a, b = graph_view(d.network.graph, cf), graph_view(rn.graph, cf)
    nodes, edges = net.model(list(rn.rxns), pn, tn)
    ctx.check(a[0] == b[0] and set(a[0]) == nodes, "nodes", lambda: f"{how}: {set(a[0]) ^ nodes}")
    if a[1] != b[1]:  # the same reaction may be kept at another scale
        strip = lambda E: sorted(str((x[0], sorted(x[1]), y[0], sorted(y[1]), o if isinstance(o, str) else "rxn")) for (x, y, o), n in E.items() for _ in range(n))
        same(ctx, "edges", strip(a[1]), strip(b[1]), how)
    else:
        ctx.check(True, "edges", "")
    same(ctx, "edge-costs", a[2], b[2], how)
    if paths is None:
        ctx.check(d.paths is None, "no-paths", lambda: f"{how}: {d.paths}")
    else:
        got = list(d.paths) if d.paths is not None else []
        ctx.check(len(got) == sum(map(len, paths)), "paths-number", lambda: f"{how}: {len(got)} vs {[len(p) for p in paths]} for {targets} k={k}")
        i = 0
        for t, p in zip(targets, paths):
            same_paths(ctx, "paths", got[i : i + len(p)], p, f"{how}, to {t}")
            i += len(p)
        ctx.count("network_paths", i)
    same(ctx, "network-doc", (d.k, d.precursors, d.targets, d.task_label), (k, pre, targets, name), how)
    return rn, paths


def network_case(ctx):
    rng = ctx.rng
    is_open = rng.random() < 0.4
    ents, rxns = net.random_reactions(rng, n_groups=rng.randint(3, 8), n_rxns=rng.randint(3, 16), open_case=is_open)
    rxns = unique(rxns)
    if len(rxns) < 2:
        return
    el, mu = ("O", rng.choice([0.0, -0.5, round(rng.uniform(-2, 0), 3)])) if is_open else (None, 0.0)
    cf = net.cost_function(rng)
    parts = [[] for _ in range(rng.choice([1, 2, 3]))]
    for r in rxns:
        for p in rng.sample(parts, 1 if rng.random() < 0.85 else len(parts)):
            p.append(r)
    parts = [p for p in parts if p]
    sets = []
    for p in parts:
        rng.shuffle(p)
        s_el, s_mu = (el, mu) if rng.random() < 0.5 else (el, -3.3) if el and rng.random() < 0.5 else (None, 0.0)
        q = [OpenComputedReaction(r.entries, r.coefficients, {gen.El(s_el): s_mu}, data=r.data) for r in p] if s_el else p
        sets.append(ReactionSet.from_rxns(q, entries=ents if rng.random() < 0.5 else None, open_elem=s_el, chempot=s_mu))
    used = [e for e in {gen.uid(e): e for r in rxns for e in r.entries}.values()]
    fs = sorted({e.composition.reduced_formula for e in used})
    pre = rng.sample(fs, min(len(fs), rng.choice([1, 2, 3]))) if rng.random() < 0.8 else None
    left = [f for f in fs if f not in (pre or [])]
    targets = rng.sample(left, min(len(left), rng.choice([1, 1, 2, 3]))) if left and rng.random() < 0.85 else None
    k = rng.choice([1, 2, 5, 10, None])
    if not pre:
        k = None  # no precursors, no paths
    name = rng.choice(["build_and_analyze_network", "other"])
    maker = NetworkMaker(name=name, cost_function=cf, precursors=pre, targets=targets, calculate_pathways=k, open_elem=gen.El(el) if el and rng.random() < 0.5 else el, chempot=mu)
    ctx.note([str(r) for r in rxns], pre, targets, k, el, mu)
    ctx.count("network")
    ctx.count("network_open", is_open)
    ctx.count("several_sets", len(sets) > 1)
    ctx.count("several_targets", bool(targets) and len(targets) > 1)
    views = [rv(s) for s in sets]
    with World() as w:
        docs = run_job(ctx, w, maker, sets)
    for how, d in docs:
        check_network(ctx, how, d, rxns, cf, pre, targets, k, el, mu, name)
        ctx.count("reloaded", how == "stored")
    ctx.check(views == [rv(s) for s in sets], "sets-changed", "")
    ctx.sig("network", sorted(map(str, map(rs.scale_class, rxns))), pre, targets, k, el, mu)
    ctx.sample(dict(kind="network", reactions=len(rxns), precursors=pre, targets=targets, k=k, open=el))


# ------------------------------------------------------------------ solving

def balanced_view(paths):
    out = []
    for p in paths:
        c = [(str(rs.scale_class(r)), oracle.snap(float(m) * abs(min((gen.uid(e), float(c)) for e, c in zip(r.entries, r.coefficients))[1])), oracle.snap(x)) for r, m, x in zip(p.reactions, p.coefficients, p.costs)]
        out.append(str(sorted(c)))
    return sorted(out)


def solve_problem(rng, E, ents, els, is_open):
    """precursors and targets with a balanced net reaction"""
    fs = sorted({e.composition.reduced_formula for e in ents})
    comp = [f for f in fs if len(Composition(f).elements) > 1]
    for _ in range(30):
        t = rng.sample(comp, min(len(comp), rng.choice([1, 1, 2])))
        p = [gen.el_formula(e) for e in els] if rng.random() < 0.5 else rng.sample([f for f in fs if f not in t], min(3, len(fs) - len(t)))
        if set(p) & set(t) or not p:
            continue
        with quiet():
            b = BasicReaction.balance([Composition(f) for f in p], [Composition(f) for f in t])
        if b.balanced and b.lowest_num_errors == 0 and all(abs(c) > 1e-6 for c in b.coefficients):
            return p, t
    return None


def reference_solution(net_pre, net_tgt, P, E, cf, el, mu, kw):
    lowest = [low(list(E), f) for f in net_pre], [low(list(E), f) for f in net_tgt]
    if el:
        nr = OpenComputedReaction.balance(*lowest, {gen.El(el): mu})
    else:
        nr = ComputedReaction.balance(*lowest)
    ps = PathwaySolver(P, E, cf, open_elem=el, chempot=mu)
    return nr, ps.solve(net_rxn=nr, **kw)


def check_solution(ctx, how, d, pre, tgt, P, E, cf, el, mu, kw, name):
    with quiet():
        schedule(ctx)
        nr, want = reference_solution(pre, tgt, P, E, cf, el, mu, kw)
    same(ctx, "balanced-paths", balanced_view(d.balanced_paths), balanced_view(want), how)
    avg = [float(p.average_cost) for p in d.balanced_paths]
    ctx.check(all(a <= b + 1e-8 for a, b in itertools.pairwise(avg)), "balanced-order", lambda: f"{how} {avg}")
    ctx.check(rs.scale_class(d.net_rxn) == rs.scale_class(nr) and abs(d.net_rxn.energy_per_atom - nr.energy_per_atom) < 1e-9 and isinstance(d.net_rxn, OpenComputedReaction) == bool(el), "net-reaction", lambda: f"{how}: {d.net_rxn} vs {nr}")
    ctx.check([path_view(p) for p in d.solver.pathways] == [path_view(p) for p in P], "solver-pathways", how)
    same(ctx, "solver-entries", ev(d.solver.entries), ev(E), how)
    same(ctx, "solver-doc", (d.precursors, d.targets, d.task_label, *(getattr(d, k) for k in kw)), (pre, tgt, name, *kw.values()), how)
    ctx.count("solver_paths", len(avg))
    ctx.count("reloaded", how == "stored")


def solver_settings(rng):
    return dict(max_num_combos=rng.choice([1, 2, 2, 3]), find_intermediate_rxns=rng.random() < 0.6, intermediate_rxn_energy_cutoff=rng.choice([0.0, 0.0, -0.2, 1.0]),
                use_basic_enumerator=rng.random() < 0.7, use_minimize_enumerator=rng.random() < 0.4, filter_interdependent=rng.random() < 0.6)


def solver_case(ctx):
    rng = ctx.rng
    is_open = rng.random() < 0.35
    els = gen.elements(rng, rng.choice([2, 3]))
    if is_open and "O" not in els:
        els[0] = "O"
    E, ents, els = entry_set(rng, els=els, n_comp=rng.randint(2, 4))
    el, mu = ("O", rng.choice([0.0, -0.5, -1.0])) if is_open else (None, 0.0)
    pt = solve_problem(rng, E, ents, els, is_open)
    if pt is None:
        ctx.count("no_problem")
        return
    pre, tgt = pt
    if is_open and all(els_of([f]) == {"O"} for f in tgt):
        return
    cf = net.cost_function(rng) if rng.random() < 0 else Softplus(temp=rng.choice([300, 900]))
    with quiet():
        schedule(ctx)
        rx = list(unique(BasicEnumerator().enumerate(E)))
        if is_open:
            rx = [r for r in rx if any(els_of([c.reduced_formula]) != {"O"} for c in r.products)]
        have = {e.composition.reduced_formula for r in rx for e in r.entries}
        if not set(pre + tgt) <= have:
            ctx.count("no_problem")
            return
        rn, paths = reference_network(rx, cf, pre, tgt, rng.choice([1, 3]), el, mu)
        from rxn_network.pathways.pathway_set import PathwaySet

        paths = [p for q in paths for p in q]
        if not paths:
            ctx.count("no_problem")
            return
        P = PathwaySet.from_paths(paths)
    kw = solver_settings(rng)
    name = rng.choice(["solve pathways", "other"])
    maker = PathwaySolverMaker(name=name, cost_function=cf, precursors=pre, targets=tgt, open_elem=el, chempot=mu, **kw)
    ctx.note([gen.desc(e) for e in ents], pre, tgt, kw, el, mu, [str(p) for p in paths])
    ctx.count("solver")
    ctx.count("solver_open", is_open)
    S = E if rng.random() < 0.5 else rn.entries
    with World() as w:
        docs = run_job(ctx, w, maker, P, S)
    for how, d in docs:
        check_solution(ctx, how, d, pre, tgt, P, S, cf, el, mu, kw, name)
    ctx.sig("solver", sorted(map(gen.desc, ents)), pre, tgt, sorted(kw.items()), el, mu)
    ctx.sample(dict(kind="solver", pre=pre, targets=tgt, settings=kw, returned=len(docs[0][1].balanced_paths)))


# ------------------------------------------------------------------ competition documents

def competition_case(ctx):
    rng = ctx.rng
    E, ents, els = entry_set(rng, n_comp=rng.randint(2, 4))
    with quiet():
        schedule(ctx)
        rx = BasicEnumerator(n=rng.choice([1, 2, 2])).enumerate(E)
    t = sorted({c.reduced_formula for r in rx for c in r.products})
    if not t:
        return
    t = rng.choice(t)
    el, mu = (None, 0.0) if rng.random() < 0.5 else (rng.choice([e for e in els if e in gen.DIATOMIC] or els), rng.choice([0.0, -0.7]))
    if el and els_of([t]) == {el}:
        return
    calc = rng.random() < 0.8
    name = rng.choice(["calculate_competition", "other"])
    maker = CalculateCompetitionMaker(name=name, open_elem=el, chempot=mu, calculate_competition=calc, chunk_size=rng.choice([1, 7, 100]))
    f = Composition({e: 2 * a for e, a in Composition(t).get_el_amt_dict().items()}).formula.replace(" ", "")
    sets = [rx]
    if rng.random() < 0.5:
        ctx.count("competition_sets")
        parts = [[] for _ in range(rng.choice([2, 3, 4, 5, 7]))]
        for r in rx:
            rng.choice(parts).append(r)
        sets = [ReactionSet.from_rxns(p, entries=rx.entries) for p in parts if p]
    ctx.note([gen.desc(e) for e in ents], t, el, mu, len(sets))
    ctx.count("competition")
    with World() as w:
        docs = run_job(ctx, w, maker, sets, E, rng.choice([t, f]))
        if len(sets) > 1:  # the same as with everything in one set
            with quiet():
                schedule(ctx)
                whole = type(maker).make.original(maker, [rx], E, t)
            same(ctx, "competition-sets", rv(docs[0][1].rxns), rv(whole.rxns), f"{len(sets)} sets")
    chem = {str(x) for e in ents for x in e.composition.elements}
    want = {rs.scale_class(r) for r in rx if t in {c.reduced_formula for c in r.products}}
    for how, d in docs:
        ctx.check({rs.scale_class(r) for r in d.rxns} == want, "target-reactions", how)
        ctx.check(all(("primary_competition" in r.data) == calc for r in d.rxns), "competition-data", how)
        ctx.check(all(isinstance(r, OpenComputedReaction) == bool(el) and (not el or r.chempots == {gen.El(el): mu}) for r in d.rxns), "competition-open", how)
        same(ctx, "competition-doc", (d.target_formula, str(d.open_elem) if d.open_elem else None, d.chempot, d.calculate_competition), (t, el, mu, calc), how)
        metadata(ctx, how, d, chem, [t], name)
        ctx.count("reloaded", how == "stored")
    same(ctx, "stored-competition", rv(docs[-1][1].rxns), rv(docs[0][1].rxns))
    ctx.sig("competition", sorted(map(gen.desc, ents)), t, el, mu)


# ------------------------------------------------------------------ flows

def flow_case(ctx):
    rng = ctx.rng
    is_open = rng.random() < 0.55
    with_entries = rng.random() < 0.7
    els = gen.elements(rng, rng.choice([2, 3]))
    el = None
    if is_open:
        el = rng.choice(["O", "O", "N", "Cl"])
        if el not in els:
            els[0] = el
    raw, kwE, maker0, db = None, None, GetEntrySetMaker(), None
    extra = {}
    if with_entries:
        E, ents, els = entry_set(rng, els=els, n_comp=rng.randint(2, 4))
    else:
        ctx.count("flow_entries")
        raw = [c24.raw_entry(rng, {e: 2 if e in gen.DIATOMIC else 1}, f"mp-{e}", rng.uniform(-9, -2)) for e in els]
        seen = set()
        for i in range(rng.randint(2, 4)):
            d = gen.comp_dict(rng, els, 2, 3, 3)
            if gen.reduced(d) in seen or len(d) < 2:
                continue
            seen.add(gen.reduced(d))
            tot = sum(d.values())
            ref = {str(e.composition.elements[0]): e.energy_per_atom for e in raw if len(e.composition.elements) == 1}
            raw.append(c24.raw_entry(rng, d, f"mp-c{i}", sum(n * ref[e] for e, n in d.items()) / tot - rng.uniform(0.8, 2.5)))
        kwE = dict(temperature=rng.choice([300, 600, 900]), e_above_hull=rng.choice([0.0, 0.05, 0.5]), include_nist_data=rng.random() < 0.4, calculate_e_above_hulls=rng.random() < 0.5)
        asked = [raw[-1].composition.reduced_formula] if rng.random() < 0.4 else []
        maker0 = GetEntrySetMaker(entry_db_name="materials_db", formulas_to_include=asked, **kwE)
        db = MemoryStore("materials", key="task_id")
        db.connect()
        served = raw + [c24.raw_entry(rng, {"Xe": 1, els[0]: 2}, "mp-x2", -4.0)]
        db.update([dict(task_id=e.entry_id, chemsys="-".join(sorted(str(x) for x in e.composition.elements)), elements=[str(x) for x in e.composition.elements], nelements=len(e.composition.elements),
                        entries={"GGA": json.loads(MontyEncoder().encode(e))}) for e in served])
        extra = {"materials_db": db}
        ents = raw
    pt = solve_problem(rng, None, ents, els, is_open)
    if pt is None:
        ctx.count("no_problem")
        return
    pre, tgt = pt
    if not with_entries and els_of(pre + tgt) != set(els):
        ctx.count("no_problem")  # the flow asks for the elements of precursors and targets
        return
    if not with_entries:
        with quiet():
            E = process_entries([type(e).from_dict(e.as_dict()) for e in raw], formulas_to_include=sorted({*asked, *pre, *tgt}), **kwE)
    mus = rng.sample([0.0, -0.3, -0.8, -1.5], rng.choice([1, 1, 2])) if is_open else None
    cf = Softplus(temp=rng.choice([300, 900]))
    k = rng.choice([1, 2, 4])
    solve = rng.random() < 0.6
    kw = solver_settings(rng)
    bkw = rng.choice([{}, {}, {"n": 1}, {"targets": list(tgt)}, {"precursors": list(pre)}])
    mkw = rng.choice([{}, {}, {"targets": list(tgt)}, {"precursors": list(pre), "exclusive_precursors": False}])
    basic, mini = rng.choice([(True, True), (True, True), (True, False), (False, True)])
    # the reference, from library calls
    with quiet():
        schedule(ctx)
        base = []
        if basic:
            base.append(BasicEnumerator(**bkw))
            if el:
                base.append(BasicOpenEnumerator(open_phases=[gen.el_formula(el)], **bkw))
        if mini:
            base.append(MinimizeGibbsEnumerator(**mkw))
        base_rx = merged([e.enumerate(E) for e in base])
        stages = [(None, 0.0, base_rx, base_rx)]
        for mu in mus or []:
            if mini:
                g = merged([MinimizeGrandPotentialEnumerator(open_elem=gen.El(el), mu=mu, **mkw).enumerate(E)])
                stages.append((el, mu, g, {**g, **base_rx}))
    lows = {f for r in base_rx.values() for e in r.entries for f in [e.composition.reduced_formula] if gen.uid(e)}
    usable = set(pre + tgt) <= lows
    if not usable:
        pre_net, tgt_net, solve = None, None, False
    else:
        pre_net, tgt_net = pre, tgt
    if any(all(els_of([c.reduced_formula]) == {o} for c in r.products) or all(els_of([c.reduced_formula]) == {o} for c in r.reactants) for o, _, _, S in stages[1:] for r in S.values()):
        ctx.count("open_only_side")
    maker = NetworkFlowMaker(get_entry_set_maker=maker0, network_maker=NetworkMaker(cost_function=cf, precursors=pre_net, targets=tgt_net, calculate_pathways=k),
                             solver_maker=PathwaySolverMaker(cost_function=cf, precursors=pre, targets=tgt, **kw) if solve else None,
                             open_elem=el, chempots=mus, use_basic_enumerators=basic, use_minimize_enumerators=mini, basic_enumerator_kwargs=dict(bkw), minimize_enumerator_kwargs=dict(mkw))
    if not usable:
        maker.network_maker.calculate_pathways = None
        k = None
    ctx.note([gen.desc(e) for e in ents], pre, tgt, el, mus, bkw, mkw, basic, mini, kw if solve else None, kwE)
    ctx.count("flow")
    ctx.count("flow_open", len(stages) > 1)
    ctx.count("flow_solver", solve)
    before = settings(maker)
    schedule(ctx)
    failed = None
    with World(extra) as w:
        with quiet():
            flow = maker.make(pre, tgt, entries=E) if with_entries else maker.make(pre, tgt)
            if rng.random() < 0.5:
                ctx.count("serialised")
                flow = through_json(flow)
            try:
                out = run_locally(flow, store=w.store, ensure_success=True, log=False)
            except RuntimeError as e:
                failed = e
        ctx.check(settings(maker) == before, "maker-changed", lambda: f"{before} {maker}")
        ctx.check(failed is None, "flow-failed", lambda: f"{failed}")
        if failed:
            return
        docs = []
        for j in flow.jobs:
            docs.append((out[j.uuid][1].output, stored(w, j.uuid)))
    kinds = [type(a).__name__ for a, _ in docs]
    per = ["EnumeratorTaskDocument", "NetworkTaskDocument"] + (["PathwaySolverTaskDocument"] if solve else [])
    expect = ([] if with_entries else ["EntrySetDocument"]) + per * len(stages)
    same(ctx, "flow-jobs", kinds, expect)
    if kinds != expect:
        return
    it = iter(docs)
    if not with_entries:
        for how, d in zip(("returned", "stored"), next(it)):
            same(ctx, "flow-entries", ev(d.entries), ev(E), how)
            ctx.check({*asked, *pre, *tgt} <= set(d.formulas_to_include), "flow-requested", lambda: f"{d.formulas_to_include}")
    chem = {str(x) for e in E for x in e.composition.elements}
    for o, mu, new, allr in stages:
        for how, d in zip(("returned", "stored"), next(it)):
            same_rxns(ctx, "flow-reactions", d.rxns, new, f"{how} {o} {mu}", o, mu)
            same(ctx, "flow-chemsys", d.chemsys, "-".join(sorted(chem)), how)
            kwt = [b.get("targets", []) for b, use in ((bkw, basic and not o), (mkw, mini)) if use]
            same(ctx, "flow-targets", sorted(d.targets or []), sorted({gen_reduced(t) for q in kwt for t in q}), how)
        P = None
        for how, d in zip(("returned", "stored"), next(it)):
            rn, paths = check_network(ctx, f"flow {how} {o} {mu}", d, list(allr.values()), cf, pre_net, tgt_net, k, o, mu, d.task_label)
            if how == "stored":
                P = d
        ctx.count("flow_paths", bool(paths) and sum(map(len, paths)))
        if solve:
            for how, d in zip(("returned", "stored"), next(it)):
                if P.paths is None or not len(P.paths):
                    ctx.count("flow_no_paths")
                    ctx.check(len(d.balanced_paths) == 0, "flow-no-paths", how)
                    continue
                check_solution(ctx, f"flow {how} {o} {mu}", d, pre, tgt, P.paths, rn.entries, cf, o, mu, kw, d.task_label)
    ctx.sig("flow", sorted(map(gen.desc, ents)), pre, tgt, el, mus, bkw, mkw, basic, mini, solve)
    ctx.sample(dict(kind="flow", pre=pre, targets=tgt, open=el, chempots=mus, jobs=len(docs), solver=solve, reactions=len(base_rx)))


def case(ctx):
    x = ctx.rng.random()
    if x < 0.2:
        entries_case(ctx)
    elif x < 0.42:
        enumeration_case(ctx)
    elif x < 0.62:
        network_case(ctx)
    elif x < 0.76:
        solver_case(ctx)
    elif x < 0.82:
        competition_case(ctx)
    else:
        flow_case(ctx)
