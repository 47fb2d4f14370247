"""C23: reading entries and reactions back from databases."""
import datetime
import itertools
import logging
import re

import numpy as np
from jobflow import SETTINGS, JobStore
from maggma.stores import MemoryStore
from monty.json import jsanitize
from pymatgen.core.structure import Lattice, Structure
from pymatgen.entries.computed_entries import ComputedStructureEntry

from rnv import gen, rs
from rxn_network.core import Composition
from rxn_network.entries import utils
from rxn_network.jobs.schema import CompetitionTaskDocument
from rxn_network.reactions.reaction_set import ReactionSet
from rxn_network.utils.database import get_rxns_from_db

ID = "C23"
RAY = "none"
CASES = {"quick": 2000, "thorough": 25000}
CHUNK = 5
CASE_SECONDS = {"quick": 120, "thorough": 300}
RULE = ("random document stores (materials with GGA, GGA+U, both, other or no records; inside, across and outside the requested chemical system; 1-20 elements, in particular around the 13-element change of "
        "query and around the chunks of 1000 sub-systems), asked by chemical system, by criteria dictionary and by criteria string; job stores with several competition documents; "
        "distinct by (documents, request)")
TECHNIQUE = ("runtime monitoring: the real retrieval code runs against in-memory stores whose documents the monitor generated; each answer is compared with a scan over all stored documents, "
             "as a multiset of records")
NEED = ["oracle_decisions", "up_to_13", "exactly_13", "exactly_14", "more_than_14", "both_records", "only_u", "only_gga", "no_record", "outside", "chunk_boundary", "unsorted", "as_string", "criteria", "criteria_string",
        "wildcard", "legacy", "rxns", "rxns_open", "rxns_latest", "rxns_fw_id", "rxns_missing", "empty_answer"]
ASSUMPTIONS = ["the in-memory store (mongomock) evaluates the queries like MongoDB does", "legacy retrieval (get_entries): materials with both records may come from either"]
logging.disable(logging.WARNING)


def record(rng, d, eid, run_type):
    sites = [el for el, n in d.items() for _ in range(n)]
    s = Structure(Lattice.cubic(5.0), sites, [[round(rng.random(), 3) for _ in range(3)] for _ in sites])
    return ComputedStructureEntry(s, round(rng.uniform(-8, -1) * len(sites), 6), parameters={"run_type": run_type}, data={"mark": f"{eid}/{run_type}"}, entry_id=eid)


def material(rng, i, els, ctx):
    d = {e: rng.randint(1, 2) for e in els}
    eid = f"mp-{i}"
    ents, kind = {}, rng.random()
    u, g = record(rng, d, eid, "GGA+U").as_dict(), record(rng, d, eid, "GGA").as_dict()
    if kind < 0.35:
        ents = {"GGA": g, "GGA+U": u}
        if rng.random() < 0.5:
            ents = {"GGA+U": u, "GGA": g}
        want = f"{eid}/GGA+U"
        ctx.count("both_records")
    elif kind < 0.55:
        ents, want = {"GGA+U": u}, f"{eid}/GGA+U"
        if rng.random() < 0.5:
            ents["GGA"] = rng.choice([None, {}])
        ctx.count("only_u")
    elif kind < 0.85:
        ents, want = {"GGA": g}, f"{eid}/GGA"
        if rng.random() < 0.5:
            ents["GGA+U"] = rng.choice([None, {}])
        ctx.count("only_gga")
    else:
        ents, want = rng.choice([{}, None, {"R2SCAN": g}]), None
        ctx.count("no_record")
    lst = list(d)
    rng.shuffle(lst)
    c = Composition(d)
    return dict(task_id=eid, chemsys="-".join(sorted(d)), elements=lst, nelements=len(lst), pretty_formula=c.reduced_formula, entries=ents, deprecated=False, tag=rng.choice("abc")), want, d


ALL = None


def all_elements():
    global ALL
    if ALL is None:
        from pymatgen.core.periodic_table import Element

        ALL = sorted(e.symbol for e in Element if e.Z <= 83 and e.symbol not in ("D", "T", "He", "Ne", "Ar", "Kr", "Xe"))
    return ALL


def store_with(docs):
    st = MemoryStore("materials", key="task_id")
    st.connect()
    if docs:
        st.update([dict(d) for d in docs])
    return st


def marks(ctx, ents, legacy=False):
    out = []
    for e in ents:
        ctx.check(type(e) is ComputedStructureEntry, "type", lambda: repr(e))
        m = str(e.data.get("mark", "?"))
        out.append(m.split("/")[0] if legacy else m)
        el = e.composition
        ctx.check(m.split("/")[0] == e.entry_id and (legacy or e.parameters.get("run_type") == m.split("/")[1]), "record", lambda: f"{m} {e.entry_id} {e.parameters}")
    return sorted(out)


def entries_case(ctx):
    rng = ctx.rng
    x = rng.random()
    n = rng.choice([1, 2, 3, 4, 5, 6]) if x < 0.5 else rng.choice([10, 11, 12, 13]) if x < 0.7 else 14 if x < 0.8 else rng.choice([15, 17, 20, 26])
    pool = all_elements()
    sysm = rng.sample(pool, n)
    ctx.count("up_to_13" if n <= 13 else "more_than_14" if n > 14 else "exactly_14")
    if n == 13:
        ctx.count("exactly_13")
    outside = [e for e in pool if e not in sysm]
    groups = []
    for _ in range(rng.randint(3, 25)):
        y = rng.random()
        k = min(n, rng.choice([1, 1, 2, 2, 3, 3, 4, n, n - 1 or 1, rng.randint(1, n)]))
        if y < 0.65:
            groups.append(rng.sample(sysm, k))
        elif y < 0.9:
            groups.append(rng.sample(sysm, min(n, rng.choice([1, 2, k]))) + rng.sample(outside, rng.choice([1, 1, 2])))
        else:
            groups.append(rng.sample(outside, rng.choice([1, 2, 3])))
    if 10 <= n <= 13:  # sub-systems around the chunks of 1000 in which they are asked for
        subs = [els for i in range(n) for els in itertools.combinations(sysm, i + 1)]
        for b in range(1000, len(subs), 1000):
            for j in (b - 1, b, rng.randrange(b - 1000, b)):
                groups.append(list(subs[j]))
        groups += [list(subs[0]), list(subs[-1])]
        ctx.count("chunk_boundary", len(subs) > 1000)
    docs, wants = [], {}
    for i, g in enumerate(groups):
        doc, want, d = material(rng, i, g, ctx)
        docs.append(doc)
        wants[doc["task_id"]] = want
    rng.shuffle(docs)
    snap = repr(docs)
    st = store_with(docs)
    inside = [d for d in docs if set(d["elements"]) <= set(sysm)]
    ctx.count("outside", len(docs) - len(inside))
    req = list(sysm)
    if req != sorted(req):
        ctx.count("unsorted")
    arg = req
    if rng.random() < 0.4:
        ctx.count("as_string")
        arg = "-".join(req)
    ctx.note("request", arg, "documents", [(d["task_id"], d["chemsys"], wants[d["task_id"]]) for d in docs])
    ctx.sig(sorted((d["chemsys"], str(wants[d["task_id"]]).split("/")[-1]) for d in docs), sorted(sysm))
    keep = list(req)
    for rep in range(2 if rng.random() < 0.2 else 1):
        got = marks(ctx, utils.get_all_entries_in_chemsys_from_entry_db(st, arg))
        want = sorted(wants[d["task_id"]] for d in inside if wants[d["task_id"]])
        ctx.check(got == want, "chemsys", lambda: f"missing {[w for w in want if w not in got]} extra/repeated {[g for g in got if g not in want or got.count(g) > 1]} of {len(want)} for {arg}")
        ctx.count("empty_answer", not want)
        ctx.count("records", len(got))
    ctx.check(req == keep, "request-changed", lambda: f"{keep} became {req}")
    # criteria given by the caller
    for _ in range(rng.choice([1, 2])):
        crit, f = rng.choice([
            ({"tag": "a"}, lambda d: d["tag"] == "a"),
            ({"chemsys": docs[0]["chemsys"]}, lambda d: d["chemsys"] == docs[0]["chemsys"]),
            ({"nelements": {"$lte": 2}, "tag": {"$in": ["a", "b"]}}, lambda d: d["nelements"] <= 2 and d["tag"] in "ab"),
            ({"$or": [{"tag": "c"}, {"task_id": docs[-1]["task_id"]}]}, lambda d: d["tag"] == "c" or d["task_id"] == docs[-1]["task_id"]),
            ({}, lambda d: True)])
        ctx.count("criteria")
        got = marks(ctx, utils.get_entries_from_entry_db(st, dict(crit)))
        want = sorted(wants[d["task_id"]] for d in docs if f(d) and wants[d["task_id"]])
        ctx.check(got == want, "criteria", lambda: f"{crit}: {got} vs {want}")
    # criteria strings
    toks, fs = [], []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t, f = token(ctx, rng, docs, sysm)
        if t:
            toks.append(t)
            fs.append(f)
    if toks:
        ctx.count("criteria_string")
        s = rng.choice([" ", "  "]).join(toks)
        ctx.note("string", s)
        got = marks(ctx, utils.get_entries_from_entry_db(st, s))
        want = sorted(wants[d["task_id"]] for d in docs if any(f(d) for f in fs) and wants[d["task_id"]])
        ctx.check(got == want, "criteria-string", lambda: f"{s}: {got} vs {want}")
    if rng.random() < 0.3 and n <= 20:
        ctx.count("legacy")
        docs2 = [d for d in docs if d["entries"] and (d["entries"].get("GGA") or d["entries"].get("GGA+U"))]
        st2 = store_with(docs2)
        got = marks(ctx, utils.get_all_entries_in_chemsys(st2, arg, compatible_only=False, use_premade_entries=True, n=rng.choice([1, 3, 1000])), True)
        want = sorted(d["task_id"] for d in docs2 if set(d["elements"]) <= set(sysm))
        ctx.check(got == want, "legacy", lambda: f"{got} vs {want}")


def token(ctx, rng, docs, sysm):
    """a token of the documented search language and what it must match"""
    d = rng.choice(docs)
    x = rng.random()
    if x < 0.3:
        return d["task_id"], lambda q: q["task_id"] == d["task_id"]
    if x < 0.5 and len(d["elements"]) > 1:
        els = list(d["elements"])
        rng.shuffle(els)
        if len(els) <= 4 and rng.random() < 0.5:
            ctx.count("wildcard")
            y = rng.random()
            if y < 0.5 or len(els) < 3:
                rest = set(els[1:])
                return "-".join(["*"] + els[1:]), lambda q: len(q["elements"]) == len(els) and rest <= set(q["elements"])
            alt = {els[0], rng.choice(all_elements())}
            rest = set(els[1:])
            return "-".join(["{" + ",".join(sorted(alt)) + "}"] + els[1:]), lambda q: len(q["elements"]) == len(els) and rest <= set(q["elements"]) and bool((set(q["elements"]) - rest) <= alt)
        return "-".join(els), lambda q: set(q["elements"]) == set(els)
    if x < 0.8:
        f = d["pretty_formula"]
        return f, lambda q: q["pretty_formula"] == f
    if len(d["elements"]) == 2:
        ctx.count("wildcard")
        a = Composition(d["pretty_formula"]).get_el_amt_dict()
        (e1, n1), (e2, n2) = a.items()
        t = f"*{int(n1)}{e2}{int(n2)}"

        def f(q):
            b = Composition(q["pretty_formula"]).get_el_amt_dict()
            if len(b) != 2 or e2 not in b:
                return False
            other = next(e for e in b if e != e2)
            return b == Composition({other: n1, e2: n2}).reduced_composition.get_el_amt_dict()

        return t, f
    return None, None


def rxns_case(ctx):
    rng = ctx.rng
    ents, els, T = gen.system(rng, n_comp=rng.randint(4, 7), poly=0.2, nist=0.1)
    targets = sorted({e.composition.reduced_formula for e in ents if not e.is_element})[:3]
    job = MemoryStore("jobs", key="uuid")
    blob = MemoryStore("rxns", key="blob_uuid")
    store = JobStore(job, additional_stores={"rxns": blob})
    store.connect()
    old = SETTINGS.JOB_STORE
    model = []
    now = datetime.datetime(2024, 1, 1)
    ctx.count("rxns")
    stamps = rng.sample(range(10000), 12)
    for i in range(rng.randint(1, 6)):
        rx = [r for r in (rs.random_rxn(rng, ents, balanced=True, data={"m": rng.randint(0, 9)}) for _ in range(rng.randint(1, 5))) if r is not None]
        if not rx:
            return
        open_el, mu = (None, 0.0) if rng.random() < 0.4 else (rng.choice(["O", els[0]]), rng.choice([0.0, -0.5, -1.0, round(rng.uniform(-3, 0), 3)]))
        s = ReactionSet.from_rxns(rx, entries=ents, open_elem=open_el, chempot=mu)
        t = rng.choice(targets)
        doc = CompetitionTaskDocument(rxns=s, target_formula=t, open_elem=gen.El(open_el) if open_el else None, chempot=mu, added_elements=[gen.El(els[0])], added_chemsys=els[0])
        when = (now + datetime.timedelta(seconds=stamps[i])).isoformat()
        fw = rng.choice([None, 1, 2, i + 10])
        d = dict(uuid=f"u{i}", index=1, output=jsanitize(doc, strict=True, enum_values=True), completed_at=when, metadata={} if fw is None else {"fw_id": fw}, hosts=[], name="calculate_competition")
        store.update([d], save={"rxns": ["rxns"]} if rng.random() < 0.7 else None)
        model.append((t, open_el, mu, fw, when, s))
        if rng.random() < 0.2:  # unrelated output
            store.update([dict(uuid=f"x{i}", index=1, output={"target_formula": t}, completed_at=(now + datetime.timedelta(days=1)).isoformat(), metadata={}, hosts=[], name="other")])
    ctx.note([m[:5] for m in model])
    SETTINGS.JOB_STORE = store
    try:
        for _ in range(4):
            t, o, mu, fw, *_ = rng.choice(model)
            if rng.random() < 0.15:
                t, mu = rng.choice(targets), rng.choice([mu, -7.5])
            use_fw = fw if rng.random() < 0.5 else None
            f = rng.choice([t, Composition(t).formula.replace(" ", ""), Composition({e: 2 * a for e, a in Composition(t).get_el_amt_dict().items()}).formula])
            hits = [m for m in model if m[0] == t and m[1] == o and m[2] == mu and (use_fw is None or m[3] == use_fw)]
            ctx.sig("rxns", t, o, mu, use_fw, len(hits), len(model))
            if not hits:
                ctx.count("rxns_missing")
                try:
                    get_rxns_from_db(f, o, mu, use_fw)
                    ctx.fail("found-other", f"{f} {o} {mu} {use_fw} is not stored: {[m[:5] for m in model]}")
                except ValueError:
                    pass
                continue
            want = max(hits, key=lambda m: m[4])[5]
            ctx.count("rxns_latest", len(hits) > 1)
            ctx.count("rxns_open", o is not None)
            ctx.count("rxns_fw_id", use_fw is not None)
            try:
                got = get_rxns_from_db(f, o, mu, use_fw)
            except ValueError as e:
                ctx.fail("not-found", f"{f} open {o} mu {mu} fw {use_fw}: {e}")
                continue
            a, b = sorted(str(rs.rxn_view(r)) for r in got), sorted(str(rs.rxn_view(r)) for r in want)
            ctx.check(a == b, "stored-reactions", lambda: f"{a} vs {b}")
            ctx.check((str(got.open_elem) if got.open_elem else None) == o and (o is None or got.chempot == mu), "stored-open", lambda: f"{got.open_elem} {got.chempot} vs {o} {mu}")
    finally:
        SETTINGS.JOB_STORE = old


def case(ctx):
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        if ctx.rng.random() < 0.72:
            entries_case(ctx)
        else:
            rxns_case(ctx)
