"""C26: figures, filtered tables and pathway-evolution analyses show exactly the data."""
import contextlib
import copy
import io
import json
import logging
import warnings
from collections import Counter

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from monty.json import MontyDecoder, MontyEncoder
from pymatgen.analysis.chempot_diagram import plotly_layouts

from checks import c16, c24
from rnv import gen, net, oracle, rs
from rxn_network.core import Composition
from rxn_network.costs.functions import Softplus
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.network.network import ReactionNetwork
from rxn_network.network.visualize import plot_network
from rxn_network.pathways.plotting import PathwayPlotter
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.plotting import filter_df_by_precursors, plot_reaction_scatter
from rxn_network.reactions.reaction_set import ReactionSet

ID = "C26"
RAY = "none"
CASES = {"quick": 1500, "thorough": 30000}
CHUNK = 4
RULE = ("random reaction tables (ties, repeated rows, repeated row labels after concatenation), metrics, colours and 2-3 dimensions; random hulls; random networks; random phase evolutions over temperature "
        "with unreduced formulas, smoothing and reload; distinct by data and options")
TECHNIQUE = ("runtime monitoring: the marks in each figure object produced by the real code (positions, labels, traces, colours) and each derived table are compared with values recomputed from the inputs; "
             "inputs and shared styles are compared before and after")
NEED = ["oracle_decisions", "scatter_2d", "scatter_3d", "scatter_front", "scatter_plain", "scatter_colour", "scatter_labels", "scatter_ties", "filter", "filter_some", "hull", "hull_lines", "network", "evolution", "evolution_smooth",
        "evolution_cascade", "evolution_cycle", "evolution_unreduced", "evolution_reloaded", "again"]
ASSUMPTIONS = ["precursors are given by reduced formula", "phases of an evolution are among the entries"]


@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        logging.disable(logging.NOTSET)


def front(P):
    return [not any(all(a <= b for a, b in zip(q, p)) and q != p for q in P) for p in P]


def pts(trace, dims):
    xs = [[float(v) for v in (getattr(trace, a) if getattr(trace, a) is not None else [])] for a in "xyz"[:dims]]
    lab = list(trace.hovertext) if trace.hovertext is not None else [None] * len(xs[0])
    return list(zip(*xs, map(str, lab)))


def scatter(ctx):
    rng = ctx.rng
    rows = rng.choice([1, 2, 5, 12, 30])
    grid = rng.random() < 0.5
    names = ["energy", "primary_competition", "secondary_competition", "dE", "chempot_distance", "mine"]
    df = pd.DataFrame({n: [float(rng.randint(-3, 3)) if grid else round(rng.uniform(-1, 1), 6) for _ in range(rows)] for n in names})
    df.insert(0, "rxn", [f"A{i} + B -> C" for i in range(rows)])
    if rng.random() < 0.4:
        df["added_elems"] = [rng.choice(["", "O", "C-O"]) for _ in range(rows)]
    if rng.random() < 0.3:
        ents, els, T = gen.system(rng, n_comp=6)
        rx = [r for r in (rs.random_rxn(rng, ents) for _ in range(rows)) if r is not None]
        if len(rx) == rows:
            df["rxn"] = pd.Series(rx, dtype=object)
    if rng.random() < 0.35 and rows > 1:  # two tables put together keep their row labels
        ctx.count("scatter_labels")
        k = rng.randint(1, rows - 1)
        df = pd.concat([df.iloc[:k].reset_index(drop=True), df.iloc[k:].reset_index(drop=True)])
    elif rng.random() < 0.3:
        df.index = rng.sample(range(1000), rows)
    dims = rng.choice([2, 2, 3])
    ax = rng.sample(names, dims)
    colour = None
    if rng.random() < 0.4:
        ctx.count("scatter_colour")
        colour = rng.choice(["has_added_elems", "added_elems"] if "added_elems" in df else ["dE"])
    show = rng.random() < 0.7
    ctx.note(ax, colour, show, df.index.tolist(), df[ax].to_numpy().tolist())
    before, style = df.copy(deep=True), copy.deepcopy(plotly_layouts)
    first = None
    for rep in range(2 if rng.random() < 0.25 else 1):
        ctx.count("again", rep)
        with quiet():
            fig = plot_reaction_scatter(df, ax[0], ax[1], ax[2] if dims == 3 else None, color=colour, plot_pareto=show)
        ctx.count(f"scatter_{dims}d")
        data = [(*map(float, v), str(r)) for v, r in zip(df[ax].to_numpy().tolist(), df["rxn"])]
        best = front([d[:dims] for d in data]) if show else [False] * len(data)
        got_f = [p for t in fig.data if t.name == "Pareto front" for p in pts(t, dims)]
        got_o = [p for t in fig.data if t.name != "Pareto front" for p in pts(t, dims)]
        ctx.count("scatter_front" if show else "scatter_plain")
        ctx.count("scatter_ties", len({d[:dims] for d in data}) < len(data))
        ctx.check(sum(t.name == "Pareto front" for t in fig.data) == int(show), "front-trace", lambda: f"{[t.name for t in fig.data]}")
        ctx.check(Counter(got_f) == Counter(d for d, b in zip(data, best) if b), "front-points", lambda: f"{got_f} vs {[d for d, b in zip(data, best) if b]}")
        want = Counter(d for d, b in zip(data, best) if not b)
        ctx.check(Counter(got_o) == want, "points", lambda: f"missing {list((want - Counter(got_o)).elements())[:5]} extra {list((Counter(got_o) - want).elements())[:5]} of {len(data)}")
        for t in fig.data:
            h = t.hovertemplate or ""
            ctx.check("hovertext" in h and all(a in h and "%{" + c in h for a, c in zip(ax, "xyz")), "hover", h)
        view = [(t.name, pts(t, dims)) for t in fig.data]
        ctx.check(first is None or first == view, "again-same", "")
        first = view
    ctx.check(df.equals(before) and list(df.columns) == list(before.columns), "table-changed", lambda: f"{list(df.columns)}")
    ctx.check(plotly_layouts == style, "shared-style-changed", "the plotting styles shared with other figures were modified")
    ctx.sig("scatter", data, ax, show, colour)
    ctx.sample(dict(kind="scatter", rows=len(data), axes=ax, front=sum(best)))


def filtering(ctx):
    rng = ctx.rng
    ents, els, T = gen.system(rng, n_el=rng.choice([2, 3]), n_comp=rng.randint(3, 7))
    rx = [r for r in (rs.random_rxn(rng, ents, balanced=rng.random() < 0.5) for _ in range(rng.randint(1, 14))) if r is not None]
    if not rx:
        return
    with quiet():
        if rng.random() < 0.6:
            df = ReactionSet.from_rxns(rx).to_dataframe(Softplus())
        else:
            df = pd.DataFrame({"rxn": rx, "energy": [r.energy_per_atom for r in rx]})
            if rng.random() < 0.3:
                df.index = [rng.randint(0, 3) for _ in rx]
    before = df.copy()
    fs = sorted({c.reduced_formula for r in rx for c in r.reactants})
    some = rng.sample(fs, rng.randint(0, len(fs))) + rng.choice([[], ["Xe"], [e + "2" for e in els]])
    ctx.count("filter")
    ctx.note(some, [str(r) for r in rx])
    with quiet():
        got = filter_df_by_precursors(df, some)
    keep = [i for i, r in enumerate(df["rxn"]) if {c.reduced_formula for c in r.reactants} <= set(some)]
    ctx.count("filter_some", 0 < len(keep) < len(df))
    ctx.check([id(r) for r in got["rxn"]] == [id(df["rxn"].iloc[i]) for i in keep], "filter-rows", lambda: f"{some}: {[str(r) for r in got['rxn']]} vs {[str(df['rxn'].iloc[i]) for i in keep]}")
    ctx.check(list(got.columns) == list(df.columns) and got.drop(columns="rxn").equals(df.iloc[keep].drop(columns="rxn")), "filter-columns", lambda: f"{list(got.columns)}")
    ctx.check(list(df.columns) == list(before.columns) and len(df) == len(before), "filter-changed", "")
    ctx.sig("filter", sorted(some), [str(r) for r in rx])


def hull(ctx):
    rng = ctx.rng
    sub = type(ctx)(rng, ctx.tier, ctx.index)
    s = c16.synthetic(rng, sub)
    if s is None:
        return
    c1, c2, rx = s[0], s[1], s[2]
    if not rx or all(abs(float(r.energy_per_atom)) < 1e-9 for r in rx):
        return
    with quiet():
        h = InterfaceReactionHull(c1, c2, rx)
        fig = h.plot(y_max=rng.choice([0.2, 1.0]))
    ctx.count("hull")
    data = sorted([(round(c16.coordinate(r, c1, c2), 9), round(float(r.energy_per_atom), 9), str(r)) for r in rx])
    sc = [t for t in fig.data if t.mode == "markers"]
    li = [t for t in fig.data if t.mode == "lines"]
    ctx.check(len(sc) == 1 and len(li) + 1 == len(fig.data), "hull-traces", lambda: f"{[t.mode for t in fig.data]}")
    got = sorted((round(float(x), 9), round(float(y), 9), str(l)) for x, y, l in pts(sc[0], 2))
    ends = [g for g in got if g not in data]
    left = Counter(got) - Counter(data)
    ctx.check(not (Counter(data) - Counter(got)), "hull-points", lambda: f"missing {list((Counter(data) - Counter(got)).elements())[:4]}; {got[:4]}")
    ctx.check(sorted((x, y) for x, y, _ in left.elements()) == [(0.0, 0.0), (1.0, 0.0)], "hull-ends", lambda: f"{left}")
    env = c16.envelope([(x, y) for x, y, _ in data] + [(0.0, 0.0), (1.0, 0.0)])
    # what the lines must cover: the envelope below zero
    segs = [sorted((float(x), float(y)) for x, y in zip(t.x, t.y)) for t in li]
    for a, b in segs:
        ok = abs(a[0] - b[0]) < 1e-9 or all(abs(c16.at(env, p[0]) - p[1]) < 1e-7 for p in (a, b, ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)))
        ctx.check(ok, "hull-line", lambda: f"{a}-{b} is not on the envelope {env}")
    for p, q in zip(env, env[1:]):
        if min(p[1], q[1]) > -1e-9 or q[0] - p[0] < 1e-6:
            continue
        ctx.count("hull_lines")
        for f in (0.1, 0.5, 0.9):
            x = p[0] + f * (q[0] - p[0])
            ctx.check(any(a[0] - 1e-9 <= x <= b[0] + 1e-9 and b[0] - a[0] > 1e-12 for a, b in segs), "hull-gap", lambda: f"no line over {x} of {env}: {segs}")
    ctx.sig("hull", [d[:2] for d in data])


def network(ctx):
    rng = ctx.rng
    ents, rxns = net.random_reactions(rng, n_groups=rng.randint(2, 5), n_rxns=rng.randint(2, 8))
    if not rxns:
        return
    with quiet():
        rn = ReactionNetwork(ReactionSet.from_rxns(rxns), Softplus())
        rn.build()
        before = net.observed(rn.graph)
        fig = plot_network(rn.graph, rng.choice(["jet", "viridis"]))
    ctx.count("network")
    g = rn.graph
    coll = [c for a in fig.axes for c in a.collections if type(c).__name__ == "PathCollection"]
    n = sum(len(c.get_offsets()) for c in coll)
    ctx.check(n == g.num_nodes(), "network-nodes", lambda: f"{n} marks for {g.num_nodes()} nodes")
    if len(coll) == 1:
        col = [tuple(np.round(c, 6)) for c in coll[0].get_facecolors()]
        chem = [e.chemsys for e in g.nodes()]
        ctx.check(len(col) == len(chem), "network-colours", f"{len(col)} {len(chem)}")
        ctx.check(len(set(zip(col, chem))) == len(set(chem)), "network-colour-of", lambda: f"{Counter(zip(col, chem))}")
    ctx.check(net.observed(rn.graph) == before, "network-changed", "")
    plt.close("all")
    ctx.sig("network", [str(r) for r in rxns])


def median3(col):
    """median of each value and its neighbours, the first and last value repeated at the ends"""
    c = list(map(float, col))
    p = [c[0], *c, c[-1]]
    return [sorted(p[i : i + 3])[1] for i in range(len(c))]


def evolution(ctx):
    rng = ctx.rng
    els = gen.elements(rng, rng.choice([2, 3]))
    ref = {e: rng.uniform(-9, -2) for e in els}
    raw = [c24.raw_entry(rng, {e: 2 if e in gen.DIATOMIC else 1}, f"mp-{e}", ref[e]) for e in els]
    fs = []
    for i in range(rng.randint(2, 5)):
        d = gen.comp_dict(rng, els, 2, 3, 3)
        f = gen.reduced(d)
        if len(d) < 2 or f in fs:
            continue
        fs.append(f)
        tot = sum(d.values())
        raw.append(c24.raw_entry(rng, d, f"mp-{f}", sum(n * ref[e] for e, n in d.items()) / tot + rng.uniform(-2.5, -0.2)))
    phases = rng.sample(fs, rng.randint(1, len(fs))) + (rng.sample([gen.el_formula(e) for e in els], 1) if rng.random() < 0.5 else [])
    if rng.random() < 0.3:
        ctx.count("evolution_unreduced")
        j = rng.randrange(len(phases))
        m = rng.choice([2, 3])
        phases[j] = "".join(f"{e}{int(a) * m}" for e, a in Composition(phases[j]).get_el_amt_dict().items())
    n = rng.choice([3, 4, 8])
    t0 = rng.choice([300, 500, 800])
    temps = [t0 + rng.choice([20, 55]) * i for i in range(n)] if rng.random() < 0.8 else rng.sample(range(300, 1900, 50), n)
    if rng.random() < 0.25:  # heating and cooling
        ctx.count("evolution_cycle")
        up = sorted(temps)[: (n + 1) // 2]
        temps = up + up[::-1][n % 2 :]
    elif len(set(temps)) < n:
        return
    amounts = {p: [rng.choice([0.0, 1.0, 0.5, round(rng.uniform(0, 2), 3)]) for _ in temps] for p in phases}
    for i in range(n):
        amounts[phases[0]][i] = amounts[phases[0]][i] or 0.25  # never nothing at all
    smooth = rng.random() < 0.5
    ctx.note(amounts, temps, smooth)
    keep = copy.deepcopy((amounts, temps))
    p = PathwayPlotter(amounts, temps, apply_smoothing=smooth)
    if rng.random() < 0.4:
        ctx.count("evolution_reloaded")
        p = json.loads(json.dumps(p, cls=MontyEncoder), cls=MontyDecoder)
    want = {f: median3(a) if smooth else list(map(float, a)) for f, a in amounts.items()}
    ctx.count("evolution")
    ctx.count("evolution_smooth", smooth)
    ctx.check(list(p.df.index) == temps and set(p.df.columns) == set(phases) and set(p.formulas) == set(phases), "evolution-axes", lambda: f"{p.df}")
    for f in phases:
        ctx.check(np.allclose(p.df[f].to_numpy(float), want[f], atol=1e-12), "evolution-amounts", lambda: f"{f}: {list(p.df[f])} vs {want[f]}")
    num = {e: [sum(want[f][i] * Composition(f).get_el_amt_dict().get(e, 0) for f in phases) for i in range(n)] for e in {str(x) for f in phases for x in Composition(f).elements}}
    ctx.check({str(e) for e in p.elems} == set(num) == set(map(str, p.num_atoms_df.columns)), "evolution-elements", lambda: f"{p.elems}")
    for e in num:
        ctx.check(np.allclose(p.num_atoms_df[e].to_numpy(float), num[e], atol=1e-9), "evolution-atoms", lambda: f"{e}: {list(p.num_atoms_df[e])} vs {num[e]}")
    for i, (T, c) in enumerate(p.compositions.items()):
        tot = sum(num[e][i] for e in num)
        ctx.check(T == temps[i] and all(abs(c[e] - num[e][i] / tot) < 1e-7 for e in num), "evolution-composition", lambda: f"{T}: {c}")
    plt.close("all")
    with quiet():
        ax = p.plot_pathway()
    lines = {l.get_label(): (list(map(float, l.get_xdata())), list(map(float, l.get_ydata()))) for l in ax.get_lines()}
    ctx.check(set(lines) == set(phases), "evolution-lines", lambda: f"{set(lines)}")
    order = lambda xs, ys: sorted(zip(map(float, xs), map(float, ys)))
    for f in phases:
        ctx.check(np.allclose(order(*lines[f]), order(temps, want[f])), "evolution-line", lambda: f"{f} {lines[f]}")
    plt.close("all")
    if rng.random() < 0.7:
        ctx.count("evolution_cascade")
        before = json.dumps([e.as_dict() for e in raw], cls=MontyEncoder, sort_keys=True)
        with quiet():
            ax = p.plot_energy_cascade(raw)
        xs, ys = map(list, (ax.get_lines()[-1].get_xdata(), ax.get_lines()[-1].get_ydata()))
        plt.close("all")
        ctx.check(before == json.dumps([e.as_dict() for e in raw], cls=MontyEncoder, sort_keys=True), "evolution-entries-changed", "")
        got = list(zip(map(float, xs), map(float, ys)))
        ctx.check(sorted(x for x, _ in got) == sorted(map(float, temps)), "cascade-temperatures", lambda: f"{xs}")
        for i, T in enumerate(temps):
            with quiet():
                E = list(GibbsEntrySet.from_computed_entries(raw, T))
            tot = sum(num[e][i] for e in num)
            g = sum(want[f][i] * Composition(f).num_atoms * min(e.energy_per_atom for e in E if e.composition.reduced_formula == Composition(f).reduced_formula) for f in phases) / tot
            low = oracle.hull_energy({e: num[e][i] for e in num if num[e][i] > 0}, E)
            at = [j for j, (x, y) in enumerate(got) if x == T and abs(y - (g - low)) < 1e-6]
            ctx.check(bool(at), "cascade", lambda: f"{T}: plotted {[y for x, y in got if x == T]}, expected {g} - {low} = {g - low}")
            if at:
                del got[at[0]]
    ctx.check(keep == (amounts, temps), "evolution-input-changed", "")
    ctx.sig("evolution", sorted(amounts.items()), temps, smooth)
    ctx.sample(dict(kind="evolution", phases=phases, temperatures=n, smooth=smooth))


def case(ctx):
    x = ctx.rng.random()
    if x < 0.4:
        scatter(ctx)
    elif x < 0.52:
        filtering(ctx)
    elif x < 0.66:
        hull(ctx)
    elif x < 0.74:
        network(ctx)
    else:
        evolution(ctx)
