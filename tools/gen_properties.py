"""Source of /verif/properties.jsonl (run me to regenerate)."""
import json, os
R = "src/rxn_network/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[R + f for f in files],
            state=[dict(name=a, meaning=b, where=R + c) for a, b, c in state],
            mechanism=[dict(name=a, where=R + b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Balanced reactions conserve every element; balancing never lies",
  "A reaction flagged as balanced has equal amounts of every element on both sides, and the flag given to a reaction built from explicit coefficients is exactly whether that holds. When balancing reports zero errors, every supplied reactant and product takes part on its own side with a non-zero coefficient of the right sign; whenever the phases determine the reaction uniquely up to scale (or not at all), zero errors are reported if and only if such a balanced reaction exists.",
  ["inputs"], "all finite lists of reactant and product compositions, in any order, and all coefficient vectors",
  "A dozen fixed reactions are asserted; nothing compares the numerical null-space search with exact arithmetic over arbitrary stoichiometries.",
  ["reactions/basic.py", "reactions/computed.py"],
  [("constraint search with pseudo-inverse", "reactions/basic.py:BasicReaction._balance_coeffs"), ("balanced flag", "reactions/basic.py:BasicReaction.__init__")],
  observe=["BasicReaction.balance / from_formulas", "BasicReaction(...).balanced"])

p("C02", "Reaction algebra: reversing, scaling, copying, equality and fractions agree",
  "Reversing a reaction swaps its sides and negates its energy (twice gives back an equal reaction); normalising to a phase or element rescales all coefficients by one positive factor so that the requested amount results, leaving energy per atom, atomic and molar fractions unchanged, and the atomic and molar fractions of each side of a balanced reaction add up to one. Two reactions compare equal exactly when each phase has the same coefficient in both (and, for reactions with energies, equal energy per atom); equal reactions hash equally. Printing a reaction and parsing the text gives the same phases on the same sides with the printed coefficients.",
  ["inputs"], "all reactions, with or without energies, open or closed, and all normalisation targets and factors",
  "Existing tests check these on one or two hand-written reactions (e.g. one iron oxidation), never for reactions whose coefficient multisets coincide or that differ by rounding noise.",
  ["reactions/basic.py", "reactions/computed.py", "reactions/open.py"],
  [("normalize/reverse/copy", "reactions/basic.py"), ("__eq__/__hash__", "reactions/basic.py"), ("fractions", "reactions/open.py"), ("parser/printer", "reactions/basic.py:from_string,_str_from_formulas")],
  observe=["public methods of the reaction classes"])

p("C03", "Reaction energy equals products minus reactants, with propagated uncertainty",
  "For a reaction between computed entries of distinct compositions the energy is the coefficient-weighted sum of the entries' energies per reduced formula unit, energy per atom divides it by the atoms on the product side, and the uncertainty is the root of the summed squares of the coefficient-weighted entry correction uncertainties. None of this depends on the cell size in which an entry is written, or on the order in which phases are listed, and re-evaluating the reaction at another temperature gives exactly the energy obtained from entries built at that temperature while leaving the original reaction unchanged.",
  ["inputs", "histories"], "all sets of entries (computed, experimental, interpolated), cell multiplicities, orders, coefficients and temperature sequences",
  "Tests assert a handful of stored numbers for one or two reactions.",
  ["reactions/computed.py", "reactions/basic.py"],
  [("energy / energy_per_atom / energy_uncertainty", "reactions/computed.py"), ("get_new_temperature", "reactions/computed.py")],
  observe=["ComputedReaction.energy, energy_per_atom, energy_uncertainty, get_new_temperature"])

p("C04", "Open-system reaction energies are exact grand potential changes",
  "For a reaction open to an element at chemical potential mu, the energy is the change of grand potential: each phase contributes its energy minus mu times its content of the open element, except the pure open element itself, which keeps its own energy. Per-atom values and mixing fractions count only atoms of the closed elements, and the fractions of each side (over phases holding closed elements) sum to one. Changing mu, temperature, direction, scale or storage form gives the same result as building the reaction anew from its entries.",
  ["inputs", "configurations", "histories"], "all entries, open elements, chemical potentials (either sign) and conversions closed->open->stored->reloaded",
  "Tests pin one reaction at one chemical potential.",
  ["reactions/open.py", "reactions/reaction_set.py"],
  [("grand entries", "reactions/open.py:OpenComputedReaction.__init__"), ("energy/fractions", "reactions/open.py"), ("set_chempot", "reactions/reaction_set.py")],
  observe=["OpenComputedReaction public attributes", "ReactionSet.set_chempot"])

p("C05", "A reaction set gives back exactly the reactions put into it",
  "Iterating a reaction set built from a list of reactions yields exactly those reactions with multiplicity: the same entries with the same coefficients, energies and attached data, whatever mixture of sizes, polymorphs and temperatures, all closed or all open to one element, and its length is that number. Combining two sets yields both multisets; saving to a dictionary/JSON and reloading, or adding reactions, loses, duplicates and alters none; no operation changes the sets, reactions or entries it was given.",
  ["inputs", "histories"], "all multisets of reactions over any entry pool, and all sequences of combine/add/serialise operations",
  "Tests check one stored set of reactions, with one entry per composition and one size distribution.",
  ["reactions/reaction_set.py"],
  [("coefficient/index matrices grouped by size", "reactions/reaction_set.py:ReactionSet.from_rxns"), ("add_rxn_set", "reactions/reaction_set.py")],
  state=[("indices/coeffs/all_data", "parallel per-size arrays that must stay aligned", "reactions/reaction_set.py:ReactionSet.__init__")],
  observe=["ReactionSet.get_rxns, len, as_dict/from_dict, add_rxn_set, add_rxns"])

p("C06", "Reaction set look-ups return all and only the matching reactions",
  "Asking a reaction set for reactions from given reactants returns exactly the stored reactions all of whose reactants are among the given formulas, and asking for a product returns exactly the stored reactions forming that formula. Every polymorph of a formula counts, formulas may be written unreduced, unknown formulas give an empty result, and the set-valued form of the answer contains the same reactions as the list form.",
  ["inputs"], "all reaction sets (including several entries per composition and any position of the entry) and all queried formulas",
  "Tests query one formula each on one stored set.",
  ["reactions/reaction_set.py"],
  [("get_rxns_by_reactants / get_rxns_by_product", "reactions/reaction_set.py")],
  observe=["return values of both queries, list and return_set forms"])

p("C07", "Duplicate filtering keeps exactly one reaction per scaling class",
  "After filtering duplicates, every stored reaction has exactly one representative among reactions with the same phases that are positive multiples of one another, nothing that is not such a multiple is removed (reversed reactions and different polymorphs are kept), and survivors are unchanged. Reactions the caller insists on are always kept. The result does not depend on the order of the reactions or on whether, and on how many workers, it runs in parallel.",
  ["inputs", "schedules", "configurations"], "all reaction sets, ensured subsets, input orders, worker counts and completion orders",
  "One stored set is filtered once; no parallel/serial comparison and no ensured reactions in mixed groups.",
  ["reactions/reaction_set.py", "utils/ray.py"],
  [("filter_duplicates / _get_idxs_to_keep", "reactions/reaction_set.py")],
  observe=["ReactionSet.filter_duplicates return value"])

p("C08", "Re-computing reaction sets at temperatures equals reaction-by-reaction rebuild",
  "Changing a reaction set to a new temperature, singly or for a list of temperatures, yields the same reactions (same phases, polymorphs and coefficients, same count) whose energies are those of each original entry evaluated at that temperature, under the same open element and chemical potential. The original set is untouched, and the result for one temperature does not depend on which other temperatures were requested or visited before.",
  ["inputs", "histories"], "all reaction sets with computed and experimental entries, several polymorphs per composition, all temperature lists and sequences",
  "Tests recompute one stored set in which every composition has a single entry.",
  ["reactions/reaction_set.py", "reactions/computed.py", "reactions/open.py"],
  [("set_new_temperature / compute_at_temperatures", "reactions/reaction_set.py")],
  observe=["energies and entries of resulting reactions"])

p("C09", "Combinatorial enumeration finds all and only the allowed reactions",
  "Enumerating reactions over a set of entries with at most n phases per side returns exactly the balanced reactions, uniquely determined by their phases with every phase taking part, that exist between disjoint groups of phases, in both directions, with the coefficients fixed by element conservation. Precursor and target options (exclusive or not), restriction to a chemical system and open phases that may join either side select exactly the subset they describe.",
  ["inputs", "configurations"], "all entry sets (including polymorphs) and all combinations of enumerator options",
  "Tests compare counts of reactions for a few option sets on one fixed Mn-O-Y entry set against recorded numbers.",
  ["enumerators/basic.py", "enumerators/utils.py", "utils/funcs.py"],
  [("combos grouped by chemical system", "enumerators/basic.py:_get_combos_dict"), ("filters", "enumerators/basic.py:_react"), ("open combos", "enumerators/basic.py:BasicOpenEnumerator")],
  observe=["reactions of the ReactionSet returned by enumerate()"])

p("C10", "Minimisation enumerators return the thermodynamic products and only those",
  "Every reaction found by (grand-)potential minimisation between two phases forms products that together have the lowest Gibbs energy (or grand potential with an open element) attainable at their overall composition, is balanced, and consumes only the two reactants (and the open element). Conversely, for every permitted reactant pair, each breakpoint of the lower energy envelope strictly between the reactants is represented by a reaction, and so is the decomposition of every single unstable phase, as far as the option filters allow (with an open element: those that exchange it).",
  ["inputs", "configurations"], "all stabilised or unstable entry sets, reactant pairs, open elements and chemical potentials, and option combinations",
  "Tests compare counts on one fixed data set; none compares with an independent minimisation.",
  ["enumerators/minimize.py", "enumerators/utils.py", "enumerators/basic.py"],
  [("react_interface", "enumerators/utils.py"), ("_react_function", "enumerators/minimize.py")],
  observe=["reactions of the ReactionSet returned by enumerate()"])

p("C11", "Enumeration results do not depend on scheduling, chunking or worker failure",
  "For the same entries and options an enumeration returns the same multiset of reactions whatever the number of workers, chunk size, job limit, order in which parallel tasks finish and order in which entries are supplied, and also when a worker process dies and its task is retried. Running several enumerators together yields the union of their individual results without duplicates. The caller's entries are not modified.",
  ["schedules", "fault_sequences", "configurations", "inputs"], "all completion orders of parallel tasks, worker crashes between tasks, chunk sizes, job limits and orders of entries",
  "The test suite runs one Ray configuration with default chunks and whatever order happens.",
  ["enumerators/basic.py", "utils/ray.py", "utils/funcs.py", "enumerators/utils.py"],
  [("chunking", "enumerators/basic.py:enumerate"), ("gathering", "utils/ray.py:to_iterator"), ("run_enumerators", "enumerators/utils.py")],
  observe=["ReactionSet returned by enumerate() / run_enumerators()"])

p("C12", "Gibbs entries follow the published free-energy formula at every temperature",
  "For every computed entry the energy is the formation energy plus adjustments plus the SISSO free-energy correction minus the tabulated elemental chemical potentials at that temperature (linearly interpolated between tabulated ones), elements get no correction and temperatures outside 300-2000 K are refused. The energy per atom does not depend on the cell size; moving an entry to a temperature, by any sequence of intermediate temperatures, copies or save/reload steps, gives the entry created there directly, leaving the source unchanged; a copied or reloaded entry equals its source and has the same hash.",
  ["inputs", "histories"], "all compositions, volumes, formation energies, adjustments, and temperatures (integers or floats), and all sequences of temperature changes and serialisations",
  "Tests check stored energies of one structure at a few integer temperatures.",
  ["entries/gibbs.py", "entries/corrections.py", "data/__init__.py"],
  [("gibbs_adjustment, _g_delta_sisso, _sum_g_i, _reduced_mass", "entries/gibbs.py"), ("get_new_temperature/from_dict", "entries/gibbs.py")],
  observe=["GibbsComputedEntry.energy, energy_per_atom, correction, ==, hash"])

p("C13", "Experimental entries reproduce the tabulated data at every temperature",
  "An experimental reference entry has exactly the tabulated formation free energy of its formula at tabulated temperatures and the linear interpolation between them, scaled with the amount of substance; formulas or temperatures outside the tables are refused. Adjustments such as the atmospheric CO2 or stabilisation terms are added on top, follow the temperature if they depend on it and are kept otherwise when the entry changes temperature or is saved and reloaded; entries of equal substance and state are equal with equal hashes.",
  ["inputs", "histories"], "all formulas in the tables, all temperatures, cell multiplicities, adjustments and sequences of temperature changes and serialisations",
  "Tests read a few compounds at a few temperatures.",
  ["entries/experimental.py", "entries/nist.py", "entries/freed.py", "entries/corrections.py"],
  [("_get_energy/_validate_temperature", "entries/experimental.py"), ("get_new_temperature", "entries/experimental.py"), ("CarbonDioxideAtmosphericCorrection", "entries/corrections.py")],
  observe=["entry.energy, raised errors, ==, hash"])

p("C14", "An entry set behaves as a set: no answer is stale after any edit",
  "After any sequence of additions, removals and in-place set operations interleaved with queries, an entry set contains exactly the entries a plain set would, and each query (ground state by formula, sub-system, elements present, ordered list and index numbers, temperature, energy above hull) answers for the current contents, as a freshly built set with the same entries would. Subsets, copies and filtered sets are independent of their source, and saving and reloading gives back the same entries.",
  ["histories"], "all interleavings of edits and queries over any entry pool",
  "Tests add or remove one entry once; caches are only exercised in one order.",
  ["entries/entry_set.py"],
  [("_clear_cache", "entries/entry_set.py"), ("cached properties", "entries/entry_set.py")],
  state=[("entries", "the underlying set", "entries/entry_set.py:GibbsEntrySet.__init__"), ("pd_dict, entries_list, min_entries_by_formula, temperature, chemsys", "caches that must be dropped on edit", "entries/entry_set.py")],
  observe=["GibbsEntrySet public API"])

p("C15", "Stability analysis agrees with direct energy minimisation",
  "The energy above hull reported for any entry equals its energy per atom minus the minimum attainable by any mixture of the set's phases at its composition; the stability filter keeps exactly the entries within the cut-off (one ground state per formula unless polymorphs are requested). A stabilised entry has its energy lowered onto the hull by no more than the stated tolerance and is stable when put back, an already stable one is unchanged, and an interpolated entry lies at the hull energy minus the stated tolerance.",
  ["inputs"], "all entry sets, compositions, cut-offs and tolerances, from one-element to many-element systems that are split into smaller diagrams",
  "Tests count survivors of one data set at one or two cut-offs.",
  ["entries/entry_set.py", "thermo/utils.py", "entries/interpolated.py", "entries/utils.py"],
  [("filter_by_stability/get_stabilized_entry/get_interpolated_entry/get_e_above_hull", "entries/entry_set.py"), ("expand_pd", "thermo/utils.py")],
  observe=["returned entries and energies"])

p("C16", "Reaction hulls and competition scores match their definitions",
  "For reactions between two phases, the interface hull is the lower convex envelope of energy per atom against mixing fraction: hull energies, distance above hull, stable reactions and the reactions returned at a mixing fraction agree with it. Primary competition is the energy minus the lowest energy of any competing reaction at another fraction; secondary competition is minus the average, over all orders of forming intermediate hull phases, of the energy released on both sides, and is the same by the fast and the recursive method. All are independent of the order in which reactions are given and consistent when the two phases are swapped.",
  ["inputs"], "all sets of reactions between two phases with any energies and fractions, including ties",
  "Tests check recorded scores for a few stored reactions.",
  ["reactions/hull.py", "costs/calculators.py"],
  [("ConvexHull and lookups", "reactions/hull.py"), ("altitude multiplicities / Catalan counts", "reactions/hull.py")],
  observe=["InterfaceReactionHull public methods", "competition calculators"])

p("C17", "Selectivity jobs score every reaction as a direct calculation would",
  "The job that computes competition for many reactions returns each input reaction exactly once, together with the scores obtained by building the interface hull of that reaction's own precursors from all reactions given and scoring it directly, with chemical potential distances alike. Results do not depend on chunk sizes, batch sizes, memory limits, or the order in which tasks finish or reactions are supplied.",
  ["inputs", "schedules", "configurations"], "all reaction sets, targets, open elements, chunk/batch sizes and completion orders",
  "The job tests check one run on a stored set for the presence of columns.",
  ["jobs/core.py", "costs/calculators.py", "reactions/hull.py", "utils/ray.py"],
  [("CalculateCompetitionMaker", "jobs/core.py"), ("ray chunk tasks", "jobs/core.py")],
  observe=["the reaction set in the job's output document"])

p("C18", "Costs, Pareto fronts and reaction tables are exact",
  "A reaction's cost is the softplus-transformed weighted sum of its parameters at the given temperature: it is positive, never decreases when a parameter with positive weight increases, and is the same wherever it is computed (singly, for a set, in a table or on a graph edge). The table of reactions has one row per reaction, sorted by cost with the right values in every column; the Pareto front of a table is exactly its set of non-dominated rows. Decorating with calculated properties adds only those properties and changes no other reaction.",
  ["inputs"], "all reactions, parameters, weights, temperatures and tables, with ties and duplicates",
  "Tests check one cost value and one small front.",
  ["costs/functions.py", "costs/base.py", "costs/pareto.py", "reactions/reaction_set.py"],
  [("Softplus.evaluate", "costs/functions.py"), ("get_pareto_front", "costs/pareto.py"), ("to_dataframe", "reactions/reaction_set.py")],
  observe=["return values"])

p("C19", "The reaction network is a faithful graph of the reaction set",
  "A network built from reactions has one reactant and one product node per distinct side of a reaction and exactly one edge per reaction joining them, with that reaction and its cost; a phase group obtainable leads to every node it contains. Setting precursors and a target adds exactly the links those imply, and setting them again, in any order and number of times, gives the same network as setting only the final choice on a fresh build. Saving and reloading preserves nodes, edges, costs, precursors and target so that searches give the same answer.",
  ["inputs", "histories"], "all reaction sets, cost functions, precursor/target choices and sequences of (re)building, setting and reloading",
  "Tests check node and edge counts for one network and set precursors once.",
  ["network/network.py", "network/entry.py", "network/base.py"],
  [("get_rxn_nodes_and_edges/build", "network/network.py"), ("set_precursors/set_target", "network/network.py"), ("as_dict/from_dict", "network/network.py")],
  state=[("_g", "rustworkx graph with node payloads and (cost, reaction) edges", "network/network.py")],
  observe=["ReactionNetwork.graph, find_pathways"])

p("C20", "The k cheapest paths are exactly that: loopless, distinct, sorted, complete",
  "Searching for k pathways returns loopless, pairwise distinct routes that start at the precursors and end at the target along existing edges, in order of non-decreasing total cost, and their costs are the k lowest among all such routes (fewer only if fewer exist). The search leaves the network unchanged, so that repeating it gives the same answer.",
  ["inputs", "histories"], "all networks (with parallel reactions, cycles, ties and unreachable targets), all k, and repeated searches",
  "Tests compare a few stored paths on one network.",
  ["network/network.py"],
  [("yens_ksp", "network/network.py"), ("find_pathways", "network/network.py")],
  observe=["find_pathways results and their costs"])

p("C21", "Solved pathways balance to the net reaction; all short solutions are found",
  "Every pathway returned by the solver consists of distinct reactions taken with positive multiplicities whose sum is exactly the requested net reaction, and every combination of at most the allowed number of supplied reactions that sums to it with positive, uniquely determined multiplicities is returned once. Pathways come in order of average cost weighted by multiplicity, independently of batch size, worker count and reaction order; a pathway that needs intermediates never produced is flagged or excluded when so requested, and pathways are equal only if all their steps and multiplicities are; equal pathways hash equally.",
  ["inputs", "schedules", "configurations"], "all reaction lists, net reactions, combination sizes, batch sizes, worker counts and reaction orders",
  "Tests record the number of pathways for one stored problem.",
  ["pathways/solver.py", "pathways/balanced.py", "pathways/basic.py", "pathways/pathway_set.py"],
  [("batched pseudo-inverse solve", "pathways/solver.py"), ("BalancedPathway", "pathways/balanced.py"), ("PathwaySet", "pathways/pathway_set.py")],
  observe=["PathwaySet returned by solve()"])

p("C22", "Chemical potential domains and distances are geometric truth",
  "Each phase's domain in the chemical potential diagram consists of points where that phase is in equilibrium and no other phase is supersaturated; exactly the stable phases have domains. The distance between two phases is non-negative, symmetric, zero when their domains touch and equals the distance between the nearest corner points of the two domains plus any offset, a metastable phase being treated as if just stable; answers do not depend on what was asked before. The distance score of a reaction aggregates (sum, maximum or mean) its reactant-product and product-product distances.",
  ["inputs", "histories"], "all entry sets, phase pairs, reactions, aggregation functions and query orders",
  "Tests record three distances of one diagram.",
  ["thermo/chempot_diagram.py", "costs/calculators.py"],
  [("half-space intersection", "thermo/chempot_diagram.py"), ("shortest_domain_distance / get_offset / metastable domains", "thermo/chempot_diagram.py"), ("ChempotDistanceCalculator", "costs/calculators.py")],
  state=[("_entry_set and domain caches", "shared mutable state touched by queries", "thermo/chempot_diagram.py")],
  observe=["shortest_domain_distance, domains, calculate()"])

p("C23", "Database retrieval returns every entry of the chemical system, once",
  "Fetching entries for a chemical system from an entry database returns exactly the stored entries whose elements lie within the system, each material once with the preferred record when several exist, whatever the number of elements, and honours additional criteria. Reading reactions back from a reaction database gives the stored ones.",
  ["inputs", "configurations"], "all database contents and chemical systems, below and above the size at which sub-systems are no longer listed",
  "Tests need a remote service and are skipped; no offline test exists.",
  ["entries/utils.py", "utils/database.py"],
  [("get_all_entries_in_chemsys_from_entry_db", "entries/utils.py")],
  observe=["returned entries", "queries seen by an in-memory store"])

p("C24", "Building Gibbs entries from raw data treats every material correctly",
  "Converting zero-temperature entries at a temperature yields, for each material, the tabulated experimental entry when enabled and available at that temperature (unless its solid is on the ignore list) and otherwise the computed one with exactly the applicable carbonate and CO2 corrections and its formation energy; each element appears once as reference with zero energy. Requested formulas are present in the processed set (interpolated if missing), filtering and stabilisation follow the options, and the raw entries are not modified, so sets built at different temperatures are independent.",
  ["inputs", "configurations", "histories"], "all raw entry collections, temperatures, and combinations of options",
  "Tests count entries for one data set and a few option combinations.",
  ["entries/entry_set.py", "entries/utils.py", "entries/corrections.py"],
  [("from_pd/from_computed_entries", "entries/entry_set.py"), ("process_entries", "entries/utils.py")],
  observe=["entries of the resulting GibbsEntrySet"])

p("C25", "Jobs and flows give the same answer as the library calls they wrap",
  "Running the enumeration, network-building, path-finding and path-solving jobs, alone or chained in a flow and passed through saved documents, yields the same entries, reactions, networks and pathways as calling the library directly with the same settings, and the stored documents reload to equal objects with correct metadata (targets, added elements, chemical system).",
  ["inputs", "configurations"], "all small chemical systems, settings and targets",
  "Flow tests only check that a flow runs or has a given number of jobs.",
  ["jobs/core.py", "jobs/schema.py", "jobs/utils.py", "flows/core.py"],
  [("Makers and documents", "jobs/core.py"), ("flow wiring", "flows/core.py")],
  observe=["job outputs and stored documents"])

p("C26", "Plots, filtered tables and evolution analyses show exactly the data they are given",
  "A reaction scatter plot (two or three axes) shows every reaction of its table exactly once at its own values, and marks as the Pareto front exactly the reactions that no other one dominates, whatever the row labels; filtering by precursors keeps exactly the reactions whose reactants are all available. An interface hull plot shows every reaction at its own mixing fraction and energy. A phase evolution's smoothed amounts, atoms per element, compositions and energy cascade follow from the given amounts, temperatures and entries, also for formulas that are not reduced. No input, nor any shared plotting style, is changed by plotting.",
  ["inputs", "configurations", "histories"], "all tables (including concatenated ones), axes, hulls, networks and phase evolutions",
  "Tests hold no check of any plotted value.",
  ["reactions/plotting.py", "reactions/hull.py", "pathways/plotting.py", "network/visualize.py"],
  [("plot_reaction_scatter / filter_df_by_precursors", "reactions/plotting.py"), ("InterfaceReactionHull.plot", "reactions/hull.py"), ("PathwayPlotter", "pathways/plotting.py")],
  observe=["traces of the returned figures", "tables returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
