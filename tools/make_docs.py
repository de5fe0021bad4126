"""Writes properties.jsonl and MANIFEST.json (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AZP, AU = "region/p_regions/azp.py", "region/p_regions/azp_util.py"
OF, UT, CU = ("region/objective_function.py", "region/util.py",
              "region/csgraph_utils.py")
EX, MH, ME = ("region/p_regions/exact.py", "region/max_p_regions/heuristics.py",
              "region/max_p_regions/exact.py")
SK = "region/skater/skater.py"
TESTS = ("The tests fit every class to one 2x3 grid (and a two-island variant)"
         " with one attribute, mostly checking one expected result; ")

P = []


def prop(id, title, statement, over, text, why, mech, level_note, tech):
    files = []
    for _, where in mech:
        f = where.split(":")[0]
        if f not in files:
            files.append(f)
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text},
               "why_tests_cant": TESTS + why,
               "anchors": {"files": files, "mechanism": [
                   {"name": n, "where": w} for n, w in mech]}},
              tech, level_note))


prop("C01", "Heuristic p-regions results are valid regionalizations",
     "After every successful fit of AZP, simulated annealing, basic tabu or "
     "reactive tabu, each area has exactly one label, the labels form exactly "
     "n_regions regions, and every region is spatially contiguous. This holds "
     "for any symmetric contiguity (also of several disconnected parts), any "
     "n_regions from the number of parts to the number of areas, any "
     "attributes, objective, parameters, random state and feasible initial "
     "labels.",
     ["inputs", "configurations"],
     "all maps, attributes, numbers of regions, algorithms with any "
     "parameters, objectives, start solutions and random states",
     "disconnected maps, p=1, p=n, tabu parameters and start labels are not "
     "varied.",
     [("contiguity check before a move", AZP + ":AZP._azp_connected_component"),
      ("tabu moves with revert", AZP + ":AZPTabu._make_move"),
      ("random start solution", UT + ":generate_initial_sol")],
     "Thousands of random fits per run, each result judged against the "
     "definition; nothing about inputs never generated.",
     "runtime oracle on results of randomized fits (definition of a "
     "regionalization)")
prop("C02", "AZP considers every legal move and makes only allowed ones",
     "The acceptance rule an AZP run is given is asked only about legal moves "
     "(an area to a region it borders, leaving its own region non-empty and "
     "contiguous) of the current state; the state changes only by moves it "
     "allowed. A run does not end before every legal move of the final state "
     "has been put to the rule and refused.",
     ["inputs", "histories"],
     "all maps, start solutions, acceptance rules and random states",
     "a custom acceptance rule never appears, so neither an illegal proposal "
     "nor a skipped one is visible.",
     [("search loop", AZP + ":AZP._azp_connected_component"),
      ("acceptance interface", AU + ":AllowMoveStrategy")],
     "The recorded event log of each run is replayed against a reference "
     "transition system.",
     "trace monitor: recording acceptance rule, log checked against a "
     "reference transition system")
prop("C03", "Local search never worsens its start; AZP ends in a local optimum",
     "From given initial labels, AZP, basic tabu and reactive tabu return a "
     "regionalization whose objective is not worse than that of the initial "
     "labels, and so does simulated annealing at a temperature near zero. "
     "When no two neighbouring solutions tie, no single legal move improves "
     "the result of AZP, nor that of reactive tabu with iterations to "
     "spare.",
     ["inputs", "configurations"],
     "all maps, attributes, objectives, start solutions, tabu parameters and "
     "random states",
     "they compare with one optimum on a map where nearly everything finds "
     "it.",
     [("AZP acceptance", AU + ":AllowMoveAZP"),
      ("tabu best-solution memory",
       AZP + ":AZPBasicTabu._azp_connected_component"),
      ("reactive tabu", AZP + ":AZPReactiveTabu._azp_connected_component")],
     "Objective before/after and after every legal move from the reference "
     "definition, tolerance 1e-6.",
     "before/after oracle with reference objective; exhaustive neighbourhood "
     "at the result")
prop("C04", "Objective values match their definition, updates the real change",
     "The pairwise objective is the sum of distances of all pairs within "
     "regions; the center based one reduces per region the distances to the "
     "region's center, then reduces over regions. The change announced for "
     "moving an area equals the value after minus the value before the move, "
     "for any labels, attributes, metric, center and reduction; neither value "
     "depends on region names or the order of areas.",
     ["inputs"],
     "all labelings (any label names), attributes, metrics, centers, "
     "reductions and moves, also such that empty the donor",
     "updates are hardly tested, and never against recomputed values.",
     [("pairwise objective", OF + ":ObjectiveFunctionPairwise"),
      ("center objective", OF + ":ObjectiveFunctionCenter"),
      ("metrics", UT + ":get_metric_function")],
     "Reference implementation in exact summation; tolerance 2e-7 of the data "
     "scale (accuracy of scikit-learn's euclidean distance).",
     "differential runtime oracle (independent reference implementation)")
prop("C05", "Max-p heuristic results are contiguous and reach the threshold",
     "After every fit of the max-p heuristic with non-negative spatially "
     "extensive attributes and a threshold that every connected part of the "
     "map reaches, all regions are contiguous, every area is in one, and each "
     "region's sum of every spatially extensive attribute is at least its "
     "threshold. This holds with every kind of local search, scalar or vector "
     "threshold, any objective and random state.",
     ["inputs", "configurations"],
     "all maps, attributes, thresholds, local searches with any parameters "
     "and random states",
     "one threshold on one map with the default local search.",
     [("construction", MH + ":MaxPRegionsHeu.grow_regions"),
      ("enclaves", MH + ":MaxPRegionsHeu.assign_enclaves"),
      ("threshold condition", AU + ":AllowMoveAZPMaxPRegions")],
     "Random instances incl. several extensive attributes and parts.",
     "runtime oracle on results of randomized fits (definition of "
     "feasibility)")
prop("C06", "Max-p heuristic returns its best candidate with the most regions",
     "The max-p heuristic improves feasible constructions having the largest "
     "number of regions among those built, never ends a construction while "
     "unassigned adjacent areas could still form a region, and returns the "
     "candidate with the least objective. The number of regions is never "
     "above what is possible, and is the number of areas if each area reaches "
     "the threshold alone.",
     ["inputs", "histories"],
     "all instances, numbers of constructions, local searches and random "
     "states",
     "candidates are invisible in the result, and p is compared on one map.",
     [("construction phase", MH + ":MaxPRegionsHeu.grow_regions"),
      ("selection of the best partition",
       MH + ":MaxPRegionsHeu.fit_from_scipy_sparse_matrix")],
     "Recording local search and construction; small maps against exhaustive "
     "enumeration.",
     "trace monitor on constructions and local searches, exhaustive optimum "
     "as oracle on small maps")
prop("C07", "The threshold condition allows exactly threshold-preserving moves",
     "For spatially extensive attributes of any sign and regions that reach "
     "the threshold, a move is put to the wrapped acceptance rule exactly if "
     "donor and recipient still reach the threshold afterwards, and it is "
     "allowed exactly if that rule allows it. An AZP run with the condition "
     "therefore never leaves a region below the threshold, on any component "
     "of the map.",
     ["inputs", "histories"],
     "all maps, attributes (positive, negative, zero), thresholds, sequences "
     "of proposed moves",
     "the condition is never called directly and never with negative values.",
     [("threshold condition", AU + ":AllowMoveAZPMaxPRegions")],
     "Sums are exact binary fractions, so there is no tolerance.",
     "online monitor around the acceptance rule, reference sums as oracle")
prop("C08", "Exact p-regions solutions are valid and optimal",
     "The exact p-regions method returns, with each of its three models, "
     "contiguous regions, exactly n_regions of them, with the least possible "
     "sum of within-region pairwise distances. This holds for every map "
     "(also of several parts), attribute matrix, metric and feasible "
     "n_regions.",
     ["inputs", "configurations"],
     "all small maps, attributes, metrics, numbers of regions, models",
     "one instance per model.",
     [("flow model", EX + ":_flow"), ("order model", EX + ":_order"),
      ("tree model", EX + ":_tree"), ("entry", EX + ":PRegionsExact")],
     "Optimum by exhaustive enumeration up to 8 areas, attributes in many "
     "units; relative tolerance 1e-6. Wrong optima of CBC itself (about 1 in "
     "5000 models) are recognised by solving the model in other ways.",
     "runtime oracle: exhaustive enumeration of all contiguous partitions")
prop("C09", "Exact max-p solutions are feasible, maximal and optimal",
     "The exact max-p method returns contiguous regions that all reach the "
     "threshold of every spatially extensive attribute, as many of them as "
     "possible, and among those the ones with the least sum of within-region "
     "pairwise distances. This holds for every map, attribute matrix, metric, "
     "non-negative extensive attributes and reachable threshold.",
     ["inputs"],
     "all small maps, attributes, metrics, thresholds",
     "one instance.",
     [("model", ME + ":MaxPRegionsExact.fit_from_scipy_sparse_matrix")],
     "Optimum by exhaustive enumeration up to 5 areas, attributes in many "
     "units; relative tolerance 1e-6. Wrong optima of CBC itself (about 1 in "
     "5000 models) are recognised by solving the model in other ways.",
     "runtime oracle: exhaustive enumeration of all contiguous partitions")
prop("C10", "Unmeetable requests are refused without touching the estimator",
     "A request that cannot be met (too many, too few or no regions, initial "
     "labels that are not contiguous or of another number of regions, "
     "unknown method, solver, metric or contiguity, attributes of unsupported "
     "type, a node attribute that not all nodes have, spatially extensive "
     "attributes or thresholds with missing values, a max-p fit without "
     "iterations, an unreachable threshold) raises an error, for documented checks "
     "a ValueError. The estimator's labels stay what they were, and a later "
     "valid request succeeds.",
     ["inputs", "fault_sequences"],
     "all estimators, entry points, kinds of invalid requests and prior "
     "states",
     "few refusals are tested, and never on an estimator in use.",
     [("start solution checks", UT + ":generate_initial_sol"),
      ("feasibility check of initial labels", UT + ":assert_feasible"),
      ("solver status check", UT + ":check_solution_found"),
      ("argument checks", EX + ":PRegionsExact.fit_from_scipy_sparse_matrix")],
     "A catalogue of about 40 kinds of invalid requests on random instances.",
     "fault-sequence monitor: invalid request, state comparison, valid "
     "request")
prop("C11", "Every entry point solves the same problem, area for area",
     "A problem given as sparse matrix, dict, networkx graph, W object or "
     "GeoDataFrame, with any area names in any insertion order, reaches the "
     "algorithm with each area's contiguity, attributes, spatially extensive "
     "attributes and initial label attached to that area. Labels come back in "
     "the documented order: sorted names for dicts, node order for graphs, id "
     "order for W objects, row order for GeoDataFrames.",
     ["inputs", "configurations"],
     "all problems, entry points, area names and orders",
     "areas are named 0..5 in canonical order, where mixed-up rows do not "
     "show.",
     [("dict entry", UT + ":scipy_sparse_matrix_from_dict"),
      ("graph attributes", UT + ":array_from_graph"),
      ("entry points", AZP + ":AZP.fit_from_networkx"),
      ("entry points", MH + ":MaxPRegionsHeu.fit_from_networkx"),
      ("entry points", EX + ":PRegionsExact.fit_from_networkx"),
      ("entry points", ME + ":MaxPRegionsExact.fit_from_networkx")],
     "Recording objective functions and local searches passed by the caller; "
     "exact methods against optima.",
     "trace monitor on what reaches the algorithm, canonical problem as "
     "oracle")
prop("C12", "The same random state gives the same result",
     "Constructing a heuristic with a given random_state (int, string or bytes) and "
     "fitting it gives the same labels every time, whatever ran before in the "
     "process, in whatever order fits are made, and in any other process "
     "(also with another string hash seed). SKATER, which takes no random "
     "state, always gives the same labels for the same arguments.",
     ["inputs", "histories", "configurations"],
     "all problems, entry points, random states, prior activity, processes "
     "and hash seeds",
     "results are never compared between runs.",
     [("seeding", AZP + ":AZP.__init__"), ("seeding", MH +
                                            ":MaxPRegionsHeu.__init__"),
      ("matrix from dict", UT + ":scipy_sparse_matrix_from_dict")],
     "Repeated fits in one process after different activity and in fresh "
     "processes with other hash seeds.",
     "record and compare of repeated executions across histories and "
     "processes")
prop("C13", "A fit does not depend on earlier fits of the same object",
     "Fitting an estimator that was fitted before, to other problems or "
     "unsuccessfully, gives the result a new estimator gives under the same "
     "state of the random number generator. Label arrays of earlier fits stay "
     "as they were.",
     ["histories", "inputs"],
     "all histories of fits of one object, with other objects in between",
     "every test constructs a new object.",
     [("search state of tabu and annealing",
       AZP + ":AZPReactiveTabu, AZPSimulatedAnnealing"),
      ("local search of max-p",
       MH + ":MaxPRegionsHeu.fit_from_scipy_sparse_matrix")],
     "Histories of two to four fits, with failing ones.",
     "history monitor: used object against fresh object under equal random "
     "state")
prop("C14", "Fits and helpers leave their arguments as they were",
     "No fit, successful or refused, through any entry point, changes the "
     "contiguity, attributes, initial labels, thresholds, dicts, graph, W "
     "object (with weights and transform) or GeoDataFrame it is passed. "
     "The same holds for objective functions, acceptance rules, adjacency "
     "helpers and SKATER's score and search for a cut.",
     ["inputs", "configurations"],
     "all argument kinds, estimators and outcomes",
     "arguments are never looked at after a fit.",
     [("labels are copied per component", UT + ":separate_components"),
      ("forest is copied before cutting",
       SK + ":Spanning_Forest.find_cut"),
      ("transform is restored", SK + ":Spanning_Forest.fit")],
     "Content of all arguments recorded before and compared after; partly "
     "read-only arrays.",
     "snapshot monitor on arguments")
prop("C15", "SKATER yields contiguous regions above the quorum",
     "A SKATER fit gives contiguous regions that are the trees of its stored "
     "forest, whose links are links of the map; each region cut off has at "
     "least quorum areas. Their number is the wanted one (plus the number of "
     "disconnected parts unless islands are ignored), or no link of the "
     "remaining forest can be cut without falling below the quorum and a "
     "warning says so; maps with a part below the quorum are refused with "
     "ValueError.",
     ["inputs", "configurations"],
     "all maps, data (also with ties or none), metrics, reductions, centers, "
     "quorums, numbers of regions, island modes, forms of W",
     "SKATER has no tests in the suite that runs here.",
     [("fit", SK + ":Spanning_Forest.fit"),
      ("cutting", SK + ":Spanning_Forest.make_cut")],
     "Random instances; early stops are judged by trying every link.",
     "runtime oracle on results of randomized fits")
prop("C16", "SKATER cuts a minimum spanning forest greedily and optimally",
     "SKATER starts from a minimum spanning forest of the map under the "
     "dissimilarity of neighbours (also if some are zero) and each step "
     "removes the link whose removal gives the least score of all links that "
     "keep the quorum. The trace lists exactly these labelings with their "
     "scores; a search restricted to one region returns the best link in it, "
     "and a cut made on request removes just that link from the forest.",
     ["inputs", "histories"],
     "all maps, data, metrics, reductions, centers, quorums and numbers of "
     "steps",
     "SKATER has no tests in the suite that runs here.",
     [("spanning forest", SK + ":Spanning_Forest.fit"),
      ("search for the best cut", SK + ":Spanning_Forest.find_cut")],
     "Every step of the histories is compared with all candidate cuts.",
     "history monitor: Kruskal and recomputed scores of all candidate cuts "
     "as oracle")
prop("C17", "SKATER's score is the documented one",
     "The score of labels is the reduction over regions of the reduction of "
     "dissimilarities between each region's areas and its center; it is "
     "infinite exactly if a region is smaller than the quorum. It does not "
     "depend on the names of the labels (numbers of any kind, strings); "
     "without labels those of the last fit count, and without a fit the call "
     "is refused.",
     ["inputs"],
     "all data, labelings, label names, quorums, metrics, affinities, "
     "reductions, centers",
     "SKATER has no tests in the suite that runs here.",
     [("score", SK + ":Spanning_Forest.score")],
     "Reference implementation, tolerance relative to the data scale.",
     "differential runtime oracle (independent reference implementation)")
prop("C18", "Adjacency helpers agree with the graph they are given",
     "Connectivity, neighbours, submatrices (with nodes left out, in any "
     "order) and per-component labels derived from an adjacency matrix agree "
     "with the graph it represents, for any dtype, weights and storage order. "
     "Matrices made from dicts, W objects and GeoDataFrames (rook or queen) "
     "represent exactly the given contiguity.",
     ["inputs"],
     "all maps, node subsets, matrix representations and area names",
     "doctests show one example each.",
     [("graph helpers", CU + ":is_connected, neighbors, sub_adj_matrix"),
      ("components", UT + ":separate_components"),
      ("conversions", UT + ":scipy_sparse_matrix_from_dict")],
     "Breadth-first search over neighbour sets as reference.",
     "differential runtime oracle (breadth-first search)")
prop("C19", "Feasibility checks accept exactly the feasible clusterings",
     "The feasibility check raises ValueError exactly if some region is not "
     "contiguous or the number of regions is not the wanted one; its boolean "
     "form is true exactly for contiguous clusterings. This holds for any "
     "map and any labels.",
     ["inputs"],
     "all maps and labelings with any label names",
     "a few labelings of one map are tried.",
     [("checks", UT + ":assert_feasible, boolean_assert_feasible")],
     "Feasible, nearly feasible and random labelings.",
     "differential runtime oracle (breadth-first search)")
prop("C20", "Random start solutions are valid for every random state",
     "A random start solution consists of one labeling per connected part, "
     "which together are a contiguous clustering into exactly n_regions "
     "regions, whatever the random state. Regions are distributed so that "
     "each part gets at least one and at most as many as it has areas; "
     "impossible numbers of regions are refused with ValueError.",
     ["inputs", "configurations"],
     "all maps, numbers of regions and random states",
     "one map and one random state.",
     [("start solution", UT + ":generate_initial_sol"),
      ("division of a part", UT + ":_randomly_divide_connected_graph"),
      ("distribution", UT + ":distribute_regions_among_components")],
     "Several random states per instance.",
     "runtime oracle on random solutions over many random states")
prop("C21", "Converters keep every value attached to its area",
     "Arrays made from dicts (any key order or selection of keys), graph "
     "attributes, data frame columns and lists of regions hold in each row "
     "the values of exactly that row's area, in the documented order. "
     "Lookups and random picks return elements that are there and lose none.",
     ["inputs"],
     "all names, values, orders, selections, containers",
     "doctests use keys 0, 1, 2 in order.",
     [("converters", UT + ":array_from_dict_values, array_from_graph, "
       "array_from_df_col, array_from_region_list, dataframe_to_dict")],
     "Values compared one by one.",
     "differential runtime oracle (values by area)")
prop("C22", "Acceptance rules accept, book and announce moves correctly",
     "The AZP rule allows exactly the moves that do not worsen the objective; "
     "the annealing rule allows those always and a worsening move with "
     "probability exp(-change/temperature). The objective value seen from "
     "outside is that of the labels after the allowed moves, and observers "
     "are told of every allowed move and of reaching the wanted number of "
     "worsening moves since the last reset.",
     ["inputs", "histories"],
     "all labelings, objectives, temperatures, sequences of decisions",
     "acceptance rules are not tested on their own.",
     [("AZP rule", AU + ":AllowMoveAZP"),
      ("annealing rule", AU + ":AllowMoveAZPSimulatedAnnealing")],
     "Probabilities judged by 6-sigma tests over 200 draws per move.",
     "online monitor with reference objective; statistical oracle for "
     "probabilities")
prop("C23", "Every fit ends within a bounded number of steps",
     "Every fit of a heuristic, also on data with ties, constant data and "
     "badly scaled data, with any metric and parameters (simulated annealing: "
     "data without ties), ends after a number of loop iterations that is "
     "small in relation to the map's size. SKATER ends also if the wanted "
     "number of regions cannot be reached.",
     ["inputs", "configurations"],
     "all maps, data, metrics, algorithms, parameters and random states",
     "no test uses tied data, where cycling is possible.",
     [("AZP loop", AZP + ":AZP._azp_connected_component"),
      ("basic tabu loop", AZP + ":AZPBasicTabu._azp_connected_component"),
      ("reactive tabu loop", AZP +
       ":AZPReactiveTabu._azp_connected_component"),
      ("annealing loop", AZP +
       ":AZPSimulatedAnnealing.fit_from_scipy_sparse_matrix"),
      ("pruning loop", SK + ":Spanning_Forest.fit")],
     "A logical clock counts loop iterations inside region; the budget is "
     "tens of times what any of tens of thousands of runs needed.",
     "logical step clock (sys.monitoring) with a budget per fit")
prop("C24", "Separate objects can be fitted in concurrent threads",
     "Fits of separate estimators in concurrent threads, on different "
     "problems or on one shared problem, succeed and give valid results for "
     "their own problems, no worse than their start; deterministic ones "
     "give what they give alone. This holds also if they share an objective "
     "function (such as the default one). "
     "(Exact methods are excluded: the solver interface uses one temporary "
     "file per process.)",
     ["schedules", "inputs"],
     "all interleavings of fits in several threads",
     "nothing is run concurrently.",
     [("state is kept per estimator", AZP + ":AZP"),
      ("state is kept per strategy", AU + ":AllowMoveStrategy"),
      ("state is kept per object", SK + ":Spanning_Forest")],
     "Threads switched every few microseconds; interleavings are sampled, not "
     "enumerated.",
     "schedule stress with tiny switch interval, oracle per result")

prop("C25", "Max-p construction makes the least dissimilar choices",
     "When a max-p region grows, the area added borders the region and has "
     "the least sum of dissimilarities to the region's areas among all areas "
     "offered; an enclave joins, of all regions it touches, the one with the "
     "least sum of dissimilarities to its areas. Completing a partial "
     "partition puts every enclave into exactly one region, keeps every "
     "region contiguous and moves no other area.",
     ["inputs", "histories"],
     "all maps, attributes, metrics, partial partitions and random states",
     "choices are invisible in the final labels, which local search changes.",
     [("choice of an area", MH + ":MaxPRegionsHeu.find_best_area"),
      ("choice of a region", MH + ":MaxPRegionsHeu.find_best_region_idx"),
      ("enclaves", MH + ":MaxPRegionsHeu.assign_enclaves")],
     "Choices of whole fits and on random input, reference distances; exact "
     "binary fractions in a third of the cases.",
     "online monitor on every greedy choice, reference distances as oracle")
prop("C26", "Simulated annealing follows its schedule",
     "Simulated annealing runs AZP repeatedly, each run starting where the "
     "last one ended, the first at the given labels. In stage k worsening "
     "moves by d are accepted with probability exp(-d / (T0 c^k)) (c: cooling "
     "factor). A stage ends after max_iterations runs, with the run that "
     "brings the stage's worsening moves to sa_moves_term, or with a run that "
     "changes nothing; annealing ends after nonmoving_steps_before_stop "
     "stages without moves or when runs returned one solution "
     "repetitions_before_termination times.",
     ["inputs", "configurations", "histories"],
     "all maps, start labels, temperatures, cooling factors and limits",
     "temperature and stages do not show in the labels of a 2x3 grid.",
     [("stages", AZP +
       ":AZPSimulatedAnnealing.fit_from_scipy_sparse_matrix"),
      ("acceptance", AU + ":AllowMoveAZPSimulatedAnnealing")],
     "The schedule is seen through an objective function of the caller that "
     "records what it is asked; 6-sigma tests per stage.",
     "trace monitor through a recording objective function, statistical "
     "oracle per stage")
prop("C27", "Tabu search makes the best permitted move",
     "Basic and reactive tabu make, in every state, a legal move that is "
     "least for the objective among the legal moves whose reversal is not on "
     "the tabu list (the last tabu_length moves made). Basic tabu makes a "
     "tabu move only if it improves the objective and no other move avoids "
     "worsening it, and a worsening one only if no tabu move improves. Basic "
     "tabu ends as soon as it has been in a state "
     "repetitions_before_termination times and answers with that state, "
     "reactive tabu answers with the best state it reached, and it does not "
     "stop before its iterations are used up as long as its moves improve "
     "the objective.",
     ["histories", "inputs", "configurations"],
     "all connected maps, start labels, attributes, acceptance rules, tabu "
     "lengths, iteration limits, k1, k2 and random states",
     "only final labels of a map where nearly every search finds the "
     "optimum are compared.",
     [("basic tabu", AZP + ":AZPBasicTabu._azp_connected_component"),
      ("reactive tabu", AZP + ":AZPReactiveTabu._azp_connected_component"),
      ("moves and tabu list", AZP + ":AZPTabu._make_move")],
     "Recorded searches are replayed against a reference tabu list; exact "
     "sums, so rounding decides nothing.",
     "trace monitor: recorded search replayed against a reference tabu list")


prop("C28", "Copies of estimators are equal and independent",
     "An estimator, of any kind, that was deep-copied or pickled and "
     "unpickled, fitted or not, holds the results of the original, and a fit "
     "of it gives, under the same random state, what the same fit of the "
     "original or of a new object gives. Fits of one leave the results held "
     "by the others unchanged.",
     ["histories", "inputs", "configurations"],
     "all estimators, local searches, acceptance rules, objective functions, "
     "problems, random states and histories of fits before and after copying",
     "no estimator is ever copied.",
     [("rules of max-p local searches", AU + ":AllowMoveAZPMaxPRegions"),
      ("tabu moves", "region/util.py:Move"),
      ("affinity", "region/skater/skater.py:Spanning_Forest"),
      ("annealing state", AZP + ":AZPSimulatedAnnealing")],
     "Functions of the caller have to be copyable themselves.",
     "differential oracle over histories: copy, original and fresh object")
prop("C29", "A fit leaves the process as it was",
     "A fit, whether it succeeds, is refused or is broken off by a function "
     "of the user that raises, leaves no files, open file descriptors, "
     "threads or child processes behind. Working directory, environment, "
     "numpy's error and print settings, warning filters, recursion limit, "
     "signal handlers and standard streams are what they were. An estimator "
     "does not grow with the number of its fits.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "all estimators, entry points, problems, outcomes of a fit, settings of "
     "the process and numbers of repetitions",
     "nothing but labels is looked at after a fit.",
     [("solver runs", "region/util.py:get_solver_instance"),
      ("outcome of the solver", "region/util.py:check_solution_found"),
      ("fit and reset", AZP + ":AZP.fit_from_scipy_sparse_matrix"),
      ("SKATER", "region/skater/skater.py:Spanning_Forest.fit")],
     "Python's random state is the one thing a fit may use up.",
     "monitor of process state: snapshots before and after each fit")

prop("C30", "Units and the zero point of attributes do not matter",
     "Multiplying all attributes by a positive number (here: a power of two) "
     "or by -1, adding a number to an attribute of all areas, reordering the "
     "attributes or adding one that is the same for all areas leaves the "
     "result of every heuristic and of SKATER as it is, under the same random "
     "state, as long as rounding leaves the comparisons of the method alone "
     "(annealing: with the initial temperature in the same unit; shifts, "
     "reorderings and constants: for pairwise objectives of a distance that "
     "depends on differences only). The same holds for multiplying the "
     "spatially extensive attributes and thresholds of max-p by a positive "
     "number, and for repeating a spatially extensive attribute.",
     ["inputs", "configurations"],
     "all estimators but the exact ones, entry points, maps, attributes, "
     "objectives, metrics, start solutions, random states and factors from "
     "2^-200 to 2^200",
     "attributes have one unit only.",
     [("acceptance rules", AU + ":AllowMoveAZP"),
      ("annealing", AZP + ":AZPSimulatedAnnealing"),
      ("tabu moves", AZP + ":AZPTabu"),
      ("max-p construction", MH + ":MaxPRegionsHeu.find_best_area"),
      ("threshold", AU + ":AllowMoveAZPMaxPRegions"),
      ("cuts", SK + ":Spanning_Forest.find_cut")],
     "Exact under rounding by construction (powers of two, whole numbers). "
     "Exact methods: see C08, C09. Cosine distances only of growing units, as "
     "scikit-learn takes tiny vectors for 0.",
     "metamorphic runtime oracle: equal labels of equivalent problems")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
               "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
               "technique": tech, "level": "exploration", "level_note": note}
              for p, tech, note in P]
    m = {"version": 1, "setup_cmd":
         "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); "
         "import region, rvmon.run'",
         "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo: monitors attach from outside "
         "(caller-supplied objects, subclasses, sys.monitoring). "
         "Replay: PYTHONPATH=/verif /opt/venv/bin/python -m rvmon.run replay "
         "FILE. Known findings: KNOWN_FINDINGS.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
