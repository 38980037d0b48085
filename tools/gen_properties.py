"""Writes properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


WFI = "every instance with at least one row, every row covered by some column, no row repeated inside a column, non-negative costs"

prop("C01", "Every solution returned is a cover made of distinct valid columns",
     "The solution returned by the solver selects columns that exist in the given instance, none twice, and together they cover every row of the instance. "
     "This holds for any instance, any option values and wherever the time limit interrupts the search; when a warm start is returned instead, it is returned unchanged.",
     ["inputs", "configurations", "histories"], WFI + ", all option values and all interruption points",
     "the search goes through pricing, fixing, redundancy removal and index translations whose interleaving depends on the instance; tests sample a few instances",
     ["src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp", "src/greedy/Greedy.hpp", "src/subgradient/Subgradient.hpp"],
     [("run", "src/algorithms/Refinement.hpp"), ("ThreePhase::operator()", "src/algorithms/ThreePhase.hpp"),
      ("_from_core_to_unfixed_sol", "src/algorithms/ThreePhase.hpp"), ("from_fixed_to_unfixed_sol", "src/algorithms/Refinement.hpp")])

prop("C02", "The cost reported with a solution is the sum of its columns' costs",
     "The cost reported with a returned solution equals the sum of the given costs of exactly the columns it selects. "
     "It does so through every translation between the core, the reduced and the original problem.",
     ["inputs", "configurations", "histories"], WFI + ", all option values and all interruption points",
     "the cost is maintained separately from the column list through several layers; only a few instances are compared in tests",
     ["src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp", "src/greedy/Greedy.hpp", "src/greedy/redundancy.hpp"],
     [("fixed_cost accounting", "src/fixing/fix_columns.hpp"), ("_remove_redundant_cols", "src/greedy/Greedy.hpp"),
      ("_from_core_to_unfixed_sol", "src/algorithms/ThreePhase.hpp")])

prop("C03", "A warm start is never made worse",
     "When the solver is given a feasible starting solution, the solution it returns costs no more than it, and if nothing better is found the starting solution itself is returned.",
     ["inputs", "configurations"], WFI + ", every feasible starting solution carrying its true cost",
     "tests give one warm start at most; whether an incumbent is overwritten depends on the whole search",
     ["src/algorithms/Refinement.hpp"],
     [("run: incumbent update", "src/algorithms/Refinement.hpp")])

prop("C05", "The reported lower bound never exceeds the optimum",
     "The lower bound reported with the dual multipliers is never larger than the cost of any feasible solution of the given instance. "
     "Multipliers are non-negative and there is one per row.",
     ["inputs", "configurations"], WFI + ", all option values and interruption points",
     "the optimum is unknown for most instances, and the bound depends on multipliers no test fixes",
     ["src/subgradient/Subgradient.hpp", "src/subgradient/Pricer.hpp", "src/core/utils.hpp", "src/algorithms/ThreePhase.hpp"],
     [("Pricer::_compute_col_reduced_costs", "src/subgradient/Pricer.hpp"), ("Subgradient::operator()", "src/subgradient/Subgradient.hpp"),
      ("compute_reduced_costs", "src/core/utils.hpp")])

prop("C06", "Fixing columns leaves exactly the residual problem",
     "Fixing a set of columns removes exactly the rows they cover and exactly the columns that are fixed or left without rows; the remaining columns keep their cost and their remaining rows. "
     "The index maps and the accumulated list and cost of fixed columns always translate the residual problem back to the original one.",
     ["inputs", "histories"], "every well-formed instance, every set of distinct columns to fix, every sequence of fixings",
     "the compaction rewrites several arrays in place; the result depends on how removed rows and columns interleave",
     ["src/fixing/fix_columns.hpp", "src/fixing/FixingData.hpp", "src/fixing/ColFixing.hpp"],
     [("compute_maps_from_cols_to_fix", "src/fixing/fix_columns.hpp"), ("remove_fixed_cols_from_inst", "src/fixing/fix_columns.hpp"),
      ("fix_columns_and_compute_maps", "src/fixing/fix_columns.hpp"), ("inplace_apply_col_map", "src/fixing/FixingData.hpp"),
      ("_apply_maps_to_lagr_mult", "src/fixing/ColFixing.hpp")],
     state=[("curr2orig", "current to original column and row indices", "src/fixing/FixingData.hpp"),
            ("fixed_cols, fixed_cost", "columns fixed so far, in original indices, and their cost", "src/fixing/FixingData.hpp")])

prop("C07", "Redundancy removal keeps a cover and is optimal on small sets",
     "Removing redundant columns from a cover leaves a cover. When at most ten columns are redundant, the columns kept are a cheapest way to complete the others, unless no completion is cheaper than the cutoff, which is then reported.",
     ["inputs"], "every well-formed instance, every cover of it, every cutoff",
     "the branch-and-bound enumeration prunes on three running quantities; a wrong prune only shows on particular overlaps",
     ["src/greedy/redundancy.hpp", "src/greedy/Greedy.hpp"],
     [("Enumerator::invoke", "src/greedy/redundancy.hpp"), ("complete_init_redund_set", "src/greedy/redundancy.hpp"),
      ("heuristic_removal", "src/greedy/redundancy.hpp"), ("enumeration_removal", "src/greedy/redundancy.hpp"),
      ("_try_early_exit", "src/greedy/Greedy.hpp")],
     state=[("total_cover", "row coverage when every column not yet decided is kept", "src/greedy/redundancy.hpp"),
            ("partial_cover", "row coverage of the columns decided to be kept", "src/greedy/redundancy.hpp")])

prop("C08", "The greedy heuristic returns a costed cover or reports the cutoff",
     "The greedy step completes the given partial selection to a cover with distinct columns, picking at each step a column of best score. It returns the cost of that cover, "
     "and a cost not below the cutoff only when the selection is to be discarded. It stops early only when the size limit is reached.",
     ["inputs"], "every well-formed instance, multipliers, reduced costs, partial selection, cutoff and size limit",
     "scores are maintained incrementally in a partially sorted structure; staleness shows only after particular update sequences",
     ["src/greedy/Greedy.hpp", "src/greedy/scores.hpp"],
     [("Greedy::operator()", "src/greedy/Greedy.hpp"), ("update_changed_scores", "src/greedy/scores.hpp"),
      ("select_good_scores", "src/greedy/scores.hpp"), ("update_covered", "src/greedy/scores.hpp")],
     state=[("score_map", "position of each column in the score array", "src/greedy/scores.hpp"),
            ("covered_rows, gammas", "uncovered rows and adjusted reduced cost of each column", "src/greedy/scores.hpp")])

prop("C09", "Coverage counters count exactly the selected columns",
     "After any sequence of additions and removals of columns, the counter of each row equals how many of the columns present contain it, and each call reports exactly how many rows became covered or uncovered. "
     "The redundancy questions answer exactly whether all rows of the column are already covered, respectively stay covered without it.",
     ["inputs", "histories"], "every set of rows and every sequence of additions and removals",
     "the answers depend on the whole history of additions and removals",
     ["src/utils/CoverCounters.hpp"],
     [("cover", "src/utils/CoverCounters.hpp"), ("uncover", "src/utils/CoverCounters.hpp"),
      ("is_redundant_cover", "src/utils/CoverCounters.hpp"), ("is_redundant_uncover", "src/utils/CoverCounters.hpp")],
     state=[("cov_counters", "number of present columns containing each row", "src/utils/CoverCounters.hpp")])

prop("C10", "The core problem is a faithful selection of the columns",
     "Pricing and the initial selection build a core problem whose columns are distinct columns of the full problem with the same rows and costs, in which every row keeps at least the smaller of five and its number of columns. "
     "Columns with small reduced cost are included, cheapest first when there are too many.",
     ["inputs"], "every well-formed instance and every multiplier vector",
     "the selection merges two rules and removes duplicates; omissions show only on particular reduced costs",
     ["src/subgradient/Pricer.hpp", "src/algorithms/ThreePhase.hpp", "src/core/Instance.hpp"],
     [("Pricer::operator()", "src/subgradient/Pricer.hpp"), ("_select_c1_col_idxs", "src/subgradient/Pricer.hpp"),
      ("_select_c2_col_idxs", "src/subgradient/Pricer.hpp"), ("_build_tentative_core_instance", "src/algorithms/ThreePhase.hpp")])

prop("C11", "Row lists are the exact transpose of the columns",
     "The row lists built from the columns contain, for each row, exactly the columns that contain it, each as often as the row occurs in the column and in ascending order, whatever the lists held before.",
     ["inputs"], "every sparse column set with row indices in range, every previous content of the row lists",
     "a mistake can depend on the previous content or on the last column and row",
     ["src/core/Instance.hpp"], [("fill_rows_from_cols", "src/core/Instance.hpp")])

prop("C12", "An instance file gives a well-formed instance or an error",
     "Reading an instance file either yields an instance whose indices are all in range, whose row lists match its columns and which has one cost per column, or reports an error. "
     "It never reads or writes outside its buffers and never loops forever, whatever bytes the file contains.",
     ["inputs"], "every file content, for each of the four formats",
     "malformed files are unbounded in number; tests use well-formed ones",
     ["src/core/parsing.hpp", "src/utils/parse_utils.hpp"],
     [("parse_rail_instance", "src/core/parsing.hpp"), ("parse_scp_instance", "src/core/parsing.hpp"),
      ("parse_cvrp_instance", "src/core/parsing.hpp"), ("parse_mps_instance", "src/core/parsing.hpp")])

prop("C13", "Command-line options set exactly what they name",
     "Each recognised option, in its short or long form and in any order, sets its own setting to the value given and changes nothing else; the others keep their defaults and the last occurrence wins. "
     "Unknown options are ignored, a missing instance path is an error, and the default solution name is the instance file's name with its directory and extension replaced.",
     ["inputs", "configurations"], "every list of command-line arguments",
     "options interact through order, repetition and missing values; tests try a few command lines",
     ["src/core/CliArgs.hpp"], [("parse_cli_args", "src/core/CliArgs.hpp"), ("make_sol_name", "src/core/CliArgs.hpp")])

prop("C14", "A solution written to a file is read back unchanged",
     "Writing a solution and reading the file back gives the same columns in the same order and the same cost.",
     ["inputs"], "every solution with valid column indices and a finite cost",
     "the cost goes through decimal text; only some values survive a wrong precision",
     ["src/core/parsing.hpp"], [("write_solution", "src/core/parsing.hpp"), ("parse_solution", "src/core/parsing.hpp")])

prop("C15", "Random draws follow the reference generator and stay in range",
     "The generators produce the reference xoshiro sequences from a splitmix64-expanded seed, and every uniform draw lies in its documented range: reals in [0,1) or between the bounds given, integers between the bounds given, inclusive. ",
     ["inputs", "histories"], "every seed, every number of previous draws, every pair of bounds",
     "2^64 seeds; a range error may need one particular word of output",
     ["src/utils/xoshiro_prng.hpp", "src/utils/random.hpp"],
     [("next_state", "src/utils/xoshiro_prng.hpp"), ("next_rnd", "src/utils/xoshiro_prng.hpp"),
      ("canonical_gen", "src/utils/random.hpp"), ("roll_dice", "src/utils/random.hpp")])

prop("C16", "String views compare, search and trim as their text does",
     "Comparing two string views gives the lexicographic order of their characters, searching returns the first or last position that satisfies the condition (or the length), and trimming and splitting return exactly the maximal runs of non-blank characters in order.",
     ["inputs"], "every pair of strings",
     "strings are unbounded; boundary cases (empty, all blank, prefix) are easy to miss",
     ["src/utils/StringView.hpp", "src/utils/parse_utils.hpp"],
     [("compare", "src/utils/StringView.hpp"), ("find_last_true", "src/utils/StringView.hpp"),
      ("trim", "src/utils/parse_utils.hpp"), ("split", "src/utils/parse_utils.hpp")])

prop("C17", "The bounded sorted array keeps the smallest keys",
     "After any sequence of insertion attempts, the bounded sorted array holds, in ascending key order, the smallest keys among all the elements offered, as many as fit. An attempt reports whether the element was stored; ties keep the elements inserted first.",
     ["inputs", "histories"], "every sequence of elements and every capacity",
     "the outcome depends on the whole insertion history",
     ["src/utils/SortedArray.hpp"], [("insert", "src/utils/SortedArray.hpp"), ("try_insert", "src/utils/SortedArray.hpp")])

prop("C18", "Generic helpers compute what their names say",
     "The range helpers answer exactly: whether some or all elements satisfy a condition, a smallest element by key, the elements that do not satisfy a condition in their original order, the minimum, maximum or clamped value. Sorting and selection by key rearrange without losing elements.",
     ["inputs"], "every container, every predicate and key",
     "they are generic over element type and predicate; tests instantiate a few",
     ["src/utils/utility.hpp", "src/utils/sort.hpp"],
     [("any", "src/utils/utility.hpp"), ("all", "src/utils/utility.hpp"), ("range_min", "src/utils/utility.hpp"),
      ("remove_if", "src/utils/utility.hpp"), ("clamp", "src/utils/utility.hpp"), ("sort", "src/utils/sort.hpp")])

prop("C19", "Multipliers and step sizes stay within their limits",
     "Every multiplier used by the search is finite, non-negative and at most a million after an update, moves toward zero on over-covered rows and up on uncovered ones, and the step size stays within its limits after its periodic adaptation. ",
     ["inputs", "histories"], "every instance, bound history and step size",
     "divergence needs long runs on particular instances",
     ["src/subgradient/Subgradient.hpp", "src/subgradient/utils.hpp", "src/algorithms/ThreePhase.hpp"],
     [("_update_lagr_mult", "src/subgradient/Subgradient.hpp"), ("StepSizeManager", "src/subgradient/utils.hpp"),
      ("ExitConditionManager", "src/subgradient/utils.hpp"), ("PricingManager", "src/subgradient/utils.hpp")])

prop("C20", "The solver stops once its time limit has passed",
     "After the time limit has elapsed the solver returns its best solution after at most the work of one iteration of the phase it is in.",
     ["configurations", "histories"], "every instance and time limit",
     "depends on the speed of the machine and on the instance",
     ["src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp", "src/subgradient/Subgradient.hpp", "src/utils/Chrono.hpp"],
     [("time limit tests", "src/subgradient/Subgradient.hpp")])

prop("C21", "The Python module exposes the same problem and solution",
     "A problem built through the Python classes is the problem that is solved, and the solution, its cost and its multipliers come back unchanged.",
     ["inputs"], "every sequence of calls of the Python classes",
     "the Python tests build two small problems",
     ["src/pycft/set_cover_solver.py", "src/pycft/_bindings.cpp"], [("SetCoverSolver", "src/pycft/set_cover_solver.py")])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
