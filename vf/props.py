"""The properties: what each check decides, how, and what it leaves unchecked.

bounded: functions the property depends on that are not under contract; a search over generated inputs (the replay driver) stands in
for them on every run, with the stated bound, and is never counted as proved."""

PROPS = {}
RUNS = "generated instances of at most 14 rows and 60 columns (one in a thousand with up to 300 rows), for the stated number of seconds"

PROPS["C01"] = dict(
    title="Every solution returned is a cover made of distinct valid columns", driver="run_C01", level="other",
    note="proved for all inputs: fixing, pricing, core selection, coverage counters and every translation of a solution between the core, the residual and the given problem; bounded stand-in (complete runs on generated instances) for the loops that combine them",
    bounded=["Greedy::operator(), Subgradient::heuristic, ThreePhase::operator(), RefinementFixManager::operator(), run: " + RUNS], bounded_s=25)
PROPS["C02"] = dict(
    title="The cost reported with a solution is the sum of its columns' costs", driver="run_C02", level="other",
    note="proved for all inputs: fixing (list and cost of the fixed columns) and every translation of a solution and its cost between the core, the residual and the given problem; bounded stand-in (complete runs on generated instances) for the loops that combine them",
    bounded=["Greedy::operator(), ThreePhase::operator(), RefinementFixManager::operator(), run: " + RUNS], bounded_s=25)
PROPS["C03"] = dict(
    title="A warm start is never made worse", driver="run_C03", level="other",
    note="proved for all inputs: every translation of a solution and its cost between the core, the residual and the given problem; bounded stand-in (complete runs on generated instances with warm starts) for the loops that compare costs",
    bounded=["ThreePhase::operator(), RefinementFixManager::operator(), run: " + RUNS], bounded_s=25)
PROPS["C05"] = dict(
    title="The reported lower bound never exceeds the optimum", driver="bound", level="other",
    note="proved for all inputs: reduced costs, Lagrangian value, multiplier update, pricing bound, step size; bounded stand-in (generated instances against the exact optimum) for the loops that combine them: Subgradient::operator(), ThreePhase::operator(), run",
    bounded=["Subgradient::operator(), ThreePhase::operator(), run: " + RUNS], bounded_s=25)
PROPS["C06"] = dict(
    title="Fixing columns leaves exactly the residual problem",
    driver="fixing",
    assumptions=["the instances given have no row twice in one column, and every column index list is well formed"])
PROPS["C09"] = dict(
    title="Coverage counters count exactly the selected columns", driver="counters",
    assumptions=["a counter never exceeds 2^32-1"])
PROPS["C10"] = dict(title="The core problem is a faithful selection of the columns", driver="pricing")
PROPS["C11"] = dict(
    title="Row lists are the exact transpose of the columns", driver="transpose")
PROPS["C17"] = dict(
    title="The bounded sorted array keeps the smallest keys", driver="sorted", level="other",
    note="proved for all inputs: insert and try_insert, for the instantiation the solver uses (int elements, capacity five, any key); bounded stand-in for other element types and capacities",
    bounded=["SortedArray of other element types and capacities: random sequences of at most 52 insertions, capacities 1 to 9, for the stated number of seconds"], bounded_s=10)
PROPS["C19"] = dict(
    title="Multipliers and step sizes stay within their limits", driver="mults", level="other",
    note="proved for all inputs: the multiplier update and the step size schedule, over real arithmetic; bounded stand-in for the loops that call them",
    bounded=["Subgradient::operator(), Subgradient::heuristic, ThreePhase::_compute_greedy_multipliers, ThreePhase::_perturb_lagr_multipliers: " + RUNS], bounded_s=20)

# not claimed: id -> reason
NOT = {}
for _p in "C07 C08 C12 C13 C14 C15 C16 C18".split():
    NOT.setdefault(_p, "check under construction")
NOT["C20"] = "elapsed wall-clock time is not a property of the program text a deductive verifier sees: no contract over values can bound how long the code between two clock readings runs"
NOT["C21"] = "Python classes and a pybind11 binding: no deductive verifier for Python or for the generated binding code is installed, so no contract within reach can state the property"
