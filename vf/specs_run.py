"""Contracts: column fixing within the search, translations of solutions, refinement, the whole run."""
SPECS = {}
COLS = ["wf_cols $inst.cols $inst.rows.n", "$inst.costs.n = $inst.cols.begs.n - 1"]

# ------------------------------------------------------------------ translations of solutions
FX = "$fixing.fixed_cols"
CM = "$fixing.curr2orig.col_map"
SPECS["cft::local::from_fixed_to_unfixed_sol"] = dict(
    params=["sol", "fixing", "best_sol"], props=["C01", "C02", "C03"],
    requires=["forall t. 0 <= t < $sol.idxs.n -> 0 <= $sol.idxs.a t < " + CM + ".n"],
    ensures=[("the cost is that of the fixed columns and of the solution", "$best_sol.cost = $sol.cost +. $fixing.fixed_cost"),
             ("the fixed columns come first", "$best_sol.idxs.n = " + FX + ".n + $sol.idxs.n /\\ forall t [$best_sol.idxs.a t]. 0 <= t < " + FX + ".n -> $best_sol.idxs.a t = " + FX + ".a t"),
             ("the columns of the solution follow under their original index",
              "forall t [$sol.idxs.a t]. 0 <= t < $sol.idxs.n -> $best_sol.idxs.a (" + FX + ".n + t) = " + CM + ".a ($sol.idxs.a t)")],
    loops={1: dict(inv=["$best_sol.idxs.n = " + FX + ".n + $it",
                        "forall t. 0 <= t < " + FX + ".n -> $best_sol.idxs.a t = " + FX + ".a t",
                        "forall t. 0 <= t < $it -> $best_sol.idxs.a (" + FX + ".n + t) = " + CM + ".a ($sol.idxs.a t)"])})
U = "$unfixed_sol"
SPECS["cft::ThreePhase::_from_core_to_unfixed_sol"] = dict(
    params=["core_sol", "core", "fixing", "unfixed_sol"], props=["C01", "C02", "C03"],
    requires=["forall t. 0 <= t < $core_sol.idxs.n -> 0 <= $core_sol.idxs.a t < $core.col_map.n",
              "forall t. 0 <= t < $core.col_map.n -> 0 <= $core.col_map.a t < " + CM + ".n"],
    ensures=[("the cost is that of the fixed columns and of the solution", U + ".cost = $core_sol.cost +. $fixing.fixed_cost"),
             ("the fixed columns come first", U + ".idxs.n = " + FX + ".n + $core_sol.idxs.n /\\ forall t [" + U + ".idxs.a t]. 0 <= t < " + FX + ".n -> " + U + ".idxs.a t = " + FX + ".a t"),
             ("the columns of the solution follow under their original index",
              "forall t [$core_sol.idxs.a t]. 0 <= t < $core_sol.idxs.n -> " + U + ".idxs.a (" + FX + ".n + t) = " + CM + ".a ($core.col_map.a ($core_sol.idxs.a t))")],
    loops={1: dict(inv=[U + ".idxs.n = " + FX + ".n + $it",
                        "forall t. 0 <= t < " + FX + ".n -> " + U + ".idxs.a t = " + FX + ".a t",
                        "forall t. 0 <= t < $it -> " + U + ".idxs.a (" + FX + ".n + t) = " + CM + ".a ($core.col_map.a ($core_sol.idxs.a t))"])})

# ------------------------------------------------------------------ column fixing within the search
RCINV = ["$reduced_costs.n = $inst.cols.begs.n - 1",
         "forall j [$reduced_costs.a j]. 0 <= j < %s -> $reduced_costs.a j = redc $inst.cols $inst.costs $lagr_mult j"]
RV = "$row_coverage.cov_counters"
CF = "$cols_to_fix"
ASC = "forall t u [" + CF + ".a t, " + CF + ".a u]. 0 <= t < u < " + CF + ".n -> " + CF + ".a t < " + CF + ".a u"
SPECS["cft::ColFixing::_select_non_overlapping_cols"] = dict(
    params=["inst", "lagr_mult", "row_coverage", "cols_to_fix", "reduced_costs"], use=["dual.D", "inst.I", "cover.Cov"], props=["C06"],
    requires=COLS + ["nodup $inst.cols", "$lagr_mult.n = $inst.rows.n"],
    ensures=[("reduced cost of every column", "redcosts $inst.cols $inst.costs $lagr_mult $reduced_costs"),
             ("distinct columns of the problem", "valid_idxs " + CF + " ($inst.cols.begs.n - 1) /\\ distinct " + CF),
             ("only columns of negative reduced cost", "forall t [" + CF + ".a t]. 0 <= t < " + CF + ".n -> $reduced_costs.a (" + CF + ".a t) <. 0.0")],
    loops={1: dict(inv=[RCINV[0], RCINV[1] % "$it", RV + ".n = $inst.rows.n", "forall i. 0 <= i < " + RV + ".n -> 0 <= " + RV + ".a i <= $it",
                        CF + ".n <= $it", "valid_idxs " + CF + " $it", ASC,
                        "forall t [" + CF + ".a t]. 0 <= t < " + CF + ".n -> $reduced_costs.a (" + CF + ".a t) <. 0.0"]),
           2: dict(inv=[RCINV[0], RCINV[1] % "$it1",
                        "$reduced_costs.a $it1 = $inst.costs.a $it1 -. usum $lagr_mult.a $inst.cols.idxs.a ($inst.cols.begs.a $it1) ($inst.cols.begs.a $it1 + $it)"]),
           3: dict(inv=[CF + ".n = " + CF + "'L.n",
                        "forall t. 0 <= t < $it -> " + CF + ".a t = " + CF + "'L.a t \\/ " + CF + ".a t = 2147483647",
                        "forall t. $it <= t < " + CF + ".n -> " + CF + ".a t = " + CF + "'L.a t"])})

OM = "$old2new.row_map"
SPECS["cft::ColFixing::_apply_maps_to_lagr_mult"] = dict(
    params=["old2new", "lagr_mult"], use=["fx.Fx"], props=["C06", "C05"],
    requires=["$lagr_mult.n = " + OM + ".n", OM + ".n <= 32766", "compact " + OM + " 32767 \\/ (forall i. 0 <= i < " + OM + ".n -> " + OM + ".a i = 32767)"],
    ensures=[("one multiplier per kept row", "$lagr_mult.n = nkept " + OM + " 32767"),
             ("every kept row keeps its multiplier", "forall i. 0 <= i < " + OM + ".n -> " + OM + ".a i <> 32767 -> $lagr_mult.a (" + OM + ".a i) = $lagr_mult'0.a i"),
             ("no new multipliers", "forall k [$lagr_mult.a k]. 0 <= k < $lagr_mult.n -> exists i. 0 <= i < " + OM + ".n /\\ $lagr_mult.a k = $lagr_mult'0.a i")],
    loops={1: dict(inv=["$lagr_mult.n = $lagr_mult'0.n", "0 <= $new_i <= $it", "$new_i = $it - cnt " + OM + ".a 0 $it 32767",
                        "forall i. $it <= i < " + OM + ".n -> $lagr_mult.a i = $lagr_mult'0.a i",
                        "forall i. 0 <= i < $it -> " + OM + ".a i <> 32767 -> $lagr_mult.a (" + OM + ".a i) = $lagr_mult'0.a i",
                        "forall k. 0 <= k < $new_i -> exists i. 0 <= i < " + OM + ".n /\\ $lagr_mult.a k = $lagr_mult'0.a i"])})

GL = "$lagr_mult.a $it = 340282346638528859811704183484516925440.0"
SPECS["cft::ThreePhase::_compute_greedy_multipliers"] = dict(
    params=["inst", "lagr_mult"], use=["dual.D", "inst.I"], props=["C19", "C05"],
    requires=COLS + ["rows_ok $inst.cols $inst.rows", "forall j. 0 <= j < $inst.costs.n -> 0.0 <=. $inst.costs.a j", "forall i. 0 <= i < $inst.rows.n -> ($inst.rows.a i).n > 0"],
    ensures=[("one multiplier per row", "$lagr_mult.n = $inst.rows.n"),
             ("multipliers are not negative", "forall i [$lagr_mult.a i]. 0 <= i < $lagr_mult.n -> 0.0 <=. $lagr_mult.a i")],
    loops={1: dict(inv=["$lagr_mult.n = $inst.rows.n", "forall i. 0 <= i < $lagr_mult.n -> 0.0 <=. $lagr_mult.a i"]),
           2: dict(inv=["$lagr_mult.n = $inst.rows.n", "forall i. 0 <= i < $lagr_mult.n -> 0.0 <=. $lagr_mult.a i"])})
