"""Contracts: reduced costs, pricing, lower bounds, column fixing, translations between problems."""
SPECS = {}
U, RC = "$lagr_mult", "$reduced_costs"
COLS = ["wf_cols $inst.cols $inst.rows.n", "$inst.costs.n = $inst.cols.begs.n - 1"]

# Sum of the multipliers and of the negative reduced costs: a lower bound for every non-negative multiplier vector
RCINV2 = ["$reduced_costs.n = $inst.cols.begs.n - 1",
          "forall j [$reduced_costs.a j]. 0 <= j < $it -> $reduced_costs.a j = redc $inst.cols $inst.costs $lagr_mult j"]
RCINV3 = ["$reduced_costs.n = $inst.cols.begs.n - 1",
          "forall j [$reduced_costs.a j]. 0 <= j < $it2 -> $reduced_costs.a j = redc $inst.cols $inst.costs $lagr_mult j",
          "$reduced_costs.a $it2 = $inst.costs.a $it2 -. usum $lagr_mult.a $inst.cols.idxs.a ($inst.cols.begs.a $it2) ($inst.cols.begs.a $it2 + $it)"]
SPECS["cft::Pricer::_compute_col_reduced_costs"] = dict(
    params=["inst", "lagr_mult", "reduced_costs"], use=["dual.D"], props=["C05"],
    requires=COLS + ["$lagr_mult.n = $inst.rows.n"],
    ensures=[("reduced cost of every column", "redcosts $inst.cols $inst.costs $lagr_mult $reduced_costs"),
             ("bound is the sum of the multipliers and of the negative reduced costs",
              "$result = rsum $lagr_mult.a $lagr_mult.n +. nsum $reduced_costs.a $reduced_costs.n")],
    loops={1: dict(inv=["$real_lower_bound = rsum $lagr_mult.a $it"]),
           2: dict(inv=RCINV2 + ["$real_lower_bound = rsum $lagr_mult.a $lagr_mult.n +. nsum $reduced_costs.a $it"]),
           3: dict(inv=RCINV3 + ["$real_lower_bound = rsum $lagr_mult.a $lagr_mult.n +. nsum $reduced_costs.a $it2"])})

SPECS["cft::Subgradient::_update_lbsol_and_reduced_costs"] = dict(
    params=["inst", "lagr_mult", "lb_sol", "reduced_costs"], use=["dual.D"], props=["C05"],
    requires=COLS + ["$lagr_mult.n = $inst.rows.n"],
    ensures=[("reduced cost of every column", "redcosts $inst.cols $inst.costs $lagr_mult $reduced_costs"),
             ("bound is the sum of the multipliers and of the negative reduced costs",
              "$lb_sol.cost = rsum $lagr_mult.a $lagr_mult.n +. nsum $reduced_costs.a $reduced_costs.n"),
             ("the relaxed solution holds distinct columns", "valid_idxs $lb_sol.idxs ($inst.cols.begs.n - 1) /\\ distinct $lb_sol.idxs /\\ $lb_sol.idxs.n <= $reduced_costs.n"),
             ("the relaxed solution holds the columns of negative reduced cost",
              "forall j [$reduced_costs.a j]. 0 <= j < $reduced_costs.n -> ($reduced_costs.a j <. 0.0 <-> exists t. 0 <= t < $lb_sol.idxs.n /\\ $lb_sol.idxs.a t = j)")],
    loops={1: dict(inv=["$lb_sol.idxs.n = 0", "$lb_sol.cost = rsum $lagr_mult.a $it"]),
           2: dict(inv=RCINV2 + ["$lb_sol.cost = rsum $lagr_mult.a $lagr_mult.n +. nsum $reduced_costs.a $it",
                   "$lb_sol.idxs.n <= $it", "forall t [$lb_sol.idxs.a t]. 0 <= t < $lb_sol.idxs.n -> 0 <= $lb_sol.idxs.a t < $it",
                   "forall t u. 0 <= t < u < $lb_sol.idxs.n -> $lb_sol.idxs.a t < $lb_sol.idxs.a u",
                   "forall j [$reduced_costs.a j]. 0 <= j < $it -> ($reduced_costs.a j <. 0.0 <-> exists t. 0 <= t < $lb_sol.idxs.n /\\ $lb_sol.idxs.a t = j)"]),
           3: dict(inv=RCINV3 + ["$lb_sol.cost = rsum $lagr_mult.a $lagr_mult.n +. nsum $reduced_costs.a $it2",
                   "forall j [$reduced_costs.a j]. 0 <= j < $it2 -> ($reduced_costs.a j <. 0.0 <-> exists t. 0 <= t < $lb_sol.idxs.n /\\ $lb_sol.idxs.a t = j)"])})

# ------------------------------------------------------------------ subgradient
RCOV = "$row_coverage.cov_counters"
SOLREQ = ["valid_idxs $lb_sol.idxs ($inst.cols.begs.n - 1)", "distinct $lb_sol.idxs"]
SPECS["cft::Subgradient::_compute_reduced_row_coverage"] = dict(
    params=["inst", "reduced_costs", "row_coverage", "lb_sol"], use=["inst.I", "cover.Cov"], props=["C19", "C05"],
    requires=COLS + ["nodup $inst.cols", "$inst.rows.n <= 32766", "$reduced_costs.n = $inst.cols.begs.n - 1",
                     "$lb_sol.idxs.n <= $inst.cols.begs.n"] + SOLREQ,
    ensures=[("one counter per row", RCOV + ".n = $inst.rows.n"),
             ("a row is counted at most once per column", "forall i. 0 <= i < " + RCOV + ".n -> 0 <= " + RCOV + ".a i <= $lb_sol.idxs.n"),
             ("the relaxed solution is only reordered", "$lb_sol.idxs.n = $lb_sol.idxs'0.n /\\ $lb_sol.cost = $lb_sol.cost'0 /\\ "
              "valid_idxs $lb_sol.idxs ($inst.cols.begs.n - 1) /\\ distinct $lb_sol.idxs")],
    loops={1: dict(inv=[RCOV + ".n = $inst.rows.n", "forall i. 0 <= i < " + RCOV + ".n -> 0 <= " + RCOV + ".a i <= $it"])})

SPECS["cft::Subgradient::_compute_subgrad_sqr_norm"] = dict(
    params=["row_coverage"], use=["dual.D"], props=["C19"],
    requires=[RCOV + ".n <= 32766", "forall i. 0 <= i < " + RCOV + ".n -> 0 <= " + RCOV + ".a i <= 16000000"],
    ensures=[("squared norm is non-negative", "0.0 <=. $result"),
             ("a zero norm means every row is covered exactly once",
              "$result <. 1.0 -> forall i. 0 <= i < " + RCOV + ".n -> " + RCOV + ".a i = 1"),
             ("a positive norm is at least one", "$result <=. 0.0 \\/ 1.0 <=. $result")],
    loops={1: dict(inv=["0 <= $sqr_norm <= 256000000000000 * $it",
                        "$sqr_norm = 0 -> forall i. 0 <= i < $it -> " + RCOV + ".a i = 1"],
                   begin=["assert { 0 <= (1 - " + RCOV + ".a $it) * (1 - " + RCOV + ".a $it) <= 256000000000000 }",
                          "assert { (1 - " + RCOV + ".a $it) * (1 - " + RCOV + ".a $it) = 0 -> " + RCOV + ".a $it = 1 }"])})

ML = "$lagr_mult"
SPECS["cft::Subgradient::_update_lagr_mult"] = dict(
    params=["row_coverage", "step_factor", "lagr_mult"], use=["dual.D"], props=["C19", "C05"],
    requires=[RCOV + ".n = " + ML + ".n", RCOV + ".n <= 32766"],
    ensures=[("one multiplier per row", ML + ".n = " + ML + "'0.n"),
             ("multipliers stay between 0 and a million", "forall i. 0 <= i < " + ML + ".n -> rin 0.0 (" + ML + ".a i) 1000000.0"),
             ("multipliers of over-covered rows do not grow",
              "forall i. 0 <= i < " + ML + ".n -> 0.0 <=. $step_factor -> rin 0.0 (" + ML + "'0.a i) 1000000.0 -> " + RCOV + ".a i >= 1 -> " + ML + ".a i <=. " + ML + "'0.a i"),
             ("multipliers of uncovered rows do not shrink",
              "forall i. 0 <= i < " + ML + ".n -> 0.0 <=. $step_factor -> rin 0.0 (" + ML + "'0.a i) 1000000.0 -> " + RCOV + ".a i = 0 -> " + ML + "'0.a i <=. " + ML + ".a i"),
             ("multipliers move by the step times the violation",
              "forall i. 0 <= i < " + ML + ".n -> let v = " + ML + "'0.a i +. $step_factor *. (1.0 -. from_int (" + RCOV + ".a i)) in "
              "rin 0.0 v 1000000.0 -> " + ML + ".a i = v")],
    loops={1: dict(inv=[ML + ".n = " + ML + "'0.n",
                        "forall i. $it <= i < " + ML + ".n -> " + ML + ".a i = " + ML + "'0.a i",
                        "forall i. 0 <= i < $it -> rin 0.0 (" + ML + ".a i) 1000000.0",
                        "forall i. 0 <= i < $it -> let v = " + ML + "'0.a i +. $step_factor *. (1.0 -. from_int (" + RCOV + ".a i)) in "
                        "(rin 0.0 v 1000000.0 -> " + ML + ".a i = v) /\\ (v <. 0.0 -> " + ML + ".a i = 0.0) /\\ (v >. 1000000.0 -> " + ML + ".a i = 1000000.0)"])},
    exit=["let lemma down (i: int) requires { 0 <= i < " + ML + ".n } requires { 0.0 <=. $step_factor } requires { " + RCOV + ".a i >= 1 }\n"
          "ensures { $step_factor *. (1.0 -. from_int (" + RCOV + ".a i)) <=. 0.0 } = assert { from_int (" + RCOV + ".a i) >=. 1.0 } in"])

SPECS["cft::Subgradient::_reset_lower_bounds"] = dict(
    params=["lb_sol", "best_core_lb"], props=["C05"],
    ensures=[("bounds are reset", "$best_core_lb = $lb_sol.cost /\\ $lb_sol.idxs.n = 0 /\\ $lb_sol.cost <=. -. 1.0e38")])

# ------------------------------------------------------------------ step size, exit and pricing schedules
SS = "$this.curr_step_size"
SPECS["cft::local::StepSizeManager::operator()"] = dict(
    params=["iter", "lower_bound"], props=["C19"], divzero=True,
    requires=["$this.min_lower_bound <=. 3.4028235e38"],
    ensures=[("the step size returned is the current one", "$result = " + SS),
             ("the step size stays between a millionth and ten", "$iter = $this.next_update_iter'0 -> rin 0.000001 $result 10.0"),
             ("the step size changes only at the end of a period", "$iter <> $this.next_update_iter'0 -> " + SS + " = " + SS + "'0 /\\ "
              "$this.next_update_iter = $this.next_update_iter'0 "),
             ("the step size is halved, kept or raised by half", "let s = " + SS + "'0 in " + SS + " = s \\/ " + SS + " = s /. 2.0 \\/ " + SS + " = s *. 1.5 \\/ "
              + SS + " = 0.000001 \\/ " + SS + " = 10.0"),
             ("bounds seen in this period", "$iter <> $this.next_update_iter'0 -> rin $this.min_lower_bound $lower_bound $this.max_lower_bound /\\ "
              "$this.min_lower_bound <=. $this.min_lower_bound'0 /\\ $this.max_lower_bound >=. $this.max_lower_bound'0"),
             ("period is fixed", "$this.period = $this.period'0")])

# ------------------------------------------------------------------ pricing: the core problem
SRC, DST = "$src_inst.cols $src_inst.costs", "$dest_inst.cols $dest_inst.costs"
DST0 = "$dest_inst.cols'0 $dest_inst.costs'0"
SPECS["cft::push_back_col_from"] = dict(
    params=["src_inst", "j", "dest_inst"], use=["sel.Core"], props=["C10"],
    requires=["wf_cols $src_inst.cols $src_inst.rows.n", "$src_inst.costs.n = $src_inst.cols.begs.n - 1",
              "0 <= $j < $src_inst.cols.begs.n - 1"],
    ensures=[("a copy of the column is appended", "col_added " + SRC + " $j " + DST0 + " " + DST),
             ("the rows are left alone", "$dest_inst.rows = $dest_inst.rows'0")])
for q, args, cm in (("cft::Pricer::_init_partial_instance", ["inst", "idxs", "core_inst"], "core_inst"),):
    I_, K_ = "$inst.cols $inst.costs", "$core_inst.cols $core_inst.costs"
    SPECS[q] = dict(
        params=args, use=["sel.Core"], props=["C10"],
        requires=COLS + ["valid_idxs $idxs ($inst.cols.begs.n - 1)", "distinct $idxs"],
        ensures=[("the core problem consists of copies of the selected columns", "core_of " + I_ + " $inst.rows.n " + K_ + " $idxs"),
                 ("well-formed columns", "wf_cols $core_inst.cols $inst.rows.n")],
        loops={1: dict(inv=["copies " + I_ + " $idxs.a $it " + K_],
                       begin=["assert { not (picked $idxs.a $it ($idxs.a $it)) }", "label B in"],
                       end=["assert { col_added " + I_ + " ($idxs.a $it) (!core_inst_cols_idxs at B) (!core_inst_cols_begs at B) (!core_inst_costs at B) " + K_ + " }"])})

TK = "$taken_idxs"
SPECS["cft::Pricer::_select_c1_col_idxs"] = dict(
    params=["inst", "reduced_costs", "idxs", "taken_idxs"], use=["sel.Core"], props=["C10"],
    requires=COLS + ["$reduced_costs.n = $inst.cols.begs.n - 1", "$idxs.n = 0", TK + ".n = $inst.cols.begs.n - 1", "$inst.rows.n >= 1",
                     "forall j. 0 <= j < " + TK + ".n -> not " + TK + ".a j"],
    ensures=[("distinct columns of the problem", "valid_idxs $idxs ($inst.cols.begs.n - 1) /\\ distinct $idxs"),
             ("a column is marked exactly when it is selected", TK + ".n = $inst.cols.begs.n - 1 /\\ forall j. 0 <= j < " + TK + ".n -> (" + TK + ".a j <-> picked $idxs.a $idxs.n j)"),
             ("every selected column has a small reduced cost", "forall t. 0 <= t < $idxs.n -> $reduced_costs.a ($idxs.a t) <. 0.1"),
             ("all columns of small reduced cost are selected, or five per row of the cheapest of them",
              "forall j. 0 <= j < " + TK + ".n -> $reduced_costs.a j <. 0.1 -> " + TK + ".a j \\/ ($idxs.n = 5 * $inst.rows.n /\\ "
              "forall t. 0 <= t < $idxs.n -> $reduced_costs.a ($idxs.a t) <=. $reduced_costs.a j)")],
    loops={1: dict(inv=["valid_idxs $idxs $it", "$idxs.n <= $it", "forall t u. 0 <= t < u < $idxs.n -> $idxs.a t < $idxs.a u",
                        "forall t. 0 <= t < $idxs.n -> $reduced_costs.a ($idxs.a t) <. 0.1",
                        "forall j. 0 <= j < $it -> $reduced_costs.a j <. 0.1 -> picked $idxs.a $idxs.n j"]),
           2: dict(inv=[TK + ".n = $inst.cols.begs.n - 1",
                        "forall j. 0 <= j < " + TK + ".n -> (" + TK + ".a j <-> picked $idxs.a $it j)"])})

# row i keeps at least five of its columns (or all of them), the cheapest ones
SPECS["cft::Pricer::_select_c2_col_idxs"] = dict(
    params=["inst", "reduced_costs", "idxs", "taken_idxs"], use=["sel.Core", "heap.Heap"], props=["C10"],
    requires=["wf_inst $inst", "$reduced_costs.n = $inst.cols.begs.n - 1", TK + ".n = $inst.cols.begs.n - 1",
              "valid_idxs $idxs ($inst.cols.begs.n - 1)", "distinct $idxs",
              "forall j. 0 <= j < " + TK + ".n -> (" + TK + ".a j <-> picked $idxs.a $idxs.n j)"],
    ensures=[("distinct columns of the problem", "valid_idxs $idxs ($inst.cols.begs.n - 1) /\\ distinct $idxs"),
             ("a column is marked exactly when it is selected", TK + ".n = $inst.cols.begs.n - 1 /\\ forall j. 0 <= j < " + TK + ".n -> (" + TK + ".a j <-> picked $idxs.a $idxs.n j)"),
             ("columns selected before stay", "$idxs'0.n <= $idxs.n /\\ (forall t. 0 <= t < $idxs'0.n -> $idxs.a t = $idxs'0.a t) /\\ "
              "forall j. 0 <= j < " + TK + ".n -> " + TK + "'0.a j -> " + TK + ".a j"),
             ("every row keeps its five cheapest columns, or all it has",
              "forall i. 0 <= i < $inst.rows.n -> best_kept $reduced_costs.a ($inst.rows.a i).a ($inst.rows.a i).n " + TK + ".a 5")],
    loops={1: dict(inv=[TK + ".n = $inst.cols.begs.n - 1", "valid_idxs $idxs ($inst.cols.begs.n - 1)", "distinct $idxs",
                        "forall j. 0 <= j < " + TK + ".n -> (" + TK + ".a j <-> picked $idxs.a $idxs.n j)",
                        "$idxs'0.n <= $idxs.n", "forall t. 0 <= t < $idxs'0.n -> $idxs.a t = $idxs'0.a t",
                        "forall j. 0 <= j < " + TK + ".n -> " + TK + "'0.a j -> " + TK + ".a j", "$heap.data.n = 5",
                        "forall i [$inst.rows.a i]. 0 <= i < $it -> best_kept $reduced_costs.a ($inst.rows.a i).a ($inst.rows.a i).n " + TK + ".a 5"]),
           2: dict(inv=["0 <= $heap.sz <= 5", "$heap.data.n = 5", "forall t. 0 <= t < $heap.sz -> 0 <= $heap.data.a t < $inst.cols.begs.n - 1",
                        "holds_best $reduced_costs.a ($inst.rows.a $it1).a $it $heap.data.a $heap.sz 5"]),
           3: dict(inv=[TK + ".n = $inst.cols.begs.n - 1", "valid_idxs $idxs ($inst.cols.begs.n - 1)", "distinct $idxs",
                        "forall j. 0 <= j < " + TK + ".n -> (" + TK + ".a j <-> picked $idxs.a $idxs.n j)",
                        "$idxs'L1.n <= $idxs.n", "forall t. 0 <= t < $idxs'L1.n -> $idxs.a t = $idxs'L1.a t",
                        "forall j. 0 <= j < " + TK + ".n -> " + TK + "'0.a j -> " + TK + ".a j",
                        "forall t. 0 <= t < $it -> " + TK + ".a ($heap.data.a t)",                         "forall i [$inst.rows.a i]. 0 <= i < $it1 -> best_kept $reduced_costs.a ($inst.rows.a i).a ($inst.rows.a i).n " + TK + ".a 5"],
                   begin=["label B in"],
                   end=["assert { forall j. 0 <= j < " + TK + ".n -> (!taken_idxs at B).a j -> " + TK + ".a j }",
                        "assert { forall i. 0 <= i < $inst.rows.n -> valid_s ($inst.rows.a i).a ($inst.rows.a i).n ($inst.cols.begs.n - 1) }"])})
PR = "$this.reduced_costs"
SPECS["cft::Pricer::operator()"] = dict(
    params=["inst", "lagr_mult", "core"], use=["sel.Core", "heap.Heap", "dual.D"], props=["C10", "C01", "C02"],
    requires=["wf_inst $inst", "$lagr_mult.n = $inst.rows.n", "$inst.rows.n >= 1", "$inst.cols.begs.n >= 2"],
    ensures=[("the core problem is a copy of distinct columns of the problem",
              "core_of $inst.cols $inst.costs $inst.rows.n $core.inst.cols $core.inst.costs $core.col_map"),
             ("the core problem is well formed", "wf_cols $core.inst.cols $inst.rows.n /\\ $core.inst.rows.n = $inst.rows.n /\\ rows_ok $core.inst.cols $core.inst.rows"),
             ("every row keeps its five cheapest columns, or all it has",
              "forall i. 0 <= i < $inst.rows.n -> best_kept " + PR + ".a ($inst.rows.a i).a ($inst.rows.a i).n $this.taken_idxs.a 5"),
             ("the columns kept are those of the core problem",
              "$this.taken_idxs.n = $inst.cols.begs.n - 1 /\\ forall j. 0 <= j < $this.taken_idxs.n -> ($this.taken_idxs.a j <-> picked $core.col_map.a $core.col_map.n j)"),
             ("the value returned is the sum of the multipliers and of the negative reduced costs",
              "redcosts $inst.cols $inst.costs $lagr_mult " + PR + " /\\ $result = rsum $lagr_mult.a $lagr_mult.n +. nsum " + PR + ".a " + PR + ".n"),
             ("columns of small reduced cost are kept, or five per row of the cheapest",
              "forall j. 0 <= j < $inst.cols.begs.n - 1 -> " + PR + ".a j <. 0.1 -> picked $core.col_map.a $core.col_map.n j \\/ "
              "cheap_kept " + PR + ".a $core.col_map.a $core.col_map.n (5 * $inst.rows.n) j")])

# the initial core problem
TC, CM = "$core_inst.inst.cols $core_inst.inst.costs", "$core_inst.col_map"
FIVE = "forall i. 0 <= i < %s -> forall q. 0 <= q < 5 -> q < ($inst.rows.a i).n -> picked " + CM + ".a %s (($inst.rows.a i).a q)"
SPECS["cft::ThreePhase::_build_tentative_core_instance"] = dict(
    params=["inst", "core_inst"], use=["sel.Core"], props=["C10", "C01", "C02"],
    requires=["wf_inst $inst", "$inst.rows.n >= 1"],
    ensures=[("the core problem is a copy of distinct columns of the problem",
              "core_of $inst.cols $inst.costs $inst.rows.n " + TC + " " + CM),
             ("the core problem is well formed", "wf_cols $core_inst.inst.cols $inst.rows.n /\\ $core_inst.inst.rows.n = $inst.rows.n /\\ rows_ok $core_inst.inst.cols $core_inst.inst.rows"),
             ("every row keeps its first five columns, or all it has", FIVE % ("$inst.rows.n", CM + ".n"))],
    loops={1: dict(inv=["valid_idxs " + CM + " ($inst.cols.begs.n - 1)", CM + ".n <= 5 * $it", FIVE % ("$it", CM + ".n")]),
           2: dict(inv=["valid_idxs " + CM + " ($inst.cols.begs.n - 1)", "0 <= $it <= 5", CM + ".n = " + CM + "'L.n + $it", FIVE % ("$it1", CM + ".n"),
                        "forall q. 0 <= q < $it -> picked " + CM + ".a " + CM + ".n (($inst.rows.a $it1).a q)"]),
           3: dict(inv=["0 <= $w <= $it", CM + ".n = " + CM + "'L.n", "forall p. $it <= p < " + CM + ".n -> " + CM + ".a p = " + CM + "'L.a p",
                        "copies $inst.cols $inst.costs " + CM + ".a $w " + TC,
                        "forall t. 0 <= t < $w -> 0 <= " + CM + ".a t < $inst.cols.begs.n - 1",
                        "forall t u. 0 <= t < u < $w -> " + CM + ".a t < " + CM + ".a u",
                        "if $it = 0 then $w = 0 /\\ $old_j = 2147483647 else $w > 0 /\\ $old_j = " + CM + ".a ($w - 1) /\\ $old_j = " + CM + "'L.a ($it - 1)",
                        "forall p. 0 <= p < $it -> picked " + CM + ".a $w (" + CM + "'L.a p)"],
                   begin=["label B in"],
                   end=["assert { $w <> $w'B -> copies $inst.cols $inst.costs " + CM + ".a $w'B $core_inst.inst.cols'B $core_inst.inst.costs'B }",
                        "assert { $w <> $w'B -> not (picked " + CM + ".a $w'B (" + CM + ".a $w'B)) /\\ "
                        "col_added $inst.cols $inst.costs (" + CM + ".a $w'B) $core_inst.inst.cols'B $core_inst.inst.costs'B " + TC + " }",
                        "assert { $w <> $w'B -> wf_cols $inst.cols $inst.rows.n /\\ $inst.costs.n = $inst.cols.begs.n - 1 /\\ 0 <= $w'B /\\ 0 <= " + CM + ".a $w'B < $inst.cols.begs.n - 1 }",
                        "assert { let k = $w'B in $w <> k -> copies $inst.cols $inst.costs " + CM + ".a (k + 1) " + TC + " }"])},
    calls={("cft::fill_rows_from_cols", 0): dict(before=[
        "assert { copies $inst.cols $inst.costs " + CM + ".a " + CM + ".n " + TC + " }",
        "assert { valid_idxs " + CM + " ($inst.cols.begs.n - 1) /\\ distinct " + CM + " }",
        "assert { core_of $inst.cols $inst.costs $inst.rows.n " + TC + " " + CM + " }"])})
