"""Contracts: greedy scores, the greedy step, redundancy removal."""
SPECS = {}
COLS = ["wf_cols $inst.cols $inst.rows.n", "$inst.costs.n = $inst.cols.begs.n - 1"]
SI = "$score_info"
COV, GAM, MAP, SCS = SI + ".covered_rows", SI + ".gammas", SI + ".score_map", SI + ".scores"
NC = "$inst.cols.begs.n - 1"
CG = ["C08"]

# ------------------------------------------------------------------ scores.hpp
SPECS["cft::local::compute_score"] = dict(
    params=["gamma", "mu"], use=["score.Sc"], props=CG, requires=["0 <= $mu"],
    ensures=[("the score of the paper", "$result = score_of $gamma $mu")])

SMAP = "sc_map %s.n %s %s" % (SCS, SCS, MAP)
SVAL = "sc_val %s %s %s" % (SCS, COV, GAM)
SPECS["cft::local::update_row_scores"] = dict(
    params=["row", "i_lagr_mult", "score_info", "update_hook"], use=["score.Sc"], props=CG, inst=r"NoOp\)",
    requires=["%s.n = %s.n" % (COV, SCS), "%s.n = %s.n" % (GAM, SCS), SMAP, SVAL, "%s.n <= 2147483646" % SCS,
              "forall k. 0 <= k < $row.n -> 0 <= $row.a k < %s.n" % SCS,
              "forall j. 0 <= j < %s.n -> cnt $row.a 0 $row.n j <= %s.a j <= 32766" % (SCS, COV)],
    ensures=[("one row less to cover for every column of the row", "%s.n = %s'0.n /\\ forall j [%s.a j]. 0 <= j < %s.n -> %s.a j = %s'0.a j - cnt $row.a 0 $row.n j" % (COV, COV, COV, SCS, COV, COV)),
             ("the multiplier moves to every column of the row", "%s.n = %s'0.n /\\ ((forall j. 0 <= j < %s.n -> cnt $row.a 0 $row.n j <= 1) -> forall j [%s.a j]. 0 <= j < %s.n -> %s.a j = %s'0.a j +. (if cnt $row.a 0 $row.n j > 0 then $i_lagr_mult else 0.0))" % (GAM, GAM, SCS, GAM, SCS, GAM, GAM)),
             ("the score list is not rearranged", "%s.n = %s'0.n /\\ %s" % (SCS, SCS, SMAP)),
             ("scores are up to date", SVAL)],
    loops={1: dict(inv=["%s.n = %s'0.n" % (COV, COV), "%s.n = %s'0.n" % (GAM, GAM), "%s.n = %s'0.n" % (SCS, SCS), SMAP, SVAL,
                        "forall j [%s.a j]. 0 <= j < %s.n -> %s.a j = %s'0.a j - cnt $row.a 0 $it j" % (COV, SCS, COV, COV),
                        "(forall j. 0 <= j < %s.n -> cnt $row.a 0 $row.n j <= 1) -> forall j [%s.a j]. 0 <= j < %s.n -> %s.a j = %s'0.a j +. (if cnt $row.a 0 $it j > 0 then $i_lagr_mult else 0.0)" % (SCS, GAM, SCS, GAM, GAM)])})

SPECS["cft::complete_scores_init"] = dict(
    params=["inst", "score_info"], use=["score.Sc"], props=CG,
    requires=COLS + ["nodup $inst.cols", "%s.n = %s" % (GAM, NC)],
    ensures=[("one score per column", SMAP + " /\\ %s.n = %s" % (SCS, NC)), ("scores are up to date", SVAL),
             ("every column counts all its rows", "%s.n = %s /\\ forall j [%s.a j]. 0 <= j < %s -> %s.a j = $inst.cols.begs.a (j + 1) - $inst.cols.begs.a j" % (COV, NC, COV, NC, COV))],
    loops={1: dict(inv=["%s.n = $it" % SCS, "%s.n = %s" % (MAP, NC), "%s.n = %s" % (COV, NC),
                        "forall j [%s.a j]. 0 <= j < $it -> %s.a j = $inst.cols.begs.a (j + 1) - $inst.cols.begs.a j" % (COV, COV),
                        "forall j [%s.a j]. 0 <= j < $it -> %s.a j = j" % (MAP, MAP),
                        "forall s [%s.a s]. 0 <= s < $it -> sd_idx (%s.a s) = s /\\ sd_score (%s.a s) = score_of (%s.a s) (%s.a s)" % (SCS, SCS, SCS, GAM, COV)])})

TOT = "%s.cov_counters"
RCV = TOT % "$row_coverage"
IC, IB = "$inst.cols.idxs", "$inst.cols.begs"
GREQ = COLS + ["nodup $inst.cols", "rows_ok $inst.cols $inst.rows", "$lagr_mult.n = $inst.rows.n", IB + ".n <= 2147483646"]
SCG = "sc_gam $inst.cols $lagr_mult %s %s " + COV + " " + GAM
SPECS["cft::update_covered"] = dict(
    params=["inst", "sol", "lagr_mult", "score_info", "row_coverage"], use=["map.Map", "score.Sc", "cover.Cov"], props=CG,
    requires=GREQ + [RCV + ".n = $inst.rows.n", "forall i. 0 <= i < " + RCV + ".n -> " + RCV + ".a i = 0",
                     "valid_idxs $sol (%s)" % NC, "$sol.n <= 2147483646",
                     "%s.n = %s" % (SCS, NC), SMAP, SVAL, SCG % (GAM, "(mask %s.a 0)" % RCV)],
    ensures=[("every counter is the number of given columns with the row",
              RCV + ".n = $inst.rows.n /\\ forall i [%s.a i]. 0 <= i < %s.n -> %s.a i = ccs $inst.cols $sol.a $sol.n i" % (RCV, RCV, RCV)),
             ("returns the number of rows covered", "$result = ncov %s $inst.rows.n" % RCV),
             ("the score list is complete", "%s.n = %s /\\ %s" % (SCS, NC, SMAP)), ("scores are up to date", SVAL),
             ("the scores count the rows still to cover", SCG % (GAM + "'0", "%s.a" % RCV))],
    loops={1: dict(inv=[RCV + ".n = $inst.rows.n", "forall i [%s.a i]. 0 <= i < %s.n -> %s.a i = ccs $inst.cols $sol.a $it i" % (RCV, RCV, RCV),
                        "$covered_rows = ncov %s $inst.rows.n" % RCV]),
           2: dict(inv=["%s.n = %s" % (SCS, NC), SMAP, SVAL, SCG % (GAM + "'0", "(mask %s.a $i)" % RCV), "0 <= $i <= $inst.rows.n"],
              begin=["label B in"],
              end=["assert { %s.a $i > 0 -> sc_row $inst.cols.begs $lagr_mult ($inst.rows.a $i) %s'B %s'B %s %s $i }" % (RCV, COV, GAM, COV, GAM),
                   "assert { %s.a $i > 0 -> samepos (set (mask %s.a $i) $i 1) (mask %s.a ($i + 1)) $inst.rows.n }" % (RCV, RCV, RCV),
                   "assert { %s.a $i > 0 -> sc_gam $inst.cols $lagr_mult %s (set (mask %s.a $i) $i 1) %s %s }" % (RCV, GAM + "'0", RCV, COV, GAM),
                   "assert { %s.a $i <= 0 -> samepos (mask %s.a $i) (mask %s.a ($i + 1)) $inst.rows.n }" % (RCV, RCV, RCV)])})
