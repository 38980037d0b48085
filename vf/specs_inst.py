"""Contracts: instances, column fixing."""
import re
SPECS = {}
R2 = "2147483647"
SPECS["cft::fill_rows_from_cols"] = dict(
    params=["cols", "nrows", "rows"], use=["inst.I"], props=["C11"],
    requires=["wf_cols $cols $nrows", "1 <= $nrows",
              "forall i. 0 <= i < $nrows -> forall j. 0 <= j < $cols.begs.n - 1 -> 0 <= cc $cols j i"],
    ensures=[("one row list per row", "$rows.n = $nrows"),
             ("rows is the transpose of the columns", "rows_ok $cols $rows"),
             ("column indices ascend in every row", "rows_sorted $rows")],
    loops={
        1: dict(inv=["$rows.n = $nrows", "forall i. 0 <= i < $it -> ($rows.a i).n = 0"]),
        2: dict(inv=["$rows.n = $nrows",
                     "forall i k. 0 <= i < $nrows -> 0 <= k < ($rows.a i).n -> 0 <= ($rows.a i).a k < $it",
                     "forall i x. 0 <= i < $nrows -> 0 <= x < $it -> cnt ($rows.a i).a 0 ($rows.a i).n x = cc $cols x i",
                     "rows_sorted $rows"]),
        3: dict(inv=["$rows.n = $nrows",
                     "forall i k. 0 <= i < $nrows -> 0 <= k < ($rows.a i).n -> 0 <= ($rows.a i).a k <= $it2",
                     "forall i x. 0 <= i < $nrows -> 0 <= x < $it2 -> cnt ($rows.a i).a 0 ($rows.a i).n x = cc $cols x i",
                     "forall i. 0 <= i < $nrows -> cnt ($rows.a i).a 0 ($rows.a i).n $it2 = "
                     "cnt $cols.idxs.a ($cols.begs.a $it2) ($cols.begs.a $it2 + $it) i",
                     "rows_sorted $rows"]),
    })

CR, RR = "2147483647", "32767"      # removed_cidx, removed_ridx

# ------------------------------------------------------------------ FixingData.hpp
SPECS["cft::make_identity_fixing_data"] = dict(
    params=["ncols", "nrows", "fixing"], props=["C06", "C01", "C02"],
    requires=["0 <= $ncols", "0 <= $nrows"],
    ensures=[("column map is the identity", "$fixing.curr2orig.col_map.n = $ncols /\\ "
              "forall j. 0 <= j < $ncols -> $fixing.curr2orig.col_map.a j = j"),
             ("row map is the identity", "$fixing.curr2orig.row_map.n = $nrows /\\ "
              "forall i. 0 <= i < $nrows -> $fixing.curr2orig.row_map.a i = i"),
             ("nothing fixed", "$fixing.fixed_cols.n = 0 /\\ $fixing.fixed_cost = 0.0")],
    loops={1: dict(inv=["$fixing.curr2orig.col_map.n = $ncols",
                        "forall j. 0 <= j < $it -> $fixing.curr2orig.col_map.a j = j"]),
           2: dict(inv=["$fixing.curr2orig.row_map.n = $nrows",
                        "forall i. 0 <= i < $it -> $fixing.curr2orig.row_map.a i = i"])})

SPECS["cft::local::add_cols_to_fixing_data"] = dict(
    params=["inst", "cols_to_fix", "fixing"], use=["inst.I", "sums.S"], props=["C06"],
    requires=["$fixing.curr2orig.col_map.n = $inst.cols.begs.n - 1", "1 <= $inst.cols.begs.n <= 2147483646",
              "$inst.costs.n = $inst.cols.begs.n - 1",
              "valid_idxs $cols_to_fix ($inst.cols.begs.n - 1)",
              "forall j. 0 <= j < $fixing.curr2orig.col_map.n -> 0 <= $fixing.curr2orig.col_map.a j < 2147483647"],
    ensures=[("original indices of the fixed columns appended",
              "$fixing.fixed_cols.n = $fixing.fixed_cols'0.n + $cols_to_fix.n /\\ "
              "(forall t. 0 <= t < $fixing.fixed_cols'0.n -> $fixing.fixed_cols.a t = $fixing.fixed_cols'0.a t) /\\ "
              "(forall t. 0 <= t < $cols_to_fix.n -> $fixing.fixed_cols.a ($fixing.fixed_cols'0.n + t) = "
              "$fixing.curr2orig.col_map.a ($cols_to_fix.a t))"),
             ("fixed cost grows by the cost of the fixed columns",
              "$fixing.fixed_cost = $fixing.fixed_cost'0 +. csum $inst.costs $cols_to_fix $cols_to_fix.n")],
    loops={1: dict(inv=[
        "$fixing.fixed_cols.n = $fixing.fixed_cols'0.n + $it",
        "forall t. 0 <= t < $fixing.fixed_cols'0.n -> $fixing.fixed_cols.a t = $fixing.fixed_cols'0.a t",
        "forall t. 0 <= t < $it -> $fixing.fixed_cols.a ($fixing.fixed_cols'0.n + t) = "
        "$fixing.curr2orig.col_map.a ($cols_to_fix.a t)",
        "$fixing.fixed_cost = $fixing.fixed_cost'0 +. csum $inst.costs $cols_to_fix $it"])})

CM, RM = "$old2new.col_map", "$old2new.row_map"
FC, FR_ = "$fixing.curr2orig.col_map", "$fixing.curr2orig.row_map"
SPECS["cft::local::apply_maps_to_fixing_data"] = dict(
    params=["inst", "old2new", "fixing"], use=["fx.Fx"], props=["C06"],
    requires=["1 <= $inst.cols.begs.n", "$inst.rows.n <= 32766",
              FC + ".n = " + CM + ".n", FR_ + ".n = " + RM + ".n", CM + ".n <= " + CR, RM + ".n <= " + RR,
              "($inst.cols.begs.n = 1 /\\ $inst.rows.n = 0 /\\ (forall j. 0 <= j < " + CM + ".n -> " + CM + ".a j = " + CR + " \\/ 0 <= " + CM + ".a j <= j)"
              " /\\ (forall j. 0 <= j < " + RM + ".n -> " + RM + ".a j = " + RR + ")) \\/ "
              "(compact " + CM + " " + CR + " /\\ compact " + RM + " " + RR +
              " /\\ $inst.cols.begs.n - 1 = nkept " + CM + " " + CR + " /\\ $inst.rows.n = nkept " + RM + " " + RR + ")"],
    ensures=[("map sizes", FC + ".n = $inst.cols.begs.n - 1 /\\ " + FR_ + ".n = $inst.rows.n"),
             ("kept columns keep their original index", "$inst.cols.begs.n > 1 -> forall j. 0 <= j < " + CM + ".n -> " + CM + ".a j <> " + CR + " -> " +
              FC + ".a (" + CM + ".a j) = " + FC + "'0.a j"),
             ("kept rows keep their original index", "forall j. 0 <= j < " + RM + ".n -> " + RM + ".a j <> " + RR + " -> " +
              FR_ + ".a (" + RM + ".a j) = " + FR_ + "'0.a j")],
    loops={1: dict(inv=[
        FC + ".n = " + FC + "'0.n",
        "forall j. $it <= j < " + CM + ".n -> " + FC + ".a j = " + FC + "'0.a j",
        "$inst.cols.begs.n > 1 -> forall j. 0 <= j < $it -> " + CM + ".a j <> " + CR + " -> " + FC + ".a (" + CM + ".a j) = " + FC + "'0.a j"]),
        2: dict(inv=[
        FR_ + ".n = " + FR_ + "'0.n",
        "forall j. $it <= j < " + RM + ".n -> " + FR_ + ".a j = " + FR_ + "'0.a j",
        "forall j. 0 <= j < $it -> " + RM + ".a j <> " + RR + " -> " + FR_ + ".a (" + RM + ".a j) = " + FR_ + "'0.a j"])})

WF = "wf_inst $inst"
COVF = "(exists t. 0 <= t < $cols_to_fix.n /\\ cc $inst.cols ($cols_to_fix.a t) i > 0)"
SPECS["cft::local::compute_maps_from_cols_to_fix"] = dict(
    params=["inst", "cols_to_fix", "old2new"], use=["inst.I", "fx.Fx"], props=["C06"],
    requires=[WF, "valid_idxs $cols_to_fix ($inst.cols.begs.n - 1)", "0 < $cols_to_fix.n"],
    ensures=[("map sizes", CM + ".n = $inst.cols.begs.n - 1 /\\ " + RM + ".n = $inst.rows.n"),
             ("removed rows are those covered by the fixed columns",
              "forall i. 0 <= i < $inst.rows.n -> (" + RM + ".a i = " + RR + " <-> " + COVF + ")"),
             ("result counts the removed rows", "$result = cnt " + RM + ".a 0 " + RM + ".n " + RR + " /\\ 0 <= $result <= $inst.rows.n"),
             ("fixed columns are removed", "forall t. 0 <= t < $cols_to_fix.n -> " + CM + ".a ($cols_to_fix.a t) = " + CR),
             ("column map small", "forall j. 0 <= j < " + CM + ".n -> " + CM + ".a j = " + CR + " \\/ 0 <= " + CM + ".a j <= j"),
             ("row map is order preserving and dense", "$result < $inst.rows.n -> compact " + RM + " " + RR),
             ("column map is order preserving and dense", "$result < $inst.rows.n -> compact " + CM + " " + CR),
             ("a column is kept exactly when it covers a kept row and is not fixed",
              "$result < $inst.rows.n -> forall j. 0 <= j < " + CM + ".n -> (" + CM + ".a j <> " + CR + " <-> "
              "((forall t. 0 <= t < $cols_to_fix.n -> $cols_to_fix.a t <> j) /\\ "
              "exists p. $inst.cols.begs.a j <= p < $inst.cols.begs.a (j + 1) /\\ " + RM + ".a ($inst.cols.idxs.a p) <> " + RR + "))")],
    loops={
        1: dict(inv=[CM + ".n = $inst.cols.begs.n - 1", RM + ".n = $inst.rows.n",
                     "forall i. 0 <= i < $inst.rows.n -> (" + RM + ".a i = " + RR + " <-> (exists t. 0 <= t < $it /\\ cc $inst.cols ($cols_to_fix.a t) i > 0))",
                     "forall i. 0 <= i < $inst.rows.n -> " + RM + ".a i = " + RR + " \\/ " + RM + ".a i = 0",
                     "$removed_rows = cnt " + RM + ".a 0 " + RM + ".n " + RR,
                     "forall j. 0 <= j < " + CM + ".n -> " + CM + ".a j = 0 \\/ " + CM + ".a j = " + CR,
                     "forall j. 0 <= j < " + CM + ".n -> (" + CM + ".a j = " + CR + " <-> (exists t. 0 <= t < $it /\\ $cols_to_fix.a t = j))"]),
        2: dict(inv=[RM + ".n = $inst.rows.n",
                     "forall i. 0 <= i < $inst.rows.n -> (" + RM + ".a i = " + RR + " <-> ((exists t. 0 <= t < $it1 /\\ cc $inst.cols ($cols_to_fix.a t) i > 0) \\/ "
                     "cnt $inst.cols.idxs.a ($inst.cols.begs.a $j) ($inst.cols.begs.a $j + $it) i > 0))",
                     "forall i. 0 <= i < $inst.rows.n -> " + RM + ".a i = " + RR + " \\/ " + RM + ".a i = 0",
                     "$removed_rows = cnt " + RM + ".a 0 " + RM + ".n " + RR]),
        3: dict(inv=[CM + ".n = $inst.cols.begs.n - 1",
                     "0 <= $new_j <= $it", "$new_j = $it - cnt " + CM + ".a 0 $it " + CR,
                     "forall j. 0 <= j < $it -> " + CM + ".a j = " + CR + " \\/ " + CM + ".a j = j - cnt " + CM + ".a 0 j " + CR,
                     "forall j. $it <= j < " + CM + ".n -> " + CM + ".a j = 0 \\/ " + CM + ".a j = " + CR,
                     "forall j. $it <= j < " + CM + ".n -> (" + CM + ".a j = " + CR + " <-> (exists t. 0 <= t < $cols_to_fix.n /\\ $cols_to_fix.a t = j))",
                     "forall t. 0 <= t < $cols_to_fix.n -> " + CM + ".a ($cols_to_fix.a t) = " + CR,
                     "forall j. 0 <= j < $it -> (" + CM + ".a j <> " + CR + " <-> "
                     "((forall t. 0 <= t < $cols_to_fix.n -> $cols_to_fix.a t <> j) /\\ "
                     "exists p. $inst.cols.begs.a j <= p < $inst.cols.begs.a (j + 1) /\\ " + RM + ".a ($inst.cols.idxs.a p) <> " + RR + "))"]),
        4: dict(inv=[RM + ".n = $inst.rows.n", "0 <= $n <= $it", "$n = $it - cnt " + RM + ".a 0 $it " + RR,
                     "forall j. 0 <= j < $it -> " + RM + ".a j = " + RR + " \\/ " + RM + ".a j = j - cnt " + RM + ".a 0 j " + RR,
                     "forall i. 0 <= i < $inst.rows.n -> (" + RM + ".a i = " + RR + " <-> (" + RM + "'L.a i = " + RR + "))",
                     "cnt " + RM + ".a 0 " + RM + ".n " + RR + " = cnt " + RM + "'L.a 0 " + RM + ".n " + RR]),
    })

IX, BG, CO, RW = "$inst.cols.idxs", "$inst.cols.begs", "$inst.costs", "$inst.rows"
MAPS_OK = ["compact %s %s" % (CM, CR), "compact %s %s" % (RM, RR)]
SEG = "forall j i. 0 <= j < %%s -> %s.a j <> %s -> 0 <= i < %s.n -> %s.a i <> %s -> " \
      "cnt %s.a (%s.a (%s.a j)) (if %s.a j + 1 < $new_j then %s.a (%s.a j + 1) else %%s) (%s.a i) = cc %s'0 %s'0 j i" % (
          CM, CR, RM, RM, RR, IX, BG, CM, CM, BG, CM, RM, IX, BG)
SPECS["cft::local::inplace_apply_col_map"] = dict(
    params=["old2new", "inst"], use=["inst.I", "fx.Fx"], props=["C06"],
    requires=MAPS_OK + ["wf_cols $inst.cols " + RM + ".n", "%s.n = %s.n - 1" % (CM, BG), "%s.n = %s.n - 1" % (CO, BG),
                        BG + ".n <= 2147483646"],
    ensures=[("one column per kept column", "%s.n = nkept %s %s + 1 /\\ %s.n = nkept %s %s" % (BG, CM, CR, CO, CM, CR)),
             ("columns well formed over the kept rows", "wf_cols $inst.cols (nkept %s %s)" % (RM, RR)),
             ("kept columns keep their cost", "forall j. 0 <= j < %s.n -> %s.a j <> %s -> %s.a (%s.a j) = %s'0.a j" % (CM, CM, CR, CO, CM, CO)),
             ("kept columns keep their kept rows",
              "forall j i. 0 <= j < %s.n -> %s.a j <> %s -> 0 <= i < %s.n -> %s.a i <> %s -> cc $inst.cols (%s.a j) (%s.a i) = cc $inst.cols'0 j i" % (
                  CM, CM, CR, RM, RM, RR, CM, RM))],
    loops={
        1: dict(inv=["%s.n = %s'0.n /\\ %s.n = %s'0.n /\\ %s.n = %s'0.n" % (IX, IX, BG, BG, CO, CO),
                     "0 <= $new_j <= $it <= %s.n /\\ $new_j = $it - cnt %s.a 0 $it %s" % (CM, CM, CR),
                     "0 <= $n <= %s'0.a $it" % BG,
                     "$new_j = 0 -> $n = 0",
                     "$new_j > 0 -> %s.a 0 = 0" % BG,
                     "forall p. %s'0.a $it <= p < %s.n -> %s.a p = %s'0.a p" % (BG, IX, IX, IX),
                     "forall k. $it <= k < %s.n -> %s.a k = %s'0.a k" % (BG, BG, BG),
                     "forall k. $it <= k < %s.n -> %s.a k = %s'0.a k" % (CO, CO, CO),
                     "forall k. 0 <= k < $new_j -> 0 <= %s.a k <= $n" % BG,
                     "forall k l. 0 <= k <= l < $new_j -> %s.a k <= %s.a l" % (BG, BG),
                     "forall p. 0 <= p < $n -> 0 <= %s.a p < nkept %s %s" % (IX, RM, RR),
                     "forall j. 0 <= j < $it -> %s.a j <> %s -> %s.a (%s.a j) = %s'0.a j" % (CM, CR, CO, CM, CO),
                     SEG % ("$it", "$n")]),
        2: dict(inv=["%s.n = %s'0.n" % (IX, IX),
                     "0 <= $new_beg_idx <= $n <= %s'0.a $old_j + $it" % BG,
                     "forall p. %s'0.a $old_j + $it <= p < %s.n -> %s.a p = %s'0.a p" % (BG, IX, IX, IX),
                     "forall p. 0 <= p < $n -> 0 <= %s.a p < nkept %s %s" % (IX, RM, RR),
                     "forall i. 0 <= i < %s.n -> %s.a i <> %s -> cnt %s.a $new_beg_idx $n (%s.a i) = "
                     "cnt %s'0.a (%s'0.a $old_j) (%s'0.a $old_j + $it) i" % (RM, RM, RR, IX, RM, IX, BG, BG),
                     SEG % ("$old_j", "$new_beg_idx")]),
    })

ROWK = "0 <= i < %s.n -> %s.a i <> %s -> i < %%s -> " % (RM, RM, RR)
SPECS["cft::local::inplace_apply_row_map"] = dict(
    params=["old2new", "inst"], use=["inst.I", "fx.Fx"], props=["C06"],
    requires=MAPS_OK + ["%s.n = %s.n" % (RM, RW), RM + ".n <= 32766",
                        "forall i k. 0 <= i < %s.n -> 0 <= k < (%s.a i).n -> 0 <= (%s.a i).a k < %s.n" % (RW, RW, RW, CM),
                        "forall i. 0 <= i < %s.n -> (%s.a i).n <= 2147483646" % (RW, RW),
                        "forall i. 0 <= i < %s.n -> %s.a i <> %s -> exists j. 0 <= j < %s.n /\\ %s.a j <> %s /\\ cnt (%s.a i).a 0 (%s.a i).n j > 0" % (
                            RW, RM, RR, CM, CM, CR, RW, RW)],
    ensures=[("one row per kept row", "%s.n = nkept %s %s" % (RW, RM, RR)),
             ("kept rows keep their kept columns",
              "forall i j. 0 <= i < %s.n -> %s.a i <> %s -> 0 <= j < %s.n -> %s.a j <> %s -> "
              "cnt (%s.a (%s.a i)).a 0 (%s.a (%s.a i)).n (%s.a j) = cnt (%s'0.a i).a 0 (%s'0.a i).n j" % (
                  RM, RM, RR, CM, CM, CR, RW, RM, RW, RM, CM, RW, RW)),
             ("row entries are kept columns", "forall i k. 0 <= i < %s.n -> 0 <= k < (%s.a i).n -> 0 <= (%s.a i).a k < nkept %s %s" % (RW, RW, RW, CM, CR)),
             ("rows no longer than before", "forall i. 0 <= i < %s.n -> 0 < (%s.a i).n <= 2147483646" % (RW, RW))],
    loops={
        1: dict(inv=["%s.n = %s'0.n" % (RW, RW),
                     "0 <= $new_i <= $it <= %s.n /\\ $new_i = $it - cnt %s.a 0 $it %s" % (RM, RM, RR),
                     "forall i. $it <= i < %s.n -> %s.a i = %s'0.a i" % (RW, RW, RW),
                     "forall i j. 0 <= i < $it -> %s.a i <> %s -> 0 <= j < %s.n -> %s.a j <> %s -> "
                     "cnt (%s.a (%s.a i)).a 0 (%s.a (%s.a i)).n (%s.a j) = cnt (%s'0.a i).a 0 (%s'0.a i).n j" % (
                         RM, RR, CM, CM, CR, RW, RM, RW, RM, CM, RW, RW),
                     "forall i k. 0 <= i < $new_i -> 0 <= k < (%s.a i).n -> 0 <= (%s.a i).a k < nkept %s %s" % (RW, RW, CM, CR),
                     "forall i. 0 <= i < $new_i -> 0 < (%s.a i).n <= 2147483646" % RW]),
        2: dict(inv=["%s.n = %s'0.n" % (RW, RW), "0 <= $w <= $it",
                     "forall i. 0 <= i < %s.n -> i <> $new_i - 1 -> %s.a i = %s'L.a i" % (RW, RW, RW),
                     "(%s.a ($new_i - 1)).n = (%s'0.a $old_i).n" % (RW, RW),
                     "forall k. $it <= k < (%s'0.a $old_i).n -> (%s.a $old_i).a k = (%s'0.a $old_i).a k" % (RW, RW, RW),
                     "forall j. 0 <= j < %s.n -> %s.a j <> %s -> cnt (%s.a ($new_i - 1)).a 0 $w (%s.a j) = cnt (%s'0.a $old_i).a 0 $it j" % (
                         CM, CM, CR, RW, CM, RW),
                     "forall k. 0 <= k < $w -> 0 <= (%s.a ($new_i - 1)).a k < nkept %s %s" % (RW, CM, CR)])})

EMPTY = "%s.n = 1 /\\ %s.a 0 = 0 /\\ %s.n = 0 /\\ %s.n = 0 /\\ %s.n = 0" % (BG, BG, IX, RW, CO)
SPECS["cft::clear_inst"] = dict(params=["inst"], props=["C06"], ensures=[("instance without rows and columns", EMPTY)])

NR = "cnt %s.a 0 %s.n %s" % (RM, RM, RR)
COV0 = "(exists t. 0 <= t < $cols_to_fix.n /\\ cc $inst.cols'0 ($cols_to_fix.a t) i > 0)"
REM_ENS = [
    ("map sizes", "%s.n = %s'0.n - 1 /\\ %s.n = %s'0.n" % (CM, BG, RM, RW)),
    ("removed rows are those covered by the fixed columns",
     "forall i [%s.a i]. 0 <= i < %s.n -> (%s.a i = %s <-> covered $inst.cols'0 $cols_to_fix i)" % (RM, RM, RM, RR)),
    ("fixed columns are removed", "forall t [$cols_to_fix.a t]. 0 <= t < $cols_to_fix.n -> %s.a ($cols_to_fix.a t) = %s" % (CM, CR)),
    ("column map small", "forall j. 0 <= j < %s.n -> %s.a j = %s \\/ 0 <= %s.a j <= j" % (CM, CM, CR, CM)),
    ("nothing is left when every row is removed", NR + " = " + RM + ".n -> " + EMPTY),
    ("maps are order preserving and dense", "%s < %s.n -> compact %s %s /\\ compact %s %s" % (NR, RM, CM, CR, RM, RR)),
    ("sizes of the instance left", "%s < %s.n -> %s.n = nkept %s %s + 1 /\\ %s.n = nkept %s %s /\\ %s.n = nkept %s %s" % (
        NR, RM, BG, CM, CR, CO, CM, CR, RW, RM, RR)),
    ("the instance left is well formed", "%s < %s.n -> wf_inst $inst" % (NR, RM)),
    ("the columns left are the old ones that still cover a row", "%s < %s.n -> forall j. 0 <= j < %s.n -> (%s.a j <> %s <-> "
     "((forall t. 0 <= t < $cols_to_fix.n -> $cols_to_fix.a t <> j) /\\ "
     "exists p. %s'0.a j <= p < %s'0.a (j + 1) /\\ %s.a (%s'0.a p) <> %s))" % (NR, RM, CM, CM, CR, BG, BG, RM, IX, RR)),
    ("every column left keeps its cost", "%s < %s.n -> forall k. 0 <= k < %s.n -> %s.a k = %s'0.a (cinv %s k)" % (NR, RM, CO, CO, CO, CM)),
    ("every column left keeps its rows", "%s < %s.n -> forall k i [cc $inst.cols k i]. 0 <= k < %s.n -> 0 <= i < %s.n -> "
     "cc $inst.cols k i = cc $inst.cols'0 (cinv %s k) (cinv %s i)" % (NR, RM, CO, RW, CM, RM)),
]
CMPC = "%s < %s.n -> " % (NR, RM)
SPECS["cft::remove_fixed_cols_from_inst"] = dict(
    params=["cols_to_fix", "inst", "old2new"], use=["inst.I", "fx.Fx", "rel.R"], props=["C06"],
    requires=[WF, "valid_idxs $cols_to_fix (%s.n - 1)" % BG, "0 < $cols_to_fix.n"],
    ensures=REM_ENS,
    calls={("cft::local::inplace_apply_row_map", 0): dict(before=[
        "let lemma rowkept (i: int) requires { 0 <= i < %s.n } requires { %s.a i <> %s }\n"
        "ensures { exists j. 0 <= j < %s.n /\\ %s.a j <> %s /\\ cnt (%s.a i).a 0 (%s.a i).n j > 0 } =\n"
        "let ghost j = (%s.a i).a 0 in\nassert { (%s.a i).n > 0 };\n assert { 0 <= j < %s.n /\\ cnt (%s.a i).a 0 (%s.a i).n j > 0 }; "
        "\nassert { cc $inst.cols'0 j i > 0 };\n assert { %s.a j <> %s } in " % (
            RW, RM, RR, CM, CM, CR, RW, RW, RW, RW, CM, RW, RW, CM, CR)])},
    exit=["assert { %sforall i [%s.a i | cc $inst.cols 0 i]. 0 <= i < %s.n -> 0 <= cinv %s i < %s.n /\\ %s.a (cinv %s i) = i }" % (CMPC, RW, RW, RM, RM, RM, RM),
          "assert { %sforall j [%s.a j | cc $inst.cols j 0]. 0 <= j < %s.n -> 0 <= cinv %s j < %s.n /\\ %s.a (cinv %s j) = j }" % (CMPC, CO, CO, CM, CM, CM, CM),
          "assert { %sforall k i [cc $inst.cols k i]. 0 <= k < %s.n -> 0 <= i < %s.n -> "
          "cc $inst.cols k i = cc $inst.cols'0 (cinv %s k) (cinv %s i) }" % (CMPC, CO, RW, CM, RM),
          "assert { %swf_cols $inst.cols %s.n }" % (CMPC, RW),
          "assert { %sforall k i. 0 <= k < %s.n -> not (0 <= i < %s.n) -> cc $inst.cols k i <= 0 }" % (CMPC, CO, RW),
          "assert { %snodup $inst.cols }" % CMPC,
          "assert { %sforall i k. 0 <= i < %s.n -> 0 <= k < %s.n -> "
          "cnt (%s.a i).a 0 (%s.a i).n k = cnt (%s'0.a (cinv %s i)).a 0 (%s'0.a (cinv %s i)).n (cinv %s k) }" % (CMPC, RW, CO, RW, RW, RW, RM, RW, RM, CM),
          "assert { %srows_ok $inst.cols %s }" % (CMPC, RW),
          "assert { %srows_nonempty %s }" % (CMPC, RW)])

FXC = "$fixing.fixed_cols"
STEP = ("fix_step $inst.cols'0 $inst.costs'0 $inst.rows'0.n $inst.cols $inst.costs $inst.rows.n "
        "%s'0 %s'0 $fixing.fixed_cols'0 $fixing.fixed_cost'0 %s %s $fixing.fixed_cols $fixing.fixed_cost %s %s $cols_to_fix" % (
            FC, FR_, FC, FR_, CM, RM))
SPECS["cft::fix_columns_and_compute_maps"] = dict(
    params=["cols_to_fix", "inst", "fixing", "old2new"], use=["inst.I", "fx.Fx", "rel.R", "rel.RelP"], props=["C06", "C01", "C02"],
    requires=[WF, "valid_idxs $cols_to_fix (%s.n - 1)" % BG, "0 < $cols_to_fix.n",
              FC + ".n = " + BG + ".n - 1", FR_ + ".n = " + RW + ".n",
              "forall j. 0 <= j < " + FC + ".n -> 0 <= " + FC + ".a j < 2147483647"],
    ensures=[("the instance left is well formed", "wf_inst $inst"),
             ("exact residual problem, maps, fixed columns and fixed cost", STEP)] + REM_ENS[:4] + [REM_ENS[5], REM_ENS[6], REM_ENS[8]],
    exit=["assert { %s.n = 0 \\/ %s < %s.n }" % (RW, NR, RM),
          "assert { forall i [%s.a i]. 0 <= i < %s.n -> 0 <= cinv %s i < %s.n /\\ %s.a (cinv %s i) = i }" % (FR_, RW, RM, RM, RM, RM),
          "assert { forall j [%s.a j]. 0 <= j < %s.n -> 0 <= cinv %s j < %s.n /\\ %s.a (cinv %s j) = j }" % (FC, CO, CM, CM, CM, CM),
          "assert { forall k t [%s.a k, $cols_to_fix.a t]. 0 <= k < %s.n -> 0 <= t < $cols_to_fix.n -> cc $inst.cols'0 ($cols_to_fix.a t) (cinv %s k) = 0 }" % (FR_, RW, RM),
          "assert { forall j t [%s.a j, $cols_to_fix.a t]. 0 <= j < %s.n -> 0 <= t < $cols_to_fix.n -> cinv %s j <> $cols_to_fix.a t }" % (FC, CO, CM),
          "assert { forall j k [%s.a j, %s.a k]. 0 <= j < k < %s.n -> cinv %s j < cinv %s k }" % (FC, FC, CO, CM, CM),
          "assert { forall i k [%s.a i, %s.a k]. 0 <= i < k < %s.n -> cinv %s i < cinv %s k }" % (FR_, FR_, RW, RM, RM),
          "let lemma lcov (i: int)\nrequires { 0 <= i < %s.n }\nensures { hitc %s %s.n i \\/ covered $inst.cols'0 $cols_to_fix i } =\n"
          "if %s.a i = %s then () else assert { cinv %s (%s.a i) = i /\\ 0 <= %s.a i < %s.n } in" % (RM, RM, RW, RM, RR, RM, RM, RM, RW),
          re.sub(r"(\$[\w.]+'0\.n)", r"(\1)", STEP).replace("fix_step", "fix_step_intro"),
          ])
