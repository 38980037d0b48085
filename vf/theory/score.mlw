(* Greedy scores: uncovered rows of a column, multipliers of its covered rows, and how covering a row changes them. *)
module ScD
  use int.Int
  use real.RealInfix
  use real.FromInt
  use map.Map
  use cft.All
  use export inst.I
  use export sums.Sum

  (* entries of x[lo, hi) whose counter in cv is not positive *)
  function ncv (x cv: int -> int) (lo hi: int) : int
  axiom ncv_0: forall x cv lo hi [ncv x cv lo hi]. hi <= lo -> ncv x cv lo hi = 0
  axiom ncv_s: forall x cv lo h hi [ncv x cv lo h, ncv x cv lo hi]. lo <= h -> hi = h + 1 ->
    ncv x cv lo hi = ncv x cv lo h + (if cv (x h) > 0 then 0 else 1)
  (* sum of the multipliers of the entries whose counter is positive *)
  function ucv (u: int -> real) (x cv: int -> int) (lo hi: int) : real
  axiom ucv_0: forall u x cv lo hi [ucv u x cv lo hi]. hi <= lo -> ucv u x cv lo hi = 0.0
  axiom ucv_s: forall u x cv lo h hi [ucv u x cv lo h, ucv u x cv lo hi]. lo <= h -> hi = h + 1 ->
    ucv u x cv lo hi = ucv u x cv lo h +. (if cv (x h) > 0 then u (x h) else 0.0)
  (* the counters below k, zero from k on *)
  function mask (cv: int -> int) (k: int) : int -> int
  axiom mask_def: forall cv k i [mask cv k i]. mask cv k i = if i < k then cv i else 0

  function score_of (g: real) (m: int) : real =
    if m = 0 then rmax else if g >. 0.0 then g /. from_int m else g *. from_int m
  predicate bnd (g: real) = -. 1000000000000000000000000000000000.0 <=. g <=. 1000000000000000000000000000000000.0

  (* gammas and uncovered row numbers of all columns, for the counters cv *)
  predicate sc_gam (idxs begs: vec int) (u: vec real) (rc: vec real) (cv: int -> int) (cov: vec int) (gam: vec real) =
    cov.n = begs.n - 1 /\ gam.n = begs.n - 1 /\
    forall j [cov.a j | gam.a j]. 0 <= j < begs.n - 1 ->
      cov.a j = ncv idxs.a cv (begs.a j) (begs.a (j + 1)) /\ gam.a j = rc.a j +. ucv u.a idxs.a cv (begs.a j) (begs.a (j + 1))
  (* the score list and the map from columns to their place in it *)
  predicate sc_map (n: int) (scs: vec sd) (smap: vec int) =
    scs.n = n /\ smap.n = n
    /\ (forall s [scs.a s]. 0 <= s < n -> 0 <= sd_idx (scs.a s) < n /\ smap.a (sd_idx (scs.a s)) = s)
    /\ (forall j [smap.a j]. 0 <= j < n -> 0 <= smap.a j < n /\ sd_idx (scs.a (smap.a j)) = j)
  predicate sc_val (scs: vec sd) (cov: vec int) (gam: vec real) =
    forall s [scs.a s]. 0 <= s < scs.n -> sd_score (scs.a s) = score_of (gam.a (sd_idx (scs.a s))) (cov.a (sd_idx (scs.a s)))

  (* how often the first k columns of s contain row i *)
  function ccs (idxs begs: vec int) (s: int -> int) (k i: int) : int
  axiom ccs_0: forall x b s k i [ccs x b s k i]. k <= 0 -> ccs x b s k i = 0
  axiom ccs_s: forall x b s h k i [ccs x b s h i, ccs x b s k i]. 0 <= h -> k = h + 1 -> ccs x b s k i = ccs x b s h i + cc x b (s h) i

  (* the columns of a row updated once the row is covered *)
  predicate sc_row (b: vec int) (u: vec real) (row cov: vec int) (gam: vec real) (cov2: vec int) (gam2: vec real) (i: int) =
    cov2.n = cov.n /\ gam2.n = gam.n /\ forall j [cov2.a j | gam2.a j]. 0 <= j < b.n - 1 ->
      cov2.a j = cov.a j - cnt row.a 0 row.n j /\ gam2.a j = gam.a j +. (if cnt row.a 0 row.n j > 0 then u.a i else 0.0)
  predicate samepos (c1 c2: int -> int) (m: int) = forall i. 0 <= i < m -> (c1 i > 0 <-> c2 i > 0)
end

module ScL
  use int.Int
  use real.RealInfix
  use real.FromInt
  use map.Map
  use cft.All
  use ScD
  use cnt.CntLemmas
  use sel.SelD
  use sel.SelL

  let rec lemma ncv_b (x cv: int -> int) (lo hi: int)
    ensures { 0 <= ncv x cv lo hi /\ (lo <= hi -> ncv x cv lo hi <= hi - lo) } variant { hi - lo }
  = if lo < hi then ncv_b x cv lo (hi - 1)
  let rec lemma ncv_zero (x cv: int -> int) (lo hi: int)
    requires { lo <= hi }
    ensures { ncv x cv lo hi = 0 <-> forall p. lo <= p < hi -> cv (x p) > 0 } variant { hi - lo }
  = if lo < hi then begin ncv_zero x cv lo (hi - 1); ncv_b x cv lo (hi - 1) end
  let rec lemma ncv_set (x cv: int -> int) (lo hi i v: int)
    requires { cv i <= 0 } requires { v > 0 }
    ensures { ncv x (set cv i v) lo hi = ncv x cv lo hi - cnt x lo hi i } variant { hi - lo }
  = if lo < hi then ncv_set x cv lo (hi - 1) i v
  let rec lemma ucv_set (u: int -> real) (x cv: int -> int) (lo hi i v: int)
    requires { cv i <= 0 } requires { v > 0 } requires { cnt x lo hi i <= 1 }
    ensures { ucv u x (set cv i v) lo hi = ucv u x cv lo hi +. (if cnt x lo hi i > 0 then u i else 0.0) } variant { hi - lo }
  = if lo < hi then begin cnt_bounds x lo (hi - 1) i; ucv_set u x cv lo (hi - 1) i v end
  let rec lemma ncv_ext (x c1 c2: int -> int) (lo hi m: int)
    requires { samepos c1 c2 m } requires { forall p. lo <= p < hi -> 0 <= x p < m }
    ensures { ncv x c1 lo hi = ncv x c2 lo hi } variant { hi - lo }
  = if lo < hi then ncv_ext x c1 c2 lo (hi - 1) m
  let rec lemma ucv_ext (u: int -> real) (x c1 c2: int -> int) (lo hi m: int)
    requires { samepos c1 c2 m } requires { forall p. lo <= p < hi -> 0 <= x p < m }
    ensures { ucv u x c1 lo hi = ucv u x c2 lo hi } variant { hi - lo }
  = if lo < hi then ucv_ext u x c1 c2 lo (hi - 1) m
  let rec lemma ncv_none (x cv: int -> int) (lo hi m: int)
    requires { forall i. 0 <= i < m -> cv i <= 0 } requires { lo <= hi } requires { forall p. lo <= p < hi -> 0 <= x p < m }
    ensures { ncv x cv lo hi = hi - lo } variant { hi - lo }
  = if lo < hi then ncv_none x cv lo (hi - 1) m
  let rec lemma ucv_none (u: int -> real) (x cv: int -> int) (lo hi m: int)
    requires { forall i. 0 <= i < m -> cv i <= 0 } requires { forall p. lo <= p < hi -> 0 <= x p < m }
    ensures { ucv u x cv lo hi = 0.0 } variant { hi - lo }
  = if lo < hi then ucv_none u x cv lo (hi - 1) m
  let rec lemma ucv_b (u: int -> real) (x cv: int -> int) (lo hi m: int)
    requires { forall i. 0 <= i < m -> 0.0 <=. u i <=. 10000000000000000000000000000.0 } requires { lo <= hi } requires { forall p. lo <= p < hi -> 0 <= x p < m }
    ensures { 0.0 <=. ucv u x cv lo hi <=. 10000000000000000000000000000.0 *. from_int (hi - lo) } variant { hi - lo }
  = if lo < hi then begin
      ucv_b u x cv lo (hi - 1) m;
      assert { from_int (hi - lo) = from_int (hi - 1 - lo) +. 1.0 }
    end

  (* a column without repeated rows has at most one entry per row *)
  function offs (x: int -> int) (lo: int) : int -> int
  axiom offs_def: forall x lo t [offs x lo t]. offs x lo t = x (lo + t)
  let lemma col_len (x b: vec int) (m j: int)
    requires { wf_cols x b m } requires { nodup x b } requires { 0 <= j < b.n - 1 }
    ensures { 0 <= b.a (j + 1) - b.a j <= m }
  = let ghost lo = b.a j in
    let ghost hi = b.a (j + 1) in
    assert { b.a j <= b.a (j + 1) <= b.a (b.n - 1) }; assert { 0 <= lo };
    let lemma inj (t v: int) requires { 0 <= t < v < hi - lo } ensures { offs x.a lo t <> offs x.a lo v }
    = if x.a (lo + t) = x.a (lo + v) then begin
        cnt_two x.a lo hi (lo + t) (lo + v);
        assert { cc x b j (x.a (lo + t)) >= 2 }; assert { false }
      end in
    assert { dist (offs x.a lo) (hi - lo) };
    assert { forall t. 0 <= t < hi - lo -> 0 <= x.a (lo + t) < m };
    dist_le (offs x.a lo) (hi - lo) m

  let lemma gam_none_l (x b: vec int) (u rc: vec real) (cv: int -> int) (cov: vec int) (gam: vec real)
    requires { wf_cols x b u.n } requires { forall i. 0 <= i < u.n -> cv i <= 0 } requires { cov.n = b.n - 1 /\ gam.n = b.n - 1 }
    requires { forall j. 0 <= j < b.n - 1 -> cov.a j = b.a (j + 1) - b.a j /\ gam.a j = rc.a j }
    ensures { sc_gam x b u rc cv cov gam }
  = let lemma one (j: int) requires { 0 <= j < b.n - 1 }
      ensures { cov.a j = ncv x.a cv (b.a j) (b.a (j + 1)) /\ gam.a j = rc.a j +. ucv u.a x.a cv (b.a j) (b.a (j + 1)) }
    = assert { 0 <= b.a j <= b.a (j + 1) <= b.a (b.n - 1) };
      ncv_none x.a cv (b.a j) (b.a (j + 1)) u.n; ucv_none u.a x.a cv (b.a j) (b.a (j + 1)) u.n in
    ()
  let lemma gam_bnd_l (x b: vec int) (u rc: vec real) (cv: int -> int) (cov: vec int) (gam: vec real) (j: int)
    requires { wf_cols x b u.n } requires { nodup x b } requires { sc_gam x b u rc cv cov gam } requires { 0 <= j < b.n - 1 }
    requires { forall i. 0 <= i < u.n -> 0.0 <=. u.a i <=. 10000000000000000000000000000.0 }
    requires { forall j. 0 <= j < b.n - 1 -> -. 100000000000000000000000000000000.0 <=. rc.a j <=. 100000000000000000000000000000000.0 }
    ensures { bnd (gam.a j) /\ 0 <= cov.a j <= u.n }
  = col_len x b u.n j;
    assert { 0 <= b.a j <= b.a (j + 1) <= b.a (b.n - 1) };
    ncv_b x.a cv (b.a j) (b.a (j + 1)); ucv_b u.a x.a cv (b.a j) (b.a (j + 1)) u.n;
    assert { from_int (b.a (j + 1) - b.a j) <=. 32766.0 };
    assert { cov.a j = ncv x.a cv (b.a j) (b.a (j + 1)) };
    assert { gam.a j = rc.a j +. ucv u.a x.a cv (b.a j) (b.a (j + 1)) }
  let lemma gam_ext_l (x b: vec int) (u rc: vec real) (c1 c2: int -> int) (cov: vec int) (gam: vec real)
    requires { wf_cols x b u.n } requires { samepos c1 c2 u.n } requires { sc_gam x b u rc c1 cov gam }
    ensures { sc_gam x b u rc c2 cov gam }
  = let lemma one (j: int) requires { 0 <= j < b.n - 1 }
      ensures { cov.a j = ncv x.a c2 (b.a j) (b.a (j + 1)) /\ gam.a j = rc.a j +. ucv u.a x.a c2 (b.a j) (b.a (j + 1)) }
    = assert { 0 <= b.a j <= b.a (j + 1) <= b.a (b.n - 1) };
      assert { cov.a j = ncv x.a c1 (b.a j) (b.a (j + 1)) };
      ncv_ext x.a c1 c2 (b.a j) (b.a (j + 1)) u.n; ucv_ext u.a x.a c1 c2 (b.a j) (b.a (j + 1)) u.n in
    ()

  let lemma gam_step_l (x b: vec int) (u rc: vec real) (c: int -> int) (cov cov2: vec int) (gam gam2: vec real) (i: int) (row: vec int)
    requires { wf_cols x b u.n } requires { nodup x b } requires { c i <= 0 } requires { sc_gam x b u rc c cov gam }
    requires { forall j. 0 <= j < b.n - 1 -> cnt row.a 0 row.n j = cc x b j i } requires { sc_row b u row cov gam cov2 gam2 i }
    ensures { sc_gam x b u rc (set c i 1) cov2 gam2 }
  = let lemma one (j: int) requires { 0 <= j < b.n - 1 }
      ensures { cov2.a j = ncv x.a (set c i 1) (b.a j) (b.a (j + 1)) /\ gam2.a j = rc.a j +. ucv u.a x.a (set c i 1) (b.a j) (b.a (j + 1)) }
    = assert { cc x b j i <= 1 };
      assert { cov.a j = ncv x.a c (b.a j) (b.a (j + 1)) };
      ncv_set x.a c (b.a j) (b.a (j + 1)) i 1; ucv_set u.a x.a c (b.a j) (b.a (j + 1)) i 1 in
    ()
  let lemma ncv_pos_l (x cv: int -> int) (lo hi i: int)
    requires { cv i <= 0 } ensures { cnt x lo hi i <= ncv x cv lo hi }
  = ncv_set x cv lo hi i 1; ncv_b x (set cv i 1) lo hi

  let lemma mask_step (cv: int -> int) (k m: int)
    requires { cv k <= 0 } ensures { samepos (mask cv (k + 1)) (mask cv k) m }
  = ()
  let lemma mask_step2 (cv: int -> int) (k m: int)
    requires { cv k > 0 } ensures { samepos (mask cv (k + 1)) (set (mask cv k) k 1) m }
  = ()

  (* more covered rows, larger gamma: a score that is not smaller *)
  let lemma score_mono (g1 g2: real) (m1 m2: int)
    requires { g1 <=. g2 } requires { 0 <= m2 <= m1 } requires { 1 <= m1 <= 32766 } requires { bnd g1 } requires { bnd g2 }
    ensures { score_of g1 m1 <=. score_of g2 m2 }
  = let ghost r = from_int m1 in
    let ghost q = from_int m2 in
    assert { 1.0 <=. r <=. 32766.0 };
    assert { 0.0 <=. q <=. r };
    assert { m2 > 0 -> 1.0 <=. q };
    assert { g1 >. 0.0 -> g1 /. r <=. g1 by r *. (g1 /. r) = g1 };
    assert { g1 <=. 0.0 -> g1 *. r <=. 0.0 };
    assert { score_of g1 m1 <=. 1000000000000000000000000000000000.0 };
    if m2 = 0 then ()
    else begin
      assert { g2 >. 0.0 -> 0.0 <=. g2 /. q by q *. (g2 /. q) = g2 };
      assert { g1 >. 0.0 -> g1 /. r <=. g2 /. q by r *. (g1 /. r) = g1 /\ q *. (g2 /. q) = g2 /\ (g1 /. r) *. q <=. (g1 /. r) *. r };
      assert { g2 <=. 0.0 -> g1 *. r <=. g2 *. q by g1 *. r <=. g1 *. q /\ g1 *. q <=. g2 *. q }
    end
  let lemma score_big (g: real) (m: int)
    requires { bnd g } requires { 1 <= m <= 32766 }
    ensures { score_of g m <. rmax }
  = score_mono g g m m;
    let ghost r = from_int m in
    assert { 1.0 <=. r <=. 32766.0 };
    assert { g >. 0.0 -> g /. r <=. g by r *. (g /. r) = g };
    assert { g <=. 0.0 -> g *. r <=. 0.0 }

  let rec lemma ccs_ext (x b: vec int) (s1 s2: int -> int) (k i: int)
    requires { forall t. 0 <= t < k -> s1 t = s2 t } ensures { ccs x b s1 k i = ccs x b s2 k i } variant { k }
  = if 0 < k then ccs_ext x b s1 s2 (k - 1) i
  let rec lemma ccs_b (x b: vec int) (s: int -> int) (k i: int)
    requires { 0 <= k }
    ensures { 0 <= ccs x b s k i } variant { k }
  = if 0 < k then begin ccs_b x b s (k - 1) i; cnt_bounds x.a (b.a (s (k - 1))) (b.a (s (k - 1) + 1)) i end
  let rec lemma ccs_le (x b: vec int) (s: int -> int) (k i: int)
    requires { 0 <= k } requires { nodup x b } requires { forall t. 0 <= t < k -> 0 <= s t < b.n - 1 }
    ensures { ccs x b s k i <= k } variant { k }
  = if 0 < k then ccs_le x b s (k - 1) i
  let rec lemma ccs_wit (x b: vec int) (s: int -> int) (k i: int)
    requires { 0 <= k } requires { ccs x b s k i > 0 }
    ensures { exists t. 0 <= t < k /\ cc x b (s t) i > 0 } variant { k }
  = if 0 < k then begin if cc x b (s (k - 1)) i > 0 then () else ccs_wit x b s (k - 1) i end
  let rec lemma ccs_pos (x b: vec int) (s: int -> int) (k i t: int)
    requires { 0 <= t < k } ensures { cc x b (s t) i <= ccs x b s k i } variant { k }
  = if t < k - 1 then begin ccs_pos x b s (k - 1) i t; cnt_bounds x.a (b.a (s (k - 1))) (b.a (s (k - 1) + 1)) i end
    else ccs_b x b s (k - 1) i
end

(* what contracts see; the axioms are proved from: ScL *)
module Sc
  use int.Int
  use real.RealInfix
  use real.FromInt
  use map.Map
  use cft.All
  use export ScD
  axiom ncv_b: forall x cv lo hi [ncv x cv lo hi]. 0 <= ncv x cv lo hi /\ (lo <= hi -> ncv x cv lo hi <= hi - lo)
  axiom ncv_zero: forall x cv lo hi p [ncv x cv lo hi, x p]. ncv x cv lo hi = 0 -> lo <= p < hi -> cv (x p) > 0
  axiom ncv_zero2: forall x cv lo hi [ncv x cv lo hi]. lo <= hi -> (forall p. lo <= p < hi -> cv (x p) > 0) -> ncv x cv lo hi = 0
  axiom ncv_set: forall x cv lo hi i v [ncv x (set cv i v) lo hi]. cv i <= 0 -> v > 0 ->
    ncv x (set cv i v) lo hi = ncv x cv lo hi - cnt x lo hi i
  axiom ucv_set: forall u x cv lo hi i v [ucv u x (set cv i v) lo hi]. cv i <= 0 -> v > 0 -> cnt x lo hi i <= 1 ->
    ucv u x (set cv i v) lo hi = ucv u x cv lo hi +. (if cnt x lo hi i > 0 then u i else 0.0)
  axiom gam_ext: forall x b u rc c1 c2 cov gam [sc_gam x b u rc c1 cov gam, sc_gam x b u rc c2 cov gam]. wf_cols x b u.n ->
    samepos c1 c2 u.n -> sc_gam x b u rc c1 cov gam -> sc_gam x b u rc c2 cov gam
  axiom gam_none: forall x b u rc cv cov gam [sc_gam x b u rc cv cov gam]. wf_cols x b u.n ->
    (forall i. 0 <= i < u.n -> cv i <= 0) -> cov.n = b.n - 1 -> gam.n = b.n - 1 ->
    (forall j. 0 <= j < b.n - 1 -> cov.a j = b.a (j + 1) - b.a j /\ gam.a j = rc.a j) -> sc_gam x b u rc cv cov gam
  axiom gam_bnd: forall x b u rc cv cov gam j [sc_gam x b u rc cv cov gam, gam.a j]. wf_cols x b u.n -> nodup x b ->
    (forall i [u.a i]. 0 <= i < u.n -> 0.0 <=. u.a i <=. 10000000000000000000000000000.0) ->
    (forall j. 0 <= j < b.n - 1 -> -. 100000000000000000000000000000000.0 <=. rc.a j <=. 100000000000000000000000000000000.0) ->
    sc_gam x b u rc cv cov gam -> 0 <= j < b.n - 1 -> bnd (gam.a j) /\ 0 <= cov.a j <= u.n
  axiom col_len: forall x b m j [wf_cols x b m, b.a j]. wf_cols x b m -> nodup x b -> 0 <= j < b.n - 1 -> 0 <= b.a (j + 1) - b.a j <= m
  axiom gam_step: forall x b u rc c cov cov2 gam gam2 i row
    [sc_gam x b u rc c cov gam, sc_row b u row cov gam cov2 gam2 i].
    wf_cols x b u.n -> nodup x b -> c i <= 0 -> sc_gam x b u rc c cov gam ->
    (forall j. 0 <= j < b.n - 1 -> cnt row.a 0 row.n j = cc x b j i) -> sc_row b u row cov gam cov2 gam2 i ->
    sc_gam x b u rc (set c i 1) cov2 gam2
  axiom ncv_pos: forall x cv lo hi i [cnt x lo hi i, ncv x cv lo hi]. cv i <= 0 -> cnt x lo hi i <= ncv x cv lo hi
  axiom mask_step: forall cv k m [samepos (mask cv (k + 1)) (mask cv k) m]. cv k <= 0 -> samepos (mask cv (k + 1)) (mask cv k) m
  axiom mask_step2: forall cv k m [samepos (mask cv (k + 1)) (set (mask cv k) k 1) m]. cv k > 0 -> samepos (mask cv (k + 1)) (set (mask cv k) k 1) m
  axiom score_mono: forall g1 g2 m1 m2 [score_of g1 m1, score_of g2 m2]. g1 <=. g2 -> 0 <= m2 <= m1 -> 1 <= m1 <= 32766 -> bnd g1 -> bnd g2 ->
    score_of g1 m1 <=. score_of g2 m2
  axiom score_big: forall g m [score_of g m]. bnd g -> 1 <= m <= 32766 -> score_of g m <. rmax
  axiom ccs_ext: forall x b s1 s2 k i [ccs x b s1 k i, ccs x b s2 k i]. (forall t. 0 <= t < k -> s1 t = s2 t) -> ccs x b s1 k i = ccs x b s2 k i
  axiom ccs_b: forall x b s k i [ccs x b s k i]. 0 <= k -> 0 <= ccs x b s k i
  axiom ccs_le: forall x b s k i [ccs x b s k i]. 0 <= k -> nodup x b -> (forall t. 0 <= t < k -> 0 <= s t < b.n - 1) -> ccs x b s k i <= k
  axiom ccs_wit: forall x b s k i [ccs x b s k i]. 0 <= k -> ccs x b s k i > 0 -> exists t. 0 <= t < k /\ cc x b (s t) i > 0
  axiom ccs_pos: forall x b s k i t [ccs x b s k i, cc x b (s t) i]. 0 <= t < k -> cc x b (s t) i <= ccs x b s k i
end
