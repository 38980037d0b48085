(* Lagrangian lower bounds: weak duality of set covering. *)
module Dual
  use int.Int
  use real.RealInfix
  use real.FromInt
  use cft.All
  use export rel.R

  (* sum of u over the entries a[lo, hi) *)
  function usum (u: int -> real) (a: int -> int) (lo hi: int) : real
  axiom usum_0: forall u a lo hi [usum u a lo hi]. hi <= lo -> usum u a lo hi = 0.0
  axiom usum_s: forall u a lo h hi [usum u a lo h, usum u a lo hi]. lo <= h -> hi = h + 1 -> usum u a lo hi = usum u a lo h +. u (a h)
  (* sum of u[0, k) *)
  function rsum (u: int -> real) (k: int) : real
  axiom rsum_0: forall u k [rsum u k]. k <= 0 -> rsum u k = 0.0
  axiom rsum_s: forall u h k [rsum u h, rsum u k]. 0 <= h -> k = h + 1 -> rsum u k = rsum u h +. u h
  (* sum of the negative values among u[0, k) *)
  function nsum (u: int -> real) (k: int) : real
  axiom nsum_0: forall u k [nsum u k]. k <= 0 -> nsum u k = 0.0
  axiom nsum_s: forall u h k [nsum u h, nsum u k]. 0 <= h -> k = h + 1 -> nsum u k = nsum u h +. (if u h <. 0.0 then u h else 0.0)

  (* reduced cost of column j *)
  function redc (ai ab: vec int) (ac: vec real) (u: vec real) (j: int) : real = ac.a j -. usum u.a ai.a (ab.a j) (ab.a (j + 1))
  predicate redcosts (ai ab: vec int) (ac u rc: vec real) = rc.n = ab.n - 1 /\
    forall j [rc.a j]. 0 <= j < rc.n -> rc.a j = redc ai ab ac u j
  predicate nonneg (u: vec real) = forall i [u.a i]. 0 <= i < u.n -> 0.0 <=. u.a i
  (* v never exceeds the cost of a cover *)
  predicate lower_bound (ai ab: vec int) (ac: vec real) (am: int) (v: real) =
    forall s: vec int [csum ac s s.n]. valid_idxs s (ab.n - 1) -> distinct s -> covers ai ab am s -> v <=. csum ac s s.n
end

module DualP
  use int.Int
  use real.RealInfix
  use real.FromInt
  use cft.All
  use Dual
  use cnt.CntLemmas

  function wsum (u: int -> real) (m: int -> int) (k: int) : real
  axiom wsum_0: forall u m k [wsum u m k]. k <= 0 -> wsum u m k = 0.0
  axiom wsum_s: forall u m h k [wsum u m h, wsum u m k]. 0 <= h -> k = h + 1 -> wsum u m k = wsum u m h +. u h *. from_int (m h)

  let rec lemma wsum_ext (u: int -> real) (m m2: int -> int) (k: int)
    requires { forall i. 0 <= i < k -> m i = m2 i }
    ensures { wsum u m k = wsum u m2 k } variant { k }
  = if 0 < k then wsum_ext u m m2 (k - 1)
  let rec lemma wsum_zero (u: int -> real) (m: int -> int) (k: int)
    requires { forall i. 0 <= i < k -> m i = 0 }
    ensures { wsum u m k = 0.0 } variant { k }
  = if 0 < k then wsum_zero u m (k - 1)
  let rec lemma wsum_inc (u: int -> real) (m m2: int -> int) (k p: int)
    requires { forall i. 0 <= i < k -> i <> p -> m2 i = m i }
    requires { 0 <= p < k } requires { m2 p = m p + 1 }
    ensures { wsum u m2 k = wsum u m k +. u p } variant { k }
  = if p < k - 1 then wsum_inc u m m2 (k - 1) p else begin wsum_ext u m m2 (k - 1);
      assert { from_int (m2 p) = from_int (m p) +. 1.0 };
      assert { u p *. from_int (m2 p) = u p *. from_int (m p) +. u p } end
  let rec lemma wsum_add (u: int -> real) (m m2 m3: int -> int) (k: int)
    requires { forall i. 0 <= i < k -> m3 i = m i + m2 i }
    ensures { wsum u m3 k = wsum u m k +. wsum u m2 k } variant { k }
  = if 0 < k then begin wsum_add u m m2 m3 (k - 1);
     assert { from_int (m3 (k-1)) = from_int (m (k-1)) +. from_int (m2 (k-1)) };
     assert { u (k-1) *. from_int (m3 (k-1)) = u (k-1) *. from_int (m (k-1)) +. u (k-1) *. from_int (m2 (k-1)) } end
  (* the sum over the entries of a segment, grouped by value *)
  function cntf (a: int -> int) (lo hi: int) : int -> int
  axiom cntf_def: forall a lo hi x [cntf a lo hi x]. cntf a lo hi x = cnt a lo hi x
  let rec lemma usum_wsum (u: int -> real) (a: int -> int) (lo hi n: int)
    requires { forall p. lo <= p < hi -> 0 <= a p < n }
    ensures { usum u a lo hi = wsum u (cntf a lo hi) n } variant { hi - lo }
  = if lo < hi then begin
      usum_wsum u a lo (hi - 1) n;
      wsum_inc u (cntf a lo (hi - 1)) (cntf a lo hi) n (a (hi - 1))
    end else wsum_zero u (cntf a lo hi) n
  let rec lemma wsum_ge (u: int -> real) (m: int -> int) (k: int)
    requires { forall i. 0 <= i < k -> 0.0 <=. u i /\ 1 <= m i }
    ensures { rsum u k <=. wsum u m k } variant { k }
  = if 0 < k then begin wsum_ge u m (k - 1);
     assert { 1.0 <=. from_int (m (k-1)) };
     assert { u (k-1) *. 1.0 <=. u (k-1) *. from_int (m (k-1)) } end
  let rec lemma wsum_le1 (g: int -> real) (m: int -> int) (k: int)
    requires { forall i. 0 <= i < k -> 0 <= m i <= 1 }
    ensures { nsum g k <=. wsum g m k } variant { k }
  = if 0 < k then begin wsum_le1 g m (k - 1);
     assert { m (k-1) = 0 \/ m (k-1) = 1 };
     assert { from_int 0 = 0.0 /\ from_int 1 = 1.0 };
     assert { g (k-1) *. from_int (m (k-1)) = 0.0 \/ g (k-1) *. from_int (m (k-1)) = g (k-1) } end

  (* how often the first k columns of s cover row i *)
  function mult (ai ab s: vec int) (k: int) : int -> int
  axiom mult_0: forall ai ab s k i [mult ai ab s k i]. k <= 0 -> mult ai ab s k i = 0
  axiom mult_s: forall ai ab s h k i [mult ai ab s h i, mult ai ab s k i]. 0 <= h -> k = h + 1 -> mult ai ab s k i = mult ai ab s h i + cc ai ab (s.a h) i
  let rec lemma mult_nn (ai ab s: vec int) (k i: int)
    ensures { 0 <= mult ai ab s k i } variant { k }
  = if 0 < k then mult_nn ai ab s (k - 1) i
  let rec lemma mult_ge (ai ab s: vec int) (k i t: int)
    requires { 0 <= t < k } ensures { mult ai ab s k i >= cc ai ab (s.a t) i } variant { k }
  = if t < k - 1 then mult_ge ai ab s (k - 1) i t
  (* cost of the first k columns of s, by reduced costs and multiplicities *)
  let rec lemma csum_split (ai ab: vec int) (ac u rc s: vec real) (sel: vec int) (m k: int)
    requires { wf_cols ai ab m } requires { redcosts ai ab ac u rc } requires { valid_idxs sel (ab.n - 1) }
    requires { 0 <= k <= sel.n }
    ensures { csum ac sel k = usum rc.a sel.a 0 k +. wsum u.a (mult ai ab sel k) m } variant { k }
  = if 0 < k then begin
      csum_split ai ab ac u rc s sel m (k - 1);
      let ghost j = sel.a (k - 1) in
      assert { 0 <= j < ab.n - 1 };
      assert { rc.a j = redc ai ab ac u j };
      assert { 0 <= ab.a j <= ab.a (j + 1) <= ai.n };
      usum_wsum u.a ai.a (ab.a j) (ab.a (j + 1)) m;
      assert { forall i. mult ai ab sel k i = mult ai ab sel (k - 1) i + cntf ai.a (ab.a j) (ab.a (j + 1)) i };
      wsum_add u.a (mult ai ab sel (k - 1)) (cntf ai.a (ab.a j) (ab.a (j + 1))) (mult ai ab sel k) m;
      assert { csum ac sel k = csum ac sel (k - 1) +. ac.a j }
    end else begin assert { forall i. mult ai ab sel k i = 0 }; wsum_zero u.a (mult ai ab sel k) m end

  let rec lemma distinct_cnt (s: vec int) (k x: int)
    requires { distinct s } requires { 0 <= k <= s.n }
    ensures { cnt s.a 0 k x <= 1 } variant { k }
  = if 0 < k then begin distinct_cnt s (k - 1) x; if s.a (k - 1) = x then (assert { cnt s.a 0 (k - 1) x > 0 -> exists p. 0 <= p < k - 1 /\ s.a p = x }) end

  let ghost weak_duality (ai ab: vec int) (ac u rc: vec real) (m: int) (v: real)
    requires { wf_cols ai ab m } requires { redcosts ai ab ac u rc } requires { nonneg u } requires { u.n = m }
    requires { v <=. rsum u.a m +. nsum rc.a rc.n }
    ensures { lower_bound ai ab ac m v }
  = let lemma aux (s: vec int)
      requires { valid_idxs s (ab.n - 1) } requires { distinct s } requires { covers ai ab m s }
      ensures { v <=. csum ac s s.n }
    = if s.n >= 0 then begin
      csum_split ai ab ac u rc rc s m s.n;
      let lemma a2 (i: int) requires { 0 <= i < m } ensures { mult ai ab s s.n i >= 1 } =
         assert { covered ai ab s i }; assert { exists t. 0 <= t < s.n /\ cc ai ab (s.a t) i > 0 } in
      wsum_ge u.a (mult ai ab s s.n) m;
      usum_wsum rc.a s.a 0 s.n rc.n;
      let lemma a3 (j: int) requires { 0 <= j < rc.n } ensures { 0 <= cnt s.a 0 s.n j <= 1 } = distinct_cnt s s.n j in
      wsum_le1 rc.a (cntf s.a 0 s.n) rc.n
      end in ()
end

module DualL
  use int.Int
  use real.RealInfix
  use map.Map
  use cft.All
  use Dual
  let rec lemma nsum_set (u: int -> real) (k p: int) (v: real)
    requires { k <= p } ensures { nsum (set u p v) k = nsum u k } variant { k }
  = if 0 < k then nsum_set u (k - 1) p v
  let rec lemma nsum_np (u: int -> real) (k: int)
    ensures { nsum u k <=. 0.0 } variant { k }
  = if 0 < k then nsum_np u (k - 1)
  let rec lemma usum_ext (u: int -> real) (a b: int -> int) (lo hi: int)
    requires { forall p. lo <= p < hi -> a p = b p } ensures { usum u a lo hi = usum u b lo hi } variant { hi - lo }
  = if lo < hi then usum_ext u a b lo (hi - 1)
  let rec lemma rsum_nn (u: int -> real) (k: int)
    requires { forall i. 0 <= i < k -> 0.0 <=. u i } ensures { 0.0 <=. rsum u k } variant { k }
  = if 0 < k then rsum_nn u (k - 1)
end

(* what contracts see; the axioms are proved from: DualL *)
module D
  use int.Int
  use real.RealInfix
  use map.Map
  use cft.All
  use export Dual
  axiom nsum_set: forall u k p v [nsum (set u p v) k]. k <= p -> nsum (set u p v) k = nsum u k
  axiom nsum_np: forall u k [nsum u k]. nsum u k <=. 0.0
end
