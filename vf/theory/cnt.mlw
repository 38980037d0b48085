(* Counting occurrences in an array segment. *)
module Cnt
  use int.Int
  use map.Map

  (* number of p in [lo, hi) with a p = x *)
  function cnt (a: int -> int) (lo hi x: int) : int
  axiom cnt_empty: forall a lo hi x [cnt a lo hi x]. hi <= lo -> cnt a lo hi x = 0
  axiom cnt_step: forall a lo h hi x [cnt a lo h x, cnt a lo hi x]. lo <= h -> hi = h + 1 ->
    cnt a lo hi x = cnt a lo h x + (if a h = x then 1 else 0)
end

module CntLemmas
  use int.Int
  use map.Map
  use Cnt

  let rec lemma cnt_bounds (a: int -> int) (lo hi x: int)
    ensures { 0 <= cnt a lo hi x /\ (lo <= hi -> cnt a lo hi x <= hi - lo) }
    variant { hi - lo }
  = if lo < hi then cnt_bounds a lo (hi - 1) x

  let rec lemma cnt_mono (a: int -> int) (lo m hi x: int)
    requires { m <= hi }
    ensures { cnt a lo m x <= cnt a lo hi x }
    variant { hi - m }
  = if m < hi then begin
      cnt_mono a lo m (hi - 1) x;
      assert { lo < hi -> cnt a lo hi x = cnt a lo (hi - 1) x + (if a (hi - 1) = x then 1 else 0) };
      assert { hi <= lo -> cnt a lo hi x = 0 /\ cnt a lo m x = 0 }
    end

  let rec lemma cnt_split (a: int -> int) (lo m hi x: int)
    requires { lo <= m <= hi }
    ensures { cnt a lo hi x = cnt a lo m x + cnt a m hi x }
    variant { hi - m }
  = if m < hi then cnt_split a lo m (hi - 1) x

  let rec lemma cnt_ext (a b: int -> int) (lo hi x: int)
    requires { forall p. lo <= p < hi -> a p = b p }
    ensures { cnt a lo hi x = cnt b lo hi x }
    variant { hi - lo }
  = if lo < hi then cnt_ext a b lo (hi - 1) x

  let rec lemma cnt_shift (a b: int -> int) (lo hi d x: int)
    requires { forall p. lo <= p < hi -> a p = b (p + d) }
    ensures { cnt a lo hi x = cnt b (lo + d) (hi + d) x }
    variant { hi - lo }
  = if lo < hi then cnt_shift a b lo (hi - 1) d x

  let rec lemma cnt_set_out (a: int -> int) (lo hi p v x: int)
    requires { p < lo \/ hi <= p }
    ensures { cnt (set a p v) lo hi x = cnt a lo hi x }
    variant { hi - lo }
  = if lo < hi then cnt_set_out a lo (hi - 1) p v x

  let rec lemma cnt_set_in (a: int -> int) (lo hi p v x: int)
    requires { lo <= p < hi }
    ensures { cnt (set a p v) lo hi x = cnt a lo hi x - (if a p = x then 1 else 0) + (if v = x then 1 else 0) }
    variant { hi - lo }
  = if p < hi - 1 then cnt_set_in a lo (hi - 1) p v x

  let rec lemma cnt_pos (a: int -> int) (lo hi p: int)
    requires { lo <= p < hi }
    ensures { cnt a lo hi (a p) > 0 }
    variant { hi - lo }
  = if p < hi - 1 then cnt_pos a lo (hi - 1) p

  let rec lemma cnt_witness (a: int -> int) (lo hi x: int)
    requires { cnt a lo hi x > 0 }
    ensures { exists p. lo <= p < hi /\ a p = x }
    variant { hi - lo }
  = if lo < hi then begin
      if a (hi - 1) = x then () else cnt_witness a lo (hi - 1) x
    end

  let rec lemma cnt_two (a: int -> int) (lo hi p q: int)
    requires { lo <= p < q < hi } requires { a p = a q }
    ensures { cnt a lo hi (a p) >= 2 }
    variant { hi - lo }
  = if q < hi - 1 then cnt_two a lo (hi - 1) p q
    else cnt_pos a lo (hi - 1) p
end

module CntLemmas2
  use int.Int
  use Cnt
  use CntLemmas
  lemma cnt_next: forall a lo p hi x. lo <= p < hi -> a p = x ->
    cnt a lo (p + 1) x = cnt a lo p x + 1 && cnt a lo p x + 1 <= cnt a lo hi x
end

(* what contracts see; the axioms are proved from: CntLemmas, CntLemmas2 *)
module C
  use int.Int
  use map.Map
  use export Cnt
  axiom cnt_bounds: forall a lo hi x [cnt a lo hi x]. 0 <= cnt a lo hi x /\ (lo <= hi -> cnt a lo hi x <= hi - lo)
  axiom cnt_mono: forall a lo m hi x [cnt a lo m x, cnt a lo hi x]. m <= hi -> cnt a lo m x <= cnt a lo hi x
  axiom cnt_set_out: forall a lo hi p v x [cnt (set a p v) lo hi x]. p < lo \/ hi <= p -> cnt (set a p v) lo hi x = cnt a lo hi x
  axiom cnt_set_in: forall a lo hi p v x [cnt (set a p v) lo hi x]. lo <= p < hi ->
    cnt (set a p v) lo hi x = cnt a lo hi x - (if a p = x then 1 else 0) + (if v = x then 1 else 0)
  axiom cnt_pos: forall a lo hi p x [a p, cnt a lo hi x]. lo <= p < hi -> a p = x -> cnt a lo hi x > 0
  axiom cnt_next: forall a lo p hi x [a p, cnt a lo p x, cnt a lo hi x]. lo <= p < hi -> a p = x -> cnt a lo p x + 1 <= cnt a lo hi x
  axiom cnt_witness: forall a lo hi x. cnt a lo hi x > 0 -> exists p. lo <= p < hi /\ a p = x
  axiom cnt_ext: forall a b lo hi x [cnt a lo hi x, cnt b lo hi x]. (forall p. lo <= p < hi -> a p = b p) -> cnt a lo hi x = cnt b lo hi x
end
