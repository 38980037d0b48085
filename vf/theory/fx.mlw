(* Index maps with holes: kept entries carry their rank, removed entries the value r. *)
module Compact
  use int.Int
  use map.Map
  use cft.All
  use cnt.Cnt

  predicate compact (m: vec int) (r: int) =
    m.n <= r /\ forall j [m.a j]. 0 <= j < m.n -> m.a j = r \/ m.a j = j - cnt m.a 0 j r
  function nkept (m: vec int) (r: int) : int = m.n - cnt m.a 0 m.n r
  (* a position below k holding x, or -1 *)
  function find (a: int -> int) (k x: int) : int
  axiom find_0: forall a k x. k <= 0 -> find a k x = -1
  axiom find_s: forall a h k x [find a h x, find a k x]. 0 <= h -> k = h + 1 -> find a k x = if a h = x then h else find a h x
  function cinv (m: vec int) (x: int) : int = find m.a m.n x
end

module CompactLemmas
  use int.Int
  use map.Map
  use cft.All
  use cnt.Cnt
  use cnt.CntLemmas
  use Compact

  let rec lemma find_spec (a: int -> int) (k x: int)
    ensures { find a k x = -1 \/ (0 <= find a k x < k /\ a (find a k x) = x) }
    ensures { find a k x = -1 -> forall j. 0 <= j < k -> a j <> x }
    variant { k }
  = if 0 < k then find_spec a (k - 1) x

  let rec lemma rank_mono (a: int -> int) (j k r: int)
    requires { 0 <= j <= k }
    ensures { j - cnt a 0 j r <= k - cnt a 0 k r }
    variant { k - j }
  = if j < k then rank_mono a j (k - 1) r

  let lemma rank_step (a: int -> int) (j k r: int)
    requires { 0 <= j < k } requires { a j <> r }
    ensures { j - cnt a 0 j r < k - cnt a 0 k r }
  = assert { cnt a 0 (j + 1) r = cnt a 0 j r }; rank_mono a (j + 1) k r

  let rec lemma onto (a: int -> int) (k r x: int)
    requires { 0 <= k } requires { 0 <= x < k - cnt a 0 k r }
    requires { forall j. 0 <= j < k -> a j = r \/ a j = j - cnt a 0 j r }
    ensures { exists j. 0 <= j < k /\ a j <> r /\ a j = x }
    variant { k }
  = if 0 < k then begin
      if a (k - 1) <> r && x = k - 1 - cnt a 0 (k - 1) r then ()
      else begin
        assert { cnt a 0 k r = cnt a 0 (k - 1) r + (if a (k - 1) = r then 1 else 0) };
        onto a (k - 1) r x
      end
    end

  let lemma cinv_spec (m: vec int) (r x: int)
    requires { compact m r } requires { 0 <= x < nkept m r }
    ensures { 0 <= cinv m x < m.n /\ m.a (cinv m x) = x }
  = onto m.a m.n r x; find_spec m.a m.n x
end

(* what contracts see; the axioms are proved from: CompactLemmas, cnt.CntLemmas *)
module Fx
  use int.Int
  use map.Map
  use cft.All
  use export cnt.C
  use export Compact
  axiom rank_mono: forall a j k r [cnt a 0 j r, cnt a 0 k r]. 0 <= j <= k -> j - cnt a 0 j r <= k - cnt a 0 k r
  axiom rank_step: forall a j k r [a j, cnt a 0 j r, cnt a 0 k r]. 0 <= j < k -> a j <> r -> j - cnt a 0 j r < k - cnt a 0 k r
  axiom compact_range: forall m r j [m.a j, compact m r]. compact m r -> 0 <= j < m.n -> m.a j <> r -> 0 <= m.a j < nkept m r
  axiom compact_mono: forall m r j k [m.a j, m.a k, compact m r]. compact m r -> 0 <= j < k < m.n -> m.a j <> r -> m.a k <> r -> m.a j < m.a k
  axiom compact_le: forall m r j [m.a j, compact m r]. compact m r -> 0 <= j < m.n -> m.a j <> r -> m.a j <= j
  axiom cinv_spec: forall m r x [cinv m x, compact m r]. compact m r -> 0 <= x < nkept m r ->
    0 <= cinv m x < m.n /\ m.a (cinv m x) = x
  axiom cinv_inv: forall m r j [m.a j, compact m r]. compact m r -> 0 <= j < m.n -> m.a j <> r -> cinv m (m.a j) = j
end
