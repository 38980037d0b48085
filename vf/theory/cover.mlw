(* Number of covered rows of a counter array. *)
module Ncov
  use int.Int
  use cft.All
  function ncova (a: int -> int) (k: int) : int
  axiom ncova_0: forall a k [ncova a k]. k <= 0 -> ncova a k = 0
  axiom ncova_s: forall a k h [ncova a k, ncova a h]. 0 <= h -> k = h + 1 -> ncova a k = ncova a h + (if a h > 0 then 1 else 0)
  function ncov (v: vec int) (k: int) : int = ncova v.a k
end

module NcovLemmas
  use int.Int
  use cft.All
  use map.Map
  use Ncov
  let rec lemma ncova_b (a: int -> int) (k: int)
    ensures { 0 <= ncova a k /\ (0 <= k -> ncova a k <= k) }
    variant { k }
  = if 0 < k then ncova_b a (k - 1)
  let rec lemma ncova_set_out (a: int -> int) (k p v: int)
    requires { p < 0 \/ k <= p }
    ensures { ncova (set a p v) k = ncova a k }
    variant { k }
  = if 0 < k then ncova_set_out a (k - 1) p v
  let rec lemma ncova_set (a: int -> int) (k p v: int)
    requires { 0 <= p < k }
    ensures { ncova (set a p v) k = ncova a k - (if a p > 0 then 1 else 0) + (if v > 0 then 1 else 0) }
    variant { k }
  = if p < k - 1 then ncova_set a (k - 1) p v else ncova_set_out a (k - 1) p v
  let rec lemma ncova_full (a: int -> int) (k p: int)
    requires { ncova a k >= k } requires { 0 <= p < k }
    ensures { a p > 0 }
    variant { k }
  = if 0 < k then begin ncova_b a (k - 1); if p < k - 1 then ncova_full a (k - 1) p end
  let rec lemma ncova_all (a: int -> int) (k: int)
    requires { forall p. 0 <= p < k -> a p > 0 } requires { 0 <= k }
    ensures { ncova a k = k }
    variant { k }
  = if 0 < k then ncova_all a (k - 1)
  let rec lemma ncova_none (a: int -> int) (k: int)
    requires { forall p. 0 <= p < k -> a p <= 0 }
    ensures { ncova a k = 0 }
    variant { k }
  = if 0 < k then ncova_none a (k - 1)
end

(* what contracts see; the axioms are proved from: NcovLemmas, cnt.CntLemmas *)
module Cov
  use int.Int
  use map.Map
  use cft.All
  use export cnt.C
  use export Ncov
  axiom ncova_b: forall a k [ncova a k]. 0 <= ncova a k /\ (0 <= k -> ncova a k <= k)
  axiom ncova_set: forall a k p v [ncova (set a p v) k]. 0 <= p < k ->
     ncova (set a p v) k = ncova a k - (if a p > 0 then 1 else 0) + (if v > 0 then 1 else 0)
  axiom ncova_full: forall a k p [ncova a k, a p]. ncova a k >= k -> 0 <= p < k -> a p > 0
  axiom ncova_all: forall a k. 0 <= k -> (forall p. 0 <= p < k -> a p > 0) -> ncova a k = k
  axiom ncova_none: forall a k. (forall p. 0 <= p < k -> a p <= 0) -> ncova a k = 0
end
