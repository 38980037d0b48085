(* Set covering instances: columns in compressed form (idxs, begs), rows, costs. *)
module I
  use int.Int
  use cft.All
  use export cnt.C

  (* compressed columns over m rows *)
  predicate wf_cols (idxs begs: vec int) (m: int) =
    1 <= begs.n <= 2147483647 /\ idxs.n <= 2147483647 /\ 0 <= m <= 32766
    /\ begs.a 0 = 0 /\ begs.a (begs.n - 1) = idxs.n
    /\ (forall j k [begs.a j, begs.a k]. 0 <= j <= k < begs.n -> begs.a j <= begs.a k)
    /\ (forall p [idxs.a p]. 0 <= p < idxs.n -> 0 <= idxs.a p < m)

  (* multiplicity of row i in column j *)
  function cc (idxs begs: vec int) (j i: int) : int = cnt idxs.a (begs.a j) (begs.a (j + 1)) i

  predicate nodup (idxs begs: vec int) =
    forall j i. 0 <= j < begs.n - 1 -> cc idxs begs j i <= 1

  (* rows is the transpose of the columns *)
  predicate rows_ok (idxs begs: vec int) (rows: vec (vec int)) =
    (forall i k. 0 <= i < rows.n -> 0 <= k < (rows.a i).n -> 0 <= (rows.a i).a k < begs.n - 1)
    /\ (forall i j. 0 <= i < rows.n -> 0 <= j < begs.n - 1 ->
          cnt (rows.a i).a 0 (rows.a i).n j = cc idxs begs j i)

  predicate rows_sorted (rows: vec (vec int)) =
    forall i k l. 0 <= i < rows.n -> 0 <= k <= l < (rows.a i).n -> (rows.a i).a k <= (rows.a i).a l

  predicate rows_nonempty (rows: vec (vec int)) = forall i. 0 <= i < rows.n -> (rows.a i).n > 0

  predicate wf_inst (idxs begs: vec int) (rows: vec (vec int)) (costs: vec real) =
    wf_cols idxs begs rows.n /\ costs.n = begs.n - 1 /\ rows_ok idxs begs rows /\ rows_nonempty rows /\ nodup idxs begs
    /\ begs.n <= 2147483646
    /\ (forall i. 0 <= i < rows.n -> (rows.a i).n <= 2147483646)

  predicate valid_idxs (s: vec int) (n: int) = forall t [s.a t]. 0 <= t < s.n -> 0 <= s.a t < n
  predicate distinct (s: vec int) = forall t u. 0 <= t < u < s.n -> s.a t <> s.a u
end
