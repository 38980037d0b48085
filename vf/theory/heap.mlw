(* The bounded sorted array: what one insertion does, and what the array holds after a sequence of attempts. *)
module HeapD
  use int.Int
  use cft.All

  (* d is d0[0..k0) with x inserted at its place p, after the elements whose key is not larger *)
  predicate ins (key: int -> real) (d0: int -> int) (k0: int) (x: int) (d: int -> int) (p: int) =
    0 <= p <= k0 /\ (forall t. 0 <= t < p -> d t = d0 t) /\ d p = x
    /\ (forall t. p < t <= k0 -> d t = d0 (t - 1))
    /\ (p > 0 -> key (d0 (p - 1)) <=. key x)
    /\ (forall t. p <= t < k0 -> key x <. key (d0 t))
  predicate inserted (key: int -> real) (d0: int -> int) (k0: int) (x: int) (d: int -> int) =
    exists p. ins key d0 k0 x d p

  (* one attempt: r tells whether x was stored *)
  predicate attempt (key: int -> real) (cap: int) (d0: int -> int) (k0: int) (x: int) (d: int -> int) (k: int) (r: bool) =
    (k0 < cap -> r /\ k = k0 + 1 /\ inserted key d0 k0 x d)
    /\ (k0 >= cap -> key x <. key (d0 (k0 - 1)) -> r /\ k = k0 /\ inserted key d0 (k0 - 1) x d)
    /\ (k0 >= cap -> not (key x <. key (d0 (k0 - 1))) -> not r /\ k = k0 /\ forall t. 0 <= t < k0 -> d t = d0 t)

  predicate before (key: int -> real) (x: int) (p: int) (y: int) (q: int) =
    key x <. key y \/ (key x = key y /\ p < q)

  (* d[0..k) are the cap first of s[0..m) in the order by key, then by position; pos tells which ones *)
  predicate kbest (key: int -> real) (s: int -> int) (m: int) (d: int -> int) (k: int) (cap: int) (pos: int -> int) =
    0 <= m /\ k = (if m < cap then m else cap)
    /\ (forall t. 0 <= t < k -> 0 <= pos t < m /\ d t = s (pos t))
    /\ (forall t u. 0 <= t < u < k -> before key (d t) (pos t) (d u) (pos u))
    /\ (forall q. 0 <= q < m -> (exists t. 0 <= t < k /\ pos t = q) \/
          (k = cap /\ before key (d (k - 1)) (pos (k - 1)) (s q) q))
  predicate valid_s (s: int -> int) (m n: int) = forall t. 0 <= t < m -> 0 <= s t < n
  (* the cap first of s[0..m) (by key, then position) are all taken *)
  predicate kept_by (key: int -> real) (s: int -> int) (m: int) (taken: int -> bool) (cap: int) (d: int -> int) (k: int) (pos: int -> int) =
    kbest key s m d k cap pos /\ forall t. 0 <= t < k -> taken (d t)
  predicate best_kept (key: int -> real) (s: int -> int) (m: int) (taken: int -> bool) (cap: int) =
    exists d k pos. kept_by key s m taken cap d k pos
  predicate holds_best (key: int -> real) (s: int -> int) (m: int) (d: int -> int) (k: int) (cap: int) =
    exists pos. kbest key s m d k cap pos
end

module HeapP
  use int.Int
  use cft.All
  use HeapD

  function pos1 (pos: int -> int) (p m: int) : int -> int = fun t -> if t < p then pos t else if t = p then m else pos (t - 1)

  let lemma step_ins (key: int -> real) (s: int -> int) (m: int) (d: int -> int) (k cap: int) (pos: int -> int) (k0: int) (d': int -> int) (p: int)
    requires { cap > 0 } requires { kbest key s m d k cap pos }
    requires { k < cap /\ k0 = k \/ k = cap /\ k0 = k - 1 /\ key (s m) <. key (d (k - 1)) }
    requires { ins key d k0 (s m) d' p }
    ensures { kbest key s (m + 1) d' (k0 + 1) cap (pos1 pos p m) }
  = let q1 = pos1 pos p m in
    let lemma ord (t u: int) requires { 0 <= t < u < k0 + 1 } ensures { before key (d' t) (q1 t) (d' u) (q1 u) }
    = if t < p && u = p then (if t < p - 1 then assert { before key (d t) (pos t) (d (p - 1)) (pos (p - 1)) })
      else if t = p then assert { d' u = d (u - 1) }
      else () in
    let lemma rest (q: int) requires { 0 <= q < m + 1 }
      ensures { (exists t. 0 <= t < k0 + 1 /\ q1 t = q) \/ (k0 + 1 = cap /\ before key (d' k0) (q1 k0) (s q) q) }
    = if q = m then assert { q1 p = q }
      else if k0 = k then begin
        assert { forall t. 0 <= t < k -> pos t = q -> q1 (if t < p then t else t + 1) = q }
      end else begin
        assert { forall t. 0 <= t < k0 -> pos t = q -> q1 (if t < p then t else t + 1) = q };
        assert { before key (d' k0) (q1 k0) (d (k - 1)) (pos (k - 1)) }
      end in
    ()

  lemma step_same: forall key s m d k cap pos d'. cap > 0 -> kbest key s m d k cap pos -> k = cap ->
    not (key (s m) <. key (d (k - 1))) -> (forall t. 0 <= t < k -> d' t = d t) -> kbest key s (m + 1) d' k cap pos
  let lemma step_one (key: int -> real) (s: int -> int) (m: int) (d: int -> int) (k cap: int) (pos: int -> int) (d': int -> int) (k': int) (r: bool)
    requires { cap > 0 } requires { kbest key s m d k cap pos } requires { attempt key cap d k (s m) d' k' r }
    ensures { holds_best key s (m + 1) d' k' cap }
  = if k < cap then begin
      assert { forall p. ins key d k (s m) d' p -> kbest key s (m + 1) d' (k + 1) cap (pos1 pos p m) };
      assert { inserted key d k (s m) d' };
      assert { holds_best key s (m + 1) d' (k + 1) cap }
    end else if key (s m) <. key (d (k - 1)) then begin
      assert { forall p. ins key d (k - 1) (s m) d' p -> kbest key s (m + 1) d' (k - 1 + 1) cap (pos1 pos p m) };
      assert { inserted key d (k - 1) (s m) d' };
      assert { holds_best key s (m + 1) d' (k - 1 + 1) cap };
      assert { k - 1 + 1 = k' }
    end else begin
      assert { kbest key s (m + 1) d' k cap pos };
      assert { k' = k };
      assert { holds_best key s (m + 1) d' k cap }
    end

  lemma best_nil0: forall key s d cap. cap > 0 -> kbest key s 0 d 0 cap (fun _ -> 0)
  lemma best_nil: forall key s d cap. cap > 0 -> holds_best key s 0 d 0 cap
  let lemma kept_intro (key: int -> real) (s: int -> int) (m: int) (d: int -> int) (k cap: int) (taken: int -> bool)
    requires { holds_best key s m d k cap } requires { forall t. 0 <= t < k -> taken (d t) }
    ensures { best_kept key s m taken cap }
  = assert { forall pos. kbest key s m d k cap pos -> kept_by key s m taken cap d k pos }
  lemma kept_mono0: forall key s m cap t1 t2 n d k pos. kept_by key s m t1 cap d k pos -> valid_s s m n ->
    (forall j. 0 <= j < n -> t1 j -> t2 j) -> kept_by key s m t2 cap d k pos
  let lemma kept_mono (key: int -> real) (s: int -> int) (m cap: int) (t1 t2: int -> bool) (n: int)
    requires { best_kept key s m t1 cap } requires { valid_s s m n } requires { forall j. 0 <= j < n -> t1 j -> t2 j }
    ensures { best_kept key s m t2 cap }
  = assert { forall d k pos. kept_by key s m t1 cap d k pos -> kept_by key s m t2 cap d k pos }
  lemma best_step: forall key s m d k cap d' k' r. cap > 0 -> holds_best key s m d k cap ->
    attempt key cap d k (s m) d' k' r -> holds_best key s (m + 1) d' k' cap
end

(* what contracts see; the axioms are proved from: HeapP *)
module Heap
  use int.Int
  use cft.All
  use export HeapD

  axiom kbest_step: forall key s m d k cap d' k' r. cap > 0 -> holds_best key s m d k cap ->
    attempt key cap d k (s m) d' k' r -> holds_best key s (m + 1) d' k' cap
  axiom best_nil: forall key s d cap. cap > 0 -> holds_best key s 0 d 0 cap
  axiom kept_intro: forall key s m d k cap taken. holds_best key s m d k cap -> (forall t. 0 <= t < k -> taken (d t)) ->
    best_kept key s m taken cap
  axiom kept_mono: forall key s m cap t1 t2 n [best_kept key s m t1 cap, best_kept key s m t2 cap, valid_s s m n]. best_kept key s m t1 cap -> valid_s s m n ->
    (forall j. 0 <= j < n -> t1 j -> t2 j) -> best_kept key s m t2 cap
end
