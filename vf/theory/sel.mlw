(* Selections of distinct columns: how much they can weigh, and the core problem built from them. *)
module SelD
  use int.Int
  use cft.All

  predicate picked (s: int -> int) (k j: int) = exists t. 0 <= t < k /\ s t = j

  function wspan (b: int -> int) (j: int) : int = b (j + 1) - b j

  (* sizes (and number) of the columns among 0..m-1 that are picked by s[0..k) *)
  function ssum (b: int -> int) (s: int -> int) (k m: int) : int
  axiom ssum_0: forall b s k m. m <= 0 -> ssum b s k m = 0
  axiom ssum_s: forall b s k m. m > 0 -> ssum b s k m = ssum b s k (m - 1) + (if picked s k (m - 1) then wspan b (m - 1) else 0)
  function scount (s: int -> int) (k m: int) : int
  axiom scount_0: forall s k m. m <= 0 -> scount s k m = 0
  axiom scount_s: forall s k m. m > 0 -> scount s k m = scount s k (m - 1) + (if picked s k (m - 1) then 1 else 0)

  (* at least n columns are picked and the first n cost no more than column j *)
  predicate cheap_kept (key: int -> real) (s: int -> int) (k n j: int) =
    n <= k /\ forall t. 0 <= t < n -> key (s t) <=. key j

  predicate dist (s: int -> int) (k: int) = forall t u. 0 <= t < u < k -> s t <> s u
end

module SelL
  use int.Int
  use cft.All
  use SelD

  let rec lemma ssum_nil (b s: int -> int) (k m: int) requires { k <= 0 } ensures { ssum b s k m = 0 }
    variant { m } = if m > 0 then ssum_nil b s k (m - 1)
  let rec lemma scount_nil (s: int -> int) (k m: int) requires { k <= 0 } ensures { scount s k m = 0 }
    variant { m } = if m > 0 then scount_nil s k (m - 1)
  let rec lemma ssum_step (b s: int -> int) (k m: int)
    requires { 0 <= k } requires { not (picked s k (s k)) }
    ensures { ssum b s (k + 1) m = ssum b s k m + (if 0 <= s k < m then wspan b (s k) else 0) }
    variant { m }
  = if m > 0 then begin
      ssum_step b s k (m - 1);
      assert { picked s (k + 1) (m - 1) <-> picked s k (m - 1) \/ s k = m - 1 }
    end
  let rec lemma scount_step (s: int -> int) (k m: int)
    requires { 0 <= k } requires { not (picked s k (s k)) }
    ensures { scount s (k + 1) m = scount s k m + (if 0 <= s k < m then 1 else 0) }
    variant { m }
  = if m > 0 then begin
      scount_step s k (m - 1);
      assert { picked s (k + 1) (m - 1) <-> picked s k (m - 1) \/ s k = m - 1 }
    end
  let rec lemma ssum_le (b s: int -> int) (k m: int)
    requires { forall j. 0 <= j < m -> b j <= b (j + 1) } requires { 0 <= m }
    ensures { 0 <= ssum b s k m <= b m - b 0 } variant { m }
  = if m > 0 then begin ssum_le b s k (m - 1); assert { b (m - 1) <= b ((m - 1) + 1) } end
  let rec lemma scount_le (s: int -> int) (k m: int)
    requires { 0 <= m } ensures { 0 <= scount s k m <= m } variant { m }
  = if m > 0 then scount_le s k (m - 1)
  let rec lemma scount_dist (s: int -> int) (k m: int)
    requires { 0 <= k } requires { dist s k } requires { forall t. 0 <= t < k -> 0 <= s t < m }
    ensures { scount s k m = k } variant { k }
  = if k > 0 then begin scount_dist s (k - 1) m; assert { not (picked s (k - 1) (s (k - 1))) } end
  let lemma dist_le (s: int -> int) (k m: int)
    requires { 0 <= k } requires { dist s k } requires { forall t. 0 <= t < k -> 0 <= s t < m } requires { 0 <= m }
    ensures { scount s k m = k /\ k <= m }
  = scount_dist s k m; scount_le s k m
  let rec lemma ssum_ext (b s1 s2: int -> int) (k m: int)
    requires { forall t. 0 <= t < k -> s1 t = s2 t } ensures { ssum b s1 k m = ssum b s2 k m } variant { m }
  = if m > 0 then begin ssum_ext b s1 s2 k (m - 1); assert { picked s1 k (m - 1) <-> picked s2 k (m - 1) } end
end

(* what contracts see; the axioms are proved from: SelL *)
module Sel
  use int.Int
  use cft.All
  use export SelD
  axiom ssum_nil: forall b s m [ssum b s 0 m]. ssum b s 0 m = 0
  axiom ssum_step: forall b s k m [ssum b s (k + 1) m]. 0 <= k -> not (picked s k (s k)) -> 0 <= s k < m ->
    ssum b s (k + 1) m = ssum b s k m + wspan b (s k)
  axiom ssum_le: forall b s k m [ssum b s k m]. (forall j. 0 <= j < m -> b j <= b (j + 1)) -> 0 <= m ->
    0 <= ssum b s k m <= b m - b 0
  axiom ssum_ext: forall b s1 s2 k m [ssum b s1 k m, ssum b s2 k m]. (forall t. 0 <= t < k -> s1 t = s2 t) -> ssum b s1 k m = ssum b s2 k m
end

(* a column appended to a problem; a core problem being built *)
module CoreD
  use int.Int
  use cft.All
  use export Sel
  use export inst.I

  (* (ki,kb,kc) is (ki0,kb0,kc0) with a copy of column j of (si,sb,sc) at the end *)
  predicate col_added (si sb: vec int) (sc: vec real) (j: int) (ki0 kb0: vec int) (kc0: vec real) (ki kb: vec int) (kc: vec real) =
    kb.n = kb0.n + 1 /\ kc.n = kc0.n + 1 /\ ki.n = ki0.n + (sb.a (j + 1) - sb.a j)
    /\ (forall t. 0 <= t < kb0.n -> kb.a t = kb0.a t) /\ kb.a kb0.n = ki.n
    /\ (forall t. 0 <= t < kc0.n -> kc.a t = kc0.a t) /\ kc.a kc0.n = sc.a j
    /\ (forall p. 0 <= p < ki0.n -> ki.a p = ki0.a p)
    /\ (forall p. ki0.n <= p < ki.n -> ki.a p = si.a (sb.a j + (p - ki0.n)))

  (* the first k columns of the core problem are copies of the columns s[0..k) *)
  predicate copies (si sb: vec int) (sc: vec real) (s: int -> int) (k: int) (ki kb: vec int) (kc: vec real) =
    kb.n = k + 1 /\ kc.n = k /\ kb.a 0 = 0 /\ kb.a k = ki.n
    /\ ki.n = ssum sb.a s k (sb.n - 1)
    /\ (forall t [kb.a t]. 0 <= t < k -> kb.a (t + 1) - kb.a t = sb.a (s t + 1) - sb.a (s t) /\ kb.a t <= kb.a (t + 1))
    /\ (forall t u [kb.a t, kb.a u]. 0 <= t <= u <= k -> kb.a t <= kb.a u)
    /\ (forall t. 0 <= t < k -> kc.a t = sc.a (s t))
    /\ (forall t p [kb.a t, ki.a p]. 0 <= t < k -> kb.a t <= p < kb.a (t + 1) -> ki.a p = si.a (sb.a (s t) + (p - kb.a t)))

  (* the core problem: as core_rel in rel.mlw, over functions *)
  predicate core_of (si sb: vec int) (sc: vec real) (m: int) (ki kb: vec int) (kc: vec real) (mp: vec int) =
    mp.n = kb.n - 1 /\ kc.n = kb.n - 1
    /\ (forall j [mp.a j]. 0 <= j < mp.n -> 0 <= mp.a j < sb.n - 1 /\ kc.a j = sc.a (mp.a j))
    /\ distinct mp
    /\ (forall j i [cc ki kb j i]. 0 <= j < mp.n -> 0 <= i < m -> cc ki kb j i = cc si sb (mp.a j) i)
end

module CoreL
  use int.Int
  use cft.All
  use SelL
  use CoreD
  use cnt.CntLemmas

  let lemma copies_add (si sb: vec int) (sc: vec real) (s: int -> int) (k: int) (ki0 kb0: vec int) (kc0: vec real) (ki kb: vec int) (kc: vec real) (m: int)
    requires { 0 <= k } requires { wf_cols si sb m } requires { sc.n = sb.n - 1 }
    requires { copies si sb sc s k ki0 kb0 kc0 } requires { 0 <= s k < sb.n - 1 } requires { not (picked s k (s k)) }
    requires { col_added si sb sc (s k) ki0 kb0 kc0 ki kb kc }
    ensures { copies si sb sc s (k + 1) ki kb kc }
  = assert { sb.a (s k) <= sb.a (s k + 1) };
    assert { kb.n = k + 2 /\ kb0.n = k + 1 };
    assert { kb.a k = kb0.a k /\ kb0.a k = ki0.n /\ kb.a (k + 1) = ki.n /\ ki0.n <= ki.n };
    assert { forall t. 0 <= t <= k -> kb.a t = kb0.a t };
    let lemma one (t: int) requires { 0 <= t < k + 1 }
      ensures { kb.a (t + 1) - kb.a t = sb.a (s t + 1) - sb.a (s t) /\ kb.a t <= kb.a (t + 1) }
    = if t < k then assert { kb0.a (t + 1) - kb0.a t = sb.a (s t + 1) - sb.a (s t) } else () in
    let lemma seg0 (t p: int) requires { 0 <= t < k } requires { kb.a t <= p < kb.a (t + 1) }
      ensures { ki.a p = si.a (sb.a (s t) + (p - kb.a t)) }
    = assert { kb.a t = kb0.a t /\ kb.a (t + 1) = kb0.a (t + 1) };
      assert { kb0.a (t + 1) <= kb0.a k }; assert { 0 <= kb0.a t }; assert { ki.a p = ki0.a p };
      assert { ki0.a p = si.a (sb.a (s t) + (p - kb0.a t)) } in
    let lemma seg1 (p: int) requires { kb.a k <= p < kb.a (k + 1) }
      ensures { ki.a p = si.a (sb.a (s k) + (p - kb.a k)) }
    = assert { ki0.n <= p < ki.n };
      assert { ki.a p = si.a (sb.a (s k) + (p - ki0.n)) };
      assert { kb.a k = ki0.n } in
    assert { ki.n = ssum sb.a s (k + 1) (sb.n - 1) };
    let lemma mono0 (t u: int) requires { 0 <= t <= u <= k } ensures { kb.a t <= kb.a u }
    = assert { kb0.a t <= kb0.a u } in
    let lemma mono1 (t: int) requires { 0 <= t <= k + 1 } ensures { kb.a t <= kb.a (k + 1) }
    = if t <= k then mono0 t k in
    let lemma mono (t u: int) requires { 0 <= t <= u <= k + 1 } ensures { kb.a t <= kb.a u }
    = if u <= k then mono0 t u else mono1 t in
    let lemma seg (t p: int) requires { 0 <= t < k + 1 } requires { kb.a t <= p < kb.a (t + 1) }
      ensures { ki.a p = si.a (sb.a (s t) + (p - kb.a t)) }
    = if t < k then seg0 t p else seg1 p in
    assert { kb.n = (k + 1) + 1 /\ kc.n = k + 1 /\ kb.a 0 = 0 };
    assert { kb.a (k + 1) = ki.n };
    let lemma cost (t: int) requires { 0 <= t < k + 1 } ensures { kc.a t = sc.a (s t) } = () in
    ()

  let lemma copies_ext (si sb: vec int) (sc: vec real) (s1 s2: int -> int) (k: int) (ki kb: vec int) (kc: vec real)
    requires { copies si sb sc s1 k ki kb kc } requires { forall t. 0 <= t < k -> s1 t = s2 t }
    ensures { copies si sb sc s2 k ki kb kc }
  = assert { ssum sb.a s1 k (sb.n - 1) = ssum sb.a s2 k (sb.n - 1) };
    let lemma seg (t p: int) requires { 0 <= t < k } requires { kb.a t <= p < kb.a (t + 1) }
      ensures { ki.a p = si.a (sb.a (s2 t) + (p - kb.a t)) } = assert { s1 t = s2 t } in
    let lemma len (t: int) requires { 0 <= t < k } ensures { kb.a (t + 1) - kb.a t = sb.a (s2 t + 1) - sb.a (s2 t) /\ kc.a t = sc.a (s2 t) }
    = assert { s1 t = s2 t } in
    ()

  let lemma copies_core (si sb: vec int) (sc: vec real) (s: vec int) (ki kb: vec int) (kc: vec real) (m: int)
    requires { wf_cols si sb m } requires { sc.n = sb.n - 1 } requires { copies si sb sc s.a s.n ki kb kc }
    requires { valid_idxs s (sb.n - 1) } requires { distinct s }
    ensures { core_of si sb sc m ki kb kc s } ensures { wf_cols ki kb m }
  = let lemma same (j i: int) requires { 0 <= j < s.n }
      ensures { cc ki kb j i = cc si sb (s.a j) i }
    = cnt_shift si.a ki.a (sb.a (s.a j)) (sb.a (s.a j + 1)) (kb.a j - sb.a (s.a j)) i in
    dist_le s.a s.n (sb.n - 1);
    assert { ki.n <= sb.a (sb.n - 1) - sb.a 0 };
    let rec lemma own (p t: int) requires { 0 <= t <= s.n } requires { 0 <= p < kb.a t }
      ensures { exists j. 0 <= j < s.n /\ kb.a j <= p < kb.a (j + 1) } variant { t }
    = if t > 0 then if p < kb.a (t - 1) then own p (t - 1) else assert { kb.a (t - 1) <= p < kb.a ((t - 1) + 1) } in
    let lemma rng (p: int) requires { 0 <= p < ki.n } ensures { 0 <= ki.a p < m }
    = own p s.n;
      assert { forall j. 0 <= j < s.n -> kb.a j <= p < kb.a (j + 1) ->
        0 <= sb.a (s.a j) + (p - kb.a j) < sb.a (s.a j + 1) /\ sb.a (s.a j + 1) <= sb.a (sb.n - 1) } in
    ()
end

(* what contracts see; the axioms are proved from: CoreL *)
module Core
  use int.Int
  use cft.All
  use export CoreD
  axiom copies_add: forall si sb sc s k ki0 kb0 kc0 ki kb kc m
    [wf_cols si sb m, copies si sb sc s k ki0 kb0 kc0, col_added si sb sc (s k) ki0 kb0 kc0 ki kb kc]. 0 <= k -> wf_cols si sb m -> sc.n = sb.n - 1 ->
    copies si sb sc s k ki0 kb0 kc0 -> 0 <= s k < sb.n - 1 -> not (picked s k (s k)) ->
    col_added si sb sc (s k) ki0 kb0 kc0 ki kb kc -> copies si sb sc s (k + 1) ki kb kc
  axiom copies_core: forall si sb sc s ki kb kc m. wf_cols si sb m -> sc.n = sb.n - 1 -> copies si sb sc s.a s.n ki kb kc ->
    valid_idxs s (sb.n - 1) -> distinct s -> core_of si sb sc m ki kb kc s /\ wf_cols ki kb m
  axiom copies_ext: forall si sb sc s1 s2 k ki kb kc [copies si sb sc s1 k ki kb kc, copies si sb sc s2 k ki kb kc].
    copies si sb sc s1 k ki kb kc -> (forall t. 0 <= t < k -> s1 t = s2 t) -> copies si sb sc s2 k ki kb kc
end
