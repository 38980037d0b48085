(* Relations between an instance, the instance left after fixing columns, and core instances. *)
module R
  use int.Int
  use cft.All
  use export inst.I
  use export fx.Fx
  use export sums.S

  predicate covered (ai ab: vec int) (s: vec int) (i: int) = exists t. 0 <= t < s.n /\ cc ai ab (s.a t) i > 0
  predicate hit (m: vec int) (nm: int) (i: int) = exists k. 0 <= k < nm /\ m.a k = i
  predicate hitc (m: vec int) (nm: int) (i: int) = exists k. 0 <= k < nm /\ cinv m k = i

  (* columns fx of the instance (ai ab ac am) fixed: the instance (ni nb nc nm) is left, cm0 rm0 fxd0 cst0 -> cm1 rm1 fxd1 cst1 *)
  predicate fix_step (ai ab: vec int) (ac: vec real) (am: int) (ni nb: vec int) (nc: vec real) (nm: int)
      (cm0 rm0 fxd0: vec int) (cst0: real) (cm1 rm1 fxd1: vec int) (cst1: real) (com rom fx: vec int) =
    cm1.n = nb.n - 1 /\ rm1.n = nm /\ nc.n = nb.n - 1
    /\ (forall j [cm1.a j]. 0 <= j < cm1.n -> 0 <= cinv com j < ab.n - 1 /\ cm1.a j = cm0.a (cinv com j) /\ nc.a j = ac.a (cinv com j))
    /\ (forall i [rm1.a i]. 0 <= i < nm -> 0 <= cinv rom i < am /\ rm1.a i = rm0.a (cinv rom i))
    /\ (forall j k [cm1.a j, cm1.a k]. 0 <= j < k < cm1.n -> cinv com j < cinv com k)
    /\ (forall i k [rm1.a i, rm1.a k]. 0 <= i < k < nm -> cinv rom i < cinv rom k)
    /\ (forall j i [cc ni nb j i]. 0 <= j < cm1.n -> 0 <= i < nm -> cc ni nb j i = cc ai ab (cinv com j) (cinv rom i))
    /\ (forall i [rm0.a i]. 0 <= i < am -> hitc rom nm i \/ covered ai ab fx i)
    /\ (forall k t [rm1.a k, fx.a t]. 0 <= k < nm -> 0 <= t < fx.n -> cc ai ab (fx.a t) (cinv rom k) = 0)
    /\ (forall j t [cm1.a j, fx.a t]. 0 <= j < cm1.n -> 0 <= t < fx.n -> cinv com j <> fx.a t)
    /\ fxd1.n = fxd0.n + fx.n
    /\ (forall t [fxd1.a t]. 0 <= t < fxd0.n -> fxd1.a t = fxd0.a t)
    /\ (forall t [fx.a t]. 0 <= t < fx.n -> fxd1.a (fxd0.n + t) = cm0.a (fx.a t))
    /\ (forall t [fxd1.a t]. fxd0.n <= t < fxd1.n -> fxd1.a t = cm0.a (fx.a (t - fxd0.n)))
    /\ cst1 = cst0 +. csum ac fx fx.n

  (* the instance (ni nb nc nm) is (oi ob oc om) with the columns fxd fixed *)
  predicate fix_rel (oi ob: vec int) (oc: vec real) (om: int) (ni nb: vec int) (nc: vec real) (nm: int)
      (cm rm fxd: vec int) (cst: real) =
    cm.n = nb.n - 1 /\ rm.n = nm /\ nc.n = nb.n - 1
    /\ (forall j [cm.a j]. 0 <= j < cm.n -> 0 <= cm.a j < ob.n - 1 /\ nc.a j = oc.a (cm.a j))
    /\ (forall i [rm.a i]. 0 <= i < nm -> 0 <= rm.a i < om)
    /\ (forall j k [cm.a j, cm.a k]. 0 <= j < k < cm.n -> cm.a j < cm.a k)
    /\ (forall i k [rm.a i, rm.a k]. 0 <= i < k < nm -> rm.a i < rm.a k)
    /\ (forall j i [cc ni nb j i]. 0 <= j < cm.n -> 0 <= i < nm -> cc ni nb j i = cc oi ob (cm.a j) (rm.a i))
    /\ (forall i [covered oi ob fxd i | hit rm nm i]. 0 <= i < om -> hit rm nm i \/ covered oi ob fxd i)
    /\ (forall k t [rm.a k, fxd.a t]. 0 <= k < nm -> 0 <= t < fxd.n -> cc oi ob (fxd.a t) (rm.a k) = 0)
    /\ (forall j t [cm.a j, fxd.a t]. 0 <= j < cm.n -> 0 <= t < fxd.n -> cm.a j <> fxd.a t)
    /\ valid_idxs fxd (ob.n - 1) /\ distinct fxd
    /\ cst = csum oc fxd fxd.n

  (* (ki kb kc) holds the columns mp of (ni nb nc), over the same nm rows *)
  predicate core_rel (ni nb: vec int) (nc: vec real) (nm: int) (ki kb: vec int) (kc: vec real) (mp: vec int) =
    mp.n = kb.n - 1 /\ kc.n = kb.n - 1
    /\ (forall j [mp.a j]. 0 <= j < mp.n -> 0 <= mp.a j < nb.n - 1 /\ kc.a j = nc.a (mp.a j))
    /\ distinct mp
    /\ (forall j i [cc ki kb j i]. 0 <= j < mp.n -> 0 <= i < nm -> cc ki kb j i = cc ni nb (mp.a j) i)

  (* the columns s cover all rows *)
  predicate covers (ai ab: vec int) (am: int) (s: vec int) =
    forall i [covered ai ab s i]. 0 <= i < am -> covered ai ab s i
  predicate feasible (ai ab: vec int) (ac: vec real) (am: int) (s: vec int) (cost: real) =
    valid_idxs s (ab.n - 1) /\ distinct s /\ covers ai ab am s /\ cost = csum ac s s.n
end

module RelP
  use int.Int
  use cft.All
  use R

  let rec ghost csum_ext (c: vec real) (s u: vec int) (k: int)
    requires { forall t. 0 <= t < k -> s.a t = u.a t }
    ensures { csum c s k = csum c u k }
    variant { k }
  = if 0 < k then csum_ext c s u (k - 1)

  (* u = s[0, d) followed by v mapped through mp *)
  let rec ghost csum_append (c c2: vec real) (s u v mp: vec int) (d k: int)
    requires { 0 <= d } requires { 0 <= k }
    requires { forall t. 0 <= t < d -> u.a t = s.a t }
    requires { forall t. 0 <= t < k -> u.a (d + t) = mp.a (v.a t) }
    requires { forall t. 0 <= t < k -> c2.a (v.a t) = c.a (mp.a (v.a t)) }
    ensures { csum c u (d + k) = csum c s d +. csum c2 v k }
    variant { k }
  = if 0 < k then csum_append c c2 s u v mp d (k - 1) else csum_ext c s u d

  let ghost fix_step_intro (ai ab: vec int) (ac: vec real) (am: int) (ni nb: vec int) (nc: vec real) (nm: int)
      (cm0 rm0 fxd0: vec int) (cst0: real) (cm1 rm1 fxd1: vec int) (cst1: real) (com rom fx: vec int)
    requires { cm1.n = nb.n - 1 /\ rm1.n = nm /\ nc.n = nb.n - 1 }
    requires { (forall j [cm1.a j]. 0 <= j < cm1.n -> 0 <= cinv com j < ab.n - 1 /\ cm1.a j = cm0.a (cinv com j) /\ nc.a j = ac.a (cinv com j)) }
    requires { (forall i [rm1.a i]. 0 <= i < nm -> 0 <= cinv rom i < am /\ rm1.a i = rm0.a (cinv rom i)) }
    requires { (forall j k [cinv com j, cinv com k]. 0 <= j < k < cm1.n -> cinv com j < cinv com k) }
    requires { (forall i k [cinv rom i, cinv rom k]. 0 <= i < k < nm -> cinv rom i < cinv rom k) }
    requires { (forall j i [cc ni nb j i]. 0 <= j < cm1.n -> 0 <= i < nm -> cc ni nb j i = cc ai ab (cinv com j) (cinv rom i)) }
    requires { (forall i [hitc rom nm i | covered ai ab fx i]. 0 <= i < am -> hitc rom nm i \/ covered ai ab fx i) }
    requires { (forall k t [cinv rom k, fx.a t]. 0 <= k < nm -> 0 <= t < fx.n -> cc ai ab (fx.a t) (cinv rom k) = 0) }
    requires { (forall j t [cinv com j, fx.a t]. 0 <= j < cm1.n -> 0 <= t < fx.n -> cinv com j <> fx.a t) }
    requires { fxd1.n = fxd0.n + fx.n }
    requires { (forall t [fxd1.a t]. 0 <= t < fxd0.n -> fxd1.a t = fxd0.a t) }
    requires { (forall t [fx.a t]. 0 <= t < fx.n -> fxd1.a (fxd0.n + t) = cm0.a (fx.a t)) }
    requires { (forall t [fxd1.a t]. fxd0.n <= t < fxd1.n -> fxd1.a t = cm0.a (fx.a (t - fxd0.n))) }
    requires { cst1 = cst0 +. csum ac fx fx.n }
    ensures { fix_step ai ab ac am ni nb nc nm cm0 rm0 fxd0 cst0 cm1 rm1 fxd1 cst1 com rom fx }
  = ()

  let ghost fix_intro (oi ob: vec int) (oc: vec real) (om: int) (ni nb: vec int) (nc: vec real) (nm: int)
      (cm rm fxd: vec int) (cst: real)
    requires { cm.n = nb.n - 1 /\ rm.n = nm /\ nc.n = nb.n - 1 }
    requires { (forall j [cm.a j]. 0 <= j < cm.n -> 0 <= cm.a j < ob.n - 1 /\ nc.a j = oc.a (cm.a j)) }
    requires { (forall i [rm.a i]. 0 <= i < nm -> 0 <= rm.a i < om) }
    requires { (forall j k [cm.a j, cm.a k]. 0 <= j < k < cm.n -> cm.a j < cm.a k) }
    requires { (forall i k [rm.a i, rm.a k]. 0 <= i < k < nm -> rm.a i < rm.a k) }
    requires { (forall j i [cc ni nb j i]. 0 <= j < cm.n -> 0 <= i < nm -> cc ni nb j i = cc oi ob (cm.a j) (rm.a i)) }
    requires { (forall i [covered oi ob fxd i | hit rm nm i]. 0 <= i < om -> hit rm nm i \/ covered oi ob fxd i) }
    requires { (forall k t [rm.a k, fxd.a t]. 0 <= k < nm -> 0 <= t < fxd.n -> cc oi ob (fxd.a t) (rm.a k) = 0) }
    requires { (forall j t [cm.a j, fxd.a t]. 0 <= j < cm.n -> 0 <= t < fxd.n -> cm.a j <> fxd.a t) }
    requires { valid_idxs fxd (ob.n - 1) /\ distinct fxd }
    requires { cst = csum oc fxd fxd.n }
    ensures { fix_rel oi ob oc om ni nb nc nm cm rm fxd cst }
  = ()

  let ghost fix_compose (oi ob: vec int) (oc: vec real) (om: int) (ai ab: vec int) (ac: vec real) (am: int)
      (ni nb: vec int) (nc: vec real) (nm: int)
      (cm0 rm0 fxd0: vec int) (cst0: real) (cm1 rm1 fxd1: vec int) (cst1: real) (com rom fx: vec int)
    requires { fix_rel oi ob oc om ai ab ac am cm0 rm0 fxd0 cst0 }
    requires { fix_step ai ab ac am ni nb nc nm cm0 rm0 fxd0 cst0 cm1 rm1 fxd1 cst1 com rom fx }
    requires { valid_idxs fx (ab.n - 1) /\ distinct fx }
    ensures { fix_rel oi ob oc om ni nb nc nm cm1 rm1 fxd1 cst1 }
  = csum_append oc ac fxd0 fxd1 fx cm0 fxd0.n fx.n;
    assert { forall t. 0 <= t < fxd0.n -> fxd1.a t = fxd0.a t };
    assert { forall t. 0 <= t < fx.n -> fxd1.a (fxd0.n + t) = cm0.a (fx.a t) };
    let lemma l0 (t: int)
      requires { fxd0.n <= t < fxd1.n }
      ensures { fxd1.a t = cm0.a (fx.a (t - fxd0.n)) /\ 0 <= fxd1.a t < ob.n - 1 /\ 0 <= fx.a (t - fxd0.n) < cm0.n }
    = () in
    let lemma l1 (t u: int)
      requires { 0 <= t < u < fxd1.n }
      ensures { fxd1.a t <> fxd1.a u }
    = if t >= fxd0.n then begin
        l0 t; l0 u;
        assert { fx.a (t - fxd0.n) <> fx.a (u - fxd0.n) }
      end else if u >= fxd0.n then l0 u in
    let lemma l2 (i: int)
      requires { 0 <= i < om }
      ensures { hit rm1 nm i \/ covered oi ob fxd1 i }
    = let lemma old_fixed (t: int)
        requires { 0 <= t < fxd0.n } requires { cc oi ob (fxd0.a t) i > 0 }
        ensures { covered oi ob fxd1 i }
      = assert { fxd1.a t = fxd0.a t } in
      let lemma new_fixed (k t: int)
        requires { 0 <= t < fx.n } requires { 0 <= k < am /\ rm0.a k = i } requires { cc ai ab (fx.a t) k > 0 }
        ensures { covered oi ob fxd1 i }
      = assert { fxd1.a (fxd0.n + t) = cm0.a (fx.a t) };
        assert { cc ai ab (fx.a t) k = cc oi ob (cm0.a (fx.a t)) (rm0.a k) } in
      let lemma row_kept (k l: int)
        requires { 0 <= k < am /\ rm0.a k = i } requires { 0 <= l < nm /\ cinv rom l = k }
        ensures { hit rm1 nm i }
      = assert { rm1.a l = rm0.a (cinv rom l) } in
      let lemma row_in_a (k: int)
        requires { 0 <= k < am /\ rm0.a k = i }
        ensures { hit rm1 nm i \/ covered oi ob fxd1 i }
      = assert { hitc rom nm k \/ covered ai ab fx k } in
      assert { hit rm0 am i \/ covered oi ob fxd0 i } in
    let lemma l3 (k t: int)
      requires { 0 <= k < nm } requires { 0 <= t < fxd1.n }
      ensures { cc oi ob (fxd1.a t) (rm1.a k) = 0 }
    = assert { rm1.a k = rm0.a (cinv rom k) };
      if t < fxd0.n then assert { fxd1.a t = fxd0.a t }
      else begin
        l0 t;
        assert { cc ai ab (fx.a (t - fxd0.n)) (cinv rom k) = 0 };
        assert { cc ai ab (fx.a (t - fxd0.n)) (cinv rom k) = cc oi ob (cm0.a (fx.a (t - fxd0.n))) (rm0.a (cinv rom k)) }
      end in
    let lemma l4 (j t: int)
      requires { 0 <= j < cm1.n } requires { 0 <= t < fxd1.n }
      ensures { cm1.a j <> fxd1.a t }
    = assert { cm1.a j = cm0.a (cinv com j) };
      if t < fxd0.n then assert { fxd1.a t = fxd0.a t }
      else begin
        l0 t;
        assert { fx.a (t - fxd0.n) <> cinv com j };
        assert { fx.a (t - fxd0.n) < cinv com j \/ cinv com j < fx.a (t - fxd0.n) }
      end in
    let lemma l5 (j i: int)
      requires { 0 <= j < cm1.n } requires { 0 <= i < nm }
      ensures { cc ni nb j i = cc oi ob (cm1.a j) (rm1.a i) }
    = assert { cm1.a j = cm0.a (cinv com j) /\ rm1.a i = rm0.a (cinv rom i) };
      assert { cc ni nb j i = cc ai ab (cinv com j) (cinv rom i) };
      assert { 0 <= cinv com j < cm0.n /\ 0 <= cinv rom i < am };
      assert { cc ai ab (cinv com j) (cinv rom i) = cc oi ob (cm0.a (cinv com j)) (rm0.a (cinv rom i)) };
      () in
    fix_intro oi ob oc om ni nb nc nm cm1 rm1 fxd1 cst1

  (* u: the fixed columns followed by s mapped back *)
  let ghost unfix (oi ob: vec int) (oc: vec real) (om: int) (ni nb: vec int) (nc: vec real) (nm: int)
      (cm rm fxd: vec int) (cst: real) (s u: vec int) (cost: real)
    requires { fix_rel oi ob oc om ni nb nc nm cm rm fxd cst }
    requires { feasible ni nb nc nm s cost }
    requires { u.n = fxd.n + s.n }
    requires { forall t. 0 <= t < fxd.n -> u.a t = fxd.a t }
    requires { forall t. 0 <= t < s.n -> u.a (fxd.n + t) = cm.a (s.a t) }
    ensures { feasible oi ob oc om u (cst +. cost) }
  = csum_append oc nc fxd u s cm fxd.n s.n;
    let lemma l0 (t: int)
      requires { fxd.n <= t < u.n }
      ensures { u.a t = cm.a (s.a (t - fxd.n)) /\ 0 <= s.a (t - fxd.n) < cm.n }
    = assert { u.a (fxd.n + (t - fxd.n)) = cm.a (s.a (t - fxd.n)) } in
    let lemma l1 (i k t: int)
      requires { 0 <= k < nm /\ rm.a k = i } requires { 0 <= t < s.n } requires { cc ni nb (s.a t) k > 0 }
      ensures { covered oi ob u i }
    = assert { u.a (fxd.n + t) = cm.a (s.a t) };
      assert { cc ni nb (s.a t) k = cc oi ob (cm.a (s.a t)) (rm.a k) } in
    let lemma l2 (i: int)
      requires { 0 <= i < om }
      ensures { covered oi ob u i }
    = let lemma old_fixed (t: int)
        requires { 0 <= t < fxd.n } requires { cc oi ob (fxd.a t) i > 0 }
        ensures { covered oi ob u i }
      = assert { u.a t = fxd.a t } in
      let lemma kept (k: int)
        requires { 0 <= k < nm /\ rm.a k = i }
        ensures { covered oi ob u i }
      = assert { covered ni nb s k } in
      assert { hit rm nm i \/ covered oi ob fxd i } in
    let lemma l3 (t v: int)
      requires { 0 <= t < v < u.n }
      ensures { u.a t <> u.a v }
    = if t >= fxd.n then begin
        l0 t; l0 v;
        assert { s.a (t - fxd.n) <> s.a (v - fxd.n) };
        assert { s.a (t - fxd.n) < s.a (v - fxd.n) \/ s.a (v - fxd.n) < s.a (t - fxd.n) }
      end else if v >= fxd.n then l0 v in
    assert { valid_idxs u (ob.n - 1) }

  (* u: s mapped from the core to the instance *)
  let ghost uncore (ni nb: vec int) (nc: vec real) (nm: int) (ki kb: vec int) (kc: vec real) (mp s u: vec int) (cost: real)
    requires { core_rel ni nb nc nm ki kb kc mp }
    requires { feasible ki kb kc nm s cost }
    requires { u.n = s.n }
    requires { forall t. 0 <= t < s.n -> u.a t = mp.a (s.a t) }
    ensures { feasible ni nb nc nm u cost }
  = csum_append nc kc s u s mp 0 s.n;
    let lemma l1 (i t: int)
      requires { 0 <= i < nm } requires { 0 <= t < s.n } requires { cc ki kb (s.a t) i > 0 }
      ensures { covered ni nb u i }
    = assert { u.a t = mp.a (s.a t) };
      assert { 0 <= s.a t < mp.n };
      assert { cc ki kb (s.a t) i = cc ni nb (mp.a (s.a t)) i } in
    let lemma l2 (i: int)
      requires { 0 <= i < nm }
      ensures { covered ni nb u i }
    = assert { covered ki kb s i } in
    assert { covers ni nb nm u };
    let lemma l3 (t v: int)
      requires { 0 <= t < v < u.n }
      ensures { u.a t <> u.a v }
    = assert { s.a t <> s.a v };
      assert { u.a t = mp.a (s.a t) /\ u.a v = mp.a (s.a v) };
      assert { s.a t < s.a v \/ s.a v < s.a t } in
    assert { valid_idxs u (nb.n - 1) }
end
