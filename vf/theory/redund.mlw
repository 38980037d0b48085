(* Lists of distinct columns split into parts: coverage and cost add up. *)
module RdD
  use int.Int
  use real.RealInfix
  use map.Map
  use cft.All
  use export score.ScD
  use export sel.SelD

  (* the column indices of a list of index and cost pairs *)
  function cidx (v: int -> cac) : int -> int
  axiom cidx_def: forall v t [cidx v t]. cidx v t = (v t).cac_idx

  (* the list s holds exactly the elements of a and of b, which have none in common *)
  predicate part (s: int -> int) (k: int) (a: int -> int) (ka: int) (b: int -> int) (kb: int) =
    (forall j [picked s k j]. picked s k j <-> (picked a ka j \/ picked b kb j))
    /\ (forall j [picked a ka j, picked b kb j]. not (picked a ka j /\ picked b kb j))
  predicate sameset (a: int -> int) (ka: int) (b: int -> int) (kb: int) =
    forall j [picked a ka j | picked b kb j]. picked a ka j <-> picked b kb j
  predicate vals (s: int -> int) (k n: int) = forall t [s t]. 0 <= t < k -> 0 <= s t < n

  (* the elements of b[0, kb) are those of s[0, k) that are not in a[0, ka), in their order *)
  predicate without (s: int -> int) (k: int) (a: int -> int) (ka: int) (b: int -> int) (kb: int) (keep: int -> bool) (pos: int -> int) =
    filtered s k keep pos b kb /\ forall t [keep t]. 0 <= t < k -> (keep t <-> not (picked a ka (s t)))
end

module RdL
  use int.Int
  use real.RealInfix
  use map.Map
  use cft.All
  use RdD
  use cnt.CntLemmas
  use score.ScL
  use sel.SelL

  (* sums over the columns below m that are in p *)
  function isum (x b: vec int) (i: int) (p: int -> bool) (m: int) : int
  axiom isum_0: forall x b i p m [isum x b i p m]. m <= 0 -> isum x b i p m = 0
  axiom isum_s: forall x b i p m. m > 0 -> isum x b i p m = isum x b i p (m - 1) + (if p (m - 1) then cc x b (m - 1) i else 0)
  function rsm (c: int -> real) (p: int -> bool) (m: int) : real
  axiom rsm_0: forall c p m [rsm c p m]. m <= 0 -> rsm c p m = 0.0
  axiom rsm_s: forall c p m. m > 0 -> rsm c p m = rsm c p (m - 1) +. (if p (m - 1) then c (m - 1) else 0.0)
  function inl (s: int -> int) (k: int) : int -> bool
  axiom inl_def: forall s k j [inl s k j]. inl s k j <-> picked s k j

  let rec lemma isum_none (x b: vec int) (i: int) (p: int -> bool) (m: int)
    requires { forall j. 0 <= j < m -> not (p j) } ensures { isum x b i p m = 0 } variant { m }
  = if m > 0 then isum_none x b i p (m - 1)
  let rec lemma rsm_none (c: int -> real) (p: int -> bool) (m: int)
    requires { forall j. 0 <= j < m -> not (p j) } ensures { rsm c p m = 0.0 } variant { m }
  = if m > 0 then rsm_none c p (m - 1)
  let rec lemma isum_add (x b: vec int) (i: int) (p q r: int -> bool) (m: int)
    requires { forall j. 0 <= j < m -> (p j <-> q j \/ r j) } requires { forall j. 0 <= j < m -> not (q j /\ r j) }
    ensures { isum x b i p m = isum x b i q m + isum x b i r m } variant { m }
  = if m > 0 then isum_add x b i p q r (m - 1)
  let rec lemma rsm_add (c: int -> real) (p q r: int -> bool) (m: int)
    requires { forall j. 0 <= j < m -> (p j <-> q j \/ r j) } requires { forall j. 0 <= j < m -> not (q j /\ r j) }
    ensures { rsm c p m = rsm c q m +. rsm c r m } variant { m }
  = if m > 0 then rsm_add c p q r (m - 1)
  let rec lemma isum_one (x b: vec int) (i: int) (p: int -> bool) (m e: int)
    requires { forall j. 0 <= j < m -> (p j <-> j = e) } requires { 0 <= e < m }
    ensures { isum x b i p m = cc x b e i } variant { m }
  = if e = m - 1 then isum_none x b i p (m - 1) else isum_one x b i p (m - 1) e
  let rec lemma rsm_one (c: int -> real) (p: int -> bool) (m e: int)
    requires { forall j. 0 <= j < m -> (p j <-> j = e) } requires { 0 <= e < m }
    ensures { rsm c p m = c e } variant { m }
  = if e = m - 1 then rsm_none c p (m - 1) else rsm_one c p (m - 1) e
  function only (e: int) : int -> bool
  axiom only_def: forall e j [only e j]. only e j <-> j = e

  let rec lemma ccs_isum (x b: vec int) (s: int -> int) (k i n: int)
    requires { 0 <= k } requires { dist s k } requires { vals s k n }
    ensures { ccs x b s k i = isum x b i (inl s k) n } variant { k }
  = if k = 0 then isum_none x b i (inl s k) n
    else begin
      ccs_isum x b s (k - 1) i n;
      isum_one x b i (only (s (k - 1))) n (s (k - 1));
      isum_add x b i (inl s k) (inl s (k - 1)) (only (s (k - 1))) n
    end
  let rec lemma csuma_rsm (c: int -> real) (s: int -> int) (k n: int)
    requires { 0 <= k } requires { dist s k } requires { vals s k n }
    ensures { csuma c s k = rsm c (inl s k) n } variant { k }
  = if k = 0 then rsm_none c (inl s k) n
    else begin
      csuma_rsm c s (k - 1) n;
      rsm_one c (only (s (k - 1))) n (s (k - 1));
      rsm_add c (inl s k) (inl s (k - 1)) (only (s (k - 1))) n
    end

  let lemma part_ccs (x b: vec int) (s: int -> int) (k: int) (a: int -> int) (ka: int) (d: int -> int) (kd: int) (i n: int)
    requires { 0 <= k /\ 0 <= ka /\ 0 <= kd } requires { dist s k /\ dist a ka /\ dist d kd } requires { vals s k n /\ vals a ka n /\ vals d kd n }
    requires { part s k a ka d kd }
    ensures { ccs x b s k i = ccs x b a ka i + ccs x b d kd i }
  = ccs_isum x b s k i n; ccs_isum x b a ka i n; ccs_isum x b d kd i n;
    isum_add x b i (inl s k) (inl a ka) (inl d kd) n
  let lemma part_csum (c: int -> real) (s: int -> int) (k: int) (a: int -> int) (ka: int) (d: int -> int) (kd: int) (n: int)
    requires { 0 <= k /\ 0 <= ka /\ 0 <= kd } requires { dist s k /\ dist a ka /\ dist d kd } requires { vals s k n /\ vals a ka n /\ vals d kd n }
    requires { part s k a ka d kd }
    ensures { csuma c s k = csuma c a ka +. csuma c d kd }
  = csuma_rsm c s k n; csuma_rsm c a ka n; csuma_rsm c d kd n;
    rsm_add c (inl s k) (inl a ka) (inl d kd) n
  function nothing : int -> int
  let lemma same_ccs (x b: vec int) (a: int -> int) (ka: int) (d: int -> int) (kd: int) (i n: int)
    requires { 0 <= ka /\ 0 <= kd } requires { dist a ka /\ dist d kd } requires { vals a ka n /\ vals d kd n }
    requires { sameset a ka d kd }
    ensures { ccs x b a ka i = ccs x b d kd i }
  = part_ccs x b a ka d kd nothing 0 i n
  let lemma same_csum (c: int -> real) (a: int -> int) (ka: int) (d: int -> int) (kd: int) (n: int)
    requires { 0 <= ka /\ 0 <= kd } requires { dist a ka /\ dist d kd } requires { vals a ka n /\ vals d kd n }
    requires { sameset a ka d kd }
    ensures { csuma c a ka = csuma c d kd }
  = part_csum c a ka d kd nothing 0 n

  let lemma without_part (s: int -> int) (k: int) (a: int -> int) (ka: int) (d: int -> int) (kd: int) (keep: int -> bool) (pos: int -> int) (n: int)
    requires { 0 <= k } requires { without s k a ka d kd keep pos } requires { dist s k } requires { vals s k n }
    requires { forall t. 0 <= t < ka -> picked s k (a t) }
    ensures { part s k d kd a ka } ensures { dist d kd } ensures { vals d kd n }
  = let lemma kept (t: int) requires { 0 <= t < kd }
      ensures { d t = s (pos t) /\ 0 <= pos t < k /\ keep (pos t) /\ not (picked a ka (s (pos t))) }
    = () in
    let lemma inv (t: int) requires { 0 <= t < k } requires { not (picked a ka (s t)) }
      ensures { picked d kd (s t) }
    = assert { keep t }; assert { 0 <= nkeep keep t < kd /\ d (nkeep keep t) = s t } in
    let lemma one (j: int) ensures { picked s k j -> picked d kd j \/ picked a ka j }
    = () in
    let lemma two (j: int) ensures { picked d kd j -> picked s k j /\ not (picked a ka j) }
    = () in
    let lemma three (t u: int) requires { 0 <= t < u < kd } ensures { d t <> d u }
    = assert { pos t < pos u } in
    ()

  let rec lemma csuma_ext (c: int -> real) (a d: int -> int) (k: int)
    requires { forall t. 0 <= t < k -> a t = d t } ensures { csuma c a k = csuma c d k } variant { k }
  = if 0 < k then csuma_ext c a d (k - 1)
  let rec lemma csuma_nonneg (c: int -> real) (a: int -> int) (k: int)
    requires { forall t. 0 <= t < k -> 0.0 <=. c (a t) } ensures { 0.0 <=. csuma c a k } variant { k }
  = if 0 < k then csuma_nonneg c a (k - 1)
  let rec lemma ccs_mono (x b: vec int) (s: int -> int) (k k2 i: int)
    requires { 0 <= k <= k2 } ensures { ccs x b s k i <= ccs x b s k2 i } variant { k2 }
  = if k < k2 then begin ccs_mono x b s k (k2 - 1) i; cnt_bounds x.a (b.a (s (k2 - 1))) (b.a (s (k2 - 1) + 1)) i end
end

(* what contracts see; the axioms are proved from: RdL, score.ScL *)
module Rd
  use int.Int
  use real.RealInfix
  use map.Map
  use cft.All
  use export RdD
  axiom part_ccs: forall x b s k a ka d kd i n [part s k a ka d kd, ccs x b s k i, vals s k n | part s k a ka d kd, ccs x b a ka i, vals s k n].
    0 <= k -> 0 <= ka -> 0 <= kd -> dist s k -> dist a ka -> dist d kd -> vals s k n -> vals a ka n -> vals d kd n ->
    part s k a ka d kd -> ccs x b s k i = ccs x b a ka i + ccs x b d kd i
  axiom part_csum: forall c s k a ka d kd n [part s k a ka d kd, csuma c s k, vals s k n].
    0 <= k -> 0 <= ka -> 0 <= kd -> dist s k -> dist a ka -> dist d kd -> vals s k n -> vals a ka n -> vals d kd n ->
    part s k a ka d kd -> csuma c s k = csuma c a ka +. csuma c d kd
  axiom same_ccs: forall x b a ka d kd i n [sameset a ka d kd, ccs x b a ka i, vals a ka n | sameset a ka d kd, ccs x b d kd i, vals a ka n].
    0 <= ka -> 0 <= kd -> dist a ka -> dist d kd -> vals a ka n -> vals d kd n -> sameset a ka d kd -> ccs x b a ka i = ccs x b d kd i
  axiom same_csum: forall c a ka d kd n [sameset a ka d kd, csuma c a ka, vals a ka n | sameset a ka d kd, csuma c d kd, vals a ka n].
    0 <= ka -> 0 <= kd -> dist a ka -> dist d kd -> vals a ka n -> vals d kd n -> sameset a ka d kd -> csuma c a ka = csuma c d kd
  axiom without_part: forall s k a ka d kd keep pos n [without s k a ka d kd keep pos, vals s k n]. 0 <= k -> without s k a ka d kd keep pos ->
    dist s k -> vals s k n -> (forall t. 0 <= t < ka -> picked s k (a t)) -> part s k d kd a ka /\ dist d kd /\ vals d kd n
  axiom csuma_ext: forall c a d k [csuma c a k, csuma c d k]. (forall t. 0 <= t < k -> a t = d t) -> csuma c a k = csuma c d k
  axiom csuma_nonneg: forall c a k [csuma c a k]. (forall t. 0 <= t < k -> 0.0 <=. c (a t)) -> 0.0 <=. csuma c a k
  axiom ccs_mono: forall x b s k k2 i [ccs x b s k i, ccs x b s k2 i]. 0 <= k <= k2 -> ccs x b s k i <= ccs x b s k2 i
end
