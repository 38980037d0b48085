(* Program-level meaning of the C++ operations the translator emits (generated by tools/gen_prelude.py). *)
module All
  use export int.Int
  use map.Map
  use export real.RealInfix
  use export real.FromInt
  use export ref.Ref

  (* ------------------------------------------------ containers *)
  constant maxsize : int = 4611686018427387903
  type vec 'a = { n: int; a: int -> 'a } invariant { 0 <= n }
  by { n = 0; a = (fun _ -> any 'a) }
  type cac = { cac_idx: int; cac_cost: real }
  type sd = { sd_score: real; sd_idx: int }
  exception Thrown

  val vget (v: vec 'a) (i: int) : 'a
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i }
  val vset (v: vec 'a) (i: int) (x: 'a) : vec 'a
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result.n = v.n /\ result.a = Map.set v.a i x }
  val vempty () : vec 'a
    ensures { result.n = 0 }
  val vmake (k: int) (d: 'a) : vec 'a
    requires { [@expl:container size] 0 <= k }
    ensures { result.n = k /\ k <= maxsize /\ forall i. 0 <= i < k -> result.a i = d }
  val vpush (v: vec 'a) (x: 'a) : vec 'a
    ensures { result.n = v.n + 1 /\ result.n <= maxsize /\ result.a = Map.set v.a v.n x }
  val vpop (v: vec 'a) : vec 'a
    requires { [@expl:pop on a non-empty container] 0 < v.n }
    ensures { result.n = v.n - 1 /\ result.a = v.a }
  val vresize (v: vec 'a) (k: int) (d: 'a) : vec 'a
    requires { [@expl:container size] 0 <= k }
    ensures { result.n = k /\ k <= maxsize }
    ensures { forall i. 0 <= i < v.n -> i < k -> result.a i = v.a i }
    ensures { forall i. v.n <= i < k -> result.a i = d }
    ensures { k <= v.n -> result.a = v.a }
  val vslice (v: vec 'a) (lo hi: int) : vec 'a
    requires { [@expl:iterator range] 0 <= lo <= hi <= v.n }
    ensures { result.n = hi - lo /\ forall i. 0 <= i < hi - lo -> result.a i = v.a (lo + i) }
  val vappend (v: vec 'a) (s: vec 'a) (lo hi: int) : vec 'a
    requires { [@expl:iterator range] 0 <= lo <= hi <= s.n }
    ensures { result.n = v.n + hi - lo /\ result.n <= maxsize }
    ensures { forall i. 0 <= i < v.n -> result.a i = v.a i }
    ensures { forall i. v.n <= i < v.n + hi - lo -> result.a i = s.a (lo + i - v.n) }
  val vsize (v: vec 'a) : int
    ensures { result = v.n /\ 0 <= result <= maxsize }
  val vnull (v: vec 'a) : bool
    ensures { result <-> v.n = 0 }
  val vlast (v: vec 'a) : int
    requires { [@expl:non-empty container] 0 < v.n }
    ensures { result = v.n - 1 }
  val any_vec () : vec 'a
  val any_vecn (k: int) : vec 'a
    ensures { result.n = k }
  val any_real () : real
  val any_bool () : bool
  val any_int () : int
  val ghost any_mask () : int -> bool
  val ghost any_map () : int -> int

  (* ------------------------------------------------ filtering and permuting array segments *)
  (* number of kept positions below k *)
  function nkeep (keep: int -> bool) (k: int) : int
  axiom nkeep_0: forall keep k [nkeep keep k]. k <= 0 -> nkeep keep k = 0
  axiom nkeep_s: forall keep h k [nkeep keep h, nkeep keep k]. 0 <= h -> k = h + 1 ->
    nkeep keep k = nkeep keep h + (if keep h then 1 else 0)
  (* b[0, m) is the kept part of a[0, n), in order; pos gives the original positions *)
  predicate filtered (a: int -> 'a) (n: int) (keep: int -> bool) (pos: int -> int) (b: int -> 'a) (m: int) =
    m = nkeep keep n /\ 0 <= m <= n
    /\ (forall k [keep k]. 0 <= k < n -> keep k -> 0 <= nkeep keep k < m /\ b (nkeep keep k) = a k /\ pos (nkeep keep k) = k)
    /\ (forall t [b t]. 0 <= t < m -> 0 <= pos t < n /\ keep (pos t) /\ b t = a (pos t) /\ nkeep keep (pos t) = t)
    /\ (forall t u [pos t, pos u]. 0 <= t < u < m -> pos t < pos u)
  (* b[lo, hi) is a[lo, hi) permuted by p (inverse q); the rest is unchanged *)
  predicate permuted (a b: int -> 'a) (lo hi: int) (p q: int -> int) =
    (forall t [b t]. lo <= t < hi -> lo <= p t < hi /\ q (p t) = t /\ b t = a (p t))
    /\ (forall t [q t]. lo <= t < hi -> lo <= q t < hi /\ p (q t) = t /\ b (q t) = a t)
    /\ (forall t [a t]. lo <= t < hi -> lo <= q t < hi /\ p (q t) = t /\ b (q t) = a t)
    /\ (forall t [b t]. t < lo \/ hi <= t -> b t = a t)

  (* ------------------------------------------------ i8 *)
  predicate in_i8 (x: int) = -128 <= x <= 127
  val any_i8 () : int
    ensures { in_i8 result }
  val vget_i8 (v: vec int) (i: int) : int
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\ in_i8 result }
  val cast_i8 (x: int) : int
    ensures { in_i8 result }
    ensures { in_i8 x -> result = x }
  val rtrunc_i8 (x: real) : int
    requires { [@expl:float to integer conversion in range] (-. 129.0) <. x <. 128.0 }
    ensures { in_i8 result }
    ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
    ensures { x <=. 0.0 -> from_int result -. 1.0 <. x <=. from_int result }
  (* ------------------------------------------------ i16 *)
  predicate in_i16 (x: int) = -32768 <= x <= 32767
  val any_i16 () : int
    ensures { in_i16 result }
  val vget_i16 (v: vec int) (i: int) : int
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\ in_i16 result }
  val cast_i16 (x: int) : int
    ensures { in_i16 result }
    ensures { in_i16 x -> result = x }
  val rtrunc_i16 (x: real) : int
    requires { [@expl:float to integer conversion in range] (-. 32769.0) <. x <. 32768.0 }
    ensures { in_i16 result }
    ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
    ensures { x <=. 0.0 -> from_int result -. 1.0 <. x <=. from_int result }
  (* ------------------------------------------------ i32 *)
  predicate in_i32 (x: int) = -2147483648 <= x <= 2147483647
  val any_i32 () : int
    ensures { in_i32 result }
  val vget_i32 (v: vec int) (i: int) : int
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\ in_i32 result }
  val cast_i32 (x: int) : int
    ensures { in_i32 result }
    ensures { in_i32 x -> result = x }
  val rtrunc_i32 (x: real) : int
    requires { [@expl:float to integer conversion in range] (-. 2147483649.0) <. x <. 2147483648.0 }
    ensures { in_i32 result }
    ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
    ensures { x <=. 0.0 -> from_int result -. 1.0 <. x <=. from_int result }
  val add_i32 (x y: int) : int
    requires { [@expl:no signed overflow] in_i32 (x + y) }
    ensures { result = x + y }
  val sub_i32 (x y: int) : int
    requires { [@expl:no signed overflow] in_i32 (x - y) }
    ensures { result = x - y }
  val mul_i32 (x y: int) : int
    requires { [@expl:no signed overflow] in_i32 (x * y) }
    ensures { result = x * y }
  (* ------------------------------------------------ i64 *)
  predicate in_i64 (x: int) = -9223372036854775808 <= x <= 9223372036854775807
  val any_i64 () : int
    ensures { in_i64 result }
  val vget_i64 (v: vec int) (i: int) : int
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\ in_i64 result }
  val cast_i64 (x: int) : int
    ensures { in_i64 result }
    ensures { in_i64 x -> result = x }
  val rtrunc_i64 (x: real) : int
    requires { [@expl:float to integer conversion in range] (-. 9223372036854775809.0) <. x <. 9223372036854775808.0 }
    ensures { in_i64 result }
    ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
    ensures { x <=. 0.0 -> from_int result -. 1.0 <. x <=. from_int result }
  val add_i64 (x y: int) : int
    requires { [@expl:no signed overflow] in_i64 (x + y) }
    ensures { result = x + y }
  val sub_i64 (x y: int) : int
    requires { [@expl:no signed overflow] in_i64 (x - y) }
    ensures { result = x - y }
  val mul_i64 (x y: int) : int
    requires { [@expl:no signed overflow] in_i64 (x * y) }
    ensures { result = x * y }
  (* ------------------------------------------------ u8 *)
  predicate in_u8 (x: int) = 0 <= x <= 255
  val any_u8 () : int
    ensures { in_u8 result }
  val vget_u8 (v: vec int) (i: int) : int
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\ in_u8 result }
  val cast_u8 (x: int) : int
    ensures { in_u8 result }
    ensures { in_u8 x -> result = x }
    ensures { -256 <= x < 0 -> result = x + 256 }
  val rtrunc_u8 (x: real) : int
    requires { [@expl:float to integer conversion in range] (-. 1.0) <. x <. 256.0 }
    ensures { in_u8 result }
    ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
    ensures { x <=. 0.0 -> from_int result -. 1.0 <. x <=. from_int result }
  (* ------------------------------------------------ u16 *)
  predicate in_u16 (x: int) = 0 <= x <= 65535
  val any_u16 () : int
    ensures { in_u16 result }
  val vget_u16 (v: vec int) (i: int) : int
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\ in_u16 result }
  val cast_u16 (x: int) : int
    ensures { in_u16 result }
    ensures { in_u16 x -> result = x }
    ensures { -65536 <= x < 0 -> result = x + 65536 }
  val rtrunc_u16 (x: real) : int
    requires { [@expl:float to integer conversion in range] (-. 1.0) <. x <. 65536.0 }
    ensures { in_u16 result }
    ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
    ensures { x <=. 0.0 -> from_int result -. 1.0 <. x <=. from_int result }
  (* ------------------------------------------------ u32 *)
  predicate in_u32 (x: int) = 0 <= x <= 4294967295
  val any_u32 () : int
    ensures { in_u32 result }
  val vget_u32 (v: vec int) (i: int) : int
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\ in_u32 result }
  val cast_u32 (x: int) : int
    ensures { in_u32 result }
    ensures { in_u32 x -> result = x }
    ensures { -4294967296 <= x < 0 -> result = x + 4294967296 }
  val rtrunc_u32 (x: real) : int
    requires { [@expl:float to integer conversion in range] (-. 1.0) <. x <. 4294967296.0 }
    ensures { in_u32 result }
    ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
    ensures { x <=. 0.0 -> from_int result -. 1.0 <. x <=. from_int result }
  val add_u32 (x y: int) : int
    ensures { in_u32 result }
    ensures { result = (if x + y <= 4294967295 then x + y else x + y - 4294967296) }
  val sub_u32 (x y: int) : int
    ensures { in_u32 result }
    ensures { result = (if x >= y then x - y else x - y + 4294967296) }
  val mul_u32 (x y: int) : int
    ensures { in_u32 result }
    ensures { x * y <= 4294967295 -> result = x * y }
  (* ------------------------------------------------ u64 *)
  predicate in_u64 (x: int) = 0 <= x <= 18446744073709551615
  val any_u64 () : int
    ensures { in_u64 result }
  val vget_u64 (v: vec int) (i: int) : int
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\ in_u64 result }
  val cast_u64 (x: int) : int
    ensures { in_u64 result }
    ensures { in_u64 x -> result = x }
    ensures { -18446744073709551616 <= x < 0 -> result = x + 18446744073709551616 }
  val rtrunc_u64 (x: real) : int
    requires { [@expl:float to integer conversion in range] (-. 1.0) <. x <. 18446744073709551616.0 }
    ensures { in_u64 result }
    ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
    ensures { x <=. 0.0 -> from_int result -. 1.0 <. x <=. from_int result }
  val add_u64 (x y: int) : int
    ensures { in_u64 result }
    ensures { result = (if x + y <= 18446744073709551615 then x + y else x + y - 18446744073709551616) }
  val sub_u64 (x y: int) : int
    ensures { in_u64 result }
    ensures { result = (if x >= y then x - y else x - y + 18446744073709551616) }
  val mul_u64 (x y: int) : int
    ensures { in_u64 result }
    ensures { x * y <= 18446744073709551615 -> result = x * y }

  val vget_cac (v: vec cac) (i: int) : cac
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\ in_i32 result.cac_idx }
  val vget_sd (v: vec sd) (i: int) : sd
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\ in_i32 result.sd_idx }
  val any_cac () : cac
    ensures { in_i32 result.cac_idx }
  val any_sd () : sd
    ensures { in_i32 result.sd_idx }

  (* ------------------------------------------------ floating point, read as real arithmetic *)
  val constant rmax : real
  axiom rmax_val : rmax = 340282346638528859811704183484516925440.0
  val constant rlow : real
  axiom rlow_val : rlow = -. rmax
  val constant rinf : real
  axiom rinf_big : rinf >. rmax
  val constant rtiny : real
  axiom rtiny_small : 0.0 <. rtiny <. 0.000001
  val radd (x y: real) : real ensures { result = x +. y }
  val rsub (x y: real) : real ensures { result = x -. y }
  val rmul (x y: real) : real ensures { result = x *. y }
  val rdiv (x y: real) : real
    requires { [@expl:divisor is not zero] y <> 0.0 }
    ensures { result = x /. y }
  val rdiv0 (x y: real) : real ensures { result = x /. y }
  predicate rin (lo x hi: real) = lo <=. x /\ x <=. hi
  val rneg (x: real) : real ensures { result = -. x }
  val rfromint (x: int) : real ensures { result = from_int x }
  val rlt (x y: real) : bool ensures { result <-> x <. y }
  val rle (x y: real) : bool ensures { result <-> x <=. y }
  val rgt (x y: real) : bool ensures { result <-> x >. y }
  val rge (x y: real) : bool ensures { result <-> x >=. y }
  val req (x y: real) : bool ensures { result <-> x = y }
  val rneq (x y: real) : bool ensures { result <-> x <> y }
  val ilt (x y: int) : bool ensures { result <-> x < y }
  val ile (x y: int) : bool ensures { result <-> x <= y }
  val igt (x y: int) : bool ensures { result <-> x > y }
  val ige (x y: int) : bool ensures { result <-> x >= y }
  val ieq (x y: int) : bool ensures { result <-> x = y }
  val ineq (x y: int) : bool ensures { result <-> x <> y }
  val eqb (x y: bool) : bool ensures { result <-> x = y }
  val neqb (x y: bool) : bool ensures { result <-> x <> y }
end
module Div
  use All
  use export int.EuclideanDivision
  use int.ComputerDivision as CD
  val div_i32 (x y: int) : int
    requires { [@expl:divisor is not zero] y <> 0 /\ not (x = -2147483648 /\ y = -1) }
    ensures { result = CD.div x y /\ in_i32 result }
    ensures { x >= 0 -> y > 0 -> result = div x y /\ 0 <= result <= x }
  val rem_i32 (x y: int) : int
    requires { [@expl:divisor is not zero] y <> 0 /\ not (x = -2147483648 /\ y = -1) }
    ensures { result = CD.mod x y }
    ensures { x >= 0 -> y > 0 -> result = mod x y /\ 0 <= result < y }
  val div_i64 (x y: int) : int
    requires { [@expl:divisor is not zero] y <> 0 /\ not (x = -9223372036854775808 /\ y = -1) }
    ensures { result = CD.div x y /\ in_i64 result }
    ensures { x >= 0 -> y > 0 -> result = div x y /\ 0 <= result <= x }
  val rem_i64 (x y: int) : int
    requires { [@expl:divisor is not zero] y <> 0 /\ not (x = -9223372036854775808 /\ y = -1) }
    ensures { result = CD.mod x y }
    ensures { x >= 0 -> y > 0 -> result = mod x y /\ 0 <= result < y }
  val div_u32 (x y: int) : int
    requires { [@expl:divisor is not zero] y <> 0 }
    ensures { result = div x y /\ 0 <= result <= x }
  val rem_u32 (x y: int) : int
    requires { [@expl:divisor is not zero] y <> 0 }
    ensures { result = mod x y /\ 0 <= result < y }
  val div_u64 (x y: int) : int
    requires { [@expl:divisor is not zero] y <> 0 }
    ensures { result = div x y /\ 0 <= result <= x }
  val rem_u64 (x y: int) : int
    requires { [@expl:divisor is not zero] y <> 0 }
    ensures { result = mod x y /\ 0 <= result < y }
end
