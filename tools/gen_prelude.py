L={"i8":(-128,127),"i16":(-32768,32767),"i32":(-2147483648,2147483647),"i64":(-9223372036854775808,9223372036854775807),"u8":(0,255),"u16":(0,65535),"u32":(0,4294967295),"u64":(0,18446744073709551615)}
def num(v): return str(v) if v>=0 else "(%d)"%v
o=[]
w=o.append
q=[]
w('''(* Program-level meaning of the C++ operations the translator emits (generated by tools/gen_prelude.py). *)
module All
  use export int.Int
  use map.Map
  use export real.RealInfix
  use export real.FromInt
  use export ref.Ref

  (* ------------------------------------------------ containers *)
  constant maxsize : int = 4611686018427387903
  type vec 'a = { n: int; a: int -> 'a } invariant { 0 <= n }
  by { n = 0; a = (fun _ -> any 'a) }
  type cac = { cac_idx: int; cac_cost: real }
  type sd = { sd_score: real; sd_idx: int }
  exception Thrown

  val vget (v: vec 'a) (i: int) : 'a
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i }
  val vset (v: vec 'a) (i: int) (x: 'a) : vec 'a
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result.n = v.n /\\ result.a = Map.set v.a i x }
  val vempty () : vec 'a
    ensures { result.n = 0 }
  val vmake (k: int) (d: 'a) : vec 'a
    requires { [@expl:container size] 0 <= k }
    ensures { result.n = k /\\ k <= maxsize /\\ forall i. 0 <= i < k -> result.a i = d }
  val vpush (v: vec 'a) (x: 'a) : vec 'a
    ensures { result.n = v.n + 1 /\\ result.n <= maxsize /\\ result.a = Map.set v.a v.n x }
  val vpop (v: vec 'a) : vec 'a
    requires { [@expl:pop on a non-empty container] 0 < v.n }
    ensures { result.n = v.n - 1 /\\ result.a = v.a }
  val vresize (v: vec 'a) (k: int) (d: 'a) : vec 'a
    requires { [@expl:container size] 0 <= k }
    ensures { result.n = k /\\ k <= maxsize }
    ensures { forall i. 0 <= i < v.n -> i < k -> result.a i = v.a i }
    ensures { forall i. v.n <= i < k -> result.a i = d }
    ensures { k <= v.n -> result.a = v.a }
  val vslice (v: vec 'a) (lo hi: int) : vec 'a
    requires { [@expl:iterator range] 0 <= lo <= hi <= v.n }
    ensures { result.n = hi - lo /\\ forall i. 0 <= i < hi - lo -> result.a i = v.a (lo + i) }
  val vappend (v: vec 'a) (s: vec 'a) (lo hi: int) : vec 'a
    requires { [@expl:iterator range] 0 <= lo <= hi <= s.n }
    ensures { result.n = v.n + hi - lo /\\ result.n <= maxsize }
    ensures { forall i. 0 <= i < v.n -> result.a i = v.a i }
    ensures { forall i. v.n <= i < v.n + hi - lo -> result.a i = s.a (lo + i - v.n) }
  val vsize (v: vec 'a) : int
    ensures { result = v.n /\\ 0 <= result <= maxsize }
  val vnull (v: vec 'a) : bool
    ensures { result <-> v.n = 0 }
  val vlast (v: vec 'a) : int
    requires { [@expl:non-empty container] 0 < v.n }
    ensures { result = v.n - 1 }
  val any_vec () : vec 'a
  val any_vecn (k: int) : vec 'a
    ensures { result.n = k }
  val any_real () : real
  val any_bool () : bool
  val any_int () : int
  val ghost any_mask () : int -> bool
  val ghost any_map () : int -> int

  (* ------------------------------------------------ filtering and permuting array segments *)
  (* number of kept positions below k *)
  function nkeep (keep: int -> bool) (k: int) : int
  axiom nkeep_0: forall keep k [nkeep keep k]. k <= 0 -> nkeep keep k = 0
  axiom nkeep_s: forall keep h k [nkeep keep h, nkeep keep k]. 0 <= h -> k = h + 1 ->
    nkeep keep k = nkeep keep h + (if keep h then 1 else 0)
  (* b[0, m) is the kept part of a[0, n), in order; pos gives the original positions *)
  predicate filtered (a: int -> 'a) (n: int) (keep: int -> bool) (pos: int -> int) (b: int -> 'a) (m: int) =
    m = nkeep keep n /\\ 0 <= m <= n
    /\\ (forall k [keep k]. 0 <= k < n -> keep k -> 0 <= nkeep keep k < m /\\ b (nkeep keep k) = a k /\\ pos (nkeep keep k) = k)
    /\\ (forall t [b t]. 0 <= t < m -> 0 <= pos t < n /\\ keep (pos t) /\\ b t = a (pos t) /\\ nkeep keep (pos t) = t)
    /\\ (forall t u [pos t, pos u]. 0 <= t < u < m -> pos t < pos u)
  (* b[lo, hi) is a[lo, hi) permuted by p (inverse q); the rest is unchanged *)
  predicate permuted (a b: int -> 'a) (lo hi: int) (p q: int -> int) =
    (forall t [b t]. lo <= t < hi -> lo <= p t < hi /\\ q (p t) = t /\\ b t = a (p t))
    /\\ (forall t [q t]. lo <= t < hi -> lo <= q t < hi /\\ p (q t) = t /\\ b (q t) = a t)
    /\\ (forall t [a t]. lo <= t < hi -> lo <= q t < hi /\\ p (q t) = t /\\ b (q t) = a t)
    /\\ (forall t [b t]. t < lo \\/ hi <= t -> b t = a t)
''')
for t,(lo,hi) in L.items():
    M=hi-lo+1
    w(f'''  (* ------------------------------------------------ {t} *)
  predicate in_{t} (x: int) = {lo} <= x <= {hi}
  val any_{t} () : int
    ensures {{ in_{t} result }}
  val vget_{t} (v: vec int) (i: int) : int
    requires {{ [@expl:index in bounds] 0 <= i < v.n }}
    ensures {{ result = v.a i /\\ in_{t} result }}
  val cast_{t} (x: int) : int
    ensures {{ in_{t} result }}
    ensures {{ in_{t} x -> result = x }}''')
    if t[0]=='u':
        w(f'''    ensures {{ -{M} <= x < 0 -> result = x + {M} }}''')
    w(f'''  val rtrunc_{t} (x: real) : int
    requires {{ [@expl:float to integer conversion in range] {num(lo)[:-1].replace('(','-. ') if False else ('(-. %d.0)'%(-lo+1) if lo<0 else '(-. 1.0)')} <. x <. {hi+1}.0 }}
    ensures {{ in_{t} result }}
    ensures {{ x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }}
    ensures {{ x <=. 0.0 -> from_int result -. 1.0 <. x <=. from_int result }}''')
    if t in("i32","i64"):
        for f,op in(("add","+"),("sub","-"),("mul","*")):
            w(f'''  val {f}_{t} (x y: int) : int
    requires {{ [@expl:no signed overflow] in_{t} (x {op} y) }}
    ensures {{ result = x {op} y }}''')
        q.append(f'''  val div_{t} (x y: int) : int
    requires {{ [@expl:divisor is not zero] y <> 0 /\\ not (x = {lo} /\\ y = -1) }}
    ensures {{ result = CD.div x y /\\ in_{t} result }}
    ensures {{ x >= 0 -> y > 0 -> result = div x y /\\ 0 <= result <= x }}
  val rem_{t} (x y: int) : int
    requires {{ [@expl:divisor is not zero] y <> 0 /\\ not (x = {lo} /\\ y = -1) }}
    ensures {{ result = CD.mod x y }}
    ensures {{ x >= 0 -> y > 0 -> result = mod x y /\\ 0 <= result < y }}''')
    if t in("u32","u64"):
        w(f'''  val add_{t} (x y: int) : int
    ensures {{ in_{t} result }}
    ensures {{ result = (if x + y <= {hi} then x + y else x + y - {M}) }}
  val sub_{t} (x y: int) : int
    ensures {{ in_{t} result }}
    ensures {{ result = (if x >= y then x - y else x - y + {M}) }}
  val mul_{t} (x y: int) : int
    ensures {{ in_{t} result }}
    ensures {{ x * y <= {hi} -> result = x * y }}''')
        q.append(f'''  val div_{t} (x y: int) : int
    requires {{ [@expl:divisor is not zero] y <> 0 }}
    ensures {{ result = div x y /\\ 0 <= result <= x }}
  val rem_{t} (x y: int) : int
    requires {{ [@expl:divisor is not zero] y <> 0 }}
    ensures {{ result = mod x y /\\ 0 <= result < y }}''')
w('''
  val vget_cac (v: vec cac) (i: int) : cac
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\\ in_i32 result.cac_idx }
  val vget_sd (v: vec sd) (i: int) : sd
    requires { [@expl:index in bounds] 0 <= i < v.n }
    ensures { result = v.a i /\\ in_i32 result.sd_idx }
  val any_cac () : cac
    ensures { in_i32 result.cac_idx }
  val any_sd () : sd
    ensures { in_i32 result.sd_idx }

  (* ------------------------------------------------ floating point, read as real arithmetic *)
  val constant rmax : real
  axiom rmax_val : rmax = 340282346638528859811704183484516925440.0
  val constant rlow : real
  axiom rlow_val : rlow = -. rmax
  val constant rinf : real
  axiom rinf_big : rinf >. rmax
  val constant rtiny : real
  axiom rtiny_small : 0.0 <. rtiny <. 0.000001
  val radd (x y: real) : real ensures { result = x +. y }
  val rsub (x y: real) : real ensures { result = x -. y }
  val rmul (x y: real) : real ensures { result = x *. y }
  val rdiv (x y: real) : real
    requires { [@expl:divisor is not zero] y <> 0.0 }
    ensures { result = x /. y }
  val rdiv0 (x y: real) : real ensures { result = x /. y }
  predicate rin (lo x hi: real) = lo <=. x /\\ x <=. hi
  val rneg (x: real) : real ensures { result = -. x }
  val rfromint (x: int) : real ensures { result = from_int x }
  val rlt (x y: real) : bool ensures { result <-> x <. y }
  val rle (x y: real) : bool ensures { result <-> x <=. y }
  val rgt (x y: real) : bool ensures { result <-> x >. y }
  val rge (x y: real) : bool ensures { result <-> x >=. y }
  val req (x y: real) : bool ensures { result <-> x = y }
  val rneq (x y: real) : bool ensures { result <-> x <> y }
  val ilt (x y: int) : bool ensures { result <-> x < y }
  val ile (x y: int) : bool ensures { result <-> x <= y }
  val igt (x y: int) : bool ensures { result <-> x > y }
  val ige (x y: int) : bool ensures { result <-> x >= y }
  val ieq (x y: int) : bool ensures { result <-> x = y }
  val ineq (x y: int) : bool ensures { result <-> x <> y }
  val eqb (x y: bool) : bool ensures { result <-> x = y }
  val neqb (x y: bool) : bool ensures { result <-> x <> y }
end''')
w('module Div\n  use All\n  use export int.EuclideanDivision\n  use int.ComputerDivision as CD')
o+=q
w('end')
import os
P=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','vf','theory','cft.mlw')
open(P,'w').write("\n".join(o)+"\n")
