(* Sums of costs and of multipliers. *)
module Sum
  use int.Int
  use map.Map
  use cft.All
  (* sum of costs of the first k selected columns *)
  function csuma (c: int -> real) (s: int -> int) (k: int) : real
  axiom csuma_0: forall c s k [csuma c s k]. k <= 0 -> csuma c s k = 0.0
  axiom csuma_s: forall c s h k [csuma c s h, csuma c s k]. 0 <= h -> k = h + 1 -> csuma c s k = csuma c s h +. c (s h)
  function csum (c: vec real) (s: vec int) (k: int) : real = csuma c.a s.a k
end

(* what contracts see *)
module S
  use int.Int
  use map.Map
  use cft.All
  use export Sum
end
