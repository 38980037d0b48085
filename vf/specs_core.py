"""Contracts: coverage counters, sparse columns, instances."""
SPECS = {}

SUB = ["0 <= $subset.lo <= $subset.hi <= $subset.base.n",
       "forall p. $subset.lo <= p < $subset.hi -> 0 <= $subset.base.a p < $this.cov_counters.n"]
CV = "$this.cov_counters"

SPECS["cft::CoverCounters::reset"] = dict(
    params=["nelems"], props=["C09"],
    requires=["0 <= $nelems"],
    ensures=[("every counter is zero", CV + ".n = $nelems /\\ forall i. 0 <= i < $nelems -> " + CV + ".a i = 0")])

SPECS["cft::CoverCounters::cover"] = dict(
    params=["subset"], use=["cover.Cov"], props=["C09"],
    requires=SUB + ["forall i. 0 <= i < $this.cov_counters.n -> 0 <= $this.cov_counters.a i /\\ "
                    "$this.cov_counters.a i + cnt $subset.base.a $subset.lo $subset.hi i <= 4294967295"],
    ensures=[("each covered element counted once per occurrence",
              "$this.cov_counters.n = $this.cov_counters'0.n /\\ forall i. 0 <= i < $this.cov_counters.n -> "
              "$this.cov_counters.a i = $this.cov_counters'0.a i + cnt $subset.base.a $subset.lo $subset.hi i"),
             ("returns how many elements became covered",
              "$result = ncov $this.cov_counters $this.cov_counters.n - ncov $this.cov_counters'0 $this.cov_counters.n")],
    loops={1: dict(inv=[
        "$this.cov_counters.n = $this.cov_counters'0.n",
        "forall i. 0 <= i < $this.cov_counters.n -> $this.cov_counters.a i = "
        "$this.cov_counters'0.a i + cnt $subset.base.a $subset.lo ($subset.lo + $it) i",
        "$covered = ncov $this.cov_counters $this.cov_counters.n - ncov $this.cov_counters'0 $this.cov_counters.n"])})

SPECS["cft::CoverCounters::uncover"] = dict(
    params=["subset"], use=["cover.Cov"], props=["C09"],
    requires=SUB + ["forall i. 0 <= i < $this.cov_counters.n -> "
                    "cnt $subset.base.a $subset.lo $subset.hi i <= $this.cov_counters.a i <= 4294967295"],
    ensures=[("each covered element uncounted once per occurrence",
              "$this.cov_counters.n = $this.cov_counters'0.n /\\ forall i. 0 <= i < $this.cov_counters.n -> "
              "$this.cov_counters.a i = $this.cov_counters'0.a i - cnt $subset.base.a $subset.lo $subset.hi i"),
             ("returns how many elements became uncovered",
              "$result = ncov $this.cov_counters'0 $this.cov_counters.n - ncov $this.cov_counters $this.cov_counters.n")],
    loops={1: dict(inv=[
        "$this.cov_counters.n = $this.cov_counters'0.n",
        "forall i. 0 <= i < $this.cov_counters.n -> $this.cov_counters.a i = "
        "$this.cov_counters'0.a i - cnt $subset.base.a $subset.lo ($subset.lo + $it) i",
        "$uncovered = ncov $this.cov_counters'0 $this.cov_counters.n - ncov $this.cov_counters $this.cov_counters.n"])})

SPECS["cft::CoverCounters::is_redundant_cover"] = dict(
    params=["subset"], props=["C09"],
    requires=SUB,
    ensures=[("true exactly when every element is already covered",
              "$result <-> (forall p. $subset.lo <= p < $subset.hi -> $this.cov_counters.a ($subset.base.a p) > 0)")],
    loops={1: dict(inv=["forall p. $subset.lo <= p < $subset.lo + $it -> $this.cov_counters.a ($subset.base.a p) > 0"])})

SPECS["cft::CoverCounters::is_redundant_uncover"] = dict(
    params=["subset"], props=["C09"],
    requires=SUB,
    ensures=[("true exactly when every element is covered more than once",
              "$result <-> (forall p. $subset.lo <= p < $subset.hi -> $this.cov_counters.a ($subset.base.a p) > 1)")],
    loops={1: dict(inv=["forall p. $subset.lo <= p < $subset.lo + $it -> $this.cov_counters.a ($subset.base.a p) > 1"])})
