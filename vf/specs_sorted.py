"""Contracts: the bounded sorted array (abstract key; the capacity is that of the instantiation)."""
from .ctypes_ import F32, I32
SPECS = {}
SA = dict(use=["heap.Heap"], props=["C17", "C10"], key=("key", F32, "int", I32))
D, K = "$this.data", "$this.sz"

SPECS["cft::SortedArray::insert"] = dict(SA,
    params=["elem"], keyargs=[("one", "elem", None), ("many", "this_data", "this_sz")],
    requires=[K + " < " + D + ".n"],
    ensures=[("one more element", K + " = " + K + "'0 + 1"),
             ("the element goes to its place, after those with the same key", "inserted key " + D + "'0.a " + K + "'0 $elem " + D + ".a")],
    loops={1: dict(inv=["0 <= $i <= " + K + "'0", D + ".n = " + D + "'0.n",
                        "forall t. 0 <= t < $i -> " + D + ".a t = " + D + "'0.a t",
                        "forall t. $i < t <= " + K + "'0 -> " + D + ".a t = " + D + "'0.a (t - 1)",
                        "forall t. $i <= t < " + K + "'0 -> key $elem <. key (" + D + "'0.a t)"],
                   post=["let ghost place = $i in"])},
    exit=["assert { ins key " + D + "'0.a " + K + "'0 $elem " + D + ".a place }"])
SPECS["cft::SortedArray::try_insert"] = dict(SA,
    params=["elem"], keyargs=[("one", "elem", None), ("many", "this_data", "this_sz")],
    requires=[K + " <= " + D + ".n"],
    ensures=[("an attempt stores the element exactly when there is room or its key is smaller than the largest",
              "attempt key " + D + ".n " + D + "'0.a " + K + "'0 $elem " + D + ".a " + K + " $result"),
             ("never more elements than fit", K + " <= " + D + ".n")])
