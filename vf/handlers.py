"""Calls translated by rule instead of by inlining (each rule states its justification)."""
from .tr3 import *
from .tr3 import Tr


def h_checked_cast(tr, n, d, args):
    """cft::checked_cast has the contract {value representable in the target type} result = value; its
    instantiations are verified against that contract as units of their own."""
    ct = tr.ctype(n)
    p = [p for p in d["inner"] if p.get("kind") == "ParmVarDecl"][0]
    v = tr.ev(args[0])
    v = tr.cast(v, tr.ctype(p))
    if ct.k == "int" and v.ct.k == "int":
        lo, hi = LIMS[ct.key()]
        slo, shi = LIMS[v.ct.key()]
        if v.const is not None and lo <= v.const <= hi:
            return tr.iconst(v.const, ct)
        if slo < lo and shi > hi:
            tr.need("%s <= %s <= %d" % (num(lo), v.term(), hi), "value representable in the target type")
        elif slo < lo:
            tr.need("%s <= %s" % (num(lo), v.term()), "value representable in the target type")
        elif shi > hi:
            tr.need("%s <= %d" % (v.term(), hi), "value representable in the target type")
        return tr.sc(v.term(), ct)
    if ct.k == "int" and v.ct.k == "real":
        if tr.pure:
            raise Unsupported("float to int in pure context")
        return tr.cast(v, ct)
    return tr.cast(v, ct)


def closure_formula(tr, f, argvs, ret="bool"):
    """(term, well-definedness) of the pure closure f applied to the argument places"""
    def g():
        v = tr.call_clos(f, argvs)
        v = tr.rd(v)
        if ret == "bool":
            v = tr.tobool(v)
        return v.term()
    return tr.pure_eval(g)


def as_clos(tr, v):
    if isinstance(v, (Clos, AbsPred)):
        return v
    if isinstance(v, ThisP):
        v = v.obj
    if isinstance(v, Node):
        if "#base" in v.fields:
            return v.fields["#base"]
        rec = tr.tp.find_record(v.ct.name)
        for c in sub(rec):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                d = tr.ast.definition(c["id"])
                body = [x for x in d["inner"] if x.get("kind") == "CompoundStmt"][0]
                ps = [x for x in d["inner"] if x.get("kind") == "ParmVarDecl"]
                fr = Fr(tr.frame, d, v)
                return Clos(d, ps, body, fr, v, None)
    raise Unsupported("not a closure: %r" % v)


def conj(xs):
    return " /\\ ".join("(%s)" % x for x in xs) if xs else "true"


def quant(tr, n, d, args, kind):
    """any/all: contract of the generic function instantiated with the (pure) closure.  The generic bodies are verified
    once per instantiation with an abstract predicate."""
    save = (len(tr.lines), dict(tr.cnt), tr.loopno)
    c = tr.expr(args[0])
    f = tr.expr(args[1])
    try:
        f = as_clos(tr, f)
        b, e = tr.range_bounds(c)
        k = tr.fresh("k")
        el = tr.elem(b.base, k)
        P, W = closure_formula(tr, f, [el])
    except Unsupported:
        if tr.pure:
            raise
        return tr.inline(d, [p for p in d["inner"] if p.get("kind") == "ParmVarDecl"], [c, f], None)
    lo, hi = b.off.term(), e.off.term()
    if W:
        tr.need("(forall %s. %s <= %s < %s -> %s)" % (k, lo, k, hi, conj(W)), "condition well defined on every element")
    F = "(exists %s. %s <= %s < %s /\\ %s)" % (k, lo, k, hi, P) if kind == "any" else \
        "(forall %s. %s <= %s < %s -> %s)" % (k, lo, k, hi, P)
    if tr.pure:
        return tr.sc(F, BOOL)
    r = tr.fresh(kind)
    tr.emit("let %s = any_bool () in" % r)
    tr.emit("assume { %s <-> %s };" % (r, F))
    return tr.sc(r, BOOL)


def h_any(tr, n, d, args):
    return quant(tr, n, d, args, "any")


def h_all(tr, n, d, args):
    return quant(tr, n, d, args, "all")


def h_remove_if(tr, n, d, args):
    """remove_if: the kept elements in order (contract of the generic function, verified with an abstract predicate)."""
    params = [p for p in d["inner"] if p.get("kind") == "ParmVarDecl"]
    c = tr.expr(args[0])
    f = tr.expr(args[1])
    try:
        f = as_clos(tr, f)
        if not (isinstance(c, (Leaf, Pl)) and c.ct.k == "vec"):
            raise Unsupported("remove_if on %r" % c)
        k = tr.fresh("k")
        # the closure must not depend on the container that is being compacted
        old = tr.let_named(tr.rd(c).term(), "olds") if not tr.pure else None
        el = tr.elem(Leaf(old, False, c.ct), k)
        P, W = closure_formula(tr, f, [el])
        root = (c if isinstance(c, Leaf) else c.leaf).name
        if re.search(r"!%s\b" % re.escape(root), P) and not isinstance(c, Pl):
            raise Unsupported("condition reads the container")
    except Unsupported:
        return tr.inline(d, params, [c, f], None)
    if W:
        tr.need("(forall %s. 0 <= %s < %s.n -> %s)" % (k, k, old, conj(W)), "condition well defined on every element")
    keep, nv, pr = tr.fresh("keep"), tr.fresh("kept"), tr.fresh("kpos")
    tr.emit("let ghost %s = any_mask () in" % keep)
    tr.emit("let ghost %s = any_map () in" % pr)
    tr.emit("let %s = (any_vec () : %s) in" % (nv, wt(c.ct)))
    tr.emit("assume { forall %s [%s %s]. 0 <= %s < %s.n -> (%s %s <-> not %s) };" % (k, keep, k, k, old, keep, k, P))
    tr.emit("assume { filtered %s.a %s.n %s %s %s.a %s.n };" % (old, old, keep, pr, nv, nv))
    tr.wr(c, nv)
    return VOIDV


def h_range_min(tr, n, d, args):
    """range_min: a smallest element of a non-empty range (contract of the generic function)."""
    c = tr.expr(args[0])
    if args[1]["kind"] == "CXXDefaultArgExpr":
        ps = [p for p in d["inner"] if p.get("kind") == "ParmVarDecl"]
        f = None
        ini = exprs(ps[1])
        f = tr.with_frame(None, lambda: tr.expr(ini[-1], tr.ctype(ps[1])))
    else:
        f = tr.expr(args[1])
    params = [p for p in d["inner"] if p.get("kind") == "ParmVarDecl"]
    try:
        fc = as_clos(tr, f)
        b, e = tr.range_bounds(c)
        k = tr.fresh("k")
        mi = tr.fresh("minpos")
        K, W = closure_formula(tr, fc, [tr.elem(b.base, k)], "val")
        M, W2 = closure_formula(tr, fc, [tr.elem(b.base, mi)], "val")
    except Unsupported:
        return tr.inline(d, params, [c, f], None)
    lo, hi = b.off.term(), e.off.term()
    tr.need("%s < %s" % (lo, hi), "minimum of a non-empty range")
    if W:
        tr.need("(forall %s. %s <= %s < %s -> %s)" % (k, lo, k, hi, conj(W)), "key well defined on every element")
    op = "<=." if tr.place_ct(tr.as_pl(b.base).leaf, tr.as_pl(b.base).path).elem.k == "struct" or "." in M else "<="
    ct = tr.place_ct(tr.as_pl(b.base).leaf, tr.as_pl(b.base).path)
    op = key_op(tr, fc, ct.elem)
    tr.emit("let %s = any_int () in" % mi)
    tr.emit("assume { %s <= %s < %s /\\ (forall %s. %s <= %s < %s -> %s %s %s) };" % (lo, mi, hi, k, lo, k, hi, M, op, K))
    v = tr.rd(tr.elem(b.base, mi))
    if ct.elem.k == "struct":
        return Node(ct.elem, {f_: tr.field(v, f_) for f_, _ in RECF[RECN[ct.elem.name]]})
    return v


def key_op(tr, fc, elct):
    if isinstance(fc, AbsPred):
        return "<=." if fc.ret.k == "real" else "<="
    r = tr.ret_ct(fc.node)
    if r is None or r.k == "other":
        r = tr.find_ret_ct(fc.body)
    if r is None or r.k not in ("int", "real"):
        r = elct
    return "<=." if r.k == "real" else "<="


def cmp_formula(tr, f, base, i, j):
    return closure_formula(tr, f, [tr.elem(base, i), tr.elem(base, j)])


def sort_common(tr, n, args, nth):
    a = tr.rdp(tr.expr(args[0]))
    if nth:
        m = tr.rdp(tr.expr(args[1]))
        b = tr.rdp(tr.expr(args[2]))
        comp = tr.expr(args[3]) if len(args) > 3 else None
    else:
        b = tr.rdp(tr.expr(args[1]))
        comp = tr.expr(args[2]) if len(args) > 2 else None
    if not (isinstance(a, PtrO) and isinstance(b, PtrO)):
        raise Unsupported("sort on something that is not a container range")
    base = a.base
    ct = tr.place_ct(tr.as_pl(base).leaf, tr.as_pl(base).path)
    old = tr.let_named(tr.rd(base).term(), "olds")
    nv, p, q = tr.fresh("sorted"), tr.fresh("perm"), tr.fresh("invp")
    lo, hi = a.off.term(), b.off.term()
    tr.need("0 <= %s <= %s <= %s.n" % (lo, hi, old), "iterator range")
    if nth:
        tr.need("%s <= %s <= %s" % (lo, m.off.term(), hi), "iterator range")
    ob = Leaf(old, False, ct)
    nb = Leaf(nv, False, ct)
    x, y, z = tr.fresh("x"), tr.fresh("y"), tr.fresh("z")

    def C(b_, i, j):
        if comp is None:
            op = "<." if ct.elem.k == "real" else "<"
            return "(%s.a %s %s %s.a %s)" % (b_.name, tr.at(i), op, b_.name, tr.at(j)), []
        return cmp_formula(tr, as_clos(tr, comp), b_, i, j)
    f1, W = C(ob, x, y)
    f2, _ = C(ob, y, x)
    f3, _ = C(ob, x, z)
    f4, _ = C(ob, y, z)
    rng = "%s <= %s < %s" % (lo, x, hi)
    rng2 = rng + " -> %s <= %s < %s" % (lo, y, hi)
    if W:
        tr.need("(forall %s %s. %s -> %s)" % (x, y, rng2, conj(W)), "comparison well defined")
    tr.need("(forall %s %s. %s -> %s -> not %s)" % (x, y, rng2, f1, f2), "the comparison is a strict weak order")
    tr.need("(forall %s %s %s. %s -> %s <= %s < %s -> %s -> (%s \\/ %s))" % (
        x, y, z, rng2, lo, z, hi, f3, f1, f4), "the comparison is a strict weak order")
    tr.emit("let ghost %s = any_map () in" % p)
    tr.emit("let ghost %s = any_map () in" % q)
    tr.emit("let %s = (any_vec () : %s) in" % (nv, wt(ct)))
    tr.emit("assume { %s.n = %s.n /\\ permuted %s.a %s.a %s %s %s %s };" % (nv, old, old, nv, lo, hi, p, q))
    if nth:
        mo = m.off.term()
        g1, _ = C(nb, mo, x)
        g2, _ = C(nb, x, mo)
        tr.emit("assume { %s < %s -> ((forall %s. %s <= %s < %s -> not %s) /\\ (forall %s. %s <= %s < %s -> not %s)) };" % (
            mo, hi, x, lo, x, mo, g1, x, mo, x, hi, g2))
    else:
        g, _ = C(nb, y, x)
        tr.emit("assume { forall %s %s. %s <= %s < %s < %s -> not %s };" % (x, y, lo, x, y, hi, g))
    tr.wr(base, nv)
    return VOIDV


def h_std_sort(tr, n, d, args):
    """std::sort is trusted to sort: permutation of the range, no element smaller than its predecessor; the strict weak
    ordering it needs is an obligation."""
    return sort_common(tr, n, args, False)


def h_std_nth(tr, n, d, args):
    return sort_common(tr, n, args, True)


HANDLERS = {
    "cft::checked_cast": h_checked_cast,
    "cft::any": h_any,
    "cft::all": h_all,
    "cft::remove_if": h_remove_if,
    "cft::range_min": h_range_min,
    "std::sort": h_std_sort,
    "std::stable_sort": h_std_sort,
    "std::nth_element": h_std_nth,
}
