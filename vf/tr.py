"""C++ (clang AST) -> WhyML translation of function bodies.

Every function under contract is translated from the AST that clang produced for /repo's current
sources.  Functions without a contract are inlined at their call sites.  References, iterators,
pointers and spans are resolved statically to places (variable + path + offset)."""
import re
from .ctypes_ import *


class Unsupported(Exception):
    pass


class AliasInline(Exception):
    pass


RECN = {"CidxAndCost": "cac", "ScoreData": "sd"}
RECF = {"cac": [("idx", I32), ("cost", F32)], "sd": [("score", F32), ("idx", I32)]}

# order in which the leaves of a structure are passed to logic predicates in contracts
VIEWS = {
    "SparseBinMat<short>": ["idxs", "begs"],
    "Instance": ["cols", "rows", "costs"],
    "InstAndMap": ["inst", "col_map"],
    "IdxsMaps": ["col_map", "row_map"],
    "Solution": ["idxs", "cost"],
    "DualState": ["mults", "lb"],
    "FixingData": ["curr2orig", "fixed_cols", "fixed_cost"],
    "CoverCounters": ["cov_counters"],
    "CftResult": ["sol", "dual"],
}


def wt(ct):
    k = ct.k
    if k == "int":
        return "int"
    if k == "bool":
        return "bool"
    if k == "real":
        return "real"
    if k in ("vec", "arr"):
        return "(vec %s)" % wt(ct.elem)
    if k == "str":
        return "(vec int)"
    if k == "struct" and ct.name in RECN:
        return RECN[ct.name]
    raise Unsupported("no logic type for %r" % ct)


class Leaf:
    """A WhyML variable (a ref when mut) or a pure term."""

    def __init__(self, name, mut, ct, const=None):
        self.name, self.mut, self.ct, self.const = name, mut, ct, const
        self.written = False
        self.old = None     # spec-level override for 'old' value

    def term(self):
        return "!" + self.name if self.mut else self.name


class Node:
    def __init__(self, ct, fields):
        self.ct, self.fields = ct, fields


class SpanO:
    def __init__(self, base, lo, hi, ct):
        self.base, self.lo, self.hi, self.ct = base, lo, hi, ct


class PtrO:
    def __init__(self, base, off, ct):
        self.base, self.off, self.ct = base, off, ct


class Pl:
    """A place inside a leaf: path is a list of ('i', term) / ('f', field)."""

    def __init__(self, leaf, path, ct):
        self.leaf, self.path, self.ct = leaf, path, ct


class Clos:
    def __init__(self, node, params, body, env, this, ret, kind="lambda"):
        self.node, self.params, self.body, self.env, self.this, self.ret, self.kind = node, params, body, env, this, ret, kind
        self.ct = CT("clos", name=kind)


class AbsPred:
    """Abstract predicate/key used to verify the generic algorithms once for every closure."""

    def __init__(self, name, ret):
        self.name, self.ret = name, ret
        self.ct = CT("clos", name="abs")


class Opaque:
    def __init__(self, ct, tag=None):
        self.ct, self.tag = ct, tag


class ThisP:
    def __init__(self, obj):
        self.obj = obj
        self.ct = CT("this")


class FuncRef:
    def __init__(self, decl):
        self.decl = decl


class Void:
    ct = VOID


VOIDV = Void()


class Frame:
    def __init__(self, parent, fn, this=None):
        self.parent, self.fn, self.this = parent, fn, this
        self.env = {}
        self.names = [{}]
        self.ret = None        # result object (leaves are refs)
        self.retexn = None
        self.rettail = None
        self.specparams = None

    def bind(self, decl, obj):
        self.env[decl["id"]] = obj
        if decl.get("name"):
            self.names[-1][decl["name"]] = obj

    def lookup_name(self, nm):
        for s in reversed(self.names):
            if nm in s:
                return s[nm]
        return None


def sub(n):
    return [c for c in n.get("inner", []) if c.get("kind") not in ("FullComment",)]


def is_expr_or_stmt(n):
    return n.get("kind") not in ("TemplateArgument", "FullComment") and not n.get("kind", "").endswith("Attr")


LIMS = {"i8": (-128, 127), "i16": (-32768, 32767), "i32": (-2147483648, 2147483647),
        "i64": (-9223372036854775808, 9223372036854775807), "u8": (0, 255), "u16": (0, 65535),
        "u32": (0, 4294967295), "u64": (0, 18446744073709551615)}


def num(v):
    return str(v) if v >= 0 else "(%d)" % v


class Tr:
    def __init__(self, ctx, unit):
        self.ctx, self.ast, self.tp, self.unit = ctx, ctx.ast, ctx.tp, unit
        self.cnt = {}
        self.lines = []
        self.frame = None
        self.pure = False
        self.wd = []
        self.pc = []
        self.loopno = 0
        self.depth = 0
        self.loops_meta = []
        self.throws = False
        self.loopstack = []
        self.trystack = []

    # ---------------------------------------------------------------- emission
    def fresh(self, p):
        p = re.sub(r"\W", "_", p)
        if not p or not p[0].isalpha():
            p = "v" + p
        p = p[0].lower() + p[1:]
        c = self.cnt.get(p, 0)
        self.cnt[p] = c + 1
        r = p if c == 0 and p not in KEYWORDS else "%s_%d" % (p, c)
        if r in KEYWORDS:
            r += "_v"
        return r

    def emit(self, s):
        if self.pure:
            raise Unsupported("effect in a pure context: " + s[:80])
        self.lines.append(s)

    def block(self, f, result="()"):
        save = self.lines
        self.lines = []
        try:
            r = f()
            if callable(result):
                result = result(r)
            txt = "\n".join(self.lines + [result])
        finally:
            self.lines = save
        return txt, r

    def let(self, term, p="t"):
        if self.pure:
            return term
        if re.match(r"^[a-z]\w*$", term) or re.match(r"^\d+$", term):
            return term
        t = self.fresh(p)
        self.emit("let %s = %s in" % (t, term))
        return t

    def need(self, f, expl):
        """Obligation f."""
        if f == "true":
            return
        m = re.match(r"^\((\S+) = (\S+)\)$", f)
        if m and m.group(1) == m.group(2):
            return
        if self.pure:
            g = f
            for c in reversed(self.pc):
                g = "(%s -> %s)" % (c, g)
            self.wd.append(g)
        else:
            t = "assert { [@expl:%s] %s };" % (expl, f)
            if t not in self.lines[-8:]:
                self.emit(t)

    # ---------------------------------------------------------------- low level ops
    def sc(self, term, ct, const=None):
        return Leaf(term, False, ct, const)

    def iconst(self, v, ct):
        return self.sc(num(v), ct, v)

    def arith(self, op, ct, a, b):
        """a, b Leaf scalars of type ct."""
        if ct.k == "real":
            o = {"+": ("radd", "+."), "-": ("rsub", "-."), "*": ("rmul", "*."), "/": ("rdiv", "/.")}[op]
            if self.pure:
                return self.sc("(%s %s %s)" % (a.term(), o[1], b.term()), ct)
            if op == "/" and self.unit.spec.get("divzero"):
                o = ("rdiv0", "/.")
            return self.sc(self.let("%s %s %s" % (o[0], self.at(a), self.at(b))), ct)
        if ct.k != "int":
            raise Unsupported("arithmetic on %r" % ct)
        lo, hi = LIMS[ct.key()]
        if a.const is not None and b.const is not None and op in "+-*":
            v = eval("a%sb" % op, {"a": a.const, "b": b.const})
            if lo <= v <= hi:
                return self.iconst(v, ct)
            if not ct.signed:
                return self.iconst(v % (hi + 1), ct)
        if a.const is not None and b.const is not None and op in ("/", "%") and a.const >= 0 and b.const > 0:
            return self.iconst(a.const // b.const if op == "/" else a.const % b.const, ct)
        nm = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem"}.get(op)
        if nm is None:
            if op in ("<<",) and a.const is not None and b.const is not None:
                v = a.const << b.const
                return self.iconst(v & hi if not ct.signed else v, ct)
            if op == ">>" and not ct.signed and b.const is not None:
                return self.arith("/", ct, a, self.iconst(1 << b.const, ct))
            if op == "&" and not ct.signed and b.const is not None and (b.const + 1) & b.const == 0:
                return self.arith("%", ct, a, self.iconst(b.const + 1, ct))
            raise Unsupported("operator " + op)
        if self.pure:
            if op in ("+", "-", "*"):
                t = "(%s %s %s)" % (a.term(), op, b.term())
                self.need("%d <= %s <= %d" % (lo, t, hi), "overflow")
                return self.sc(t, ct)
            if op == "/":
                self.need("%s > 0 && %s >= 0" % (b.term(), a.term()), "division")
                return self.sc("(div %s %s)" % (a.term(), b.term()), ct)
            raise Unsupported("pure " + op)
        return self.sc(self.let("%s_%s %s %s" % (nm, ct.key(), self.at(a), self.at(b))), ct)

    def at(self, x):
        t = x.term() if not isinstance(x, str) else x
        if re.match(r"^!?[\w.']+$", t) or (t.startswith("(") and t.endswith(")")):
            return t
        return "(" + t + ")"

    def cast(self, x, ct):
        """scalar conversion"""
        src = x.ct
        if src == ct:
            return x
        if ct.k == "bool":
            if src.k == "int":
                if x.const is not None:
                    return self.sc("true" if x.const else "false", BOOL)
                if self.pure:
                    return self.sc("(%s <> 0)" % x.term(), BOOL)
                return self.sc(self.let("ineq %s 0" % self.at(x)), BOOL)
            if src.k == "real":
                return self.sc("(%s <> 0.0)" % x.term() if self.pure else self.let("rneq %s 0.0" % self.at(x)), BOOL)
            raise Unsupported("cast to bool from %r" % src)
        if ct.k == "int":
            if src.k == "bool":
                if x.term() in ("true", "false"):
                    return self.iconst(int(x.term() == "true"), ct)
                return self.sc(self.let("(if %s then 1 else 0)" % x.term()), ct)
            if src.k == "int":
                lo, hi = LIMS[ct.key()]
                slo, shi = LIMS[src.key()]
                if x.const is not None:
                    v = x.const
                    if not lo <= v <= hi:
                        v = (v - lo) % (hi - lo + 1) + lo
                    return self.iconst(v, ct)
                if lo <= slo and shi <= hi:
                    return self.sc(x.term(), ct)
                if self.pure:
                    if slo >= lo:
                        self.need("%s <= %d" % (x.term(), hi), "cast")
                    elif shi <= hi:
                        self.need("%s <= %s" % (num(lo), x.term()), "cast")
                    else:
                        self.need("%s <= %s <= %d" % (num(lo), x.term(), hi), "cast")
                    return self.sc(x.term(), ct)
                return self.sc(self.let("cast_%s %s" % (ct.key(), self.at(x))), ct)
            if src.k == "real":
                if self.pure:
                    raise Unsupported("pure float to int")
                return self.sc(self.let("rtrunc_%s %s" % (ct.key(), self.at(x))), ct)
        if ct.k == "real":
            if src.k == "real":
                return self.sc(x.term(), ct, x.const)
            if src.k == "int":
                if x.const is not None and abs(x.const) < 1 << 24:
                    return self.sc("%d.0" % x.const if x.const >= 0 else "(-. %d.0)" % -x.const, ct)
                return self.sc("(FromInt.from_int %s)" % x.term() if self.pure else
                               self.let("rfromint %s" % self.at(x)), ct)
            if src.k == "bool":
                return self.cast(self.cast(x, I32), ct)
        raise Unsupported("cast %r -> %r" % (src, ct))

    def compare(self, op, a, b):
        if isinstance(a, PtrO) and isinstance(b, PtrO):
            a, b = a.off, b.off
        if not isinstance(a, Leaf) or not isinstance(b, Leaf):
            raise Unsupported("comparison of non scalars")
        if a.const is not None and b.const is not None and a.ct.k == "int":
            v = eval("a%sb" % op, {"a": a.const, "b": b.const})
            return self.sc("true" if v else "false", BOOL)
        k = a.ct.k
        if k == "int" or k == "ptr":
            o = {"==": "=", "!=": "<>"}.get(op, op)
            if self.pure:
                return self.sc("(%s %s %s)" % (a.term(), o, b.term()), BOOL)
            f = {"=": "ieq", "<>": "ineq", "<": "ilt", "<=": "ile", ">": "igt", ">=": "ige"}[o]
            return self.sc("(%s %s %s)" % (f, self.at(a), self.at(b)), BOOL)
        if k == "real":
            o = {"==": "=", "!=": "<>", "<": "<.", "<=": "<=.", ">": ">.", ">=": ">=."}[op]
            if self.pure:
                return self.sc("(%s %s %s)" % (a.term(), o, b.term()), BOOL)
            f = {"==": "req", "!=": "rneq", "<": "rlt", "<=": "rle", ">": "rgt", ">=": "rge"}[op]
            return self.sc("(%s %s %s)" % (f, self.at(a), self.at(b)), BOOL)
        if k == "bool":
            if a.term() in ("true", "false") and b.term() in ("true", "false"):
                v = (a.term() == b.term()) == (op == "==")
                return self.sc("true" if v else "false", BOOL)
            f = {"==": "eqb", "!=": "neqb"}[op]
            if self.pure:
                return self.sc("(%s %s %s)" % (a.term(), {"==": "<->", "!=": "<-> not"}[op], b.term()), BOOL)
            return self.sc("(%s %s %s)" % (f, self.at(a), self.at(b)), BOOL)
        raise Unsupported("comparison on %r" % a.ct)

    def neg(self, x):
        if x.term() == "true":
            return self.sc("false", BOOL)
        if x.term() == "false":
            return self.sc("true", BOOL)
        return self.sc("(not %s)" % self.at(x), BOOL)

    def fork(self, c, fa, fb):
        """Value of (c ? fa() : fb()) for scalar results (or void)."""
        ct_ = c.term()
        if ct_ == "true":
            return fa()
        if ct_ == "false":
            return fb()
        if self.pure:
            self.pc.append(ct_)
            a = fa()
            self.pc[-1] = "(not %s)" % ct_
            b = fb()
            self.pc.pop()
            if a is VOIDV:
                return a
            a = self.rd(a)
            b = self.rd(b)
            if a.ct.k == "bool":
                return self.sc("(if %s then %s else %s)" % (ct_, a.term(), b.term()), BOOL)
            return self.sc("(if %s then %s else %s)" % (ct_, a.term(), b.term()), a.ct)
        res = {}

        def wrap(f, key):
            def g():
                v = f()
                if v is VOIDV:
                    res[key] = v
                    return v
                if isinstance(v, (Pl, Leaf)):
                    v = self.rd(v)
                    res[key] = v
                    return v
                if isinstance(v, PtrO):
                    res[key] = v
                    return v
                raise Unsupported("conditional expression of aggregate type")
            return g
        save = self.snapshot()
        ta, a = self.block(wrap(fa, "a"), lambda r: "()" if r is VOIDV else (r.off.term() if isinstance(r, PtrO) else r.term()))
        tb, b = self.block(wrap(fb, "b"), lambda r: "()" if r is VOIDV else (r.off.term() if isinstance(r, PtrO) else r.term()))
        if a is VOIDV:
            self.emit("(if %s then begin\n%s\nend else begin\n%s\nend);" % (ct_, ta, tb))
            return a
        t = self.fresh("c")
        self.emit("let %s = (if %s then begin\n%s\nend else begin\n%s\nend) in" % (t, ct_, ta, tb))
        if isinstance(a, PtrO):
            return PtrO(a.base, self.sc(t, U64), a.ct)
        return self.sc(t, a.ct)

    def snapshot(self):
        return None

    def vlen(self, v):
        t = "%s.n" % self.at(v)
        return t

    # ---------------------------------------------------------------- places
    def rd(self, x):
        """Read a scalar/vec value: returns an immutable Leaf."""
        if isinstance(x, Leaf):
            if x.mut:
                if self.pure:
                    return self.sc(x.term(), x.ct, None)
                return self.sc(self.let(x.term(), x.name.split("_")[-1]), x.ct)
            return x
        if isinstance(x, Pl):
            t, ct = x.leaf.term(), None
            t = self.path_term(x)
            return self.sc(t, x.ct)
        if isinstance(x, Node) and x.ct.name in RECN:
            return self.sc(self.mkrec(x), x.ct)
        return x

    def path_term(self, pl):
        t = pl.leaf.term()
        ct = pl.leaf.ct
        for kind, a in pl.path:
            if kind == "i":
                el = ct.elem if ct.k != "str" else I8
                if self.pure:
                    self.need("0 <= %s < %s.n" % (a, self.at(t)), "index")
                    t = "(%s.a %s)" % (self.at(t), self.at(a))
                else:
                    t = self.let("%s %s %s" % (self.getter(el), self.at(t), self.at(a)))
                ct = el
            else:
                rn = RECN[ct.name]
                t = "%s.%s_%s" % (self.at(t), rn, a)
                t = t if self.pure else self.let(t)
                ct = dict(RECF[rn])[a]
        return t

    def getter(self, el):
        if el.k == "int":
            return "vget_" + el.key()
        if el.k == "struct":
            return "vget_" + RECN[el.name]
        return "vget"

    def mkrec(self, nd):
        rn = RECN[nd.ct.name]
        return "{ %s }" % "; ".join("%s_%s = %s" % (rn, f, self.rd(nd.fields[f]).term()) for f, _ in RECF[rn])

    def wr(self, x, v):
        """Write scalar/vec/record value term v (str) into place x."""
        if self.pure:
            raise Unsupported("assignment in pure context")
        if isinstance(x, Leaf):
            if not x.mut:
                raise Unsupported("assignment to immutable " + x.name)
            x.written = True
            self.emit("%s := %s;" % (x.name, v))
            return
        if isinstance(x, Pl):
            if not x.leaf.mut:
                raise Unsupported("assignment through const " + x.leaf.name)
            x.leaf.written = True
            self.emit("%s := %s;" % (x.leaf.name, self.upd(x.leaf.term(), x.leaf.ct, x.path, v)))
            return
        raise Unsupported("write to %r" % x)

    def upd(self, t, ct, path, v):
        if not path:
            return v
        kind, a = path[0]
        if kind == "i":
            el = ct.elem
            if len(path) == 1:
                return "vset %s %s %s" % (self.at(t), self.at(a), self.at(v))
            cur = self.let("%s %s %s" % (self.getter(el), self.at(t), self.at(a)))
            nv = self.let(self.upd(cur, el, path[1:], v))
            return "vset %s %s %s" % (self.at(t), self.at(a), nv)
        rn = RECN[ct.name]
        fct = dict(RECF[rn])[a]
        if len(path) == 1:
            return "{ %s with %s_%s = %s }" % (t, rn, a, v)
        raise Unsupported("nested record path")

    def as_pl(self, x):
        if isinstance(x, Leaf):
            return Pl(x, [], x.ct)
        if isinstance(x, Pl):
            return x
        raise Unsupported("not a place: %r" % x)

    def elem(self, x, idx):
        """Place of element idx (term) of the vector place x."""
        p = self.as_pl(x)
        ct = p.ct
        el = ct.elem if ct.k != "str" else I8
        return Pl(p.leaf, p.path + [("i", idx)], el)

    def field(self, x, f):
        if isinstance(x, ThisP):
            x = x.obj
        if isinstance(x, Node):
            if f in x.fields:
                return x.fields[f]
            raise Unsupported("no field %s" % f)
        if isinstance(x, Pl) and x.ct.k == "struct":
            rn = RECN[x.ct.name]
            return Pl(x.leaf, x.path + [("f", f)], dict(RECF[rn])[f])
        if isinstance(x, Leaf) and x.ct.k == "struct":
            rn = RECN[x.ct.name]
            if x.mut:
                return Pl(x, [("f", f)], dict(RECF[rn])[f])
            return self.sc("%s.%s_%s" % (self.at(x), rn, f), dict(RECF[rn])[f])
        raise Unsupported("field %s of %r" % (f, x))

    # ---------------------------------------------------------------- objects
    def struct_fields(self, ct):
        rec = self.tp.find_record(ct.name)
        if rec is None:
            raise Unsupported("unknown struct " + ct.name)
        out = []
        for c in sub(rec):
            if c["kind"] == "FieldDecl":
                out.append((c["name"], self.ctype(c), c))
        return rec, out

    def ctype(self, n):
        t = n.get("type", {})
        q = t.get("qualType", "")
        d = t.get("desugaredQualType")
        r = self.tp.parse(q)
        if r.k == "other" and d:
            r = self.tp.parse(d)
        return r

    def default_term(self, ct):
        k = ct.k
        if k == "int":
            return "0"
        if k == "real":
            return "0.0"
        if k == "bool":
            return "false"
        if k in ("vec", "str"):
            return "(vempty ())"
        if k == "arr":
            return "(vmake %d %s)" % (ct.n, self.default_term(ct.elem))
        raise Unsupported("default of %r" % ct)

    def any_term(self, ct):
        k = ct.k
        if k == "int":
            return "(any_%s ())" % ct.key()
        if k == "real":
            return "(any_real ())"
        if k == "bool":
            return "(any_bool ())"
        if k in ("vec", "str"):
            return "(any_vec () : %s)" % wt(ct)
        if k == "arr":
            return "(any_vecn %d : %s)" % (ct.n, wt(ct))
        if k == "struct" and ct.name in RECN:
            return "(any_%s ())" % RECN[ct.name]
        raise Unsupported("any of %r" % ct)

    def new_obj(self, name, ct, mut, init=None):
        """Declare a new variable of type ct.  init: None (indeterminate), 'zero' (value-init), or an object/value."""
        if isinstance(init, (Clos, AbsPred)):
            return init
        k = ct.k
        if k in ("opaque", "other"):
            return Opaque(ct)
        if k == "clos":
            if isinstance(init, (Clos, AbsPred)):
                return init
            raise Unsupported("closure variable")
        if k == "span":
            if isinstance(init, SpanO):
                if not mut:
                    return SpanO(init.base, self.sc(self.let(init.lo.term(), name + "_lo"), U64),
                                 self.sc(self.let(init.hi.term(), name + "_hi"), U64), ct)
                lo, hi = init.lo.term(), init.hi.term()
            else:
                lo = hi = "0"
            l, h = self.fresh(name + "_lo"), self.fresh(name + "_hi")
            self.emit("let %s = ref %s in" % (l, self.at(lo)))
            self.emit("let %s = ref %s in" % (h, self.at(hi)))
            return SpanO(init.base if isinstance(init, SpanO) else None, Leaf(l, True, U64), Leaf(h, True, U64), ct)
        if k == "ptr":
            if isinstance(init, PtrO):
                if not mut:
                    return PtrO(init.base, self.sc(self.let(init.off.term(), name), U64), ct)
                o = self.fresh(name)
                self.emit("let %s = ref %s in" % (o, self.at(init.off.term())))
                return PtrO(init.base, Leaf(o, True, U64), ct)
            return PtrO(None, self.sc("0", U64), ct)
        if k == "strview":
            if isinstance(init, SpanO):
                return self.new_obj(name, CT("span", elem=I8), mut, init)
            l, h = self.fresh(name + "_lo"), self.fresh(name + "_hi")
            self.emit("let %s = ref 0 in" % l)
            self.emit("let %s = ref 0 in" % h)
            return SpanO(None, Leaf(l, True, U64), Leaf(h, True, U64), ct)
        if k == "struct":
            if init is not None and init != "zero" and not isinstance(init, Node):
                if ct.name in RECN and isinstance(init, (Pl, Leaf)):
                    v = self.rd(init)
                    init = Node(ct, {f: self.field(v, f) for f, _ in RECF[RECN[ct.name]]})
                else:
                    raise Unsupported("init of struct %r" % ct)
            rec, fs = self.struct_fields(ct)
            out = {}
            for b in rec.get("bases", []):
                bt = self.tp.parse(b["type"].get("desugaredQualType", b["type"]["qualType"]))
                if bt.k == "clos":
                    out["#base"] = init.fields.get("#base") if isinstance(init, Node) else None
            for f, fct, fd in fs:
                fi = None
                if isinstance(init, Node):
                    fi = init.fields.get(f)
                    if fi is None:
                        raise Unsupported("missing field %s" % f)
                elif fd.get("hasInClassInitializer") and init is not None:
                    fi = self.field_default(fd)
                elif init == "zero":
                    fi = "zero"
                elif fct.k in ("struct", "vec", "str"):
                    fi = "zero" if fct.k != "struct" else "default"
                out[f] = self.new_obj(name + "_" + f, fct, mut, fi)
            return Node(ct, out)
        # scalar / vec / str / arr
        if init is None:
            v = self.any_term(ct)
        elif isinstance(init, str) and init in ("zero", "default"):
            v = self.default_term(ct) if init == "zero" or ct.k in ("vec", "str") else self.any_term(ct)
        else:
            v = self.rd(init)
            if not isinstance(v, Leaf):
                raise Unsupported("init of %s" % name)
            if not mut:
                if v.const is not None:
                    return v
                nm = self.let(v.term(), name)
                return Leaf(nm, False, ct)
            v = v.term()
        nm = self.fresh(name)
        if mut:
            self.emit("let %s = ref %s in" % (nm, self.at(v)))
        else:
            self.emit("let %s = %s in" % (nm, v))
        return Leaf(nm, mut, ct)

    def field_default(self, fd):
        ini = [c for c in sub(fd) if is_expr_or_stmt(c)]
        if not ini:
            return "zero"
        fct = self.ctype(fd)
        return self.init_value(ini[-1], fct)

    def init_value(self, n, ct):
        """Evaluate an initialiser expression for type ct."""
        k = n["kind"]
        if k == "InitListExpr" and ct.k in ("vec", "arr"):
            els = [self.rd(self.conv(self.expr(c), ct.elem)) for c in sub(n) if is_expr_or_stmt(c)
                   and c["kind"] != "ImplicitValueInitExpr"]
            if ct.k == "arr":
                t = self.default_term(ct)
                for i, e in enumerate(els):
                    t = self.let("vset %s %d %s" % (self.at(self.let(t)), i, self.at(e)))
                return self.sc(self.let(t), ct)
            t = "(vempty ())"
            for e in els:
                t = self.let("vpush %s %s" % (self.at(t), self.at(e)))
            return self.sc(self.let(t), ct)
        v = self.expr(n, ct)
        return v

    def conv(self, v, ct):
        v2 = v
        if isinstance(v2, (Leaf, Pl)) and v2.ct.k in ("int", "bool", "real") and ct.k in ("int", "bool", "real"):
            return self.cast(self.rd(v2), ct)
        return v2

    def assign(self, dst, src):
        """dst = src for objects/places of the same type."""
        if isinstance(src, Node) and isinstance(dst, Node):
            # evaluate all leaves first (self assignment safe)
            for f in dst.fields:
                if f == "#base":
                    continue
                self.assign(dst.fields[f], src.fields[f])
            return
        if isinstance(dst, Node) and isinstance(src, (Leaf, Pl)):
            v = self.rd(src)
            for f in dst.fields:
                self.assign(dst.fields[f], self.field(v, f))
            return
        if isinstance(dst, Opaque) or isinstance(src, Opaque):
            return
        if isinstance(dst, SpanO):
            if not isinstance(src, SpanO):
                raise Unsupported("span assignment")
            if dst.base is None:
                dst.base = src.base
            elif src.base is not None and not self.same_place(dst.base, src.base):
                raise Unsupported("span rebased to another container")
            lo, hi = src.lo.term(), src.hi.term()
            lo, hi = self.let(lo), self.let(hi)
            self.wr(dst.lo, lo)
            self.wr(dst.hi, hi)
            return
        if isinstance(dst, PtrO):
            if dst.base is None:
                dst.base = src.base
            elif not self.same_place(dst.base, src.base):
                raise Unsupported("pointer rebased")
            self.wr(dst.off, src.off.term())
            return
        if isinstance(src, Node):
            self.wr(dst, self.mkrec(src))
            return
        v = self.rd(src)
        self.wr(dst, v.term())

    def same_place(self, a, b):
        a, b = self.as_pl(a), self.as_pl(b)
        return a.leaf is b.leaf and a.path == b.path


KEYWORDS = set("""abstract absurd alias any as assert assume at axiom begin break by check clone coinductive constant
continue diverges do done downto else end ensures epsilon exception exists export false for forall fun function ghost
goal if import in inductive invariant label lemma let match meta module mutable not old predicate private pure raise
raises reads rec ref requires return returns scope so then theory to true try type use val variant while with writes
n a result size min max abs div mod""".split())
