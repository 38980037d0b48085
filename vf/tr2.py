"""Expressions, calls and statements."""
from .tr import *
from .tr import Tr as _Tr

TRANSPARENT = {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
               "FullExpr", "CXXStdInitializerListExpr"}
NOFX_CASTS = {"NoOp", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase",
              "UncheckedDerivedToBase", "BuiltinFnToFnPtr", "Dependent"}


def strip(n):
    while n["kind"] in TRANSPARENT or (n["kind"] in ("ImplicitCastExpr",) and n.get("castKind") in NOFX_CASTS):
        n = [c for c in n["inner"] if c.get("kind") and is_expr_or_stmt(c)][-1]
    return n


def exprs(n):
    return [c for c in n.get("inner", []) if c.get("kind") and is_expr_or_stmt(c)]


def contains(n, kinds, stop=("LambdaExpr",)):
    if not isinstance(n, dict):
        return False
    if n.get("kind") in kinds:
        return True
    if n.get("kind") in stop:
        return False
    return any(contains(c, kinds, stop) for c in n.get("inner", []))


LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")


def mutated_ids(n, out=None, safe=False):
    """ids of variables used other than by value"""
    if out is None:
        out = set()
    if not isinstance(n, dict):
        return out
    k = n.get("kind")
    if k == "DeclRefExpr":
        if not safe:
            r = n.get("referencedDecl") or {}
            if r.get("kind") in ("VarDecl", "ParmVarDecl"):
                out.add(r["id"])
        return out
    for c in n.get("inner", []):
        s = False
        if k == "ImplicitCastExpr" and n.get("castKind") == "LValueToRValue":
            s = c.get("kind") in ("DeclRefExpr", "ParenExpr")
        if k == "ImplicitCastExpr" and n.get("castKind") == "NoOp" and n.get("type", {}).get("qualType", "").startswith("const "):
            s = c.get("kind") == "DeclRefExpr"
        if k == "ParenExpr" and safe:
            s = True
        if k == "LambdaExpr" and c.get("kind") == "DeclRefExpr":
            s = True    # capture list: judged by the uses inside the body
        if k == "MemberExpr" and c.get("kind") == "DeclRefExpr" and (c.get("type", {}).get("qualType", "").startswith("const ")):
            s = True
        mutated_ids(c, out, s)
    return out


class Tr(_Tr):
    # ------------------------------------------------------------------ frames
    def lookup(self, did):
        f = self.frame
        while f is not None:
            if did in f.env:
                return f.env[did]
            f = f.lex
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        """expression -> immutable scalar leaf"""
        v = self.expr(n)
        v = self.rd(v)
        if not isinstance(v, Leaf):
            raise Unsupported("scalar expected: %s" % n["kind"])
        return v

    def expr(self, n, want=None):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if k in TRANSPARENT:
            return self.expr(exprs(n)[-1], want)
        if m is None:
            raise Unsupported("expression " + k)
        return m(n, want) if k in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "ImplicitCastExpr",
                                   "CXXFunctionalCastExpr") else m(n)

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.expr(exprs(n)[-1])

    def e_ImplicitCastExpr(self, n, want=None):
        ck = n.get("castKind")
        c = exprs(n)[-1]
        if ck == "LValueToRValue":
            v = self.expr(c)
            if isinstance(v, (Leaf, Pl)):
                return self.rd(v)
            if isinstance(v, PtrO) and isinstance(v.off, Leaf) and v.off.mut:
                return PtrO(v.base, self.rd(v.off), v.ct)
            return v
        if ck in NOFX_CASTS:
            return self.expr(c, want)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "FloatingToIntegral", "IntegralToBoolean",
                  "FloatingToBoolean"):
            return self.cast(self.ev(c), self.ctype(n))
        if ck == "ArrayToPointerDecay":
            v = self.expr(c)
            if isinstance(v, (Leaf, Pl)) and v.ct.k == "arr":
                return PtrO(v, self.iconst(0, U64), CT("ptr", elem=v.ct.elem))
            return v
        if ck == "NullToPointer":
            return PtrO(None, self.iconst(0, U64), self.ctype(n))
        if ck == "ToVoid":
            self.discard(c)
            return VOIDV
        if ck == "PointerToBoolean":
            return self.sc("true", BOOL)
        raise Unsupported("cast " + str(ck))

    e_CXXStaticCastExpr = lambda self, n: self.e_ImplicitCastExpr(n)
    e_CStyleCastExpr = lambda self, n: self.e_ImplicitCastExpr(n)
    e_CXXFunctionalCastExpr = lambda self, n, want=None: self.e_ImplicitCastExpr(n, self.ctype(n))
    e_CXXConstCastExpr = lambda self, n: self.e_ImplicitCastExpr(n)

    def discard(self, n):
        n2 = strip(n)
        if n2["kind"] in ("DeclRefExpr", "IntegerLiteral", "CXXThisExpr"):
            return
        self.expr(n)

    def e_IntegerLiteral(self, n):
        return self.iconst(int(n["value"]), self.ctype(n))

    def e_CharacterLiteral(self, n):
        return self.iconst(int(n["value"]), self.ctype(n))

    def e_CXXBoolLiteralExpr(self, n):
        return self.sc("true" if n["value"] else "false", BOOL)

    def e_FloatingLiteral(self, n):
        v = str(n["value"])
        from decimal import Decimal
        d = Decimal(v)
        # round to what a 64-bit long double literal was written as
        s = "%.15g" % float(d)
        d = Decimal(s)
        t = format(d, "f")
        if "." not in t:
            t += ".0"
        if t.startswith("-"):
            return self.sc("(-. %s)" % t[1:], F32)
        return self.sc(t, F32)

    def e_StringLiteral(self, n):
        return Opaque(CT("strlit"), tag=n.get("value"))

    def e_CXXNullPtrLiteralExpr(self, n):
        return PtrO(None, self.iconst(0, U64), CT("ptr", elem=VOID))

    def e_UserDefinedLiteral(self, n):
        return self.call(n)

    def e_ImplicitValueInitExpr(self, n):
        return self.zero(self.ctype(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def zero(self, ct):
        if ct.k in ("int",):
            return self.iconst(0, ct)
        if ct.k in ("real", "bool", "vec", "str", "arr"):
            return self.sc(self.default_term(ct), ct)
        return self.new_obj("z", ct, False, "zero")

    def e_CXXThisExpr(self, n):
        if self.frame.this is None:
            raise Unsupported("this")
        return ThisP(self.frame.this)

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported("default init expr")

    def e_UnaryExprOrTypeTraitExpr(self, n):
        at = n.get("argType", {}).get("qualType")
        ct = self.tp.parse(at) if at else None
        if ct is not None and ct.k == "int":
            return self.iconst(ct.bits // 8, U64)
        if n.get("name") == "sizeof" and ct is not None and ct.k == "real":
            return self.iconst({"float": 4, "double": 8}.get(at, 4), U64)
        c = exprs(n)
        if c:
            ct = self.ctype(strip(c[0]))
            if ct.k == "int":
                return self.iconst(ct.bits // 8, U64)
        raise Unsupported("sizeof")

    def e_DeclRefExpr(self, n):
        r = n["referencedDecl"]
        rk = r["kind"]
        if rk in ("FunctionDecl", "CXXMethodDecl"):
            return FuncRef(r)
        v = self.lookup(r["id"])
        if v is not None:
            return v
        d = self.ast.decl.get(r["id"])
        if rk == "NonTypeTemplateParmDecl":
            raise Unsupported("template parameter")
        if d is not None and rk == "VarDecl":
            ini = exprs(d)
            if ini and ("const" in d["type"]["qualType"] or d.get("constexpr")):
                return self.with_frame(None, lambda: self.conv(self.expr(ini[-1]), self.ctype(d)))
        # static locals / constexpr without indexed decl
        if rk == "VarDecl" and r.get("name") in ("value",):
            # std::is_xxx<T>::value
            return self.sc(self.let("any_bool ()"), BOOL)
        raise Unsupported("variable %s" % r.get("name"))

    def with_frame(self, fr, f):
        save = self.frame
        self.frame = fr or Fr(None, None)
        try:
            return f()
        finally:
            self.frame = save

    def e_MemberExpr(self, n):
        c = exprs(n)
        b = self.expr(c[0])
        nm = n.get("name")
        if isinstance(b, ThisP):
            b = b.obj
        if isinstance(b, SpanO) and nm in ("start", "finish"):
            return PtrO(b.base, b.lo if nm == "start" else b.hi, CT("ptr", elem=b.ct.elem or I8))
        if isinstance(b, Node) and nm not in b.fields:
            d = self.ast.decl.get(n.get("referencedMemberDecl"))
            if d is not None and d["kind"] == "VarDecl":
                return self.with_frame(None, lambda: self.conv(self.expr(exprs(d)[-1]), self.ctype(d)))
        if isinstance(b, PtrO) and n.get("isArrow"):
            b = self.deref(b)
        return self.field(b, nm)

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        c = exprs(n)[0]
        if op in ("++", "--"):
            x = self.expr(c)
            return self.incdec(x, op, n.get("isPostfix", False))
        if op == "*":
            v = self.expr(c)
            if isinstance(v, PtrO):
                return self.deref(v)
            if isinstance(v, ThisP):
                return v.obj
            raise Unsupported("deref")
        if op == "&":
            v = self.expr(c)
            return self.addr(v)
        if op == "!":
            return self.neg(self.ev(c))
        if op == "-":
            v = self.ev(c)
            if v.ct.k == "real":
                if v.term() and re.match(r"^[\d.]+$", v.term()):
                    return self.sc("(-. %s)" % v.term(), v.ct)
                return self.sc("(-. %s)" % self.at(v) if self.pure else self.let("rneg %s" % self.at(v)), v.ct)
            return self.arith("-", v.ct, self.iconst(0, v.ct), v)
        if op == "+":
            return self.expr(c)
        raise Unsupported("unary " + op)

    def addr(self, v):
        if isinstance(v, Pl) and v.path and v.path[-1][0] == "i":
            base = Pl(v.leaf, v.path[:-1], self.place_ct(v.leaf, v.path[:-1]))
            return PtrO(base, self.sc(v.path[-1][1], U64), CT("ptr", elem=v.ct))
        if isinstance(v, Node):
            return ThisP(v)
        raise Unsupported("address-of")

    def place_ct(self, leaf, path):
        ct = leaf.ct
        for k, a in path:
            if k == "i":
                ct = ct.elem if ct.k != "str" else I8
            else:
                ct = dict(RECF[RECN[ct.name]])[a]
        return ct

    def deref(self, p):
        if p.base is None:
            raise Unsupported("dereference of an unresolved pointer")
        return self.elem(p.base, self.rd(p.off).term())

    def incdec(self, x, op, post):
        if isinstance(x, PtrO):
            old = self.rd(x.off)
            nv = self.let("(%s %s 1)" % (self.at(old), "+" if op == "++" else "-"))
            self.wr(x.off, nv)
            self.note_step(x.off, 1 if op == "++" else -1)
            return PtrO(x.base, old, x.ct) if post else x
        old = self.rd(x)
        ct = x.ct
        if ct.k == "real":
            nv = self.arith(op[0], ct, old, self.sc("1.0", F32))
        else:
            pct = ct if ct.bits >= 32 else I32
            nv = self.cast(self.arith(op[0], pct, self.cast(old, pct), self.iconst(1, pct)), ct)
        self.wr(x, nv.term())
        if isinstance(x, Leaf):
            self.note_step(x, 1 if op == "++" else -1)
        return old if post else x

    def note_step(self, leaf, step):
        for lc in self.loopstack:
            lc["steps"].setdefault(id(leaf), []).append((leaf, step, self.nest))

    def note_write(self, leaf):
        for lc in self.loopstack:
            lc["written"][id(leaf)] = leaf

    def wr(self, x, v):
        _Tr.wr(self, x, v)
        l = x if isinstance(x, Leaf) else x.leaf
        self.note_write(l)

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = exprs(n)
        if op == ",":
            self.discard(a)
            return self.expr(b)
        if op == "&&":
            x = self.ev(a)
            return self.fork(x, lambda: self.tobool(self.ev(b)), lambda: self.sc("false", BOOL))
        if op == "||":
            x = self.ev(a)
            return self.fork(x, lambda: self.sc("true", BOOL), lambda: self.tobool(self.ev(b)))
        if op == "=":
            if strip(b)["kind"] == "BinaryOperator" and strip(b).get("opcode") == "=":
                v = self.expr(b)
                x = self.expr(a)
            else:
                x = self.expr(a)
                v = self.expr(b)
                if isinstance(x, (Leaf, Pl)):
                    v = self.rd(v)
            self.assign(x, v)
            return x
        if op in ("==", "!=", "<", "<=", ">", ">="):
            x = self.expr(a)
            x = self.rdp(x)
            y = self.rdp(self.expr(b))
            return self.compare(op, x, y)
        if op in ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"):
            x = self.rdp(self.expr(a))
            y = self.rdp(self.expr(b))
            if isinstance(x, PtrO) and isinstance(y, PtrO) and op == "-":
                return self.sc(self.let("(%s - %s)" % (self.at(x.off), self.at(y.off))), I64)
            if isinstance(x, PtrO):
                return PtrO(x.base, self.sc(self.let("(%s %s %s)" % (self.at(x.off), op, self.at(y))), U64), x.ct)
            if isinstance(y, PtrO):
                return PtrO(y.base, self.sc(self.let("(%s %s %s)" % (self.at(y.off), op, self.at(x))), U64), y.ct)
            ct = self.ctype(n)
            if op in ("<<", ">>") and x.ct != y.ct:
                y = self.cast(y, x.ct)
            return self.arith(op, ct if ct.k in ("int", "real") else x.ct, x, y)
        raise Unsupported("binary " + op)

    def tobool(self, v):
        return v if v.ct.k == "bool" else self.cast(v, BOOL)

    def rdp(self, v):
        if isinstance(v, PtrO):
            return PtrO(v.base, self.rd(v.off), v.ct)
        return self.rd(v)

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = exprs(n)
        t = n.get("computeResultType", {})
        rct = self.tp.parse(t.get("desugaredQualType", t.get("qualType", "int")))
        if strip(a)["kind"] in ("CXXMemberCallExpr", "CallExpr"):
            x = self.expr(a)
            y = self.rdp(self.expr(b))
        else:
            y = self.rdp(self.expr(b))
            x = self.expr(a)
        if isinstance(x, PtrO):
            old = self.rd(x.off)
            self.wr(x.off, self.let("(%s %s %s)" % (self.at(old), op, self.at(y))))
            return x
        old = self.rd(x)
        if rct.k not in ("int", "real"):
            rct = x.ct
        if rct.k == "int" and rct.bits < 32:
            rct = I32
        r = self.arith(op, rct, self.cast(old, rct), self.cast(y, rct))
        self.wr(x, self.cast(r, x.ct).term())
        if isinstance(x, Leaf) and op in "+-" and y.const is not None and x.ct.k == "int":
            self.note_step(x, y.const if op == "+" else -y.const)
        return x

    def e_ConditionalOperator(self, n):
        c, a, b = exprs(n)
        cv = self.tobool(self.ev(c))
        return self.fork(cv, lambda: self.arm(a), lambda: self.arm(b))

    def arm(self, n):
        s = strip(n)
        if s["kind"] == "CXXThrowExpr":
            self.do_throw()
            return VOIDV
        return self.expr(n)

    def do_throw(self):
        self.throws = True
        self.emit("raise Thrown;")

    def e_CXXThrowExpr(self, n):
        self.do_throw()
        return VOIDV

    def e_ArraySubscriptExpr(self, n):
        a, i = exprs(n)
        b = self.expr(a)
        iv = self.ev(i)
        if isinstance(b, PtrO):
            if b.base is None:
                raise Unsupported("subscript of unresolved pointer")
            off = self.rd(b.off)
            t = iv.term() if off.const == 0 else self.let("(%s + %s)" % (self.at(off), self.at(iv)))
            return self.elem(b.base, t)
        return self.elem(b, iv.term())

    # ------------------------------------------------------------------ construction
    def e_InitListExpr(self, n, want=None):
        ct = self.ctype(n)
        if ct.k in ("other",) and want is not None:
            ct = want
        if ct.k in ("vec", "arr"):
            return self.init_value(n, ct)
        if ct.k in ("int", "real", "bool"):
            e = exprs(n)
            return self.conv(self.expr(e[0]), ct) if e else self.zero(ct)
        if ct.k == "struct":
            rec, fs = self.struct_fields(ct)
            es = exprs(n)
            out = {}
            base = None
            if rec.get("bases"):
                base = es.pop(0) if len(es) > len(fs) else None
            for (f, fct, fd), e in zip(fs, es):
                if e["kind"] == "CXXDefaultInitExpr":
                    v = self.field_default(fd)
                    if v == "zero":
                        v = self.zero(fct)
                else:
                    v = self.conv(self.expr(e, fct), fct)
                    if isinstance(v, (Leaf, Pl)):
                        v = self.rd(v)
                out[f] = v
            for f, fct, fd in fs[len(es):]:
                out[f] = self.zero(fct)
            return Node(ct, out)
        if ct.k == "span":
            es = exprs(n)
            if not es:
                return SpanO(None, self.iconst(0, U64), self.iconst(0, U64), ct)
            a, b = self.rdp(self.expr(es[0])), self.rdp(self.expr(es[1]))
            return SpanO(a.base, a.off, b.off, ct)
        if ct.k == "opaque":
            return Opaque(ct)
        raise Unsupported("init list of %r" % ct)

    def e_CXXTemporaryObjectExpr(self, n, want=None):
        return self.e_CXXConstructExpr(n, want)

    def e_CXXConstructExpr(self, n, want=None):
        ct = self.ctype(n)
        args = exprs(n)
        real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if ct.k == "ptr":
            return self.expr(real[0]) if real else PtrO(None, self.iconst(0, U64), ct)
        if ct.k == "clos":
            return self.expr(real[0])
        if ct.k == "vec":
            if not real:
                return self.sc("(vempty ())", ct)
            v0 = self.expr(real[0])
            if len(real) == 1 and isinstance(v0, (Leaf, Pl)) and v0.ct.k == "vec":
                return v0 if n.get("elidable") else self.rd(v0)
            if isinstance(v0, PtrO) and len(real) == 2:
                v1 = self.rdp(self.expr(real[1]))
                b = self.rd(v0.base).term()
                return self.sc(self.let("vslice %s %s %s" % (self.at(b), self.at(self.rd(v0.off)), self.at(v1.off))), ct)
            if isinstance(v0, (Leaf, Pl)) and v0.ct.k == "int":
                c = self.rd(v0)
                if len(real) == 2:
                    d = self.rd(self.conv(self.expr(real[1]), ct.elem)).term()
                else:
                    d = self.default_term(ct.elem)
                    if ct.elem.k == "vec":
                        d = self.let(d)
                return self.sc(self.let("vmake %s %s" % (self.at(c), self.at(d))), ct)
            raise Unsupported("vector constructor")
        if ct.k == "str":
            return self.str_ctor(n, real)
        if ct.k == "strview":
            return self.sv_ctor(n, real)
        if ct.k in ("opaque", "other"):
            for a in real:
                try:
                    self.expr(a)
                except Unsupported:
                    pass
            return Opaque(ct)
        if ct.k == "span":
            if not real:
                return SpanO(None, self.iconst(0, U64), self.iconst(0, U64), ct)
            return self.expr(real[0])
        if ct.k == "struct":
            ctor = n.get("ctorType", {}).get("qualType", "")
            if len(real) == 1:
                s = strip(real[0])
                sct = self.ctype(real[0])
                if sct.k == "struct" and sct.name == ct.name:
                    return self.expr(real[0])
            # user constructor or default
            rec = self.tp.find_record(ct.name)
            cands = []

            def collect(m):
                for c in m.get("inner", []):
                    if c.get("kind") == "CXXConstructorDecl" and not c.get("isImplicit"):
                        cands.append(c)
                    if c.get("kind") == "FunctionTemplateDecl":
                        collect(c)
            collect(rec)
            for c in cands:
                if c["type"]["qualType"].replace(" noexcept", "") == ctor.replace(" noexcept", ""):
                    return self.ctor_call(ct, rec, c, args)
            if not real:
                # implicitly-defined default constructor; zero-initialises when value-initialised
                z = "zero" if (n.get("zeroing") or n["kind"] == "CXXTemporaryObjectExpr") else "default"
                return self.new_obj("obj", ct, False, z)
            raise Unsupported("constructor of %r %s" % (ct, ctor))
        if ct.k in ("int", "real", "bool"):
            return self.conv(self.expr(real[0]), ct) if real else self.zero(ct)
        raise Unsupported("construct %r" % ct)

    def ctor_call(self, ct, rec, c, args):
        d = self.ast.definition(c["id"])
        if d is None:
            raise Unsupported("constructor without definition")
        _, fs = self.struct_fields(ct)
        params = [p for p in d["inner"] if p.get("kind") == "ParmVarDecl"]
        fr = Fr(self.frame, d)
        argv = []
        for i, p in enumerate(params):
            if i < len(args) and args[i]["kind"] != "CXXDefaultArgExpr":
                argv.append(self.expr(args[i], self.ctype(p)))
            else:
                argv.append(self.with_frame(None, lambda: self.expr(exprs(p)[-1])))
        mut = mutated_ids(d)
        for p, a in zip(params, argv):
            self.bind_param(fr, p, a, mut)
        out = {}
        inits = {}
        bases = []
        for m in d["inner"]:
            if m.get("kind") == "CXXCtorInitializer":
                an = m.get("anyInit")
                if an:
                    inits[an["name"]] = exprs(m)[-1]
                else:
                    bases.append(exprs(m)[-1])
        save = self.frame
        self.frame = fr
        try:
            for b in bases:
                v = self.expr(b)
                if isinstance(v, (Clos, AbsPred)):
                    out["#base"] = v
            for f, fct, fd in fs:
                if f in inits:
                    v = self.expr(inits[f], fct) if inits[f]["kind"] != "CXXDefaultInitExpr" else self.field_default(fd)
                    if v == "zero":
                        v = self.zero(fct)
                    v = self.conv(v, fct)
                elif fd.get("hasInClassInitializer"):
                    v = self.field_default(fd)
                    if v == "zero":
                        v = self.zero(fct)
                else:
                    v = self.sc(self.let(self.any_term(fct)), fct) if fct.k not in ("struct", "vec", "opaque", "other") \
                        else self.new_obj(f, fct, False, "default")
                if isinstance(v, (Leaf, Pl)):
                    v = self.rd(v)
                out[f] = v
            body = [x for x in d["inner"] if x.get("kind") == "CompoundStmt"]
            node = Node(ct, out)
            if body and exprs(body[-1]):
                node = self.new_obj("self", ct, True, node)
                fr.this = node
                self.stmts(exprs(body[-1]))
            return node
        finally:
            self.frame = save

    def e_LambdaExpr(self, n):
        rec = [c for c in n["inner"] if c.get("kind") == "CXXRecordDecl"][0]
        m = None
        for c in rec["inner"]:
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                m = c
        fields = [c for c in rec["inner"] if c.get("kind") == "FieldDecl"]
        caps = [c for c in n["inner"] if c.get("kind") and c["kind"] not in ("CXXRecordDecl", "CompoundStmt")]
        fr = Fr(self.frame, m)
        fr.lex = self.frame
        for f, c in zip(fields, caps):
            q = f["type"]["qualType"]
            s = strip(c)
            while s["kind"] in ("CXXConstructExpr", "ImplicitCastExpr") and exprs(s):
                s = strip(exprs(s)[0])
            if s["kind"] == "DeclRefExpr" and not q.rstrip().endswith("&"):
                v = self.expr(s)
                if isinstance(v, (Leaf, Pl)):
                    v = self.rd(v)
                fr.env[s["referencedDecl"]["id"]] = v
        body = [c for c in m["inner"] if c.get("kind") == "CompoundStmt"][0]
        params = [c for c in m["inner"] if c.get("kind") == "ParmVarDecl"]
        return Clos(m, params, body, fr, self.frame.this, None)

    # ------------------------------------------------------------------ calls
    def e_CallExpr(self, n):
        return self.call(n)

    def callee(self, n):
        c = n
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = exprs(c)[-1]
        return c

    def call(self, n):
        es = exprs(n)
        c = self.callee(es[0])
        args = es[1:]
        if c["kind"] == "DeclRefExpr":
            r = c["referencedDecl"]
            if r["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return self.call_fn(n, r, args, None)
        if c["kind"] == "MemberExpr" or c["kind"] == "CXXPseudoDestructorExpr":
            return self.e_CXXMemberCallExpr(n)
        f = self.expr(es[0])
        if isinstance(f, (Clos, AbsPred)):
            return self.call_clos(f, [self.expr(a) for a in args])
        raise Unsupported("indirect call")

    def call_fn(self, n, r, args, this):
        d = self.ast.definition(r["id"])
        name = r.get("name", "")
        if name == "vf_assert":
            self.need_expr(args[0])
            return VOIDV
        if d is None and r["id"] not in self.ast.decl:
            return self.std_call(n, name, args)
        q = self.ast.qual.get((d or r)["id"], name)
        h = self.ctx.handlers.get(q)
        if h is not None:
            v = h(self, n, d, args)
            if v is not NotImplemented:
                return v
        if d is None:
            raise Unsupported("call to undefined function " + q)
        if q.split("::")[-1] in ("print",) or q.startswith("cft::print"):
            return VOIDV
        return self.invoke(d, args, this)

    def need_expr(self, e):
        """assert(e): obligation"""
        if self.pure:
            v = self.ev(e)
            self.need(v.term(), "assertion")
            return
        # try the pure translation first: it gives a formula
        try:
            f, wds = self.pure_eval(lambda: self.tobool(self.ev(e)).term())
        except Unsupported:
            v = self.ev(e)
            self.need(v.term(), "assertion in the code holds")
            return
        for w in wds:
            self.need(w, "assertion in the code is well defined")
        self.need(f, "assertion in the code holds")

    def pure_eval(self, f):
        save = (self.pure, self.wd, self.pc)
        self.pure, self.wd, self.pc = True, [], []
        try:
            t = f()
            return t, self.wd
        finally:
            self.pure, self.wd, self.pc = save

    def invoke(self, d, args, this, argvals=None):
        """call of a cft function with a definition: by contract or inlined"""
        params = [p for p in d["inner"] if p.get("kind") == "ParmVarDecl"]
        if argvals is None:
            argvals = []
            for i, p in enumerate(params):
                if i < len(args) and args[i]["kind"] != "CXXDefaultArgExpr":
                    argvals.append(self.expr(args[i], self.ctype(p)))
                else:
                    ini = exprs(p)
                    if not ini:
                        raise Unsupported("default argument of " + d.get("name", ""))
                    argvals.append(self.with_frame(None, lambda: self.expr(ini[-1], self.ctype(p))))
        if not self.pure:
            sp = self.ctx.spec_for(d)
            if sp is not None and d is not self.unit.node and not any(isinstance(a, (Clos, AbsPred)) for a in argvals):
                try:
                    return self.call_contract(self.ctx.unit(d, sp), this, params, argvals)
                except AliasInline:
                    pass
        return self.inline(d, params, argvals, this)

    def bind_param(self, fr, p, a, mut):
        q = p["type"]["qualType"].rstrip()
        isref = q.endswith("&")
        if "id" not in p:
            return
        nm = p.get("name") or "_arg"
        if isref or self.pure:
            if self.pure and isinstance(a, (Leaf, Pl)):
                a = self.rd(a) if not isref else a
            fr.bind(p, a)
            return
        ct = self.ctype(p)
        if isinstance(a, (Clos, AbsPred, Opaque, Void)):
            fr.bind(p, a)
            return
        if isinstance(a, (Leaf, Pl)) and ct.k in ("int", "bool", "real"):
            a = self.cast(self.rd(a), ct)
        if ct.k in ("other", "opaque"):
            ct = a.ct
        if p["id"] in mut or ct.k in ("struct",):
            m = p["id"] in mut
            if not m and isinstance(a, Node) and all(isinstance(x, Leaf) and not x.mut for x in a.fields.values()):
                fr.bind(p, a)
                return
            o = self.new_obj(nm, ct, m, a)
        elif isinstance(a, Leaf) and not a.mut:
            o = a
        elif isinstance(a, SpanO) and not a.lo.mut and not a.hi.mut:
            o = a
        elif isinstance(a, PtrO) and not a.off.mut:
            o = a
        else:
            o = self.new_obj(nm, ct, False, a)
        fr.bind(p, o)

    def inline(self, d, params, argvals, this):
        if self.depth > 40:
            raise Unsupported("inlining too deep (recursion?)")
        body = [c for c in d["inner"] if c.get("kind") == "CompoundStmt"][-1]
        mut = mutated_ids(body)
        fr = Fr(self.frame, d, this)
        for p, a in zip(params, argvals):
            self.bind_param(fr, p, a, mut)
        return self.run_body(fr, body, d)

    def call_clos(self, f, argv):
        if isinstance(f, AbsPred):
            v = self.rd(argv[0])
            t = "%s %s" % (f.name, self.at(v))
            return self.sc("(%s)" % t if self.pure else self.let(t), f.ret)
        mut = mutated_ids(f.body)
        fr = Fr(self.frame, f.node, f.this)
        fr.lex = f.env
        for p, a in zip(f.params, argv):
            self.bind_param(fr, p, a, mut)
        return self.run_body(fr, f.body, f.node)

    def run_body(self, fr, body, d):
        save = self.frame
        self.frame = fr
        self.depth += 1
        try:
            sts = exprs(body)
            if self.pure:
                return self.pure_stmts(sts)
            nret = count(body, "ReturnStmt")
            if nret == 0:
                self.stmts(sts)
                return VOIDV
            if nret == 1 and sts and sts[-1]["kind"] == "ReturnStmt":
                self.stmts(sts[:-1])
                e = exprs(sts[-1])
                if not e:
                    return VOIDV
                rct = self.ret_ct(d)
                v = self.expr(e[0], rct)
                if rct is not None and rct.k in ("int", "real", "bool") and isinstance(v, (Leaf, Pl)) and not self.ret_is_ref(d):
                    v = self.cast(self.rd(v), rct)
                return v
            rct = self.ret_ct(d)
            if rct is None or rct.k == "other":
                rct = self.find_ret_ct(body)
            if rct.k != "void":
                fr.ret = self.new_obj("ret", rct, True, None)
                fr.ret_ct = rct
            self.body_with_returns(fr, sts)
            if rct.k == "void":
                return VOIDV
            if isinstance(fr.ret, (Leaf,)):
                return self.rd(fr.ret)
            return fr.ret
        finally:
            self.depth -= 1
            self.frame = save

    def body_with_returns(self, fr, sts):
        if self.tailable(sts):
            self.tail(sts)
        else:
            fr.retexn = "Ret" + str(self.cnt.setdefault("#ret", 0))
            self.cnt["#ret"] += 1
            txt, _ = self.block(lambda: self.stmts(sts))
            self.emit("(exception %s in try begin\n%s\nend with %s -> () end);" % (fr.retexn, txt, fr.retexn))

    def ret_is_ref(self, d):
        q = d["type"]["qualType"]
        return q.split("(")[0].rstrip().endswith("&")

    def ret_ct(self, d):
        q = d["type"].get("desugaredQualType") or d["type"]["qualType"]
        q = d["type"]["qualType"]
        # return type is everything before the first top-level '('
        depth = 0
        for i, ch in enumerate(q):
            if ch in "<":
                depth += 1
            elif ch == ">":
                depth -= 1
            elif ch == "(" and depth == 0 and i > 0:
                r = q[:i].strip()
                m = re.search(r"->\s*(.*)$", q)
                if r == "auto" and m:
                    r = m.group(1)
                return self.tp.parse(r)
        return None

    def find_ret_ct(self, body):
        rs = []

        def w(n):
            if n.get("kind") == "ReturnStmt":
                rs.append(n)
            if n.get("kind") == "LambdaExpr":
                return
            for c in n.get("inner", []):
                w(c)
        w(body)
        for r in rs:
            e = exprs(r)
            if e:
                ct = self.ctype(e[0])
                if ct.k != "other":
                    return ct
        return VOID

    # returns in tail position only?
    def tailable(self, sts):
        for i, s in enumerate(sts):
            if not contains(s, ("ReturnStmt",)):
                continue
            k = s["kind"]
            if k == "ReturnStmt":
                return True
            if k == "CompoundStmt":
                return self.tailable(exprs(s) + sts[i + 1:])
            if k == "IfStmt" and not s.get("hasInit") and not s.get("hasVar"):
                es = exprs(s)
                th, el = es[1], (es[2] if len(es) > 2 else None)
                rest = sts[i + 1:]
                if always_returns(th):
                    return self.tailable([th]) and self.tailable(([el] if el else []) + rest)
                if el is not None and always_returns(el):
                    return self.tailable([el]) and self.tailable([th] + rest)
                if not rest:
                    return self.tailable([th]) and (el is None or self.tailable([el]))
                return False
            return False
        return True

    def tail(self, sts):
        for i, s in enumerate(sts):
            if not contains(s, ("ReturnStmt",)):
                self.stmt(s)
                continue
            k = s["kind"]
            if k == "ReturnStmt":
                self.set_ret(s)
                return
            if k == "CompoundStmt":
                self.tail(exprs(s) + sts[i + 1:])
                return
            es = exprs(s)
            th, el = es[1], (es[2] if len(es) > 2 else None)
            rest = sts[i + 1:]
            c = self.tobool(self.ev(es[0]))
            if always_returns(th):
                A, B = [th], ([el] if el else []) + rest
            elif el is not None and always_returns(el):
                A, B = [th] + rest, [el]
            else:
                A, B = [th], ([el] if el else [])
            if c.term() == "true":
                return self.tail(A)
            if c.term() == "false":
                return self.tail(B)
            self.nest += 1
            ta, _ = self.block(lambda: self.tail(A))
            tb, _ = self.block(lambda: self.tail(B))
            self.nest -= 1
            self.emit("if %s then begin\n%s\nend else begin\n%s\nend;" % (c.term(), ta, tb))
            return

    def set_ret(self, s):
        e = exprs(s)
        fr = self.frame
        if e and fr.ret is not None:
            v = self.expr(e[0], getattr(fr, "ret_ct", None))
            if isinstance(v, (Leaf, Pl)) and fr.ret_ct.k in ("int", "real", "bool"):
                v = self.cast(self.rd(v), fr.ret_ct)
            self.assign(fr.ret, v)
        elif e:
            self.discard(e[0])

    def pure_stmts(self, sts):
        for i, s in enumerate(sts):
            k = s["kind"]
            if k == "ReturnStmt":
                e = exprs(s)
                return self.rdp(self.expr(e[0])) if e else VOIDV
            if k == "IfStmt":
                es = exprs(s)
                c = self.tobool(self.ev(es[0]))
                rest = sts[i + 1:]
                th = exprs(es[1]) if es[1]["kind"] == "CompoundStmt" else [es[1]]
                el = [] if len(es) < 3 else (exprs(es[2]) if es[2]["kind"] == "CompoundStmt" else [es[2]])
                return self.fork(c, lambda: self.pure_stmts(th + rest), lambda: self.pure_stmts(el + rest))
            if k == "CompoundStmt":
                return self.pure_stmts(exprs(s) + sts[i + 1:])
            if k == "DeclStmt":
                for d in s["inner"]:
                    if d["kind"] == "VarDecl":
                        ini = exprs(d)
                        v = self.expr(ini[-1], self.ctype(d))
                        self.frame.bind(d, self.rdp(v) if isinstance(v, (Leaf, Pl, PtrO)) else v)
                continue
            if k == "NullStmt":
                continue
            v = self.expr(s)
            if v is not VOIDV:
                raise Unsupported("statement in pure context: " + k)
        return VOIDV

    def e_CXXMemberCallExpr(self, n):
        es = exprs(n)
        me = es[0]
        while me["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            me = exprs(me)[-1]
        args = es[1:]
        obj = self.expr(exprs(me)[0])
        name = me.get("name")
        d = self.ast.definition(me.get("referencedMemberDecl"))
        if isinstance(obj, ThisP):
            obj = obj.obj
        if isinstance(obj, PtrO) and me.get("isArrow"):
            obj = self.deref(obj)
        return self.member_call(n, obj, name, d, args)

    def member_call(self, n, obj, name, d, args):
        if isinstance(obj, (Clos, AbsPred)):
            return self.call_clos(obj, [self.expr(a) for a in args])
        if isinstance(obj, Opaque):
            return self.opaque_call(n, obj, name, d, args)
        if isinstance(obj, (Leaf, Pl)) and obj.ct.k == "bool" and name == "operator bool":
            return self.rd(obj)
        if isinstance(obj, (Leaf, Pl)) and obj.ct.k == "vec":
            return self.vec_call(n, obj, name, args)
        if isinstance(obj, (Leaf, Pl)) and obj.ct.k == "str":
            return self.str_call(n, obj, name, args)
        if isinstance(obj, Node) and "#base" in obj.fields and name == "operator()":
            return self.call_clos(obj.fields["#base"], [self.expr(a) for a in args])
        if d is None:
            raise Unsupported("method %s of %r" % (name, getattr(obj, "ct", obj)))
        q = self.ast.qual.get(d["id"], name)
        h = self.ctx.handlers.get(q)
        if h is not None:
            v = h(self, n, d, args, obj)
            if v is not NotImplemented:
                return v
        return self.invoke(d, args, obj)

    def e_CXXOperatorCallExpr(self, n):
        es = exprs(n)
        c = self.callee(es[0])
        args = es[1:]
        r = c.get("referencedDecl", {})
        name = r.get("name", "")
        obj = self.expr(args[0])
        if isinstance(obj, ThisP):
            obj = obj.obj
        op = name[len("operator"):]
        if isinstance(obj, (Clos, AbsPred)):
            return self.call_clos(obj, [self.expr(a) for a in args[1:]])
        if isinstance(obj, (Leaf, Pl)) and obj.ct.k in ("vec", "str") and op == "[]":
            i = self.ev(args[1])
            return self.elem(obj, i.term())
        if op == "=" and not (isinstance(obj, Node) and False):
            if isinstance(obj, (Leaf, Pl)) and obj.ct.k == "vec" and strip(args[1])["kind"] == "InitListExpr":
                src = self.init_value(strip(args[1]), obj.ct)
            else:
                src = self.expr(args[1], obj.ct)
            if isinstance(obj, (Leaf, Pl)) and isinstance(src, (Leaf, Pl)):
                src = self.rd(src)
            if isinstance(obj, Node) and isinstance(src, Node):
                src = self.freeze(src)
            self.assign(obj, src)
            return obj
        if isinstance(obj, PtrO):
            if op == "*":
                return self.deref(PtrO(obj.base, self.rd(obj.off), obj.ct))
            if op in ("++", "--"):
                return self.incdec(obj, op, len(args) > 1)
            if op == "[]":
                i = self.ev(args[1])
                return self.elem(obj.base, self.let("(%s + %s)" % (self.at(self.rd(obj.off)), self.at(i))))
            if op in ("+", "-"):
                b = self.rdp(self.expr(args[1]))
                a = self.rdp(obj)
                if isinstance(b, PtrO):
                    return self.sc(self.let("(%s - %s)" % (self.at(a.off), self.at(b.off))), I64)
                return PtrO(a.base, self.sc(self.let("(%s %s %s)" % (self.at(a.off), op, self.at(b))), U64), a.ct)
            if op in ("==", "!=", "<", "<=", ">", ">="):
                return self.compare(op, self.rdp(obj), self.rdp(self.expr(args[1])))
            if op in ("+=", "-="):
                b = self.ev(args[1])
                self.wr(obj.off, self.let("(%s %s %s)" % (self.at(self.rd(obj.off)), op[0], self.at(b))))
                return obj
        if isinstance(obj, Opaque):
            return self.opaque_call(n, obj, name, None, args[1:])
        if isinstance(obj, (Leaf, Pl)) and obj.ct.k == "str":
            return self.str_call(n, obj, name, args[1:])
        if isinstance(obj, Node) and "#base" in obj.fields and op == "()":
            return self.call_clos(obj.fields["#base"], [self.expr(a) for a in args[1:]])
        d = self.ast.definition(r.get("id"))
        if d is None:
            raise Unsupported("operator %s on %r" % (name, getattr(obj, "ct", obj)))
        if d["kind"] == "CXXMethodDecl":
            return self.member_call(n, obj, name, d, args[1:])
        return self.call_fn(n, r, args, None)

    def freeze(self, nd):
        if isinstance(nd, Node):
            return Node(nd.ct, {f: self.freeze(x) for f, x in nd.fields.items()})
        if isinstance(nd, (Leaf, Pl)):
            return self.rd(nd)
        if isinstance(nd, SpanO):
            return SpanO(nd.base, self.rd(nd.lo), self.rd(nd.hi), nd.ct)
        return nd

    # ------------------------------------------------------------------ vectors
    def vec_call(self, n, obj, name, args):
        ct = obj.ct
        el = ct.elem
        if name == "size":
            v = self.rd(obj)
            return self.sc("%s.n" % self.at(v) if self.pure else self.let("vsize %s" % self.at(v)), U64)
        if name == "empty":
            v = self.rd(obj)
            return self.sc("(%s.n = 0)" % self.at(v) if self.pure else self.let("vnull %s" % self.at(v)), BOOL)
        if name in ("begin", "cbegin", "data"):
            return PtrO(obj, self.iconst(0, U64), CT("ptr", elem=el))
        if name in ("end", "cend"):
            v = self.rd(obj)
            return PtrO(obj, self.sc("%s.n" % self.at(v) if self.pure else self.let("vsize %s" % self.at(v)), U64),
                        CT("ptr", elem=el))
        if name in ("back", "front"):
            v = self.rd(obj)
            if name == "front":
                return self.elem(obj, "0")
            i = "(%s.n - 1)" % self.at(v) if self.pure else self.let("vlast %s" % self.at(v), "last")
            return self.elem(obj, i)
        if name in ("operator[]",):
            return self.elem(obj, self.ev(args[0]).term())
        if name == "at":
            return self.elem(obj, self.ev(args[0]).term())
        if name == "push_back" or name == "emplace_back":
            a = self.expr(args[0], el)
            if isinstance(a, Node) and el.k == "struct":
                t = self.mkrec(a)
            else:
                a = self.rd(self.conv(a, el))
                t = a.term()
            t = self.let(t)
            v = self.rd(obj)
            self.wr(obj, "vpush %s %s" % (self.at(v), self.at(t)))
            return VOIDV
        if name == "pop_back":
            v = self.rd(obj)
            self.wr(obj, "vpop %s" % self.at(v))
            return VOIDV
        if name == "clear":
            self.wr(obj, "vempty ()")
            return VOIDV
        if name in ("reserve", "shrink_to_fit"):
            for a in args:
                self.expr(a)
            return VOIDV
        if name == "resize":
            k = self.ev(args[0])
            real = [a for a in args[1:] if a["kind"] != "CXXDefaultArgExpr"]
            d = self.rd(self.conv(self.expr(real[0]), el)).term() if real else (
                self.any_term(el) if el.k == "struct" else self.default_term(el))
            v = self.rd(obj)
            d = self.let(d)
            self.wr(obj, "vresize %s %s %s" % (self.at(v), self.at(k), self.at(d)))
            return VOIDV
        if name == "assign":
            a0 = self.expr(args[0])
            if isinstance(a0, PtrO):
                a1 = self.rdp(self.expr(args[1]))
                b = self.rd(a0.base).term()
                self.wr(obj, "vslice %s %s %s" % (self.at(b), self.at(self.rd(a0.off)), self.at(a1.off)))
                return VOIDV
            k = self.rd(a0)
            d = self.rd(self.conv(self.expr(args[1]), el))
            self.wr(obj, "vmake %s %s" % (self.at(k), self.at(d)))
            return VOIDV
        if name == "insert":
            pos = self.rdp(self.expr(args[0]))
            a, b = self.rdp(self.expr(args[1])), (self.rdp(self.expr(args[2])) if len(args) > 2 else None)
            if isinstance(a, PtrO) and isinstance(b, PtrO) and self.same_place(pos.base, obj):
                src = self.rd(a.base).term()
                v = self.rd(obj)
                self.need("%s = %s.n" % (pos.off.term(), self.at(v)), "insert at end")
                self.wr(obj, "vappend %s %s %s %s" % (self.at(v), self.at(src), self.at(a.off), self.at(b.off)))
                return VOIDV
            raise Unsupported("vector insert")
        if name == "swap":
            o = self.expr(args[0])
            self.do_swap(obj, o)
            return VOIDV
        if name == "operator=":
            self.assign(obj, self.rd(self.expr(args[0])))
            return obj
        raise Unsupported("vector::" + name)

    def do_swap(self, a, b):
        if isinstance(a, Node) and isinstance(b, Node):
            for f in a.fields:
                self.do_swap(a.fields[f], b.fields[f])
            return
        x, y = self.rd(a), self.rd(b)
        tx, ty = self.let(x.term()), self.let(y.term())
        self.wr(a, ty)
        self.wr(b, tx)

    def str_call(self, n, obj, name, args):
        raise Unsupported("string::" + name)

    def str_ctor(self, n, real):
        raise Unsupported("string constructor")

    def sv_ctor(self, n, real):
        raise Unsupported("StringView constructor")

    def opaque_call(self, n, obj, name, d, args):
        ct = self.ctype(n)
        if ct.k == "void":
            return VOIDV
        if ct.k in ("int", "real", "bool"):
            if self.pure:
                raise Unsupported("opaque call in pure context")
            return self.sc(self.let(self.any_term(ct)), ct)
        return Opaque(ct)

    def std_call(self, n, name, args):
        if name in ("move", "forward"):
            return self.expr(args[0])
        if name == "addressof":
            return self.addr(self.expr(args[0]))
        if name in ("isfinite",):
            self.ev(args[0])
            return self.sc("true", BOOL)
        if name == "swap":
            a, b = self.expr(args[0]), self.expr(args[1])
            self.do_swap(a, b)
            return VOIDV
        if name in ("min", "max") and len(args) == 2:
            a, b = self.ev(args[0]), self.ev(args[1])
            c = self.compare("<", b, a) if name == "min" else self.compare("<", a, b)
            return self.fork(c, lambda: b, lambda: a)
        if name in ("fabs", "abs") and len(args) == 1:
            a = self.ev(args[0])
            z = self.sc("0.0", F32) if a.ct.k == "real" else self.iconst(0, a.ct)
            return self.fork(self.compare("<", a, z), lambda: self.arith("-", a.ct, z, a), lambda: a)
        if name in ("begin", "end", "cbegin", "cend") and len(args) == 1:
            o = self.expr(args[0])
            b, e = self.range_bounds(o)
            return b if name.endswith("begin") else e
        if name in ("max", "lowest", "min", "infinity") and not args:
            ct = self.ctype(n)
            if ct.k == "int":
                return self.iconst(LIMS[ct.key()][1 if name == "max" else 0], ct)
            if ct.k == "real":
                return self.sc({"max": "rmax", "infinity": "rinf", "lowest": "rlow", "min": "rtiny"}[name], ct)
        if name == "fflush":
            return VOIDV
        if name in ("print", "println"):
            return VOIDV
        h = self.ctx.handlers.get("std::" + name)
        if h is not None:
            return h(self, n, None, args)
        raise Unsupported("external function " + name)

    def range_bounds(self, o):
        """(begin, end) pointers of a range object"""
        if isinstance(o, (Leaf, Pl)) and o.ct.k in ("vec", "str"):
            v = self.rd(o)
            ln = "%s.n" % self.at(v) if self.pure else self.let("vsize %s" % self.at(v))
            el = o.ct.elem or I8
            return PtrO(o, self.iconst(0, U64), CT("ptr", elem=el)), PtrO(o, self.sc(ln, U64), CT("ptr", elem=el))
        if isinstance(o, (Leaf, Pl)) and o.ct.k == "arr":
            return (PtrO(o, self.iconst(0, U64), CT("ptr", elem=o.ct.elem)),
                    PtrO(o, self.iconst(o.ct.n, U64), CT("ptr", elem=o.ct.elem)))
        if isinstance(o, SpanO):
            el = o.ct.elem or I8
            lo, hi = self.rd(o.lo), self.rd(o.hi)
            self.need("%s <= %s" % (lo.term(), hi.term()), "span bounds ordered")
            return PtrO(o.base, lo, CT("ptr", elem=el)), PtrO(o.base, hi, CT("ptr", elem=el))
        if isinstance(o, Node):
            out = []
            rec = self.tp.find_record(o.ct.name)
            for nm in ("begin", "end"):
                ms = [c for c in sub(rec) if c.get("kind") == "CXXMethodDecl" and c.get("name") == nm]
                if not ms:
                    raise Unsupported("no begin/end")
                out.append(self.rdp(self.inline(self.ast.definition(ms[-1]["id"]), [], [], o)))
            return tuple(out)
        raise Unsupported("range over %r" % o)


class Fr(Frame):
    def __init__(self, parent, fn, this=None):
        Frame.__init__(self, parent, fn, this)
        self.lex = None
        self.ret_ct = None


def count(n, kind):
    if not isinstance(n, dict):
        return 0
    if n.get("kind") == "LambdaExpr":
        return 0
    return (1 if n.get("kind") == kind else 0) + sum(count(c, kind) for c in n.get("inner", []))


def always_returns(s):
    k = s["kind"]
    if k == "ReturnStmt":
        return True
    if k == "CompoundStmt":
        es = exprs(s)
        return any(always_returns(e) for e in es)
    if k == "IfStmt":
        es = exprs(s)
        return len(es) > 2 and always_returns(es[1]) and always_returns(es[2])
    return False
