"""Statements, loops, contract calls and the resolution of contract texts."""
from .tr2 import *
from .tr2 import Tr as _Tr2, Fr


def written_refs(txt):
    return set(re.findall(r"(?<![\w.'])(\w+) := ", txt))


class SpecError(Exception):
    pass


class Tr(_Tr2):
    def __init__(self, ctx, unit):
        _Tr2.__init__(self, ctx, unit)
        self.nest = 0
        self.callno = {}
        self.brk = []
        self.locals = []      # (name, type) of the locals in declaration order
        self.ghost_env = {}   # names introduced by ghost statements of the contract

    # ------------------------------------------------------------------ statements
    def stmts(self, sts):
        self.frame.names.append({})
        for s in sts:
            self.stmt(s)
        self.frame.names.pop()

    def stmt(self, s):
        k = s["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(s)
        v = self.expr(s)
        return v

    def s_CompoundStmt(self, s):
        self.stmts(exprs(s))

    def s_NullStmt(self, s):
        pass

    def s_AttributedStmt(self, s):
        self.stmt(exprs(s)[-1])

    def s_DeclStmt(self, s):
        for d in s["inner"]:
            k = d["kind"]
            if k == "VarDecl":
                self.vardecl(d)
            elif k in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "StaticAssertDecl", "CXXRecordDecl"):
                continue
            else:
                raise Unsupported("declaration " + k)

    def cur_mut(self):
        f = self.frame
        fn = f.fn
        if fn is None:
            return set()
        if not hasattr(self.ctx, "mutcache"):
            self.ctx.mutcache = {}
        i = fn["id"]
        if i not in self.ctx.mutcache:
            self.ctx.mutcache[i] = mutated_ids(fn)
        return self.ctx.mutcache[i]

    def vardecl(self, d):
        q = d["type"]["qualType"].rstrip()
        ct = self.ctype(d)
        ini = [c for c in exprs(d)]
        nm = d.get("name", "v")
        self.locals.append((nm, repr(ct)))
        if q.endswith("&"):
            v = self.expr(ini[-1], ct)
            if isinstance(v, Leaf) and not v.mut and ct.k in ("vec", "struct", "str"):
                pass
            if isinstance(v, (Leaf, Pl)) and ct.k in ("int", "real", "bool") and v.ct.k != ct.k:
                v = self.cast(self.rd(v), ct)
            self.frame.bind(d, v)
            return
        mut = d["id"] in self.cur_mut()
        if not ini:
            o = self.new_obj(nm, ct, True, None)
            self.frame.bind(d, o)
            return
        e = ini[-1]
        if ct.k in ("vec", "arr") and strip(e)["kind"] == "InitListExpr":
            v = self.init_value(strip(e), ct)
        else:
            v = self.expr(e, ct)
        if isinstance(v, (Clos, AbsPred)):
            self.frame.bind(d, v)
            return
        if isinstance(v, Opaque):
            if ct.k in ("int", "real", "bool"):
                v = self.sc(self.let(self.any_term(ct)), ct)
            else:
                self.frame.bind(d, v)
                return
        if isinstance(v, ThisP):
            self.frame.bind(d, v)
            return
        if isinstance(v, (Leaf, Pl)) and ct.k in ("int", "bool", "real"):
            v = self.cast(self.rd(v), ct)
        if ct.k in ("other", "opaque"):
            ct = v.ct
        if ct.k == "ptr" and isinstance(v, PtrO) or ct.k == "span" and isinstance(v, SpanO):
            o = self.new_obj(nm, ct, mut, v)
        elif ct.k == "struct":
            o = self.new_obj(nm, ct, True if mut else self.has_mut(v), v)
        else:
            o = self.new_obj(nm, ct, mut, v)
        self.frame.bind(d, o)
        if isinstance(o, Leaf) and v is not None and isinstance(v, Leaf):
            o.init_const = v.const

    def has_mut(self, v):
        return True

    def s_ReturnStmt(self, s):
        fr = self.frame
        self.set_ret(s)
        if fr.retexn is None:
            raise Unsupported("unexpected return")
        self.emit("raise %s;" % fr.retexn)

    def s_IfStmt(self, s):
        if s.get("hasInit") or s.get("hasVar"):
            raise Unsupported("if with declaration")
        es = exprs(s)
        c = self.tobool(self.ev(es[0]))
        th, el = es[1], (es[2] if len(es) > 2 else None)
        if c.term() == "true":
            return self.s_scoped(th)
        if c.term() == "false":
            if el is not None:
                self.s_scoped(el)
            return
        self.nest += 1
        ta, _ = self.block(lambda: self.s_scoped(th))
        tb, _ = self.block(lambda: self.s_scoped(el)) if el is not None else ("()", None)
        self.nest -= 1
        self.emit("if %s then begin\n%s\nend else begin\n%s\nend;" % (c.term(), ta, tb))

    def s_scoped(self, s):
        self.stmts([s])

    def s_BreakStmt(self, s):
        if not self.loopstack:
            raise Unsupported("break outside a loop")
        self.emit("break;")

    def s_ContinueStmt(self, s):
        lc = self.loopstack[-1]
        lc["cont"] = True
        self.emit("raise %s;" % lc["contexn"])

    def s_CXXTryStmt(self, s):
        raise Unsupported("try block")

    def s_SwitchStmt(self, s):
        raise Unsupported("switch")

    # ------------------------------------------------------------------ loops
    def s_ForStmt(self, s):
        init, cv, cond, inc, body = (s["inner"] + [None] * 5)[:5]
        self.frame.names.append({})
        if init and init.get("kind"):
            self.stmt(init)
        self.loop(cond if cond and cond.get("kind") else None, inc if inc and inc.get("kind") else None, body)
        self.frame.names.pop()

    def s_WhileStmt(self, s):
        es = exprs(s)
        self.loop(es[0], None, es[1])

    def s_DoStmt(self, s):
        es = exprs(s)
        self.loop(es[1], None, es[0], do=True)

    def s_CXXForRangeStmt(self, s):
        inn = s["inner"]
        rd_ = [d for d in inn[1]["inner"] if d["kind"] == "VarDecl"][0]
        rexpr = exprs(rd_)[-1]
        ldecl = [d for d in inn[-2]["inner"] if d["kind"] == "VarDecl"][0]
        body = inn[-1]
        o = self.expr(rexpr)
        b, e = self.range_bounds(o)
        lo, hi = self.let(b.off.term(), "lo"), self.let(e.off.term(), "hi")
        self.loop(None, None, body, rng=(b.base, lo, hi, ldecl))

    def spec_loop(self):
        self.loopno += 1
        return self.unit.spec.get("loops", {}).get(self.loopno, {}), self.loopno

    def pure_try(self, f):
        try:
            return self.pure_eval(f)[0]
        except Unsupported:
            return None

    def simple_cond(self, cond):
        """conjuncts of the loop condition of the form (leaf, op, term)"""
        out = []
        c = strip(cond)
        if c["kind"] == "BinaryOperator" and c["opcode"] == "&&":
            a, b = exprs(c)
            return self.simple_cond(a) + self.simple_cond(b)
        if c["kind"] == "BinaryOperator" and c["opcode"] in ("<", "!=", ">", "<=", ">="):
            a, b = exprs(c)

            def base(x):
                x = strip(x)
                while x["kind"] in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "ParenExpr"):
                    x = strip(exprs(x)[-1])
                if x["kind"] == "DeclRefExpr":
                    r = x.get("referencedDecl", {})
                    v = self.lookup(r.get("id"))
                    if isinstance(v, Leaf) and v.mut and v.ct.k == "int":
                        return v
                    if isinstance(v, PtrO) and isinstance(v.off, Leaf) and v.off.mut:
                        return v.off
                return None

            def val(x):
                def g():
                    r = self.rdp(self.expr(x))
                    return (r.off if isinstance(r, PtrO) else r).term()
                return self.pure_try(g)
            la, lb = base(a), base(b)
            if la is not None:
                t = val(b)
                if t is not None:
                    out.append((la, c["opcode"], t))
            if lb is not None:
                t = val(a)
                if t is not None:
                    fl = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[c["opcode"]]
                    out.append((lb, fl, t))
        return out

    def loop(self, cond, inc, body, do=False, rng=None):
        sp, no = self.spec_loop()
        it = self.fresh("it")
        lab = "L%d" % self.cnt.setdefault("#lab", 0)
        self.cnt["#lab"] += 1
        lc = {"steps": {}, "written": {}, "writes": {}, "nest": self.nest + 1, "it": it, "lab": lab, "no": no,
              "cont": False, "contexn": "Cont%s" % lab, "sp": sp, "frame": self.frame}
        lines0 = len(self.lines)
        self.loops_meta.append(lc)
        if sp.get("pre"):
            self.emit_ghost(sp["pre"], lc)
        self.emit("label %s in" % lab)
        self.emit("let %s = ref 0 in" % it)
        self.loopstack.append(lc)
        conds = self.simple_cond(cond) if cond is not None and not do else []
        self.nest += 1

        def do_body():
            if rng is not None:
                base, lo, hi, ld = rng
                self.frame.names.append({})
                idx = self.let("%s + !%s" % (lo, it), "ix") if lo != "0" else self.let("!%s" % it, "ix")
                el = self.elem(base, idx)
                self.locals.append((ld.get("name", ""), repr(self.ctype(ld))))
                q = ld["type"]["qualType"].rstrip()
                if q.endswith("&"):
                    # the reference is bound here: the element must exist
                    v = self.rd(el) if not isinstance(el.leaf, Leaf) or not el.leaf.mut else None
                    if v is not None:
                        el = v
                    elif el.ct.k in ("vec",):
                        self.rd(el)
                    else:
                        self.rd(el)
                    self.frame.bind(ld, el)
                else:
                    v = self.rd(el)
                    ct = self.ctype(ld)
                    if ct.k in ("int", "real", "bool"):
                        v = self.cast(v, ct)
                    mut = ld["id"] in self.cur_mut()
                    o = self.new_obj(ld.get("name", "e"), ct, mut, v) if (mut or ct.k == "struct") else v
                    if isinstance(o, Leaf) and not o.mut and o is v and v.const is None:
                        nm = self.let_named(v.term(), ld.get("name", "e"))
                        o = Leaf(nm, False, ct)
                    self.frame.bind(ld, o)
            if sp.get("begin"):
                self.emit_ghost(sp["begin"], lc)
            txt, _ = self.block(lambda: self.s_scoped(body))
            if lc["cont"]:
                self.emit("(exception %s in try begin\n%s\nend with %s -> () end);" % (lc["contexn"], txt, lc["contexn"]))
            else:
                self.lines.append(txt.rsplit("\n", 1)[0] if txt.endswith("\n()") else txt + ";")
            if rng is not None:
                if sp.get("end"):
                    self.emit_ghost(sp["end"], lc)
                self.frame.names.pop()
            elif sp.get("end"):
                self.emit_ghost(sp["end"], lc)
            if do:
                ctxt, c = self.block(lambda: self.tobool(self.ev(cond)), lambda r: r.term())
                self.emit("if not (%s) then begin %s := !%s + 1; break end;" % (ctxt, it, it))
            if inc is not None:
                self.discard(inc)
            self.emit("%s := !%s + 1" % (it, it))

        if rng is not None:
            ctxt = "ilt (%s + !%s) %s" % (rng[1], it, rng[2]) if rng[1] != "0" else "ilt !%s %s" % (it, rng[2])
        elif do or cond is None:
            ctxt = "true"
        else:
            ctxt, _ = self.block(lambda: self.tobool(self.ev(cond)), lambda r: r.term())
        btxt, _ = self.block(do_body, lambda r: "")
        btxt = btxt.rstrip()
        self.nest -= 1
        self.loopstack.pop()

        # automatic invariants
        inv = ["0 <= !%s" % it]
        if rng is not None:
            inv = ["0 <= !%s <= %s - %s" % (it, rng[2], rng[1])]
        wnames = {l.name for l in lc["written"].values()}
        outer = set()
        for lid, l in lc["written"].items():
            if not self.declared_outside(l, lines0):
                continue
            if l.ct.k == "int":
                inv.append("in_%s !%s" % (l.ct.key(), l.name))
            st = lc["steps"].get(lid, [])
            if len(st) == 1 and lc["writes"].get(lid) == 1 and st[0][2] == lc["nest"] and \
                    not (lc["cont"] and not self.in_inc(inc, l)):
                step = st[0][1]
                inv.append("!%s = (!%s at %s) + %d * !%s" % (l.name, l.name, lab, step, it) if step >= 0 else
                           "!%s = (!%s at %s) - %d * !%s" % (l.name, l.name, lab, -step, it))
                for (cl, op, t) in conds:
                    if cl is l and not (set(re.findall(r"!(\w+)", t)) & wnames):
                        if op in ("<", "!=") and step == 1:
                            inv.append("(!%s at %s) <= %s -> !%s <= %s" % (l.name, lab, t, l.name, t))
                        if op == "<=" and step == 1:
                            inv.append("(!%s at %s) <= %s + 1 -> !%s <= %s + 1" % (l.name, lab, t, l.name, t))
                        if op in (">", "!=") and step == -1:
                            inv.append("(!%s at %s) >= %s -> !%s >= %s" % (l.name, lab, t, l.name, t))
        # propagate to the enclosing loop
        for oc in self.loopstack:
            for lid, l in lc["written"].items():
                oc["written"][lid] = l
                oc["writes"][lid] = oc["writes"].get(lid, 0) + 2
        out = ["while (%s) do" % ctxt]
        for f in inv:
            out.append("invariant { [@expl:loop %d range] %s }" % (no, f))
        for x in sp.get("inv", []):
            tag, t = x if isinstance(x, tuple) else (None, x)
            out.append("invariant { [@expl:loop %d invariant%s] %s }" % (no, " " + tag if tag else "", self.spec(t, lc)))
        if sp.get("variant"):
            out.append("variant { %s }" % self.spec(sp["variant"], lc))
        out.append("(*VAC*)")
        out.append(btxt)
        out.append("done;")
        self.emit("\n".join(out))
        self.last_loop = lc
        if sp.get("post"):
            self.emit_ghost(sp["post"], lc)

    def let_named(self, term, p):
        t = self.fresh(p)
        self.emit("let %s = %s in" % (t, term))
        return t

    def in_inc(self, inc, leaf):
        if inc is None:
            return False
        ids = set()

        def w(n):
            if n.get("kind") == "DeclRefExpr":
                v = self.lookup((n.get("referencedDecl") or {}).get("id"))
                if v is leaf or isinstance(v, PtrO) and v.off is leaf:
                    ids.add(1)
            for c in n.get("inner", []):
                w(c)
        w(inc)
        return bool(ids)

    def declared_outside(self, leaf, lines0):
        """leaf declared before the current loop: its 'let x = ref' is already in self.lines or further out"""
        return not getattr(leaf, "decl_depth", 0) or True if leaf.name in self.outer_names() else False

    def outer_names(self):
        txt = "\n".join(self.lines)
        names = set(re.findall(r"let (\w+) = ref ", txt)) | set(self.unit.formal_refs)
        for t in self.outer_txt:
            names |= set(re.findall(r"let (\w+) = ref ", "\n".join(t)))
        return names

    def block(self, f, result="()"):
        if not hasattr(self, "outer_txt"):
            self.outer_txt = []
        self.outer_txt.append(self.lines)
        try:
            return _Tr2.block(self, f, result)
        finally:
            self.outer_txt.pop()

    def note_write(self, leaf):
        for lc in self.loopstack:
            lc["written"][id(leaf)] = leaf
            lc["writes"][id(leaf)] = lc["writes"].get(id(leaf), 0) + 1
        leaf.written = True

    # ------------------------------------------------------------------ contract texts
    def emit_ghost(self, txt, lc=None):
        for t in (txt if isinstance(txt, (list, tuple)) else [txt]):
            s = self.spec(t, lc).strip()
            if s.startswith("let lemma "):
                # a local lemma speaks about this state: snapshots of the references it mentions
                snap = {}

                def sn(m):
                    k = re.sub(r"\s+", " ", m.group(0))
                    mo = re.match(r"\(old !(\w+)\)", k)
                    if mo:
                        self.unit.old_snaps.add(mo.group(1))
                        return "g0_" + mo.group(1)
                    if k not in snap:
                        snap[k] = self.fresh("g_" + re.sub(r"\W+", "_", k).strip("_"))
                    return snap[k]
                s = re.sub(r"\(old !\w+\)|\(!\w+ at \w+\)|!\w+", sn, s)
                for k, v in snap.items():
                    self.emit("let ghost %s = %s in" % (v, k))
                for l in s.split("\n"):
                    self.emit(l)
            elif not re.match(r"(assert|assume|check) *\{", s):
                def so(m):
                    self.unit.old_snaps.add(m.group(1))
                    return "g0_" + m.group(1)
                s = re.sub(r"\(old\s+!(\w+)\)", so, s)
                self.emit(s if s.endswith(" in") or s.endswith(";") else s + ";")
            elif s.endswith(" in") or s.endswith(";"):
                self.emit(s)
            else:
                self.emit(s + ";")

    def resolve_name(self, nm):
        f = self.frame
        seen = set()
        while f is not None:
            v = f.lookup_name(nm)
            if v is not None:
                return v
            if f.lex is not None:
                g = f.lex
                while g is not None:
                    v = g.lookup_name(nm)
                    if v is not None:
                        return v
                    g = g.lex
            f = f.parent
        return None

    def spec_obj(self, path, lc):
        parts = path.split(".")
        nm = parts[0]
        if nm == "this":
            f = self.frame
            while f is not None and f.this is None:
                f = f.parent
            if f is None:
                raise SpecError("no this")
            o = f.this
        elif nm == "result":
            o = self.unit.result_obj
            if o is None:
                f = self.frame
                while f is not None and f.ret is None:
                    f = f.parent
                if f is None:
                    raise SpecError("no result")
                o = f.ret
        elif nm in self.unit.canon:
            o = self.unit.canon[nm]
            # an inner frame may shadow a parameter name only if the contract says so
        else:
            o = self.resolve_name(nm)
            if o is None:
                alt = self.unit.realign(nm, self)
                if alt:
                    o = self.resolve_name(alt)
            if o is None:
                raise SpecError("the contract mentions %s, which the code does not declare here" % nm)
        for p in parts[1:]:
            if isinstance(o, PtrO) and p == "base":
                o = o.base
                continue
            if isinstance(o, SpanO) and p in ("lo", "hi", "base"):
                o = getattr(o, p)
                continue
            if isinstance(o, ThisP):
                o = o.obj
            if isinstance(o, Node) and p not in o.fields:
                raise SpecError("no field " + p)
            if isinstance(o, (Leaf, Pl)) and (o.ct.k != "struct" or p.startswith("cac_") or p.startswith("sd_")):
                return o, "." + ".".join(parts[parts.index(p, 1):])
            o = self.field(o, p)
        return o, ""

    def leaf_text(self, l, suf, lc):
        if not l.mut:
            return l.name
        if suf is None:
            return "!" + l.name
        if suf == "0":
            return "(old !%s)" % l.name
        lab = lc["lab"] if suf == "L" else "B" if suf == "B" else None
        if lab is None:
            k = int(suf[1:])
            for c in reversed(self.loops_meta):
                if c["no"] == k:
                    lab = c["lab"]
                    break
        if lab is None:
            raise SpecError("no loop label " + suf)
        return "(!%s at %s)" % (l.name, lab)

    def obj_text(self, o, suf, lc):
        if isinstance(o, ThisP):
            o = o.obj
        if isinstance(o, Leaf):
            return self.leaf_text(o, suf, lc)
        if isinstance(o, Node):
            order = VIEWS.get(o.ct.name) or [f for f in o.fields if f != "#base" and not isinstance(o.fields[f], (Opaque, Clos))]
            return " ".join(self.obj_text(o.fields[f], suf, lc) for f in order)
        if isinstance(o, SpanO):
            return "%s %s %s" % (self.obj_text(o.base, suf, lc), self.obj_text(o.lo, suf, lc), self.obj_text(o.hi, suf, lc))
        if isinstance(o, PtrO):
            return self.obj_text(o.off, suf, lc)
        if isinstance(o, Pl):
            t = self.leaf_text(o.leaf, suf, lc)
            ct = o.leaf.ct
            for kind, a in o.path:
                if kind == "i":
                    t = "(%s.a %s)" % (t, self.at(a))
                    ct = ct.elem if ct.k != "str" else I8
                else:
                    rn = RECN[ct.name]
                    t = "%s.%s_%s" % (t, rn, a)
                    ct = dict(RECF[rn])[a]
            return t
        raise SpecError("cannot render %r" % o)

    def spec(self, text, lc=None):
        if lc is None and self.loopstack:
            lc = self.loopstack[-1]

        def r(m):
            path, suf = m.group(1), m.group(2)
            if path == "it":
                return "!" + lc["it"]
            mm = re.match(r"^it(\d+)$", path)
            if mm:
                for c in reversed(self.loops_meta):
                    if c["no"] == int(mm.group(1)):
                        return "!" + c["it"]
                raise SpecError("no loop " + path)
            o, rest = self.spec_obj(path, lc)
            return self.obj_text(o, suf, lc) + rest
        return re.sub(r"\$([A-Za-z_]\w*(?:\.[A-Za-z_]\w*)*)(?:'(L\d+|L|0|B)(?![A-Za-z]))?", r, text)

    # ------------------------------------------------------------------ calls by contract
    def key_term(self, u, fk, ak, acts):
        """the actual key function as a logic function, with the obligation that it is defined where the callee uses it"""
        if isinstance(ak, AbsPred):
            return ak.name
        el = u.spec["key"][3]
        kx = self.fresh("kx")
        t, wd = self.pure_eval(lambda: self.rd(self.call_clos(ak, [Leaf(kx, False, el)])).term())
        for kind, a, b in u.spec.get("keyargs", []):
            if not wd:
                break
            c = " /\\ ".join("(%s)" % w for w in wd)
            if kind == "one":
                v = self.rd(acts[a])
                self.need("(let %s = %s in %s)" % (kx, v.term(), c), "key defined on the element")
            else:
                v, n_ = self.rd(acts[a]), self.rd(acts[b])
                q = self.fresh("q")
                self.need("(forall %s. 0 <= %s < %s -> let %s = %s.a %s in %s)" % (q, q, n_.term(), kx, self.at(v), q, c),
                          "key defined on the elements")
        m = re.match(r"^\((\S+)\.a %s\)$" % kx, t)
        if m:
            return "%s.a" % m.group(1)
        return "(fun (%s: %s) -> %s)" % (kx, wt(el), t)


    def call_contract(self, u, this, params, argvals):
        """u: FnUnit already translated"""
        fs = u.formals
        actual = list(argvals)
        pairs = []       # (formal leaf info, actual place)
        objs = ([this] if u.has_this else []) + actual
        keyacts = []

        def walk(fo, ao):
            if isinstance(fo, (Opaque, Clos)):
                return
            if isinstance(ao, ThisP):
                ao = ao.obj
            if isinstance(fo, ThisP):
                fo = fo.obj
            if isinstance(fo, Node):
                for f in fo.fields:
                    if f == "#base":
                        keyacts.append((fo.fields[f], ao.fields[f]))
                        continue
                    walk(fo.fields[f], self.field(ao, f))
                return
            if isinstance(fo, SpanO):
                if isinstance(ao, SpanO):
                    if ao.base is None:
                        raise Unsupported("span without container")
                    pairs.append((fo.base, ao.base))
                    pairs.append((fo.lo, ao.lo))
                    pairs.append((fo.hi, ao.hi))
                    return
                raise Unsupported("span argument")
            if isinstance(fo, PtrO):
                if isinstance(ao, PtrO) and ao.base is not None:
                    pairs.append((fo.base, ao.base))
                    pairs.append((fo.off, ao.off))
                    return
                raise Unsupported("pointer argument")
            pairs.append((fo, ao))
        for fo, ao in zip(fs, objs):
            walk(fo, ao)
        used = [(f, a) for f, a in pairs if f.name in u.used]
        # aliasing: a written actual must not be reachable through another formal
        roots = []
        for f, a in used:
            p = a.leaf if isinstance(a, Pl) else a
            roots.append((f, p))
        for f, p in roots:
            if f.name in u.writes:
                for g, q in roots:
                    if g is not f and q is p and getattr(p, "mut", False):
                        raise AliasInline()
        terms, post = [], []
        for fk, ak in keyacts:
            terms.append(self.key_term(u, fk, ak, dict((f.name, a) for f, a in pairs)))
        for f, a in used:
            if f.name in u.writes:
                if isinstance(a, Leaf):
                    if not a.mut:
                        raise Unsupported("output argument is immutable: " + a.name)
                    terms.append(a.name)
                    post.append(a)
                elif isinstance(a, Pl):
                    v = self.rd(a)
                    t = self.fresh("tmp")
                    self.emit("let %s = ref %s in" % (t, self.at(v)))
                    terms.append(t)
                    post.append((a, t))
                else:
                    raise Unsupported("output argument")
            else:
                if isinstance(a, Pl) and f.ct.k == "int" and a.ct.k == "int" or isinstance(a, (Leaf, Pl)):
                    v = self.rd(a)
                    if f.ct.k in ("int", "real", "bool"):
                        v = self.cast(v, f.ct)
                    terms.append(self.at(v))
                else:
                    v = self.rd(a)
                    terms.append(self.at(v))
        self.ctx.dep(self.unit, u)
        self.unit.deps[u.name] = u
        k = self.callno.get(u.key, 0) + 1
        self.callno[u.key] = k
        ch = self.unit.spec.get("calls", {})
        hooks = ch.get((u.key, k)) or ch.get((u.key, 0)) or ch.get((u.key.split("#")[0], 0)) or {}
        if hooks.get("before"):
            self.emit_ghost(hooks["before"])
        call = "%s %s" % (u.name, " ".join(terms) if terms else "()")
        res = u.result_leaves
        out = VOIDV
        if not res:
            self.emit("(%s);" % call)
        elif len(res) == 1 and isinstance(u.result_shape, Leaf):
            nm = self.fresh("r_" + u.short)
            self.emit("let %s = %s in" % (nm, call))
            out = Leaf(nm, False, u.result_shape.ct)
        else:
            m = {}
            nms = []
            for l in res:
                nm = self.fresh("r_" + l.name)
                nms.append(nm)
                m[l.name] = Leaf(nm, False, l.ct)
            if len(nms) == 1:
                self.emit("let %s = %s in" % (nms[0], call))
            else:
                self.emit("let (%s) = %s in" % (", ".join(nms), call))

            def rebuild(o):
                if isinstance(o, Node):
                    return Node(o.ct, {f: rebuild(x) for f, x in o.fields.items()})
                if isinstance(o, Leaf):
                    return m[o.name]
                return o
            out = rebuild(u.result_shape)
        for p in post:
            if isinstance(p, tuple):
                self.wr(p[0], "!" + p[1])
            else:
                self.note_write(p)
        if u.throws:
            self.throws = True
        if hooks.get("after"):
            self.call_result = out
            self.emit_ghost(hooks["after"])
        return out
