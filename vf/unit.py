"""Functions under contract: translation of one function to a WhyML module, plus its abstract 'val'."""
import re, difflib, json, os
from .tr3 import *
from .tr3 import Tr, Fr, SpecError
from .cast import VERIF


def short_name(q):
    return re.sub(r"\W+", "_", q.split("::")[-1])


class FnUnit:
    """node: AST definition; spec: dict(params, requires, ensures, loops, ...)"""

    def __init__(self, ctx, node, spec, key, name):
        self.ctx, self.node, self.spec, self.key, self.name = ctx, node, spec, key, name
        self.short = short_name(ctx.ast.qual.get(node["id"], key))
        self.deps = {}
        self.done = False
        self.error = None
        self.canon = {}
        self.result_obj = None
        self.formal_refs = []
        self.throws = False
        self.old_snaps = set()

    # -------------------------------------------------------------- translation
    def translate(self):
        if self.done:
            return
        self.done = True
        try:
            self.second = False
            self.run(set())
            first = set(self.writes)
            self.second = True
            self.run(first)
        except (Unsupported, SpecError, KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError) as e:
            self.error = "%s: %s" % (type(e).__name__, e)
            if os.environ.get("VF_DEBUG"):
                import traceback
                traceback.print_exc()
            raise Unsupported("unit %s: %s" % (self.key, self.error))

    def build_formal(self, t, nm, ct, isref, leaves, mutset):
        k = ct.k
        if k in ("opaque", "other", "clos"):
            return Opaque(ct)
        if k == "struct":
            rec, fs = t.struct_fields(ct)
            nd = Node(ct, {f: self.build_formal(t, nm + "_" + f, fct, isref, leaves, mutset) for f, fct, fd in fs})
            ka = self.spec.get("key")
            if ka is not None and any(t.tp.parse(b["type"].get("desugaredQualType", b["type"]["qualType"])).k == "clos"
                                      for b in rec.get("bases", [])):
                nd.fields["#base"] = AbsPred(ka[0], ka[1])
                self.keys.append((ka[0], ka[1], ka[2]))
            return nd
        if k in ("span", "strview"):
            base = self.build_formal(t, nm + "_base", CT("vec", elem=ct.elem or I8) if k == "span" else CT("str"),
                                     isref, leaves, mutset)
            lo = self.mkleaf(nm + "_lo", U64, leaves, mutset)
            hi = self.mkleaf(nm + "_hi", U64, leaves, mutset)
            return SpanO(base, lo, hi, ct)
        if k == "ptr":
            base = self.build_formal(t, nm + "_base", CT("vec", elem=ct.elem), isref, leaves, mutset)
            off = self.mkleaf(nm + "_off", U64, leaves, mutset)
            return PtrO(base, off, ct)
        return self.mkleaf(nm, ct, leaves, mutset)

    def mkleaf(self, nm, ct, leaves, mutset):
        nm = nm[0].lower() + nm[1:]
        if nm in KEYWORDS:
            nm += "_v"
        wt(ct)
        l = Leaf(nm, nm in mutset, ct)
        l.formal = True
        leaves.append(l)
        return l

    def run(self, mutset):
        ctx = self.ctx
        d = self.node
        t = Tr(ctx, self)
        self.tr = t
        self.deps = {}
        self.canon = {}
        self.result_obj = None
        params = [p for p in d["inner"] if p.get("kind") == "ParmVarDecl"]
        names = self.spec.get("params") or []
        leaves = []
        self.formals = []
        self.keys = []
        rec = ctx.ast.parent.get(d["id"])
        self.has_this = d["kind"] in ("CXXMethodDecl", "CXXConversionDecl") and rec is not None and \
            d.get("storageClass") != "static"
        fr = Fr(None, d)
        if self.has_this:
            rn = ctx.tp.recname(ctx.ast.decl[rec])
            th = self.build_formal(t, "this", CT("struct", name=rn), True, leaves, self.pass_mut(mutset))
            fr.this = th
            self.formals.append(th)
            self.canon["this"] = th
        pobjs = []
        for i, p in enumerate(params):
            nm = names[i] if i < len(names) else (p.get("name") or "arg%d" % i)
            ct = t.ctype(p)
            abs_ = self.spec.get("abstract", {}).get(nm)
            if abs_ is not None:
                o = AbsPred(abs_[0], abs_[1])
            else:
                o = self.build_formal(t, nm, ct, p["type"]["qualType"].rstrip().endswith("&"), leaves, self.pass_mut(mutset))
            self.formals.append(o)
            self.canon[nm] = o
            pobjs.append((p, o))
        self.leaves = leaves
        for l in leaves:
            t.cnt[l.name] = 1
        # first pass: everything mutable
        self.formal_refs = [l.name for l in leaves if l.mut]
        t.frame = fr
        fr.names[-1]["this"] = fr.this
        body = [c for c in d["inner"] if c.get("kind") == "CompoundStmt"][-1]
        mut = mutated_ids(body)

        def go():
            for g in self.spec.get("entry", []):
                t.emit_ghost(g)
            for p, o in pobjs:
                t.bind_param(fr, p, o, mut)
                if p.get("name"):
                    pass
            sts = exprs(body)
            nret = count(body, "ReturnStmt")
            rct = t.ret_ct(d) or VOID
            if rct.k == "other":
                rct = t.find_ret_ct(body)
            if t.ret_is_ref(d) and rct.k != "void":
                raise Unsupported("returns a reference")
            if rct.k in ("span", "ptr", "strview", "opaque", "other"):
                raise Unsupported("returns a view")
            self.rct = rct
            if rct.k == "void":
                if nret:
                    t.body_with_returns(fr, sts)
                else:
                    t.stmts(sts)
                shape = VOIDV
            elif nret == 1 and sts and sts[-1]["kind"] == "ReturnStmt":
                fr.names.append({})
                for s_ in sts[:-1]:
                    t.stmt(s_)
                v = t.expr(exprs(sts[-1])[0], rct)
                if isinstance(v, (Leaf, Pl)) and rct.k in ("int", "real", "bool"):
                    v = t.cast(t.rd(v), rct)
                shape = t.freeze(v) if isinstance(v, (Node, Leaf, Pl)) else v
                fr.ret = None
                self.local_result = shape
            else:
                fr.ret = t.new_obj("ret", rct, True, None)
                fr.ret_ct = rct
                t.body_with_returns(fr, sts)
                shape = t.freeze(fr.ret)
            if rct.k == "struct" and rct.name in RECN and isinstance(shape, Leaf):
                pass
            self.exit_shape = shape
            self.exit_obj = shape
            self.result_obj = None if shape is VOIDV else shape
            for g in self.spec.get("exit", []):
                t.emit_ghost(g)
            return shape
        t.nest = 0
        btxt, shape = t.block(go, lambda sh: self.ret_term(t, sh))
        self.throws = t.throws
        # result leaves for the contract
        self.result_leaves = []
        if shape is VOIDV:
            self.result_shape = VOIDV
            self.result_obj = None
        else:
            self.result_shape = self.sig_result(t, shape, "result" if isinstance(shape, Leaf) else "r")
            self.result_obj = self.result_shape
        self.body = btxt
        written = [l for l in leaves if l.written]
        self.writes = [l.name for l in written]
        # contract text
        t.frame = fr
        t.loopstack = []
        self.req = []
        self.ens = []
        for i, x in enumerate(self.spec.get("requires", [])):
            tag, tx = x if isinstance(x, tuple) else (None, x)
            self.req.append((tag or "precondition %d" % (i + 1), t.spec(tx, {})))
        for i, x in enumerate(self.spec.get("ensures", [])):
            tag, tx = x if isinstance(x, tuple) else (None, x)
            self.ens.append((tag or "postcondition %d" % (i + 1), t.spec(tx, {})))
        alltxt = btxt + " " + " ".join(x[1] for x in self.req + self.ens)
        ids = set(re.findall(r"[A-Za-z_][\w']*", alltxt))
        self.used = {l.name for l in leaves if l.name in ids}
        self.locals = t.locals
        self.nloops = t.loopno
        for k in self.spec.get("loops", {}):
            if k > t.loopno:
                raise SpecError("the contract describes loop %d of %s, the code has only %d" % (k, self.key, t.loopno))

    def pass_mut(self, mutset):
        return All() if not mutset and not getattr(self, "second", False) else mutset

    def sig_result(self, t, shape, nm):
        if isinstance(shape, Leaf):
            l = Leaf(nm, False, shape.ct)
            self.result_leaves.append(l)
            return l
        if isinstance(shape, Node):
            return Node(shape.ct, {f: self.sig_result(t, x, nm + "_" + f) for f, x in shape.fields.items() if f != "#base"})
        return shape

    def ret_term(self, t, sh):
        if sh is VOIDV:
            return "()"
        out = []

        def w(o):
            if isinstance(o, Leaf):
                out.append(o.term())
            elif isinstance(o, Node):
                for f, x in o.fields.items():
                    if f != "#base":
                        w(x)
            elif isinstance(o, Opaque):
                pass
            else:
                raise Unsupported("return of %r" % o)
        w(sh)
        return "(" + ", ".join(out) + ")" if len(out) != 1 else "(" + out[0] + ")"

    def realign(self, nm, tr):
        base = self.ctx.baseline.get(self.key)
        if not base:
            return None
        cur = [list(x) for x in tr.locals]
        if nm not in [b[0] for b in base]:
            return None
        curnames = {c[0] for c in cur}
        basenames = {b[0] for b in base}
        i = [b[0] for b in base].index(nm)
        ty = base[i][1]
        # positional candidates of the same type that the baseline does not know
        cand = [c for c in cur if c[1] == ty and c[0] not in basenames]
        missing = [b for b in base if b[1] == ty and b[0] not in curnames]
        if not cand:
            return None
        mnames = []
        for b in missing:
            if b[0] not in mnames:
                mnames.append(b[0])
        cnames = []
        for c in cand:
            if c[0] not in cnames:
                cnames.append(c[0])
        if nm in mnames and mnames.index(nm) < len(cnames):
            return cnames[mnames.index(nm)]
        return None

    # -------------------------------------------------------------- emission
    def sig(self, val):
        ps = ["(%s: %s -> %s)" % (k, el, wt(r)) for k, r, el in self.keys]
        for l in self.leaves:
            if l.name in self.used:
                ps.append("(%s: %s)" % (l.name, ("ref " + wt(l.ct)) if l.name in self.writes else wt(l.ct)))
        return " ".join(ps) if ps else "(_u: unit)"

    def rtype(self):
        if not self.result_leaves:
            return "unit"
        ts = [wt(l.ct) for l in self.result_leaves]
        return ts[0] if len(ts) == 1 else "(" + ", ".join(ts) + ")"

    def clause_ens(self, tag, tx):
        if len(self.result_leaves) == 1:
            return "ensures { [@expl:%s] let %s = result in %s }" % (tag, self.result_leaves[0].name, tx) \
                if self.result_leaves[0].name != "result" else "ensures { [@expl:%s] %s }" % (tag, tx)
        if not self.result_leaves:
            return "ensures { [@expl:%s] %s }" % (tag, tx)
        return "returns { (%s) -> [@expl:%s] %s }" % (", ".join(l.name for l in self.result_leaves), tag, tx)

    def val_text(self):
        out = ["val %s %s : %s" % (self.name, self.sig(True), self.rtype())]
        for tag, tx in self.req:
            out.append("  requires { [@expl:precondition of %s: %s] %s }" % (self.key, tag, tx))
        if self.writes:
            out.append("  writes { %s }" % ", ".join(n for n in self.writes))
        for tag, tx in self.ens:
            out.append("  " + self.clause_ens(tag, tx))
        for l in self.result_leaves:
            if l.ct.k == "int":
                out.append("  " + self.clause_ens("range", "in_%s %s" % (l.ct.key(), l.name)))
        for l in self.leaves:
            if l.name in self.writes and l.ct.k == "int":
                out.append("  ensures { in_%s !%s }" % (l.ct.key(), l.name))
            if l.name in self.writes and l.ct.k == "arr":
                out.append("  ensures { !%s.n = %d }" % (l.name, l.ct.n))
        if self.throws:
            out.append("  raises { Thrown }")
        return "\n".join(out)

    def let_text(self):
        out = ["let %s %s : %s" % (self.name, self.sig(False), self.rtype())]
        for l in self.leaves:
            if l.name in self.used and l.ct.k == "int":
                out.append("  requires { in_%s %s }" % (l.ct.key(), l.term() if l.name in self.writes else l.name))
            if l.name in self.used and l.ct.k in ("vec", "str"):
                v = "!" + l.name if l.name in self.writes else l.name
                out.append("  requires { %s.n <= maxsize }" % v)
            if l.name in self.used and l.ct.k == "arr":
                v = "!" + l.name if l.name in self.writes else l.name
                out.append("  requires { %s.n = %d }" % (v, l.ct.n))
        for tag, tx in self.req:
            out.append("  requires { %s }" % tx)
        if "\nwhile (" in "\n" + self.body:
            out.append("  diverges")
        for tag, tx in self.ens:
            out.append("  " + self.clause_ens(tag, tx))
        for l in self.leaves:
            if l.name in self.writes and l.ct.k == "arr":
                out.append("  ensures { [@expl:array length] !%s.n = %d }" % (l.name, l.ct.n))
        if self.throws:
            out.append("  raises { Thrown -> true }")
        out.append("=")
        for x in sorted(self.old_snaps):
            if True:
                out.append("let ghost g0_%s = !%s in" % (x, x))
        out.append(self.body)
        return "\n".join(out)

    def module(self, vac=False):
        uses = self.spec.get("use", [])
        out = ["module M_%s" % self.name, self.ctx.prelude_use()]
        for u in uses:
            out.append("use %s" % u)
        for dpt in self.deps.values():
            out.append(dpt.val_text())
        for nm, ab in self.spec.get("abstract", {}).items():
            out.append("val function %s (x: %s) : %s" % (ab[0], ab[2], wt(ab[1])))
        for x in self.spec.get("decls", []):
            out.append(x)
        lt = self.let_text()
        if vac:
            # a contract whose assumptions are contradictory would prove this
            lt = lt.replace("\n=\n", "\n  ensures { [@expl:vacuity] false }\n=\n", 1)
            cnt_ = [0]

            def vacr(m):
                cnt_[0] += 1
                return "assert { [@expl:vacuity] not (vacb %d) };" % cnt_[0]
            lt = re.sub(r"\(\*VAC\*\)", vacr, lt)
            out.append("predicate vacb int")
        out.append(lt.replace("(*VAC*)\n", ""))
        out.append("end")
        txt = "\n".join(out)
        if re.search(r"\b(div|rem)_[iu]\d|\b(div|mod) ", txt):
            txt = txt.replace(self.ctx.prelude_use(), self.ctx.prelude_use() + "\nuse cft.Div", 1)
        return txt


def subst_targs(x, ts):
    """@0, @1, ... in the texts of a contract: the integer template arguments of the class"""
    if isinstance(x, str):
        for i, t in enumerate(ts):
            x = x.replace("@%d" % i, t)
        return x
    if isinstance(x, dict):
        return {k: subst_targs(v, ts) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(subst_targs(v, ts) for v in x)
    return x


class All:
    def __contains__(self, x):
        return True

    def __bool__(self):
        return True


class Ctx:
    def __init__(self, ast, tp, specs, handlers):
        self.ast, self.tp, self.specs, self.handlers = ast, tp, specs, handlers
        self.units = {}
        self.baseline = {}
        self.deps = set()
        p = os.path.join(VERIF, "vf", "locals.json")
        if os.path.exists(p):
            self.baseline = json.load(open(p))

    def targs(self, d):
        """integer template arguments of the class the function belongs to"""
        rec = self.ast.decl.get(self.ast.parent.get(d["id"]))
        return [str(c["value"]) for c in (rec or {}).get("inner", []) if c.get("kind") == "TemplateArgument" and "value" in c]

    def prelude_use(self):
        return "use cft.All"

    def dep(self, a, b):
        self.deps.add((a.key, b.key))

    def spec_for(self, d):
        q = self.ast.qual.get(d["id"], "")
        return self.specs.get(q) if not self.specs.get(q, {}).get("only_direct") else None

    def unit(self, d, sp):
        i = d["id"]
        if i not in self.units:
            q = self.ast.qual[i]
            n = sum(1 for u in self.units.values() if u.key.split("#")[0] == q)
            # key of an instantiation: stable across runs because the order is the order in the AST
            insts = [x["id"] for x in self.ast.funcs.get(q, [])]
            k = q if len(insts) <= 1 else "%s#%d" % (q, insts.index(i) + 1)
            if sp.get("targs"):
                sp = subst_targs(sp, self.targs(d))
            u = FnUnit(self, d, sp, k, "f_" + re.sub(r"\W+", "_", k.replace("cft::", "").replace("local::", "")))
            self.units[i] = u
        u = self.units[i]
        if u.error:
            raise Unsupported("callee %s: %s" % (u.key, u.error))
        if not u.done:
            u.second = False
            try:
                u.translate()
            except RecursionError:
                raise
        return u
