"""C++ types as seen by the translator."""
import re


class CT:
    __slots__ = ("k", "bits", "signed", "elem", "name", "n", "const")

    def __init__(self, k, bits=0, signed=False, elem=None, name=None, n=None):
        self.k, self.bits, self.signed, self.elem, self.name, self.n = k, bits, signed, elem, name, n

    def __repr__(self):
        if self.k == "int":
            return ("i" if self.signed else "u") + str(self.bits)
        if self.k in ("vec", "span", "ptr", "arr"):
            return "%s<%r>" % (self.k, self.elem)
        return self.name or self.k

    def key(self):
        return repr(self)

    def __eq__(self, o):
        return isinstance(o, CT) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


def I(b, s):
    return CT("int", b, s)


I8, I16, I32, I64 = I(8, True), I(16, True), I(32, True), I(64, True)
U8, U16, U32, U64 = I(8, False), I(16, False), I(32, False), I(64, False)
BOOL, F32, VOID = CT("bool"), CT("real"), CT("void")

PRIM = {
    "char": I8, "signed char": I8, "unsigned char": U8, "short": I16, "unsigned short": U16, "int": I32,
    "unsigned int": U32, "unsigned": U32, "long": I64, "unsigned long": U64, "long long": I64,
    "unsigned long long": U64, "bool": BOOL, "float": F32, "double": F32, "long double": F32, "void": VOID,
    "int16_t": I16, "int32_t": I32, "int64_t": I64, "uint16_t": U16, "uint32_t": U32, "uint64_t": U64, "int8_t": I8,
    "uint8_t": U8, "size_t": U64, "std::size_t": U64, "ptrdiff_t": I64, "std::ptrdiff_t": I64, "__size_t": U64,
    "cidx_t": None, "std::int64_t": I64, "std::int32_t": I32, "std::int16_t": I16, "std::uint32_t": U32,
    "std::uint64_t": U64, "size_type": U64, "std::vector::size_type": U64, "difference_type": I64, "int_fast64_t": I64,
}


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<({[":
            d += 1
        elif c in ">)}]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_cvref(s):
    """Returns (type without top-level cv/ref, isref, isconst)."""
    s = s.strip()
    ref = False
    while s.endswith("&"):
        s = s[:-1].rstrip()
        ref = True
    const = False
    changed = True
    while changed:
        changed = False
        for p in ("const ", "volatile ", "struct ", "class ", "typename "):
            if s.startswith(p):
                s = s[len(p):].lstrip()
                changed = True
                if p == "const ":
                    const = True
        for p in (" const", " volatile"):
            if s.endswith(p):
                s = s[:-len(p)].rstrip()
                changed = True
                if p == " const":
                    const = True
    return s, ref, const


class TypeParser:
    def __init__(self, ast):
        self.ast = ast
        self.cache = {}
        self.alias = {k: v for k, v in ast.alias.items() if k in ("cidx_t", "ridx_t", "real_t", "prng_t", "counter_t",
                                                                  "score_subspan_t")}

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        r = self._parse(s)
        self.cache[s] = r
        return r

    def _parse(self, s0):
        s, ref, const = strip_cvref(s0)
        if s.startswith("cft::"):
            s = s[5:]
        if s in self.alias:
            return self.parse(self.alias[s])
        if s in PRIM and PRIM[s] is not None:
            return PRIM[s]
        if s.endswith("*"):
            return CT("ptr", elem=self.parse(s[:-1]))
        m = re.match(r"^(.*\S)\s*\(&+\)\s*\[(\d+)\]$", s0.strip())
        if m:
            return CT("arr", elem=self.parse(m.group(1)), n=int(m.group(2)))
        m = re.match(r"^(.*\S)\s*\[(\d+)\]$", s)
        if m:
            return CT("arr", elem=self.parse(m.group(1)), n=int(m.group(2)))
        if s.startswith("(lambda"):
            return CT("clos", name=s)
        base = s.split("<", 1)[0]
        bn = base.split("::")[-1]
        args = []
        if "<" in s and s.endswith(">"):
            args = split_args(s[s.index("<") + 1:-1])
        if bn in ("decay_t", "no_cvr", "native_t", "remove_reference_t") and args:
            return self.parse(args[0])
        if bn == "vector":
            return CT("vec", elem=self.parse(args[0]))
        if bn == "initializer_list":
            return CT("vec", elem=self.parse(args[0]))
        if bn == "Span":
            return CT("span", elem=self.parse(args[0]).elem)
        if bn in ("__normal_iterator",):
            return CT("ptr", elem=self.parse(args[0]).elem)
        if bn in ("basic_string", "string"):
            return CT("str")
        if bn == "StringView":
            return CT("strview")
        if bn in ("Chrono", "XoshiroMixIn", "time_point", "basic_ofstream", "ofstream", "basic_ifstream", "ifstream",
                  "unordered_map"):
            return CT("opaque", name=bn)
        rec = self.find_record(s)
        if rec is not None:
            return CT("struct", name=self.recname(rec))
        return CT("other", name=s)

    def recname(self, rec):
        args = []
        if rec["kind"] == "ClassTemplateSpecializationDecl":
            for c in rec.get("inner", []):
                if c.get("kind") == "TemplateArgument":
                    t = c.get("type", {})
                    if t:
                        args.append(t.get("desugaredQualType", t.get("qualType")))
                    elif "value" in c:
                        args.append(str(c["value"]))
        return rec["name"] + ("<" + ", ".join(args) + ">" if args else "")

    def find_record(self, s):
        base = s.split("<", 1)[0].split("::")[-1]
        args = []
        if "<" in s and s.endswith(">"):
            args = split_args(s[s.index("<") + 1:-1])
        for q, l in self.ast.records.items():
            if q.split("::")[-1] != base:
                continue
            for r in l:
                if not any(c.get("kind") in ("FieldDecl", "CXXMethodDecl", "CXXConstructorDecl", "AccessSpecDecl",
                                             "CXXRecordDecl") for c in r.get("inner", [])):
                    continue
                if r["kind"] == "ClassTemplateSpecializationDecl":
                    ra = []
                    for c in r.get("inner", []):
                        if c.get("kind") == "TemplateArgument":
                            t = c.get("type", {})
                            ra.append(t.get("desugaredQualType", t.get("qualType")) if t else str(c.get("value")))
                    if len(ra) != len(args):
                        # default template args may be missing in the written type
                        if len(args) > len(ra):
                            continue
                    ok = True
                    for x, y in zip(args, ra):
                        x2 = re.sub(r"(?<=\d)[uUlL]+$", "", x)
                        if x2 == y:
                            continue
                        px, py = self.parse(x2), self.parse(y)
                        if px.k == "clos" or py.k == "clos":
                            if px.name != py.name:
                                ok = False
                        elif px != py:
                            ok = False
                    if ok and (args or not ra):
                        return r
                elif r["kind"] == "CXXRecordDecl":
                    return r
        return None
