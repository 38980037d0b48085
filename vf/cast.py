"""Clang AST extraction and indexing (runs clang on /repo's current sources on every run)."""
import json, os, subprocess, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")      # development only: the registered checks never set it
FMT = "/opt/vp/deps/fmt/include"


class ExtractError(Exception):
    pass


def run_clang(tu, outpath, extra=()):
    cmd = ["clang++", "-std=c++11", "-w", "-DNDEBUG", "-I" + VERIF + "/shim", "-I" + REPO + "/src", "-I" + FMT,
           *extra, "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=cft", tu]
    with open(outpath, "w") as f:
        p = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ExtractError("clang rejected the sources:\n" + p.stderr[-3000:])
    return " ".join(cmd)


def load_docs(path):
    s = open(path).read()
    d = json.JSONDecoder()
    i, n, out = 0, len(s), []
    while i < n:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


def inner(n):
    return [c for c in n.get("inner", [])]


RECORDS = ("CXXRecordDecl", "ClassTemplateSpecializationDecl")
FUNCS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl")
COMMENTS = ("FullComment", "ParagraphComment", "TextComment")


class Ast:
    def __init__(self, docs):
        self.decl = {}      # id -> node
        self.qual = {}      # id -> qualified name
        self.parent = {}    # id -> parent record id (for methods/fields)
        self.alias = {}     # alias name -> type string
        self.defs = {}      # first-decl id -> defining node
        self.funcs = {}     # qualified name -> [definition nodes]
        self.records = {}   # qualified name -> [record nodes]
        self.insttmpl = set()   # ids of uninstantiated template patterns
        self.prev = {}
        for d in docs:
            # dumps of members outside the namespace document are repeats; only index once
            self._walk(d, [], None, False)
        # map redeclarations to definitions
        for i, n in list(self.decl.items()):
            p = n.get("previousDecl")
            if p and self._is_def(n):
                self.defs[p] = n
        for i, n in self.decl.items():
            if n["kind"] in FUNCS and self._is_def(n):
                self.defs.setdefault(i, n)

    @staticmethod
    def _is_def(n):
        return any(c.get("kind") == "CompoundStmt" for c in n.get("inner", []))

    def _walk(self, n, path, rec, in_tmpl):
        if not isinstance(n, dict) or "kind" not in n:
            return
        k = n["kind"]
        i = n.get("id")
        name = n.get("name", "")
        if i and k.endswith("Decl"):
            self.decl[i] = n
            self.qual[i] = "::".join([p for p in path if p] + ([name] if name else []))
            if rec is not None:
                self.parent[i] = rec
        if k in ("TypeAliasDecl", "TypedefDecl"):
            t = n.get("type", {})
            if not in_tmpl:
                self.alias.setdefault(name, t.get("desugaredQualType", t.get("qualType")))
        if k == "NamespaceDecl":
            for c in n.get("inner", []):
                self._walk(c, path + [name], rec, in_tmpl)
            return
        if k in RECORDS:
            if not in_tmpl:
                self.records.setdefault(self.qual[i], []).append(n)
            for c in n.get("inner", []):
                self._walk(c, path + [name], n["id"], in_tmpl)
            return
        if k == "ClassTemplateDecl":
            first = True
            for c in n.get("inner", []):
                if c.get("kind") == "CXXRecordDecl" and first:
                    first = False
                    self._walk(c, path, rec, True)
                else:
                    self._walk(c, path, rec, in_tmpl)
            return
        if k == "ClassTemplatePartialSpecializationDecl":
            return
        if k == "FunctionTemplateDecl":
            first = True
            for c in n.get("inner", []):
                if c.get("kind") in FUNCS and first:
                    first = False
                    self.insttmpl.add(c.get("id"))
                    self._walk(c, path, rec, True)
                else:
                    self._walk(c, path, rec, in_tmpl)
            return
        if k in FUNCS:
            if not in_tmpl and self._is_def(n):
                self.funcs.setdefault(self.qual[i], []).append(n)
            for c in n.get("inner", []):
                self._walk(c, path + [name], None, in_tmpl)
            return
        for c in n.get("inner", []):
            self._walk(c, path, rec, in_tmpl)

    def definition(self, i):
        if i in self.defs:
            return self.defs[i]
        n = self.decl.get(i)
        seen = set()
        while n is not None and not self._is_def(n):
            p = n.get("previousDecl")
            if p in self.defs:
                return self.defs[p]
            if p is None or p in seen:
                return None
            seen.add(p)
            n = self.decl.get(p)
        return n


_cache = {}


def get_ast(workdir, tu=None, extra=()):
    tu = tu or VERIF + "/shim/tu.cpp"
    key = (tu, tuple(extra))
    if key not in _cache:
        out = os.path.join(workdir, "ast_%s.json" % hashlib.md5(repr(key).encode()).hexdigest()[:8])
        cmd = run_clang(tu, out, extra)
        docs = load_docs(out)
        os.unlink(out)
        a = Ast(docs)
        a.cmd = cmd
        _cache[key] = a
    return _cache[key]
