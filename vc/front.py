"""Front end: clang JSON AST of a driver translation unit -> indexed declarations.

Nothing of the analysed code is rewritten: the AST is taken from clang for the
file in /repo on every run; declarations located outside /repo and /verif
(system headers) are dropped and modelled by library contracts (lib.py).
"""
import json, os, re, subprocess, tempfile, hashlib

CLANG = "/usr/bin/clang++"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class FrontError(Exception):
    pass


def config_h(outdir):
    """The generated config.h of the build, from the repository's template."""
    src = os.path.join(REPO, "src/main/cxx-filtered/config.h")
    txt = open(src).read()
    txt = re.sub(r"\$\{[^}]*\}|@[A-Za-z_]+@", "x", txt)
    open(os.path.join(outdir, "config.h"), "w").write(txt)


def run_clang(text, defines=()):
    with tempfile.TemporaryDirectory(prefix="vc") as d:
        config_h(d)
        p = os.path.join(d, "unit.cpp")
        open(p, "w").write(text)
        cmd = [CLANG, "-std=c++11", "-fsyntax-only", "-w", "-I" + d,
               "-I" + os.path.join(REPO, "src/main/cxx/core"), "-I" + os.path.join(REPO, "src/main/cxx"),
               "-Xclang", "-ast-dump=json"] + ["-D" + x for x in defines] + [p]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise FrontError("clang failed on the unit: " + r.stderr.decode()[:2000])
        return r.stdout, d


_filepat = b'"file": "'


def split_top(data):
    """Yield (file, chunk) for each top level declaration."""
    start = data.find(b'"inner": [')
    body = data[start + len(b'"inner": ['):]
    cur = ""
    parts = body.split(b"\n    },\n    {\n")
    n = len(parts)
    for i, c in enumerate(parts):
        if i == 0:
            c = c[c.find(b"{") + 1:]
        if i == n - 1:
            c = c[:c.rfind(b"\n    }")]
        # the file of this decl's own loc: last seen before, or first in loc
        own = cur
        head = c[:1500]
        j = head.find(b'"loc": {')
        if j >= 0:
            # '"file"' can come before the first '"line"' of loc
            e = head.find(b'"range"', j)
            seg = head[j:e if e > 0 else None]
            k = seg.find(_filepat)
            if k >= 0:
                k += len(_filepat)
                own = seg[k:seg.find(b'"', k)].decode()
        k = c.rfind(_filepat)
        if k >= 0:
            k += len(_filepat)
            cur = c[k:c.find(b'"', k)].decode()
        yield own, c


class Unit:
    def __init__(self, text, defines=(), prefixes=None):
        data, d = run_clang(text, defines)
        self.decl = {}          # id -> node
        self.parent = {}        # id -> parent decl node
        self.defs = {}          # id -> defining node (functions)
        self.records = {}       # qualified name (with args) -> record node
        self.funcs = []         # all function nodes with bodies
        self.roots = []
        prefixes = prefixes or (REPO + "/src", d)
        files = set()
        for f, c in split_top(data):
            if not f.startswith(prefixes):
                continue
            node = json.loads(b"{" + c + b"}")
            self.roots.append(node)
            files.add(f)
        self.files = sorted(files)
        for r in self.roots:
            self._index(r, None)
        self._link()

    # -- indexing -----------------------------------------------------------
    def _index(self, n, par):
        k = n.get("kind", "")
        if k.endswith("Decl") and "id" in n:
            if n["id"] not in self.decl or len(n) > len(self.decl[n["id"]]):
                self.decl[n["id"]] = n
            if par is not None:
                self.parent[n["id"]] = par
            npar = n
        else:
            npar = par
        for c in n.get("inner", ()):
            if c:
                self._index(c, npar)

    def semantic_parent(self, n):
        p = n.get("parentDeclContextId")
        if p and p in self.decl:
            return self.decl[p]
        q = self.parent.get(n["id"])
        while q is not None and q["kind"] in ("ClassTemplateDecl", "FunctionTemplateDecl", "LinkageSpecDecl"):
            q = self.parent.get(q["id"])
        return q

    def _targs(self, n):
        out = []
        for c in n.get("inner", ()):
            if c.get("kind") == "TemplateArgument":
                if "type" in c:
                    out.append(c["type"].get("desugaredQualType") or c["type"]["qualType"])
                elif "value" in c:
                    out.append(str(c["value"]))
                else:
                    out.append("?")
        return out

    def qname(self, n):
        parts = []
        while n is not None and n["kind"] != "TranslationUnitDecl":
            if "name" in n and n["kind"] != "LinkageSpecDecl":
                nm = n["name"]
                if n["kind"] == "ClassTemplateSpecializationDecl":
                    nm += "<" + ", ".join(self._targs(n)) + ">"
                parts.append(nm)
            elif n["kind"] == "CXXRecordDecl":
                parts.append("(anonymous)")
            n = self.semantic_parent(n)
        return "::".join(reversed(parts))

    def _link(self):
        for i, n in self.decl.items():
            k = n["kind"]
            if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and n.get("completeDefinition"):
                q = self.qname(n)
                self.records.setdefault(q, n)
            if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
                if any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", ())):
                    self.funcs.append(n)
                    self.defs[i] = n
                    p = n.get("previousDecl")
                    while p:
                        self.defs[p] = n
                        p = self.decl.get(p, {}).get("previousDecl")
        # variables: out of line definitions of static members
        self.vardefs = {}
        for i, n in self.decl.items():
            if n["kind"] == "VarDecl" and n.get("init"):
                self.vardefs[i] = n
                p = n.get("previousDecl")
                while p:
                    self.vardefs[p] = n
                    p = self.decl.get(p, {}).get("previousDecl")

    def body(self, fn):
        for c in fn.get("inner", ()):
            if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                return c

    def params(self, fn):
        return [c for c in fn.get("inner", ()) if c.get("kind") == "ParmVarDecl"]

    def is_pattern(self, fn):
        """True for the uninstantiated pattern of a template."""
        n = fn
        p = self.parent.get(n["id"])
        if p is not None and p["kind"] == "FunctionTemplateDecl":
            first = [c for c in p["inner"] if c.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl")]
            if first and first[0]["id"] == n["id"]:
                return True
        q = self.semantic_parent(n)
        while q is not None:
            pp = self.parent.get(q["id"])
            if q["kind"] == "CXXRecordDecl" and pp is not None and pp["kind"] == "ClassTemplateDecl":
                return True
            if q["kind"] == "ClassTemplatePartialSpecializationDecl":
                return True
            q = self.semantic_parent(q)
        return False

    def find(self, qname, pred=None):
        out = []
        for f in self.funcs:
            if self.is_pattern(f):
                continue
            if self.qname(f) == qname and (pred is None or pred(f)):
                out.append(f)
        return out


def ty(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType") or ""
