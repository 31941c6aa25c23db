"""C22: eigendecomposition strategies around the LAPACK routines."""
from core import *

DRIVER = '''#include "decompose.h"
#include "core/decompose.cxx"
'''
RA = z3.ArraySort(Int, Real)
VEC = ext_function("eigenvectors", [RA, Int], RA, [(0, 0, 1)]) if False else z3.Function("eigenvectors", RA, Int, RA)
VAL = z3.Function("eigenvalues", RA, Int, RA)
# parameter positions of the LAPACK documentation
PARAMS = {
    "dsyevd_": ["job", "uplo", "n", "A", "lda", "w", "work", "lwork", "iwork", "liwork", "info"],
    "dsyevr_": ["job", "range", "uplo", "n", "A", "lda", "vl", "vu", "il", "iu", "abstol", "m", "w", "Z", "ldz", "isupp", "work", "lwork", "iwork", "liwork", "info"],
    "dsyevx_": ["job", "range", "uplo", "n", "A", "lda", "vl", "vu", "il", "iu", "abstol", "m", "w", "Z", "ldz", "work", "lwork", "iwork", "ifail", "info"],
}


def routine(v, name, n, log, info):
    """LAPACK's documented contract: a workspace query writes the optimal sizes; otherwise the routine
    reads the symmetric matrix, overwrites it and its workspaces, and delivers eigenvalues and eigenvectors
    if info is zero."""
    def contract(ex, st, fn, args, this):
        a = dict(zip(PARAMS[name], args))
        r = {k: ex.rv(st, x) for k, x in a.items()}
        if len(args) != len(PARAMS[name]):
            raise Unsupported("LAPACK interface")
        g = lambda what, f: log.append((what, list(st.pc), f))
        isn = lambda p: not isinstance(p, Ptr)
        query = concrete(z3.simplify(r["lwork"])) == -1
        room = lambda p: ex.read(st, p.lv).size - p.off if p.off is not None else z3.IntVal(1)
        if query:
            ex.write(st, ex.lv_of_ptr(r["work"], z3.IntVal(0)) if r["work"].off is not None else r["work"].lv, z3.ToReal(v.opt_work))
            if "liwork" in r:
                g("integer workspace query", concrete(z3.simplify(r["liwork"])) == -1)
                ex.write(st, r["iwork"].lv if r["iwork"].off is None else ex.lv_of_ptr(r["iwork"], z3.IntVal(0)), v.opt_iwork)
            g("query for the right dimension", r["n"] == n)
            ex.write(st, a["info"], v.query_info)
            return None
        g("eigenvalues and eigenvectors are requested", r["job"] == ord("V"))
        g("a triangle of the matrix is selected", z3.Or(r["uplo"] == ord("U"), r["uplo"] == ord("L")))
        g("dimension", r["n"] == n)
        g("leading dimension of the matrix", r["lda"] == n)
        if "range" in r:
            g("all eigenvalues are requested", r["range"] == ord("A"))
            g("leading dimension of the eigenvectors", r["ldz"] == n)
            g("room for the eigenvectors", room(r["Z"]) >= n * n)
        g("room for the matrix", room(r["A"]) >= n * n)
        g("room for the eigenvalues", room(r["w"]) >= n)
        g("workspace size as queried", z3.And(r["lwork"] == v.opt_work, room(r["work"]) >= r["lwork"]))
        if "liwork" in r:
            g("integer workspace size as queried", z3.And(r["liwork"] == v.opt_iwork, room(r["iwork"]) >= r["liwork"]))
        elif "iwork" in r:
            g("integer workspace of 5 n", room(r["iwork"]) >= 5 * n)
        if "isupp" in r:
            g("support workspace of 2 n", room(r["isupp"]) >= 2 * n)
        if "ifail" in r:
            g("failure indices of n", room(r["ifail"]) >= n)
        q = z3.Int("q")
        A = ex.read(st, r["A"].lv).data
        Ao = r["A"].off
        i, j = z3.Ints("i j")
        g("a complete copy of the input matrix is passed", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n * n), sel(A, q + Ao) == sel(v.A, q))))
        # effects
        def put(p, arr):
            s = ex.read(st, p.lv)
            k = z3.Int(fresh_name("k"))
            o = p.off
            if concrete(z3.simplify(o)) != 0:
                raise Unsupported("offset")
            ex.write(st, p.lv, Seq(s.elt, s.size, arr, s.kind))
        ok = info == 0
        fresh = lambda: ex.fconst(RA, "clobbered")
        put(r["w"], z3.If(ok, VAL(v.A, n), fresh()))
        if "Z" in r:
            put(r["A"], fresh())
            put(r["Z"], z3.If(ok, VEC(v.A, n), fresh()))
        else:
            put(r["A"], z3.If(ok, VEC(v.A, n), fresh()))
        for w in ("work",):
            put(r[w], fresh())
        for w in ("iwork", "isupp", "ifail"):
            if w in r:
                put(r[w], ex.fconst(z3.ArraySort(Int, Int), "clobbered"))
        if "m" in r:
            ex.write(st, a["m"], z3.If(ok, n, ex.fconst(Int, "m")))
        ex.write(st, a["info"], info)
        return None
    return contract


def decompose_unit(cls, name):
    def run(out):
        u = unit(DRIVER)
        v = V(out, u)
        n = v.nat("n", 1, 2 ** 14)
        info = v.ex.fconst(Int, "info")
        v.query_info = v.ex.fconst(Int, "query_info")
        v.opt_work = v.nat("opt_work", 1, 2 ** 30)
        v.opt_iwork = v.nat("opt_iwork", 1, 2 ** 30)
        v.assume(n * n < 2 ** 31 - 1)
        log = []
        v.ex.contracts[name] = routine(v, name, n, log, info)
        v.ex.contracts["dlamch_"] = lambda ex, st, fn, args, this: ex.fconst(Real, "safe_minimum")
        a, v.A = v.array("A", n * n)
        obj, st, thr = v.construct("especia::" + cls, [n])
        v.goal("a failing workspace query raises an error", st, v.query_info == 0)
        for t in thr:
            pos = t.val.cls.endswith("runtime_error")
            v.goal("construction fails only if the query fails", t.st, v.query_info > 0 if pos else v.query_info < 0)
        v.reachable(st, "constructed")
        z_, Z = v.array("Z", n * n)
        w_, W = v.array("w", n)
        v.st = st
        for c, x in v.st.store.items():
            pass
        v.st.store[z_.cell] = Seq(("real",), n * n, Z, "raw")
        v.st.store[w_.cell] = Seq(("real",), n, W, "raw")
        P = lambda l: Ptr(l, z3.IntVal(0))
        for round in (1, 2):                 # reuse of the workspaces
            x, st, thr = v.call("especia::%s::operator()" % cls, [P(a), P(z_), P(w_)], this=obj)
            i = z3.Int("i")
            v.goal("a failure reported by the library raises an error", st, info == 0)
            v.goal("input matrix unmodified", st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n * n), sel(v.ex.read(st, a).data, i) == sel(v.A, i))))
            v.goal("eigenvalues are delivered", st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), sel(v.ex.read(st, w_).data, i) == z3.Select(VAL(v.A, n), i))))
            v.goal("eigenvectors are delivered", st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n * n), sel(v.ex.read(st, z_).data, i) == z3.Select(VEC(v.A, n), i))))
            v.goal("sizes of the results", st, z3.And(v.ex.read(st, z_).size == n * n, v.ex.read(st, w_).size == n))
            for t in thr:
                pos = t.val.cls.endswith("runtime_error")
                v.goal("errors are raised only for failures", t.st, info > 0 if pos else info < 0)
                v.goal("input matrix unmodified on failure", t.st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n * n), sel(v.ex.read(t.st, a).data, i) == sel(v.A, i))))
            v.reachable(st, "decomposed")
            v.st = st
        v.goal("the library is called", [], len(log) > 4)
        for what, pc, f in log:
            v.goal(what, pc, f)
        v.discharge()
    return run


UNITS = [("D_Decompose", decompose_unit("D_Decompose", "dsyevd_")), ("R_Decompose", decompose_unit("R_Decompose", "dsyevr_")), ("X_Decompose", decompose_unit("X_Decompose", "dsyevx_"))]
