"""The optimizer object: what is handed to the search and what is reported from it (C03, C04, C05, C06, C07, C08, C24)."""
from core import *

DRIVER = '''#include "optimizer.h"
#include "core/optimizer.cxx"
#include <functional>
using namespace especia;
struct Fn { real operator() (const real x[], natural n) const; };
struct Cn { bool is_violated (const real x[], natural n) const; real cost (const real x[], natural n) const; };
struct Tr { bool is_tracing (natural g) const; void trace (natural g, real y, real a, real b) const; };
namespace drv {
Optimizer::Result minimize3 (const Optimizer &o, const Fn &f, const std::valarray<real> &x, const std::valarray<real> &d, real s, const Cn &c, const Tr &t) { return o.minimize (f, x, d, s, c, t); }
Optimizer::Result maximize3 (const Optimizer &o, const Fn &f, const std::valarray<real> &x, const std::valarray<real> &d, real s, const Cn &c, const Tr &t) { return o.maximize (f, x, d, s, c, t); }
Optimizer::Result minimize1 (const Optimizer &o, const Fn &f, const std::valarray<real> &x, const std::valarray<real> &d, real s) { return o.minimize (f, x, d, s); }
Optimizer::Result maximize1 (const Optimizer &o, const Fn &f, const std::valarray<real> &x, const std::valarray<real> &d, real s) { return o.maximize (f, x, d, s); }
}
'''
R = "especia::Optimizer::Result::"
OPAQUE = ("Normal_Deviate<especia::Melg19937_64>", "Decompose", "D_Decompose", "R_Decompose", "X_Decompose")
PARAMS = ("f", "constraint", "n", "parents", "population", "weights", "damping", "cs", "cc", "ccov", "acov", "modulus", "goal", "stop", "g", "xw", "s", "d", "B", "C", "ps", "pc", "yw", "optimized",
          "underflow", "deviate", "decompose", "compare", "tracer")
ARRAYS = ("xw", "d", "B", "C", "ps", "pc")
SCALARS = ("g", "s", "yw", "optimized", "underflow")
FAILS = z3.Bools("search_fails estimate_fails")
GET = dict(xw="get_parameter_values", d="get_local_step_sizes", B="get_rotation_matrix", C="get_covariance_matrix", ps="get_step_size_cumulation_path", pc="get_distribution_cumulation_path",
           g="get_generation_number", s="get_global_step_size", yw="get_fitness", optimized="is_optimized", underflow="is_underflow")


def member(entry, tags):
    full, cmp = entry.endswith("3"), "less" if entry.startswith("min") else "greater"

    def run(out):
        u = unit(DRIVER)
        v = V(out, u, opaque={"especia::" + c: {} for c in OPAQUE}, timeout=8000)
        ex = v.ex
        o = v.obj("especia::Optimizer", "optimizer")
        cfg = lambda f: ex.read(v.st, o.fld("config").fld(f), False)
        n = cfg("n")
        v.assume(z3.And(n >= 1, n < 2 ** 15, cfg("parent_number") >= 1, cfg("parent_number") < 2 ** 30, cfg("weights").size == cfg("parent_number")))
        f, c, t = [v.cell(Rec(k, {}), k) for k in ("Fn", "Cn", "Tr")]
        x, X = v.array("x", n, kind="valarray")
        d, D = v.array("d", n, kind="valarray")
        s = v.real("s")
        got, post, outp = [], [], {}

        def deref(st, a):
            if isinstance(a, Ptr):
                if concrete(z3.simplify(a.off)) != 0:
                    raise Unsupported("pointer into the middle of an array")
                y = ex.read(st, a.lv, False)
                return z(y.data), y.size
            y = ex.read(st, a, False) if isinstance(a, LV) else a
            return y, None

        def search(ex, st, fn, args, this):
            if len(args) != len(PARAMS):
                raise Unsupported("interface of the search")
            a = dict(zip(PARAMS, args))
            types = fn["type"]["qualType"]
            got.append((st.fork(), a, types, {k: deref(st, a[k]) for k in ARRAYS + SCALARS + ("weights",)}, {k: ex.rv(st, a[k]) for k in ("n", "parents", "population", "damping", "cs", "cc", "ccov", "acov", "modulus", "goal", "stop")}))
            for k in ARRAYS:
                y = ex.read(st, a[k].lv, False)
                outp[k] = ex.fconst(z(y.data).sort(), "final." + k)
                ex.write(st, a[k].lv, Seq(y.elt, y.size, outp[k], y.kind), False)
            for k in SCALARS:
                outp[k] = ex.fconst(z(ex.read(st, a[k])).sort(), "final." + k)
                ex.write(st, a[k], outp[k])
            if "C24" in tags:
                ex.maythrow(st, FAILS[0], Rec("?", {"id": z3.IntVal(1)}))
            return None

        def uncertainties(ex, st, fn, args, this):
            if len(args) != 9:
                raise Unsupported("interface of the uncertainty estimate")
            f, c, n, x, d, B, C, s, zz = args
            post.append((st.fork(), f, c, ex.rv(st, n), [deref(st, y)[0] for y in (x, d, B, C)], ex.rv(st, s), deref(st, zz)[1]))
            y = ex.read(st, zz.lv, False)
            outp["z"] = ex.fconst(z(y.data).sort(), "final.z")
            ex.write(st, zz.lv, Seq(y.elt, y.size, outp["z"], y.kind), False)
            if "C24" in tags:
                ex.maythrow(st, FAILS[1], Rec("?", {"id": z3.IntVal(2)}))
            return None
        v.ex.contracts.update({"especia::optimize": search, "especia::postopti": uncertainties})
        res, st, thr = v.call("drv::" + entry, [o, f, x, d, s] + ([c, t] if full else []))
        if "C24" in tags:
            v.goal("C24: an error of the search reaches the caller", st, z3.Not(FAILS[0]))
            v.goal("C24: an error of the uncertainty estimate reaches the caller", st, z3.Implies(outp["optimized"], z3.Not(FAILS[1])))
            for e in thr:
                y = e.val.f.get("id") if isinstance(e.val, Rec) else None
                v.goal("C24: the error is the one raised", e.st, z3.Or(z3.And(FAILS[0], y == 1), z3.And(FAILS[1], y == 2)) if y is not None else z3.BoolVal(False))
            v.reachable(st, "end")
            return v.discharge(only=lambda o: "C24" in o.name)
        v.goal("C04: no error", [], not thr)
        v.goal("C04: one search", [], len(got) == 1)
        v.goal("C04: uncertainties in one place", [], len(post) == 1)
        st1, a, types, mem, val = got[0]
        i, j = ex.fconst(Int, "i"), ex.fconst(Int, "j")
        ri = z3.And(i >= 0, i < n)
        G = lambda nm, g, hyps=st1: v.goal(nm, hyps, g)
        same = lambda l, m: isinstance(l, LV) and l.same(m)
        # ---- what the search is given
        G("C04: the objective is the given one", same(a["f"], f))
        if full:
            G("C03: the constraint is the given one", same(a["constraint"], c))
        G("C05: fitness is compared in the requested direction", ("std::%s<" % cmp) in types)
        for k, fld in (("n", "n"), ("parents", "parent_number"), ("population", "population_size"), ("damping", "step_size_damping"), ("cs", "cs"), ("cc", "cc"), ("acov", "acov"), ("ccov", "ccov"),
                       ("modulus", "update_modulus"), ("goal", "accuracy_goal"), ("stop", "stop_generation")):
            G("C08: the search is given the configured " + fld, z(val[k]) == cfg(fld))
        G("C08: the search is given the configured weights", z3.And(z3.Implies(z3.And(i >= 0, i < val["parents"]), sel(mem["weights"][0], i) == sel(cfg("weights").data, i)), mem["weights"][1] == cfg("weights").size))
        G("C08: the search uses the seeded deviates of the optimizer", same(a["deviate"], o.fld("deviate")))
        G("C06: the search uses the eigenvalue decomposition of the optimizer", same(a["decompose"], o.fld("decompose")))
        start = dict(xw=sel(X, i), d=sel(D, i), ps=z3.RealVal(0), pc=z3.RealVal(0))
        for k, e in start.items():
            G("C06: start value of " + k, z3.And(z3.Implies(ri, sel(mem[k][0], i) == e), mem[k][1] == n))
        rij = z3.And(ri, j >= 0, j < n)
        lem = z3.And(*[z3.Implies(z3.And(i != j, i >= 0, i < n, j >= 0, j < n, q >= 0, q < n), i + j * n != q * (n + 1)) for q in [ex.fconst(Int, "q")]])
        G("C06: start value of the global step size", mem["s"][0] == s)
        G("C06: sizes of the matrices", z3.And(mem["B"][1] == n * n, mem["C"][1] == n * n))
        G("C06: rotation starts as the identity, diagonal", z3.Implies(ri, sel(mem["B"][0], i + i * n) == 1))
        G("C06: covariance starts as the squares of the local steps, diagonal", z3.Implies(ri, sel(mem["C"][0], i + i * n) == sel(D, i) * sel(D, i)))
        off = lambda m, i, j: z3.Implies(z3.And(rij, i != j), sel(mem[m][0], i + j * n) == 0)
        for m, nm in (("B", "rotation starts as the identity"), ("C", "covariance starts as the squares of the local steps")):
            g = off(m, i, j)
            lems = []
            for tt in walk(g):
                if z3.is_app(tt) and tt.decl().name().startswith("inv!") and not has_var(tt):
                    lems.append(z3.Implies(z3.And(rij, tt >= 0, tt < n, z3.Or(i + j * n == tt * (n + 1), i + j * n == tt + tt * n)), z3.And(i == tt, j == tt)))
            v.goal("C06: %s, off the diagonal" % nm, st1, z3.Implies(z3.And(*lems), g))
            for l in lems:
                v.goal("C06: lemma: an element off the diagonal is not on the diagonal", [n >= 1], l)
        G("C04: counting starts with no generation", mem["g"][0] == 0)
        # ---- the uncertainties
        st2, f2, c2, n2, arrs, s2, size = post[0]
        G("C04: uncertainties belong to the objective and constraint of the search", z3.BoolVal(same(f2, f) and (not full or same(c2, c))))
        G("C04: uncertainties are computed for an optimized result only", outp["optimized"], st2)
        G("C07: uncertainties belong to the final state", z3.And(n2 == n, size == n, s2 == outp["s"], *[y == outp[k] for y, k in zip(arrs, ("xw", "d", "B", "C"))]), st2)
        # ---- what is reported
        rr = v.cell(res, "result") if not isinstance(res, LV) else res
        if not isinstance(res, LV):
            st.store[rr.cell] = v.st.store[rr.cell]
        v.st = st
        for k, g in GET.items():
            y, s3, th = v.call(R + g, [], this=rr)
            y = ex.read(s3, y) if isinstance(y, LV) else y
            if isinstance(y, Seq):
                v.goal("C04: reported " + g[4:], s3, z3.And(z3.Implies(z3.And(i >= 0, i < y.size), sel(y.data, i) == sel(outp[k], i)), y.size == (n * n if k in "BC" else n)))
            else:
                v.goal("C04: reported " + k, s3, z(y) == outp[k])
        y, s3, th = v.call(R + "get_parameter_uncertainties", [], this=rr)
        y = ex.read(s3, y) if isinstance(y, LV) else y
        v.goal("C04: reported uncertainties", s3, z3.And(y.size == n, z3.Implies(z3.And(ri, outp["optimized"]), sel(y.data, i) == sel(outp["z"], i)), z3.Implies(z3.And(ri, z3.Not(outp["optimized"])), sel(y.data, i) == 0)))
        v.reachable(st, "end")
        # obligations of another property are left to its own check; those without a mark support every property
        import re
        tag = re.compile(r"C\d\d: ")
        v.discharge(only=lambda o: not tag.search(o.name) or any(t + ": " in o.name for t in tags))
    return run


ENTRIES = ("minimize3", "maximize3", "minimize1", "maximize1")


def units(*tags):
    return [("Optimizer::" + e, member(e, tags)) for e in ENTRIES]


UNITS = units("C03", "C04", "C05", "C06", "C07", "C08")
