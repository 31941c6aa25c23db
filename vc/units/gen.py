"""One generation of the evolution strategy, from an arbitrary state of the search (C03, C04, C05, C06)."""
from core import *
from units.c12 import loops_of

DRIVER = '''#include "optimize.h"
#include <functional>
using namespace especia;
struct Fn { real operator() (const real x[], natural n) const; };
struct Cn { bool is_violated (const real x[], natural n) const; real cost (const real x[], natural n) const; };
struct Dv { real operator() () const; };
struct Dc { void operator() (real A[], real Z[], real w[]) const; };
struct Tr { bool is_tracing (natural g) const; void trace (natural g, real y, real a, real b) const; };
template void especia::optimize<Fn, Cn, Dv, Dc, std::less<real>, Tr> (const Fn &, const Cn &, natural, natural, natural, const real [], real, real, real, real, real,
  natural, real, natural, natural &, real [], real &, real [], real [], real [], real [], real [], real &, bool &, bool &, const Dv &, const Dc &, const std::less<real> &, const Tr &);
template void especia::optimize<Fn, Cn, Dv, Dc, std::greater<real>, Tr> (const Fn &, const Cn &, natural, natural, natural, const real [], real, real, real, real, real,
  natural, real, natural, natural &, real [], real &, real [], real [], real [], real [], real [], real &, bool &, bool &, const Dv &, const Dc &, const std::greater<real> &, const Tr &);
template void especia::postopti<Fn, Cn> (const Fn &, const Cn &, natural, const real [], const real [], const real [], const real [], real, real []);
'''
RA = z3.ArraySort(Int, Real)
OBJ = ext_function("objective", [RA, Int], Real, [(0, 0, 1)])
COST = ext_function("cost", [RA, Int], Real, [(0, 0, 1)])
EVEC = z3.Function("eigenvectors", RA, RA)
EVAL = z3.Function("eigenvalues", RA, RA)
VIOL = ext_function("violated", [RA, Int], Bool, [(0, 0, 1)])
sqrt, exp = MATH["sqrt"], MATH["exp"]


EV = lambda a, i: sel(EVAL(a), i)
r = lambda x: expr.real_const(float(x))


def arr_of(ex, st, p):
    """contents behind a pointer, shifted to offset 0"""
    s = ex.read(st, p.lv)
    a = s.data
    o = p.off
    if concrete(z3.simplify(o)) == 0:
        return z(a)
    q = z3.Int(fresh_name("q"))
    return z3.Lambda([q], sel(a, q + o))


def disjuncts(h):
    return [y for x in h.children() for y in disjuncts(x)] if z3.is_or(h) else [h]


class Generation:
    def __init__(self, out, cmp, tags):
        self.tags = tags
        self.u = u = unit(DRIVER)
        self.v = v = V(out, u, timeout=4000)
        self.ex = ex = v.ex
        ex.name_arrays = True
        self.cmp = cmp
        self.n = n = v.nat("n", 1, 2 ** 15)
        self.mu = mu = v.nat("mu", 1, 2 ** 20)
        self.lam = lam = v.nat("lambda", 2, 2 ** 21)
        v.assume(z3.And(lam >= 2 * mu, n * n <= 2 ** 30))
        self.fn = v.find("especia::optimize", lambda f: cmp in f["type"]["qualType"])
        self.stop = v.nat("stop", 0, 2 ** 31)
        self.g0 = v.nat("g", 0, 2 ** 31)
        self.init = {}
        self.lv = {}
        self.decomposed = []

        def arr(name, size):
            self.lv[name], self.init[name] = v.array(name, size)
            return Ptr(self.lv[name], z3.IntVal(0))

        def cel(name, val):
            self.lv[name], self.init[name] = v.cell(val, name), val
            return self.lv[name]
        w = arr("w", mu)
        self.W = self.init["w"]
        self.p = p = {x: v.real(x) for x in ("damp", "cs", "cc", "ccov", "acov", "goal")}
        self.um = v.nat("modulus", 1, 2 ** 20)
        self.box = "box" in tags
        if self.box:
            self.lo, self.hi = ex.fconst(RA, "lower"), ex.fconst(RA, "upper")
        objs = [v.cell(Rec(c, {}), c) for c in ("Fn", "Cn")]
        dv, dc, tr = [v.cell(Rec(c, {}), c) for c in ("Dv", "Dc", "Tr")]
        cp = v.cell(Opaque(cmp), "cmp")
        self.last, self.row, self.col = v.cell(v.real("last"), "last"), v.cell(z3.IntVal(0), "row"), v.cell(z3.IntVal(0), "col")
        self.ACC = z3.Function("accepted", Int, Int, Real)
        self.PU, self.PV = (z3.Function(x, Int, Int, Int, Real) for x in ("PU", "PV"))
        g, xw = cel("g", self.g0), arr("xw", n)
        if self.box:
            a, i, k = z3.Const("a_", RA), z3.Int("i_"), z3.Int("k_")
            # contract of the box constraint (proved in its own unit), the start is inside, weights are positive
            v.assume(forall([a, i], z3.Implies(z3.And(z3.Not(VIOL(a, n)), self.rng(i, 0, n)), z3.And(sel(self.lo, i) <= sel(a, i), sel(a, i) <= sel(self.hi, i))), [z3.MultiPattern(VIOL(a, n), sel(a, i))]))
            v.assume(self.inside(self.init["xw"]))
            v.assume(forall([k], z3.Implies(self.rng(k, 0, mu), sel(self.W, k) > 0), [sel(self.W, k)]))
        s, d, B, C, ps, pc = cel("s", v.real("s")), arr("d", n), arr("B", n * n), arr("C", n * n), arr("ps", n), arr("pc", n)
        yw, opt, und = cel("yw", v.real("yw")), cel("opt", z3.BoolVal(False)), cel("und", z3.BoolVal(False))
        self.args = objs + [n, mu, lam, w, p["damp"], p["cs"], p["cc"], p["ccov"], p["acov"], self.um, p["goal"], self.stop, g, xw, s, d, B, C, ps, pc, yw, opt, und, dv, dc, cp, tr]
        ex.opaque.update(self.opaque())
        ex.hooks["sorted"] = self.ranking
        ls = loops_of(u, self.fn)
        if len(ls) < 4 or [x["kind"] for x in ls[1:4]] != ["ForStmt", "ForStmt", "DoStmt"]:
            raise Unsupported("loop structure of the optimizer")
        self.loops = {ls[0]["id"]: self.generations, ls[1]["id"]: self.individuals, ls[2]["id"]: self.coordinates, ls[3]["id"]: self.deviates}
        ex.invariants.append(lambda ex, node, st: self.loops[node["id"]](st) if node.get("id") in self.loops else None)

    # ---- contracts of the arguments
    def opaque(self):
        def fn(f):
            def call(ex, st, args, lv):
                p, n = ex.rv(st, args[0]), ex.rv(st, args[1])
                ex.note_range(st, p, n, "r")
                return f(arr_of(ex, st, p), n)
            return call

        def deviate(ex, st, args, lv):
            z_ = ex.fconst(Real, "deviate")
            ex.write(st, self.last, z_)
            return z_

        def violated(ex, st, args, lv):
            p, n = ex.rv(st, args[0]), ex.rv(st, args[1])
            ex.note_range(st, p, n, "r")
            b = VIOL(arr_of(ex, st, p), n)
            row, col = ex.read(st, self.row), ex.read(st, self.col)
            # prophecy: the deviate accepted for a coordinate of an individual
            st.pc.append(z3.Implies(z3.Not(b), self.ACC(row, col) == ex.read(st, self.last)))
            end = col + 1 == self.n
            ex.write(st, self.row, z3.If(b, row, z3.If(end, row + 1, row)))
            ex.write(st, self.col, z3.If(b, col, z3.If(end, 0, col + 1)))
            return b

        def decompose(ex, st, args, lv):
            A, Z, W = [ex.rv(st, a) for a in args]
            a = arr_of(ex, st, A)
            D = ex.fconst(RA, "decomposed")     # name of the decomposed matrix
            if not ex.dry:
                self.decomposed.append((D, a))
            a = D
            for p, F in ((Z, EVEC), (W, EVAL)):
                if concrete(z3.simplify(p.off)) != 0:
                    raise Unsupported("decompose into the middle of an array")
                old = ex.read(st, p.lv)
                ex.write(st, p.lv, Seq(old.elt, old.size, F(a), old.kind))
            return None
        return {"Fn": {"operator()": fn(OBJ)}, "Cn": {"is_violated": violated, "cost": fn(COST)}, "Dv": {"operator()": deviate},
                "Tr": {"is_tracing": lambda ex, st, args, lv: ex.fconst(Bool, "tracing"), "trace": lambda ex, st, args, lv: None}, "Dc": {"operator()": decompose}}

    def ranking(self, ex, st, first, off, m, N, args):
        """contract of the ranking, stated on named arrays: the values Y of the individuals and the ranked indices I"""
        if concrete(z3.simplify(off)) != 0 or len(args) < 4:
            raise Unsupported("ranking of a part of the population")
        s = ex.read(st, first.lv, False)
        yl = ex.local_lv("y")
        y = ex.read(st, yl, False)
        x = self.loc(st, "x")
        a, b = z3.Ints("a_ b_")
        val = lambda y, a: sel(y, a) == OBJ(sel(x, a), self.n) + COST(sel(x, a), self.n)
        p = ex.fconst(Int, "p")
        if not ex.dry:
            ex.oblige(st, z3.And(N == self.lam, m == self.mu), "goal", "C05: the whole population is ranked for the parents")
            ex.oblige(st, z3.Implies(self.rng(p, 0, N), sel(s.data, p) == p), "goal", "C05: the ranked indices are the individuals")
            ex.oblige(st, z3.Implies(self.rng(p, 0, N), val(y.data, p)), "goal", "C05: an individual has the value of its own point")
        Y, I = ex.fconst(RA, "Y"), ex.fconst(z3.ArraySort(Int, Int), "I")
        inv = ex.ffun("rank", Int, Int)
        ex.write(st, yl, Seq(y.elt, y.size, Y, y.kind), False)
        ex.write(st, first.lv, Seq(s.elt, s.size, I, s.kind), False)
        less = lib.comparator(ex, st, args[3])(sel(I, b), sel(I, a))
        st.pc += [forall([a], z3.Implies(self.rng(a, 0, N), val(Y, a)), [sel(Y, a)]),
                  forall([a], z3.Implies(self.rng(a, 0, N), z3.And(self.rng(sel(I, a), 0, N), inv(sel(I, a)) == a)), [sel(I, a)]),
                  forall([a, b], z3.Implies(z3.And(a >= 0, a < b, a < m, b < N), z3.Not(less)), [z3.MultiPattern(sel(I, a), sel(I, b))])]

    def inside(self, x):
        i = z3.Int("i_")
        return forall([i], z3.Implies(self.rng(i, 0, self.n), z3.And(sel(self.lo, i) <= sel(x, i), sel(x, i) <= sel(self.hi, i))), [sel(x, i)])

    def get(self, st):
        return {k: self.data(st, l) for k, l in self.lv.items()}

    def data(self, st, l):
        x = self.ex.read(st, l)
        return z(x.data) if isinstance(x, Seq) else x

    def loc(self, st, name):
        x = self.ex.local(st, name)
        while isinstance(x, Seq):
            x = x.data
        return z(x)

    def rowsize(self, st, name):
        return z(self.ex.local(st, name).data.size)

    def sizes(self, st):
        """the local work arrays keep their sizes"""
        q = z3.Int("q_")
        f = [self.ex.local(st, x).size == self.n for x in ("uw", "vw")] + [self.ex.local(st, x).size == self.lam for x in ("u", "v", "x")]
        return [("sizes", z3.And(*f))] + [("row sizes of " + x, forall([q], z3.Implies(self.rng(q, 0, self.lam), sel(self.rowsize(st, x), q) == self.n), [sel(self.rowsize(st, x), q)])) for x in "uvx"]

    # ---- invariants
    def generations(self, st0):
        ex = self.ex
        self.calls = 0
        B, d = self.init["B"], self.init["d"]

        def inv(ex, st):
            self.calls += 1
            cur = self.get(st)
            typ = self.sizes(st) + [("range of the generation number", z3.And(cur["g"] >= self.g0, z3.Or(cur["g"] <= self.stop, cur["g"] == self.g0))), ("not finished", z3.Not(z3.Or(cur["opt"], cur["und"])))]
            if self.box:
                typ.append(("centre in the box", self.inside(cur["xw"]))) if self.calls < 3 else None
            if self.calls == 1:
                return typ
            if self.calls == 2:
                self.pre = cur
                self.axioms(cur)
                return typ + [("ghost", z3.And(ex.read(st, self.row) == 0, ex.read(st, self.col) == 0))] + self.ax
            return typ + self.transition(st, cur)
        inv.brk = lambda ex, st: self.at_exit(st)
        if self.box:
            # obligation at the end of the loop: "the centre stays in the box" (or nothing happened)
            inv.known = lambda ex, st: [self.inside(self.get(st)["xw"])]
        return inv

    def axioms(self, cur):
        q, i, t = z3.Ints("q_ i_ t_")
        PU, PV, ACC = self.PU, self.PV, self.ACC
        el = lambda t, i: sel(cur["B"], t * self.n + i)
        self.ax = [("", forall([q, i], z3.And(PU(q, i, 0) == 0), [PU(q, i, 0)])), ("", forall([q, i], PV(q, i, 0) == 0, [PV(q, i, 0)])),
                   ("", forall([q, i, t], z3.Implies(t >= 0, PU(q, i, t + 1) == PU(q, i, t) + ACC(q, t) * (el(t, i) * sel(cur["d"], t))), [PU(q, i, t + 1)])),
                   ("", forall([q, i, t], z3.Implies(t >= 0, PV(q, i, t + 1) == PV(q, i, t) + ACC(q, t) * el(t, i)), [PV(q, i, t + 1)]))]

    def at_exit(self, st):
        cur = self.get(st)
        same = z3.And(*[z(cur[k]) == z(self.pre[k]) for k in cur])
        return [("C04: an iteration is one generation", z3.Or(same, cur["g"] == self.pre["g"] + 1))] + [
            (nm, z3.Implies(cur["g"] != self.pre["g"], f)) for nm, f in self.transition(st, cur, True)]

    def transition(self, st, new, left=False):
        """relation of the states before and after one generation"""
        ex, n, mu, lam, W = self.ex, self.n, self.mu, self.lam, self.W
        old, p = self.pre, self.p
        I, y = self.loc(st, "indexes"), self.loc(st, "y")
        u, v, x = (self.loc(st, nm) for nm in "uvx")
        less = (lambda a, b: a < b) if self.cmp == "less" else (lambda a, b: a > b)
        a, b, i, j = (ex.fconst(Int, nm) for nm in ("p", "q", "i", "j"))
        ra, ri, rj = self.rng(a, 0, lam), self.rng(i, 0, n), self.rng(j, 0, n)
        self.keep = {x.decl().name() for l in [new[k] for k in ("xw", "ps", "d")] + [self.loc(st, x) for x in ("uw", "vw")] for x in walk(l) if z3.is_app(x)}
        out = [("C04: one generation is counted", new["g"] == old["g"] + 1)]
        # sampling
        out += [("C03: every individual satisfies the constraint", z3.Implies(ra, z3.Not(VIOL(sel(x, a), n)))),
                ("C06: the point of an individual is the centre plus the step size times its mutation", z3.Implies(z3.And(ra, ri), sel(sel(x, a), i) == sel(old["xw"], i) + self.PU(a, i, n) * old["s"])),
                ("C06: the mutation is the rotated and scaled sum of the normal deviates", z3.Implies(z3.And(ra, ri), sel(sel(u, a), i) == self.PU(a, i, n))),
                ("C06: the rotation is the rotated sum of the normal deviates", z3.Implies(z3.And(ra, ri), sel(sel(v, a), i) == self.PV(a, i, n))),
                ("C05: an individual has the value of its own point", z3.Implies(ra, sel(y, a) == OBJ(sel(x, a), n) + COST(sel(x, a), n)))]
        # ranking
        rab = z3.And(ra, self.rng(b, 0, lam))
        out += [("C05: ranks refer to individuals", z3.Implies(ra, self.rng(sel(I, a), 0, lam))),
                ("C05: ranks are distinct", z3.Implies(z3.And(rab, a != b), sel(I, a) != sel(I, b))),
                ("C05: the parents are the best individuals in order", z3.Implies(z3.And(a >= 0, a < mu, a < b, b < lam), z3.Not(less(sel(y, sel(I, b)), sel(y, sel(I, a)))))),
                ("C04: underflow means equal values", new["und"] == (sel(y, sel(I, 0)) == sel(y, sel(I, mu))))]
        keep = [k for k in new if k not in ("g", "und")]
        if left:
            out += [("C04: an underflow leaves the state of the search", z3.Implies(new["und"], z3.And(*[z(new[k]) == z(old[k]) for k in keep])))]
        go = z3.Not(new["und"])
        
        def upd(nm, f):
            if nm[:3] not in self.tags:
                return
            if z3.is_implies(f):
                ctx = State({}, st.pc + prove.flatten([go, f.arg(0)]))
                f = z3.Implies(f.arg(0), self.prune(self.unfold(f.arg(1)), ctx))
            out.append((nm, z3.Implies(go, f)))
        ws = SUMF(lambda k: sel(W, k), 0, mu)
        mean = lambda A, i: SUMF(lambda k: sel(W, k) * sel(sel(A, sel(I, k)), i), 0, mu) / ws
        cw = ws / sqrt(SUMF(lambda k: sel(W, k) * sel(W, k), 0, mu))
        upd("C05: the new centre is the weighted mean of the parents", z3.Implies(ri, sel(new["xw"], i) == mean(x, i)))
        if self.box:
            k = ex.fconst(Int, "k")
            m, X = mean(x, i), sel(sel(x, sel(I, k)), i)
            lo, hi = sel(self.lo, i), sel(self.hi, i)
            # lemma weighted_mean (Lean): a mean with positive weights lies between the bounds of all values; k is a value outside, if there is one
            lem = z3.Or(z3.And(self.rng(k, 0, mu), z3.Not(z3.And(sel(W, k) > 0, lo <= X, X <= hi))), z3.And(lo <= m, m <= hi))
            ctr = sel(new["xw"], i)
            G = z3.Implies(ri, ctr == m)
            out.append(("C03: the new centre is the weighted mean of the parents", z3.Implies(go, z3.Implies(ri, self.prune(self.unfold(ctr == m), State({}, st.pc + prove.flatten([go, ri])))))))
            out.append(("C03: the centre stays in the box", z3.Implies(z3.And(ri, lem, z3.Implies(go, G), z3.Implies(new["und"], new["xw"] == old["xw"])), z3.And(lo <= ctr, ctr <= hi))))
        # adaptation
        cov = z3.Or(p["acov"] > 0, p["ccov"] > 0)
        ccu, csu = sqrt(p["cc"] * (2 - p["cc"])), sqrt(p["cs"] * (2 - p["cs"]))
        upd("C06: cumulation path of the covariance", z3.Implies(ri, sel(new["pc"], i) == z3.If(cov, (1 - p["cc"]) * sel(old["pc"], i) + ccu * cw * mean(u, i), sel(old["pc"], i))))
        refresh = z3.And(cov, new["g"] % self.um == 0)
        ij = i + j * n
        zz = SUMF(lambda k: sel(W, k) * (sel(sel(u, sel(I, k)), i) * sel(sel(u, sel(I, k)), j)), 0, mu)
        c0 = sel(old["C"], ij)
        c1 = c0 + p["acov"] * (sel(new["pc"], i) * sel(new["pc"], j) - c0) + p["ccov"] * (zz / ws - c0)
        upper = z3.And(ri, rj, i <= j)
        maxc = expr.real_const(0.01) * 2 ** 52
        ii = [(i + i * n, i)]
        every = new["g"] % self.um == 0
        cases = [("no adaptation", z3.Not(cov)), ("adaptation", z3.And(cov, z3.Not(every)))]
        low = z3.RealVal(0)
        A = self.decomposed
        if A:
            a_, made = A[-1]
            t = EV(a_, n - 1) / maxc - EV(a_, 0)
            low = z3.If(t > 0, t, 0)
            cases += [("refresh, well conditioned", z3.And(cov, every, z3.Not(t > 0))), ("refresh, ill conditioned", z3.And(cov, every, t > 0))]
        else:
            cases += [("refresh", z3.And(cov, every))]

        def split(nm, cond, f, pairs, only=""):
            for c, g in cases if nm[:3] in self.tags else []:
                if c.startswith(only):
                    out.append((nm + " (" + c + ")", self.fix(st, z3.And(go, g, cond), f, pairs)))
        diag = z3.substitute(c1, (j, i))
        split("C06: covariance matrix, off the diagonal", z3.And(upper, i != j), sel(new["C"], ij) == z3.If(cov, c1, c0), [(ij, j)])
        split("C06: diagonal of the covariance matrix", ri, sel(new["C"], i + i * n) == z3.If(cov, z3.If(every, diag + low, diag), z3.substitute(c0, (j, i))), ii)
        upd("C06: axes and local steps are kept between refreshes", z3.Implies(z3.Not(refresh), z3.And(new["B"] == old["B"], new["d"] == old["d"])))
        if A:
            split("C06: the decomposed matrix is the covariance matrix, off the diagonal", z3.And(upper, i != j), sel(made, ij) == c1, [(ij, j)], "refresh")
            split("C06: the decomposed matrix is the covariance matrix, diagonal", ri, sel(made, i + i * n) == diag, ii, "refresh")
            upd("C06: axes when refreshed", z3.Implies(refresh, new["B"] == EVEC(a_)))
            upd("C06: local steps are the square roots of the limited eigenvalues", z3.Implies(z3.And(refresh, ri), sel(new["d"], i) == sqrt(EV(a_, i) + low)))
        upd("C06: cumulation path of the step size", z3.Implies(ri, sel(new["ps"], i) == (1 - p["cs"]) * sel(old["ps"], i) + csu * cw * mean(v, i)))
        rn = z3.ToReal(n)
        en = (rn - r(0.25) + 1 / (21 * rn)) / sqrt(rn)
        len_ = sqrt(SUMF(lambda k: sel(new["ps"], k) * sel(new["ps"], k), 0, n))
        upd("C06: global step size", new["s"] == old["s"] * exp(p["cs"] / p["damp"] * (len_ / en - 1)))
        ok = lambda i: new["s"] * new["s"] * sel(new["C"], i * (n + 1)) < p["goal"] * sel(new["xw"], i) * (p["goal"] * sel(new["xw"], i)) + 1 / maxc
        # what the loop over the parameters has established for parameter i
        known = []
        for h in prove.flatten(st.pc):
            ds = disjuncts(h)
            qs = [d for d in ds if z3.is_quantifier(d) and d.is_forall() and d.num_vars() == 1]
            if len(qs) == 1 and any(z3.is_app(x) and x.decl().eq(exp.decl() if hasattr(exp, "decl") else exp) for x in walk(qs[0].body())):
                known.append(z3.Or(*[z3.substitute_vars(d.body(), i) if d.eq(qs[0]) else d for d in ds]))
        split("C06: converged only if every standard deviation is within the goal", z3.And(new["opt"], ri), z3.Implies(z3.And(*known), ok(i)), ii)
        q = z3.Int("q_")
        if left:
            upd("C06: a generation that ends the search has converged", new["opt"])
        else:
            upd("C06: converged if every standard deviation is within the goal", z3.Implies(forall([q], z3.Implies(self.rng(q, 0, n), ok(q))), new["opt"]))
        self.i, self.j = i, j
        return out

    def unfold(self, f, keep=()):
        """replaces the elements of named arrays (written by the loops) by their definitions"""
        for _ in range(40):
            rep = {}
            for t in walk(f):
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and not has_var(t):
                    a = t.arg(0)
                    if is_lambda(a):
                        rep[t.get_id()] = (t, sel(a, t.arg(1)))
                    elif a.decl().kind() == z3.Z3_OP_ITE:
                        rep[t.get_id()] = (t, z3.If(a.arg(0), z3.Select(a.arg(1), t.arg(1)), z3.Select(a.arg(2), t.arg(1))))
                    elif a.decl().name() in self.ex.named and a.decl().name() not in keep:
                        rep[t.get_id()] = (t, sel(self.ex.named[a.decl().name()], t.arg(1)))
            if not rep:
                return f
            f = z3.substitute(f, *rep.values())
        return f

    def prune(self, f, ctx):
        """decides the conditions of the case distinctions in f that follow from the context"""
        known = {}
        for _ in range(40):
            rep = {}
            for t in walk(f):
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not has_var(t):
                    c = t.arg(0)
                    if c.get_id() not in known:
                        known[c.get_id()] = (c, True if self.ex.provable(ctx, c, 200) else False if self.ex.provable(ctx, mknot(c), 200) else None)
                    d = known[c.get_id()][1]
                    if d is not None:
                        rep[t.get_id()] = (t, t.arg(1) if d else t.arg(2))
            if not rep:
                return f
            f = z3.substitute(f, *rep.values())
        return f

    def fix(self, st, cond, f, pairs):
        """cond => f, after the iteration k that writes the array element q is made explicit, for the (q, k) in pairs"""
        ex = self.ex
        f = self.unfold(f, self.keep)
        ctx = State({}, st.pc + prove.flatten([cond]))
        f = self.prune(f, ctx)
        hs = []
        for h in prove.flatten(st.pc + ex.facts):
            ds = disjuncts(h)
            qs = [d for d in ds if z3.is_quantifier(d) and d.is_forall() and d.num_vars() == 2]
            if len(qs) == 1 and any(z3.is_app(x) and x.decl().name().startswith("inv!") for x in walk(qs[0].body())) and all(ex.provable(ctx, mknot(d), 200) for d in ds if not d.eq(qs[0])):
                hs.append(qs[0])
        lem = []
        for _ in range(3):
            rep = {}
            for t in walk(f):
                if not (z3.is_app(t) and t.decl().name().startswith("inv!") and t.num_args() == 1) or has_var(t) or t.get_id() in rep:
                    continue
                for q, k in pairs:
                    if not Norm().eq(t.arg(0), q):
                        continue
                    done = False
                    for h in hs:
                        if not any(x.decl().eq(t.decl()) for x in walk(h.body()) if z3.is_app(x)):
                            continue
                        b = z3.substitute_vars(h.body(), *reversed([k, t.arg(0)]))
                        if z3.is_implies(b) and z3.is_eq(b.arg(1)) and b.arg(1).arg(0).eq(t) and b.arg(1).arg(1).eq(k) and ex.provable(ctx, z3.simplify(b.arg(0), som=True), 1000):
                            rep[t.get_id()] = (t, k)
                            done = True
                    if not done:
                        # an element off the diagonal is not on the diagonal
                        i, j = z3.simplify(q - k * self.n), k
                        lem.append(z3.Implies(z3.And(self.rng(i, 0, self.n), self.rng(t, 0, self.n), i + j * self.n == t + t * self.n), z3.And(i == t, j == t)))
                        lem.append(z3.Implies(z3.And(self.rng(i, 0, self.n), self.rng(t, 0, self.n), i + j * self.n == t * (self.n + 1)), z3.And(i == t, j == t)))
            if not rep:
                break
            f = self.prune(z3.substitute(f, *rep.values()), ctx)
        return z3.Implies(z3.And(cond, *lem), f)

    def rng(self, x, a, b):
        return z3.And(x >= a, x < b)

    def individuals(self, st0):
        q, i = z3.Ints("q_ i_")
        n, lam = self.n, self.lam

        def inv(ex, st):
            k, u, v, x = (self.loc(st, nm) for nm in ("k", "u", "v", "x"))
            self.rows = dict(u=u, v=v, x=x)
            xw, s = self.pre["xw"], self.pre["s"]
            w = self.rng(q, 0, k)
            wi = z3.And(w, self.rng(i, 0, n))
            return self.sizes(st) + [("range of k", z3.And(k >= 0, k <= lam)), ("ghost", z3.And(ex.read(st, self.row) == k, ex.read(st, self.col) == 0)),
                    ("sampled step", forall([q, i], z3.Implies(wi, sel(sel(u, q), i) == self.PU(q, i, n)), [sel(sel(u, q), i)])),
                    ("sampled rotation", forall([q, i], z3.Implies(wi, sel(sel(v, q), i) == self.PV(q, i, n)), [sel(sel(v, q), i)])),
                    ("sampled point", forall([q, i], z3.Implies(wi, sel(sel(x, q), i) == sel(xw, i) + self.PU(q, i, n) * s), [sel(sel(x, q), i)])),
                    ("constraint", forall([q], z3.Implies(w, z3.Not(VIOL(sel(x, q), n))), [sel(x, q)]))]
        return inv

    def coordinates(self, st0):
        q, i = z3.Ints("q_ i_")
        n = self.n
        k = self.loc(st0, "k")
        old = {x: self.loc(st0, x) for x in "uvx"}

        def inv(ex, st):
            j, nj, uw, vw, u, v, x = (self.loc(st, nm) for nm in ("j", "nj", "uw", "vw", "u", "v", "x"))
            xw, s = self.pre["xw"], self.pre["s"]
            row, col = ex.read(st, self.row), ex.read(st, self.col)
            w = self.rng(i, 0, n)
            own = lambda nm, a, f: (nm, forall([i], z3.Implies(z3.And(w, j > 0), sel(sel(a, k), i) == f(i)), [sel(sel(a, k), i)]))
            return self.sizes(st) + [("range of j", z3.And(j >= 0, j <= n, nj == j * n)),
                    ("ghost", z3.If(j == n, z3.And(row == k + 1, col == 0), z3.And(row == k, col == j))),
                    ("step so far", forall([i], z3.Implies(w, sel(uw, i) == self.PU(k, i, j)), [sel(uw, i)])),
                    ("rotation so far", forall([i], z3.Implies(w, sel(vw, i) == self.PV(k, i, j)), [sel(vw, i)])),
                    own("step of the individual", u, lambda i: self.PU(k, i, j)), own("rotation of the individual", v, lambda i: self.PV(k, i, j)),
                    own("point of the individual", x, lambda i: sel(xw, i) + self.PU(k, i, j) * s),
                    ("constraint of the individual", z3.Implies(j > 0, z3.Not(VIOL(sel(x, k), n))))] + [
                    ("other rows of " + nm, forall([q], z3.Implies(q != k, sel(a, q) == sel(old[nm], q)), [sel(a, q)])) for nm, a in (("u", u), ("v", v), ("x", x))]
        return inv

    def deviates(self, st0):
        q = z3.Int("q_")
        k = self.loc(st0, "k")
        old = {x: self.loc(st0, x) for x in "uvx"}
        row0, col0 = self.ex.read(st0, self.row), self.ex.read(st0, self.col)

        def inv(ex, st):
            return self.sizes(st) + [("ghost", z3.And(ex.read(st, self.row) == row0, ex.read(st, self.col) == col0))] + [
                    ("other rows of " + nm, forall([q], z3.Implies(q != k, sel(self.loc(st, nm), q) == sel(old[nm], q)), [sel(self.loc(st, nm), q)])) for nm in "uvx"]
        return inv

    def run(self):
        return self.v.call(self.fn, self.args)


def generation(cmp, tags):
    def run(out):
        G = Generation(out, cmp, tags)
        _, st, thr = G.run()
        v, cur = G.v, G.get(st)
        v.goal("C04: the reported value is the objective plus the cost of the constraint at the reported point", st, cur["yw"] == OBJ(cur["xw"], G.n) + COST(cur["xw"], G.n))
        v.goal("C04: a search that is neither optimized nor underflown has used up its generations", st, z3.Or(cur["opt"], cur["und"], cur["g"] >= G.stop))
        v.goal("C04: the stop generation is not exceeded", st, z3.Or(cur["g"] <= G.stop, cur["g"] == G.g0))
        v.goal("C04: no error", [], not thr)
        v.reachable(st, "the end of the search")
        # obligations of another property are left to its own check; those without a mark support every property
        import re
        tag = re.compile(r"C\d\d: ")
        v.discharge(only=lambda o: not tag.search(o.name) or any(t + ": " in o.name for t in tags))
    return run


def box(cmp):
    """the centre stays in a box"""
    def run(out):
        G = Generation(out, cmp, ("C03", "box"))
        _, st, thr = G.run()
        v, cur = G.v, G.get(st)
        i = G.ex.fconst(Int, "i")
        v.goal("C03: the result lies in the box", st, z3.Implies(G.rng(i, 0, G.n), z3.And(sel(G.lo, i) <= sel(cur["xw"], i), sel(cur["xw"], i) <= sel(G.hi, i))))
        v.reachable(st, "the end of the search")
        v.discharge(only=lambda o: "C03: the" in o.name or "box" in o.name or "one generation" in o.name or o.kind == "vacuity")
    return run


def units(*tags):
    return [("generation (%s)" % c, generation(c, tags)) for c in ("less", "greater")]


UNITS = units("C03", "C04", "C05", "C06")
