"""C12: the background continuum."""
from core import *

DRIVER = '''#include <algorithm>
#include <cmath>
#include <cstddef>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <valarray>
#include <vector>
#include <sstream>
#include <iomanip>
#include "base.h"
#include "core/section.cxx"
struct Tau { especia::real operator() (especia::real x) const; };
inline void drive (especia::Section &s, const Tau &tau, especia::real r, especia::natural m) { s.cost (tau, r, m); s.apply (m, r, tau); }
'''
S = "especia::Section"
RA = z3.ArraySort(Int, Real)
sqrt = MATH["sqrt"]


def section(v, nmax=2 ** 30, nmin=0):
    """a section whose arrays have the size it states"""
    obj = v.obj(S)
    rec = v.st.store[obj.cell]
    n = rec.f["n"]
    f = dict(rec.f)
    for k, x in f.items():
        if isinstance(x, Seq):
            f[k] = Seq(x.elt, n, x.data, x.kind)
    v.st.store[obj.cell] = Rec(rec.cls, f)
    v.assume(z3.And(n >= nmin, n <= nmax))
    return obj, n, {k: (x.data if isinstance(x, Seq) else x) for k, x in f.items()}


def vec(v, n, name):
    l, a = v.array(name, n, kind="valarray")
    return l, a



def loops_of(u, fn):
    """for loops of a function in source order"""
    out = []

    def walk(n):
        if not isinstance(n, dict):
            return
        if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            out.append(n)
        for c in n.get("inner", ()):
            walk(c)
    walk(u.body(fn))
    return out


class Spec:
    """recursive definitions of the normal equations, their Cholesky decomposition and its solution"""
    def __init__(self, v, n, F, cat):
        f = lambda nm, k: z3.Function(nm, *([Int] * k + [Real]))
        self.LEG, self.AP, self.BP = f("LEG", 2), f("AP", 3), f("BP", 2)
        self.L, self.DOT, self.Y, self.DY, self.X, self.DX, self.CP = f("CHOL", 2), f("DOT", 3), f("Y", 1), f("DY", 2), f("X", 1), f("DX", 2), f("CP", 2)
        self.m = m = v.nat("m", 1, 2 ** 15)
        self.n = n
        wav, unc, flx, msk = (F[k] for k in ("wav", "unc", "flx", "msk"))
        i, j, k, t = z3.Ints("i_ j_ k_ t_")
        A = lambda j, k: self.AP(j, k, n)
        self.A, self.B = A, lambda j: self.BP(j, n)
        w0, w1 = sel(wav, z3.IntVal(0)), sel(wav, n - 1)
        p = lambda i: sel(cat, i) / (sel(unc, i) * sel(unc, i))
        LEG, AP, BP, L, DOT, Y, DY, X, DX, CP = self.LEG, self.AP, self.BP, self.L, self.DOT, self.Y, self.DY, self.X, self.DX, self.CP
        all_ = lambda vs, f, pats=None: forall(vs, f, pats or [])
        self.S = lambda p, q: A(p, q) - DOT(p, q, p)
        ax = [
            all_([i], LEG(0, i) == 1, [LEG(0, i)]),
            all_([i], LEG(1, i) == 2 * (sel(wav, i) - w0) / (w1 - w0) - 1, [LEG(1, i)]),
            all_([j, i], z3.Implies(j >= 1, LEG(j + 1, i) == (z3.ToReal(2 * j + 1) * LEG(1, i) * LEG(j, i) - z3.ToReal(j) * LEG(j - 1, i)) / z3.ToReal(j + 1)), [LEG(j + 1, i)]),
            all_([j, k], AP(j, k, 0) == 0, [AP(j, k, 0)]),
            all_([j, k, t], z3.Implies(t >= 0, AP(j, k, t + 1) == AP(j, k, t) + z3.If(sel(msk, t), sel(cat, t) * p(t) * LEG(j, t) * LEG(k, t), 0)), [AP(j, k, t + 1)]),
            all_([j], BP(j, 0) == 0, [BP(j, 0)]),
            all_([j, t], z3.Implies(t >= 0, BP(j, t + 1) == BP(j, t) + z3.If(sel(msk, t), sel(flx, t) * p(t) * LEG(j, t), 0)), [BP(j, t + 1)]),
            all_([j, k], DOT(j, k, 0) == 0, [DOT(j, k, 0)]),
            all_([j, k, t], z3.Implies(t >= 0, DOT(j, k, t + 1) == DOT(j, k, t) + L(j, t) * L(k, t)), [DOT(j, k, t + 1)]),
            all_([j], z3.Implies(j >= 0, L(j, j) == sqrt(self.S(j, j))), [L(j, j)]),
            all_([j, k], z3.Implies(z3.And(j >= 0, k > j), L(k, j) == self.S(j, k) / L(j, j)), [L(k, j)]),
            all_([j], DY(j, 0) == 0, [DY(j, 0)]),
            all_([j, t], z3.Implies(t >= 0, DY(j, t + 1) == DY(j, t) + L(j, t) * Y(t)), [DY(j, t + 1)]),
            all_([j], z3.Implies(j >= 0, Y(j) == (self.B(j) - DY(j, j)) / L(j, j)), [Y(j)]),
            all_([j], DX(j, j + 1) == 0, [DX(j, j + 1)]),
            all_([j, t], z3.Implies(t > j, DX(j, t + 1) == DX(j, t) + L(t, j) * X(t)), [DX(j, t + 1)]),
            all_([j], z3.Implies(z3.And(j >= 0, j < m), X(j) == (Y(j) - DX(j, m)) / L(j, j)), [X(j)]),
            all_([i], CP(1, i) == X(0), [CP(1, i)]),
            all_([t, i], z3.Implies(t >= 1, CP(t + 1, i) == CP(t, i) + X(t) * LEG(t, i)), [CP(t + 1, i)]),
        ]
        for a in ax:
            v.assume(a)


def general_unit(out):
    u = unit(DRIVER)
    v = V(out, u, timeout=8000)
    ex = v.ex
    obj, n, F = section(v, nmin=2)
    cat, C = vec(v, n, "cat")
    cfl, _ = vec(v, n, "cfl")
    sp = Spec(v, n, F, C)
    m = sp.m
    fn = v.find(S + "::continuum")
    ls = loops_of(u, fn)
    if len(ls) != 13:
        raise Unsupported("loop structure")
    at = {id(l): i for i, l in enumerate(ls)}
    at2 = {l["id"]: i for i, l in enumerate(ls)}
    q, r, t = z3.Ints("q_ r_ t_")

    def loc(ex, st, nm):
        return ex.local(st, nm)

    def el(s, *ix):
        d = s.data
        for k, i in enumerate(ix):
            if isinstance(d, Seq):
                d = d.data
            d = sel(d, i)
            if k == 0 and len(ix) > 1 and isinstance(s.data, Seq):
                pass
        return d

    def el2(s, i, j):
        return sel(sel(s.data.data, i), j)

    def sz2(s, i):
        return sel(s.data.size, i)

    def shape(ex, st, nm, rows, cols):
        s = loc(ex, st, nm)
        return [("shape of " + nm, z3.And(s.size == rows, forall([q], z3.Implies(z3.And(q >= 0, q < rows), sz2(s, q) == cols))))]

    rng = lambda x, a, b: z3.And(x >= a, x < b)

    def basis(ex, st, top):
        l = loc(ex, st, "l")
        return [("basis polynomials", forall([q, r], z3.Implies(z3.And(q >= 0, q <= top, rng(r, 0, n)), el2(l, q, r) == sp.LEG(q, r)), pats=[el2(l, q, r)]))]

    def matrix(ex, st, done_j, done_k):
        """rows below done_j complete, row done_j up to done_k; everything else zero"""
        a = loc(ex, st, "a")
        fin = lambda q, r: z3.And(q >= 0, r >= q, r < m, z3.Or(q < done_j, z3.And(q == done_j, r < done_k)))
        return [("normal matrix", forall([q, r], z3.Implies(fin(q, r), el2(a, q, r) == sp.A(q, r)), pats=[el2(a, q, r)])),
                ("matrix elements not yet computed", forall([q, r], z3.Implies(z3.And(rng(q, 0, m), rng(r, 0, m), z3.Not(fin(q, r))), el2(a, q, r) == 0), pats=[el2(a, q, r)]))]

    def rhs(ex, st, done):
        b = loc(ex, st, "b")
        return [("right hand side", z3.And(b.size == m, forall([q], z3.Implies(z3.And(q >= 0, q < done), sel(b.data, q) == sp.B(q))))),
                ("right hand side not yet computed", forall([q], z3.Implies(z3.And(q >= done, q < m), sel(b.data, q) == 0)))]

    def chol(ex, st, i, j):
        """columns below i complete, column i down to row j"""
        a = loc(ex, st, "a")
        fin = lambda q, r: z3.And(q >= 0, r >= q, r < m, z3.Or(q < i, z3.And(q == i, r < j)))     # a[r][q] = L(r, q)
        return [("Cholesky factor", forall([q, r], z3.Implies(fin(q, r), el2(a, r, q) == sp.L(r, q)), pats=[el2(a, r, q)])),
                ("pivots are positive", forall([q], z3.Implies(z3.And(q >= 0, z3.Or(q < i, z3.And(q == i, j > i))), sp.S(q, q) > 0), pats=[sp.DOT(q, q, q)])),
                ("upper triangle", forall([q, r], z3.Implies(z3.And(q >= 0, r >= q, r < m, z3.Or(r > q, z3.Not(fin(q, r)))), el2(a, q, r) == sp.A(q, r)), pats=[el2(a, q, r)]))]

    def vecinv(ex, st, nm, f, lo, hi, what):
        s = loc(ex, st, nm)
        return [(what, z3.And(s.size == m, forall([q], z3.Implies(z3.And(q >= lo, q < hi), sel(s.data, q) == f(q)))))]

    def inv(ex, nd, st):
        i_ = at2.get(nd.get("id"))
        if i_ is None:
            return None
        L = lambda nm: (lambda st: loc(ex, st, nm))
        both = lambda ex, st: shape(ex, st, "l", m, n) + shape(ex, st, "a", m, m)

        def bonnet(ex, st):
            j = loc(ex, st, "j")
            return [("range of j", z3.And(j >= 1, j <= z3.If(m > 1, m - 1, 1)))] + basis(ex, st, j) + shape(ex, st, "l", m, n)

        def nj(ex, st):
            j = loc(ex, st, "j")
            return [("range of j", z3.And(j >= 0, j <= m))] + both(ex, st) + matrix(ex, st, j, j) + rhs(ex, st, j)

        def nk(ex, st):
            j, k = loc(ex, st, "j"), loc(ex, st, "k")
            return [("range of k", z3.And(k >= j, k <= m))] + both(ex, st) + matrix(ex, st, j, k)

        def ni(ex, st):
            j, k, i = loc(ex, st, "j"), loc(ex, st, "k"), loc(ex, st, "i")
            a = loc(ex, st, "a")
            fin = lambda q, r: z3.And(q >= 0, r >= q, r < m, z3.Or(q < j, z3.And(q == j, r < k)))
            return [("range of i", z3.And(i >= 0, i <= n)), ("partial sum", el2(a, j, k) == sp.AP(j, k, i))] + both(ex, st) + [
                ("normal matrix", forall([q, r], z3.Implies(fin(q, r), el2(a, q, r) == sp.A(q, r)), pats=[el2(a, q, r)])),
                ("matrix elements not yet computed", forall([q, r], z3.Implies(z3.And(rng(q, 0, m), rng(r, 0, m), z3.Not(fin(q, r)), z3.Not(z3.And(q == j, r == k))), el2(a, q, r) == 0), pats=[el2(a, q, r)]))]

        def nb(ex, st):
            j, i = loc(ex, st, "j"), loc(ex, st, "i")
            b = loc(ex, st, "b")
            return [("range of i", z3.And(i >= 0, i <= n)), ("partial sum", sel(b.data, j) == sp.BP(j, i)), ("size of b", b.size == m),
                    ("right hand side", forall([q], z3.Implies(z3.And(q >= 0, q < j), sel(b.data, q) == sp.B(q)))),
                    ("right hand side not yet computed", forall([q], z3.Implies(z3.And(q > j, q < m), sel(b.data, q) == 0)))]

        def ci(ex, st):
            i = loc(ex, st, "i")
            return [("range of i", z3.And(i >= 0, i <= m))] + shape(ex, st, "a", m, m) + chol(ex, st, i, i)

        def cj(ex, st):
            i, j = loc(ex, st, "i"), loc(ex, st, "j")
            return [("range of j", z3.And(j >= i, j <= m))] + shape(ex, st, "a", m, m) + chol(ex, st, i, j)

        def ck(ex, st):
            i, j, k, s = (loc(ex, st, x) for x in "ijks")
            return [("range of k", z3.And(k >= 0, k <= i)), ("partial sum", s == sp.A(i, j) - sp.DOT(i, j, k))]

        def fi(ex, st):
            i = loc(ex, st, "i")
            return [("range of i", z3.And(i >= 0, i <= m))] + vecinv(ex, st, "c", sp.Y, 0, i, "forward solution")

        def fk(ex, st):
            i, k, s = (loc(ex, st, x) for x in "iks")
            return [("range of k", z3.And(k >= 0, k <= i)), ("partial sum", s == sp.B(i) - sp.DY(i, k))]

        def bi(ex, st):
            i = loc(ex, st, "i")
            top = z3.If(i == 2 ** 32 - 1, 0, i + 1)
            return [("range of i", z3.Or(i == 2 ** 32 - 1, z3.And(i >= 0, i < m)))] + vecinv(ex, st, "c", sp.Y, 0, top, "forward solution") + vecinv(ex, st, "c", sp.X, top, m, "solution")

        def bk(ex, st):
            i, k, s = (loc(ex, st, x) for x in "iks")
            return [("range of k", z3.And(k >= i + 1, k <= m)), ("partial sum", s == sp.Y(i) - sp.DX(i, k))]

        def fl(ex, st):
            k = loc(ex, st, "k")
            s = ex.read(st, ex.local_lv("cfl"), False)
            return [("range of k", z3.And(k >= 1, k <= m)), ("size", s.size == n), ("continuum", forall([q], z3.Implies(rng(q, 0, n), sel(s.data, q) == sp.CP(k, q)), pats=[sp.CP(k, q)] ))]
        return [bonnet, nj, nk, ni, nb, ci, cj, ck, fi, fk, bi, bk, fl][i_]
    ex.invariants.append(inv)
    r_, st, thr = v.call(fn, [m, cat, cfl], this=obj)
    g = ex.read(st, cfl)
    i = ex.fconst(Int, "i")
    v.goal("the continuum is the solution of the normal equations in Legendre polynomials", st.pc + [i >= 0, i < n], sel(g.data, i) == sp.CP(m, i))
    v.goal("size of the continuum", st, g.size == n)
    v.goal("an error is possible", [], len(thr) == 1 and thr[0].val.cls.endswith("runtime_error"))
    for e in thr:
        v.goal("an error is raised only if the normal equations are not positive definite", e.st.pc + [forall([q], z3.Implies(rng(q, 0, m), sp.S(q, q) > 0), pats=[sp.L(q, q)]), sp.L(ex.fconst(Int, "w"), 0) == 0], z3.BoolVal(False))
    v.goal("all pivots of the accepted equations are positive", st.pc + [i >= 0, i < m, sp.L(i, i) == sp.L(i, i)], sp.S(i, i) > 0)
    v.reachable(st, "end")
    v.discharge()


def small_unit(m):
    """few polynomials: executed completely, the normal equations stated directly"""
    def run(out):
        u = unit(DRIVER)
        v = V(out, u, timeout=6000)
        ex = v.ex
        obj, n, F = section(v, nmin=2)
        cat, C = vec(v, n, "cat")
        cfl, _ = vec(v, n, "cfl")
        wav, unc, flx, msk = (F[k] for k in ("wav", "unc", "flx", "msk"))
        r_, st, thr = v.call(S + "::continuum", [z3.IntVal(m), cat, cfl], this=obj)
        g = ex.read(st, cfl)
        i = ex.fconst(Int, "i")
        v.goal("size of the continuum", st, g.size == n)
        hy = st.pc + [i >= 0, i < n]
        if m == 0:
            v.goal("no polynomial: the continuum is one", hy, sel(g.data, i) == 1)
            v.goal("no error", [], not thr)
            v.discharge()
            return
        w0, w1 = sel(wav, z3.IntVal(0)), sel(wav, n - 1)
        p = lambda i: sel(C, i) / (sel(unc, i) * sel(unc, i))
        leg = [lambda i: z3.RealVal(1), lambda i: 2 * (sel(wav, i) - w0) / (w1 - w0) - 1]
        A = lambda j, k: SUMF(lambda i: z3.If(sel(msk, i), sel(C, i) * p(i) * leg[j](i) * leg[k](i), 0), 0, n)
        B = lambda j: SUMF(lambda i: z3.If(sel(msk, i), sel(flx, i) * p(i) * leg[j](i), 0), 0, n)
        got = sel(g.data, i)
        if m == 1:
            v.goal("the continuum is the weighted mean ratio", hy, got == B(0) / A(0, 0))
        else:
            D = A(0, 0) * A(1, 1) - A(0, 1) * A(0, 1)
            c0, c1 = (B(0) * A(1, 1) - B(1) * A(0, 1)) / D, (B(1) * A(0, 0) - B(0) * A(0, 1)) / D
            v.goal("the continuum is the weighted linear regression", hy, got == c0 + c1 * leg[1](i))
        v.goal("an error is possible", [], len(thr) > 0 and all(e.val.cls.endswith("runtime_error") for e in thr))
        v.reachable(st, "end")
        v.discharge()
    return run


UNITS = [("general", general_unit)] + [("m = %d" % m, small_unit(m)) for m in (0, 1, 2)] + [("least squares", lean_unit("least_squares.lean", ["substitution", "normal_equations"]))]
