"""C16: adaptive quadrature."""
from core import *

DRIVER = '''#include <algorithm>
#include <cmath>
#include <valarray>
#include <vector>
#include "base.h"
#define private public
#include "core/integrator.h"
#undef private
using especia::real;
using especia::natural;
typedef especia::Integrator<real> I;
struct Fun { real operator() (real x) const; };
/* a part that is known by its contract only */
struct Ghost {
  Ghost (const Fun &f, real a, real b, I::Formula p, I::Formula q);
  real absolute_error () const;
  real result () const;
  Ghost *new_lower_part () const;
  Ghost *new_upper_part () const;
};
template class especia::Integrator<real>;
typedef I::Partition<Fun, Ghost> GP;
real drive (const Fun &f, real a, real b, real g, natural m) {
  I i (I::Q19, I::Q27);
  return i.integrate (f, a, b, g, m) + i.integrate_positive_infinite (f, g, m) + i.integrate_negative_infinite (f, g, m) + i.integrate_infinite (f, g, m);
}
real drive_ghost (const Fun &f, real a, real b) {
  GP g (f, a, b, I::Q19, I::Q27);
  g.refine ();
  return g.absolute_error () + g.result ();
}
'''
I = "especia::Integrator<double>"
NW = (7, 10, 14, 21)
DEGREE = (13, 19, 27, 41)
FX = z3.Function("f", Real, Real)
log = MATH["log"]


def formula(v, k):
    return z3.IntVal(k)


def member(v, cls_part, name, pred=None):
    """method of an instantiated member template"""
    fs = [f for f in v.u.funcs if not v.u.is_pattern(f) and f["name"] == name and cls_part in v.u.qname(f) and (pred is None or pred(f))]
    if not fs:
        raise ContractMissing(cls_part + name)
    return fs[0]


def tables(v):
    """abscissas and weights as they are in the source"""
    t = {}
    for d in v.u.decl.values():
        if d.get("kind") == "VarDecl" and d.get("name") in ("xi", "wi", "mw", "nw") and "double" in (d.get("type", {}).get("qualType", "") + "double"):
            t.setdefault(d["name"], []).append(d)
    return t


def part_obj(v, st, nm="part"):
    """a part with an arbitrary integrand and limits"""
    fun = v.cell(Opaque("Fun"), "fun")
    return fun


def rd(v, st, obj, f):
    return v.ex.read(st, obj.fld(f), False)


def invariant(v, st, obj, a, b, N, X):
    """class invariant of an evaluated part: every tabulated value belongs to its abscissa"""
    c, h = rd(v, st, obj, "c"), rd(v, st, obj, "h")
    yl, yu = rd(v, st, obj, "yl"), rd(v, st, obj, "yu")
    out = [("limits", z3.And(rd(v, st, obj, "a") == a, rd(v, st, obj, "b") == b)),
           ("centre and half width", z3.And(2 * c == a + b, 2 * h == b - a)),
           ("numbers of tabulated values", z3.And(rd(v, st, obj, "nl") == N, rd(v, st, obj, "nu") == N)),
           ("room for the values", z3.And(yl.size >= N, yu.size >= N))]
    for i in range(N):
        out.append(("lower value %d belongs to its abscissa" % i, sel(yl.data, z3.IntVal(i)) == FX((a + b) / 2 - X[i] * ((b - a) / 2))))
        out.append(("upper value %d belongs to its abscissa" % i, sel(yu.data, z3.IntVal(i)) == FX((a + b) / 2 + X[i] * ((b - a) / 2))))
    return out


# abscissas of Favati et al. (1991)
XI = [R / z3.RealVal(128) for R in map(z3.RealVal, (0, 32, 64, 96, 112, 120, 128, 48, 80, 124, 16, 88, 104, 126, 24, 40, 56, 72, 108, 116, 127))]
XI = [z3.simplify(x) for x in XI]


def quad(v, W, k, a, b):
    """value of formula k on [a, b]"""
    m, n = W["mw"][k], W["nw"][k]
    c, h = (a + b) / 2, (b - a) / 2
    return h * sum([(FX(c - XI[i] * h) + FX(c + XI[i] * h)) * W["wi"][m + i] for i in range(n)], z3.RealVal(0))


def weights(v):
    """the weight tables, read from the source by the verifier"""
    ex = v.ex
    out = {}
    for nm in ("wi", "mw", "nw", "xi"):
        best = None
        for q, d in ((v.u.qname(d), d) for d in v.u.decl.values() if d.get("kind") == "VarDecl" and d.get("name") == nm):
            try:
                g = ex.rv(v.st, ex.globalvar(d, v.st))
            except (Unsupported, KeyError, AttributeError):
                continue
            if isinstance(g, Seq):
                best = g
        if best is None:
            raise ContractMissing("table " + nm)
        n = concrete(z3.simplify(best.size))
        out[nm] = [z3.simplify(z(sel(best.data, z3.IntVal(i)))) for i in range(n)]
        if nm in ("mw", "nw"):
            out[nm] = [concrete(x) for x in out[nm]]
    return out


def new_v(out):
    u = unit(DRIVER)
    v = V(out, u)
    v.ex.contracts["Fun::operator()"] = lambda ex, st, fn, args, this: FX(ex.rv(st, args[0]))
    return v


def part_unit(p, q):
    def run(out):
        v = new_v(out)
        ex = v.ex
        W = weights(v)
        a, b = v.real("a"), v.real("b")
        fun = v.cell(Opaque("Fun"), "fun")
        PF = I + "::Part<Fun>"
        obj, st, thr = v.construct(PF, [fun, a, b, formula(v, p), formula(v, q)])
        N = max(NW[p], NW[q])
        v.goal("no exception", [], not thr)

        def result(nm, st, o, a, b):
            v.goal(nm + "result is the value of the second formula", st, rd(v, st, o, "res") == quad(v, W, q, a, b))
            d = quad(v, W, q, a, b) - quad(v, W, p, a, b)
            v.goal(nm + "error is the difference of both formulas", st, rd(v, st, o, "err") == ite(d >= 0, d, -d))
            for n_, g in invariant(v, st, o, a, b, N, XI):
                v.goal(nm + n_, st, g)
            v.goal(nm + "formulas", st, z3.And(rd(v, st, o, "p") == p, rd(v, st, o, "q") == q))
        result("constructor: ", st, obj, a, b)
        if p == q:
            v.discharge()
            return
        # an arbitrary part that satisfies the invariant
        yl, yu = ex.fconst(z3.ArraySort(Int, Real), "yl"), ex.fconst(z3.ArraySort(Int, Real), "yu")
        cur = ex.read(st, obj, False)
        f = dict(cur.f)
        f["yl"] = Seq(("real",), rd(v, st, obj, "yl").size, yl, "valarray")
        f["yu"] = Seq(("real",), rd(v, st, obj, "yu").size, yu, "valarray")
        f["c"], f["h"], f["nl"], f["nu"], f["a"], f["b"] = (a + b) / 2, (b - a) / 2, z3.IntVal(N), z3.IntVal(N), a, b
        v.st = State(dict(st.store), list(v.st.pc))
        v.st.store[obj.cell] = Rec(cur.cls, f)
        for n_, g in invariant(v, v.st, obj, a, b, N, XI):
            v.assume(g)
        for nm, lo, hi in (("new_lower_part", a, (a + b) / 2), ("new_upper_part", (a + b) / 2, b)):
            r, st2, thr = v.call(PF + "::" + nm, [], this=obj)
            if not isinstance(r, Ptr):
                raise Unsupported("result of " + nm)
            result(nm + ": ", st2, r.lv, lo, hi)
            v.goal(nm + " leaves the part alone", st2, z3.And(rd(v, st2, obj, "res") == f["res"], *[z(sel(rd(v, st2, obj, k).data, z3.IntVal(i))) == sel(y, i) for k, y in (("yl", yl), ("yu", yu)) for i in range(N)]))
            v.reachable(st2, nm)
        v.discharge()
    return run


def exact_unit(out):
    """linearity makes exactness for monomials on [-1, 1] sufficient"""
    v = new_v(out)
    W = weights(v)
    tol = z3.RealVal("1/1000000000000000")
    v.goal("abscissas", [], len(W["xi"]) == 21 and all(x.eq(y) for x, y in zip(W["xi"], XI)))
    for k in range(4):
        m, n = W["mw"][k], W["nw"][k]
        v.goal("formula %d uses %d abscissas" % (k, NW[k]), [], n == NW[k])
        for d in range(0, DEGREE[k] + 1, 2):
            s = z3.simplify(sum([2 * W["wi"][m + i] * XI[i] ** d for i in range(n)], z3.RealVal(0)) - z3.RealVal(2) / (d + 1))
            v.goal("formula %d integrates the monomial of degree %d" % (k, d), [], z3.And(s <= tol, s >= -tol))
        for i in range(n):
            v.goal("weight %d of formula %d is positive" % (i, k), [], W["wi"][m + i] > 0)
    v.discharge()



# ------------------------------------------------------------ partition
ERR = z3.Function("err", Int, Real)
RES = z3.Function("res", Int, Real)
LO = z3.Function("lower_limit", Int, Real)
HI = z3.Function("upper_limit", Int, Real)
MEAS = z3.Function("measure", Int, Real)        # arbitrary: equal sums of an arbitrary measure are equal multisets
HEAP = z3.Function("is_heap", z3.ArraySort(Int, Int), Int, Bool)
GPART = I + "::Partition<Fun, Ghost>"


PSUM = {}


def psum(F, a, n):
    """sum of F over the first n elements"""
    f = PSUM.setdefault(F.name(), z3.Function("sum_of_" + F.name(), z3.ArraySort(Int, Int), Int, Real))
    return f(z(a), n)


class Ghosts:
    """parts that are known by the contract of class Part, and the contracts of the heap functions"""
    def __init__(self, v):
        self.v, self.made, self.deleted, self.heaps = v, [], [], []
        c = v.ex.contracts
        c["Ghost::absolute_error"] = lambda ex, st, fn, args, this: ERR(self.live(st, this))
        c["Ghost::result"] = lambda ex, st, fn, args, this: RES(self.live(st, this))
        c["Ghost::new_lower_part"] = lambda ex, st, fn, args, this: self.child(st, this, "lower")
        c["Ghost::new_upper_part"] = lambda ex, st, fn, args, this: self.child(st, this, "upper")
        v.ex.hooks["new"] = self.new
        v.ex.hooks["delete"] = self.delete
        v.ex.hooks["heap"] = self.heap

    def live(self, st, this):
        p = self.v.ex.rv(st, this)
        for d in self.deleted:
            self.v.ex.oblige(st, p != d, "bounds", "a deleted part is not used")
        return p

    def child(self, st, this, which):
        p = self.live(st, this)
        k = self.v.ex.fconst(Int, which)
        mid = (LO(p) + HI(p)) / 2
        st.pc += [LO(k) == (LO(p) if which == "lower" else mid), HI(k) == (mid if which == "lower" else HI(p))]
        self.made.append((which, p, k))
        return k

    def new(self, ex, n, st):
        e = [c for c in n.get("inner", ()) if c][-1]
        args = [ex.rv(st, ex.ev(x, st)) for x in e.get("inner", ())] if e["kind"] == "CXXConstructExpr" else None
        if args is None or "Ghost" not in str(ex.etype(e)):
            return NotImplemented
        k = ex.fconst(Int, "part")
        st.pc += [LO(k) == args[1], HI(k) == args[2]]
        self.made.append(("new", args, k))
        return k

    def delete(self, ex, n, st):
        p = ex.rv(st, ex.ev(n["inner"][0], st))
        self.deleted.append(p)
        return None

    def heap(self, ex, what, args, st, n):
        first, last, cmp = [ex.rv(st, a) for a in args]
        s = ex.read(st, first.lv, False)
        d, N = z(s.data), ex.ptr_arith("-", last, first)
        if concrete(z3.simplify(first.off)) != 0:
            raise Unsupported("heap range")
        ex.oblige(st, N == s.size, "post", "the heap is the whole vector")
        x, y = ex.fconst(Int, "x"), ex.fconst(Int, "y")
        less = ex.rv(st, ex.call_object(cmp, "operator()", [x, y], st, n))
        ex.oblige(st, less == (ERR(x) < ERR(y)), "post", "the heap is ordered by the absolute error")
        q = z3.Int(fresh_name("q"))
        for hd, hn in self.heaps:
            st.pc.append(z3.Implies(z3.And(HEAP(hd, hn), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < hn), sel(d, q) == sel(hd, q)))), HEAP(d, hn)))
            for F in (MEAS, ERR, RES):          # sums over equal prefixes are equal
                st.pc.append(z3.Implies(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < hn), sel(d, q) == sel(hd, q))), psum(F, d, hn) == psum(F, hd, hn)))
        if what == "make":
            new, hn = ex.fconst(z3.ArraySort(Int, Int), "heap"), N
        elif what == "push":
            ex.oblige(st, z3.And(N > 0, HEAP(d, z3.simplify(N - 1))), "post", "all but the last element are a heap")
            new, hn = ex.fconst(z3.ArraySort(Int, Int), "heap"), N
            st.pc.append(z3.Implies(N == 1, sel(new, z3.IntVal(0)) == sel(d, z3.IntVal(0))))
        else:
            ex.oblige(st, z3.And(N > 0, HEAP(d, N)), "post", "the parts are a heap")
            new, hn = ex.fconst(z3.ArraySort(Int, Int), "heap"), z3.simplify(N - 1)
            st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N), ERR(sel(d, q)) <= ERR(sel(new, N - 1)))))
        st.pc.append(HEAP(new, hn))
        # a permutation of the elements
        for F in (MEAS, ERR, RES):
            st.pc.append(psum(F, new, N) == psum(F, d, N))
            for a in (new, d):
                st.pc.append(z3.Implies(N > 0, psum(F, a, N) == psum(F, a, z3.simplify(N - 1)) + F(sel(a, z3.simplify(N - 1)))))
        self.heaps.append((new, hn))
        ex.write(st, first.lv, Seq(s.elt, s.size, new, s.kind))
        return None


def total(F, s):
    return psum(F, s.data, s.size)


def partition_ctor(out):
    v = new_v(out)
    g = Ghosts(v)
    a, b = v.real("a"), v.real("b")
    fun = v.cell(Opaque("Fun"), "fun")
    obj, st, thr = v.construct(GPART, [fun, a, b, z3.IntVal(1), z3.IntVal(2)])
    s = rd(v, st, obj, "parts")
    v.goal("one part is created", [], len(g.made) == 1 and g.made[0][0] == "new")
    w, args, k = g.made[0]
    v.goal("the part covers the interval", st, z3.And(LO(k) == a, HI(k) == b))
    v.goal("formulas are passed on", [], concrete(z3.simplify(args[3])) == 1 and concrete(z3.simplify(args[4])) == 2)
    v.goal("the partition consists of this part", st, z3.And(s.size == 1, sel(s.data, z3.IntVal(0)) == k))
    v.goal("the parts are a heap", st, HEAP(z(s.data), s.size))
    v.discharge()


def partition_state(v):
    obj = v.obj(GPART)
    s = rd(v, v.st, obj, "parts")
    v.assume(z3.And(s.size >= 1, s.size < 2 ** 30))
    v.assume(HEAP(z(s.data), s.size))
    return obj, s


def refine_unit(out):
    v = new_v(out)
    g = Ghosts(v)
    obj, s0 = partition_state(v)
    g.heaps.append((z(s0.data), s0.size))
    r, st, thr = v.call(GPART + "::refine", [], this=obj)
    s = rd(v, st, obj, "parts")
    parents = [p for w, p, k in g.made]
    kids = dict((w, k) for w, p, k in g.made)
    v.goal("both halves of one part are created", [], len(g.made) == 2 and set(kids) == {"lower", "upper"} and len(g.deleted) == 1)
    p = parents[0]
    v.goal("both halves are those of the same part", st, z3.And(parents[0] == parents[1], parents[0] == g.deleted[0]))
    q = z3.Int("q")
    v.goal("a part with the largest error is split", st, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < s0.size), ERR(sel(s0.data, q)) <= ERR(p))))
    v.goal("the part is replaced by its halves, all others are kept", st, total(MEAS, s) == total(MEAS, s0) - MEAS(p) + MEAS(kids["lower"]) + MEAS(kids["upper"]))
    v.goal("number of parts", st, s.size == s0.size + 1)
    v.goal("the halves cover the part", st, z3.And(LO(kids["lower"]) == LO(p), HI(kids["lower"]) == LO(kids["upper"]), HI(kids["upper"]) == HI(p)))
    v.goal("the parts are a heap", st, HEAP(z(s.data), s.size))
    v.reachable(st, "refined")
    v.discharge()


def sums_unit(out):
    v = new_v(out)
    g = Ghosts(v)
    obj, s0 = partition_state(v)
    for nm, F in (("absolute_error", ERR), ("result", RES)):
        r, st, thr = v.call(GPART + "::" + nm, [], this=obj)
        v.goal(nm + " is the sum over the parts", st, r == SUMF(lambda i: F(sel(s0.data, i)), 0, s0.size))
    v.discharge()


# ------------------------------------------------------------ integrate
PE = z3.Function("partition_error", Int, Real)
PR = z3.Function("partition_result", Int, Real)
NEXT = z3.Function("refined", Int, Int)


def integrate_unit(out):
    v = new_v(out)
    ex = v.ex
    RP = I + "::Partition<Fun, especia::Integrator<>::Part<Fun>>"
    made = []

    def ctor(ex, st, fn, args, this):
        made.append([args[0]] + [ex.rv(st, a) for a in args[1:]])
        return Rec("Partition", {"parts": z3.IntVal(0)})
    # the state of the partition is the number of refinements; its error is an arbitrary function of it
    get = lambda ex, st, this: ex.read(st, this.fld("parts"), False)
    c = ex.contracts
    c[RP + "::Partition"] = ctor
    c[RP + "::absolute_error"] = lambda ex, st, fn, args, this: PE(get(ex, st, this))
    c[RP + "::result"] = lambda ex, st, fn, args, this: z3.ToReal(get(ex, st, this))
    c[RP + "::refine"] = lambda ex, st, fn, args, this: ex.write(st, this.fld("parts"), z3.simplify(get(ex, st, this) + 1))
    obj = v.obj(I)
    a, b, goal = v.real("a"), v.real("b"), v.real("goal")
    m = v.nat("max_iteration", 0, 2 ** 30)
    fun = v.cell(Opaque("Fun"), "fun")
    r, st, thr = v.call(I + "::integrate", [fun, a, b, goal, m], this=obj, pred=lambda f: "const Fun &" in f["type"]["qualType"])
    v.goal("one partition of the interval with the configured formulas", [], len(made) == 1 and not thr)
    pa = made[0]
    v.goal("limits of the partition", st, z3.And(pa[1] == a, pa[2] == b))
    v.goal("configured formulas", st, z3.And(pa[3] == rd(v, st, obj, "p"), pa[4] == rd(v, st, obj, "q")))
    v.goal("integrand of the partition", [], isinstance(pa[0], LV) and pa[0].same(fun))
    k = v.ex.fconst(Int, "k")
    v.goal("the result is that of the k-th refinement", st, r == z3.ToReal(z3.ToInt(r)))
    n = z3.ToInt(r)
    v.goal("the iteration limit is respected", st, z3.And(n >= 0, n <= m))
    v.goal("refinement ends when the goal or the limit is reached", st, z3.Or(n == m, PE(n) < goal))
    v.goal("refinement does not end too late", st.pc + [k >= 0, k < n], z3.Not(PE(k) < goal))
    v.reachable(st, "result")
    v.discharge()


def infinite_unit(out):
    v = new_v(out)
    ex = v.ex
    log_ = []
    INT, POS = ex.fconst(Real, "INTEGRAL"), ex.fconst(Real, "POSITIVE")
    goal = v.real("goal")
    m = v.nat("max_iteration", 0, 2 ** 30)
    obj = v.obj(I)
    fun = v.cell(Opaque("Fun"), "fun")
    x = v.real("u")

    def rec(nm, val):
        def contract(ex, st, fn, args, this):
            f = args[0]
            fv = ex.read(st, f, False) if isinstance(f, LV) else f
            at = None
            if isinstance(fv, Closure):
                s2 = st.fork()
                at = ex.rv(s2, ex.call_value(fv, [x], s2))
                at = (at, s2)
            elif isinstance(f, LV) and f.same(fun):
                at = (FX(x), st)
            log_.append((nm, at, [ex.rv(st, a) for a in args[1:]], st.fork()))
            r = ex.fconst(Real, nm)
            return r if val is None else val
        return contract
    pos = lambda f: "const Fun &" in f["type"]["qualType"]
    # positive infinite: the transformed finite integral
    ex.contracts[I + "::integrate"] = rec("integrate", INT)
    r, st, thr = v.call(I + "::integrate_positive_infinite", [fun, goal, m], this=obj, pred=pos)
    v.goal("positive: one finite integral", [], len(log_) == 1 and log_[0][1] is not None)
    nm, (val, s2), args, s = log_[0]
    v.goal("positive: limits, goal and iterations", s, z3.And(args[0] == 0, args[1] == 1, args[2] == goal, args[3] == m))
    v.goal("positive: transformed integrand", s2.pc + [x > 0], val == FX(-log(x)) / x)
    v.goal("positive: infinity maps to zero", s2.pc + [x == 0], val == 0)
    v.goal("positive: value", st, r == INT)
    # negative infinite: reflection
    log_.clear()
    ex.contracts[I + "::integrate_positive_infinite"] = rec("positive", POS)
    r, st, thr = v.call(I + "::integrate_negative_infinite", [fun, goal, m], this=obj, pred=pos)
    v.goal("negative: one positive infinite integral", [], len(log_) == 1 and log_[0][1] is not None)
    nm, (val, s2), args, s = log_[0]
    v.goal("negative: reflected integrand", s2, val == FX(-x))
    v.goal("negative: goal and iterations", s, z3.And(args[0] == goal, args[1] == m))
    v.goal("negative: value", st, r == POS)
    log_.clear()
    NEG = ex.fconst(Real, "NEGATIVE")
    ex.contracts[I + "::integrate_negative_infinite"] = rec("negative", NEG)
    r, st, thr = v.call(I + "::integrate_infinite", [fun, goal, m], this=obj, pred=pos)
    v.goal("infinite: sum of both halves", st, r == POS + NEG)
    v.goal("infinite: both halves are integrated", [], sorted(l[0] for l in log_) == ["negative", "positive"])
    for nm, at, args, s in log_:
        v.goal("infinite: integrand of " + nm, [], at is not None and at[0].eq(FX(x)))
        v.goal("infinite: goal and iterations of " + nm, s, z3.And(args[0] == goal, args[1] == m))
    v.discharge()


UNITS = [("exactness", exact_unit), ("Partition", partition_ctor), ("refine", refine_unit), ("sums", sums_unit), ("integrate", integrate_unit), ("infinite integrals", infinite_unit)] \
    + [("Part %d %d" % (p, q), part_unit(p, q)) for p in range(4) for q in range(4)]
