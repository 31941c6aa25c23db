"""C09: free parameters and the parameter vector of the fit, cost of a model."""
from core import *
from streams import *
from maps import *
import terms
RA = z3.ArraySort(Int, Real)
M = "especia::Model<especia::Intergalactic_Doppler>"
M2 = "especia::Model<especia::Many_Multiplet>"
DRIVER = '''#include "config.h"
#include "model.h"
using namespace especia;
namespace drv {
typedef Model<%(f)s> Mod;
real cost (const Mod &m, const real x[], natural n) { return m (x, n); }
void set (Mod &m, const real x[], const real u[]) { m.set (x, u); }
natural count (const Mod &m) { return m.get_parameter_count (); }
std::valarray<real> start (const Mod &m) { return m.get_initial_parameter_values (); }
std::valarray<real> step (const Mod &m) { return m.get_initial_local_step_sizes (); }
typedef Mod::Bounded_Constraint<> Box;
void put (const Mod &m, std::ostream &os) { m.put (os); }
Box box (const Mod &m) { return m.get_constraint (); }
}
'''
# cost of a section (index, optical depth parameters and their number, resolution, continuum order); its value is the subject of C11
SECT = ext_function("section cost", [Int, RA, Int, Real, Int], Real, [(1, 0, 2)])
APPLY = ext_function("section applied", [Int, RA, Int, Real, Int], Real, [(1, 0, 2)])


class Setup:
    def __init__(self, out, f, timeout=8000):
        self.u = u = unit(DRIVER % dict(f=f))
        self.v = v = V(out, u, timeout=timeout)
        self.ex = ex = v.ex
        cls = "especia::Model<especia::%s>" % f
        self.pc = {"Intergalactic_Doppler": 6, "Many_Multiplet": 8}[f]
        self.m = m = v.obj(cls, "model")
        self.F = F = v.st.store[m.cell].f
        self.N, self.S = F["val"].size, F["sections"].size
        d = lambda k: z(F[k].data)
        self.d = d
        i, p = z3.Ints("i_ p_")
        N, S = self.N, self.S
        self.P = P = v.nat("P", 1, 2 ** 30)
        self.ORIG = ORIG = z3.Function("owner", Int, Int)
        rng = lambda x, a, b: z3.And(x >= a, x < b)
        v.assume(z3.And(N >= 1, N < 2 ** 30, S >= 1, S < 2 ** 30, *[F[k].size == N for k in ("unc", "lo", "up", "msk", "ind")]))
        v.assume(z3.And(*[F[k].size == S for k in ("isc", "nle", "nli")]))
        v.assume(forall([i], z3.Implies(rng(i, 0, S), z3.And(sel(d("isc"), i) >= 0, sel(d("nli"), i) >= 0, sel(d("nli"), i) < 2 ** 26, sel(d("nle"), i) >= 0, sel(d("isc"), i) + 1 + self.pc * sel(d("nli"), i) <= N)), [sel(d("isc"), i)]))
        # class invariant of a parsed model: components are numbered in the order of the parameters that own them; a
        # parameter that refers to another one has its bounds and component
        v.assume(forall([i], z3.Implies(rng(i, 0, N), z3.And(sel(d("ind"), i) >= 0, sel(d("ind"), i) < P)), [sel(d("ind"), i)]))
        v.assume(forall([i], z3.Implies(z3.And(rng(i, 0, N), sel(d("msk"), i)), z3.And(sel(d("lo"), i) == sel(d("lo"), ORIG(sel(d("ind"), i))), sel(d("up"), i) == sel(d("up"), ORIG(sel(d("ind"), i))))), [sel(d("ind"), i)]))
        self.free = v.ex.fconst(Bool, "any free parameter")
        v.assume(forall([p], z3.Implies(z3.And(rng(p, 0, P), self.free), z3.And(rng(ORIG(p), 0, N), sel(d("msk"), ORIG(p)), sel(d("ind"), ORIG(p)) == p)), [ORIG(p)]))
        q = z3.Int("q_")
        v.assume(forall([p, q], z3.Implies(z3.And(self.free, p >= 0, p < q, q < P), ORIG(p) < ORIG(q)), [z3.MultiPattern(ORIG(p), ORIG(q))]))
        # without free parameters there is one component that nothing refers to
        v.assume(z3.Or(self.free, z3.And(P == 1, forall([i], z3.Implies(rng(i, 0, N), z3.And(z3.Not(sel(d("msk"), i)), sel(d("ind"), i) == 0)), [sel(d("ind"), i)]))))
        v.assume(z3.Implies(self.free, z3.And(rng(ORIG(P - 1), 0, N), rng(ORIG(0), 0, N))))
        self.rng = rng
        sup = lambda ex, st, fn, args, this: self.superposition(ex, st, args)
        c = ex.contracts
        for nm in ("especia::Superposition<especia::%s>::Superposition" % f, "especia::Superposition<%s>::Superposition" % f, "especia::Superposition::Superposition"):
            c[nm] = sup
        self.ghost, _ = v.array("applied", S)
        for nm in ("especia::Section::cost",):
            c[nm] = self.cost
        c["especia::Section::apply"] = self.apply

    def superposition(self, ex, st, args):
        n, p = ex.rv(st, args[0]), ex.rv(st, args[1])
        if not isinstance(p, Ptr) or p.off is None:
            raise Unsupported("parameters of a superposition")
        s = ex.read(st, p.lv, False)
        lib.range_ok(ex, st, s, p.off, self.pc * n, "parameters of the lines of a section")
        q = z3.Int(fresh_name("q"))
        return Rec("tau", {"n": n, "a": z3.Lambda([q], sel(z(s.data), q + p.off))})

    def section(self, ex, this):
        if not isinstance(this, LV) or not this.path or this.path[-1][0] != "i" or this.path[0] != ("f", "sections") and this.path[0][1] != "sections":
            raise Unsupported("cost of an unknown section")
        return this.path[-1][1]

    def cost(self, ex, st, fn, args, this):
        if len(args) != 3:
            raise Unsupported("interface of the cost of a section")
        t, r, k = [ex.rv(st, a) for a in args]
        return SECT(self.section(ex, this), t.f["a"], self.pc * t.f["n"], r, k)

    def apply(self, ex, st, fn, args, this):
        k, r, t = [ex.rv(st, a) for a in args]
        i = self.section(ex, this)
        ex.write(st, self.ghost.idx(i), APPLY(i, t.f["a"], self.pc * t.f["n"], r, k), False)
        return this

    def expected(self, x):
        d = self.d
        return lambda i: z3.If(sel(d("msk"), i), sel(x, sel(d("ind"), i)), sel(d("val"), i))

    def total(self, F, Y):
        d = self.d
        q = z3.Int("q_")
        return lambda i: F(i, z3.Lambda([q], Y(q + sel(d("isc"), i) + 1)), self.pc * sel(d("nli"), i), Y(sel(d("isc"), i)), sel(d("nle"), i))


def cost(f):
    def run(out):
        s = Setup(out, f)
        v, ex = s.v, s.ex
        x, X = v.array("x", s.P)
        r, st, thr = v.call("drv::cost", [s.m, Ptr(x, z3.IntVal(0)), s.P])
        v.goal("C09: the cost of a model is the sum of the costs of its sections, each with its own parameters", st, r == SUMF(s.total(SECT, s.expected(X)), 0, s.S))
        v.goal("C09: no error", [], not thr)
        v.reachable(st, "end")
        v.discharge()
    return run


def assign(f):
    def run(out):
        s = Setup(out, f)
        v, ex = s.v, s.ex
        x, X = v.array("x", s.P)
        w, U = v.array("u", s.P)
        old = {k: (z(y.data) if isinstance(y, Seq) and not isinstance(y.data, (Rec, Seq)) else y) for k, y in s.F.items()}
        _, st, thr = v.call("drv::set", [s.m, Ptr(x, z3.IntVal(0)), Ptr(w, z3.IntVal(0))])
        now = st.store[s.m.cell].f
        i = ex.fconst(Int, "i")
        ri = s.rng(i, 0, s.N)
        Y = s.expected(X)
        d = s.d
        v.goal("C09: a free parameter is reported with the value of its component", st, z3.Implies(ri, sel(z(now["val"].data), i) == Y(i)))
        v.goal("C09: a free parameter is reported with the uncertainty of its component, a fixed one with none", st, z3.Implies(ri, sel(z(now["unc"].data), i) == z3.If(sel(d("msk"), i), sel(U, sel(d("ind"), i)), z3.RealVal(0))))
        for k in ("lo", "up", "msk", "ind"):
            v.goal("C09: setting values leaves %s unchanged" % k, st, z3.Implies(ri, sel(z(now[k].data), i) == sel(old[k], i)))
        for k in ("isc", "nle", "nli"):
            v.goal("C09: setting values leaves %s unchanged" % k, st, z3.Implies(s.rng(i, 0, s.S), sel(z(now[k].data), i) == sel(old[k], i)))
        v.goal("C09: the model is applied to every section with its own parameters", st, z3.Implies(s.rng(i, 0, s.S), sel(z(ex.read(st, s.ghost, False).data), i) == s.total(APPLY, Y)(i)))
        v.goal("C09: no error", [], not thr)
        v.reachable(st, "end")
        v.discharge()
    return run


def vectors(f):
    def run(out):
        s = Setup(out, f)
        v, ex = s.v, s.ex
        d, rng = s.d, s.rng

        def count(ex, st, fn, args, this):
            return s.P
        # get_parameter_count is proved first, then used as a contract
        r, st, thr = v.call("drv::count", [s.m])
        v.goal("C09: the number of components is that of the distinct free parameters (one if there is none)", st, r == s.P)
        ex.contracts[v.u.qname(v.find("especia::Model<especia::%s>::get_parameter_count" % f)) if False else "especia::Model<especia::%s>::get_parameter_count" % f] = count
        ex.contracts["especia::Model::get_parameter_count"] = count
        spec = dict(x=lambda o: (sel(d("lo"), o) + sel(d("up"), o)) / 2, z=lambda o: (sel(d("up"), o) - sel(d("lo"), o)) / 2, a=lambda o: sel(d("lo"), o), b=lambda o: sel(d("up"), o))

        def invariant(ex, node, st0):
            try:
                names = {k: ex.local(st0, k) for k in ("i", "j")}
            except Unsupported:
                return None
            arrs = []
            for k in spec:
                try:
                    if isinstance(ex.local(st0, k), Seq):
                        arrs.append(k)
                except Unsupported:
                    pass
            if not arrs:
                return None
            q, p = z3.Ints("q_ p_")

            def inv(ex, st):
                i, j = ex.local(st, "i"), ex.local(st, "j")
                out = [("range", z3.And(i >= 0, i <= s.N, j >= 0, j <= s.P)), ("components of the parameters passed", forall([p], z3.Implies(z3.And(s.free, rng(p, 0, s.P), s.ORIG(p) < i), p < j), [s.ORIG(p)]))]
                for k in arrs:
                    a = ex.local(st, k)
                    out += [("size of " + k, a.size == s.P), ("components of " + k, forall([q], z3.Implies(z3.And(s.free, rng(q, 0, j)), sel(z(a.data), q) == spec[k](s.ORIG(q))), [sel(z(a.data), q)])),
                            ("no component without a free parameter", z3.Implies(z3.Not(s.free), j == 0))]
                return out
            return inv
        ex.invariants.append(invariant)
        i = ex.fconst(Int, "i")
        for fn, k, nm in (("start", "x", "the initial value of a component is the midpoint of the limits of its parameter"), ("step", "z", "the initial step of a component is the half width of the limits of its parameter")):
            r, st, thr = v.call("drv::" + fn, [s.m])
            v.goal("C09: " + nm, st, z3.And(r.size == s.P, z3.Implies(z3.And(s.free, rng(i, 0, s.P)), sel(z(r.data), i) == spec[k](s.ORIG(i)))))
            v.goal("C09: no error", [], not thr)
            v.reachable(st, fn)
        r, st, thr = v.call("drv::box", [s.m])
        f_ = r.f if isinstance(r, Rec) else ex.read(st, r, False).f
        for k, nm in (("a", "lower"), ("b", "upper")):
            v.goal("C09: the %s bound of a component is the limit of its parameter" % nm, st, z3.And(f_[k].size == s.P, z3.Implies(z3.And(s.free, rng(i, 0, s.P)), sel(z(f_[k].data), i) == spec[k](s.ORIG(i)))))
        v.goal("C09: no error", [], not thr)
        v.reachable(st, "box")
        v.discharge()
    return run



EV = {k: z3.Function("cell with " + nm, Int, q, Int) for k, nm, q in (("str", "name", S), ("par", "parameter", Int), ("nat", "number", Int), ("real", "value", Real))}


def parameter(f):
    """a cell of the table of parameters: the value of the parameter, and its uncertainty if it is free"""
    def run(out):
        s = Setup(out, f)
        v, ex = s.v, s.ex
        SS = Streams(v)
        to = SS.output("out", fail=z3.BoolVal(False), bad=z3.BoolVal(False), eof=z3.BoolVal(False))
        plain(SS, to, reals=True)
        old = v.st.store[to.cell].f["src"]
        i = v.nat("index", 0, 2 ** 31)
        v.assume(i < s.N)
        p = v.nat("digits", 0, 20)
        _, st, thr = v.call("especia::Model<especia::%s>::put_parameter" % f, [to, Opaque(("flag", "fixed")), p, i], this=s.m, pred=lambda g: "natural" in str(v.u.params(g)[3]["type"]) or "unsigned" in str(v.u.params(g)[3]["type"]))
        val, unc = sel(s.d("val"), i), sel(s.d("unc"), i)
        a = EV["real"](old, val)
        v.goal("C09: a cell of the table shows the value, and the uncertainty if the parameter is free", st, st.store[to.cell].f["src"] == z3.If(sel(s.d("msk"), i), EV["real"](a, unc), a))
        v.goal("C09: no error", [], not thr)
        v.reachable(st, "end")
        v.discharge()
    return run


def plain(SS, to, reals):
    """output without text and format: names, numbers and values only"""
    ex = SS.ex
    base = SS.insert

    def insert(ex, st, lv, v, t):
        if lv.cell != to.cell:
            return base(ex, st, lv, v, t)
        s = ex.read(st, lv, False)
        ev = None
        if isinstance(v, z3.ExprRef) and SS.kind(t) != "char":
            k = "str" if v.sort() == S else SS.kind(t) or {Real: "real", Int: "nat"}.get(v.sort())
            if k in ("nat64", "int"):
                k = "nat"
            if k in EV and (reals or k != "real"):
                ev = EV[k](s.f["src"], v)
        if ev is not None:
            g = dict(s.f)
            g["src"] = ev
            ex.write(st, lv, Rec(s.cls, g))
        return lv
    SS.insert = insert


VDC = z3.Function("valid data", Int, Int)


def table(f):
    """the tables list every section and line with its own parameters"""
    def run(out):
        s = Setup(out, f)
        v, ex, d = s.v, s.ex, s.d
        SS = Streams(v)
        Maps(v, SS)
        cls = "especia::Model<especia::%s>" % f
        m = v.obj(cls, "model with names")
        F = dict(v.st.store[m.cell].f)
        F.update({k: x for k, x in s.F.items() if k in ("val", "unc", "lo", "up", "msk", "ind", "isc", "nle", "nli", "sections")})
        if not all(k in F and is_map(F[k]) for k in ("section_name_map", "profile_name_map")):
            raise Unsupported("names of sections and lines")
        v.st.store[m.cell] = Rec(v.st.store[m.cell].cls, F)
        to = SS.output("out", fail=z3.BoolVal(False), bad=z3.BoolVal(False), eof=z3.BoolVal(False))
        plain(SS, to, reals=False)
        sm, pm = F["section_name_map"], F["profile_name_map"]
        k = z3.Const("k_", S)
        i = z3.Int("i_")
        for q, hi in ((sm, s.S), (pm, s.N - s.pc + 1)):
            x = z3.Select(z(q.f["val"].data), k)
            v.assume(forall([k], z3.Implies(z3.Select(q.f["has"], k), z3.And(x >= 0, x < hi)), [z3.Select(q.f["has"], k)]))
            v.assume(z3.And(q.f["n"] >= 0, q.f["n"] < 2 ** 30))

        def cells(ex, st, fn, args, this):
            a = ex.rv(st, args[3])
            lv = args[0]
            if not (isinstance(lv, LV) and lv.cell == to.cell):
                raise Unsupported("target of a parameter")
            if isinstance(a, z3.ExprRef) and a.sort() == Int:
                g = dict(st.store[to.cell].f)
                g["src"] = EV["par"](g["src"], a)
                ex.write(st, to, Rec(st.store[to.cell].cls, g))
                v.goal("C09: the cells of the table are those of parameters", st, z3.And(a >= 0, a < s.N))
            return lv

        def some(ex, st, fn, args, this):
            return ex.fconst(Real, "value")
        c = ex.contracts
        for nm in ("especia::Model<especia::%s>" % f, "especia::Model<%s>" % f, "especia::Model"):
            c[nm + "::put_parameter"] = cells
        for nm in ("lower_bound", "upper_bound", "cost", "cost_per_data_point"):
            c["especia::Section::" + nm] = some
        c["especia::Section::valid_data_count"] = lambda ex, st, fn, args, this: VDC(s.section(ex, this))
        c["especia::operator<<"] = lambda ex, st, fn, args, this: args[0]
        c["especia::put"] = lambda ex, st, fn, args, this: args[0]
        c["especia::%s::%s" % (f, f)] = lambda ex, st, fn, args, this: Opaque("line")
        for nm in ("especia::Equivalent_Width_Calculator<especia::Integrator<>>", "especia::Equivalent_Width_Calculator<especia::Integrator<double>>", "especia::Equivalent_Width_Calculator<Integrator<double>>", "especia::Equivalent_Width_Calculator<especia::Integrator<real>>", "especia::Equivalent_Width_Calculator"):
            c[nm + "::calculate"] = some
        for nm in ("especia::Equivalent_Width_Calculator<especia::Integrator<>>::Equivalent_Width_Calculator", "especia::Integrator<double>::Integrator"):
            c[nm] = lambda ex, st, fn, args, this: Opaque("calculator")
        src0 = v.st.store[to.cell].f["src"]
        R1, R2 = z3.Function("sections reported", Int, Int, Int), z3.Function("lines reported", Int, Int, Int)
        hs, hp = sm.f["has"], pm.f["has"]
        js = z3.Select(z(sm.f["val"].data), KEY(hs, i))
        jp = z3.Select(z(pm.f["val"].data), KEY(hp, i))
        b = z3.Int("b_")
        r = EV["nat"](EV["par"](EV["nat"](EV["str"](b, KEY(hs, i)), sel(d("nle"), js)), sel(d("isc"), js)), VDC(js))
        row1 = lambda a, e: z3.substitute(r, (b, a), (i, e))
        q = EV["str"](b, KEY(hp, i))
        for n in range(6):
            q = EV["par"](q, jp + n)
        if s.pc == 8:
            q = EV["par"](q, jp + 7)
        row2 = lambda a, e: z3.substitute(q, (b, a), (i, e))
        for R, row in ((R1, row1), (R2, row2)):
            v.assume(forall([b], R(b, 0) == b, [R(b, 0)]))
            v.assume(forall([b, i], z3.Implies(i >= 0, R(b, i + 1) == row(R(b, i), i)), [R(b, i)]))

        def loop(ex, node, st):
            if ex.frames[-1].fn["name"] != "put":
                return None
            its = [lv for lv in ex.frames[-1].env.values() if isinstance(lv, LV) and not lv.path and lv.cell in st.store and is_it(st.store[lv.cell])]
            its = [lv for lv in its if z3.is_int_value(z3.simplify(st.store[lv.cell].f["i"])) and z3.simplify(st.store[lv.cell].f["i"]).as_long() == 0]
            if len(its) != 1:
                return None
            it = its[0]
            tag = st.store[it.cell].cls
            sect = "section_name_map" in tag
            mp, R = (sm, R1) if sect else (pm, R2)
            base = st.store[to.cell].f["src"]

            def inv(ex, s_):
                x = s_.store[it.cell].f
                g = s_.store[to.cell].f
                return [("names passed", z3.And(x["i"] >= 0, x["i"] <= mp.f["n"], x["end"] == (x["i"] == mp.f["n"]), z3.Implies(z3.Not(x["end"]), x["key"] == KEY(mp.f["has"], x["i"])))),
                        ("rows written", z3.And(g["src"] == R(base, x["i"]), z3.Not(g["fail"]), z3.Not(g["bad"]), z3.Not(g["eof"])))]
            return inv
        ex.invariants.append(loop)
        _, st, thr = v.call("drv::put", [m, to])
        end = R2(R1(src0, sm.f["n"]), pm.f["n"])
        g = st.store[to.cell].f["src"]
        # further text at the end
        T = g
        while z3.is_app(T) and T.decl().name() == EV["str"].name():
            T = T.arg(0)
        v.goal("C09: the tables have one row for each section and each line, with its own parameters", st, T == end)
        v.goal("C09: no error", [], not thr)
        v.reachable(st, "end")
        v.discharge()
    return run


UNITS = [(nm + " (" + f + ")", g(f)) for f in ("Intergalactic_Doppler", "Many_Multiplet") for nm, g in (("cost", cost), ("set", assign), ("parameter vectors", vectors), ("table", table), ("cell of the table", parameter))]
