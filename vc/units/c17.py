"""C17: air/vacuum equations: agreement of the two overloads, exact derivative."""
from core import *
from streams import *
import terms

DRIVER = '#include "equations.h"\n#include "core/equations.cxx"\n'

# published coefficients: (n-1 offset, numerators and resonance squares)
EQ = {"birch94": ("8.34254E-05", [("2.406147E-08", "130.0E-06"), ("1.5998E-10", "38.9E-06")]),
      "edlen53": ("6.43280E-05", [("2.5540E-10", "0.0000410"), ("2.949810E-08", "0.000146")]),
      "edlen66": ("8.34213E-05", [("1.5997E-10", "0.0000389"), ("2.406030E-08", "0.000130")])}


def R(s):
    return expr.real_const(float(s))


def spec_n(name, x):
    off, terms = EQ[name]
    n = R("1.0") + R(off)
    for a, b in terms:
        n = n + R(a) / (R(b) - x * x)
    return n


def eq_unit(name):
    def run(out):
        u = unit(DRIVER)
        v = V(out, u)
        x = v.real("x")
        lx = v.cell(x, "x")
        for a, b in EQ[name][1]:
            v.assume(x * x != R(b))
        r, st, _ = v.call("especia::Equations::" + name, [lx], pred=lambda f: len(u.params(f)) == 1)
        v.goal(name + "(x) = x n(x)", st, r == x * spec_n(name, x))
        y, z = v.cell(v.real("y")), v.cell(v.real("z"))
        _, st, _ = v.call("especia::Equations::" + name, [lx, y, z], pred=lambda f: len(u.params(f)) == 3)
        v.goal(name + " value", st, v.ex.read(st, y) == x * spec_n(name, x))
        # derivative by the calculus rules: (x n)' = n + x sum 2 a x/(b-x^2)^2
        d = spec_n(name, x)
        for a, b in EQ[name][1]:
            d = d + x * (2 * R(a) * x / ((R(b) - x * x) * (R(b) - x * x)))
        v.goal(name + " derivative", st, v.ex.read(st, z) == d)
        v.reachable(st, "end")
        v.discharge()
    return run



DRIVER2 = '''#include "core/base.h"
using namespace especia;
namespace drv {
void F (const real &x, real &y, real &z);
real solve (real c, real x, real goal, natural n) { return especia::solve<real> (F, c, x, goal, n); }
}
'''


def newton(out):
    """every return of the solver is a Newton iterate that meets the accuracy goal, an error is raised only when none of the allowed iterates does"""
    u = unit(DRIVER2)
    v = V(out, u)
    ex = v.ex
    f, d = z3.Function("f", Real, Real), z3.Function("f'", Real, Real)
    c, x0, goal, n = v.real("c"), v.real("start"), v.real("goal"), v.nat("limit", 0, 2 ** 32 - 1)
    X = z3.Function("iterate", Int, Real)
    k = z3.Int("k_")
    v.assume(X(0) == x0)
    v.assume(forall([k], z3.Implies(k >= 0, X(k + 1) == X(k) - (f(X(k)) - c) / d(X(k))), [X(k + 1)]))
    met = lambda i: z3.If(X(i + 1) - X(i) >= 0, X(i + 1) - X(i), X(i) - X(i + 1)) < goal * X(i + 1)
    calls = v.cell(z3.IntVal(0), "evaluations")

    def F(ex, st, fn, args, this):
        x = ex.rv(st, args[0])
        ex.write(st, args[1], f(x))
        ex.write(st, args[2], d(x))
        ex.write(st, calls, st.store[calls.cell] + 1)
        return None
    ex.contracts["drv::F"] = F

    def loop(ex, node, st):
        if ex.frames[-1].fn["name"] != "solve":
            return None
        xs = [lv for lv in ex.frames[-1].env.values() if isinstance(lv, LV) and not lv.path and isinstance(st.store.get(lv.cell), z3.ExprRef) and z3.eq(st.store[lv.cell], x0)]
        if len(xs) != 1:
            return None
        x, fl = xs[0], [lv for lv in ex.frames[-1].env.values() if isinstance(lv, LV) and not lv.path and isinstance(st.store.get(lv.cell), z3.ExprRef) and st.store[lv.cell].sort() == Int]
        zero = [lv for lv in fl if z3.is_int_value(z3.simplify(st.store[lv.cell]))]

        def inv(ex, s):
            i = s.store[calls.cell]
            r = [("the iterate", z3.And(s.store[x.cell] == X(i), i >= 0, i <= n)), ("no iterate so far met the goal", forall([k], z3.Implies(z3.And(k >= 0, k < i), z3.Not(met(k))), [X(k + 1)]))]
            for lv in zero:
                w = s.store[lv.cell]
                w0 = z3.simplify(st.store[lv.cell])
                r.append(("iteration counter", w == w0 + i))
            return r
        return inv
    ex.invariants.append(loop)
    r, st, thr = v.call("drv::solve", [c, x0, goal, n])
    i = st.store[calls.cell]
    v.goal("C17: a returned value is an iterate of Newton's method", st, z3.And(i > 0, i <= n, r == X(i)))
    v.goal("C17: a returned value meets the accuracy goal", st, met(i - 1))
    for t in thr:
        v.goal("C17: an error is raised only if no iterate meets the accuracy goal", t.st, z3.Implies(z3.And(k >= 0, k < n), z3.Not(met(k))))
    v.goal("C17: missing the accuracy goal is an error", [], z3.BoolVal(len(thr) > 0))
    v.reachable(st, "end")
    v.discharge()


SOLVED = z3.Function("solution of edlen66 (x) = c", Real, Real)
EDLEN = z3.Function("edlen66", Real, Real)
UNSOLVED = z3.Function("no solution found", Real, Bool)
GETOK = z3.Function("data can be read", Int, Bool)
ROWS = z3.Function("rows of data", Int, Int)
COL = [z3.Function("column %s" % c, Int, z3.ArraySort(Int, Real)) for c in "xyz"]


def tool(name):
    def run(out):
        u = unit('#include <iostream>\n#include <sstream>\n#include "core/base.h"\n#include "core/dataio.h"\n#include "core/equations.h"\n#include "core/exitcodes.h"\n#define main tool_main\n#include "util/%s.cxx"\n' % name)
        v = V(out, u)
        ex = v.ex
        SS = Streams(v)
        for s in ("cerr", "cout"):
            SS.std[s] = SS.output(s)
        SS.std["cin"] = SS.input("cin", fail=z3.BoolVal(False), bad=z3.BoolVal(False), eof=z3.BoolVal(False))
        n = v.nat("argument count", 1, 2 ** 20)
        argv = ex.fconst(z3.ArraySort(Int, S), "argv")
        lv = v.cell(Seq(("str",), n, argv, "raw"), "argv")
        arg = lambda i: sel(argv, i)
        ZERO = z3.IntVal(0)
        log = v.cell(Rec("events", {"put": ZERO, "usage": ZERO}), "events")
        puts = []

        def count(st, what):
            e = dict(st.store[log.cell].f)
            e[what] = e[what] + 1
            ex.write(st, log, Rec("events", e))

        def get(ex, st, fn, args, this):
            if len(args) != 5 or not (isinstance(args[0], LV) and args[0].cell == SS.std["cin"].cell):
                raise Unsupported("source of the data")
            f = dict(ex.read(st, args[0], False).f)
            a = [ex.rv(st, x) for x in args[1:]]
            skip = a[3]
            st.pc.append(z3.And(ROWS(skip) >= 0, ROWS(skip) < 2 ** 30, z3.Implies(GETOK(skip), ROWS(skip) > 0)))
            for t, old, c in zip(args[1:4], a, COL):
                ex.write(st, t, Seq(("real",), z3.If(GETOK(skip), ROWS(skip), old.size), z3.If(GETOK(skip), c(skip), z(old.data)), "valarray"))
            f["fail"], f["eof"] = z3.Not(GETOK(skip)), ex.fconst(Bool, "eof")
            ex.write(st, args[0], Rec(ex.read(st, args[0], False).cls, f))
            return args[0]

        def put(ex, st, fn, args, this):
            if len(args) != 4 or not (isinstance(args[0], LV) and args[0].cell == SS.std["cout"].cell):
                raise Unsupported("target of the data")
            count(st, "put")
            puts.append((st.fork(), [ex.rv(st, x) for x in args[1:]]))
            return args[0]

        def usage(ex, st, fn, args, this):
            count(st, "usage")
            return None

        def solve(ex, st, fn, args, this):
            g = args[0]
            g = ex.rv(st, g) if isinstance(g, LV) else g
            if not isinstance(g, Fn):
                raise Unsupported("equation solved")
            nm = u.decl.get(g.ref, {}).get("name") or ex.extnames.get(g.ref)
            if nm not in EQ:
                raise Unsupported("equation solved")
            v.goal("C17: the equation solved is that of edlen66", [], z3.BoolVal(nm == "edlen66"))
            c, goal = ex.rv(st, args[1]), ex.rv(st, args[3])
            v.goal("C17: the accuracy goal is at least 1E-08", st, z3.And(goal > 0, goal <= R("1.0E-08")))
            ex.maythrow(st, UNSOLVED(c), Rec("runtime_error", {}))
            return SOLVED(c)
        def edlen(ex, st, fn, args, this):
            if len(args) != 1:
                raise Unsupported("equation with derivative")
            return EDLEN(ex.rv(st, args[0]))
        ex.contracts.update({"especia::Equations::edlen66": edlen, "especia::get": get, "especia::put": put, "write_usage_message": usage, "especia::solve": solve})
        first = 2 if name == "helicorr" else 1
        skip = z3.If(n == first + 1, VAL["nat"](SRC(arg(first)), ZERO), 0)
        conv = {"airtovac": lambda x: 10 / SOLVED(10 / x), "vactoair": lambda x: 10 / EDLEN(10 / x)}.get(name)
        k = z3.Int("k_")

        def loop(ex, node, st):
            if ex.frames[-1].fn["name"] != "tool_main":
                return None
            env = [lv for lv in ex.frames[-1].env.values() if isinstance(lv, LV) and not lv.path and lv.cell in st.store]
            xs = [lv for lv in env if isinstance(st.store[lv.cell], Seq) and st.store[lv.cell].kind == "valarray" and "column x" in str(st.store[lv.cell].data)]
            ns = [lv for lv in env if isinstance(st.store[lv.cell], z3.ExprRef) and st.store[lv.cell].sort() == Int and z3.is_int_value(z3.simplify(st.store[lv.cell]))]
            if not conv or len(xs) != 1 or len(ns) != 1:
                return None
            x0 = st.store[xs[0].cell]

            def inv(ex, s):
                x, i = s.store[xs[0].cell], s.store[ns[0].cell]
                return [("rows converted", z3.And(i >= 0, i <= x0.size, x.size == x0.size)),
                        ("converted wavelengths", forall([k], z3.Implies(z3.And(k >= 0, k < i), sel(z(x.data), k) == conv(sel(COL[0](skip), k))), [sel(z(x.data), k)])),
                        ("wavelengths to convert", forall([k], z3.Implies(z3.And(k >= i, k < x0.size), sel(z(x.data), k) == sel(COL[0](skip), k)), [sel(z(x.data), k)]))]
            return inv
        ex.invariants.append(loop)
        if name == "helicorr":
            vel = VAL["real"](SRC(arg(1)), ZERO)
            velok = OK["real"](SRC(arg(1)), ZERO)
        fn = [f for f in u.funcs if f["name"] == "tool_main"][0]
        r, st, thr = v.call(fn, [n, Ptr(lv, ZERO)])
        e = st.store[log.cell].f
        valid = z3.And(z3.Or(n == first, n == first + 1), z3.Implies(n == first + 1, OK["nat"](SRC(arg(first)), ZERO)))
        if name == "helicorr":
            valid = z3.And(valid, velok)
            v.goal("C17: usage message without arguments", st, (n == 1) == (e["usage"] == 1))
        inr = z3.And(k >= 0, k < ROWS(skip))
        if name == "airtovac":
            v.goal("C17: data are written once or an error is raised", st, z3.Implies(z3.And(valid, GETOK(skip)), z3.Or(z3.And(r == 0, e["put"] == 1), z3.And(r != 0, e["put"] == 0))))
        else:
            v.goal("C17: readable data are converted and written", st, z3.Implies(z3.And(valid, GETOK(skip)), z3.And(r == 0, e["put"] == 1)))
        v.goal("C17: unreadable data are an error and nothing is written", st, z3.Implies(z3.And(valid, z3.Not(GETOK(skip))), z3.And(r != 0, e["put"] == 0)))
        v.goal("C17: invalid arguments are an error and nothing is written", st, z3.Implies(z3.And(z3.Not(valid), z3.Not(z3.And(n == 1, first == 2))), z3.And(r != 0, e["put"] == 0)))
        v.goal("C17: success means that data were written", st, z3.Implies(z3.And(r == 0, z3.Not(z3.And(n == 1, first == 2))), e["put"] == 1))
        v.goal("C17: the tool writes data", [], z3.BoolVal(len(puts) > 0))
        for s, (x, y, w) in puts:
            rows = ROWS(skip)
            v.goal("C17: all rows are written", s, z3.And(x.size == rows, y.size == rows, w.size == rows))
            a = sel(COL[0](skip), k)
            if name == "helicorr":
                b = sel(z(x.data), k)
                c = R("299792458.0")
                q = (1 + vel / c) / (1 - vel / c)
                dop = terms.MATH["sqrt"](q)
                v.goal("C17: wavelengths are multiplied by the relativistic Doppler factor", s, z3.Implies(z3.And(inr, vel != 0), b == a * dop))
                v.goal("C17: zero velocity leaves wavelengths unchanged", s, z3.Implies(z3.And(inr, vel == 0), b == a))
            else:
                v.goal("C17: the wavelength of each row is converted", s, z3.Implies(inr, sel(z(x.data), k) == conv(a)))
            for nm, q, c in (("second", y, COL[1]), ("third", w, COL[2])):
                v.goal("C17: the %s column passes through" % nm, s, z3.Implies(inr, sel(z(q.data), k) == sel(c(skip), k)))
        v.goal("C17: errors are reported by the exit code", [], not thr)
        v.reachable(st, "end")
        v.discharge()
    return run


UNITS = [(n, eq_unit(n)) for n in EQ] + [("newton", newton)] + [(n, tool(n)) for n in ("airtovac", "vactoair", "helicorr")]
