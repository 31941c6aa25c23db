"""C08: configuration of the optimizer."""
from core import *
from units import member

DRIVER = '''#include "optimizer.h"
#include "core/optimizer.cxx"
'''
log, sqrt = MATH["log"], MATH["sqrt"]
B = "especia::Optimizer::Builder"
PLAIN = ("n", "parent_number", "population_size", "update_modulus", "accuracy_goal", "random_seed", "stop_generation")
RATES = ("wv", "cs", "cc", "acov", "ccov", "step_size_damping")


def r(x):
    return expr.real_const(float(x))


def weight(mu, i):
    return log((z3.ToReal(mu) + r(0.5)) / (z3.ToReal(i) + 1))


def rates(n, mu):
    """Hansen & Ostermeier (2001), Hansen (2014) as documented"""
    n = z3.ToReal(n)
    s1 = SUMF(lambda i: weight(mu, i), 0, mu)
    s2 = SUMF(lambda i: weight(mu, i) * weight(mu, i), 0, mu)
    wv = s1 * s1 / s2
    cs = (wv + 2) / (wv + n + 5)
    cc = (4 + wv / n) / (n + 4 + 2 * wv / n)
    acov = 2 / ((n + r(1.3)) * (n + r(1.3)) + wv)
    e = 2 * (wv - 2 + 1 / wv) / ((n + 2) * (n + 2) + wv)
    ccov = ite(e < 1 - acov, e, 1 - acov)
    t = sqrt((wv - 1) / (n + 1)) - 1
    damp = 1 + cs + 2 * ite(t > 0, t, z3.RealVal(0))
    return dict(wv=wv, cs=cs, cc=cc, acov=acov, ccov=ccov, step_size_damping=damp)


def inv(v, st, obj, n, mu):
    """strategy parameters are the functions of dimension and parent number"""
    rd = lambda f: v.ex.read(st, obj.fld(f), False)
    w = rd("weights")
    q = z3.Int("q")
    out = [("number of weights", w.size == mu), ("weights", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < mu), sel(w.data, q) == weight(mu, q))))]
    sp = rates(n, mu)
    return out + [(k, rd(k) == sp[k]) for k in RATES]


def builder(v):
    obj = v.obj(B)
    rd = lambda f: v.ex.read(v.st, obj.fld(f), False)
    v.assume(z3.And(rd("n") >= 1, rd("n") < 2 ** 16, rd("parent_number") >= 1, rd("parent_number") < 2 ** 30))
    return obj, rd


def strategy_unit(out):
    u = unit(DRIVER)
    v = V(out, u)
    obj, rd = builder(v)
    old = {k: rd(k) for k in PLAIN}
    x, st, thr = v.call(B + "::with_strategy_parameters", [], this=obj)
    for nm, g in inv(v, st, obj, old["n"], old["parent_number"]):
        v.goal(nm, st, g)
    for k in PLAIN:
        v.goal("%s is not altered" % k, st, v.ex.read(st, obj.fld(k)) == old[k])
    q = v.ex.fconst(Int, "q")
    mu = old["parent_number"]
    v.goal("weights are positive", st, z3.Implies(z3.And(q >= 0, q < mu), sel(rd2(v, st, obj, "weights").data, q) > 0))
    v.goal("no exception", [], not thr)
    v.reachable(st, "end")
    v.discharge()


def rd2(v, st, obj, f):
    return v.ex.read(st, obj.fld(f), False)


def contract_strategy(ex, st, fn, args, this):
    """contract of with_strategy_parameters (proved by strategy_unit): establishes the invariant for the current settings"""
    rd = lambda f: ex.read(st, this.fld(f), False)
    n, mu = rd("n"), rd("parent_number")
    w = rd("weights")
    f = lambda nm: z3.Function("sp_" + nm, Int, Int, Real)
    W = z3.Function("sp_weights", Int, z3.ArraySort(Int, Real))
    ex.write(st, this.fld("weights"), Seq(w.elt, mu, W(mu), w.kind))
    for k in RATES:
        ex.write(st, this.fld(k), f(k)(n, mu))
    return None


def setup(v, obj):
    """a builder that satisfies the invariant (strategy parameters abstracted as functions of n and parent number)"""
    s = v.st.store[obj.cell]
    n, mu = s.f["n"], s.f["parent_number"]
    f = dict(s.f)
    for k in RATES:
        f[k] = z3.Function("sp_" + k, Int, Int, Real)(n, mu)
    f["weights"] = Seq(f["weights"].elt, mu, z3.Function("sp_weights", Int, z3.ArraySort(Int, Real))(mu), f["weights"].kind)
    v.st.store[obj.cell] = Rec(s.cls, f)


SETTERS = {"with_problem_dimension": "n", "with_parent_number": "parent_number", "with_population_size": "population_size",
           "with_covariance_update_modulus": "update_modulus", "with_accuracy_goal": "accuracy_goal", "with_random_seed": "random_seed",
           "with_stop_generation": "stop_generation"}


def check_inv(v, st, obj, tag):
    rd = lambda f: v.ex.read(st, obj.fld(f), False)
    n, mu = rd("n"), rd("parent_number")
    for k in RATES:
        v.goal("%s: %s belongs to the configured dimension and parent number" % (tag, k), st, rd(k) == z3.Function("sp_" + k, Int, Int, Real)(n, mu))
    w = rd("weights")
    q = z3.Int("q")
    W = z3.Function("sp_weights", Int, z3.ArraySort(Int, Real))(mu)
    v.goal(tag + ": number of weights", st, w.size == mu)
    v.goal(tag + ": weights", st, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < mu), sel(w.data, q) == sel(W, q))))


def setter_unit(name):
    fld = SETTERS[name]

    def run(out):
        u = unit(DRIVER)
        v = V(out, u, contracts={B + "::with_strategy_parameters": contract_strategy})
        obj, rd = builder(v)
        setup(v, obj)
        old = {k: rd(k) for k in PLAIN}
        if fld == "accuracy_goal":
            a = v.real("value")
        elif fld == "random_seed":
            a = v.nat("value", 0, 2 ** 64 - 1)
        else:
            a = v.nat("value", 0, 2 ** 32 - 1)
        if fld == "n":
            v.assume(a >= 1)
        x, st, thr = v.call(B + "::" + name, [a], this=obj)
        v.goal(fld + " is set", st, v.ex.read(st, obj.fld(fld)) == a)
        for k in PLAIN:
            if k == fld:
                continue
            new = v.ex.read(st, obj.fld(k))
            if k == "population_size" and fld == "parent_number":
                v.goal("population size is reset to twice the parent number", st.pc + [a < 2 ** 31], new == 2 * a)
                if_wrap = z3.Implies(a >= 2 ** 31, new / 2 < a)
                v.goal("a parent number too large for its population is left for build() to reject", st, if_wrap)
            else:
                v.goal(k + " is not altered", st, new == old[k])
        check_inv(v, st, obj, name)
        if fld == "parent_number":
            v.goal("zero is rejected", st, a >= 1)
            v.goal("only zero is rejected", [], len(thr) == 1)
            for t in thr:
                v.goal("rejected value", t.st, a == 0)
                v.goal("error type", [], t.val.cls.endswith("invalid_argument"))
        else:
            v.goal("no exception", [], not thr)
        v.goal("returns the builder", [], isinstance(x, LV) and x.same(obj))
        v.reachable(st, "end")
        v.discharge()
    return run


def ctor_unit(out):
    u = unit(DRIVER)
    v = V(out, u, contracts={B + "::with_strategy_parameters": contract_strategy})
    obj, st, thr = v.construct(B, [])
    check_inv(v, st, obj, "construction")
    v.goal("positive parent number", st, v.ex.read(st, obj.fld("parent_number")) >= 1)
    v.goal("population size is twice the parent number", st, v.ex.read(st, obj.fld("population_size")) == 2 * v.ex.read(st, obj.fld("parent_number")))
    v.discharge()


def defaults_unit(out):
    u = unit(DRIVER)
    v = V(out, u, contracts={B + "::with_strategy_parameters": contract_strategy})
    obj, rd = builder(v)
    setup(v, obj)
    x, st, thr = v.call(B + "::with_defaults", [], this=obj)
    check_inv(v, st, obj, "with_defaults")
    for k, val in (("n", 10), ("parent_number", 20), ("population_size", 40), ("update_modulus", 1), ("stop_generation", 1000)):
        v.goal("default " + k, st, v.ex.read(st, obj.fld(k)) == val)
    v.discharge()


def build_unit(out):
    u = unit(DRIVER)
    v = V(out, u, opaque={"especia::Normal_Deviate<especia::Melg19937_64>": {}, "especia::Decompose": {}, "especia::D_Decompose": {}, "especia::R_Decompose": {}, "especia::X_Decompose": {}},
          contracts={})
    made = []

    def libctor(ex, t, args, ats, st, n):
        return NotImplemented

    def octor(ex, t, argn, st, n):
        return NotImplemented
    obj, rd = builder(v)
    old = {k: rd(k) for k in PLAIN}
    P, m = rd("population_size"), rd("parent_number")
    # the optimizer constructor copies the builder: contract
    def ctor(ex, st, fn, args, this):
        made.append(ex.rv(st, args[0]))
        return None
    v.ex.contracts["especia::Optimizer::Optimizer"] = ctor
    x, st, thr = v.call(B + "::build", [], this=obj)
    v.goal("population of at least twice the parents", st, P >= 2 * m)
    v.goal("one kind of rejection", [], len(thr) == 1)
    for t in thr:
        v.goal("rejected only when too small", t.st, P < 2 * m)
        v.goal("error type", [], t.val.cls.endswith("invalid_argument"))
    v.reachable(st, "built")
    v.discharge()


UNITS = [("with_strategy_parameters", strategy_unit), ("Builder()", ctor_unit), ("with_defaults", defaults_unit), ("build", build_unit)] + [(k, setter_unit(k)) for k in SETTERS] + member.units("C08")
