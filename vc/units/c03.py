"""C03: search points and results never violate the constraint."""
from core import *
from units import gen, member

DRIVER = '''#include "model.h"
#include "profiles.h"
using namespace especia;
typedef Model<Intergalactic_Doppler>::Bounded_Constraint<real> Box;
namespace drv {
bool violated (const real a[], const real b[], natural n, const real x[]) { return Box (a, b, n).is_violated (x, n); }
real cost (const real a[], const real b[], natural n, const real x[]) { return Box (a, b, n).cost (x, n); }
}
'''


def constraint(out):
    u = unit(DRIVER)
    v = V(out, u)
    n = v.nat("n", 1, 2 ** 30)
    (la, a), (lb, b), (lx, x) = [v.array(s, n) for s in "abx"]
    y, st, thr = v.call("drv::violated", [Ptr(la, z3.IntVal(0)), Ptr(lb, z3.IntVal(0)), n, Ptr(lx, z3.IntVal(0))])
    i = v.ex.fconst(Int, "i")
    q = z3.Int("q")
    inside = lambda i: z3.And(sel(a, i) <= sel(x, i), sel(x, i) <= sel(b, i))
    v.goal("C03: a point that is not reported as violating lies in the box", st, z3.Implies(z3.And(z3.Not(y), i >= 0, i < n), inside(i)))
    v.goal("C03: a point in the box is not reported as violating", st, z3.Implies(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), inside(q))), z3.Not(y)))
    v.goal("C03: no error", [], not thr)
    y, st, thr = v.call("drv::cost", [Ptr(la, z3.IntVal(0)), Ptr(lb, z3.IntVal(0)), n, Ptr(lx, z3.IntVal(0))])
    v.goal("C03: a box has no cost", st, y == 0)
    v.reachable(st, "end")
    v.discharge()


UNITS = gen.units("C03") + [("box (%s)" % c, gen.box(c)) for c in ("less", "greater")] + [("Bounded_Constraint", constraint), ("lemma: weighted mean", lean_unit("weighted_mean.lean", ["weighted_mean"]))] + member.units("C03")
