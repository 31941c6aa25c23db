"""C07: parameter uncertainties rescaled by the measured curvature."""
from core import *
from units import gen, member
from units.c12 import loops_of
from units.gen import RA, OBJ, COST, sqrt, exp

log = MATH["log"]
CURV = z3.Function("curvature", Real, Int, Real)    # name of the second difference (curvature below)


class Uncertainties:
    def __init__(self, out):
        self.u = u = unit(gen.DRIVER)
        self.v = v = V(out, u, timeout=6000)
        self.ex = ex = v.ex
        self.n = n = v.nat("n", 1, 2 ** 15)
        self.fn = v.find("especia::postopti")
        self.s = v.real("s")
        v.assume(self.s > 0)
        objs = [v.cell(Rec(c, {}), c) for c in ("Fn", "Cn")]
        (lx, self.x), (ld, self.d), (lB, self.B), (lC, self.C), (lz, _) = [v.array(a, sz) for a, sz in (("x", n), ("d", n), ("B", n * n), ("C", n * n), ("z", n))]
        self.lz = lz
        self.steps, _ = v.array("steps", n)     # ghost: the last step along each axis
        self.sl = self.steps
        self.args = objs + [n] + [Ptr(l, z3.IntVal(0)) for l in (lx, ld, lB, lC)] + [self.s, Ptr(lz, z3.IntVal(0))]
        fn = lambda f: (lambda ex, st, args, lv: f(gen.arr_of(ex, st, ex.rv(st, args[0])), self.count(ex, st, args)))
        ex.opaque.update({"Fn": {"operator()": fn(OBJ)}, "Cn": {"is_violated": fn(gen.VIOL), "cost": fn(COST)}})
        ls = loops_of(u, self.fn)
        if len(ls) < 2 or [l["kind"] for l in ls[:2]] != ["ForStmt", "DoStmt"]:
            raise Unsupported("loop structure of the uncertainty estimate")
        h = {ls[0]["id"]: self.axes, ls[1]["id"]: self.step}
        ex.invariants.append(lambda ex, node, st: h[node["id"]](st) if node.get("id") in h else None)

    def count(self, ex, st, args):
        p, n = ex.rv(st, args[0]), ex.rv(st, args[1])
        ex.note_range(st, p, n, "r")
        return n

    def value(self, a):
        return OBJ(a, self.n) + COST(a, self.n)

    def curvature(self, c, j):
        """second difference of the objective along axis j for the step c"""
        p, q = [lam(lambda i: sel(self.x, i) + sg * c * sel(self.B, j * self.n + i) * sel(self.d, j)) for sg in (1, -1)]
        return self.value(p) + self.value(q) - 2 * self.value(self.x)

    def good(self, c, j, g):
        k = CURV(c, j)
        return z3.And(c > 0, g == c / sqrt(z3.If(k >= 0, k, -k)))

    def loc(self, st, name):
        x = self.ex.local(st, name)
        return z(x.data) if isinstance(x, Seq) else x

    def axes(self, st0):
        q = z3.Int("q_")
        n = self.n

        def inv(ex, st):
            j, g = self.loc(st, "j"), self.loc(st, "g")
            S = z(ex.read(st, self.sl, False).data)
            return [("range of the axis", z3.And(j >= 0, j <= n)), ("size", self.ex.local(st, "g").size == n),
                    ("the remaining axes start with the global step size", forall([q], z3.Implies(z3.And(q >= j, q < n), sel(g, q) == self.s), [sel(g, q)])),
                    ("C07: every finished axis has the step at which the parabola rises by one half", forall([q], z3.Implies(z3.And(q >= 0, q < j), self.good(sel(S, q), q, sel(g, q))), [sel(g, q)]))]
        return inv

    def step(self, st0):
        q = z3.Int("q_")
        j, g0 = self.loc(st0, "j"), self.loc(st0, "g")
        head = []

        def inv(ex, st):
            g, c = self.loc(st, "g"), self.loc(st, "c")
            head.append(c)
            return [("size", self.ex.local(st, "g").size == self.n), ("positive step", c > 0), ("other axes", forall([q], z3.Implies(q != j, sel(g, q) == sel(g0, q)), [sel(g, q)]))]

        def brk(ex, st):
            s = ex.read(st, self.sl, False)
            ex.write(st, self.sl, Seq(s.elt, s.size, z3.Store(z(s.data), j, head[1]), s.kind), False)
            return [("C07: the step of the axis gives the value", z3.Implies(CURV(head[1], j) == self.curvature(head[1], j), self.good(head[1], j, sel(self.loc(st, "g"), j))))]
        inv.brk = brk
        inv.known = lambda ex, st: [self.good(head[1], j, sel(self.loc(st, "g"), j))]
        return inv


def uncertainties(out):
    U = Uncertainties(out)
    v, ex, n = U.v, U.ex, U.n
    captured = []
    _, st, thr = v.call(U.fn, U.args)
    i = ex.fconst(Int, "i")
    Z = z(ex.read(st, U.lz, False).data)
    # the values along the axes are known through the invariant only: name them by the ghost steps
    S = z(ex.read(st, U.sl, False).data)

    def g(j):
        k = CURV(sel(S, j), j)
        return sel(S, j) / sqrt(z3.If(k >= 0, k, -k))
    h = exp(SUMF(lambda j: log(g(j)), 0, n) / z3.ToReal(n))
    v.goal("C07: uncertainties are the square roots of the covariance diagonal times the geometric mean of the steps", st, z3.Implies(z3.And(i >= 0, i < n), sel(Z, i) == h * sqrt(sel(U.C, i + i * n))))
    v.goal("C07: positive steps", st, z3.Implies(z3.And(i >= 0, i < n), sel(S, i) > 0))
    v.goal("C07: no error", [], not thr)
    # an exactly quadratic objective: the second difference is proportional to the square of the step
    c, k = v.real("c"), v.real("k")
    v.goal("C07: lemma: for a quadratic objective the step does not depend on the step size tried", [c > 0, k > 0, sqrt(k) > 0, sqrt(k) * sqrt(k) == k, sqrt(k * c * c) > 0, sqrt(k * c * c) * sqrt(k * c * c) == k * c * c],
           c / sqrt(k * c * c) == 1 / sqrt(k))
    v.reachable(st, "end")
    v.discharge()


UNITS = [("postopti", uncertainties)] + member.units("C07")
