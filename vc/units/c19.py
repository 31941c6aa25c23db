"""C19: rows of spectral data are filtered and completed as documented."""
from core import *
from streams import *
import streams
from units.c18 import LineReader, row, locals_of, is_int, is_vec, NL, ZERO
from units import c11

DRIVER = '''#include <iostream>
#include "core/section.cxx"
using namespace especia;
namespace drv {
void get (Section &s, std::istream &is, real a, real b) { s.get (is, a, b); }
void put (const Section &s, std::ostream &os, real a, real b) { s.put (os, a, b); }
}
'''
NAMES = ("wav", "flx", "unc", "msk")
OTHER = ("opt", "atm", "cat", "cfl", "tfl", "fit", "res")


class Get:
    def __init__(self, out):
        self.u = unit(DRIVER)
        self.v = v = V(out, self.u)
        self.ex = ex = v.ex
        S = Streams(v)
        self.r = r = LineReader(v, S)
        self.a, self.b = a, b = v.real("a"), v.real("b")
        s = v.obj("especia::Section", "section")
        before = v.st.store[s.cell]
        for k in NAMES + OTHER + ("n",):
            if k not in before.f:
                raise Unsupported("fields of a section")
        k, j = z3.Int("k_"), z3.Int("j_")
        # number of rows kept among the first k lines
        self.CNT = CNT = z3.Function("rows kept", Int, Int)
        v.assume(CNT(0) == 0)
        v.assume(forall([k], z3.Implies(k >= 0, CNT(k + 1) == z3.If(self.keep(k), CNT(k) + 1, CNT(k))), [CNT(k)]))
        ex.invariants.append(self.loop)
        st, thr = v.call("drv::get", [s, r.io, a, b])[1:]
        f, N = st.store[r.io.cell].f, r.count(st)
        failed = z3.Or(f["fail"], f["bad"])
        x = st.store[s.cell].f
        # the data end at the end of the text or at an empty line, which is the last line read
        stopped = z3.And(N > 0, self.empty(N - 1))
        ends = z3.Or(stopped, z3.Not(r.readable(N)))
        allok = forall([k], z3.Implies(z3.And(k >= 0, k < N), z3.Or(self.ok(k), z3.And(k == N - 1, self.empty(k)))), [CNT(k)])
        v.goal("C19: all lines up to the end of the data can be read", st, z3.Implies(z3.Not(failed), z3.And(r.good0, ends, allok)))
        v.goal("C19: the section has the rows kept", st, z3.Implies(z3.Not(failed), z3.And(x["n"] == CNT(N), CNT(N) > 0)))
        v.goal("C19: a failure is a malformed row, an empty selection or a broken input", st, z3.Implies(failed, z3.Or(z3.Not(r.good0), z3.And(ends, CNT(N) == 0), z3.And(N > 0, z3.Not(self.empty(N - 1)), z3.Not(self.ok(N - 1))))))
        for c, nm in enumerate(NAMES):
            q = x[nm]
            v.goal("C19: size of %s" % nm, st, z3.Implies(z3.Not(failed), q.size == CNT(N)))
            v.goal("C19: %s of each row kept, in order" % nm, st, z3.Implies(z3.And(z3.Not(failed), k >= 0, k < N, self.keep(k)), z3.And(CNT(k) >= 0, CNT(k) < CNT(N), sel(z(q.data), CNT(k)) == self.val(c, k))), inst=None)
        v.goal("C19: the other columns have the same size", st, z3.Implies(z3.Not(failed), z3.And(*[x[nm].size == CNT(N) for nm in OTHER])))
        same = [x["n"] == before.f["n"]] + [x[nm].size == before.f[nm].size for nm in NAMES]
        v.goal("C19: a failure leaves the section unchanged", st, z3.Implies(failed, z3.And(*same, *[forall([j], z3.Implies(z3.And(j >= 0, j < x[nm].size), sel(z(x[nm].data), j) == sel(z(before.f[nm].data), j))) for nm in NAMES])))
        v.goal("C19: no error is raised", [], not thr)
        v.reachable(st, "end")
        v.discharge()

    def text(self, k):
        return self.r.line(k)

    def empty(self, k):
        return self.text(k) == z3.Const("str:''", streams.S)

    def comment(self, k):
        c = CHAR(self.text(k), 0)
        return z3.Or(*[c == ord(x) for x in "#%!"])

    def ok(self, k):
        """a line inside the data: not empty, and a comment or a row with two numbers"""
        return z3.And(z3.Not(self.empty(k)), z3.Or(self.comment(k), row(self.text(k), 2)[1][1]))

    def keep(self, k):
        v, ok = row(self.text(k), 2)
        return z3.And(z3.Not(self.empty(k)), z3.Not(self.comment(k)), ok[1], self.a <= v[0], v[0] <= self.b)

    def val(self, c, k):
        v, ok = row(self.text(k), 4)
        return [v[0], v[1], z3.If(ok[2], v[2], 1), z3.If(ok[3], v[3], True)][c]

    def loop(self, ex, node, st):
        if ex.frames[-1].fn["name"] != "get" or not any(is_vec(st.store.get(lv.cell)) for lv in ex.frames[-1].env.values() if isinstance(lv, LV)):
            return None
        vs = locals_of(self.u, ex, st, is_vec)
        ns = locals_of(self.u, ex, st, lambda x: is_int(x) and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0)
        if len(vs) != 4:
            return None
        # the vectors are told apart by type and by the target they are copied to: masks first or last
        bools = [lv for lv in vs if st.store[lv.cell].elt == ("bool",)]
        reals = [lv for lv in vs if lv not in bools]
        if len(bools) != 1:
            return None
        r, k, CNT = self.r, z3.Int("k_"), self.CNT

        def inv(ex, s):
            N = r.count(s)
            x = r.inv(s) + [("all lines so far can be read", forall([k], z3.Implies(z3.And(k >= 0, k < N), self.ok(k)), [CNT(k)])),
                            ("rows are counted", z3.And(CNT(N) >= 0, CNT(N) <= N, forall([k], z3.Implies(z3.And(k >= 0, k <= N), z3.And(CNT(k) >= 0, CNT(k) <= CNT(N))), [CNT(k)]), forall([k], z3.Implies(z3.And(k >= 0, k < N, self.keep(k)), CNT(k) < CNT(N)), [CNT(k)])))]
            for n in ns:
                x.append(("row counter", s.store[n.cell] == CNT(N)))
            for c, lv in enumerate(reals + bools):
                q = s.store[lv.cell]
                x.append((NAMES[c] + " kept", z3.And(q.size == CNT(N), forall([k], z3.Implies(z3.And(k >= 0, k < N, self.keep(k)), sel(z(q.data), CNT(k)) == self.val(c, k)), [CNT(k)]))))
            return x
        return inv


def put(out):
    u = unit(DRIVER)
    v = V(out, u)
    ex = v.ex
    S = Streams(v)
    to = S.output("out", fail=ex.fconst(Bool, "fail"), bad=ex.fconst(Bool, "bad"), eof=z3.BoolVal(False))
    f0 = v.st.store[to.cell].f
    for q in ("flt", "adj", "prec"):
        f0[q] = ex.fconst(Int, q)
    v.assume(f0["width"] == 0)
    s = v.obj("especia::Section", "section")
    x = v.st.store[s.cell].f
    n = x["n"]
    v.assume(z3.And(n >= 0, n < 2 ** 30, *[x[nm].size == n for nm in NAMES + OTHER]))
    a, b = v.real("a"), v.real("b")
    d = lambda nm, k: sel(z(x[nm].data), k)
    LOG = z3.Function("written", Int, Int)
    k = z3.Int("k_")
    W, PR, SC = z3.IntVal(16), z3.IntVal(8), z3.IntVal(2)
    num = lambda l, y: PUT["real"](l, y, W, PR, SC)
    l = LOG(k)
    for nm in ("wav", "flx", "unc"):
        l = num(l, d(nm, k))
    l = PUT["bool"](l, d("msk", k), z3.IntVal(3), ZERO, ZERO)
    for nm in OTHER:
        l = num(l, d(nm, k))
    l = num(num(l, d("flx", k) / d("cfl", k)), d("unc", k) / d("cfl", k))
    l = PUT["char"](l, NL, ZERO, ZERO, ZERO)
    v.assume(LOG(0) == f0["src"])
    v.assume(forall([k], z3.Implies(k >= 0, LOG(k + 1) == z3.If(z3.And(a <= d("wav", k), d("wav", k) <= b), l, LOG(k))), [LOG(k)]))

    def loop(ex, node, st):
        ns = locals_of(u, ex, st, lambda x: is_int(x) and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0)
        if ex.frames[-1].fn["name"] != "put" or len(ns) != 1:
            return None
        f1 = st.store[to.cell].f

        def inv(ex, s):
            f, i = s.store[to.cell].f, s.store[ns[0].cell]
            return [("rows written", z3.And(i >= 0, i <= n, f["src"] == LOG(i))), ("format", z3.And(*[f[q] == f1[q] for q in ("flt", "adj", "prec", "fail", "bad", "eof", "width")]))]
        return inv
    ex.invariants.append(loop)
    st, thr = v.call("drv::put", [s, to, a, b])[1:]
    f = st.store[to.cell].f
    good = z3.Not(z3.Or(f0["fail"], f0["bad"]))
    v.goal("C19: the rows of the interval are written in order, starting with wavelength, flux, uncertainty and mask", st, z3.Implies(good, f["src"] == LOG(n)))
    v.goal("C19: nothing is written to a broken stream", st, z3.Implies(z3.Not(good), f["src"] == f0["src"]))
    v.goal("C19: the format of the stream is restored", st, z3.And(f["flt"] == f0["flt"], f["adj"] == f0["adj"]))
    v.goal("C19: no error is raised", [], not thr)
    v.reachable(st, "end")
    v.discharge()


UNITS = [("reading a section", Get), ("writing a section", put)]
