"""C18: data columns stay aligned through reading, merging and writing."""
from core import *
from streams import *
import streams

DRIVER = '''#include <iostream>
#include "core/dataio.cxx"
using namespace especia;
namespace drv {
typedef std::valarray<real> A;
void get2 (std::istream &is, A &x, A &y, natural skip) { especia::get (is, x, y, skip); }
void get3 (std::istream &is, A &x, A &y, A &z, natural skip) { especia::get (is, x, y, z, skip); }
void put (std::ostream &os, const A &x, const A &y, const A &z) { especia::put (os, x, y, z); }
}
'''
NL = z3.IntVal(10)
ZERO = z3.IntVal(0)


class LineReader:
    """input of lines: P (k), E (k) are position and end state in front of line k, a ghost counter has the number of lines read"""
    def __init__(self, v, S, **state):
        self.v, ex = v, v.ex
        self.io = S.input("in", **state)
        self.s0 = s0 = v.st.store[self.io.cell].f
        self.src = src = s0["src"]
        self.P, self.E = P, E = z3.Function("line position", Int, Int), z3.Function("line end", Int, Bool)
        k, p = z3.Int("k_"), z3.Int("p_")
        v.assume(z3.And(P(0) == s0["pos"], E(0) == s0["eof"]))
        v.assume(forall([k], z3.Implies(k >= 0, z3.And(P(k + 1) == LNXT(src, P(k), NL), E(k + 1) == LEND(src, P(k), NL))), [P(k)]))
        # a line that cannot be read from a good stream is the end of the text
        v.assume(forall([p], z3.Or(LOK(src, p, NL), LEND(src, p, NL)), [LOK(src, p, NL)]))
        # a text has fewer than 2^40 lines
        v.assume(forall([k], z3.Implies(z3.And(k >= 0, self.readable(k)), k < 2 ** 40), [P(k)]))
        self.ghost = v.cell(ZERO, "lines read")
        self.good0 = z3.Not(z3.Or(s0["fail"], s0["bad"]))
        old = ex.hooks["call"]

        def call(ex, nm, args, st, n):
            r = old(ex, nm, args, st, n)
            if nm == "getline" and isinstance(args[0], LV) and args[0].cell == self.io.cell:
                f, c = st.store[self.io.cell].f, st.store[self.ghost.cell]
                ex.write(st, self.ghost, z3.If(z3.Or(f["fail"], f["bad"]), c, c + 1))
            return r
        ex.hooks["call"] = call

    def line(self, k):
        return LVAL(self.src, self.P(k), NL)

    def count(self, s):
        return s.store[self.ghost.cell]

    def readable(self, k):
        """line k exists (given that all lines before exist)"""
        return z3.And(z3.Not(self.E(k)), LOK(self.src, self.P(k), NL))

    def inv(self, s):
        f, N = s.store[self.io.cell].f, self.count(s)
        k = z3.Int("k_")
        return [("the input is read line by line", z3.And(N >= 0, f["src"] == self.src, z3.Implies(self.good0, z3.And(z3.Not(f["fail"]), z3.Not(f["bad"]))), z3.Implies(z3.Not(self.good0), z3.And(N == 0, f["fail"] == self.s0["fail"], f["bad"] == self.s0["bad"])), f["pos"] == self.P(N), f["eof"] == self.E(N))),
                ("all lines read exist", z3.And(z3.Implies(N > 0, self.good0), forall([k], z3.Implies(z3.And(k >= 0, k < N), self.readable(k)), [self.P(k)])))]


def row(s, n):
    """numbers found in a line of text: value j and whether it can be read"""
    p, r, ok = ZERO, [], []
    e = z3.BoolVal(False)
    for j in range(n):
        k = "bool" if j == 3 else "real"
        ok.append(z3.And(*(ok[-1:] + [z3.Not(e), OK[k](SRC(s), p)])))
        r.append(VAL[k](SRC(s), p))
        p, e = NXT[k](SRC(s), p), END[k](SRC(s), p)
    return r, ok


def locals_of(u, ex, st, pred):
    fr = ex.frames[-1]
    params = {q["id"] for q in u.params(fr.fn)}
    vis = ex.visible(fr.fn, ex.inv_node)
    return [lv for i, lv in fr.env.items() if i not in params and i in vis and isinstance(lv, LV) and not lv.path and lv.cell in st.store and pred(st.store[lv.cell])]


def is_int(x):
    return isinstance(x, z3.ExprRef) and x.sort() == Int


def is_vec(x):
    return isinstance(x, Seq) and x.kind == "vector"


class Get:
    def __init__(self, out, cols):
        self.cols = cols
        self.u = unit(DRIVER)
        self.v = v = V(out, self.u)
        self.ex = ex = v.ex
        S = Streams(v)
        self.r = r = LineReader(v, S)
        self.skip = skip = v.nat("skip", 0, 2 ** 32 - 1)
        self.tgt = []
        for j in range(cols):
            sz = v.nat("size%d" % j, 0, 2 ** 30)
            self.tgt.append(v.array("column%d" % j, sz, kind="valarray") + (sz,))
        ex.invariants.append(self.loop)
        st, thr = v.call("drv::get%d" % cols, [r.io] + [t[0] for t in self.tgt] + [skip])[1:]
        f, N = st.store[r.io.cell].f, r.count(st)
        failed = z3.Or(f["fail"], f["bad"])
        k, j = z3.Int("k_"), z3.Int("j_")
        rows = z3.If(N > skip, N - skip, 0)
        ends = z3.Not(r.readable(N))
        allok = forall([k], z3.Implies(z3.And(k >= skip, k < N), self.ok(k)), [r.P(k)])
        v.goal("C18: success needs at least one row, all rows readable and the end of the file", st, z3.Implies(z3.Not(failed), z3.And(r.good0, ends, rows > 0, allok)))
        v.goal("C18: a failure is an unreadable row, an empty file or a broken input", st, z3.Implies(failed, z3.Or(z3.Not(r.good0), z3.And(ends, rows == 0), z3.And(N > skip, z3.Not(self.ok(N - 1))))))
        for c, (lv, a, sz) in enumerate(self.tgt):
            q = st.store[lv.cell]
            v.goal("C18: column %d has one value per row" % c, st, z3.Implies(z3.Not(failed), q.size == rows))
            v.goal("C18: value of column %d in row j is that of line skip + j" % c, st, z3.Implies(z3.And(z3.Not(failed), j >= 0, j < rows), sel(z(q.data), j) == self.val(c, j + skip)))
            v.goal("C18: a failure leaves column %d unchanged" % c, st, z3.Implies(failed, z3.And(q.size == sz, z3.Implies(z3.And(j >= 0, j < sz), sel(z(q.data), j) == sel(a, j)))))
        v.goal("C18: no error is raised", [], not thr)
        v.reachable(st, "end")
        v.discharge()

    def ok(self, k):
        return row(self.r.line(k), 2)[1][1]

    def val(self, c, k):
        r, ok = row(self.r.line(k), 3)
        return z3.If(ok[2], r[2], 0) if c == 2 else r[c]

    def loop(self, ex, node, st):
        if ex.frames[-1].fn["name"] != "get":
            return None
        vs = locals_of(self.u, ex, st, is_vec)
        ns = locals_of(self.u, ex, st, lambda x: is_int(x) and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0)
        ps = [ex.frames[-1].env[q["id"]] for q in self.u.params(ex.frames[-1].fn)]
        ps = [lv for lv in ps if isinstance(lv, LV) and is_int(st.store.get(lv.cell))]
        if len(vs) != self.cols or len(ps) != 1:
            return None
        r, skip, k = self.r, self.skip, z3.Int("k_")

        def inv(ex, s):
            N = r.count(s)
            rows = z3.If(N > skip, N - skip, 0)
            x = r.inv(s) + [("lines left to skip", s.store[ps[0].cell] == z3.If(N > skip, 0, skip - N)),
                            ("all rows so far can be read", forall([k], z3.Implies(z3.And(k >= skip, k < N), self.ok(k)), [r.P(k)]))]
            for n in ns:
                x.append(("row counter", s.store[n.cell] == rows))
            for c, lv in enumerate(vs):
                q = s.store[lv.cell]
                x.append(("column %d" % c, z3.And(q.size == rows, forall([k], z3.Implies(z3.And(k >= 0, k < rows), sel(z(q.data), k) == self.val(c, k + skip)), [sel(z(q.data), k)]))))
            return x
        return inv


def writer(third):
    def run(out):
        u = unit(DRIVER)
        v = V(out, u)
        ex = v.ex
        S = Streams(v)
        to = S.output("out", fail=ex.fconst(Bool, "fail"), bad=ex.fconst(Bool, "bad"), eof=z3.BoolVal(False))
        f0 = v.st.store[to.cell].f
        for q in ("flt", "adj", "prec"):
            f0[q] = ex.fconst(Int, q)
        n = v.nat("rows", 0, 2 ** 30)
        cols = [v.array(c, n if third or c != "z" else 0, kind="valarray") for c in "xyz"]
        LOG = z3.Function("written", Int, Int)
        k = z3.Int("k_")
        W, PR = z3.IntVal(14), z3.IntVal(6)
        r = PUT["real"](LOG(k), sel(cols[0][1], k), W, PR, z3.IntVal(1))
        for c in (1, 2) if third else (1,):
            r = PUT["real"](r, sel(cols[c][1], k), W, PR, z3.IntVal(2))
        r = PUT["char"](r, NL, ZERO, ZERO, ZERO)
        v.assume(LOG(0) == f0["src"])
        v.assume(f0["width"] == 0)
        v.assume(forall([k], z3.Implies(k >= 0, LOG(k + 1) == r), [LOG(k)]))

        def loop(ex, node, st):
            ns = locals_of(u, ex, st, lambda x: is_int(x) and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0)
            if ex.frames[-1].fn["name"] != "put" or len(ns) != 1:
                return None
            f1 = st.store[to.cell].f

            def inv(ex, s):
                f, i = s.store[to.cell].f, s.store[ns[0].cell]
                return [("rows written", z3.And(i >= 0, i <= n, f["src"] == LOG(i))), ("format", z3.And(f["adj"] == 0, *[f[q] == f1[q] for q in ("prec", "fail", "bad", "eof", "width")]))]
            return inv
        ex.invariants.append(loop)
        st, thr = v.call("drv::put", [to] + [c[0] for c in cols])[1:]
        f = st.store[to.cell].f
        good = z3.Not(z3.Or(f0["fail"], f0["bad"]))
        v.goal("C18: row by row, wavelength, flux%s of that row are written" % (" and uncertainty" if third else ""), st, z3.Implies(good, f["src"] == LOG(n)))
        v.goal("C18: nothing is written to a broken stream", st, z3.Implies(z3.Not(good), f["src"] == f0["src"]))
        v.goal("C18: the format of the stream is restored", st, z3.And(f["flt"] == f0["flt"], f["adj"] == f0["adj"]))
        v.goal("C18: no error is raised", [], not thr)
        v.reachable(st, "end")
        v.discharge()
    return run


GETOK = z3.Function("data file can be read", S, Int, Bool)
ROWS = z3.Function("rows of data file", S, Int, Int)
CX = z3.Function("wavelengths of data file", S, Int, z3.ArraySort(Int, Real))
CY = z3.Function("values of data file", S, Int, z3.ArraySort(Int, Real))


def merge(out):
    u = unit('#include <fstream>\n#include <iostream>\n#include <sstream>\n#include "core/base.h"\n#include "core/dataio.h"\n#include "core/exitcodes.h"\n#define main tool_main\n#include "apps/ezip.cxx"\n')
    v = V(out, u)
    ex = v.ex
    SS = Streams(v)
    SS.std["cerr"], SS.std["cout"] = SS.output("cerr"), SS.output("cout")
    n = v.nat("argument count", 1, 2 ** 20)
    lv, argv = v.array("argv", n) if False else (None, ex.fconst(z3.ArraySort(Int, S), "argv"))
    lv = v.cell(Seq(("str",), n, argv, "raw"), "argv")
    arg = lambda i: sel(argv, i)
    log = v.cell(Rec("events", {"put": ZERO, "usage": ZERO}), "events")
    names = {}
    puts = []

    def file_of(src):
        if z3.is_app(src) and src.decl().name() == FILE(arg(0)).decl().name():
            return src.arg(0)
        raise Unsupported("data of an unknown file")

    def get(ex, st, fn, args, this):
        a = [ex.read(st, args[0], False)] + [ex.rv(st, x) for x in args[1:]]
        if len(args) != 4:
            raise Unsupported("columns of a data file")
        f = dict(a[0].f)
        name, skip = file_of(f["src"]), a[3]
        ok = z3.And(z3.Not(f["fail"]), z3.Not(f["bad"]), GETOK(name, skip))
        rows = ROWS(name, skip)
        st.pc.append(z3.And(rows >= 0, rows < 2 ** 30, z3.Implies(ok, rows > 0)))
        for t, old, c in ((args[1], a[1], CX), (args[2], a[2], CY)):
            ex.write(st, t, Seq(("real",), z3.If(ok, rows, old.size), z3.If(ok, c(name, skip), z(old.data)), "valarray"))
        f["fail"] = z3.Not(ok)
        f["eof"] = ex.fconst(Bool, "eof")
        ex.write(st, args[0], Rec(a[0].cls, f))
        return args[0]

    def put(ex, st, fn, args, this):
        e = dict(st.store[log.cell].f)
        e["put"] = e["put"] + 1
        ex.write(st, log, Rec("events", e))
        if not (isinstance(args[0], LV) and args[0].cell == SS.std["cout"].cell):
            raise Unsupported("target of the merged data")
        puts.append((st.fork(), [ex.rv(st, x) for x in args[1:]]))
        return args[0]

    def usage(ex, st, fn, args, this):
        e = dict(st.store[log.cell].f)
        e["usage"] = e["usage"] + 1
        ex.write(st, log, Rec("events", e))
        return None
    ex.contracts.update({"especia::get": get, "especia::put": put, "write_usage_message": usage})
    fn = [f for f in u.funcs if f["name"] == "tool_main"][0]
    r, st, thr = v.call(fn, [n, Ptr(lv, ZERO)])
    e = st.store[log.cell].f
    skip = z3.If(n == 4, VAL["nat"](SRC(arg(3)), ZERO), 0)
    skipok = z3.Implies(n == 4, OK["nat"](SRC(arg(3)), ZERO))
    valid = z3.And(z3.Or(n == 3, n == 4), skipok)
    both = z3.And(*[z3.And(EXISTS(arg(i)), GETOK(arg(i), skip)) for i in (1, 2)])
    same = ROWS(arg(1), skip) == ROWS(arg(2), skip)
    v.goal("C18: readable files with equal numbers of rows are merged", st, z3.Implies(z3.And(valid, both, same), z3.And(r == 0, e["put"] == 1)))
    v.goal("C18: unreadable files and different numbers of rows are errors and nothing is written", st, z3.Implies(z3.And(valid, z3.Not(z3.And(both, same))), z3.And(r != 0, e["put"] == 0)))
    v.goal("C18: invalid arguments are errors and nothing is written", st, z3.Implies(z3.And(n != 1, z3.Not(valid)), z3.And(r != 0, e["put"] == 0)))
    v.goal("C18: usage message without arguments", st, (n == 1) == (e["usage"] == 1))
    v.goal("C18: merging writes data", [], z3.BoolVal(len(puts) > 0))
    k = z3.Int("k_")
    for s, (x, y, w) in puts:
        rows = ROWS(arg(1), skip)
        inr = z3.And(k >= 0, k < rows)
        v.goal("C18: all rows are merged", s, z3.And(x.size == rows, y.size == rows, w.size == rows))
        v.goal("C18: the wavelength of each row is that of the row", s, z3.Implies(inr, z3.Or(sel(z(x.data), k) == sel(CX(arg(1), skip), k), sel(z(x.data), k) == sel(CX(arg(2), skip), k))))
        v.goal("C18: the flux of each row is that of the flux file", s, z3.Implies(inr, sel(z(y.data), k) == sel(CY(arg(1), skip), k)))
        v.goal("C18: the uncertainty of each row is that of the uncertainty file", s, z3.Implies(inr, sel(z(w.data), k) == sel(CY(arg(2), skip), k)))
    v.goal("C18: errors are reported by the exit code", [], not thr)
    v.reachable(st, "end")
    v.discharge()


UNITS = [("reader of two columns", lambda out: Get(out, 2)), ("reader of three columns", lambda out: Get(out, 3)), ("writer of two columns", writer(False)), ("writer of three columns", writer(True)), ("merge", merge)]
