"""C25: column readers are all-or-nothing, comments are stripped."""
from core import *
from streams import *
import streams

DRIVER = '''#include <vector>
#include <string>
#include "config.h"
#include "base.h"
#include "readline.h"
using namespace especia;
namespace drv {
typedef std::vector<real> R; typedef std::vector<natural> N; typedef std::vector<bool> B; typedef std::vector<std::string> S;
void read1 (std::istream &is, R &a, size_t n, bool app) { read (is, a, n, app); }
void read2 (std::istream &is, R &a, N &b, size_t n, bool app) { read (is, a, b, n, app); }
void read3 (std::istream &is, R &a, R &b, B &c, size_t n, bool app) { read (is, a, b, c, n, app); }
void read4 (std::istream &is, R &a, R &b, R &c, N &d, size_t n, bool app) { read (is, a, b, c, d, n, app); }
void read5 (std::istream &is, R &a, R &b, R &c, N &d, B &e, size_t n, bool app) { read (is, a, b, c, d, e, n, app); }
void reads (std::istream &is, R &a, R &b, R &c, B &d, S &s, size_t n, char eol, bool app) { read (is, a, b, c, d, s, n, eol, app); }
}
'''
LINES = '''#include <vector>
#include <string>
#include "core/readline.cxx"
'''
FIRST = z3.Function("first comment mark", streams.S, Int, Int)
STRIP = lambda s, m: PREFIX(s, FIRST(s, m))
COLS = {"read1": ["real"], "read2": ["real", "nat"], "read3": ["real", "real", "bool"], "read4": ["real"] * 3 + ["nat"], "read5": ["real"] * 3 + ["nat", "bool"], "reads": ["real"] * 3 + ["bool", "line"]}
ELT = {"real": ("real",), "nat": ("int", 32, False), "bool": ("bool",), "line": ("str",)}
SORT = {"real": Real, "nat": Int, "bool": Bool, "line": streams.S}


def row(src, p, e, kinds, delim=None):
    """an extraction of one row from position p: success, values, position and end state behind"""
    ok, vals = [], []
    for k in kinds:
        if k == "line":
            ok += [z3.Not(e), LOK(src, p, delim)]
            s = SRC(LVAL(src, p, delim))
            vals.append(z3.If(OK["str"](s, z3.IntVal(0)), VAL["str"](s, z3.IntVal(0)), z3.Const("str:''", streams.S)))
            p, e = LNXT(src, p, delim), LEND(src, p, delim)
        else:
            ok += [z3.Not(e), OK[k](src, p)]
            vals.append(VAL[k](src, p))
            p, e = NXT[k](src, p), END[k](src, p)
    return z3.And(*ok), vals, p, e


class Reader:
    """contract of a block reader; `P`, `E` name the position and end state in front of row k of the input"""
    def __init__(self, out, name):
        self.u = unit(DRIVER)
        self.v = v = V(out, self.u)
        self.ex = ex = v.ex
        self.kinds = kinds = COLS[name]
        self.io = io = Streams(v).input("in")
        self.s0 = s0 = v.st.store[io.cell].f
        self.n = n = v.nat("n", 0, 2 ** 40)
        self.app = ex.fconst(Bool, "append")
        self.delim = d = z3.IntVal(10)
        if name == "reads":
            self.delim = d = v.nat("eol", -128, 127)
        self.cols = []
        for j, k in enumerate(kinds):
            sz = v.nat("size%d" % j, 0, 2 ** 40)
            a = ex.fconst(z3.ArraySort(Int, SORT[k]), "column%d" % j)
            self.cols.append((v.cell(Seq(ELT[k], sz, a, "vector"), "column"), sz, a))
        self.P, self.E = z3.Function("row position", Int, Int), z3.Function("row end", Int, Bool)
        k = z3.Int("k_")
        self.src = src = s0["src"]
        ok, vals, p, e = row(src, self.P(k), self.E(k), kinds, d)
        v.assume(z3.And(self.P(0) == s0["pos"], self.E(0) == s0["eof"]))
        v.assume(forall([k], z3.Implies(k >= 0, z3.And(self.P(k + 1) == p, self.E(k + 1) == e)), [self.P(k)]))
        self.good0 = z3.Not(z3.Or(s0["fail"], s0["bad"]))
        ex.invariants.append(self.loop)
        st, thr = v.call("drv::" + name, [io] + [c[0] for c in self.cols] + [n] + ([d] if name == "reads" else []) + [self.app])[1:]
        self.post(st, thr)

    def G(self, k):
        return row(self.src, self.P(k), self.E(k), self.kinds, self.delim)[0]

    def C(self, j, k):
        return row(self.src, self.P(k), self.E(k), self.kinds, self.delim)[1][j]

    def loop(self, ex, node, st):
        fn = ex.frames[-1].fn
        if fn["name"] != "read":
            return None
        params = {q["id"] for q in self.u.params(fn)}
        loc = []
        ints = []
        for i, lv in ex.frames[-1].env.items():
            if i in params or not isinstance(lv, LV) or lv.path or lv.cell not in st.store:
                continue
            x = st.store[lv.cell]
            if isinstance(x, Seq) and x.kind == "vector":
                loc.append(lv)
            elif isinstance(x, z3.ExprRef) and x.sort() == Int and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0:
                ints.append(lv)
        if len(loc) != len(self.kinds) or len(ints) != 1:
            return None
        k = z3.Int("k_")

        def inv(ex, s):
            x = s.store[self.io.cell].f
            i = s.store[ints[0].cell]
            r = [("the input is intact", z3.And(x["src"] == self.src, z3.Or(z3.And(self.good0, z3.Not(x["fail"]), z3.Not(x["bad"])), z3.And(z3.Not(self.good0), i == 0, x["fail"] == self.s0["fail"], x["bad"] == self.s0["bad"])))),
                 ("position of the next row", z3.And(i >= 0, i <= self.n, x["pos"] == self.P(i), x["eof"] == self.E(i))),
                 ("rows read so far are complete", forall([k], z3.Implies(z3.And(k >= 0, k < i), self.G(k)), [self.P(k)]))]
            for j, lv in enumerate(loc):
                q = s.store[lv.cell]
                r.append(("column %d" % j, z3.And(q.size == i, forall([k], z3.Implies(z3.And(k >= 0, k < i), sel(z(q.data), k) == self.C(j, k)), [sel(z(q.data), k)]))))
            return r
        return inv

    def post(self, st, thr):
        v, n, k = self.v, self.n, z3.Int("k_")
        f = st.store[self.io.cell].f
        failed = z3.Or(f["fail"], f["bad"])
        allrows = forall([k], z3.Implies(z3.And(k >= 0, k < n), self.G(k)), [self.P(k)])
        v.goal("C25: success means that all requested rows are complete", st, z3.Implies(z3.Not(failed), z3.And(self.good0, allrows)))
        v.goal("C25: a failure is an incomplete row (or an input that had failed before)", st, z3.Implies(z3.And(self.good0, allrows), z3.Not(failed)))
        v.goal("C25: the input is read up to the end of the last row", st, z3.Implies(z3.Not(failed), z3.And(f["pos"] == self.P(n), f["eof"] == self.E(n))))
        for j, (lv, sz, a) in enumerate(self.cols):
            q = st.store[lv.cell]
            d = z(q.data)
            v.goal("C25: a failure leaves column %d unchanged" % j, st, z3.Implies(failed, z3.And(q.size == sz, forall([k], z3.Implies(z3.And(k >= 0, k < sz), sel(d, k) == sel(a, k))))))
            off = z3.If(self.app, sz, z3.IntVal(0))
            v.goal("C25: size of column %d" % j, st, z3.Implies(z3.Not(failed), q.size == off + n))
            v.goal("C25: column %d keeps its former values in front when appending" % j, st, z3.Implies(z3.And(z3.Not(failed), self.app, k >= 0, k < sz), sel(d, k) == sel(a, k)))
            v.goal("C25: column %d has the values of the rows read, in order" % j, st, z3.Implies(z3.And(z3.Not(failed), k >= 0, k < n), sel(d, k + off) == self.C(j, k)))
        v.goal("C25: no error is raised", [], not thr)
        v.reachable(st, "end")
        v.discharge()


def first(v):
    """definition of the position of the first comment mark of a line"""
    s, m, k = z3.Const("s_", streams.S), z3.Int("m_"), z3.Int("k_")
    F = FIRST(s, m)
    v.assume(forall([s, m], z3.And(F >= 0, F <= LEN(s), z3.Implies(F < LEN(s), CHAR(s, F) == m), forall([k], z3.Implies(z3.And(k >= 0, k < F), CHAR(s, k) != m), [CHAR(s, k)])), [F]))


def blank(s, m):
    k = z3.Int("k_")
    return forall([k], z3.Implies(z3.And(k >= 0, k < FIRST(s, m)), SPACE(CHAR(s, k))), [CHAR(s, k)])


class Lines:
    """contract of the line reader; BLANK (p, e) says that all lines in front of p are blank (any closed predicate)"""
    def __init__(self, out):
        self.u = unit(LINES)
        self.v = v = V(out, self.u)
        self.ex = ex = v.ex
        self.io = io = Streams(v).input("in")
        self.s0 = s0 = v.st.store[io.cell].f
        self.src = src = s0["src"]
        self.d = d = v.nat("eol", -128, 127)
        self.m = m = v.nat("comment mark", -128, 127)
        self.line = line = v.cell(ex.fconst(streams.S, "line"), "line")
        first(v)
        self.BL = BL = z3.Function("blank lines", Int, Bool, Bool)
        p = z3.Int("p_")
        self.good0 = z3.Not(z3.Or(s0["fail"], s0["bad"]))
        v.assume(BL(s0["pos"], s0["eof"]))
        v.assume(forall([p], z3.Implies(z3.And(BL(p, z3.BoolVal(False)), LOK(src, p, d), blank(LVAL(src, p, d), m)), BL(LNXT(src, p, d), LEND(src, p, d))), [LOK(src, p, d)]))
        ex.invariants.append(self.loop)
        st, thr = v.call("especia::readline", [io, line, m, d])[1:]
        f = st.store[io.cell].f
        failed = z3.Or(f["fail"], f["bad"])
        s, b = st.store[line.cell], f["start"]
        L = LVAL(src, b, d)
        plain = m == 0
        no = z3.BoolVal(False)
        v.goal("C25: without a comment mark the next line is returned unchanged", st, z3.Implies(z3.And(plain, z3.Not(failed)), z3.And(self.good0, z3.Not(s0["eof"]), LOK(src, s0["pos"], d), s == LVAL(src, s0["pos"], d), f["pos"] == LNXT(src, s0["pos"], d), f["eof"] == LEND(src, s0["pos"], d))))
        v.goal("C25: without a comment mark reading fails only at the end", st, z3.Implies(z3.And(plain, failed, self.good0, z3.Not(s0["eof"])), z3.Not(LOK(src, s0["pos"], d))))
        v.goal("C25: only blank lines are skipped", st, z3.Implies(z3.And(z3.Not(plain), z3.Not(failed)), z3.And(self.good0, BL(b, no), LOK(src, b, d), f["pos"] == LNXT(src, b, d), f["eof"] == LEND(src, b, d))))
        v.goal("C25: the line returned is not blank", st, z3.Implies(z3.And(z3.Not(plain), z3.Not(failed)), z3.Not(blank(L, m))))
        v.goal("C25: everything from the first comment mark is removed and nothing else", st, z3.Implies(z3.And(z3.Not(plain), z3.Not(failed)), s == STRIP(L, m)))
        v.goal("C25: reading fails only when all remaining lines are blank", st, z3.Implies(z3.And(z3.Not(plain), failed, self.good0), z3.Or(BL(f["pos"], z3.BoolVal(True)), z3.And(BL(f["pos"], no), z3.Not(LOK(src, f["pos"], d))))))
        v.goal("C25: no error is raised", [], not thr)
        v.reachable(st, "end")
        v.discharge()

    def loop(self, ex, node, st):
        if ex.frames[-1].fn["name"] != "readline":
            return None
        bools, ints = [], []
        params = {q["id"] for q in self.u.params(ex.frames[-1].fn)}
        vis = ex.visible(ex.frames[-1].fn, node)
        for i, lv in ex.frames[-1].env.items():
            if i in params or not isinstance(lv, LV) or lv.path or lv.cell not in st.store or i not in vis:
                continue
            x = st.store[lv.cell]
            if isinstance(x, z3.ExprRef):
                (bools if x.sort() == Bool else ints if x.sort() == Int else []).append(lv)
        if len(bools) != 1 or len(ints) > 1:
            return None
        k = z3.Int("k_")
        m, d, src = self.m, self.d, self.src
        if ints:        # characters of a line
            def inv(ex, s):
                t, i, e = s.store[self.line.cell], s.store[ints[0].cell], s.store[bools[0].cell]
                return [("position in the line", z3.And(i >= 0, i <= LEN(t))),
                        ("no comment mark so far", forall([k], z3.Implies(z3.And(k >= 0, k < i), CHAR(t, k) != m), [CHAR(t, k)])),
                        ("blank so far", e == forall([k], z3.Implies(z3.And(k >= 0, k < i), SPACE(CHAR(t, k))), [CHAR(t, k)]))]
            return inv

        def inv(ex, s):
            e, x, t = s.store[bools[0].cell], s.store[self.io.cell].f, s.store[self.line.cell]
            b = x["start"]
            same = [x[q] == self.s0[q] for q in ("fail", "bad", "pos", "eof")]
            return [("the input is intact", z3.And(x["src"] == src, z3.Implies(self.good0, z3.Not(z3.Or(x["fail"], x["bad"]))), z3.Implies(z3.Not(self.good0), z3.And(e, *same)), z3.Implies(m == 0, z3.And(e, *same)))),
                    ("all lines so far are blank", z3.Implies(e, BLm(self, x))),
                    ("the line is complete and stripped", z3.Implies(z3.Not(e), z3.And(self.BL(b, z3.BoolVal(False)), LOK(src, b, d), x["pos"] == LNXT(src, b, d), x["eof"] == LEND(src, b, d), t == STRIP(LVAL(src, b, d), m), z3.Not(blank(LVAL(src, b, d), m)))))]
        return inv


def BLm(self, x):
    return self.BL(x["pos"], x["eof"])


UNITS = [("block reader with %d columns%s" % (len(COLS[n]), " and references" if n == "reads" else ""), lambda out, n=n: Reader(out, n)) for n in COLS] + [("lines and comments", Lines)]
