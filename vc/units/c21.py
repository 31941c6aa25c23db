"""C21: command line arguments reach the right setting, outcomes the right exit code."""
from core import *
from streams import *
import streams

MODELS = {"curcuma": "Model<Intergalactic_Doppler>", "mascada": None, "oregano": None, "azafran": None}
DRIVER = '''#include <iostream>
#include "core/model.h"
#include "core/runner.cxx"
using namespace especia;
namespace drv {
typedef Model<Intergalactic_Doppler> Mod;
int run (Runner &r) { return r.run<Mod> (); }
}
'''
NL = z3.IntVal(10)
ORDER = ["program", "random seed", "parent number", "population size", "global step size", "accuracy goal", "stop generation", "trace modulus"]
KIND = {"random seed": "nat64", "global step size": "real", "accuracy goal": "real"}
B_ = "especia::Optimizer::Builder::"
M_ = "especia::Model<especia::Intergalactic_Doppler>::"


def value(a, i):
    """number stated by argument i"""
    k = KIND.get(ORDER[i], "nat")
    return VAL[k](SRC(sel(a, i)), z3.IntVal(0))


def readable(a, i):
    return OK[KIND.get(ORDER[i], "nat")](SRC(sel(a, i)), z3.IntVal(0))


def runner(v, n, a):
    """a runner with n arguments"""
    r = v.obj("especia::Runner", "runner")
    x = v.st.store[r.cell]
    ks = [k for k, y in x.f.items() if isinstance(y, Seq) and y.elt == ("str",)]
    if len(ks) != 1:
        raise Unsupported("arguments of a runner")
    v.st.store[r.cell] = Rec(x.cls, dict(x.f, **{ks[0]: Seq(("str",), n, a, "vector")}))
    return r


def kept(ex, st, this):
    ks = [y for y in ex.read(st, this, False).f.values() if isinstance(y, Seq) and y.elt == ("str",)]
    if len(ks) != 1:
        raise Unsupported("arguments of a runner")
    return ks[0]


class Run:
    def __init__(self, out):
        self.u = unit(DRIVER)
        self.v = v = V(out, self.u)
        self.ex = ex = v.ex
        S = Streams(v)
        S.std["cin"] = self.cin = S.input("cin")
        S.std["cout"] = self.cout = S.output("cout")
        self.n = n = v.nat("argument count", 1, 2 ** 20)
        self.a = a = ex.fconst(z3.ArraySort(Int, streams.S), "argument")
        self.runner = runner(v, n, a)
        self.dim = v.nat("dimension", 1, 2 ** 16)
        arr = lambda nm: Seq(("real",), self.dim, ex.fconst(z3.ArraySort(Int, Real), nm), "valarray")
        self.x0, self.z0 = arr("start"), arr("local step")
        self.events = v.cell(Rec("events", {k: z3.IntVal(0) for k in ("usage", "echo", "parse", "minimize", "set", "put")}), "events")
        c = ex.contracts
        c["especia::Runner::write_usage_message"] = self.note("usage")
        c["especia::Runner::write_command_line"] = self.note("echo")
        c["especia::Runner::write_result_messages"] = lambda ex, st, fn, args, this: None
        c[M_ + "parse"] = self.parse
        c[M_ + "get_parameter_count"] = lambda ex, st, fn, args, this: self.dim
        c[M_ + "get_initial_parameter_values"] = lambda ex, st, fn, args, this: self.x0
        c[M_ + "get_initial_local_step_sizes"] = lambda ex, st, fn, args, this: self.z0
        c[M_ + "get_constraint"] = lambda ex, st, fn, args, this: Opaque("box")
        c[M_ + "set"] = self.set
        c[M_ + "put"] = self.put
        c[B_ + "Builder"] = lambda ex, st, fn, args, this: Rec("builder", {k: z3.IntVal(-1) if k != "accuracy goal" else z3.RealVal(-1) for k in ("problem dimension", "parent number", "population size", "accuracy goal", "stop generation", "random seed")})
        for f in ("problem dimension", "parent number", "population size", "accuracy goal", "stop generation", "random seed"):
            c[B_ + "with_" + f.replace(" ", "_")] = self.setting(f)
        c[B_ + "build"] = self.build
        c["especia::Optimizer::minimize"] = self.minimize
        self.invalid = ex.fconst(Bool, "invalid settings")
        self.badmodel = ex.fconst(Bool, "bad model")
        self.failed = ex.fconst(Bool, "failed fit")
        r, st, thr = v.call("drv::run", [self.runner])
        e = lambda s, k: s.store[self.events.cell].f[k]
        usage, count = n == 1, n == 8
        o, w = self.optimized, self.underflow
        v.goal("C21: without arguments the usage message is written and the exit code is 0", st, z3.Implies(usage, z3.And(r == 0, e(st, "usage") == 1, e(st, "minimize") == 0)))
        v.goal("C21: the usage message is written only without arguments", st, z3.Implies(z3.Not(usage), e(st, "usage") == 0))
        v.goal("C21: any other number of arguments than seven is rejected", st, z3.Or(usage, count))
        v.goal("C21: the arguments are echoed and exactly one fit is done", st, z3.Implies(count, z3.And(e(st, "echo") == 1, e(st, "parse") == 1, e(st, "minimize") == 1, e(st, "set") == 1, e(st, "put") == 1)))
        v.goal("C21: exit code 0 for a converged fit", st, z3.Implies(z3.And(count, o), r == 0))
        v.goal("C21: exit code 1 for an underflow of the mutation variance", st, z3.Implies(z3.And(count, z3.Not(o), w), r == 1))
        v.goal("C21: exit code 2 for a fit stopped by the generation limit", st, z3.Implies(z3.And(count, z3.Not(o), z3.Not(w)), r == 2))
        v.goal("C21: unreadable arguments are rejected", st, z3.Implies(count, z3.And(*[readable(a, i) for i in range(1, 8)])))
        for x in thr:
            cls = x.val.cls.split("::")[-1]
            if cls == "invalid_argument":
                v.goal("C21: an invalid argument is reported only for invalid arguments", x.st, z3.And(z3.Not(usage), z3.Or(z3.Not(count), self.invalid, *[z3.Not(readable(a, i)) for i in range(1, 8)])))
                v.goal("C21: no fit is done with invalid arguments", x.st, z3.And(e(x.st, "minimize") == 0, e(x.st, "usage") == 0))
            elif cls == "runtime_error":
                v.goal("C21: a runtime error is an error of the input or of the fit", x.st, z3.And(count, z3.Or(self.badmodel, self.failed)))
            else:
                v.goal("C21: no other error is raised", x.st, z3.BoolVal(False))
        for nm, s, g in self.checks:
            v.goal(nm, s, g)
        v.goal("C21: a fit is done", [], z3.BoolVal(bool(self.checks)))
        v.reachable(st, "end")
        v.discharge()

    checks = None

    def note(self, k):
        def f(ex, st, fn, args, this):
            ev = dict(st.store[self.events.cell].f)
            ev[k] = ev[k] + 1
            ex.write(st, self.events, Rec("events", ev))
            return None
        return f

    def model(self, st, lv, what):
        x = self.ex.rv(st, lv)
        if not (isinstance(x, Rec) and x.cls == "model"):
            raise Unsupported("model handed to " + what)

    def parse(self, ex, st, fn, args, this):
        self.note("parse")(ex, st, fn, args, this)
        self.same(args[0], self.cin, "input of the model")
        self.same(args[1], self.cout, "output of the model")
        ex.maythrow(st, self.badmodel, Rec("runtime_error", {}))
        return Rec("model", {"id": z3.IntVal(1)})

    def same(self, a, b, what):
        if not (isinstance(a, LV) and a.cell == b.cell):
            raise Unsupported(what)

    def setting(self, name):
        def f(ex, st, fn, args, this):
            b = ex.read(st, this, False)
            ex.write(st, this, Rec("builder", dict(b.f, **{name: ex.rv(st, args[0])})))
            return this
        return f

    def build(self, ex, st, fn, args, this):
        b = ex.read(st, this, False)
        ex.maythrow(st, self.invalid, Rec("invalid_argument", {}))
        return Rec("optimizer", dict(b.f))

    def minimize(self, ex, st, fn, args, this):
        o = ex.read(st, this, False)
        self.note("minimize")(ex, st, fn, args, this)
        if len(args) < 6 or o.cls != "optimizer":
            raise Unsupported("interface of the optimizer")
        self.model(st, args[0], "the optimizer")
        x, z0, g, box, tr = [ex.rv(st, y) for y in args[1:6]]
        a = self.a
        s = st.fork()
        self.checks = [("C21: argument %d is the %s" % (i, ORDER[i]), s, o.f[ORDER[i]] == value(a, i)) for i in (1, 2, 3, 5, 6)]
        self.checks.append(("C21: argument 4 is the global step size", s, g == value(a, 4)))
        # tracing is asked for by generation number
        gen = ex.fconst(Int, "generation")
        s2 = s.fork()
        s2.pc.append(z3.And(gen >= 0, gen < 2 ** 32))
        t = ex.invoke(self.v.find("especia::Runner::Tracer<double>::is_tracing"), [gen], args[5] if isinstance(args[5], LV) else ex.temp(s2, tr), s2)
        self.checks.append(("C21: argument 7 is the trace modulus", s2, t == z3.And(value(a, 7) > 0, gen % value(a, 7) == 0)))
        self.checks.append(("C21: the dimension is the number of free parameters", s, o.f["problem dimension"] == self.dim))
        k = z3.Int("k_")
        for nm, got, want in (("initial values", x, self.x0), ("local step sizes", z0, self.z0)):
            self.checks.append(("C21: the fit starts with the %s of the model" % nm, s, z3.And(got.size == want.size, forall([k], z3.Implies(z3.And(k >= 0, k < self.dim), sel(z(got.data), k) == sel(z(want.data), k))))))
        if not (isinstance(box, Opaque) and box.tag == "box"):
            raise Unsupported("constraint of the fit")
        ex.maythrow(st, self.failed, Rec("runtime_error", {}))
        res = ex.fresh(("rec", "especia::Optimizer::Result"), "result", 0, st.pc)
        self.rx, self.ru = ex.fconst(z3.ArraySort(Int, Real), "final value"), ex.fconst(z3.ArraySort(Int, Real), "uncertainty")
        v = {Bool: [], "seq": []}
        st2 = st.fork()
        lv = ex.temp(st2, res)
        get = lambda nm: ex.rv(st2, ex.invoke(self.v.find("especia::Optimizer::Result::" + nm), [], lv, st2))
        self.optimized, self.underflow = get("is_optimized"), get("is_underflow")
        self.px, self.pu = get("get_parameter_values"), get("get_parameter_uncertainties")
        st.pc.append(z3.And(self.px.size == self.dim, self.pu.size == self.dim))
        return res

    def set(self, ex, st, fn, args, this):
        self.note("set")(ex, st, fn, args, this)
        for i, (nm, want) in enumerate((("values", self.px), ("uncertainties", self.pu))):
            p = ex.rv(st, args[i])
            q = ex.read(st, p.lv, False)
            k = z3.Int(fresh_name("k"))
            off = p.off if p.off is not None else z3.IntVal(0)
            ex.oblige(st, z3.Implies(z3.And(k >= 0, k < self.dim), sel(z(q.data), k + off) == sel(z(want.data), k)), "contract", "the %s of the result are handed to the model" % nm)
        return None

    def put(self, ex, st, fn, args, this):
        self.note("put")(ex, st, fn, args, this)
        self.same(args[0], self.cout, "output of the model")
        return args[0]


def echo(out):
    u = unit(DRIVER)
    v = V(out, u)
    ex = v.ex
    S = Streams(v)
    to = S.output("out")
    n = v.nat("argument count", 1, 2 ** 20)
    a = ex.fconst(z3.ArraySort(Int, streams.S), "argument")
    r = runner(v, n, a)
    LOG = z3.Function("echoed", Int, Int)
    Z = z3.IntVal(0)
    put = lambda l, s: PUT["str"](l, s, Z, Z, Z)
    ch = lambda l, c: PUT["char"](l, z3.IntVal(c), Z, Z, Z)
    line = lambda l, s: ch(put(l, ex.strlit(s)), 10)
    l = v.st.store[to.cell].f["src"]
    for s in ("<!DOCTYPE html>", "<html>", "<!--", "<command>"):
        l = line(l, s)
    k = z3.Int("k_")
    v.assume(LOG(0) == l)
    v.assume(forall([k], z3.Implies(k >= 0, LOG(k + 1) == put(ch(LOG(k), 32), sel(a, k))), [LOG(k)]))

    def loop(ex, node, st):
        # the number of arguments written is the position of the loop
        ps = [lv for lv in ex.frames[-1].env.values() if isinstance(lv, LV) and lv.cell in st.store and isinstance(st.store[lv.cell], (Ptr, z3.ExprRef)) and not (isinstance(st.store[lv.cell], z3.ExprRef) and st.store[lv.cell].sort() != Int)]

        def pos(s):
            c = []
            for lv in ps:
                x = s.store[lv.cell]
                x = x.off if isinstance(x, Ptr) else x
                if x is not None and z3.is_int_value(z3.simplify(st.store[lv.cell].off if isinstance(st.store[lv.cell], Ptr) else st.store[lv.cell])):
                    c.append(x)
            return c[0] if c else None
        if pos(st) is None:
            return None

        def inv(ex, s):
            f, f0 = s.store[to.cell].f, st.store[to.cell].f
            p = pos(s)
            return [("arguments echoed so far", z3.And(p >= 0, p <= n, f["src"] == LOG(p), *[f[q] == f0[q] for q in ("fail", "bad", "eof", "width")]))]
        return inv
    ex.invariants.append(loop)
    st, thr = v.call("especia::Runner::write_command_line", [to], r)[1:]
    e = LOG(n)
    e = ch(e, 10)
    for s in ("</command>", "-->", "</html>"):
        e = line(e, s)
    v.goal("C21: the arguments are echoed as given", st, st.store[to.cell].f["src"] == e)
    v.goal("C21: no error is raised", [], not thr)
    v.reachable(st, "end")
    v.discharge()


def arguments(out):
    u = unit(DRIVER)
    v = V(out, u)
    ex = v.ex
    Streams(v)
    n = v.nat("argument count", 1, 2 ** 20)
    a = ex.fconst(z3.ArraySort(Int, streams.S), "argv")
    lv = v.cell(Seq(("str",), n, a, "raw"), "argv")

    def loop(ex, node, st):
        fr = ex.frames[-1]
        params = {q["id"] for q in u.params(fr.fn)}
        ints = [l for i, l in fr.env.items() if i not in params and isinstance(l, LV) and l.cell in st.store and isinstance(st.store[l.cell], z3.ExprRef) and st.store[l.cell].sort() == Int]
        if len(ints) != 1:
            return None
        k = z3.Int("k_")

        def inv(ex, s):
            q = kept(ex, s, fr.this)
            i = s.store[ints[0].cell]
            return [("arguments kept so far", z3.And(i >= 0, i <= n, q.size == i, forall([k], z3.Implies(z3.And(k >= 0, k < i), sel(z(q.data), k) == sel(a, k)), [sel(z(q.data), k)])))]
        return inv
    ex.invariants.append(loop)
    this, st, thr = v.construct("especia::Runner", [n, Ptr(lv, z3.IntVal(0))])
    q = kept(ex, st, this)
    k = z3.Int("k_")
    v.goal("C21: all arguments are kept", st, q.size == n)
    v.goal("C21: every argument is kept in its place", st, z3.Implies(z3.And(k >= 0, k < n), sel(z(q.data), k) == sel(a, k)))
    v.reachable(st, "end")
    v.discharge()


def program(name):
    """exit code of a program for each outcome of a run"""
    def run(out):
        u = unit('#include <iostream>\n#include "core/model.h"\n#include "core/runner.h"\n#define main tool_main\n#include "apps/%s.cxx"\n' % name)
        v = V(out, u)
        ex = v.ex
        S = Streams(v)
        S.std["cerr"], S.std["cout"], S.std["cin"] = S.output("cerr"), S.output("cout"), S.input("cin")
        n = v.nat("argument count", 1, 2 ** 20)
        lv = v.cell(Seq(("str",), n, ex.fconst(z3.ArraySort(Int, streams.S), "argv"), "raw"), "argv")
        outcome = v.nat("outcome", 0, 3)
        code = v.nat("code", 0, 2)
        handed = []
        def make(ex, st, fn, args, this):
            x = [ex.rv(st, y) for y in args]
            handed.append((x[0], x[1]))
            return Rec("runner", {"id": z3.IntVal(1)})
        ex.contracts["especia::Runner::Runner"] = make
        def go(ex, st, fn, args, this):
            ex.maythrow(st, outcome == 1, Rec("invalid_argument", {}))
            ex.maythrow(st, outcome == 2, Rec("runtime_error", {}))
            ex.maythrow(st, outcome == 3, Rec("bad_alloc", {}))
            return code
        ex.contracts["especia::Runner::run"] = go
        ex.contracts["especia::Runner::~Runner"] = lambda *a: None
        fn = [f for f in u.funcs if f["name"] == "tool_main"][0]
        r, st, thr = v.call(fn, [n, Ptr(lv, z3.IntVal(0))])
        v.goal("C21: the exit code of a run is passed on", st, z3.Implies(outcome == 0, r == code))
        v.goal("C21: exit code 8 for invalid arguments", st, z3.Implies(outcome == 1, r == 8))
        v.goal("C21: exit code 16 for input or runtime errors", st, z3.Implies(outcome == 2, r == 16))
        for i in range(4):
            v.reachable(State(dict(st.store), st.pc + [outcome == i]), "outcome %d" % i)
        v.goal("C21: other errors have an exit code of their own", st, z3.Implies(outcome == 3, z3.And(r > 2, r < 256, r != 8, r != 16)))
        v.goal("C21: every error is reported by the exit code", [], not thr)
        v.goal("C21: all arguments are handed to the run", [], z3.And(z3.BoolVal(len(handed) >= 1), *[z3.And(h[0] == n, z3.BoolVal(isinstance(h[1], Ptr) and h[1].lv.cell == lv.cell), h[1].off == 0) for h in handed]))
        v.reachable(st, "end")
        v.discharge()
    return run


UNITS = [("run", Run), ("echo of the arguments", echo), ("arguments", arguments)] + [("program %s" % p, program(p)) for p in ("azafran", "curcuma", "mascada", "oregano")]
