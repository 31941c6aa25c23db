"""C24: parallel evaluation is race-free, deterministic and reports errors.

Every thread body is executed symbolically at its creation. The accesses of the workers and of the creating thread
are recorded; each possible conflict (same cell, one access a write, not ordered by creation or join) gives an obligation.
Ghost counters number the workers: created (number of threads started), joined (number of threads waited for, in order).
"""
from core import *
from units import gen, member
from units.c07 import Uncertainties
from units.gen import RA, OBJ, COST

FAILF, FAILC = (z3.Function(x, RA, Int, Bool) for x in ("objective fails", "cost fails"))
ERRF, ERRC = (z3.Function(x, RA, Int, Int) for x in ("error of the objective", "error of the cost"))


class Workers:
    def __init__(self, v):
        self.v, self.ex = v, v.ex
        self.created, self.joined = [v.cell(z3.IntVal(0), x).cell for x in ("created", "joined")]
        self.records, self.main, self.active = [], [], None
        ex = self.ex
        ex.hooks["thread"] = self.thread
        ex.hooks["method"] = self.method
        ex.hooks["fresh_rec"] = lambda ex, t, name, depth: Rec("std::thread", {"id": ex.fresh(("int", 64, True), name, depth)}) if t[1].split("::")[-1] == "thread" else None
        ex.rlog.append(lambda c, p, st: self.access("r", c, p, st))
        ex.wlog.append(lambda c, p, st: self.access("w", c, p, st))

    def reset(self, st):
        """all workers are joined: the counters start again"""
        st.store[self.created] = st.store[self.joined] = z3.IntVal(0)

    def none(self, st):
        return st.store[self.created] == st.store[self.joined]

    def access(self, mode, cell, path, st):
        if self.ex.dry or cell in (self.created, self.joined):
            return
        if self.active is not None:
            if cell in self.active["cells"]:
                self.active[mode].append((cell, path, list(st.pc)))
        else:
            self.main.append((mode, cell, path, list(st.pc), st.store[self.created], st.store[self.joined]))

    def thread(self, ex, st, f, n):
        if self.active is not None:
            raise Unsupported("a worker starts a thread")
        t = st.store[self.created]
        live = z3.simplify(t - st.store[self.joined])
        rec = {"id": t, "many": concrete(live) is None, "cells": set(st.store), "r": [], "w": [], "joined": st.store[self.joined], "pc": list(st.pc)}
        if not ex.dry:
            self.active = rec
        nthr = len(ex.frames[-1].throws)
        try:
            ex.call_value(f, [], st, n)
        finally:
            self.active = None
        esc = ex.frames[-1].throws[nthr:]
        del ex.frames[-1].throws[nthr:]
        if not ex.dry:
            for e in esc:
                ex.oblige(e.st, z3.BoolVal(False), "goal", "C24: no error leaves a worker (std::terminate)")
            self.records.append(rec)
        st.store[self.created] = z3.simplify(t + 1)
        return Rec("std::thread", {"id": t})

    def method(self, ex, obj, lv, name, args, st, n):
        if not isinstance(obj, Rec) or obj.cls != "std::thread":
            return NotImplemented
        j = st.store[self.joined]
        if name == "joinable":
            return obj.f["id"] >= j
        if name != "join":
            raise Unsupported("%s of a thread" % name)
        if not ex.dry and not ex.provable(st, obj.f["id"] == j, 2000):
            raise Unsupported("threads are not joined in the order of their creation")
        st.store[self.joined] = z3.simplify(j + 1)
        return None

    def finish(self):
        ex = self.ex

        def oblige(pc, f, what):
            ex.oblige(State({}, pc), f, "goal", "C24: " + what)
        name = lambda c: str(c).split("!")[0].split("#")[0]
        for a in self.records:
            written = {c for c, _, _ in a["w"]}
            own = {}
            for c in written:
                acc = [x for x in a["w"] + a["r"] if x[0] == c]
                if not a["many"]:
                    continue
                # every access of a worker to this object is to its own element
                pos = next((k for k, e in enumerate(acc[0][1]) if e[0] == "i"), None)
                own[c] = pos
                for _, path, pc in acc:
                    if pos is None or len(path) <= pos or path[pos][0] != "i":
                        oblige(pc, z3.BoolVal(False), "each worker has its own element of " + name(c))
                    else:
                        oblige(pc, path[pos][1] == a["id"], "each worker has its own element of " + name(c))
            for b in self.records:
                if b is a:
                    continue
                for c, p, pc in a["w"]:
                    for mode in "rw":
                        for c2, p2, pc2 in b[mode]:
                            if c2 == c and not apart(p, p2):
                                # ordered by a join: one of them ended before the other was created
                                oblige(pc + pc2, z3.Or(b["joined"] > a["id"], a["joined"] > b["id"]), "two workers do not share " + name(c))
            read = {c for c, _, _ in a["r"]} - written
            seen = set()
            for mode, c, path, pc, cr, jo in self.main:
                if c in written or (c in read and mode == "w"):
                    done = jo >= cr
                    if c in own and own[c] is not None and len(path) > own[c] and path[own[c]][0] == "i":
                        i = path[own[c]][1]
                        done = z3.Or(i < jo, i >= cr)
                    s = z3.simplify(done)
                    if z3.is_true(s):
                        continue
                    key = (c, s.get_id(), len(pc), pc[-1].get_id() if pc else 0)
                    if key not in seen:
                        seen.add(key)
                        oblige(pc, done, "%s is not %s while a worker may access it" % (name(c), "written" if mode == "w" else "read"))
        if not self.records:
            raise Unsupported("no worker threads")


def apart(p, q):
    for a, b in zip(p, q):
        if a[0] != b[0]:
            return False
        if a[0] == "i":
            x, y = concrete(z3.simplify(a[1])), concrete(z3.simplify(b[1]))
            if x is not None and y is not None and x != y:
                return True
            if not a[1].eq(b[1]):
                return False
        elif a[1] != b[1]:
            return a[0] != "range"
    return False


def evaluation(self, F, FAIL, ERR):
    """contract of an evaluation: returns the value of the point or raises the error of the point"""
    def call(ex, st, args, lv):
        p, n = ex.rv(st, args[0]), ex.rv(st, args[1])
        ex.note_range(st, p, n, "r")
        a = gen.arr_of(ex, st, p)
        ex.maythrow(st, FAIL(a, n), Rec("?", {"id": ERR(a, n)}))
        return F(a, n)
    return call


fails = lambda a, n: z3.Or(FAILF(a, n), FAILC(a, n))
error = lambda a, n, e: z3.Or(z3.And(FAILF(a, n), e == ERRF(a, n)), z3.And(FAILC(a, n), e == ERRC(a, n)))


class Population(gen.Generation):
    def __init__(self, out, cmp):
        super().__init__(out, cmp, ("C24",))
        self.w = Workers(self.v)
        self.ex.hooks["rethrow"] = self.rethrow

    def opaque(self):
        o = super().opaque()
        o["Fn"] = {"operator()": evaluation(self, OBJ, FAILF, ERRF)}
        o["Cn"] = {"is_violated": lambda ex, st, args, lv: ex.fconst(Bool, "violated"), "cost": evaluation(self, COST, FAILC, ERRC)}
        return o

    def rethrow(self, ex, st, v):
        p = z3.Int("p_")
        x = self.loc(st, "x")
        ex.oblige(st, self.w.none(st), "goal", "C24: all workers have ended when an error is reported")
        ex.oblige(st, v.f["set"], "goal", "C24: an error is reported only if there is one")
        ex.oblige(st, z3.Exists([p], z3.And(self.rng(p, 0, self.lam), error(sel(x, p), self.n, v.f["id"]))), "goal", "C24: the error reported is that of an individual")

    def ranking(self, ex, st, first, off, m, N, args):
        if not ex.dry:
            p = ex.fconst(Int, "p")
            x, y = self.loc(st, "x"), self.loc(st, "y")
            ex.oblige(st, self.w.none(st), "goal", "C24: all workers have ended before the ranking")
            ex.oblige(st, z3.Implies(self.rng(p, 0, self.lam), z3.Not(fails(sel(x, p), self.n))), "goal", "C24: the search goes on only if no evaluation failed")
            ex.oblige(st, z3.Implies(self.rng(p, 0, self.lam), sel(y, p) == OBJ(sel(x, p), self.n) + COST(sel(x, p), self.n)), "goal", "C24: each individual has the value of a sequential evaluation")
        super().ranking(ex, st, first, off, m, N, args)

    def generations(self, st0):
        self.calls = 0

        def inv(ex, st):
            self.calls += 1
            f = self.sizes(st) + [("C24: all workers have ended when a generation ends", self.w.none(st))]
            if self.calls == 2:
                self.w.reset(st)
                self.pre = self.get(st)
            return f
        return inv

    def individuals(self, st0):
        def inv(ex, st):
            k = self.loc(st, "k")
            return self.sizes(st) + [("range of k", z3.And(k >= 0, k <= self.lam))]
        return inv

    def coordinates(self, st0):
        def inv(ex, st):
            j, nj = self.loc(st, "j"), self.loc(st, "nj")
            return self.sizes(st) + [("range of j", z3.And(j >= 0, j <= self.n, nj == j * self.n))]
        return inv

    def deviates(self, st0):
        return lambda ex, st: self.sizes(st)


def population(cmp):
    def run(out):
        P = Population(out, cmp)
        _, st, thr = P.run()
        P.w.finish()
        P.v.goal("C24: no worker outlives the search", st, P.w.none(st))
        for e in thr:
            P.v.goal("C24: no worker outlives a search that fails", e.st, P.w.none(e.st))
        P.v.reachable(st, "the end of the search")
        if not thr:
            P.v.goal("C24: errors are reported", [], z3.BoolVal(False))
        P.v.discharge(only=lambda o: "C24" in o.name or o.kind in ("invariant", "vacuity", "terminate") or "range of" in o.name or "sizes" in o.name or "size" in o.name)
    return run


UNITS = [("population (%s)" % c, population(c)) for c in ("less", "greater")]


class Estimate(Uncertainties):
    def __init__(self, out):
        super().__init__(out)
        ex = self.ex
        self.w = Workers(self.v)
        self.failed = self.v.cell(z3.BoolVal(False), "failed")
        self.known = self.v.cell(z3.BoolVal(False), "known")        # ghost: a raised error is the error of an evaluated point
        ex.opaque.update({"Fn": {"operator()": self.tracked(OBJ, FAILF, ERRF)}, "Cn": {"is_violated": lambda ex, st, args, lv: ex.fconst(Bool, "violated"), "cost": self.tracked(COST, FAILC, ERRC)}})
        ex.hooks["rethrow"] = self.rethrow
        self.points = []

    def tracked(self, F, FAIL, ERR):
        ev = evaluation(self, F, FAIL, ERR)

        def call(ex, st, args, lv):
            a = gen.arr_of(ex, st, ex.rv(st, args[0]))
            st.store[self.failed.cell] = z3.Or(st.store[self.failed.cell], FAIL(a, self.n))
            if not ex.dry:
                self.points.append((FAIL(a, self.n), ERR(a, self.n)))
            return ev(ex, st, args, lv)
        return call

    def rethrow(self, ex, st, v):
        ex.oblige(st, self.w.none(st), "goal", "C24: all workers have ended when an error is reported")
        ex.oblige(st, z3.And(v.f["set"], z3.Or(*[z3.And(f, v.f["id"] == e) for f, e in self.points])), "goal", "C24: the error reported is that of a point")

    def loop(self, f):
        calls = []

        def inv(ex, st):
            calls.append(1)
            g = f(st) + [("C24: all workers have ended", self.w.none(st)), ("C24: the estimate goes on only if no evaluation failed", z3.Not(st.store[self.failed.cell]))]
            if len(calls) == 2:
                self.w.reset(st)
            return g
        return inv

    def axes(self, st0):
        return self.loop(lambda st: [("range of the axis", z3.And(self.loc(st, "j") >= 0, self.loc(st, "j") <= self.n)), ("size", self.ex.local(st, "g").size == self.n)])

    def step(self, st0):
        i = self.loop(lambda st: [("size", self.ex.local(st, "g").size == self.n)])
        i.brk = lambda ex, st: [("C24: all workers have ended after the last step", self.w.none(st)), ("C24: no evaluation failed in the last step", z3.Not(st.store[self.failed.cell]))]
        return i


def estimate(out):
    E = Estimate(out)
    _, st, thr = E.v.call(E.fn, E.args)
    E.w.finish()
    E.v.goal("C24: no worker outlives the estimate", st, E.w.none(st))
    E.v.goal("C24: an estimate is returned only if no evaluation failed", st, z3.Not(st.store[E.failed.cell]))
    for e in thr:
        E.v.goal("C24: no worker outlives an estimate that fails", e.st, E.w.none(e.st))
        i = e.val.f.get("id") if isinstance(e.val, Rec) else None
        E.v.goal("C24: the error reported is that of a failed evaluation", e.st, z3.Or(*[z3.And(f, i == x) for f, x in E.points]) if i is not None else z3.BoolVal(False))
    if not thr:
        E.v.goal("C24: errors are reported", [], z3.BoolVal(False))
    E.v.reachable(st, "the end of the estimate")
    E.v.discharge()


UNITS.append(("postopti", estimate))
UNITS += member.units("C24")
