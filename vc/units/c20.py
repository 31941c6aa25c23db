"""C20: extraction tools copy exactly the tagged block."""
from core import *
from streams import *
import streams

TOOLS = {"ecom": (["<command>"], ["</command>"]), "edat": (["<data>"], ["</data>"]), "elog": (["<log>"], ["</log>"]),
         "emes": (["<message>", "<mesg>"], ["</message>", "</mesg>"]), "emod": (["<model>", "<job>", "<input>"], ["</model>", "</job>", "</input>"])}
NL = z3.IntVal(10)


class Tool:
    """the input is an arbitrary sequence of lines; IN (k) and LOG (k) define by recursion over the lines whether line k lies inside a block and what has been copied before it"""
    def __init__(self, out, name):
        self.u = unit('#include <iostream>\n#include <string>\n#define main tool_main\nnamespace drv {\n#include "apps/%s.cxx"\n}\n' % name)
        self.v = v = V(out, self.u)
        self.ex = ex = v.ex
        S = Streams(v)
        # the output stream accepts everything (a write error is not part of the property)
        self.io, self.to = S.std["cin"], S.std["cout"] = S.input("cin", fail=z3.BoolVal(False), bad=z3.BoolVal(False)), S.output("cout")
        self.s0, self.l0 = v.st.store[self.io.cell].f, v.st.store[self.to.cell].f["src"]
        self.P, self.E = z3.Function("line position", Int, Int), z3.Function("line end", Int, Bool)
        self.IN, self.LOG = z3.Function("inside", Int, Bool), z3.Function("copied", Int, Int)
        k = z3.Int("k_")
        lit = lambda s: ex.strlit(s)
        src = self.src = self.s0["src"]
        opening, closing = TOOLS[name]
        line = LVAL(src, self.P(k), NL)
        isopen, isclose = z3.Or(*[line == lit(x) for x in opening]), z3.Or(*[line == lit(x) for x in closing])
        z = z3.IntVal(0)
        copied = PUT["char"](PUT["str"](self.LOG(k), line, z, z, z), NL, z, z, z)
        # a block begins behind an opening tag and ends in front of the closing tag
        v.assume(z3.And(self.P(0) == self.s0["pos"], self.E(0) == self.s0["eof"], z3.Not(self.IN(0)), self.LOG(0) == self.l0))
        v.assume(forall([k], z3.Implies(k >= 0, z3.And(self.P(k + 1) == LNXT(src, self.P(k), NL), self.E(k + 1) == LEND(src, self.P(k), NL),
                 self.IN(k + 1) == z3.If(self.IN(k), z3.Not(isclose), isopen), self.LOG(k + 1) == z3.If(z3.And(self.IN(k), z3.Not(isclose)), copied, self.LOG(k)))), [self.P(k)]))
        strs = opening + closing
        v.assume(z3.Distinct(*[lit(x) for x in strs]))
        # ghost: number of lines read
        self.ghost = v.cell(z3.IntVal(0), "lines read")
        ex.invariants.append(self.loop)
        old = ex.hooks["call"]

        def call(ex, nm, args, st, n):
            if nm == "getline" and isinstance(args[0], LV) and args[0].cell == self.io.cell:
                r = old(ex, nm, args, st, n)
                f = st.store[self.io.cell].f
                c = st.store[self.ghost.cell]
                ex.write(st, self.ghost, z3.If(z3.Or(f["fail"], f["bad"]), c, c + 1))
                return r
            return old(ex, nm, args, st, n)
        ex.hooks["call"] = call
        fn = [f for f in self.u.funcs if f["name"] == "tool_main"][0]
        r, st, thr = v.call(fn, [])
        f, g, N = st.store[self.io.cell].f, st.store[self.to.cell].f, st.store[self.ghost.cell]
        v.goal("C20: all lines are read", st, z3.And(N >= 0, f["pos"] == self.P(N), z3.Or(self.E(N), z3.Not(LOK(src, self.P(N), NL)))))
        v.goal("C20: exactly the lines between the tags are written, in order", st, g["src"] == self.LOG(N))
        v.goal("C20: the exit code is zero", st, r == 0)
        v.goal("C20: no error is raised", [], not thr)
        v.reachable(st, "end")
        v.discharge()

    def loop(self, ex, node, st):
        if ex.frames[-1].fn["name"] != "tool_main":
            return None
        bools = [lv for lv in ex.frames[-1].env.values() if isinstance(lv, LV) and not lv.path and lv.cell in st.store and isinstance(st.store[lv.cell], z3.ExprRef) and st.store[lv.cell].sort() == Bool]
        if len(bools) != 1:
            return None
        src = self.src

        def inv(ex, s):
            x, g, N = s.store[self.io.cell].f, s.store[self.to.cell].f, s.store[self.ghost.cell]
            o = st.store[self.to.cell].f
            return [("the input is read line by line", z3.And(N >= 0, x["src"] == src, z3.Not(x["fail"]), z3.Not(x["bad"]), x["pos"] == self.P(N), x["eof"] == self.E(N))),
                    ("inside a block", s.store[bools[0].cell] == self.IN(N)),
                    ("written so far", z3.And(g["src"] == self.LOG(N), g["width"] == 0, *[g[b] == o[b] for b in ("fail", "bad", "eof")]))]
        return inv


UNITS = [("tool %s" % n, lambda out, n=n: Tool(out, n)) for n in TOOLS]
