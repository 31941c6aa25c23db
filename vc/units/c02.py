"""C02: uniform and normal deviates."""
from core import *
from c01 import MT, MODE, BV64, bv, mt_cls, melg_cls, setf
import c01

DRIVER = c01.DRIVER + '''
#include "deviates.h"
struct Seq { mutable long i; const real *a; Seq (word64) : i (0), a (0) {} Seq (const Seq &) = default; real operator() () const { return a[i++]; } };
template class especia::Normal_Deviate<Seq>;
'''
MANT = 2 ** 53 - 1
sqrt, log = MATH["sqrt"], MATH["log"]


def uniform_unit(name):
    def run(out):
        u = unit(DRIVER)
        cls = melg_cls(u) if name == "Melg19937_64" else mt_cls(u, MT[name])
        w = 64 if name == "Melg19937_64" else MT[name][0]
        word = z3.BitVec("word", 64)
        res = {}
        calls = []

        def rand(ex, st, fn, args, this):
            # contract of rand (C01): a word of w bits
            calls.append(1)
            if len(calls) > 1:
                raise Unsupported("several words per deviate")
            return word
        v = V(out, u, mode=MODE, contracts={cls + "::rand": rand})
        if w < 64:
            v.assume(z3.ULT(word, bv(1 << w)))
        obj = v.obj(cls)
        r, st, thr = v.call(cls + "::operator()", [], this=obj)
        k = z3.BV2Int(z3.LShR(word, w - 53) if w > 53 else word, False)
        top = MANT if w > 53 else 2 ** w - 1
        v.goal("one word per deviate", st, len(calls) == 1)
        v.goal("linear in the leading bits, smallest word 0, largest word 1", st, r == z3.ToReal(k) / z3.RealVal(top))
        # lemma: the leading bits lie in [0, top] and the scaling is monotonic, hence deviates lie in [0, 1]
        i, j = z3.Ints("i j")
        v.goal("range", st.pc + [k == i, i >= 0, i <= top], z3.And(z3.ToReal(i) / z3.RealVal(top) >= 0, z3.ToReal(i) / z3.RealVal(top) <= 1))
        v.goal("monotonic", [i <= j], z3.ToReal(i) / z3.RealVal(top) <= z3.ToReal(j) / z3.RealVal(top))
        v.goal("leading bits are bounded", st.pc, z3.ULE(z3.LShR(word, w - 53) if w > 53 else word, bv(top)))
        v.reachable(st, "end")
        v.discharge()
    return run


def pcg_unit(out):
    u = unit(DRIVER)
    cls = [r for r in u.records if "Pcg<" in r][0]
    word = z3.Int("word")
    calls = []

    def rand(ex, st, fn, args, this):
        calls.append(1)
        return word
    v = V(out, u, contracts={cls + "::rand": rand})
    v.assume(z3.And(word >= 0, word < 2 ** 32))
    obj = v.obj(cls)
    r, st, thr = v.call(cls + "::operator()", [], this=obj)
    v.goal("one word per deviate", st, len(calls) == 1)
    v.goal("linear in the word, smallest word 0, largest word 1", st, r == z3.ToReal(word) / z3.RealVal(2 ** 32 - 1))
    v.goal("range", st, z3.And(r >= 0, r <= 1))
    v.discharge()


def normal_unit(out):
    """two consecutive calls from a state with status == false; a[i0 + k] is the stream of uniform deviates"""
    u = unit(DRIVER)
    v = V(out, u)
    cls = "especia::Normal_Deviate<Seq>"
    obj = v.obj(cls)
    s = v.st.store[obj.cell]
    N = v.nat("len", 0)
    arr, A = v.array("a", N)
    q = z3.Int("q")
    i0 = v.nat("i0", 0, 2 ** 30)
    un = Rec(s.f["uniform_deviate"].cls, {"i": i0, "a": Ptr(arr, z3.IntVal(0))})
    s = setf(setf(s, "uniform_deviate", un), "status", z3.BoolVal(False))
    v.st.store[obj.cell] = s
    x0, y0 = s.f["x"], s.f["y"]
    r, st, thr = v.call(cls + "::operator()", [], this=obj)
    i1 = v.ex.read(st, obj.fld("uniform_deviate").fld("i"), False)
    X, Y = (lambda i: 2 * sel(A, i) - 1), (lambda i: 2 * sel(A, i + 1) - 1)
    T = lambda i: X(i) * X(i) + Y(i) * Y(i)
    acc = lambda i: z3.And(T(i) < 1, T(i) != 0)
    k = v.ex.fconst(Int, "k")
    e = i1 - 2
    v.goal("accepted pair", st, acc(e))
    v.goal("deviates are consumed in pairs", st, z3.And((i1 - i0) % 2 == 0, i1 >= i0 + 2))
    v.goal("only unacceptable pairs are rejected", st.pc + [k >= 0, i0 + 2 * k < e], z3.Not(acc(i0 + 2 * k)))
    F = lambda i: sqrt(-2 * (log(T(i)) / T(i)))
    v.goal("first deviate of the polar method", st, r == X(e) * F(e))
    v.goal("the pair is usable", st, z3.And(T(e) > 0, T(e) < 1))
    v.reachable(st, "first call")
    v.st = st
    r2, st2, thr = v.call(cls + "::operator()", [], this=obj)
    v.goal("second deviate of the polar method", st2, r2 == Y(e) * F(e))
    v.goal("no deviate is consumed by the second call", st2, v.ex.read(st2, obj.fld("uniform_deviate").fld("i"), False) == i1)
    v.goal("third call starts over", st2, z3.Not(v.ex.read(st2, obj.fld("status"))))
    v.goal("no exception", [], not thr)
    # fresh generators start with a new pair
    v.discharge(only=lambda o: "Seq::" not in o.name)
    v2 = V(out, u)
    o2, st3, _ = v2.construct(cls, [v2.cell(Rec(s.f["uniform_deviate"].cls, {"i": i0, "a": Ptr(v2.array("b", z3.IntVal(10))[0], z3.IntVal(0))}))], pred=lambda d: "Seq &" in d["type"]["qualType"])
    v2.goal("a new generator starts with a new pair", st3, z3.Not(v2.ex.read(st3, o2.fld("status"))))
    v2.discharge()


UNITS = [("Normal_Deviate", normal_unit), ("Pcg_32 real", pcg_unit)] + [(k + " real", uniform_unit(k)) for k in list(MT) + ["Melg19937_64"]]
