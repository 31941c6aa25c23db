"""C01: random number streams equal the published recurrences."""
from core import *
import sweep

DRIVER = '''#include "random.h"
using namespace especia;
template class especia::Melg<64, 311, 81, 19, 6364136223846793005ULL, 3935559000370003845ULL, 2862933555777941757ULL>;
template class especia::Pcg<6364136223846793005ULL>;
word64 pcg_(word64 a, word64 b) { Pcg_32 p(a, b); return p.rand(); }
word64 ma_(word64 a, const word64 s[]) { Mt11213a_32 q(2, s); Mt11213a_32 p(a); return p.rand() + p(); }
word64 mb_(word64 a, const word64 s[]) { Mt11213b_32 q(2, s); Mt11213b_32 p(a); return p.rand() + p(); }
word64 mc_(word64 a, const word64 s[]) { Mt19937_32 q(2, s); Mt19937_32 p(a); return p.rand() + p(); }
word64 md_(word64 a, const word64 s[]) { Mt19937_64 p(a); Mt19937_64 q(2, s); return p.rand() + q.rand() + p(); }
word64 mg_(word64 a, const word64 s[]) { Melg19937_64 p(a); Melg19937_64 q(2, s); return p.rand() + q.rand() + p(); }
'''
BV64 = z3.BitVecSort(64)
MODE = {"bv": {(64, False): True}}


def bv(x, n=64):
    return z3.BitVecVal(x, n)


# (w n m r a u d s b t c l f1 f2 f3), Matsumoto & Nishimura (1998, table II), MT19937-64 reference
MT = {
    "Mt11213a_32": (32, 351, 175, 19, 0xE4BD75F5, 11, 0xFFFFFFFF, 7, 0x655E5280, 15, 0xFFD58000, 17, 1812433253, 1664525, 1566083941),
    "Mt11213b_32": (32, 351, 175, 19, 0xCCAB8EE7, 11, 0xFFFFFFFF, 7, 0x31B6AB00, 15, 0xFFE50000, 17, 1812433253, 1664525, 1566083941),
    "Mt19937_32": (32, 624, 397, 31, 0x9908B0DF, 11, 0xFFFFFFFF, 7, 0x9D2C5680, 15, 0xEFC60000, 18, 1812433253, 1664525, 1566083941),
    "Mt19937_64": (64, 312, 156, 31, 0xB5026F5AA96619E9, 29, 0x5555555555555555, 17, 0x71D67FFFEDA60000, 37, 0xFFF7EEE000000000, 43,
                   6364136223846793005, 3935559000370003845, 2862933555777941757),
}


def pcg_unit(out):
    u = unit(DRIVER)
    v = V(out, u, mode={"bv": {(64, False): True, (32, False): True}})
    cls = [r for r in u.records if "Pcg<" in r][0]
    # one step from an arbitrary state: XSH-RR output of the old state, LCG step
    obj = v.obj(cls)
    s, inc = v.ex.read(v.st, obj.fld("state"), False), v.ex.read(v.st, obj.fld("inc"), False)
    r, st, _ = v.call(cls + "::rand", [], this=obj)
    v.goal("state step", st, v.ex.read(st, obj.fld("state")) == s * bv(6364136223846793005) + inc)
    x = z3.Extract(31, 0, z3.LShR(z3.LShR(s, 18) ^ s, 27))
    v.goal("output", st, r == z3.RotateRight(x, z3.Extract(31, 0, z3.LShR(s, 59))))
    v.goal("increment is constant", st, v.ex.read(st, obj.fld("inc")) == inc)
    v.reachable(st, "step")
    # seeding
    seed, seq = v.ex.fconst(BV64, "seed"), v.ex.fconst(BV64, "seq")
    o2, st2, _ = v.construct(cls, [seed, seq])
    i2 = (seq << 1) | bv(1)
    v.goal("seeding: increment", st2, v.ex.read(st2, o2.fld("inc")) == i2)
    v.goal("seeding: state", st2, v.ex.read(st2, o2.fld("state")) == (i2 + seed) * bv(6364136223846793005) + i2)
    v.discharge()




def temper(y, p):
    w, n, m, r, a, u_, d, s, b, t, c, l = p[:12]
    y = y ^ (z3.LShR(y, u_) & bv(d))
    y = y ^ ((y << s) & bv(b))
    y = y ^ ((y << t) & bv(c))
    return y ^ z3.LShR(y, l)


def mask(w):
    return bv((1 << w) - 1)


def mt_cls(u, p):
    for r in sorted(u.records, key=lambda r: -len(u.records[r]["inner"])):
        if r.startswith("especia::Mersenne_Twister<" + ", ".join(str(x) for x in p[:4]) + ","):
            a = int(r[r.index("<") + 1:].split(",")[4])
            if a % 2 ** 64 == p[4]:
                return r
    raise ContractMissing("Mersenne_Twister")


def mtcall(v, cls, st, obj, name, args):
    s0, v.st = v.st, st
    try:
        return v.call(cls + "::" + name, args, this=obj)
    finally:
        v.st = s0


def state_of(v, st, obj, name="state"):
    s = v.ex.read(st, obj.fld(name), False)
    return s.data, s.size


def mt_rand_unit(name):
    p = MT[name]
    w, n, m, r, a = p[:5]

    def run(out):
        u = unit(DRIVER)
        cls = mt_cls(u, p)
        # output words between two generations
        v = V(out, u, mode=MODE)
        obj = v.obj(cls)
        S, size = state_of(v, v.st, obj)
        v.assume(size == n)
        idx = v.ex.read(v.st, obj.fld("index"), False)
        v.assume(z3.And(idx >= 0, idx < n))
        r_, st, thr = v.call(cls + "::rand", [], this=obj)
        v.goal("output is the tempered state word", st, r_ == temper(sel(S, idx), p))
        v.goal("index advances", st, v.ex.read(st, obj.fld("index")) == idx + 1)
        q = z3.Int("q")
        S2, size2 = state_of(v, st, obj)
        v.goal("state unchanged", st, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), sel(S2, q) == sel(S, q))))
        v.goal("size unchanged", st, size2 == n)
        v.reachable(st, "no regeneration")
        v.discharge()
        # regeneration: x[k+n] = x[k+m] xor (upper(x[k]) | lower(x[k+1])) A
        v = V(out, u, mode=MODE)
        obj = v.obj(cls)
        S, size = state_of(v, v.st, obj)
        s0 = v.st.store[obj.cell]
        s0 = setf(s0, "index", z3.IntVal(n))
        so = s0.f["state"]
        s0 = setf(s0, "state", Seq(so.elt, z3.IntVal(n), so.data, so.kind))
        v.st.store[obj.cell] = s0
        r_, st, thr = v.call(cls + "::rand", [], this=obj)
        N, size2 = state_of(v, st, obj)
        new = [sel(N, z3.IntVal(k)) for k in range(n)]
        upper, lower = mask(w) & ~mask(r), mask(r)
        x = [sel(S, z3.IntVal(k)) for k in range(n)]
        for k in range(n):
            y = (x[k] & upper) | (x[k + 1] & lower)
            x.append(x[k + m] ^ z3.LShR(y, 1) ^ z3.If(z3.Extract(0, 0, x[k + 1]) == 1, bv(a), bv(0)))
        steps = x[n:] + [temper(x[n], p)]
        t0 = time.time()
        bad, calls = sweep.equivalent(new + [r_], steps, steps)
        out.obls.append(dict(name="%s: the next generation obeys the recurrence and the output is its tempered first word (%d words, %d bit-vector queries)" % (out.name, n, calls), kind="post", ok=bad is None, backend="z3",
                             secs=round(time.time() - t0, 2), detail="" if bad is None else "word %d differs" % bad))
        v.goal("index after regeneration", st, v.ex.read(st, obj.fld("index")) == 1)
        v.reachable(st, "regeneration")
        v.discharge()
    return run


def setf(rec, k, x):
    f = dict(rec.f)
    f[k] = x
    return Rec(rec.cls, f)


def mt_seed_spec(p, keys, steps):
    """init_by_array (2002/01/26, 2004/9/29 for 64 bit)"""
    w, n = p[0], p[1]
    f1, f2, f3 = (bv(x) for x in p[-3:])
    m = mask(w)

    def step(x):
        steps.append(x)
        return x

    s = [bv(19650218) & m]
    for k in range(1, n):
        s.append(z3.simplify((f1 * (s[k - 1] ^ z3.LShR(s[k - 1], w - 2)) + bv(k)) & m))
    i, j = 1, 0
    for k in range(max(n, len(keys))):
        s[i] = step(((s[i] ^ ((s[i - 1] ^ z3.LShR(s[i - 1], w - 2)) * f2)) + keys[j] + bv(j)) & m)
        i, j = i + 1, j + 1
        if i >= n:
            s[0] = s[n - 1]
            i = 1
        if j >= len(keys):
            j = 0
    for k in range(n - 1):
        s[i] = step(((s[i] ^ ((s[i - 1] ^ z3.LShR(s[i - 1], w - 2)) * f3)) - bv(i)) & m)
        i += 1
        if i >= n:
            s[0] = s[n - 1]
            i = 1
    s[0] = bv(1 << (w - 1))
    return s


def halves(seed):
    return [seed & bv(0xFFFFFFFF), seed & bv(0xFFFFFFFF00000000)]


def seed_unit(name, spec, count, cls_of, fields):
    """count 0: the constructor from one word"""
    def run(out):
        u = unit(DRIVER)
        cls = cls_of(u)
        v = V(out, u, mode=MODE)
        if count == 0:
            seed = v.ex.fconst(BV64, "seed")
            keys = halves(seed)
            obj, st, thr = v.construct(cls, [seed], pred=lambda d: len(u.params(d)) == 1 and "&" not in d["type"]["qualType"])
        else:
            a = v.ex.fconst(z3.ArraySort(Int, BV64), "keys")
            c = v.ex.newcell("keys")
            v.st.store[c] = Seq(("int", 64, False), z3.IntVal(count), a, "raw")
            keys = [z3.Select(a, z3.IntVal(i)) for i in range(count)]
            obj, st, thr = v.construct(cls, [z3.IntVal(count), Ptr(LV(c), z3.IntVal(0))])
        steps = []
        want = spec(keys, steps)
        S, size = state_of(v, st, obj)
        t0 = time.time()
        impl = [sel(S, z3.IntVal(i)) for i in range(len(want))]
        bad, calls = sweep.equivalent(impl, steps, want)
        out.obls.append(dict(name="%s: seeded state equals the published initialisation (%d words, %d bit-vector queries)" % (out.name, len(want), calls), kind="post", ok=bad is None, backend="z3",
                             secs=round(time.time() - t0, 2), detail="" if bad is None else "state word %d differs" % bad))
        for f, x in fields:
            v.goal("initial " + f, st, v.ex.read(st, obj.fld(f)) == x)
        v.discharge()
    return run


# ---------------------------------------------------------------- MELG
W, N, M, L = 64, 311, 81, 19
F1, F2, F3 = 6364136223846793005, 3935559000370003845, 2862933555777941757


def melg_cls(u):
    for r in u.records:
        if r.startswith("especia::Melg<64, 311,"):
            return r
    raise ContractMissing("Melg")


def melg_seed_spec(keys, steps):
    """init_by_array64 of MELG19937-64 (Harase & Kimoto 2018); the last word is the lung"""
    def f(x):
        return x ^ z3.LShR(x, 62)
    s = [bv(19650218)]
    for k in range(1, N + 1):
        s.append(z3.simplify(bv(F1) * f(s[k - 1]) + bv(k)))
    i, j = 1, 0
    for k in range(max(N, len(keys))):
        s[i] = (s[i] ^ (f(s[i - 1]) * bv(F2))) + keys[j] + bv(j)
        steps.append(s[i])
        i, j = i + 1, j + 1
        if i >= N:
            s[0] = s[N - 1]
            i = 1
        if j >= len(keys):
            j = 0
    for k in range(N - 1):
        s[i] = (s[i] ^ (f(s[i - 1]) * bv(F3))) - bv(i)
        steps.append(s[i])
        i += 1
        if i >= N:
            s[0] = s[N - 1]
            i = 1
    s[N] = (s[N] ^ (f(s[N - 1]) * bv(F3))) - bv(N)
    s[0] = s[0] | bv(1 << 63)
    return s


def melg_rand_unit(case):
    def run(out):
        u = unit(DRIVER)
        cls = melg_cls(u)
        v = V(out, u, mode=MODE)
        obj = v.obj(cls)
        S, size = state_of(v, v.st, obj)
        v.assume(size == N + 1)
        i, c = v.ex.read(v.st, obj.fld("index"), False), v.ex.read(v.st, obj.fld("cycle"), False)
        inv = lambda i, c: z3.Or(z3.And(c == 1, i >= 0, i < N - M), z3.And(c == 2, i >= N - M, i < N - L), z3.And(c == 3, i >= N - L, i < N - 1), z3.And(c == 4, i == N - 1))
        v.assume(inv(i, c))
        v.assume(c == case)
        r, st, _ = v.call(cls + "::rand", [], this=obj)
        S2, size2 = state_of(v, st, obj)
        at = lambda k: sel(S, z3.If(k >= N, k - N, k))
        lung = sel(S, z3.IntVal(N))
        x = (at(i) & bv(0xFFFFFFFF80000000)) | (at(i + 1) & bv(0x7FFFFFFF))
        lung = z3.LShR(x, 1) ^ z3.If(z3.Extract(0, 0, x) == 1, bv(0x5C32E06DF730FC42), bv(0)) ^ at(i + M) ^ (lung ^ (lung << 23))
        y = x ^ (lung ^ z3.LShR(lung, 33))
        v.goal("lung", st, sel(S2, z3.IntVal(N)) == lung)
        v.goal("state word", st, sel(S2, i) == y)
        v.goal("output", st, r == (y ^ (y << 16)) ^ (at(i + L) & bv(0x6AEDE6FD97B338EC)))
        q = z3.Int("q")
        v.goal("other words unchanged", st, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N, q != i), sel(S2, q) == sel(S, q))))
        i2, c2 = v.ex.read(st, obj.fld("index")), v.ex.read(st, obj.fld("cycle"))
        v.goal("position advances cyclically", st, i2 == z3.If(i == N - 1, z3.IntVal(0), i + 1))
        v.goal("invariant", st, inv(i2, c2))
        v.goal("size", st, size2 == N + 1)
        v.reachable(st, "step")
        v.discharge()
    return run


UNITS = [("Pcg_32", pcg_unit)] + [(k, mt_rand_unit(k)) for k in MT] + [("Melg19937_64 case %d" % c, melg_rand_unit(c)) for c in (1, 2, 3, 4)]
for _k in MT:
    for _c in (0, 1, 2, 4):
        UNITS.append(("%s seeding (%s)" % (_k, "one word" if _c == 0 else "%d keys" % _c),
                      seed_unit(_k, (lambda p: lambda keys, steps: mt_seed_spec(p, keys, steps))(MT[_k]), _c, (lambda p: lambda u: mt_cls(u, p))(MT[_k]), [("index", MT[_k][1])])))
for _c in (0, 1, 2, 4):
    UNITS.append(("Melg19937_64 seeding (%s)" % ("one word" if _c == 0 else "%d keys" % _c), seed_unit("Melg19937_64", melg_seed_spec, _c, melg_cls, [("index", 0), ("cycle", 1)])))
