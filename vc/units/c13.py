"""C13: convolution with the instrumental line spread function."""
from core import *
from units.c12 import DRIVER, S, section, vec, loops_of
from units.c11 import fields, data, same_fields
from units.c14 import SQRTLN2, SQRTPI
RA = z3.ArraySort(Int, Real)
sqrt, erf, exp = MATH["sqrt"], MATH["erf"], MATH["exp"]


def spread(x, h):
    """primitives of g(x) and x g(x), g the normalised Gaussian of half width h at half maximum"""
    b = h / SQRTLN2
    return erf(x / b) / 2, -exp(-(x / b) * (x / b)) * b / SQRTPI / 2


def primitive_unit(out):
    u = unit(DRIVER)
    v = V(out, u)
    x, h = v.real("x"), v.real("h")
    v.assume(h > 0)
    p, q = v.cell(v.real("p0")), v.cell(v.real("q0"))
    _, st, thr = v.call(S + "::primitive", [v.cell(x), v.cell(h), p, q])
    P, Q = spread(x, h)
    v.goal("primitive of the line spread function", st, v.ex.read(st, p) == P)
    v.goal("primitive of the abscissa times the line spread function", st, v.ex.read(st, q) == Q)
    v.goal("no error", [], not thr)
    v.discharge()


def supersample_unit(out):
    """target[k i + j] = source[i] + j/k (source[i + 1] - source[i])"""
    u = unit(DRIVER)
    v = V(out, u, timeout=6000)
    ex = v.ex
    n, k = v.nat("n", 1, 2 ** 30), v.nat("k", 1, 2 ** 30)
    size = v.nat("size", 1, 2 ** 32 - 1)
    v.assume(z3.And(size == k * (n - 1) + 1, k * n <= 2 ** 32 - 1))
    src, A = vec(v, n, "source")
    dst, D = vec(v, size, "target")
    _, st, thr = v.call(S + "::supersample", [src, k, dst])
    g = ex.read(st, dst)
    i, j = ex.fconst(Int, "i"), ex.fconst(Int, "j")
    v.goal("samples", st.pc + [i >= 0, i < n], sel(g.data, k * i) == sel(A, i), inst=[i, k * i, i - 1, z3.IntVal(0)])
    v.goal("supersamples", st.pc + [i >= 0, i + 1 < n, j >= 0, j < k], sel(g.data, k * i + j) == sel(A, i) + z3.ToReal(j) / z3.ToReal(k) * (sel(A, i + 1) - sel(A, i)), inst=[i, j, j - 1, k * i + j])
    v.discharge()


def convolute_unit(out):
    u = unit(DRIVER)
    v = V(out, u, timeout=6000)
    ex = v.ex
    obj, n, F = section(v)
    wav = F["wav"]
    r = v.real("r")
    w0, w1 = sel(wav, z3.IntVal(0)), sel(wav, n - 1)
    v.assume(z3.And(r > 0, w0 > 0, z3.Implies(n > 1, w1 > w0)))
    tau = v.obj("Tau", "tau")
    o, a, c = (vec(v, n, x)[0] for x in ("opt", "atm", "cat"))
    before = [ex.read(v.st, x).data for x in (o, a, c)]
    frame = dict(fields(v, obj))
    casts = []

    def named(ex, st, x, t):
        """value of a conversion to an unsigned number: a new name N with N <= x < N + 1"""
        N = ex.fconst(Int, "N")
        casts.append((N, x))
        ex.oblige(st, x >= 0, "conversion", "argument of the conversion to an unsigned number is not negative")
        st.pc += [z3.ToReal(N) <= x, x < z3.ToReal(N) + 1, N >= 0, N < 2 ** 30]
        if len(casts) == 1:
            st.pc += [N >= 1, N * n < 2 ** 32]
        return N
    ex.hooks["real2int"] = named
    seen = []

    def supersample(ex, st, fn, args, this):
        src, k, dst = args
        s = ex.read(st, src) if isinstance(src, LV) else src
        d = ex.read(st, dst)
        T = ex.fconst(RA, "wavs")
        ex.write(st, dst, Seq(d.elt, d.size, T, d.kind))
        seen.append((s, k, d.size, T))
        return None
    ex.contracts[S + "::supersample"] = supersample
    TAU = z3.Function("TAU", Real, Real)
    ex.contracts["Tau::operator()"] = lambda ex, st, fn, args, this: TAU(ex.rv(st, args[0]))
    _, st, thr = v.call(S + "::convolute", [r, tau, o, a, c], this=obj)
    i, i2 = ex.fconst(Int, "i"), ex.fconst(Int, "i2")
    g = {k: ex.read(st, x) for k, x in zip(("opt", "atm", "cat"), (o, a, c))}
    for k, x in g.items():
        v.goal("size of " + k, st, x.size == n)
    for (k, x), b in zip(g.items(), before):
        v.goal("no more than two points: %s untouched" % k, st.pc + [n <= 2, i >= 0, i < n], sel(x.data, i) == sel(b, i))
    same_fields(v, "convolution", st, obj, frame)
    (sN, _), (mN, _) = casts
    h = (w0 + w1) / 2 / (r * 1000) / 2
    d = (w1 - w0) / (z3.ToReal(n) - 1)
    w = d / z3.ToReal(sN)
    big = st.pc + [n > 2]
    v.goal("smallest supersampling that resolves the half width", big, z3.And(z3.ToReal(sN) >= d / h, z3.ToReal(sN) - 1 < d / h))
    v.goal("line spread function truncated at four half widths", big, z3.And(z3.ToReal(mN) <= 4 * h / w, z3.ToReal(mN) + 1 > 4 * h / w))
    inr = big + [i >= 0, i < n]
    for case, X, at, m, hy in (("spacing below the half width", lambda k: exp(-TAU(sel(wav, k))), i, n, inr + [sN == 1]),
                               ("supersampled", (lambda k: exp(-TAU(sel(seen[0][3], k)))) if seen else None, sN * i, sN * (n - 1) + 1, inr + [sN != 1])):
        if X is None:
            raise Unsupported("supersampling is not used")
        if case == "supersampled":
            src, k, size, T = seen[0]
            v.goal("the wavelengths are supersampled", hy, z3.And(src.data == wav, src.size == n, k == sN, size == m))
            hy = hy + [sel(T, sN * i) == sel(wav, i), sN * i >= 0, sN * i < m]
            v.goal("range of the supersamples", inr + [sN != 1], z3.And(sN * i >= 0, sN * i < m))
        lo = lambda j: z3.If(at - j - 1 > 0, at - j - 1, 0)
        hi = lambda j: z3.If(at + j > m - 2, m - 2, at + j)
        cv = lambda j: (X(hi(j) + 1) - X(hi(j))) - (X(lo(j) + 1) - X(lo(j)))
        P = lambda j: spread(z3.ToReal(j) * w, h)[0]
        Q = lambda j: spread(z3.ToReal(j) * w, h)[1]
        v.goal(case + ": integral of the interpolated absorption against the line spread function", hy, sel(g["cat"].data, i) ==
               SUMF(lambda j: (P(j + 1) - P(j)) * (X(lo(j) + 1) + X(hi(j)) - z3.ToReal(j) * cv(j)), 0, mN) + SUMF(lambda j: (Q(j + 1) - Q(j)) * cv(j), 0, mN) / w)
        v.goal(case + ": optical depth at the data wavelengths", hy, sel(g["opt"].data, i) == TAU(sel(wav, i)))
        v.goal(case + ": absorption at the data wavelengths", hy, sel(g["atm"].data, i) == exp(-TAU(sel(wav, i))))
        t = ex.fconst(Real, "t")
        flat = z3.substitute_funs(sel(g["cat"].data, i) == sel(g["cat"].data, i2), (TAU, t))
        v.goal(case + ": a constant convolves to the same constant at every point", [z3.substitute_funs(x, (TAU, t)) for x in hy] + [i2 >= 0, i2 < n] + ([sN * i2 >= 0, sN * i2 < m] if case == "supersampled" else []), flat)
    v.reachable(st, "end")
    v.discharge()


UNITS = [("primitive", primitive_unit), ("supersample", supersample_unit), ("convolute", convolute_unit)]
