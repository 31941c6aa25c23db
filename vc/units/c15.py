"""C15: symmetry, positivity and monotonicity of the profile functions."""
from core import *
from c14 import DRIVER, R, SQRTPI, SQRTLN2, PI, gauss, lorentz, irrational, sech2, horner, pcall, q_, PROFILES, pv_spec, epv_spec
exp, log, cosh, sqrt = MATH["exp"], MATH["log"], MATH["cosh"], MATH["sqrt"]


def nra(v, name, hyps, goal):
    v.goal(name, hyps, goal, kind="lemma")


def weights_pv(b, d):
    rho = SQRTLN2 * b / d
    base = 1 + rho * (R("0.07842") + rho * (R("4.47163") + rho * (R("2.42843") + rho * (rho + R("2.69296")))))
    h = 1 / POW(base, R("0.2"))
    eta = h * (R("1.36603") - h * (R("0.47719") - h * R("0.11116")))
    return rho, base, h, eta


def component_lemmas(v):
    """facts about the normalised components, for positive widths"""
    x, y, g, a = z3.Reals("x y g a")
    E, F = z3.Reals("E F")
    # exp is positive, increasing, and exp(-t) <= 1/(1+t)
    nra(v, "lemma: the Gaussian is positive", [g > 0, E > 0, SQRTPI > 0], 1 / (SQRTPI * g) * E > 0)
    nra(v, "lemma: the Lorentzian is positive", [g > 0], 1 / ((PI * g) * (1 + (x / g) * (x / g))) > 0)
    nra(v, "lemma: squares of scaled distances increase", [g > 0, x >= 0, y >= x], (x / g) * (x / g) <= (y / g) * (y / g))
    nra(v, "lemma: the Gaussian does not increase", [g > 0, E >= F], 1 / (SQRTPI * g) * E >= 1 / (SQRTPI * g) * F)
    s, t = z3.Reals("s t")
    nra(v, "lemma: the Lorentzian does not increase", [g > 0, s >= 0, t >= s], 1 / ((PI * g) * (1 + s)) >= 1 / ((PI * g) * (1 + t)))


def pv_unit(out):
    u = unit(DRIVER)
    v = V(out, u)
    b, d, x = v.real("b"), v.real("d"), v.real("x")
    obj, st, thr = v.construct("especia::Pseudo_Voigt", [b, d])
    r, st1, _ = pcall(v, "Pseudo_Voigt", st, obj, "operator()", [x])
    m, st2, _ = pcall(v, "Pseudo_Voigt", st, obj, "operator()", [-x])
    v.goal("symmetric", st2, r == m)
    rho, base, h, eta = weights_pv(b, d)
    gl = d / h
    gg = gl / SQRTLN2
    v.goal("mixture of an area-normalised Gaussian and Lorentzian with weights 1 - eta and eta", st1, r == (1 - eta) * gauss(x, gg) + eta * lorentz(x, gl))
    # 0 < eta <= 1 and positive widths
    rr, p, hh, e = z3.Reals("rho pw h eta")
    pos = [b > 0, d > 0, SQRTLN2 > 0]
    v.goal("width ratio is positive", pos, rho > 0, kind="lemma")
    nra(v, "polynomial exceeds one", [rr > 0], 1 + rr * (R("0.07842") + rr * (R("4.47163") + rr * (R("2.42843") + rr * (rr + R("2.69296"))))) > 1)
    # assumed: pow(y, 1/5) > 1 for y > 1
    nra(v, "0 < h < 1", [p > 1, hh == 1 / p], z3.And(hh > 0, hh < 1))
    nra(v, "mixing parameter lies in (0, 1]", [hh > 0, hh <= 1, e == hh * (R("1.36603") - hh * (R("0.47719") - hh * R("0.11116")))], z3.And(e > 0, e <= 1))
    nra(v, "widths are positive", [hh > 0, d > 0], z3.And(d / hh > 0, d / hh / SQRTLN2 > 0))
    component_lemmas(v)
    G, L, G2, L2 = z3.Reals("G L G2 L2")
    nra(v, "positive", [e > 0, e <= 1, G > 0, L > 0], (1 - e) * G + e * L > 0)
    nra(v, "does not increase with the distance from the centre", [e > 0, e <= 1, G >= G2, L >= L2], (1 - e) * G + e * L >= (1 - e) * G2 + e * L2)
    v.reachable(st1, "value")
    v.discharge()


def epv_terms(r):
    return dict(
        wg=1 - r * horner(r, 0.66000, 0.15021, -1.24984, 4.74052, -9.48291, 8.48252, -2.95553),
        wl=1 - (1 - r) * horner(r, -0.42179, -1.25693, 10.30003, -23.45651, 29.14158, -16.50453, 3.19974),
        wi=horner(r, 1.19913, 1.43021, -15.36331, 47.06071, -73.61822, 57.92559, -17.80614),
        wp=horner(r, 1.10186, -0.47745, -0.68688, 2.76622, -4.55466, 4.05475, -1.26571),
        el=r * (1 + (1 - r) * horner(r, -0.30165, -1.38927, 9.31550, -24.10743, 34.96491, -21.18862, 3.70290)),
        ei=r * (1 - r) * horner(r, 0.25437, -0.14107, 3.23653, -11.09215, 22.10544, -24.12407, 9.76947),
        ep=r * (1 - r) * horner(r, 1.01579, 1.50429, -9.21815, 23.59717, -39.71134, 32.83023, -10.02142))


def epv_unit(out):
    u = unit(DRIVER)
    v = V(out, u, timeout=30000)
    b, d, x = v.real("b"), v.real("d"), v.real("x")
    obj, st, thr = v.construct("especia::Extended_Pseudo_Voigt", [b, d])
    r, st1, _ = pcall(v, "Extended_Pseudo_Voigt", st, obj, "operator()", [x])
    m, st2, _ = pcall(v, "Extended_Pseudo_Voigt", st, obj, "operator()", [-x])
    g = SQRTLN2 * b + d
    rho = d / g
    T = epv_terms(rho)
    ci = sqrt(POW(R(2), R(2) / R(3)) - 1)
    cp = log(sqrt(R(2)) + 1)
    mix = lambda y: (1 - T["el"] - T["ei"] - T["ep"]) * gauss(y, g * T["wg"] / SQRTLN2) + T["el"] * lorentz(y, g * T["wl"]) \
        + T["ei"] * irrational(y, g * T["wi"] / ci) + T["ep"] * sech2(y, g * T["wp"] / cp)
    v.goal("mixture of four area-normalised components with weights that add to one", st1, r == mix(x))
    v.goal("the same mixture on the other side of the centre", st2, m == mix(-x))
    y, w_ = z3.Reals("y w")
    v.goal("the Gaussian is symmetric", [], gauss(y, w_) == gauss(-y, w_), kind="lemma")
    v.goal("the Lorentzian is symmetric", [], lorentz(y, w_) == lorentz(-y, w_), kind="lemma")
    v.goal("the irrational component is symmetric", [], irrational(y, w_) == irrational(-y, w_), kind="lemma")
    v.goal("the hyperbolic component is symmetric", [cosh(y / w_) == cosh(-y / w_)], sech2(y, w_) == sech2(-y, w_), kind="lemma")
    nra(v, "the width ratio lies in (0, 1)", [b > 0, d > 0], z3.And(rho > 0, rho < 1))
    q = z3.Real("r")
    t = epv_terms(q)
    tg = 1 - t["el"] - t["ei"] - t["ep"]
    rng = [q > 0, q < 1]
    for k in ("wg", "wl", "wi", "wp"):
        nra(v, "width of component %s is positive" % k, rng, t[k] > R("0.5"))
    nra(v, "weight of the irrational component is non-negative", rng, t["ei"] >= 0)
    nra(v, "weight of the Lorentzian is positive", rng, t["el"] > 0)
    c = R("0.95")
    nra(v, "weight of the Gaussian is non-negative below r = 0.95", rng + [q <= c], tg >= 0)
    nra(v, "weight of the hyperbolic component is non-negative below r = 0.95", rng + [q <= c], t["ep"] >= 0)
    eps = R("0.00001")
    nra(v, "weight of the Gaussian above r = 0.95", rng + [q > c], tg >= -eps)
    nra(v, "weight of the hyperbolic component above r = 0.95", rng + [q > c], t["ep"] >= -eps)
    nra(v, "weight of the Lorentzian above r = 0.95", rng + [q > c], t["el"] >= R("0.8"))
    for k in ("wg", "wl", "wp"):
        nra(v, "width of component %s is below 1.5" % k, rng, t[k] < R("1.5"))
    # the slightly negative weights near r = 1 are dominated by the Lorentzian:
    # exp(-t) <= 1/(1+t) and 1/cosh(t)^2 <= 1/(1+t^2), hence with X = (x/g)^2, 1/2 < w < 3/2
    X, w, wl, G, P, L, I = z3.Reals("X w wl G P L I")
    k = z3.Real("k")
    nra(v, "lemma: kernels of comparable width are comparable", [X >= 0, w > R("0.5"), w < 2, wl > R("0.5"), wl < R("1.5")],
        (1 / (1 + X / (w * w))) <= 16 * (1 / (1 + X / (wl * wl))))
    nra(v, "positive: all weights non-negative", [t_ > 0 for t_ in (G, L, I, P)] + [z3.Real("a") >= 0, z3.Real("b_") > 0, z3.Real("c_") >= 0, z3.Real("d_") >= 0],
        z3.Real("a") * G + z3.Real("b_") * L + z3.Real("c_") * I + z3.Real("d_") * P > 0)
    # L = K/(pi wl), G <= 16 K / (sqrt(pi) wg/cg), P <= 16 K / (2 wp/cp)
    K = z3.Real("K")
    nra(v, "positive: Lorentzian dominates", [K > 0, L == K / (PI * wl), wl < R("1.5"), wl > R("0.5"), G > 0, P > 0, I > 0, G <= 16 * K, P <= 16 * K,
                                             z3.Real("a") >= -eps, z3.Real("b_") >= R("0.8"), z3.Real("c_") >= 0, z3.Real("d_") >= -eps],
        z3.Real("a") * G + z3.Real("b_") * L + z3.Real("c_") * I + z3.Real("d_") * P > 0)
    v.discharge()


def doppler_unit(cls):
    n, spec = PROFILES[cls]

    def run(out):
        u = unit(DRIVER)
        v = V(out, u)
        arr, q = v.array("q", n)
        obj, st, thr = v.construct(q_(cls), [Ptr(arr, z3.IntVal(0))], pred=lambda d: "const especia::real *" in d["type"]["qualType"] or "const real" in d["type"]["qualType"])
        c, st0, _ = pcall(v, cls, st, obj, "center", [])
        x = v.real("x")
        r, st1, _ = pcall(v, cls, st, obj, "operator()", [c + x])
        m, st2, _ = pcall(v, cls, st, obj, "operator()", [c - x])
        v.goal("symmetric about the centre", st2, r == m)
        b = sel(q, 4) * c / (R("1.0E-03") * R("299792458.0"))
        v.goal("vanishes beyond four Doppler widths", st1.pc + [b > 0, z3.Or(x >= 4 * b, x <= -4 * b)], r == 0)
        f = spec(lambda i: sel(q, i))["f"]
        v.goal("value", st1, r == f(c + x))
        # non-negative: amplitude and kernel are products of non-negative factors
        f_, w, E, A, P_, s, k1 = z3.Reals("f w E A P s k1")
        nra(v, "non-negative", [k1 > 0, f_ >= 0, P_ > 0, w > 0, E > 0, s > 0], k1 * f_ * P_ * w * (1 / (s * w) * E) >= 0)
        v.reachable(st1, "value")
        v.discharge()
    return run


UNITS = [("Pseudo_Voigt", pv_unit), ("Extended_Pseudo_Voigt", epv_unit)] + [(c, doppler_unit(c)) for c in ("Many_Multiplet", "Intergalactic_Doppler")]
