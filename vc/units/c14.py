"""C14: line profile formulas and their superposition."""
from core import *

DRIVER = '''#include "profiles.h"
#include "core/profiles.cxx"
using namespace especia;
template class especia::Superposition<Many_Multiplet>;
template class especia::Superposition<Intergalactic_Doppler>;
template class especia::Intergalactic_Voigt<Pseudo_Voigt>;
template class especia::Intergalactic_Voigt<Extended_Pseudo_Voigt>;
template class especia::Superposition<Intergalactic_Voigt<Pseudo_Voigt> >;
template class especia::Superposition<Intergalactic_Voigt<Extended_Pseudo_Voigt> >;
'''


def R(s):
    return expr.real_const(float(s))


# CODATA 2014 values (NIST SP 961, 2015)
PI = R("3.141592653589793238462643383279502884197169399375")
SQRTPI = R("1.772453850905516027298167483341145182797549456123")
SQRTLN2 = R("0.832554611157697756353164644895201047630588852264")
EPS0, ME, QE = R("8.854187817E-12"), R("9.10938356E-31"), R("1.6021766208E-19")
C = R("299792458.0")
C0 = R("1.0E-03") * C                                              # km/s
C1 = R("1.0E-06") * QE * QE / (4 * EPS0 * ME * C * C)
C2 = R("1.0E-10") / (4 * PI * C)
exp, log, cosh, sqrt = MATH["exp"], MATH["log"], MATH["cosh"], MATH["sqrt"]


def gauss(x, g):
    return 1 / (SQRTPI * g) * exp(-(x / g) * (x / g))


def lorentz(x, g):
    return 1 / ((PI * g) * (1 + (x / g) * (x / g)))


def irrational(x, g):
    return 1 / (2 * g * POW(1 + (x / g) * (x / g), R("1.5")))


def sech2(x, g):
    return 1 / (2 * g * cosh(x / g) * cosh(x / g))


def horner(x, *cs):
    r = R(cs[-1])
    for c in reversed(cs[:-1]):
        r = R(c) + x * r
    return r


def pv_spec(b, d):
    """Ida, Ando & Toraya (2000), eqs. for the pseudo-Voigt (HWHM convention)"""
    rho = SQRTLN2 * b / d
    h = 1 / POW(1 + R("0.07842") * rho + R("4.47163") * rho * rho + R("2.42843") * rho * rho * rho + R("2.69296") * rho * rho * rho * rho
                + rho * rho * rho * rho * rho, R("0.2")) if False else \
        1 / POW(1 + rho * (R("0.07842") + rho * (R("4.47163") + rho * (R("2.42843") + rho * (rho + R("2.69296"))))), R("0.2"))
    eta = R("1.36603") * h - R("0.47719") * h * h + R("0.11116") * h * h * h
    gl = d / h
    gg = gl / SQRTLN2
    return lambda x: (1 - eta) * gauss(x, gg) + eta * lorentz(x, gl)


def epv_spec(b, d):
    """Ida, Ando & Toraya (2000), extended pseudo-Voigt, table of coefficients"""
    g = SQRTLN2 * b + d
    r = d / g
    wg = 1 - r * horner(r, 0.66000, 0.15021, -1.24984, 4.74052, -9.48291, 8.48252, -2.95553)
    wl = 1 - (1 - r) * horner(r, -0.42179, -1.25693, 10.30003, -23.45651, 29.14158, -16.50453, 3.19974)
    wi = horner(r, 1.19913, 1.43021, -15.36331, 47.06071, -73.61822, 57.92559, -17.80614)
    wp = horner(r, 1.10186, -0.47745, -0.68688, 2.76622, -4.55466, 4.05475, -1.26571)
    el = r * (1 + (1 - r) * horner(r, -0.30165, -1.38927, 9.31550, -24.10743, 34.96491, -21.18862, 3.70290))
    ei = r * (1 - r) * horner(r, 0.25437, -0.14107, 3.23653, -11.09215, 22.10544, -24.12407, 9.76947)
    ep = r * (1 - r) * horner(r, 1.01579, 1.50429, -9.21815, 23.59717, -39.71134, 32.83023, -10.02142)
    ci = sqrt(POW(R(2), R(2) / R(3)) - 1)
    cp = log(sqrt(R(2)) + 1)
    return lambda x: (1 - el - ei - ep) * gauss(x, g * wg / SQRTLN2) + el * lorentz(x, g * wl) + ei * irrational(x, g * wi / ci) + ep * sech2(x, g * wp / cp)


def truncated(x, b):
    return ite(z3.And(x < 4 * b, -x < 4 * b), gauss(x, b), z3.RealVal(0))


def mm_spec(q):
    """many-multiplet profile: q(i) -> parameter i"""
    da = q(7) * R("1.0E-06")
    u = R("1.0E+08") / (R("1.0E+08") / q(0) + q(6) * da * (da + 2))
    z = (1 + q(2)) * (1 + q(3) / C0)
    c = u * z
    b = q(4) * c / C0
    a = C1 * q(1) * POW(R(10), q(5)) * (u * c)
    return dict(z=z, c=c, f=lambda x: a * truncated(x - c, b))


def id_spec(q):
    z = (1 + q(2)) * (1 + q(3) / C0)
    c = q(0) * z
    b = q(4) * c / C0
    a = C1 * q(1) * POW(R(10), q(5)) * (q(0) * c)
    return dict(z=z, c=c, f=lambda x: a * truncated(x - c, b))


def iv_spec(approx):
    def spec(q):
        z = (1 + q(2)) * (1 + q(3) / C0)
        c = q(0) * z
        a = C1 * q(1) * POW(R(10), q(5)) * (q(0) * c)
        f = approx(q(4) * c / C0, C2 * q(6) * (q(0) * c))
        return dict(z=z, c=c, f=lambda x: a * f(x - c))
    return spec


PROFILES = {"Many_Multiplet": (8, mm_spec), "Intergalactic_Doppler": (6, id_spec),
            "Intergalactic_Voigt<Pseudo_Voigt>": (7, iv_spec(pv_spec)),
            "Intergalactic_Voigt<Extended_Pseudo_Voigt>": (7, iv_spec(epv_spec))}


def q_(cls):
    import re
    return "especia::" + re.sub(r"<(\w)", r"<especia::\1", cls)


def pcall(v, cls, st, obj, name, args):
    s0 = v.st
    v.st = st
    try:
        return v.call(q_(cls) + "::" + name, args, this=obj)
    finally:
        v.st = s0


def profile_unit(cls):
    n, spec = PROFILES[cls]

    def run(out):
        u = unit(DRIVER)
        v = V(out, u)
        arr, q = v.array("q", n)
        obj, st, thr = v.construct(q_(cls), [Ptr(arr, z3.IntVal(0))], pred=lambda d: len(u.params(d)) == 1 and "const especia::real *" in d["type"]["qualType"] or "const real" in d["type"]["qualType"])
        s = spec(lambda i: sel(q, i))
        x = v.real("x")
        r, st1, _ = pcall(v, cls, st, obj, "operator()", [v.cell(x)] if False else [x])
        v.goal("optical depth equals the formula", st1, r == s["f"](x))
        r, st1, _ = pcall(v, cls, st, obj, "center", [])
        v.goal("centre", st1, r == s["c"])
        r, st1, _ = pcall(v, cls, st, obj, "redshift_factor", [])
        v.goal("redshift factor", st1, r == s["z"])
        r, st1, _ = pcall(v, cls, st, obj, "parameter_count", [])
        v.goal("parameter count", st1, r == n)
        v.reachable(st, "construction")
        v.discharge()
    return run


def approx_unit(cls, spec):
    def run(out):
        u = unit(DRIVER)
        v = V(out, u)
        b, d, x = v.real("b"), v.real("d"), v.real("x")
        obj, st, thr = v.construct("especia::" + cls, [b, d])
        r, st1, _ = pcall(v, cls, st, obj, "operator()", [x])
        v.goal("value equals the formula", st1, r == spec(b, d)(x))
        v.discharge()
    return run


def superposition_unit(cls):
    n, spec = PROFILES[cls]

    def run(out):
        u = unit(DRIVER)
        v = V(out, u)
        cnt = v.nat("n", 0, 2 ** 20)
        size = v.nat("len", 0)
        v.assume(size >= n * cnt)
        arr, q = v.array("q", size)
        sup = "Superposition<%s>" % cls
        obj, st, thr = v.construct("especia::Superposition<%s>" % q_(cls), [cnt, Ptr(arr, z3.IntVal(0))])
        x = v.real("x")
        s0, v.st = v.st, st
        r, st1, _ = v.call("especia::Superposition<%s>::operator()" % q_(cls), [x], this=obj)
        v.st = s0
        v.goal("sum of the profiles", st1, r == SUMF(lambda i: spec(lambda k: sel(q, n * i + k))["f"](x), 0, cnt))
        v.reachable(st1, "end")
        v.discharge()
    return run


UNITS = [(c, profile_unit(c)) for c in PROFILES] + [("Pseudo_Voigt", approx_unit("Pseudo_Voigt", pv_spec)), ("Extended_Pseudo_Voigt", approx_unit("Extended_Pseudo_Voigt", epv_spec))] + \
        [("Superposition<%s>" % c, superposition_unit(c)) for c in PROFILES]
