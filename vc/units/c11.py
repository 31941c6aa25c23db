"""C11: cost of a section, masking and counting."""
from core import *
from units.c12 import DRIVER, S, section, vec
RA = z3.ArraySort(Int, Real)


def fields(v, obj, st=None):
    return (st or v.st).store[obj.cell].f


def data(x):
    return x.data if isinstance(x, Seq) else x


def same_fields(v, name, st, obj, before, skip=()):
    """frame condition: every field but the listed ones is unchanged"""
    now = fields(v, obj, st)
    for k, x in before.items():
        if k in skip:
            continue
        y = now[k]
        if isinstance(x, Seq):
            i = v.ex.fconst(Int, "i")
            v.goal("%s leaves %s unchanged" % (name, k), st.pc + [i >= 0, i < x.size], z3.And(y.size == x.size, sel(y.data, i) == sel(x.data, i)))
        else:
            v.goal("%s leaves %s unchanged" % (name, k), st, y == x)


def model_contracts(v, n, seen):
    """contracts of convolute and continuum: they deliver arbitrary arrays of the length they were given; nothing else changes"""
    def out(ex, st, arr, nm):
        s = ex.read(st, arr)
        ex.check(st, "contract of %s: size of the array" % nm, s.size == n) if hasattr(ex, "check") else None
        a = ex.fconst(RA, nm)
        ex.write(st, arr, Seq(s.elt, s.size, a, s.kind))
        return a

    def convolute(ex, st, fn, args, this):
        r = {k: out(ex, st, a, k) for k, a in zip(("opt", "atm", "cat"), args[2:])}
        seen.append(("convolute", dict(r=ex.rval(st, args[0]) if hasattr(ex, "rval") else args[0], out=r, this=this)))
        return None

    def continuum(ex, st, fn, args, this):
        c = ex.read(st, args[1]) if isinstance(args[1], LV) else args[1]
        r = out(ex, st, args[2], "cfl")
        seen.append(("continuum", dict(m=args[0], cat=c.data, out=r, this=this)))
        return None
    return convolute, continuum


def run(out, which):
    u = unit(DRIVER)
    v = V(out, u, timeout=6000)
    ex = v.ex
    obj, n, F = section(v)
    seen = []
    cv, ct = model_contracts(v, n, seen)
    qs = {norm_name(u.qname(f)): f for f in u.funcs}
    for f in u.funcs:
        q = u.qname(f)
        if q.startswith(S + "::convolute"):
            ex.contracts[q] = cv
        if q.startswith(S + "::continuum"):
            ex.contracts[q] = ct
    before = dict(fields(v, obj))
    r = v.real("r")
    m = v.nat("m")
    tau = v.obj("Tau", "tau")
    i = ex.fconst(Int, "i")
    inr = [i >= 0, i < n]
    if which == "cost of a model":
        val, st, thr = v.call(S + "::cost", [tau, r, m], this=obj, pred=lambda f: len(u.params(f)) == 3)
    else:
        val, st, thr = v.call(S + "::apply", [m, r, tau], this=obj)
    (_, a), (_, b) = seen
    v.goal("convolution for the given resolution", st, a["r"] == r)
    v.goal("continuum of the given order", st, b["m"] == m)
    v.goal("continuum for the convoluted absorption", st.pc + inr, sel(b["cat"], i) == sel(a["out"]["cat"], i))
    cat, atm, cfl = a["out"]["cat"], a["out"]["atm"], b["out"]
    chi = lambda k: (sel(F["flx"], k) - sel(cfl, k) * sel(cat, k)) / sel(F["unc"], k)
    want = SUMF(lambda k: z3.If(sel(F["msk"], k), chi(k) * chi(k), 0), 0, n) / 2
    if which == "cost of a model":
        v.goal("half chi-square over the unmasked points", st, val == want)
        same_fields(v, "evaluation", st, obj, before)
    else:
        now = {k: data(x) for k, x in fields(v, obj, st).items()}
        for k, w in (("opt", sel(a["out"]["opt"], i)), ("atm", sel(atm, i)), ("cat", sel(cat, i)), ("cfl", sel(cfl, i)), ("tfl", sel(cfl, i) * sel(atm, i)), ("fit", sel(cfl, i) * sel(cat, i)), ("res", chi(i))):
            v.goal("stored " + k, st.pc + inr, sel(now[k], i) == w)
            v.goal("size of " + k, st, fields(v, obj, st)[k].size == n)
        same_fields(v, "application", st, obj, before, ("opt", "atm", "cat", "cfl", "tfl", "fit", "res"))
        v.st = st
        val, st, thr = v.call(S + "::cost", [], this=obj, pred=lambda f: len(u.params(f)) == 0)
        v.goal("stored cost equals the cost of the applied model", st, val == want)
    v.reachable(st, "end")
    v.discharge()


def stored_unit(out):
    u = unit(DRIVER)
    v = V(out, u, timeout=6000)
    obj, n, F = section(v)
    before = dict(fields(v, obj))
    val, st, thr = v.call(S + "::cost", [], this=obj, pred=lambda f: len(u.params(f)) == 0)
    v.goal("half the sum of squared residuals over the unmasked points", st, val == SUMF(lambda k: z3.If(sel(F["msk"], k), sel(F["res"], k) * sel(F["res"], k), 0), 0, n) / 2)
    same_fields(v, "evaluation", st, obj, before)
    val, st, thr = v.call(S + "::valid_data_count", [], this=obj)
    v.goal("number of unmasked points", st, val == ISUMF(lambda k: z3.If(sel(F["msk"], k), z3.IntVal(1), z3.IntVal(0)), 0, n))
    same_fields(v, "counting", st, obj, before)
    v.discharge()


def mask_unit(out):
    u = unit(DRIVER)
    v = V(out, u, timeout=6000)
    ex = v.ex
    obj, n, F = section(v)
    before = dict(fields(v, obj))
    a, b, c, d = (v.real(x) for x in "abcd")
    i = ex.fconst(Int, "i")
    _, st, thr = v.call(S + "::mask", [a, b], this=obj)
    w = sel(F["wav"], i)
    v.goal("exactly the points in the closed interval are removed", st.pc + [i >= 0, i < n], sel(fields(v, obj, st)["msk"].data, i) == z3.And(sel(F["msk"], i), z3.Not(z3.And(a <= w, w <= b))))
    same_fields(v, "masking", st, obj, before, ("msk",))
    v.st = st
    _, st, thr = v.call(S + "::mask", [c, d], this=obj)
    v.goal("masks accumulate", st.pc + [i >= 0, i < n], sel(fields(v, obj, st)["msk"].data, i) == z3.And(sel(F["msk"], i), z3.Not(z3.And(a <= w, w <= b)), z3.Not(z3.And(c <= w, w <= d))))
    v.reachable(st, "end")
    v.discharge()


def ctor_unit(out):
    u = unit(DRIVER)
    v = V(out, u, timeout=6000)
    ex = v.ex
    n = v.nat("n", 0, 2 ** 30)
    i = ex.fconst(Int, "i")
    inr = [i >= 0, i < n]

    def sizes(st, o, n):
        for k, x in fields(v, o, st).items():
            if isinstance(x, Seq):
                v.goal("size of " + k, st, x.size == n)
        v.goal("number of points", st, fields(v, o, st)["n"] == n)
    o, st, thr = v.construct(S, [], pred=lambda d: not u.params(d))
    sizes(st, o, z3.IntVal(0))
    o, st, thr = v.construct(S, [n], pred=lambda d: len(u.params(d)) == 1 and "Section" not in d["type"]["qualType"].split("(")[1])
    sizes(st, o, n)
    f = fields(v, o, st)
    v.goal("no point is masked", st.pc + inr, sel(f["msk"].data, i))
    arrs = [v.array(x, n) for x in ("x", "y", "u")]
    o, st, thr = v.construct(S, [n] + [Ptr(l, z3.IntVal(0)) for l, a in arrs], pred=lambda d: len(u.params(d)) == 4)
    sizes(st, o, n)
    f = fields(v, o, st)
    v.goal("no point is masked", st.pc + inr, sel(f["msk"].data, i))
    for k, (l, a) in zip(("wav", "flx", "unc"), arrs):
        v.goal("copy of the data: " + k, st.pc + inr, sel(f[k].data, i) == sel(a, i))
    v.st = st
    for nm, want in (("lower_bound", z3.If(n > 0, sel(arrs[0][1], z3.IntVal(0)), 0)), ("upper_bound", z3.If(n > 0, sel(arrs[0][1], n - 1), 0)),
                     ("width", z3.If(n > 0, sel(arrs[0][1], n - 1) - sel(arrs[0][1], z3.IntVal(0)), 0)),
                     ("center", z3.If(n > 0, (sel(arrs[0][1], n - 1) + sel(arrs[0][1], z3.IntVal(0))) / 2, 0)), ("data_count", n)):
        val, st2, _ = v.call(S + "::" + nm, [], this=o)
        v.goal(nm, st2, val == want)
    v.discharge()


UNITS = [(w, lambda out, w=w: run(out, w)) for w in ("cost of a model", "application of a model")] + [("stored cost and count", stored_unit), ("mask", mask_unit), ("constructors", ctor_unit)]
