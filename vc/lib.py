"""Contracts of the C++ standard library used by the analysed code (trusted)."""
import z3
from fractions import Fraction
from terms import *
from values import *
import exec as X
from exec import tparse, norm_name, strip_cv
from front import ty

VMAX = z3.Function("VMAX", ArrR, Int, Int, Real)
VMIN = z3.Function("VMIN", ArrR, Int, Int, Real)
IMAX = z3.Function("IMAX", ArrI, Int, Int, Int)
IMIN = z3.Function("IMIN", ArrI, Int, Int, Int)

REAL1 = {"sqrt": "sqrt", "exp": "exp", "log": "log", "erf": "erf", "cosh": "cosh", "sin": "sin", "cos": "cos",
         "tanh": "tanh", "log10": "log10"}


def math1(nm, x):
    return MATH[nm](x)


def rabs(x):
    zero = z3.RealVal(0) if x.sort() == Real else z3.IntVal(0)
    return ite(x >= zero, x, -x)


def toreal(ex, st, x):
    return ex.conv(st, x, ("real",))


def floor_r(x):
    return z3.ToReal(z3.ToInt(x))


def ceil_r(x):
    return -z3.ToReal(z3.ToInt(-x))


def zi(n):
    return z3.IntVal(n)


def elt_zero(ex, elt):
    return ex.zero(elt)


def const_seq(ex, elt, size, val, kind):
    return Seq(elt, size, tmap(lambda l: z3.K(Int, z(l)), val), kind)


def maplam(ex, f, *trees):
    """element tree with lambda leaves built from leaf arrays"""
    return tzip2(lambda *ls: lam(lambda k: f(*[sel(l, k) for l in ls])), *trees)


def tzip2(f, *ts):
    if len(ts) == 1:
        return tmap(f, ts[0])
    return tzip(f, *ts)


def seqval(ex, st, x):
    x = ex.rv(st, x)
    if not isinstance(x, Seq):
        raise Unsupported("sequence expected, got %s" % type(x).__name__)
    return x


def enum_constant(d):
    return None


# ------------------------------------------------------------ construction
def ctor_hook(ex, t, argn, st, n):
    h = ex.hooks.get("ctor")
    if h:
        return h(ex, t, argn, st, n)
    return NotImplemented


def default_value(ex, ft, st):
    k = ft[0]
    if k in ("real", "int", "bool"):
        return ex.fresh(ft, "uninit")
    if k == "str":
        return ex.strlit("")
    if k in ("seq", "arr"):
        return ex.zero(ft) if k == "seq" else ex.fresh(ft, "uninit")
    if k == "ptr":
        return NULL
    if k == "rec":
        return ex.fresh(ft, "dflt")
    raise Unsupported("default value of %s" % (ft,))


def construct(ex, t, ctype, argn, st, n):
    args = [ex.ev(a, st) for a in argn if a["kind"] != "CXXDefaultArgExpr"]
    ats = [ex.etype(a) for a in argn if a["kind"] != "CXXDefaultArgExpr"]
    return construct_v(ex, t, args, ats, st, n)


def deref_t(t):
    while t[0] == "ref":
        t = t[1]
    return t


def construct_v(ex, t, args, ats, st, n):
    h = ex.hooks.get("libctor")
    if h:
        r = h(ex, t, args, ats, st, n)
        if r is not NotImplemented:
            return r
    if t[0] == "vexpr" and args:
        return ex.rv(st, args[0])
    if t[0] == "seq":
        elt, kind = t[1], t[2]
        if not args:
            return ex.zero(t)
        v = [ex.rv(st, a) for a in args]
        if isinstance(v[0], z3.BitVecRef) and len(v) == 1:
            v[0] = ex.intidx(v[0])
        if len(v) == 1:
            if isinstance(v[0], Seq):
                return Seq(v[0].elt, v[0].size, v[0].data, kind)
            if isinstance(v[0], z3.ExprRef) and v[0].sort() == Int:
                ex.oblige(st, v[0] >= 0, "size", "size of a new sequence is non-negative")
                return const_seq(ex, elt, v[0], elt_zero(ex, elt), kind)
        if len(v) == 2 or len(v) == 3:
            if isinstance(v[0], Ptr) and isinstance(v[1], Ptr):
                cnt = ex.ptr_arith("-", v[1], v[0])
                return from_ptr(ex, st, elt, v[0], cnt, kind)
            if isinstance(v[0], Ptr):
                return from_ptr(ex, st, elt, v[0], ex.conv(st, v[1], ("int", 64, False)), kind)
            if kind == "valarray":
                val, size = v[0], v[1]
            else:
                size, val = v[0], v[1]
            if isinstance(size, z3.ExprRef) and size.sort() in (Int, Real):
                size = ex.conv(st, size, ("int", 64, False))
                val = ex.conv(st, val, elt) if isinstance(val, z3.ExprRef) else val
                return const_seq(ex, elt, size, val, kind)
    if t[0] == "str":
        if not args:
            return ex.strlit("")
        v = ex.rv(st, args[0])
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, Opaque) and isinstance(v.tag, tuple) and v.tag[0] == "lit":
            return ex.strlit(v.tag[1])
        return ex.fconst(ex.str_sort, "str")
    if t[0] in ("real", "int", "bool"):
        return ex.conv(st, ex.rv(st, args[0]), t) if args else ex.zero(t)
    if t[0] == "ptr" and len(args) == 1:
        return ex.rv(st, args[0])
    if t[0] == "rec":
        base = norm_name(t[1]).split("<")[0].split("::")[-1]
        if base in X.Exec.EXC_BASES:
            return Rec(base, {})
        if base in ("thread",):
            return thread_new(ex, st, args, n)
        if base in ("less", "greater", "plus", "minus", "multiplies", "less_equal", "greater_equal"):
            return Opaque(base)
        if base == "exception_ptr":
            return exc_ptr_new(ex, st, args)
        if len(args) == 1:
            v = ex.rv(st, args[0])
            if isinstance(v, (Opaque, Rec, Closure, Fn)):
                return v
            if isinstance(v, Ptr) and "iterator" in base:
                return v
        if not args:
            return ex.fresh(t, "obj")
    raise Unsupported("construction of %s" % (t,))


def from_ptr(ex, st, elt, p, cnt, kind):
    if p.off is None:
        raise Unsupported("range from a pointer to an object")
    s = ex.read(st, p.lv, False)
    range_ok(ex, st, s, p.off, cnt, "source range")
    ex.note_range(st, p, cnt, "r")
    off = p.off
    if concrete(off) == 0:
        return Seq(s.elt, cnt, s.data, kind)
    return Seq(s.elt, cnt, tmap(lambda l: lam(lambda k: sel(l, k + off)), s.data), kind)


def range_ok(ex, st, s, off, cnt, what):
    if not ex.bounds or ex.dry or ex.quiet:
        return
    g = z3.simplify(z3.Implies(cnt > 0, z3.And(off >= 0, off + cnt <= s.size)))
    if not z3.is_true(g):
        ex.oblige(st, g, "bounds", what + " in bounds")
    g = z3.simplify(cnt >= 0)
    if not z3.is_true(g):
        ex.oblige(st, g, "bounds", what + " well ordered")


# ------------------------------------------------------------ threads
def thread_new(ex, st, args, n):
    """The thread body is executed at creation; that this is indistinguishable
    from any interleaving is the frame obligation checked by property C24."""
    if not args:
        return Opaque("std::thread")
    f = ex.rv(st, args[0])
    h = ex.hooks.get("thread")
    if h:
        return h(ex, st, f, n)
    nthr = len(ex.frames[-1].throws)
    ex.call_value(f, [], st, n)
    # an exception leaving a thread body calls std::terminate
    esc = ex.frames[-1].throws[nthr:]
    del ex.frames[-1].throws[nthr:]
    for e in esc:
        ex.oblige(e.st, z3.BoolVal(False), "terminate", "no exception leaves a thread (std::terminate)")
    return Opaque("std::thread")


def exc_ptr_new(ex, st, args):
    if not args:
        return Rec("std::exception_ptr", {"set": z3.BoolVal(False), "id": z3.IntVal(0)})
    v = ex.rv(st, args[0])
    if v is NULL:
        return Rec("std::exception_ptr", {"set": z3.BoolVal(False), "id": z3.IntVal(0)})
    return v


# ------------------------------------------------------------ calls
def comparator(ex, st, f):
    """f(x, y) as a python function on values (pure)"""
    def cmp(a, b):
        ex.quiet += 1
        try:
            s = st.fork()
            r = ex.call_value(f, [ex.temp(s, a), ex.temp(s, b)], s)
            r = ex.rv(s, r)
        finally:
            ex.quiet -= 1
        return r
    return cmp


def call(ex, name, args, this, st, n):
    h = ex.hooks.get("call")
    if h:
        r = h(ex, name, args, st, n)
        if r is not NotImplemented:
            return r
    f = globals().get("c_" + str(name))
    if f is not None:
        return f(ex, args, st, n)
    if name in REAL1:
        x = ex.rv(st, args[0])
        if isinstance(x, Seq):
            return Seq(x.elt, x.size, tmap(lambda l: lam(lambda k: MATH[name](sel(l, k))), x.data), "valarray")
        return MATH[name](toreal(ex, st, x))
    if name and name.startswith("operator"):
        return operator(ex, name, args, st, n)
    raise Unsupported("library function " + str(name))


def c_abs(ex, args, st, n):
    x = ex.rv(st, args[0])
    if isinstance(x, Seq):
        return Seq(x.elt, x.size, tmap(lambda l: lam(lambda k: rabs(sel(l, k))), x.data), "valarray")
    return rabs(x)


c_fabs = c_abs


def c_pow(ex, args, st, n):
    x, y = [toreal(ex, st, ex.rv(st, a)) for a in args]
    return powr(x, y)


def powr(x, y):
    y = z3.simplify(y)
    if z3.is_rational_value(y) and y.denominator_as_long() == 1 and 0 <= y.numerator_as_long() <= 8:
        r = z3.RealVal(1)
        for _ in range(y.numerator_as_long()):
            r = r * x
        return r
    return POW(x, y)


def c_ceil(ex, args, st, n):
    return ceil_r(toreal(ex, st, ex.rv(st, args[0])))


def c_floor(ex, args, st, n):
    return floor_r(toreal(ex, st, ex.rv(st, args[0])))


def c_epsilon(ex, args, st, n):
    return z3.RealVal("1/%d" % 2 ** 52)


def c_quiet_NaN(ex, args, st, n):
    raise Unsupported("NaN")


def c_infinity(ex, args, st, n):
    raise Unsupported("infinity")


def limit(ex, n, mx):
    t = deref_t(ex.etype(n))
    if t[0] == "real":
        v = Fraction(2) ** 1024 - Fraction(2) ** 971
        return z3.RealVal(str(v.numerator if mx else 0)) if mx else z3.RealVal("1/%d" % 2 ** 1022)
    if t[0] == "int":
        lo, hi = ex.int_range(t)
        return ex.intval(hi if mx else lo, t)
    raise Unsupported("numeric_limits")


def mm(ex, args, st, n, mx):
    if not args:
        return limit(ex, n, mx)
    a, b = [ex.rv(st, x) for x in args[:2]]
    if len(args) == 3:
        c = comparator(ex, st, args[2])
        return ite(c(a, b), b, a) if mx else ite(c(b, a), b, a)
    if isinstance(a.sort(), z3.BitVecSortRef):
        lt = z3.ULT
    else:
        lt = lambda p, q: p < q
    return ite(lt(a, b), b, a) if mx else ite(lt(b, a), b, a)


def c_max(ex, args, st, n):
    return mm(ex, args, st, n, True)


def c_min(ex, args, st, n):
    return mm(ex, args, st, n, False)


def c_swap(ex, args, st, n):
    a, b = args
    x, y = ex.read(st, a), ex.read(st, b)
    ex.write(st, a, y)
    ex.write(st, b, x)


def c_move(ex, args, st, n):
    if len(args) == 1:
        return args[0]
    return c_copy(ex, args, st, n)


c_forward = c_move
c_ref = c_move
c_cref = c_move


def c_isnan(ex, args, st, n):
    return z3.BoolVal(False)


def c_isfinite(ex, args, st, n):
    return z3.BoolVal(True)


def segment(ex, st, first, last, what="range"):
    """(sequence value, offset, count)"""
    first, last = ex.rv(st, first), ex.rv(st, last)
    if not (isinstance(first, Ptr) and isinstance(last, Ptr)) or first.off is None:
        raise Unsupported("iterator range")
    cnt = ex.ptr_arith("-", last, first)
    s = ex.read(st, first.lv, False)
    range_ok(ex, st, s, first.off, cnt, what)
    ex.note_range(st, first, cnt, "r")
    return s, first.off, cnt, first


def c_accumulate(ex, args, st, n):
    s, off, cnt, p = segment(ex, st, args[0], args[1])
    init = ex.rv(st, args[2])
    d = s.data
    if len(args) == 4:
        op = ex.rv(st, args[3])
        if isinstance(op, Opaque) and op.tag == "plus":
            pass
        else:
            e, acc, v = fold_body(ex, st, op, d, init)
            return fold(ex, st, op, d, off, cnt, init)
    if init.sort() == Real:
        if d.range() == Int:
            return init + SUMF(lambda k: z3.ToReal(sel(d, k + off)), 0, cnt)
        return init + SUMF(lambda k: sel(d, k + off), 0, cnt)
    return ex.fit(init + ISUMF(lambda k: sel(d, k + off), 0, cnt), deref_t(ex.etype(n)), st)


def fold_body(ex, st, op, d, init):
    return None, None, None


def fold(ex, st, op, d, off, cnt, init):
    """accumulate with a binary operation of the form acc + g(x)"""
    acc = ex.fconst(init.sort(), "acc")
    x = ex.fconst(d.range(), "x")
    ex.quiet += 1
    try:
        s = st.fork()
        r = ex.rv(s, ex.call_value(op, [ex.temp(s, acc), ex.temp(s, x)], s))
    finally:
        ex.quiet -= 1
    dl = X.delta(r, acc)
    if dl is None or depends(dl, {acc.decl().name()}):
        raise Unsupported("accumulate with a general operation")
    return init + SUMF(lambda k: z3.substitute(dl, (x, sel(d, k + off))), 0, cnt)


def c_inner_product(ex, args, st, n):
    s, off, cnt, p = segment(ex, st, args[0], args[1])
    q = ex.rv(st, args[2])
    t = ex.read(st, q.lv, False)
    range_ok(ex, st, t, q.off, cnt, "second range")
    ex.note_range(st, q, cnt, "r")
    init = ex.rv(st, args[3])
    if len(args) > 4:
        raise Unsupported("inner_product with operations")
    a, b, o2 = s.data, t.data, q.off
    return init + SUMF(lambda k: sel(a, k + off) * sel(b, k + o2), 0, cnt)


def write_range(ex, st, out, cnt, valf, what="target range"):
    """out[0..cnt) = valf(k), returns out+cnt"""
    out = ex.rv(st, out)
    t = ex.read(st, out.lv, False)
    range_ok(ex, st, t, out.off, cnt, what)
    ex.note_range(st, out, cnt, "w")
    off = out.off
    k0 = ex.fconst(Int, "w")
    v = valf(k0)
    c = concrete(cnt)
    co = concrete(off)
    if c is not None and co is not None and c <= 64:
        data = t.data
        for i in range(c):
            data = setindex(data, zi(co + i), tmap(lambda l: z3.substitute(z(l), (k0, zi(i))), v))
    else:
        data = tzip(lambda old, w: lam(lambda q: ite(mkand(q >= off, q < off + cnt), z3.substitute(z(w), (k0, z3.simplify(q - off))), sel(old, q))), t.data, v)
    ex.write(st, out.lv, Seq(t.elt, t.size, data, t.kind), False)
    return Ptr(out.lv, z3.simplify(off + cnt))


def c_copy(ex, args, st, n):
    s, off, cnt, p = segment(ex, st, args[0], args[1])
    out = ex.rv(st, args[2])
    d = s.data
    t = ex.read(st, out.lv, False)
    if isinstance(d, z3.ExprRef) and isinstance(t.data, (z3.ExprRef, CArr)) and d.range() != arr_range(t.data):
        return write_range(ex, st, out, cnt, lambda k: ex.conv(st, sel(d, k + off), t.elt))
    return write_range(ex, st, out, cnt, lambda k: index(d, z3.simplify(k + off)))


def c_fill(ex, args, st, n):
    f, l = ex.rv(st, args[0]), ex.rv(st, args[1])
    cnt = ex.ptr_arith("-", l, f)
    v = ex.rv(st, args[2])
    t = ex.read(st, f.lv, False)
    if isinstance(v, z3.ExprRef):
        v = ex.conv(st, v, t.elt)
    write_range(ex, st, f, cnt, lambda k: v)


def c_fill_n(ex, args, st, n):
    f = ex.rv(st, args[0])
    v = ex.rv(st, args[2])
    t = ex.read(st, f.lv, False)
    if isinstance(v, z3.ExprRef):
        v = ex.conv(st, v, t.elt)
    return write_range(ex, st, f, ex.rv(st, args[1]), lambda k: v)


def apply_fn(ex, st, f, x):
    """value of f at an element, for a symbolic element (pure functions)"""
    ex.pure = getattr(ex, "pure", 0) + 1
    try:
        nt = len(ex.frames[-1].throws)
        s = st.fork()
        r = ex.call_value(f, [ex.temp(s, x)], s)
        r = ex.rv(s, r)
        if len(ex.frames[-1].throws) > nt:
            raise Unsupported("throwing function applied elementwise")
    finally:
        ex.pure -= 1
    return r


def c_transform(ex, args, st, n):
    s, off, cnt, p = segment(ex, st, args[0], args[1])
    if len(args) != 4:
        raise Unsupported("binary transform")
    d = s.data
    f = args[3]
    if isinstance(f, LV):
        f = ex.read(st, f)
    k = ex.fconst(Int, "tk")
    body = elementwise(ex, st, f, d, off, k, cnt)
    return write_range(ex, st, args[2], cnt, lambda q: tmap(lambda l: z3.substitute(z(l), (k, q)), body))


def elementwise(ex, st, f, d, off, k, cnt):
    s2 = st.fork()
    s2.pc += [k >= 0, k < cnt]
    nt = len(ex.frames[-1].throws)
    mark = len(ex.fresh_log)
    r = ex.call_value(f, [ex.temp(s2, index(d, z3.simplify(k + off)))], s2)
    r = ex.rv(s2, r)
    if len(ex.frames[-1].throws) > nt:
        raise Unsupported("throwing function applied elementwise")
    born = ex.fresh_log[mark:]
    names = {b.name() for b in born}
    if any(depends(l, names) for _, l in leaves(r)):
        raise Unsupported("elementwise function with internal state")
    return r


def c_for_each(ex, args, st, n):
    raise Unsupported("for_each")


def c_count(ex, args, st, n):
    s, off, cnt, p = segment(ex, st, args[0], args[1])
    v = ex.rv(st, args[2])
    d = s.data
    return ISUMF(lambda k: ite(sel(d, k + off) == v, zi(1), zi(0)), 0, cnt)


def c_count_if(ex, args, st, n):
    s, off, cnt, p = segment(ex, st, args[0], args[1])
    k = ex.fconst(Int, "ck")
    b = elementwise(ex, st, ex.rv(st, args[2]), s.data, off, k, cnt)
    return ISUMF(lambda q: ite(z3.substitute(ex.tobool(st, b), (k, q)), zi(1), zi(0)), 0, cnt)


def c_distance(ex, args, st, n):
    return ex.ptr_arith("-", ex.rv(st, args[1]), ex.rv(st, args[0]))


def c_begin(ex, args, st, n):
    return begin_of(ex, st, args[0])


def c_end(ex, args, st, n):
    return end_of(ex, st, args[0])


c_cbegin, c_cend = c_begin, c_end


def begin_of(ex, st, lv):
    if not isinstance(lv, LV):
        lv = ex.temp(st, lv)
    return Ptr(lv, zi(0))


def end_of(ex, st, lv):
    if not isinstance(lv, LV):
        lv = ex.temp(st, lv)
    s = ex.read(st, lv, False)
    return Ptr(lv, s.size)


def c_partial_sort(ex, args, st, n):
    """contract of std::partial_sort: a permutation of the range whose first
    (middle-first) entries are in order and precede all others"""
    first, mid, last = [ex.rv(st, a) for a in args[:3]]
    s = ex.read(st, first.lv, False)
    off = first.off
    m = ex.ptr_arith("-", mid, first)
    N = ex.ptr_arith("-", last, first)
    range_ok(ex, st, s, off, N, "sorted range")
    ex.note_range(st, first, N, "w")
    ex.oblige(st, z3.And(m >= 0, m <= N), "bounds", "middle iterator within the sorted range")
    h = ex.hooks.get("sorted")
    if h:
        return h(ex, st, first, off, m, N, args)
    perm = ex.ffun("perm", Int, Int)
    pinv = ex.ffun("pinv", Int, Int)
    d = s.data
    new = tmap(lambda old: lam(lambda q: ite(mkand(q >= off, q < off + N), sel(old, off + perm(q - off)), sel(old, q))), d)
    i, j = z3.Ints(fresh_name("i") + " " + fresh_name("j"))
    inr = lambda v: z3.And(v >= 0, v < N)
    facts = [z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(perm(i)), pinv(perm(i)) == i)), patterns=[perm(i)]),
             z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(pinv(i)), perm(pinv(i)) == i)), patterns=[pinv(i)])]
    cmp = comparator(ex, st, args[3]) if len(args) > 3 else (lambda a, b: a < b)
    a, b = ex.fconst(Int, "ca"), ex.fconst(Int, "cb")
    srcpc = st.fork()
    less = cmp(index(d, off + perm(b)), index(d, off + perm(a)))
    ex.sorted_info = dict(perm=perm, pinv=pinv, m=m, N=N, less=less, a=a, b=b)
    facts.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, i < m, j < N), mknot(z3.substitute(less, (a, i), (b, j))))))
    st.pc += facts
    ex.write(st, first.lv, Seq(s.elt, s.size, new, s.kind), False)


def c_sort(ex, args, st, n):
    a = [args[0], args[1], args[1]] + list(args[2:])
    return c_partial_sort(ex, a, st, n)


def c_current_exception(ex, args, st, n):
    v = ex.exc_stack[-1] if getattr(ex, "exc_stack", None) else None
    i = v.f.get("id") if isinstance(v, Rec) else None
    return Rec("std::exception_ptr", {"set": z3.BoolVal(True), "id": i if i is not None else ex.fconst(Int, "exception")})


def c_rethrow_exception(ex, args, st, n):
    v = ex.rv(st, args[0])
    h = ex.hooks.get("rethrow")
    if h and not ex.dry:
        h(ex, st, v)
    ex.throw(st, Rec("?", {"id": v.f["id"]}))


def c_make_heap(ex, args, st, n):
    h = ex.hooks.get("heap")
    if h:
        return h(ex, "make", args, st, n)
    raise Unsupported("make_heap")


def c_push_heap(ex, args, st, n):
    h = ex.hooks.get("heap")
    if h:
        return h(ex, "push", args, st, n)
    raise Unsupported("push_heap")


def c_pop_heap(ex, args, st, n):
    h = ex.hooks.get("heap")
    if h:
        return h(ex, "pop", args, st, n)
    raise Unsupported("pop_heap")


# ------------------------------------------------------------ methods
def method(ex, obj, lv, name, args, st, n):
    h = ex.hooks.get("method")
    if h:
        r = h(ex, obj, lv, name, args, st, n)
        if r is not NotImplemented:
            return r
    if isinstance(obj, Seq):
        return seq_method(ex, obj, lv, name, args, st, n)
    if isinstance(obj, Opaque):
        if name == "operator()" and obj.tag in ("less", "greater"):
            a, b = [ex.rv(st, x) for x in args]
            return a < b if obj.tag == "less" else a > b
        if name == "operator()" and obj.tag in ("plus", "multiplies", "minus"):
            a, b = [ex.rv(st, x) for x in args]
            return {"plus": a + b, "multiplies": a * b, "minus": a - b}[obj.tag]
        if isinstance(obj.tag, str) and norm_name(obj.tag).split("<")[0] in ("less", "greater") and name == "operator()":
            a, b = [ex.rv(st, x) for x in args]
            return a < b if norm_name(obj.tag).startswith("less") else a > b
        if obj.tag == "std::thread" or obj.tag == "thread":
            if name == "join":
                return None
            if name == "joinable":
                return z3.BoolVal(True)
    if isinstance(obj, Rec) and obj.cls == "std::exception_ptr":
        if name == "operator bool":
            return obj.f["set"]
    if isinstance(obj, Rec) and obj.cls in ex.EXC_BASES and name == "what":
        return Opaque("what")
    raise Unsupported("method %s of %s" % (name, getattr(obj, "cls", None) or getattr(obj, "tag", None) or type(obj).__name__))


def need_lv(lv):
    if lv is None:
        raise Unsupported("mutating method on a temporary")
    return lv


def seq_method(ex, s, lv, name, args, st, n):
    if name in ("size", "length"):
        return s.size
    if name == "empty":
        return s.size == 0
    if name in ("begin", "cbegin", "data"):
        return begin_of(ex, st, lv if lv is not None else s)
    if name in ("end", "cend"):
        return end_of(ex, st, lv if lv is not None else s)
    if name == "sum":
        ex.oblige(st, s.size > 0, "bounds", "sum of a non-empty array")
        if s.elt[0] == "real":
            return SUMF(lambda k: sel(s.data, k), 0, s.size)
        return ISUMF(lambda k: sel(s.data, k), 0, s.size)
    if name in ("max", "min"):
        ex.oblige(st, s.size > 0, "bounds", name + " of a non-empty array")
        d = z(s.data)
        f = {("max", True): VMAX, ("min", True): VMIN, ("max", False): IMAX, ("min", False): IMIN}[(name, s.elt[0] == "real")]
        return f(d, zi(0), s.size)
    if name == "apply":
        f = ex.rv(st, args[0])
        k = ex.fconst(Int, "ak")
        b = elementwise(ex, st, f, s.data, zi(0), k, s.size)
        return Seq(s.elt, s.size, tmap(lambda l: lam(lambda q: z3.substitute(z(l), (k, q))), b), "valarray")
    if name == "operator[]" or name == "at":
        i = ex.intidx(ex.rv(st, args[0]))
        if not isinstance(i, z3.ExprRef) or i.sort() != Int:
            raise Unsupported("slice or mask subscript")
        l = lv if lv is not None else ex.temp(st, s)
        return l.idx(z3.simplify(i))
    if name == "resize":
        v = [ex.rv(st, a) for a in args]
        need_lv(lv)
        sz = ex.conv(st, v[0], ("int", 64, False))
        val = v[1] if len(v) > 1 else elt_zero(ex, s.elt)
        if isinstance(val, z3.ExprRef):
            val = ex.conv(st, val, s.elt)
        if s.kind == "valarray":
            new = const_seq(ex, s.elt, sz, val, s.kind)
        else:
            old = s.size
            new = Seq(s.elt, sz, tzip(lambda o, w: lam(lambda q: ite(q < old, sel(o, q), z(w))), s.data, val), s.kind)
        ex.write(st, lv, new)
        return None
    if name in ("push_back", "emplace_back"):
        need_lv(lv)
        if name == "emplace_back" and not (len(args) == 1 and s.elt[0] in ("real", "int", "bool", "ptr", "str")):
            v = emplace(ex, s.elt, args, st, n)
        else:
            v = ex.rv(st, args[0])
        if isinstance(v, z3.ExprRef) and s.elt[0] in ("real", "int", "bool"):
            v = ex.conv(st, v, s.elt)
        if isinstance(v, (Opaque,)) or (isinstance(v, Rec) and isinstance(s.data, Opaque)):
            new = Seq(s.elt, z3.simplify(s.size + 1), s.data, s.kind)
        else:
            v = lift_ptrs(ex, st, s, v)
            new = Seq(s.elt, z3.simplify(s.size + 1), setindex(s.data, s.size, v), s.kind)
        ex.write(st, lv, new)
        return None
    if name == "pop_back":
        ex.oblige(st, s.size > 0, "bounds", "pop_back on a non-empty vector")
        ex.write(st, need_lv(lv), Seq(s.elt, z3.simplify(s.size - 1), s.data, s.kind))
        return None
    if name == "clear":
        ex.write(st, need_lv(lv), Seq(s.elt, zi(0), s.data, s.kind))
        return None
    if name == "back":
        l = lv if lv is not None else ex.temp(st, s)
        return l.idx(z3.simplify(s.size - 1))
    if name == "front":
        l = lv if lv is not None else ex.temp(st, s)
        return l.idx(zi(0))
    if name in ("reserve", "shrink_to_fit"):
        return None
    if name == "capacity":
        return s.size
    if name == "operator=":
        return assign_seq(ex, lv, s, args[0], st)
    if name in ("operator+=", "operator-=", "operator*=", "operator/="):
        v = elementwise_op(ex, name[8], s, ex.rv(st, args[0]), st)
        ex.write(st, need_lv(lv), v)
        return lv
    if name in ("operator-", "operator+", "operator!"):
        return unary(ex, name[8:], s, st)
    if name == "swap":
        o = args[0]
        t = ex.read(st, o)
        ex.write(st, o, s)
        ex.write(st, need_lv(lv), t)
        return None
    if name == "assign":
        v = [ex.rv(st, a) for a in args]
        if isinstance(v[0], Ptr):
            new = from_ptr(ex, st, s.elt, v[0], ex.ptr_arith("-", v[1], v[0]), s.kind)
        else:
            new = const_seq(ex, s.elt, v[0], v[1], s.kind)
        ex.write(st, need_lv(lv), new)
        return None
    if name == "insert" and len(args) == 3:
        pos, f, l = [ex.rv(st, a) for a in args]
        if isinstance(f, Ptr):
            cnt = ex.ptr_arith("-", l, f)
            src = ex.read(st, f.lv, False)
            range_ok(ex, st, src, f.off, cnt, "inserted range")
            at = pos.off
            o2 = f.off
            new = tzip(lambda a, b: lam(lambda q: ite(q < at, sel(a, q), ite(q < at + cnt, sel(b, q - at + o2), sel(a, q - cnt)))), s.data, src.data)
            ex.write(st, need_lv(lv), Seq(s.elt, z3.simplify(s.size + cnt), new, s.kind))
            return Ptr(lv, at)
    raise Unsupported("sequence method " + name)


def lift_ptrs(ex, st, s, v):
    return v


def emplace(ex, elt, args, st, n):
    if elt[0] == "rec":
        r = ex.record(elt[1])
        if r is not None:
            cs = [c for c in r["inner"] if c.get("kind") == "CXXConstructorDecl" and len(ex.u.params(c)) == len(args) and not c.get("isImplicit")]
            if len(cs) == 1 and ex.u.defs.get(cs[0]["id"]):
                fn = ex.u.defs[cs[0]["id"]]
                this = ex.temp(st, ex.blank(elt, r), "obj")
                ex.calls.add(ex.u.qname(fn))
                c = ex.contracts.get(ex.u.qname(fn))
                if c:
                    return c(ex, st, fn, args, None)
                ex.invoke(fn, args, this, st)
                return ex.read(st, this, False)
    return construct_v(ex, elt, args, [None] * len(args), st, n)


def assign_seq(ex, lv, s, a, st):
    v = ex.rv(st, a)
    need_lv(lv)
    if isinstance(v, Seq):
        ex.write(st, lv, Seq(s.elt, v.size, v.data, s.kind))
    elif isinstance(v, z3.ExprRef):
        v = ex.conv(st, v, s.elt)
        ex.write(st, lv, Seq(s.elt, s.size, lam(lambda k: v), s.kind))
    else:
        raise Unsupported("assignment to a sequence")
    return lv


def unary(ex, op, s, st):
    f = {"-": lambda x: -x, "+": lambda x: x, "!": lambda x: mknot(x)}[op]
    return Seq(s.elt, s.size, tmap(lambda l: lam(lambda k: f(sel(l, k))), s.data), "valarray")


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}
CMPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
        "==": lambda a, b: a == b, "!=": lambda a, b: mknot(a == b)}


def elementwise_op(ex, op, a, b, st):
    if isinstance(a, Seq) and isinstance(b, Seq):
        ex.oblige(st, a.size == b.size, "bounds", "valarray operands have the same size")
        size = a.size
    else:
        size = (a if isinstance(a, Seq) else b).size
    elt = a.elt if isinstance(a, Seq) else b.elt
    ia = (lambda k: sel(a.data, k)) if isinstance(a, Seq) else (lambda k: ex.conv(st, a, elt))
    ib = (lambda k: sel(b.data, k)) if isinstance(b, Seq) else (lambda k: ex.conv(st, b, elt))
    if elt[0] != "real":
        if op in CMPS or op in ("&&", "||"):
            pass
        else:
            raise Unsupported("elementwise integer arithmetic")
    if op in OPS:
        return Seq(elt, size, lam(lambda k: OPS[op](ia(k), ib(k))), "valarray")
    if op in CMPS:
        return Seq(("bool",), size, lam(lambda k: CMPS[op](ia(k), ib(k))), "valarray")
    if op == "&&":
        return Seq(("bool",), size, lam(lambda k: mkand(ia(k), ib(k))), "valarray")
    if op == "||":
        return Seq(("bool",), size, lam(lambda k: mkor(ia(k), ib(k))), "valarray")
    raise Unsupported("elementwise " + op)


def operator(ex, op, args, st, n):
    h = ex.hooks.get("operator")
    if h:
        r = h(ex, op, args, st, n)
        if r is not NotImplemented:
            return r
    o = op[len("operator"):]
    if o == "=" and isinstance(args[0], LV):
        cur = ex.read(st, args[0], False)
        if isinstance(cur, Seq):
            return assign_seq(ex, args[0], cur, args[1], st)
        v = ex.rv(st, args[1])
        if v is NULL and isinstance(cur, Rec) and cur.cls == "std::exception_ptr":
            v = Rec("std::exception_ptr", {"set": z3.BoolVal(False), "id": z3.IntVal(0)})
        ex.write(st, args[0], v)
        return args[0]
    if o == "[]":
        logs, ex.rlog = ex.rlog, []     # taking an element does not read the others
    vals = [ex.rv(st, a) for a in args]
    if o == "[]":
        ex.rlog = logs
        for a in args[1:]:
            ex.rv(st, a)
    if isinstance(vals[0], Seq) or (len(vals) > 1 and isinstance(vals[1], Seq) and o in OPS):
        if isinstance(vals[0], Seq) and o in ("[]", "+=", "-=", "*=", "/="):
            return seq_method(ex, vals[0], args[0] if isinstance(args[0], LV) else None, op, args[1:], st, n)
        if len(vals) == 1:
            return unary(ex, o, vals[0], st)
        return elementwise_op(ex, o, vals[0], vals[1], st)
    if isinstance(vals[0], Ptr):
        p = vals[0]
        if o in ("++", "--"):
            new = Ptr(p.lv, z3.simplify(p.off + (1 if o == "++" else -1)))
            ex.write(st, args[0], new)
            return args[0] if len(args) == 1 else p
        if o == "*" and len(args) == 1:
            return ex.lv_of_ptr(p, zi(0))
        if o == "->":
            return Ptr(ex.lv_of_ptr(p, zi(0))) if p.off is not None else p
        if o == "[]":
            return ex.lv_of_ptr(p, vals[1])
        if o in ("+", "-"):
            return ex.ptr_arith(o, p, vals[1])
        if o in ("+=", "-="):
            ex.write(st, args[0], ex.ptr_arith(o[0], p, vals[1]))
            return args[0]
        if o in CMPS:
            return ex.compare(o, p, vals[1], st)
    if isinstance(vals[0], Rec) and vals[0].cls == "std::exception_ptr" and o in ("==", "!="):
        r = vals[0].f["set"]
        if vals[1] is NULL:
            return r if o == "!=" else mknot(r)
    if isinstance(vals[0], z3.ExprRef) and vals[0].sort() == ex.str_sort and o in ("==", "!=") and isinstance(vals[1], z3.ExprRef):
        e = vals[0] == vals[1]
        return e if o == "==" else mknot(e)
    if o == "()":
        return ex.call_value(vals[0] if not isinstance(vals[0], (Rec, Opaque)) else vals[0], list(args[1:]), st, n)
    if o == "+" and any(isinstance(v, z3.ExprRef) and v.sort() == ex.str_sort for v in vals):
        return ex.fconst(ex.str_sort, "str")
    raise Unsupported("operator %s on %s" % (o, [type(v).__name__ for v in vals]))
