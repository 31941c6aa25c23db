"""Term layer: smart array access, first-class finite sums, opaque functions of
array segments, and an equational normaliser for sums of piecewise polynomials."""
import z3
from fractions import Fraction

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_cnt = [0]


def fresh_name(p="t"):
    _cnt[0] += 1
    return "%s!%d" % (p, _cnt[0])


def is_lambda(a):
    return z3.is_quantifier(a) and a.is_lambda()


def concrete(e):
    """python int of a concrete integer / bit-vector term, or None"""
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def boolval(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


class CArr:
    """A one-dimensional array with an overlay of concretely indexed entries."""
    __slots__ = ("base", "ov", "rng")

    def __init__(self, base, ov):
        self.base, self.ov = base, ov
        self.rng = arr_range(base)

    def sort(self):
        return self.base.sort()

    def range(self):
        return self.rng

    def to_z3(self):
        a = self.base
        for i in sorted(self.ov):
            a = z3.Store(a, z3.IntVal(i), self.ov[i])
        return a


def z(a):
    return a.to_z3() if isinstance(a, CArr) else a


def arr_range(a):
    return a.sort().range() if isinstance(a, z3.QuantifierRef) else a.range()


def lam(body_fn, name="k"):
    k = z3.Int(fresh_name(name))
    return z3.Lambda([k], body_fn(k))


def idx_diff(i, j):
    d = z3.simplify(i - j)
    return concrete(d)


def sel(a, i):
    if isinstance(i, int):
        i = z3.IntVal(i)
    if isinstance(a, CArr):
        c = concrete(i)
        if c is not None:
            v = a.ov.get(c)
            return v if v is not None else sel(a.base, i)
        a = a.to_z3()
    if is_lambda(a):
        return z3.substitute_vars(a.body(), i)
    if z3.is_app(a):
        k = a.decl().kind()
        if k == z3.Z3_OP_STORE:
            b, j, v = a.children()
            if j.eq(i):
                return v
            d = idx_diff(i, j)
            if d is not None:
                return v if d == 0 else sel(b, i)
            return ite(i == j, v, sel(b, i))
        if k == z3.Z3_OP_ITE:
            c, p, q = a.children()
            return ite(c, sel(p, i), sel(q, i))
        if k == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
    return z3.Select(a, i)


def store(a, i, v):
    if isinstance(i, int):
        i = z3.IntVal(i)
    c = concrete(i)
    if c is not None and not isinstance(v, CArr) and not isinstance(arr_range(a), z3.ArraySortRef):
        if isinstance(a, CArr):
            ov = dict(a.ov)
            ov[c] = v
            return CArr(a.base, ov)
        return CArr(a, {c: v})
    a = z(a)
    v = z(v)
    return z3.Store(a, i, v)


def ite(c, a, b):
    if a is b:
        return a
    bv = boolval(c)
    if bv is True:
        return a
    if bv is False:
        return b
    if isinstance(a, CArr) or isinstance(b, CArr):
        if isinstance(a, CArr) and isinstance(b, CArr) and a.base.eq(b.base):
            ov = {}
            for i in set(a.ov) | set(b.ov):
                ov[i] = ite(c, sel(a, i), sel(b, i))
            return CArr(a.base, ov)
        if isinstance(a, CArr) and not isinstance(b, CArr) and a.base.eq(b):
            return CArr(b, {i: ite(c, v, sel(b, i)) for i, v in a.ov.items()})
        if isinstance(b, CArr) and not isinstance(a, CArr) and b.base.eq(a):
            return CArr(a, {i: ite(c, sel(a, i), v) for i, v in b.ov.items()})
        a, b = z(a), z(b)
    if a.eq(b):
        return a
    if a.sort() == Bool:
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return mknot(c)
    if isinstance(a.sort(), z3.ArraySortRef):
        # merge store chains over a common base
        sa, ba = chain(a)
        sb, bb = chain(b)
        if ba.eq(bb):
            r = ba
            seen = []
            for i in sa + sb:
                if not any(i.eq(j) for j in seen):
                    seen.append(i)
                    r = z3.Store(r, i, ite(c, sel(a, i), sel(b, i)))
            return r
    return z3.If(c, a, b)


def chain(a):
    idx = []
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        idx.append(a.arg(1))
        a = a.arg(0)
    return list(reversed(idx)), a


def mknot(c):
    b = boolval(c)
    if b is not None:
        return z3.BoolVal(not b)
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def mkand(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            return c
        out.append(c)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)


def mkor(*cs):
    return mknot(mkand(*[mknot(c if not isinstance(c, bool) else z3.BoolVal(c)) for c in cs]))


# ---------------------------------------------------------------- functions
ArrR = z3.ArraySort(Int, Real)
ArrI = z3.ArraySort(Int, Int)
SUM = z3.Function("SUM", ArrR, Int, Int, Real)
ISUM = z3.Function("ISUM", ArrI, Int, Int, Int)


def SUMF(f, lo, hi):
    lo = z3.IntVal(lo) if isinstance(lo, int) else lo
    hi = z3.IntVal(hi) if isinstance(hi, int) else hi
    return SUM(lam(f), lo, hi)


def ISUMF(f, lo, hi):
    lo = z3.IntVal(lo) if isinstance(lo, int) else lo
    hi = z3.IntVal(hi) if isinstance(hi, int) else hi
    return ISUM(lam(f), lo, hi)


def rfun(name, n=1):
    return z3.Function(name, *([Real] * (n + 1)))


MATH = {}
for _n in ("sqrt", "exp", "log", "erf", "cosh", "sin", "cos", "ceil_r", "floor_r", "tanh", "log10"):
    MATH[_n] = rfun(_n)
POW = rfun("pow", 2)

# opaque functions of array segments: name -> (decl, [ (array arg, lo, hi-arg) ])
EXT = {}


def ext_function(name, sorts, res, segs):
    """segs: list of (position of array argument, lo, position of the length argument)"""
    d = z3.Function(name, *sorts, res)
    EXT[name] = (d, segs)
    return d


# ---------------------------------------------------------------- traversal
def walk(e, seen=None, out=None, into_q=True):
    """all subterms (post order, unique); bound bodies included"""
    if out is None:
        out, seen = [], set()
    stack = [(e, False)]
    while stack:
        t, done = stack.pop()
        i = t.get_id()
        if done:
            out.append(t)
            continue
        if i in seen:
            continue
        seen.add(i)
        stack.append((t, True))
        if z3.is_quantifier(t):
            if into_q:
                stack.append((t.body(), False))
        else:
            for c in t.children():
                stack.append((c, False))
    return out


_hv = {}


def has_var(e):
    """contains a de Bruijn variable (conservative: any, free or not below binder)"""
    k = e.get_id()
    r = _hv.get(k)
    if r is not None and r[1].eq(e):
        return r[0]
    res = _free_var(e, 0)
    _hv[k] = (res, e)
    return res


def _free_var(e, depth, memo=None):
    memo = {} if memo is None else memo
    key = (e.get_id(), depth)
    if key in memo:
        return memo[key]
    if z3.is_var(e):
        r = z3.get_var_index(e) >= depth
    elif z3.is_quantifier(e):
        r = _free_var(e.body(), depth + e.num_vars(), memo)
    else:
        r = any(_free_var(c, depth, memo) for c in e.children())
    memo[key] = r
    return r


def consts_of(e):
    return {t.decl().name(): t for t in walk(e) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED}


def cached(fn):
    """memoised per formula (the formula is kept alive with its result)"""
    memo = {}

    def g(e):
        r = memo.get(e.get_id())
        if r is not None and r[0].eq(e):
            return r[1]
        v = fn(e)
        if len(memo) > 20000:
            memo.clear()
        memo[e.get_id()] = (e, v)
        return v
    return g


@cached
def symbols_of(e):
    out = set()
    for t in walk(e):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
    return out


def depends(e, names):
    e = z(e)
    for t in walk(e):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names:
            return True
    return False


# ------------------------------------------------- equational normalisation
class Norm:
    """Normal form of Real/Int terms: polynomials over atoms with rational
    coefficients.  Piecewise terms become polynomials in 0/1 indicator atoms,
    finite sums are split over monomials and loop-invariant factors pulled out.
    All rules are identities of ordered fields (with inv(0) fixed arbitrarily
    but consistently) and of finite sums."""

    def __init__(self, facts=()):
        self.atoms = {}        # key -> atom number
        self.names = []        # atom number -> key
        self.ind = set()       # atoms that are 0/1 indicators
        self.ment = {}
        self.memo = {}
        self.level = 0
        self.keep = []
        self.truth = {}
        for f in facts:
            if boolval(f) is None:
                try:
                    self.truth[self.cond_key(f)] = True
                except (RecursionError, OverflowError):
                    pass

    # polynomial: dict monomial(tuple of (atomkey,exp) sorted) -> Fraction
    @staticmethod
    def add(p, q, c=1):
        r = dict(p)
        for m, v in q.items():
            w = r.get(m, 0) + c * v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        return r

    def mulm(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            if a in self.ind:
                d[a] = 1
            else:
                s = d.get(a, 0) + e
                if s:
                    d[a] = s
                else:
                    d.pop(a, None)
        return tuple(sorted(d.items()))

    def mul(self, p, q):
        if len(p) * len(q) > 4000:
            raise OverflowError("normaliser: too many terms")
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mulm(m1, m2)
                w = r.get(m, 0) + c1 * c2
                if w:
                    r[m] = w
                else:
                    r.pop(m, None)
        return r

    def intern(self, key):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.names)
            self.atoms[key] = i
            self.names.append(key)
            if key[0] == "I":
                self.ind.add(i)
        return i

    def atom(self, key):
        return {((self.intern(key), 1),): Fraction(1)}

    def const(self, c):
        c = Fraction(c)
        return {(): c} if c else {}

    def freeze(self, p):
        return tuple(sorted(p.items()))

    def indicator(self, c):
        """polynomial 0/1 of a Boolean term"""
        b = boolval(c)
        if b is not None:
            return self.const(1 if b else 0)
        if z3.is_not(c):
            return self.add(self.const(1), self.indicator(c.arg(0)), -1)
        if z3.is_and(c):
            r = self.const(1)
            for x in c.children():
                r = self.mul(r, self.indicator(x))
            return r
        if z3.is_or(c):
            r = self.const(1)
            for x in c.children():
                r = self.mul(r, self.add(self.const(1), self.indicator(x), -1))
            return self.add(self.const(1), r, -1)
        if z3.is_implies(c):
            return self.indicator(z3.Or(z3.Not(c.arg(0)), c.arg(1)))
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
            i = self.indicator(c.arg(0))
            a, b2 = self.indicator(c.arg(1)), self.indicator(c.arg(2))
            return self.add(b2, self.mul(i, self.add(a, b2, -1)))
        neg, key = self.rel(c)
        t = self.truth.get(key)
        if t is not None:
            v = t != neg
            return self.const(1 if v else 0)
        p = self.atom(("I", key))
        return self.add(self.const(1), p, -1) if neg else p

    def cond_key(self, c):
        neg, key = self.rel(c)
        if neg:
            return ("never", key)
        return key

    def rel(self, c):
        """(negated?, key) of an atomic Boolean term"""
        if z3.is_app(c):
            k = c.decl().kind()
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = c.children()
                isint = a.sort() == Int
                # canonical: d < 0 (real) ; d <= 0 (int)
                if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                    a, b = b, a
                    k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
                d = self.add(self.n(a), self.n(b), -1)
                if isint:
                    if k == z3.Z3_OP_LT:
                        d = self.add(d, self.const(1))
                    # d <= 0 ; canonical sign: leading coeff positive, else  not(-d+1 <= 0)... -d >= 0 -> not (d' <= -1)
                    f = self.freeze(d)
                    nonc = [x for x in f if x[0] != ()]
                    if nonc and nonc[0][1] < 0:
                        # d<=0  <=>  -d>=0 <=> not(-d <= -1) <=> not(-d+1 <= 0)
                        d2 = self.add(self.const(1), d, -1)
                        return True, ("ile", self.freeze(d2))
                    if not nonc:
                        v = d.get((), 0) <= 0
                        return (not v), ("true",)
                    return False, ("ile", f)
                # reals: a<b : d<0 ; a<=b : not (b<a): not(-d<0)
                if k == z3.Z3_OP_LE:
                    return True, ("rlt", self.scale(self.add({}, d, -1)))
                return False, ("rlt", self.scale(d))
            if k == z3.Z3_OP_EQ:
                a, b = c.children()
                if a.sort() in (Int, Real):
                    d = self.add(self.n(a), self.n(b), -1)
                    return False, ("eq0", self.scale(d, True))
                if a.sort() == Bool:
                    x, y = self.freeze(self.indicator(a)), self.freeze(self.indicator(b))
                    return False, ("iff",) + tuple(sorted((x, y), key=repr))
        return False, ("b",) + self.generic(c)

    def scale(self, d, sign=False):
        f = self.freeze(d)
        if not f:
            return f
        lead = f[0][1]
        s = lead if sign else abs(lead)
        return tuple((m, v / s) for m, v in f)

    def generic(self, e):
        if z3.is_quantifier(e):
            # alpha-normal by de Bruijn: normalise body with level constants
            vs = []
            for i in range(e.num_vars()):
                vs.append(z3.Const("lv!%d!%s" % (self.level + i, e.var_sort(i).name()), e.var_sort(i)))
            body = z3.substitute_vars(e.body(), *reversed(vs))
            self.level += e.num_vars()
            try:
                k = "L" if e.is_lambda() else ("A" if e.is_forall() else "E")
                return (k, e.num_vars(), self.key(body))
            finally:
                self.level -= e.num_vars()
        if z3.is_const(e):
            return ("c", e.decl().name() if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else e.sexpr())
        nm = e.decl().name()
        if e.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            nm = "op" + str(e.decl().kind()) + ":" + nm
            ps = e.params()
            if ps:
                nm += str(ps)
        return ("f", nm) + tuple(self.key(c) for c in e.children())

    def key(self, e):
        if e.sort() in (Int, Real):
            return ("p", self.freeze(self.n(e)))
        if e.sort() == Bool:
            return ("q", self.freeze(self.indicator(e)))
        return self.generic(e)

    def n(self, e):
        k = (e.get_id(), self.level)
        r = self.memo.get(k)
        if r is None:
            r = self._n(e)
            self.memo[k] = r
            self.keep.append(e)
        return r

    def _n(self, e):
        if z3.is_int_value(e):
            return self.const(e.as_long())
        if z3.is_rational_value(e):
            return self.const(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if not z3.is_app(e):
            return self.atom(self.generic(e))
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.n(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.n(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.n(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.add({}, self.n(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for c in ch:
                r = self.mul(r, self.n(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.n(ch[0]), self.inv(self.n(ch[1])))
        if k == z3.Z3_OP_POWER:
            x = concrete(z3.simplify(ch[1])) if ch[1].sort() == Int else None
            if x is None and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
                x = ch[1].numerator_as_long()
            if x is not None and 0 <= x <= 6:
                r = self.const(1)
                for _ in range(x):
                    r = self.mul(r, self.n(ch[0]))
                return r
        if k == z3.Z3_OP_TO_REAL:
            return self.n(ch[0])
        if k == z3.Z3_OP_ITE:
            a, b = self.n(ch[1]), self.n(ch[2])
            d = self.add(a, b, -1)
            r = self.maxmin(ch[0], b, d) if e.sort() == Int and d else None
            if r is not None:
                return r
            return self.add(b, self.mul(self.indicator(ch[0]), d))
        if k == z3.Z3_OP_SELECT:
            s = sel(ch[0], ch[1])
            if not s.eq(e):
                return self.n(s)
        if k == z3.Z3_OP_UNINTERPRETED and e.decl().name() in ("SUM", "ISUM"):
            return self.sum(e)
        return self.atom(self.generic(e))

    def maxmin(self, c, b, d):
        """b + max(d, 0) or b + min(d, 0) if the condition compares the branches of an integer conditional"""
        neg = False
        while z3.is_not(c):
            neg, c = not neg, c.arg(0)
        if not z3.is_app(c) or c.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or c.arg(0).sort() != Int:
            return None
        n2, key = self.rel(c)
        if key[0] != "ile" or key in self.truth:
            return None
        e = dict(key[1])
        p = self.add(e, self.const(1), -1) if neg != n2 else self.add({}, e, -1)
        one, m = self.const(1), self.add({}, d, -1)
        if p == d or p == self.add(d, one, -1):
            return self.add(b, self.relu(d))
        if p == m or p == self.add(m, one, -1):
            return self.add(b, self.relu(m), -1)
        return None

    def relu(self, d):
        """max(d, 0)"""
        nonc = [x for x in self.freeze(d) if x[0] != ()]
        if not nonc:
            return self.const(max(0, d.get((), 0)))
        if nonc[0][1] < 0:
            m = self.add({}, d, -1)
            return self.add(self.atom(("relu", self.freeze(m))), m, -1)
        return self.atom(("relu", self.freeze(d)))

    def inv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -x) if a not in self.ind else (a, x) for a, x in m): 1 / c}
        if not p:
            return self.atom(("inv0",))
        f = self.freeze(p)
        lead = f[0][1]
        g = tuple((m, v / lead) for m, v in f)
        return {((self.intern(("poly", g)), -1),): Fraction(1) / lead}

    def sum(self, e):
        arr, lo, hi = e.children()
        L = self.n(lo)
        v = z3.Int("lv!%d!Int" % self.level)
        at = v + lo if L else v
        body = sel(arr, at)
        cnt = self.add(self.n(hi), L, -1)
        self.level += 1
        try:
            p = self.n(body)
            vk = ("c", v.decl().name())
            out = {}
            for m, c in p.items():
                dep = tuple((a, x) for a, x in m if self.mentions(a, vk))
                ind = tuple((a, x) for a, x in m if not self.mentions(a, vk))
                if not dep:
                    # sum of a constant: count * c, with count = max(0,n)
                    a = self.atom(("cnt", self.freeze(cnt)))
                    if len(cnt) <= 1 and all(mm == () for mm in cnt):
                        a = self.const(max(0, cnt.get((), 0)))
                else:
                    a = self.atom(("sum", dep, self.freeze(cnt)))
                out = self.add(out, self.mul({ind: c}, a))
        finally:
            self.level -= 1
        if all(mm == () for mm in cnt) and cnt.get((), 0) <= 0:
            return {}
        return out

    def eq(self, a, b):
        if a.sort() == Bool:
            return self.freeze(self.indicator(a)) == self.freeze(self.indicator(b))
        if a.sort() in (Int, Real):
            return not self.add(self.n(a), self.n(b), -1)
        return self.key(a) == self.key(b)

    def mentions(self, a, vk):
        """does atom number a contain the variable key vk"""
        k = (a, vk)
        r = self.ment.get(k)
        if r is None:
            r = self.ment[k] = self._ment(self.names[a], vk)
        return r

    def _ment(self, key, vk):
        if key == vk:
            return True
        if isinstance(key, tuple):
            if len(key) == 2 and key[0] == "p":
                return self._mpoly(key[1], vk)
            if len(key) == 2 and key[0] == "q":
                return self._mpoly(key[1], vk)
            h = key[0] if key else None
            if h in ("ile", "rlt", "eq0", "poly", "cnt", "relu"):
                return self._mpoly(key[1], vk)
            if h == "sum":
                return any(self.mentions(a, vk) for a, x in key[1]) or self._mpoly(key[2], vk)
            if h == "iff":
                return any(self._mpoly(x, vk) for x in key[1:])
            return any(self._ment(x, vk) for x in key)
        return False

    def _mpoly(self, f, vk):
        return any(self.mentions(a, vk) for m, v in f for a, x in m)


def product_lemmas(fs, limit=12):
    """monotonicity of integer products that share a factor"""
    prods = {}
    seen = set()
    for f in fs:
        for t in walk(f):
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.sort() == Int and t.decl().kind() == z3.Z3_OP_MUL and not has_var(t):
                cs = [c for c in t.children() if not z3.is_int_value(c)]
                if len(cs) == 2:
                    prods[tuple(sorted((cs[0].get_id(), cs[1].get_id())))] = cs
    ps = list(prods.values())[:limit]
    out = []
    for x, y in ps:
        out.append(z3.Implies(z3.And(x >= 0, y >= 0), x * y >= 0))
        out.append(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(x * y >= x, x * y >= y)))
    for a in range(len(ps)):
        for b in range(a):
            for x, y in (ps[a], ps[a][::-1]):
                for u, w in (ps[b], ps[b][::-1]):
                    if x.eq(u):
                        out.append(z3.Implies(z3.And(x >= 0, y <= w), x * y <= x * w))
                        out.append(z3.Implies(z3.And(x >= 0, w <= y), x * w <= x * y))
                        out.append(z3.Implies(z3.And(x >= 0, y + 1 <= w), x * y + x <= x * w))
                        out.append(z3.Implies(z3.And(x >= 0, w + 1 <= y), x * w + x <= x * y))
    return out
