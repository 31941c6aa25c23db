"""Discharging proof obligations: equational normaliser, z3, cvc5."""
import z3, time, os, subprocess, tempfile
from terms import *
import exec as X
import lib

CVC5 = "/usr/bin/cvc5"
BACKENDS = ("norm", "z3", "z3-inst", "cvc5")


class Result:
    def __init__(self, ok, backend, detail="", secs=0.0):
        self.ok, self.backend, self.detail, self.secs = ok, backend, detail, secs


def flatten(fs):
    out = []
    st = list(reversed(fs))
    while st:
        f = st.pop()
        if z3.is_and(f):
            st += list(reversed(f.children()))
        elif z3.is_not(f) and z3.is_or(f.arg(0)):
            st += [mknot(c) for c in reversed(f.arg(0).children())]
        elif z3.is_not(f) and z3.is_not(f.arg(0)):
            st.append(f.arg(0).arg(0))
        elif not z3.is_true(f):
            out.append(f)
    return out


def split_goal(hyps, g):
    """list of (hyps, atomic goal), quantifiers skolemised"""
    if z3.is_and(g):
        r = []
        for c in g.children():
            r += split_goal(hyps, c)
        return r
    if z3.is_implies(g):
        return split_goal(hyps + flatten([g.arg(0)]), g.arg(1))
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.Const(fresh_name("sk." + g.var_name(i)), g.var_sort(i)) for i in range(g.num_vars())]
        return split_goal(hyps, z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_or(g):
        # one disjunct at a time is proved, the others are assumed false
        cs = g.children()
        q = [c for c in cs if z3.is_quantifier(c)] or [c for c in cs if z3.is_and(c)]
        if q:
            rest = [mknot(c) for c in cs if not c.eq(q[0])]
            return split_goal(hyps + flatten(rest), q[0])
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        return split_goal(hyps, z3.And(*[mknot(c) for c in g.arg(0).children()]))
    if z3.is_not(g) and z3.is_not(g.arg(0)):
        return split_goal(hyps, g.arg(0).arg(0))
    if z3.is_eq(g) and isinstance(g.arg(0).sort(), z3.ArraySortRef) and g.arg(0).sort().domain() == Int:
        q = z3.Int(fresh_name("sk"))
        return split_goal(hyps, sel(g.arg(0), q) == sel(g.arg(1), q))
    if z3.is_eq(g) and g.arg(0).sort() == Bool:
        a, b = g.children()
        if z3.is_true(b) or z3.is_true(a) or z3.is_false(a) or z3.is_false(b):
            return [(hyps, z3.simplify(g))]
        return split_goal(hyps + [a], b) + split_goal(hyps + [b], a)
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE:
        return split_goal(hyps + [g.arg(0)], g.arg(1)) + split_goal(hyps + [mknot(g.arg(0))], g.arg(2))
    return [(hyps, g)]


def ground(t):
    return not has_var(t)


@cached
def ground_apps(f):
    """ground applications of uninterpreted functions and constants in f"""
    return [t for t in walk(f) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and ground(t)]


def terms_of(fs, pred):
    """ground uninterpreted applications in the formulas fs that satisfy the predicate"""
    seen, out = set(), []
    for f in fs:
        for t in ground_apps(f):
            i = t.get_id()
            if i not in seen:
                seen.add(i)
                if pred(t):
                    out.append(t)
    return out


def is_sum(t):
    return t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ("SUM", "ISUM")


EXTREMA = {"VMAX": 1, "IMAX": 1, "VMIN": -1, "IMIN": -1}


class Prover:
    def __init__(self, facts=(), timeout=10000, log=None, pair_limit=60):
        self.facts = list(facts)
        self.timeout = timeout
        self.secs = {}
        self.count = {}
        self.pair_limit = pair_limit
        self.log = log
        self.extra_axioms = []       # functions (list of formulas) -> list of formulas

    # ------------------------------------------------------------ axioms
    def axioms(self, fs, depth=2):
        out = []
        done_sum = {}
        done_pair = set()
        done = set()
        work = list(fs)
        for d in range(depth):
            new = []
            sums = terms_of(work, is_sum)
            for t in sums:
                if t.get_id() in done_sum:
                    continue
                done_sum[t.get_id()] = t
                a, lo, hi = t.children()
                zero = z3.RealVal(0) if t.sort() == Real else z3.IntVal(0)
                new.append(z3.Implies(hi <= lo, t == zero))
                n = concrete(z3.simplify(hi - lo))
                if n is not None and 0 < n <= 24:
                    s = sel(a, lo)
                    for i in range(1, n):
                        s = s + sel(a, z3.simplify(lo + i))
                    new.append(t == s)
                else:
                    w = z3.Int(fresh_name("w"))
                    new.append(z3.Or(t >= zero, z3.And(w >= lo, w < hi, sel(a, w) < zero)))
                    w2 = z3.Int(fresh_name("w"))
                    new.append(z3.Or(t > zero, hi <= lo, z3.And(w2 >= lo, w2 < hi, sel(a, w2) <= zero)))
                    if t.sort() == Int:
                        w = z3.Int(fresh_name("w"))
                        new.append(z3.Or(t <= hi - lo, hi <= lo, z3.And(w >= lo, w < hi, sel(a, w) > 1)))
            ts = list(done_sum.values())
            npair = 0
            for i in range(len(ts)):
                for j in range(i):
                    if (ts[i].get_id(), ts[j].get_id()) in done_pair:
                        continue
                    if ts[i].sort() != ts[j].sort():
                        continue
                    npair += 1
                    if npair > self.pair_limit:
                        break
                    done_pair.add((ts[i].get_id(), ts[j].get_id()))
                    new += self.pair(ts[i], ts[j])
            for t in terms_of(work, lambda t: True):
                if t.get_id() in done:
                    continue
                done.add(t.get_id())
                new += self.unary_axioms(t)
            exts = terms_of(work + fs, lambda t: t.decl().name() in EXT)
            for i in range(len(exts)):
                for j in range(i):
                    key = (exts[i].get_id(), exts[j].get_id())
                    if key in done_pair or not exts[i].decl().eq(exts[j].decl()):
                        continue
                    if len(done_pair) > 4 * self.pair_limit:
                        break
                    done_pair.add(key)
                    new += [self.ext_pair(exts[i], exts[j])]
            for f in self.extra_axioms:
                new += f(work)
            out += new
            work = new
            if not new:
                break
        return out

    def pair(self, s, t):
        a, lo, hi = s.children()
        b, lo2, hi2 = t.children()
        w = z3.Int(fresh_name("w"))
        out = [z3.Or(s == t, hi - lo != hi2 - lo2, z3.And(w >= 0, w < hi - lo, sel(a, z3.simplify(lo + w)) != sel(b, z3.simplify(lo2 + w))))]
        # one more term at the end
        for (p, pl, ph, x, y, yl, yh, u) in ((a, lo, hi, s, b, lo2, hi2, t), (b, lo2, hi2, t, a, lo, hi, s)):
            d = z3.simplify(ph - yh)
            if concrete(d) is not None and concrete(d) != 1:
                continue
            w = z3.Int(fresh_name("w"))
            out.append(z3.Or(z3.And(x == u + sel(p, yh)), ph != yh + 1, pl != yl, yh < yl,
                             z3.And(w >= pl, w < yh, sel(p, w) != sel(y, w))))
        # order
        w = z3.Int(fresh_name("w"))
        if s.sort() == Real:
            out.append(z3.Or(s <= t, lo != lo2, hi != hi2, z3.And(w >= lo, w < hi, sel(a, w) > sel(b, w))))
            w = z3.Int(fresh_name("w"))
            out.append(z3.Or(s >= t, lo != lo2, hi != hi2, z3.And(w >= lo, w < hi, sel(a, w) < sel(b, w))))
        return out

    def ext_pair(self, s, t):
        d, segs = EXT[s.decl().name()]
        conds = []
        segpos = {p for p, lo, hi in segs}
        for i, (x, y) in enumerate(zip(s.children(), t.children())):
            if i not in segpos:
                conds.append(x != y)
        for p, lo, hi in segs:
            w = z3.Int(fresh_name("w"))
            n = s.arg(hi) if isinstance(hi, int) else hi(s)
            a, b = s.arg(p), t.arg(p)
            l = z3.IntVal(lo)
            conds.append(z3.And(w >= l, w < n, sel(a, w) != sel(b, w)))
        return z3.Or(s == t, *conds)

    def unary_axioms(self, t):
        n = t.decl().name()
        ch = t.children()
        if n in X.WRAPNAMES:
            bits = int(n[6:])
            x = ch[0]
            m = 2 ** bits
            q = z3.Int(fresh_name("wq"))
            lo, hi = (0, m - 1) if n[5] == "u" else (-m // 2, m // 2 - 1)
            return [z3.And(t >= lo, t <= hi, t == x - m * q, z3.Implies(z3.And(x >= lo, x <= hi), q == 0),
                           z3.Implies(z3.And(x > hi, x <= hi + m), q == 1), z3.Implies(z3.And(x < lo, x >= lo - m), q == -1))]
        if n == "sqrt":
            x = ch[0]
            return [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0)]
        if n == "exp":
            r = [t > 0]
            x = z3.simplify(ch[0])
            if z3.is_rational_value(x) and x.as_fraction() == 0:
                r.append(t == 1)
            r += [z3.Implies(ch[0] <= 0, t <= 1), z3.Implies(ch[0] >= 0, t >= 1)]
            return r
        if n == "cosh":
            return [t >= 1]
        if n == "erf":
            return [t > -1, t < 1]
        if n == "pow":
            r = [z3.Implies(ch[0] > 0, t > 0)]
            y = z3.simplify(ch[1])
            if z3.is_rational_value(y) and y.as_fraction() > 0:
                r.append(z3.Implies(ch[0] >= 1, t >= 1))
                r.append(z3.Implies(z3.And(ch[0] > 0, ch[0] <= 1), t <= 1))
            return r
        if n == "log":
            return [z3.Implies(ch[0] > 1, t > 0), z3.Implies(ch[0] == 1, t == 0), z3.Implies(z3.And(ch[0] > 0, ch[0] < 1), t < 0)]
        if n in EXTREMA:
            a, lo, hi = ch
            q = z3.Int(fresh_name("q"))
            w = z3.Int(fresh_name("arg"))
            s = EXTREMA[n]
            le = (lambda x, y: x <= y) if s > 0 else (lambda x, y: x >= y)
            return [z3.Implies(hi > lo, z3.And(w >= lo, w < hi, t == sel(a, w))),
                    z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < hi), le(sel(a, q), t)))]
        return []

    # ------------------------------------------------------------ proving
    def prove(self, hyps, goal, timeout=None):
        t0 = time.time()
        subs = split_goal(flatten(list(hyps)), goal)
        used = set()
        for h, g in subs:
            r = self.prove1(h, g, timeout or self.timeout)
            used.add(r.backend)
            if not r.ok:
                r.secs = time.time() - t0
                return r
        b = next((x for x in reversed(BACKENDS) if x in used), "norm")
        secs = time.time() - t0
        self.count[b] = self.count.get(b, 0) + 1
        self.secs[b] = self.secs.get(b, 0) + secs
        return Result(True, b, "", secs)

    def match_sums(self, hyps, g, timeout, depth):
        """replace a sum of the left side by one of the right side with pointwise equal terms"""
        if not (z3.is_eq(g) or (z3.is_app(g) and g.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT))):
            return None
        a, b = g.children()
        A, B = outer_sums(a), outer_sums(b)
        ids = {t.get_id() for t in B}
        A = [t for t in A if t.get_id() not in ids]
        ids = {t.get_id() for t in outer_sums(a)}
        B = [t for t in B if t.get_id() not in ids]
        if not A or not B or len(A) * len(B) > 40:
            return None
        subst = []
        for s in A:
            for t in B:
                if s.sort() != t.sort():
                    continue
                n1, n2 = s.arg(2) - s.arg(1), t.arg(2) - t.arg(1)
                try:
                    if not Norm(hyps[:200]).eq(n1, n2):
                        continue
                except (OverflowError, RecursionError):
                    continue
                w = z3.Int(fresh_name("w"))
                x = sel(s.arg(0), z3.simplify(s.arg(1) + w))
                y = sel(t.arg(0), z3.simplify(t.arg(1) + w))
                r = self.prove1(hyps + [w >= 0, w < n1], x == y, min(timeout, 4000), depth + 1, quick=True)
                if r.ok:
                    subst.append((s, t))
                    break
        if not subst:
            return None
        return z3.substitute(a, *subst) == b if z3.is_eq(g) else g.decl()(z3.substitute(a, *subst), b)

    def prove1(self, hyps, g, timeout, depth=0, quick=False):
        g = z3.simplify(g) if not contains_sum(g) else g
        if z3.is_true(g):
            return Result(True, "norm")
        for h in hyps:
            if z3.is_false(h) or h.eq(g):
                return Result(True, "norm")
        # 1. normaliser
        if z3.is_eq(g) or contains_sum(g):
            try:
                nm = Norm(hyps[:200])
                if z3.is_eq(g):
                    if nm.eq(g.arg(0), g.arg(1)):
                        return Result(True, "norm")
                else:
                    if nm.freeze(nm.indicator(g)) == nm.freeze(nm.const(1)):
                        return Result(True, "norm")
            except (OverflowError, RecursionError):
                pass
        # 0. as it stands, without axioms
        if depth == 0 and not quick:
            s0 = z3.Solver()
            s0.set("timeout", 400)
            s0.add(*relevant(flatten(list(self.facts)) + hyps, g, 2))
            s0.add(mknot(g))
            if s0.check() == z3.unsat:
                return Result(True, "z3")
        # 1a. conditions decided by the hypotheses
        if z3.is_eq(g) and g.arg(0).sort() in (Real, Int) and depth < 3 and any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE for t in walk(g)):
            cs = Context(hyps, self.facts)
            g1 = cs.simplify(g)
            if not g1.eq(g):
                g = g1
                try:
                    if Norm(hyps[:200]).eq(g.arg(0), g.arg(1)):
                        return Result(True, "norm")
                except (OverflowError, RecursionError):
                    pass
            if cs.cases(g, 6 if quick else 5):
                return Result(True, "norm")
        # 1b. sums are equal when their terms are
        if depth < 3 and contains_sum(g):
            g2 = self.match_sums(hyps, g, timeout, depth)
            if g2 is not None:
                r = self.prove1(hyps, g2, timeout, depth + 1)
                if r.ok:
                    return r
        # 2. z3 on relevant hypotheses, then on all
        hy = flatten(list(self.facts)) + hyps
        rel = relevant(hy, g, 2)
        detail = ""
        near = relevant(hy, g, 1)
        if len(near) < len(rel):
            ok, detail = self.z3(near, g, min(1000, timeout // 4))
            if ok:
                return Result(True, "z3")
        for k, hs in enumerate(([rel] if len(rel) == len(hy) else [rel, hy])):
            ok, detail = self.z3(hs, g, timeout if k else timeout // 2)
            if ok:
                return Result(True, "z3")
            if quick and k == 0:
                return Result(False, "")
            if k == 0 and z3.is_eq(g) and g.arg(0).sort() == Real and self.field(rel, g, min(timeout, 10000)):
                return Result(True, "z3")
        if quick:
            return Result(False, "")
        # 3. instantiated, quantifier free
        ok, d2 = self.inst(hy, g, timeout)
        if ok:
            return Result(True, "z3-inst")
        ok = self.cvc5(rel, g, timeout)
        if ok:
            return Result(True, "cvc5")
        return Result(False, "", "goal: %s\nsolver: %s" % (short(g), detail))

    def z3(self, hs, g, timeout):
        s = z3.Solver()
        s.set("timeout", int(timeout))
        neg = mknot(g)
        fs = list(hs) + [neg]
        ax = self.axioms(fs)
        fs = simplify_all(fs + ax)
        for f in fs:
            s.add(f)
        s.add(*product_lemmas([z3.simplify(f) for f in fs]))
        r = s.check()
        if r == z3.unsat:
            return True, ""
        if r == z3.sat:
            return False, "sat: " + str(s.model())[:1500]
        return False, "unknown: " + s.reason_unknown()

    def field(self, hs, g, timeout):
        """ordered field reasoning: everything but + - * / and sqrt becomes a variable"""
        var, facts, keep = {}, [], {}
        nm = Norm(hs[:200])

        def akey(t):
            if t.get_id() not in keep:
                keep[t.get_id()] = (nm.key(t), t)
            return keep[t.get_id()][0]

        def atom(t):
            k = akey(t)
            if k not in var:
                var[k] = z3.Real(fresh_name("a"))
            return var[k]

        def ab(t, new=True):
            if z3.is_rational_value(t):
                return t
            k = t.decl().kind() if z3.is_app(t) else None
            ch = t.children()
            if k == z3.Z3_OP_ADD:
                return z3.Sum(*[ab(c, new) for c in ch])
            if k == z3.Z3_OP_SUB:
                r = ab(ch[0], new)
                for c in ch[1:]:
                    r = r - ab(c, new)
                return r
            if k == z3.Z3_OP_UMINUS:
                return -ab(ch[0], new)
            if k == z3.Z3_OP_MUL:
                r = ab(ch[0], new)
                for c in ch[1:]:
                    r = r * ab(c, new)
                return r
            if not new and akey(t) not in var:
                raise KeyError
            isnew = akey(t) not in var
            v = atom(t)
            if isnew and k == z3.Z3_OP_DIV:
                a, b = ab(ch[0]), ab(ch[1])
                facts.append(z3.Implies(b != 0, v * b == a))
            elif isnew and z3.is_app(t) and t.decl().name() == "sqrt" and ch:
                a = ab(ch[0])
                facts.append(z3.Implies(a >= 0, z3.And(v >= 0, v * v == a)))
            return v
        try:
            goal = ab(g.arg(0)) == ab(g.arg(1))
            if len(var) > 40:
                return False
            done = set()
            for _ in range(2):
                for h in hs:
                    if h.get_id() in done or not z3.is_app(h):
                        continue
                    neg = z3.is_not(h)
                    a = h.arg(0) if neg else h
                    if not z3.is_app(a) or a.num_args() != 2 or a.arg(0).sort() != Real or a.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                        continue
                    try:
                        f = a.decl()(ab(a.arg(0), False), ab(a.arg(1), False))
                    except KeyError:
                        continue
                    done.add(h.get_id())
                    facts.append(mknot(f) if neg else f)
            s = z3.SolverFor("QF_NRA")
            s.set("timeout", int(timeout))
            s.add(*facts)
            s.add(mknot(goal))
            return s.check() == z3.unsat
        except (z3.Z3Exception, RecursionError, OverflowError):
            return False

    def inst(self, hs, g, timeout):
        """replace universally quantified hypotheses by ground instances"""
        qf, qs = [], []
        for h in hs:
            (qs if has_quant(h) else qf).append(h)
        if not qs:
            return False, ""
        neg = mknot(g)
        insts = []
        for rnd in range(2):
            base = qf + insts + [neg]
            terms = index_terms(base)
            if len(terms) > 40:
                terms = terms[:40]
            new = []
            for q in qs:
                new += instances(q, terms, 60)
            insts = dedupe(insts + new)
            if len(insts) > 1500:
                insts = insts[:1500]
            fs = qf + insts + [neg]
            ax = self.axioms(fs)
            s = z3.Solver()
            s.set("timeout", int(timeout))
            for f in simplify_all(fs + ax):
                if not has_quant(f):
                    s.add(f)
            if s.check() == z3.unsat:
                return True, ""
        return False, ""

    def cvc5(self, hs, g, timeout):
        try:
            s = z3.Solver()
            fs = list(hs) + [mknot(g)]
            fs = simplify_all(fs + self.axioms(fs))
            if any(has_lambda(f) for f in fs):
                return False
            for f in fs:
                s.add(f)
            txt = "(set-logic ALL)\n" + s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
                f.write(txt)
                f.flush()
                r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, "--full-saturate-quant", f.name], stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, timeout=timeout / 1000.0 + 5)
            return r.stdout.decode().strip().endswith("unsat") and "sat" in r.stdout.decode().split()[0] and r.stdout.decode().split()[0] == "unsat"
        except Exception:
            return False


class Context:
    """simplification of conditional terms whose conditions are decided by the hypotheses (linear integer reasoning)"""
    def __init__(self, hyps, facts=(), parent=None):
        self.parent = parent
        self.base = [h for h in list(facts) + list(hyps) if not has_quant(h) and cheap(h)]
        self.hyps = hyps
        self.memo = {}
        self.known = {}
        self.t_end = parent.t_end if parent else time.time() + 20
        self.s = None

    def sub(self, fs):
        c = Context.__new__(Context)
        c.parent, c.base, c.hyps, c.memo, c.known, c.t_end, c.s = self, self.base + [f for f in fs if cheap(f)], self.hyps + list(fs), {}, {}, self.t_end, None
        return c

    def entails(self, f):
        k = f.get_id()
        if k in self.known:
            return self.known[k][0]
        r = False
        if time.time() < self.t_end:
            sy = symbols_of(f)
            s = z3.Solver()
            s.set("timeout", 300)
            rel = relevant(self.base, f, 2)
            s.add(*rel)
            s.add(mknot(f))
            r = s.check() == z3.unsat
            if not r:
                ls = product_lemmas([z3.simplify(x) for x in rel + [f]])
                if ls:
                    s.add(*ls)
                    r = s.check() == z3.unsat
        self.known[k] = (r, f)
        return r

    def decide(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not cheap(c):
            return None
        if self.entails(c):
            return True
        if self.entails(mknot(c)):
            return False
        return None

    def simplify(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][0]
        r = self._s(e)
        self.memo[k] = (r, e)
        return r

    def _s(self, e):
        if not z3.is_app(e) or e.num_args() == 0:
            return e
        kd = e.decl().kind()
        if kd == z3.Z3_OP_ITE and not has_var(e.arg(0)):
            c = z3.simplify(e.arg(0))
            d = self.decide(c)
            if d is not None:
                return self.simplify(e.arg(1 if d else 2))
            return z3.If(e.arg(0), self.sub([c]).simplify(e.arg(1)), self.sub([mknot(c)]).simplify(e.arg(2)))
        if is_sum(e) and z3.is_quantifier(e.arg(0)):
            lo, hi = self.simplify(e.arg(1)), self.simplify(e.arg(2))
            lm = e.arg(0)
            w = z3.Int(fresh_name("kk"))
            body = z3.substitute_vars(lm.body(), w)
            if any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE for t in walk(body)):
                b2 = self.sub([w >= lo, w < hi]).simplify(body)
                return e.decl()(z3.Lambda([w], b2), lo, hi)
            return e.decl()(lm, lo, hi)
        ch = [self.simplify(c) for c in e.children()]
        if all(a.eq(b) for a, b in zip(ch, e.children())):
            return e
        return e.decl()(*ch)

    def cases(self, g, depth):
        """equality of two terms by cases of the remaining conditions"""
        c = first_cond(g)
        if c is None or depth == 0 or time.time() > self.t_end:
            return False
        for f in (c, mknot(c)):
            s = self.sub([f])
            if s.entails(z3.BoolVal(False)):
                continue
            h = s.simplify(g)
            try:
                if Norm(s.hyps[:200] + [f]).eq(h.arg(0), h.arg(1)):
                    continue
            except (OverflowError, RecursionError):
                pass
            if not s.cases(h, depth - 1):
                return False
        return True


def cheap(h):
    """linear: no product of reals, no quantifier, small"""
    n = 0
    for t in walk(h):
        n += 1
        if n > 300 or z3.is_quantifier(t):
            return False
        if z3.is_app(t) and t.sort() == Real and t.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and sum(not z3.is_rational_value(c) for c in t.children()) > 1:
            return False
    return True


def first_cond(g):
    """an undecided ground condition (integer comparison) outside of binders"""
    seen = set()
    st = [g]
    while st:
        t = st.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_ITE and not has_var(t.arg(0)):
            c = t.arg(0)
            inner = first_cond(c)
            if inner is not None:
                return inner
            while z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
                c = c.arg(0)
            if cheap(c):
                return z3.simplify(c)
        st += t.children()
    return None


def short(e):
    s = str(e)
    return s if len(s) < 1500 else s[:1500] + "..."


def contains_sum(g):
    return any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ("SUM", "ISUM") for t in walk(g))


def simplify_all(fs):
    return [f for f in fs if not z3.is_true(f)]


def outer_sums(e):
    """outermost ground sums of a term"""
    out, seen = [], set()
    st = [e]
    while st:
        t = st.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if is_sum(t):
            if ground(t):
                out.append(t)
            continue
        st += t.children()
    return out


@cached
def has_quant(f):
    return any(z3.is_quantifier(t) and not t.is_lambda() for t in walk(f))


@cached
def has_lambda(f):
    return any(z3.is_quantifier(t) and t.is_lambda() for t in walk(f))


def dedupe(fs):
    seen, out = set(), []
    for f in fs:
        if f.get_id() not in seen:
            seen.add(f.get_id())
            out.append(f)
    return out


def relevant(hyps, goal, rounds=None):
    syms = symbols_of(goal) - set(MATHNAMES)
    hs = [(h, symbols_of(h) - set(MATHNAMES)) for h in hyps]
    out = []
    n = 0
    changed = True
    pick = [False] * len(hs)
    while changed:
        changed = False
        n += 1
        add = set()
        for i, (h, s) in enumerate(hs):
            if not pick[i] and (s & syms or not s):
                pick[i] = True
                add |= s
                changed = True
        syms |= add
        if rounds and n >= rounds:
            break
    return [h for i, (h, s) in enumerate(hs) if pick[i]]


MATHNAMES = {"SUM", "ISUM", "sqrt", "exp", "log", "erf", "cosh", "pow"}


@cached
def index_terms_of(f):
    out = []
    for t in walk(f):
        if not z3.is_app(t):
            continue
        k = t.decl().kind()
        for c in t.children():
            if c.sort() == Int and ground(c) and (k in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) or z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                out.append((c, len(c.sexpr())))
    return out


def index_terms(fs):
    """ground Int terms used as indices / arguments, small ones first"""
    seen, out = set(), []
    for f in fs:
        for c, l in index_terms_of(f):
            if c.get_id() not in seen:
                seen.add(c.get_id())
                out.append((c, l))
    out.sort(key=lambda t: t[1])
    return [c for c, l in out]


def instances(q, terms, limit):
    if z3.is_quantifier(q) and q.is_forall():
        n = q.num_vars()
        cands = []
        for i in range(n):
            cands.append([t for t in terms if t.sort() == q.var_sort(i)])
        import itertools
        out = []
        for combo in itertools.product(*cands):
            out.append(z3.substitute_vars(q.body(), *reversed(combo)))
            if len(out) >= limit * (8 if n > 1 else 1):
                break
        return out
    if z3.is_or(q) or z3.is_implies(q):
        # push: A -> forall x. B   instances
        cs = q.children() if z3.is_or(q) else [mknot(q.arg(0)), q.arg(1)]
        qs = [c for c in cs if z3.is_quantifier(c) and c.is_forall()]
        if len(qs) == 1:
            rest = [c for c in cs if not c.eq(qs[0])]
            return [z3.Or(*(rest + [i])) for i in instances(qs[0], terms, limit)]
    return []
