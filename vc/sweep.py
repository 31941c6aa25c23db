"""Equivalence of two bit-vector term graphs by sweeping: every intermediate
value of the specification that has a counterpart in the code's term is proved
equal to it from the values below, which are then treated as arbitrary."""
import random, z3
from terms import walk, fresh_name


class Undetermined(Exception):
    pass


def evaluate(nodes, env):
    """values of all nodes (post order) under an assignment of the inputs"""
    val = {}
    for t in nodes:
        k = t.decl().kind()
        ch = [val[c.get_id()] for c in t.children()]
        if z3.is_bv_value(t):
            v = t.as_long()
        elif z3.is_int_value(t):
            v = t.as_long()
        elif z3.is_true(t) or z3.is_false(t):
            v = z3.is_true(t)
        elif k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
            v = env(t, ch)
        else:
            n = t.size() if z3.is_bv(t) else 0
            m = (1 << n) - 1
            if k == z3.Z3_OP_BXOR:
                v = 0
                for c in ch:
                    v ^= c
            elif k == z3.Z3_OP_BAND:
                v = m
                for c in ch:
                    v &= c
            elif k == z3.Z3_OP_BOR:
                v = 0
                for c in ch:
                    v |= c
            elif k == z3.Z3_OP_BNOT:
                v = ~ch[0] & m
            elif k == z3.Z3_OP_BADD:
                v = sum(ch) & m
            elif k == z3.Z3_OP_BSUB:
                v = (ch[0] - sum(ch[1:])) & m
            elif k == z3.Z3_OP_BNEG:
                v = -ch[0] & m
            elif k == z3.Z3_OP_BMUL:
                v = 1
                for c in ch:
                    v = v * c & m
            elif k == z3.Z3_OP_BSHL:
                v = (ch[0] << ch[1]) & m if ch[1] < n else 0
            elif k == z3.Z3_OP_BLSHR:
                v = ch[0] >> ch[1] if ch[1] < n else 0
            elif k == z3.Z3_OP_EXTRACT:
                hi, lo = t.params()
                v = (ch[0] >> lo) & ((1 << (hi - lo + 1)) - 1)
            elif k == z3.Z3_OP_CONCAT:
                v = 0
                for c, x in zip(t.children(), ch):
                    v = v << c.size() | x
            elif k == z3.Z3_OP_ZERO_EXT:
                v = ch[0]
            elif k == z3.Z3_OP_ITE:
                v = ch[1] if ch[0] else ch[2]
            elif k == z3.Z3_OP_EQ:
                v = ch[0] == ch[1]
            elif k == z3.Z3_OP_NOT:
                v = not ch[0]
            elif k == z3.Z3_OP_AND:
                v = all(ch)
            elif k == z3.Z3_OP_OR:
                v = any(ch)
            else:
                raise Undetermined("operator " + str(t.decl()))
        val[t.get_id()] = v
    return val


class Sweep:
    def __init__(self, impl, seed=1, rounds=2):
        """impl: list of final terms of the code"""
        self.rnd = random.Random(seed)
        self.nodes, seen = [], set()
        for t in impl:
            walk(t, seen, self.nodes)
        self.inputs = [{} for _ in range(rounds)]
        self.vals = [evaluate(self.nodes, self.env(i)) for i in range(rounds)]
        self.sig = {}
        for t in self.nodes:
            if z3.is_bv(t) and not z3.is_bv_value(t):
                self.sig.setdefault((t.size(),) + tuple(v[t.get_id()] for v in self.vals), []).append(t)
        self.cut = {}           # node id -> (node, constant)
        self.memo = {}
        self.keep = []
        self.solver_calls = 0

    def env(self, i):
        d = self.inputs[i]

        def f(t, ch):
            k = (t.decl().name(), tuple(ch)) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else (t.arg(0).get_id(), ch[1] if len(ch) > 1 else None)
            if k not in d:
                d[k] = self.rnd.getrandbits(64)
            v = d[k]
            if z3.is_bv(t):
                return v & ((1 << t.size()) - 1)
            return v
        return f

    def fold(self, nodes, vals):
        """nodes that depend on no input are their value"""
        dep = {}
        for t in nodes:
            k = t.decl().kind()
            d = k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) or any(dep[c.get_id()] for c in t.children())
            dep[t.get_id()] = d
            if not d and z3.is_bv(t) and t.num_args():
                self.memo[t.get_id()] = z3.BitVecVal(vals[t.get_id()], t.size())
                self.keep.append(t)

    def cutoff(self, t):
        """t with the matched nodes below replaced by arbitrary constants"""
        st = [(t, False)]
        while st:
            x, done = st.pop()
            i = x.get_id()
            if i in self.memo:
                continue
            c = self.cut.get(i)
            if c is not None and c[0].eq(x):
                self.memo[i] = c[1]
                continue
            if done:
                ch = [self.memo[y.get_id()] for y in x.children()]
                if z3.is_const(x):
                    r = x
                elif x.decl().kind() == z3.Z3_OP_SELECT:
                    r = x
                else:
                    r = x.decl()(*ch) if not x.decl().kind() in NARY or len(ch) == 2 else nary(x, ch)
                self.memo[i] = r
                self.keep.append(x)
            else:
                st.append((x, True))
                st += [(y, False) for y in x.children()]
        return self.memo[t.get_id()]

    def match(self, spec):
        """spec: a term over the inputs and the constants returned by earlier
        matches; returns a constant standing for it, proved equal to a node of
        the code, or None if the code has no such value"""
        raise NotImplementedError


NARY = {z3.Z3_OP_BXOR, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_CONCAT, z3.Z3_OP_AND, z3.Z3_OP_OR}


def nary(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_CONCAT:
        return z3.Concat(*ch)
    r = ch[0]
    for c in ch[1:]:
        r = {z3.Z3_OP_BXOR: lambda: r ^ c, z3.Z3_OP_BAND: lambda: r & c, z3.Z3_OP_BOR: lambda: r | c, z3.Z3_OP_BADD: lambda: r + c, z3.Z3_OP_BMUL: lambda: r * c}[k]()
    return r


def equivalent(impl, steps, finals, seed=1, timeout=20000):
    """impl: list of final terms of the code; steps: list of specification terms
    in evaluation order (later ones built from earlier ones); finals: for each
    impl term the specification term.  Returns (index of the first final that is
    not proved equal or None, number of solver calls)."""
    sw = Sweep(impl, seed)
    nodes, seen = [], set()
    for t in steps + list(finals):
        walk(t, seen, nodes)
    vals = [evaluate(nodes, sw.env(i)) for i in range(len(sw.inputs))]
    spec = Sweep.__new__(Sweep)
    spec.cut, spec.memo, spec.keep = {}, {}, []
    spec.fold(nodes, vals[0])
    sw.fold(sw.nodes, sw.vals[0])
    s = z3.Solver()
    s.set("timeout", timeout)
    calls = 0

    def same(a, b):
        nonlocal calls
        if a.eq(b):
            return True
        g = z3.simplify(a != b)
        if z3.is_false(g):
            return True
        calls += 1
        s.push()
        s.add(g)
        r = s.check()
        s.pop()
        return r == z3.unsat

    for t in steps:
        if z3.is_bv_value(t) or t.get_id() in spec.cut or t.get_id() in spec.memo and z3.is_bv_value(spec.memo[t.get_id()]):
            continue
        k = (t.size(),) + tuple(v[t.get_id()] for v in vals)
        for c in sw.sig.get(k, ())[:3]:
            if c.get_id() in sw.cut:
                spec.cut[t.get_id()] = (t, sw.cut[c.get_id()][1]) if same(spec.cutoff(t), sw.cut[c.get_id()][1]) else None
                if spec.cut[t.get_id()] is None:
                    del spec.cut[t.get_id()]
                break
            a, b = sw.cutoff(c), spec.cutoff(t)
            if same(a, b):
                k = z3.BitVec(fresh_name("v"), t.size())
                sw.cut[c.get_id()] = (c, k)
                spec.cut[t.get_id()] = (t, k)
                sw.memo[c.get_id()] = k
                spec.memo[t.get_id()] = k
                break
    for i, (a, b) in enumerate(zip(impl, finals)):
        if not same(sw.cutoff(a), spec.cutoff(b)):
            return i, calls
    return None, calls
