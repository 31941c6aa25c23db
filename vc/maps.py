"""Contract of std::map<std::string, natural>.

A map is a set of keys (has), the value of each key and the number of keys. Iteration visits each key once, in an
order that is an unknown function of the set of keys."""
import z3
from core import *
from streams import S

HAS, VALS = z3.ArraySort(S, Bool), z3.ArraySort(S, Int)
KEY = z3.Function("key", HAS, Int, S)      # key number i of a set of keys
POS = z3.Function("place of key", HAS, S, Int)


def is_map(v):
    return isinstance(v, Rec) and v.cls == "map"


def is_it(v):
    return isinstance(v, Rec) and v.cls.startswith("mapit")


class Maps:
    def __init__(self, v, S_):
        self.v, self.ex = v, v.ex
        self.where = {}
        for k, f in (("operator", self.operator), ("method", self.method), ("libctor", self.ctor), ("fresh_rec", self.fresh)):
            S_.chain(k, f)

    def name(self, t):
        n = norm_name(t[1]) if t[0] == "rec" else ""
        return n.split("<")[0].split("::")[-1] == "map"

    def rec(self, has, val, n):
        return Rec("map", {"has": has, "val": Seq(("int", 32, False), 0, val, "map"), "n": n})

    def fresh(self, ex, t, name, depth):
        if not self.name(t):
            return None
        n = ex.fresh(("int", 64, False), name + ".size", depth)
        return self.rec(ex.fconst(HAS, name + ".keys"), ex.fconst(VALS, name + ".values"), n)

    def ctor(self, ex, t, args, ats, st, n):
        if self.name(t):
            if not args:
                return self.rec(z3.K(S, z3.BoolVal(False)), ex.fconst(VALS, "unset"), z3.IntVal(0))
            v = ex.rv(st, args[0])
            if is_map(v):
                return v
        if t[0] == "rec" and len(args) == 1 and is_it(ex.rv(st, args[0])):
            return ex.rv(st, args[0])
        return NotImplemented

    def facts(self, st, m):
        """order of iteration of a map"""
        has, n = m.f["has"], m.f["n"]
        i, k = z3.Int("i_"), z3.Const("k_", S)
        st.pc += [n >= 0, forall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(has, KEY(has, i)), POS(has, KEY(has, i)) == i)), [KEY(has, i)]),
                  forall([k], z3.Implies(z3.Select(has, k), z3.And(POS(has, k) >= 0, POS(has, k) < n, KEY(has, POS(has, k)) == k)), [z3.Select(has, k)])]

    def it(self, ex, lv, m, i, end, key):
        tag = "mapit#%s" % (lv,)
        self.where[tag] = lv
        return Rec(tag, {"i": i, "end": end, "key": key})

    def method(self, ex, obj, lv, name, args, st, n):
        if not is_map(obj) or lv is None:
            return NotImplemented
        has, sz = obj.f["has"], obj.f["n"]
        if name in ("begin", "cbegin"):
            self.facts(st, obj)
            return self.it(ex, lv, obj, z3.IntVal(0), sz == 0, KEY(has, 0))
        if name in ("end", "cend"):
            return self.it(ex, lv, obj, sz, z3.BoolVal(True), KEY(has, sz))
        if name == "size":
            return sz
        if name == "empty":
            return sz == 0
        if name in ("find", "count"):
            k = ex.rv(st, args[0])
            if not (isinstance(k, z3.ExprRef) and k.sort() == S):
                raise Unsupported("key of a map")
            p = z3.Select(has, k)
            return z3.If(p, z3.IntVal(1), z3.IntVal(0)) if name == "count" else self.it(ex, lv, obj, z3.If(p, POS(has, k), sz), z3.Not(p), k)
        if name == "at":
            k = ex.rv(st, args[0])
            ex.oblige(st, z3.Select(has, k), "bounds", "key of a map")
            return LV(lv.cell, lv.path).fld("val").idx(k)
        if name == "operator[]":
            return self.get(ex, lv, obj, ex.rv(st, args[0]), st)
        if name == "operator=":
            ex.write(st, lv, ex.rv(st, args[0]))
            return lv
        return NotImplemented

    def get(self, ex, lv, m, k, st):
        has, val = m.f["has"], z(m.f["val"].data)
        p = z3.Select(has, k)
        if not ex.proves(st, p) if hasattr(ex, "proves") else True:
            ex.write(st, lv, self.rec(z3.Store(has, k, z3.BoolVal(True)), z3.If(p, val, z3.Store(val, k, z3.IntVal(0))), z3.If(p, m.f["n"], m.f["n"] + 1)))
        return lv.fld("val").idx(k)

    def operator(self, ex, op, args, st, n):
        if not args:
            return NotImplemented
        a = args[0]
        try:
            v = ex.read(st, a, False) if isinstance(a, LV) else a
        except Unsupported:
            return NotImplemented
        o = op[8:]
        if is_map(v) and isinstance(a, LV):
            if o == "[]":
                return self.get(ex, a, v, ex.rv(st, args[1]), st)
            if o == "=":
                ex.write(st, a, ex.rv(st, args[1]))
                return a
        if is_it(v):
            f = v.f
            if o in ("==", "!="):
                w = ex.rv(st, args[1])
                if not is_it(w):
                    return NotImplemented
                e = z3.And(f["end"] == w.f["end"], z3.Or(f["end"], f["key"] == w.f["key"]))
                return e if o == "==" else z3.Not(e)
            lv = self.where[v.cls]
            m = ex.read(st, lv, False)
            has = m.f["has"]
            if o == "++":
                ex.oblige(st, z3.Not(f["end"]), "bounds", "iterator of a map")
                i = f["i"] + 1
                ex.write(st, a, Rec(v.cls, {"i": i, "end": i == m.f["n"], "key": KEY(has, i)}))
                return a if len(args) == 1 else v
            if o in ("->", "*"):
                ex.oblige(st, z3.Not(f["end"]), "bounds", "iterator of a map")
                st.pc.append(z3.Select(has, f["key"]))
                p = ex.temp(st, Rec("pair", {"first": f["key"], "second": z3.Select(z(m.f["val"].data), f["key"])}))
                return Ptr(p) if o == "->" else p
            if o == "=" and isinstance(a, LV):
                ex.write(st, a, ex.rv(st, args[1]))
                return a
        return NotImplemented
