"""Contracts of the standard streams and strings.

A stream is a record {src, pos, start, fail, bad, eof} plus the formatting state {width, prec, flags}. `src` names the
contents (of an output stream: what has been written so far), `pos` a position in it. What a formatted extraction finds at a
position is an uninterpreted function of contents and position (so it stands for every text): whether it succeeds, its value,
the position behind it and whether it met the end. Strings are an uninterpreted sort with uninterpreted length and characters.
The state bits follow the standard: an extraction from a stream that is not good sets failbit and leaves its target alone."""
import z3
import lib
from values import *
from terms import *
from exec import norm_name, tparse

S = z3.DeclareSort("Str")
KINDS = {"real": Real, "nat": Int, "nat64": Int, "int": Int, "bool": Bool, "str": S, "char": Int}
OK = {k: z3.Function("reads " + k, Int, Int, Bool) for k in KINDS}
VAL = {k: z3.Function("value " + k, Int, Int, s) for k, s in KINDS.items()}
NXT = {k: z3.Function("after " + k, Int, Int, Int) for k in KINDS}
END = {k: z3.Function("at end after " + k, Int, Int, Bool) for k in KINDS}
LOK = z3.Function("reads line", Int, Int, Int, Bool)
LVAL = z3.Function("line", Int, Int, Int, S)
LNXT = z3.Function("after line", Int, Int, Int, Int)
LEND = z3.Function("at end after line", Int, Int, Int, Bool)
SRC = z3.Function("contents of string", S, Int)
STR = z3.Function("string of contents", Int, S)
FILE = z3.Function("contents of file", S, Int)
EXISTS = z3.Function("file exists", S, Bool)
LEN = z3.Function("length", S, Int)
CHAR = z3.Function("character", S, Int, Int)
PREFIX = z3.Function("prefix", S, Int, S)
SUFFIX = z3.Function("suffix", S, Int, S)
FIND = z3.Function("find character", S, Int, Int)
FINDS = z3.Function("find string", S, S, Int)
CAT = z3.Function("concatenation", S, S, S)
SPACE = z3.Function("is space", Int, Bool)
PUT = {k: z3.Function("put " + k, Int, s, Int, Int, Int, Int) for k, s in list(KINDS.items())}   # contents, value, width, precision, flags
NPOS = z3.IntVal(2 ** 64 - 1)
FLT = {"fixed": 1, "scientific": 2}
ADJ = {"right": 0, "left": 1, "internal": 2}
BITS = ("bad", "eof", "fail")


def B(x):
    return z3.BoolVal(x)


def stream(src, pos=0, fail=False, bad=False, eof=False, cls="stream"):
    p = pos if isinstance(pos, z3.ExprRef) else z3.IntVal(pos)
    b = lambda x: x if isinstance(x, z3.ExprRef) else B(x)
    return Rec(cls, {"src": src, "pos": p, "start": p, "fail": b(fail), "bad": b(bad), "eof": b(eof), "width": z3.IntVal(0), "prec": z3.IntVal(6), "flt": z3.IntVal(0), "adj": z3.IntVal(0)})


def iostate(**k):
    return Rec("iostate", {b: k.get(b, B(False)) for b in BITS})


def is_stream(v):
    return isinstance(v, Rec) and "src" in v.f and "pos" in v.f


class Streams:
    def __init__(self, v):
        self.v = v
        self.ex = ex = v.ex
        self.std = {}
        for k, f in (("operator", self.operator), ("method", self.method), ("libctor", self.ctor), ("call", self.call), ("tobool", self.tobool), ("extern_var", self.extern), ("fresh_rec", self.fresh)):
            self.chain(k, f)

    def chain(self, k, f):
        old = self.ex.hooks.get(k)
        none = None if k in ("extern_var", "fresh_rec") else NotImplemented

        def g(*a):
            r = f(*a)
            if r is none and old is not None:
                return old(*a)
            return r
        self.ex.hooks[k] = g if k != "tobool" else f

    def input(self, name="in", **k):
        """location of an input stream with arbitrary contents and state"""
        ex = self.ex
        src, pos = ex.fconst(Int, name + ".src"), ex.fconst(Int, name + ".pos")
        st = {b: k[b] if b in k else ex.fconst(Bool, name + "." + b) for b in BITS}
        return self.v.cell(stream(src, pos, **st), name)

    def output(self, name="out", **k):
        ex = self.ex
        return self.v.cell(stream(ex.fconst(Int, name + ".log"), 0, **k), name)

    # ------------------------------------------------------------ hooks
    def extern(self, ex, d, st):
        n = d.get("name")
        if n in ("failbit", "badbit", "eofbit", "goodbit"):
            return iostate(**({n[:-3]: B(True)} if n != "goodbit" else {}))
        if n in ("fixed", "scientific", "floatfield", "boolalpha", "left", "right", "internal", "adjustfield", "dec", "basefield"):
            return Opaque(("flag", n))
        if n == "npos":
            return NPOS
        if n in ("cin", "cout", "cerr", "clog"):
            if n not in self.std:
                raise Unsupported("standard stream " + n)
            return self.std[n]
        return None

    def fresh(self, ex, t, name, depth):
        b = norm_name(t[1]).split("<")[0]
        if b in ("istream", "ostream", "basic_istream", "basic_ostream", "stringstream", "istringstream", "ostringstream", "ifstream", "ofstream"):
            f = lambda k, q: ex.fresh(k, name + "." + q, depth)
            r = stream(f(("int", 64, True), "src"), f(("int", 64, True), "pos"), *[f(("bool",), q) for q in ("fail", "bad", "eof")])
            for q in ("width", "prec", "flt", "adj"):
                r.f[q] = f(("int", 64, True), q)
            return r
        return None

    def tobool(self, ex, st, v):
        if is_stream(v):
            return z3.Not(z3.Or(v.f["fail"], v.f["bad"]))
        if isinstance(v, Rec) and v.cls == "iostate":
            return z3.Or(*[v.f[b] for b in BITS])
        raise Unsupported("condition on %s" % type(v).__name__)

    def strv(self, ex, st, a):
        v = ex.rv(st, a)
        if isinstance(v, Opaque) and isinstance(v.tag, tuple) and v.tag[0] == "lit":
            return ex.strlit(v.tag[1])
        return v

    def ctor(self, ex, t, args, ats, st, n):
        if t[0] == "rec":
            b = norm_name(t[1]).split("<")[0].replace("basic_", "").replace("__cxx11::", "")
            if b in ("istringstream", "stringstream", "ostringstream"):
                a = [ex.rv(st, x) for x in args]
                a = [x for x in a if isinstance(x, z3.ExprRef) and x.sort() == S]
                return stream(SRC(a[0]) if a else z3.IntVal(0))
            if b in ("ifstream", "ofstream"):
                if not args:
                    raise Unsupported("file stream without a file")
                f = self.strv(ex, st, args[0])
                if not (isinstance(f, z3.ExprRef) and f.sort() == S):
                    raise Unsupported("file name")
                return stream(FILE(f), 0, fail=z3.Not(EXISTS(f)))
        return NotImplemented

    def kind(self, t):
        while t[0] == "ref":
            t = t[1]
        if t[0] == "int":
            return "char" if t[1] == 8 else {(32, False): "nat", (64, False): "nat64"}.get((t[1], t[2]), "int")
        return {"real": "real", "bool": "bool", "str": "str"}.get(t[0])

    def extract(self, ex, st, lv, target, t):
        s = ex.read(st, lv, False)
        k = self.kind(t)
        if k is None:
            raise Unsupported("extraction into %s" % (t,))
        src, pos = s.f["src"], s.f["pos"]
        good = z3.Not(z3.Or(s.f["fail"], s.f["bad"], s.f["eof"]))
        ok = OK[k](src, pos)
        self.advance(ex, st, lv, s, good, ok, NXT[k](src, pos), END[k](src, pos))
        old = ex.read(st, target, False)
        new = VAL[k](src, pos)
        sort = old.sort() if isinstance(old, z3.ExprRef) else new.sort()
        if k in ("nat", "nat64", "int"):
            lo, hi = (0, 2 ** t[1] - 1) if not t[2] else (-2 ** (t[1] - 1), 2 ** (t[1] - 1) - 1)
            st.pc.append(z3.And(new >= lo, new <= hi))
        junk = ex.fconst(sort, "unread")
        ex.write(st, target, z3.If(good, z3.If(ok, new, junk), old))
        return lv

    def advance(self, ex, st, lv, s, good, ok, nxt, end):
        f = dict(s.f)
        f["start"] = z3.If(good, s.f["pos"], s.f["start"])
        f["pos"] = z3.If(z3.And(good, ok), nxt, s.f["pos"])
        f["fail"] = z3.Or(s.f["fail"], z3.Not(good), z3.Not(ok))
        f["eof"] = z3.Or(s.f["eof"], z3.And(good, end))
        ex.write(st, lv, Rec(s.cls, {k: z3.simplify(x) for k, x in f.items()}))

    def getline(self, ex, st, lv, target, delim):
        s = ex.read(st, lv, False)
        src, pos = s.f["src"], s.f["pos"]
        good = z3.Not(z3.Or(s.f["fail"], s.f["bad"], s.f["eof"]))
        ok = LOK(src, pos, delim)
        self.advance(ex, st, lv, s, good, ok, LNXT(src, pos, delim), LEND(src, pos, delim))
        old = ex.read(st, target, False)
        # a line that cannot be read leaves an empty string behind
        ex.write(st, target, z3.If(good, z3.If(ok, LVAL(src, pos, delim), ex.strlit("")), old))
        return lv

    def insert(self, ex, st, lv, v, t):
        s = ex.read(st, lv, False)
        f = dict(s.f)
        if isinstance(v, Rec) and v.cls == "manip":
            for k, x in v.f.items():
                f[k] = x
            ex.write(st, lv, Rec(s.cls, f))
            return lv
        if isinstance(v, Opaque) and isinstance(v.tag, tuple) and v.tag[0] == "lit":
            # a single character as a string is the character
            v, k = (z3.IntVal(ord(v.tag[1])), "char") if len(v.tag[1]) == 1 and ord(v.tag[1]) < 128 else (ex.strlit(v.tag[1]), "str")
        elif isinstance(v, z3.ExprRef) and v.sort() == S:
            k = "str"
        elif isinstance(v, Opaque) and v.tag == "what":
            v, k = ex.fconst(S, "message"), "str"
        elif isinstance(v, Fn) or isinstance(v, Opaque):
            nm = self.manip_name(ex, v)
            if nm == "endl":
                v, k = z3.IntVal(10), "char"
                f["width"] = z3.IntVal(0)
            elif nm == "flush":
                return lv
            elif nm in ("left", "right", "internal"):
                f["adj"] = z3.IntVal(ADJ[nm])
                ex.write(st, lv, Rec(s.cls, f))
                return lv
            elif nm in ("scientific", "fixed"):
                f["flt"] = z3.IntVal(FLT[nm])
                ex.write(st, lv, Rec(s.cls, f))
                return lv
            else:
                raise Unsupported("manipulator %s" % nm)
        elif isinstance(v, z3.ExprRef):
            k = self.kind(t) or {Real: "real", Int: "nat", Bool: "bool"}.get(v.sort())
        else:
            raise Unsupported("output of %s" % type(v).__name__)
        k = "nat" if k in ("nat64", "int") else k
        if k in ("real", "nat", "bool") and v.sort() != KINDS[k]:
            raise Unsupported("output of a %s" % v.sort())
        # the alignment matters only in a field of positive width, precision and notation only for real numbers
        w, p, g = f["width"], f["prec"], f["flt"] + 8 * f["adj"]
        if k != "real":
            p, g = z3.IntVal(0), 8 * f["adj"]
        if z3.is_int_value(w) and w.as_long() == 0:
            g = f["flt"] if k == "real" else z3.IntVal(0)
        g = z3.simplify(g)
        good = z3.Not(z3.Or(s.f["fail"], s.f["bad"], s.f["eof"]))
        new = PUT[k](f["src"], v, w, p, g)
        f["src"] = new if z3.is_true(z3.simplify(good)) else z3.If(good, new, f["src"])
        f["width"] = z3.IntVal(0)
        ex.write(st, lv, Rec(s.cls, f))
        return lv

    def manip_name(self, ex, v):
        if isinstance(v, Fn):
            d = ex.u.decl.get(v.ref)
            return d["name"] if d else ex.extnames.get(v.ref, "?")
        return v.tag[1] if isinstance(v.tag, tuple) else v.tag

    def operator(self, ex, op, args, st, n):
        if not args:
            return NotImplemented
        a = args[0]
        if isinstance(a, LV):
            try:
                v = ex.read(st, a, False)
            except Unsupported:
                return NotImplemented
        else:
            v = a
        o = op[8:]
        if is_stream(v):
            lv = a if isinstance(a, LV) else ex.temp(st, v)
            ats = [ex.etype(x) for x in n["inner"][1:]] if n.get("kind") == "CXXOperatorCallExpr" else [None, None]
            if o == ">>":
                return self.extract(ex, st, lv, args[1], ats[1])
            if o == "<<":
                return self.insert(ex, st, lv, ex.rv(st, args[1]), ats[1])
            if o == "!":
                return z3.Not(self.tobool(ex, st, v))
            if o == "=":
                return NotImplemented
            raise Unsupported("operator %s of a stream" % o)
        if isinstance(v, Rec) and v.cls == "iostate":
            w = [ex.rv(st, x) for x in args]
            if o == "~":
                return Rec("iostate", {b: z3.Not(v.f[b]) for b in BITS})
            if o in ("|", "&"):
                g = z3.Or if o == "|" else z3.And
                return Rec("iostate", {b: g(w[0].f[b], w[1].f[b]) for b in BITS})
        if isinstance(v, z3.ExprRef) and v.sort() == S:
            if o == "[]":
                i = ex.intidx(ex.rv(st, args[1]))
                st.pc.append(LEN(v) >= 0)
                ex.oblige(st, z3.And(i >= 0, i <= LEN(v)), "bounds", "character of a string")
                st.pc.append(z3.And(CHAR(v, i) >= -128, CHAR(v, i) <= 127, LEN(v) >= 0))
                return CHAR(v, i)
            if o == "+":
                return CAT(v, self.strv(ex, st, args[1]))
            if o in ("==", "!="):
                w = self.strv(ex, st, args[1])
                e = v == w
                return e if o == "==" else z3.Not(e)
            if o == "=" and isinstance(a, LV):
                ex.write(st, a, self.strv(ex, st, args[1]))
                return a
        return NotImplemented

    def call(self, ex, name, args, st, n):
        if name == "getline":
            d = ex.conv(st, ex.rv(st, args[2]), ("int", 8, True)) if len(args) > 2 else z3.IntVal(10)
            return self.getline(ex, st, args[0], args[1], d)
        if name == "isspace":
            c = ex.rv(st, args[0])
            return z3.If(SPACE(c), z3.IntVal(1), z3.IntVal(0))
        if name == "setw":
            return Rec("manip", {"width": ex.rv(st, args[0])})
        if name == "setprecision":
            return Rec("manip", {"prec": ex.rv(st, args[0])})
        return NotImplemented

    def method(self, ex, obj, lv, name, args, st, n):
        if is_stream(obj):
            f = dict(obj.f)
            put = lambda: ex.write(st, lv, Rec(obj.cls, f))
            if name in ("operator bool", "operator basic_ios"):
                return self.tobool(ex, st, obj)
            if name == "operator!" or name == "fail":
                return z3.Or(f["fail"], f["bad"])
            if name == "bad":
                return f["bad"]
            if name == "eof":
                return f["eof"]
            if name == "good":
                return z3.Not(z3.Or(f["fail"], f["bad"], f["eof"]))
            if name == "rdstate":
                return Rec("iostate", {b: f[b] for b in BITS})
            if name in ("setstate", "clear"):
                s = ex.rv(st, args[0]) if args else iostate()
                for b in BITS:
                    f[b] = z3.simplify(z3.Or(f[b], s.f[b]) if name == "setstate" else s.f[b])
                put()
                return None
            if name == "str":
                return STR(f["src"])
            if name in ("precision", "width"):
                k = "prec" if name == "precision" else "width"
                old = f[k]
                if args:
                    f[k] = ex.rv(st, args[0])
                    put()
                return old
            if name == "flags":
                if args:
                    x = ex.rv(st, args[0])
                    if not (isinstance(x, Rec) and x.cls == "fmtflags"):
                        raise Unsupported("format flags")
                    f.update(x.f)
                    put()
                return Rec("fmtflags", {q: obj.f[q] for q in ("flt", "adj")})
            if name == "setf":
                v = [ex.rv(st, x) for x in args]
                old = Rec("fmtflags", {q: obj.f[q] for q in ("flt", "adj")})
                if len(v) == 1 and isinstance(v[0], Opaque) and n["inner"][-1].get("kind") == "CXXScalarValueInitExpr":
                    return old
                if len(v) == 1 and isinstance(v[0], z3.ExprRef) and z3.is_int_value(v[0]) and v[0].as_long() == 0:
                    return old
                t = v[0].tag[1] if isinstance(v[0], Opaque) and isinstance(v[0].tag, tuple) and v[0].tag[0] == "flag" else None
                m = v[1].tag[1] if len(v) == 2 and isinstance(v[1], Opaque) and isinstance(v[1].tag, tuple) and v[1].tag[0] == "flag" else None
                if m == "floatfield" and t in FLT:
                    f["flt"] = z3.IntVal(FLT[t])
                elif m == "floatfield" and isinstance(v[0], z3.ExprRef):
                    f["flt"] = v[0]
                elif m == "adjustfield" and t in ADJ:
                    f["adj"] = z3.IntVal(ADJ[t])
                elif len(v) == 1 and t in FLT and z3.is_int_value(f["flt"]) and f["flt"].as_long() in (0, FLT[t]):
                    f["flt"] = z3.IntVal(FLT[t])
                elif len(v) == 1 and t in ADJ and z3.is_int_value(f["adj"]) and f["adj"].as_long() in (0, ADJ[t]):
                    f["adj"] = z3.IntVal(ADJ[t])
                else:
                    raise Unsupported("format flags %s" % [getattr(y, "tag", y) for y in v])
                put()
                return old
            if name in ("close", "flush"):
                return None
            if name in ("operator>>", "operator<<"):
                ats = [ex.etype(x) for x in n["inner"][-1:]]
                if name == "operator>>":
                    return self.extract(ex, st, lv, args[0], ats[0])
                return self.insert(ex, st, lv, ex.rv(st, args[0]), ats[0])
        if isinstance(obj, Rec) and obj.cls == "iostate":
            return NotImplemented
        if isinstance(obj, z3.ExprRef) and obj.sort() == S:
            if name in ("length", "size"):
                st.pc.append(z3.And(LEN(obj) >= 0, LEN(obj) < 2 ** 40, (LEN(obj) == 0) == (obj == ex.strlit(""))))
                return LEN(obj)
            if name == "empty":
                return obj == ex.strlit("")
            if name in ("c_str", "data"):
                return obj
            if name in ("erase", "clear"):
                if name == "clear" or not args:
                    ex.write(st, lv, ex.strlit(""))
                    return lv
                if len(args) == 1:
                    i = ex.intidx(ex.rv(st, args[0]))
                    ex.oblige(st, z3.And(i >= 0, i <= LEN(obj)), "bounds", "position in a string")
                    ex.write(st, lv, PREFIX(obj, i))
                    return lv
            if name == "substr" and len(args) in (1, 2):
                i = ex.intidx(ex.rv(st, args[0]))
                ex.oblige(st, z3.And(i >= 0, i <= LEN(obj)), "bounds", "position in a string")
                if len(args) == 1:
                    return SUFFIX(obj, i)
                if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0:
                    return PREFIX(obj, ex.intidx(ex.rv(st, args[1])))
            if name == "find" and len(args) == 1:
                c = ex.rv(st, args[0])
                if isinstance(c, z3.ExprRef) and c.sort() == Int:
                    r = FIND(obj, c)
                    st.pc.append(z3.Or(r == NPOS, z3.And(r >= 0, r < LEN(obj))))
                    return r
                return FINDS(obj, self.strv(ex, st, args[0]))
            if name == "compare" and len(args) in (1, 3):
                a, t = obj, self.strv(ex, st, args[-1])
                if len(args) == 3:
                    i, n = ex.intidx(ex.rv(st, args[0])), ex.intidx(ex.rv(st, args[1]))
                    if not (z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0):
                        raise Unsupported("comparison of a part of a string")
                    a = z3.If(n >= LEN(obj), obj, PREFIX(obj, n))
                c = ex.fconst(Int, "comparison")
                st.pc.append((c == 0) == (a == t))
                return c
            if name == "operator=":
                ex.write(st, lv, self.strv(ex, st, args[0]))
                return lv
            if name == "operator[]":
                i = ex.intidx(ex.rv(st, args[0]))
                st.pc.append(LEN(obj) >= 0)
                ex.oblige(st, z3.And(i >= 0, i <= LEN(obj)), "bounds", "character of a string")
                st.pc.append(z3.And(CHAR(obj, i) >= -128, CHAR(obj, i) <= 127, LEN(obj) >= 0))
                return CHAR(obj, i)
        return NotImplemented
