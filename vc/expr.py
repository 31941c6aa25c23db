"""Expression evaluation (mixed into Exec)."""
import z3
from fractions import Fraction
from terms import *
from values import *
from front import ty
from exec import Exec, tparse, Exit, Frame, rettype, WRAP, unwrap, norm_name, INTS, strip_cv
import lib

TRANSPARENT = {"ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
               "FullExpr", "CXXRewrittenBinaryOperator"}


class Verifier(Exec):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.pending_facts = []
        self._lifted = set()
        self.leaf_int_type = {}
        self.extnames = {}

    # ------------------------------------------------------------ helpers
    def ev(self, n, st):
        k = n["kind"]
        if k in TRANSPARENT:
            return self.ev([c for c in n["inner"] if c][-1], st)
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(n, st)

    def val(self, n, st):
        return self.rv(st, self.ev(n, st))

    def etype(self, n):
        return tparse(ty(n))

    # ------------------------------------------------------------ literals
    def e_IntegerLiteral(self, n, st):
        t = self.etype(n)
        v = int(n["value"])
        return self.intval(v, t)

    def intval(self, v, t):
        if self.is_bv(t):
            return z3.BitVecVal(v, t[1])
        return z3.IntVal(v)

    def e_FloatingLiteral(self, n, st):
        # the decimal constant as written (real arithmetic is exact, see DESIGN.md)
        return real_const(float(n["value"]))

    def e_CXXBoolLiteralExpr(self, n, st):
        return z3.BoolVal(bool(n["value"]))

    def e_CharacterLiteral(self, n, st):
        return z3.IntVal(n["value"])

    def e_StringLiteral(self, n, st):
        return Opaque(("lit", eval_cstring(n["value"])))

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return NULL

    def e_GNUNullExpr(self, n, st):
        return NULL

    def e_CXXThisExpr(self, n, st):
        return Ptr(self.frames[-1].this)

    def e_PredefinedExpr(self, n, st):
        return Opaque("__func__")

    # ------------------------------------------------------------ names
    def e_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        env = self.frames[-1].env
        if d["id"] in env:
            return env[d["id"]]
        k = d["kind"]
        if k in ("VarDecl",):
            return self.globalvar(d, st)
        if k in ("FunctionDecl", "CXXMethodDecl"):
            self.extnames[d["id"]] = d["name"]
            return Fn(d["id"])
        if k == "EnumConstantDecl":
            return self.enumval(d)
        if k == "NonTypeTemplateParmDecl":
            raise Unsupported("template parameter")
        if k == "ParmVarDecl":
            raise Unsupported("parameter out of scope " + d.get("name", ""))
        raise Unsupported("reference to " + k + " " + d.get("name", ""))

    def enumval(self, d):
        node = self.u.decl.get(d["id"])
        if node is None:
            lv = lib.enum_constant(d)
            if lv is not None:
                return lv
            raise Unsupported("enumerator " + d.get("name", "?"))
        en = self.u.parent[node["id"]]
        v = -1
        for c in en.get("inner", ()):
            if c.get("kind") == "EnumConstantDecl":
                init = [x for x in c.get("inner", ()) if x.get("kind") == "ConstantExpr"]
                v = int(init[0]["value"]) if init else v + 1
                if c["id"] == node["id"] or c["name"] == node["name"] and c is node:
                    return z3.IntVal(v)
        raise Unsupported("enumerator")

    def globalvar(self, d, st):
        key = ("global", d["id"])
        if key in self.static_cells:
            c = self.static_cells[key]
            if c in st.store:
                return LV(c)
        node = self.u.vardefs.get(d["id"]) or self.u.decl.get(d["id"])
        if node is None:
            k = getattr(self.u, "extconst", {}).get(d["id"])
            if k is not None:
                return z3.IntVal(k)
            h = self.hooks.get("extern_var")
            if h:
                r = h(self, d, st)
                if r is not None:
                    return r
            raise Unsupported("external variable " + d.get("name", "?"))
        key = ("global", node["id"])
        if key in self.static_cells and self.static_cells[key] in st.store:
            return LV(self.static_cells[key])
        t = tparse(ty(node))
        if "const" not in node["type"]["qualType"] and not node.get("constexpr"):
            raise Unsupported("mutable global " + node.get("name", "?"))
        init = [c for c in node.get("inner", ()) if c.get("kind") and not c["kind"].endswith(("Attr", "Comment")) and c["kind"] != "TemplateArgument"]
        if not init:
            raise Unsupported("constant without initialiser " + node.get("name", "?"))
        g = self.hooks.get("global_const")
        v = g(self, self.u.qname(node), node, st) if g else None
        if v is None:
            v = self.rv(st, self.ev(init[-1], st))
            v = self.coerce(st, v, t)
        cell = "global." + node.get("name", "g") + "#" + node["id"][-6:]
        self.static_cells[key] = cell
        st.store[cell] = v
        return LV(cell)

    def e_MemberExpr(self, n, st):
        base = n["inner"][0]
        mid = n.get("referencedMemberDecl")
        md = self.u.decl.get(mid)
        b = self.ev(base, st)
        if md is not None and md["kind"] == "VarDecl":
            return self.globalvar(md, st)
        if md is not None and md["kind"] == "CXXMethodDecl":
            return ("method", b, mid)
        if n.get("isArrow"):
            p = self.rv(st, b)
            b = self.lv_of_ptr(p)
        name = n.get("name")
        if isinstance(b, LV):
            # reference members hold locations
            cur = value_at(st.store[b.cell], b.path) if not any(a[0] == "i" for a in b.path) else self.read(st, b, False)
            if isinstance(cur, Rec):
                if name not in cur.f:
                    raise Unsupported("member %s" % name)
                x = cur.f[name]
                if isinstance(x, LV):
                    return x
                return b.fld(name)
            h = self.hooks.get("member")
            if h:
                r = h(self, b, cur, name, st)
                if r is not None:
                    return r
            raise Unsupported("member %s of %s" % (name, type(cur).__name__))
        if isinstance(b, Rec):
            return b.f[name]
        raise Unsupported("member access")

    # ------------------------------------------------------------ arrays, pointers
    def e_ArraySubscriptExpr(self, n, st):
        a, i = n["inner"]
        p = self.rv(st, self.ev(a, st))
        i = self.intidx(self.rv(st, self.ev(i, st)))
        return self.subscript(st, p, i)

    def intidx(self, i):
        if isinstance(i.sort(), z3.BitVecSortRef):
            c = concrete(z3.simplify(i))
            if c is not None:
                return z3.IntVal(c)
            y = self.exact_bv.get(i.get_id())
            if y is not None and y[0].eq(i):
                return y[1]
            return z3.BV2Int(i)
        return i

    def subscript(self, st, p, i):
        if isinstance(p, Ptr):
            return self.lv_of_ptr(p, i)
        if isinstance(p, Seq):
            return self.temp(st, p).idx(z3.simplify(i))
        raise Unsupported("subscript of %s" % type(p).__name__)

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        sub = n["inner"][0]
        if op == "&":
            v = self.ev(sub, st)
            return self.addr(v)
        if op == "*":
            p = self.rv(st, self.ev(sub, st))
            return self.lv_of_ptr(p, z3.IntVal(0) if isinstance(p, Ptr) and p.off is not None else None)
        if op in ("++", "--"):
            lv = self.ev(sub, st)
            old = self.read(st, lv)
            t = self.etype(sub)
            one = 1 if op == "++" else -1
            if isinstance(old, Ptr):
                new = Ptr(old.lv, z3.simplify(old.off + one))
            elif old.sort() == Real:
                new = old + one
            else:
                new = self.arith("+" if one == 1 else "-", old, self.intval(1, t), t, st)
            self.write(st, lv, new)
            return old if n.get("isPostfix") else lv
        v = self.val(sub, st)
        if op == "!":
            return mknot(self.tobool(st, v))
        if op == "-":
            if v.sort() == Real:
                return -v
            t = self.etype(n)
            return self.arith("-", self.intval(0, t), v, t, st)
        if op == "+":
            return v
        if op == "~":
            t = self.etype(n)
            if isinstance(v.sort(), z3.BitVecSortRef):
                return ~v
            c = concrete(v)
            if c is not None:
                return z3.IntVal((~c) & (2 ** t[1] - 1) if not t[2] else ~c)
            if t[2]:
                return -v - 1
            return 2 ** t[1] - 1 - v
        raise Unsupported("operator " + op)

    def addr(self, v):
        if isinstance(v, LV):
            if v.path and v.path[-1][0] == "i":
                return Ptr(LV(v.cell, v.path[:-1]), v.path[-1][1])
            h = self.hooks.get("addr")
            if h:
                r = h(self, v)
                if r is not None:
                    return r
            return Ptr(v)
        if isinstance(v, Fn):
            return v
        raise Unsupported("address of a value")

    # ------------------------------------------------------------ arithmetic
    def wrapterm(self, r, t):
        return WRAP[(t[1], t[2])](r)

    def arith(self, op, a, b, t, st):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b)
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            raise Unsupported("arithmetic on %s" % type(a).__name__)
        if t[0] == "real":
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
        if isinstance(a.sort(), z3.BitVecSortRef) or isinstance(b.sort(), z3.BitVecSortRef):
            w = a.sort().size() if isinstance(a.sort(), z3.BitVecSortRef) else b.sort().size()
            if op in ("<<", ">>"):
                sh = concrete(b)
                if not isinstance(a.sort(), z3.BitVecSortRef):
                    a = self.tobv(a, t[1])
                    w = t[1]
                if sh is None:
                    b = self.tobv(b, w)
                else:
                    b = z3.BitVecVal(sh, w)
                return a << b if op == "<<" else (z3.LShR(a, b) if not t[2] else a >> b)
            a, b = self.tobv(a, w), self.tobv(b, w)
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: z3.UDiv(a, b) if not t[2] else a / b,
                 "%": lambda: z3.URem(a, b) if not t[2] else z3.SRem(a, b), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}
            return f[op]()
        ca, cb = concrete(a), concrete(b)
        bits, signed = t[1], t[2]
        lo, hi = self.int_range(t)
        if op in ("&", "|", "^", "<<", ">>"):
            if ca is not None and cb is not None:
                r = {"&": lambda: ca & cb, "|": lambda: ca | cb, "^": lambda: ca ^ cb, "<<": lambda: ca << cb, ">>": lambda: ca >> cb}[op]()
                if not signed:
                    r &= 2 ** bits - 1
                return z3.IntVal(r)
            if op == ">>" and cb is not None:
                return a / (2 ** cb)
            if op == "<<" and cb is not None:
                r = a * 2 ** cb
                return self.fit(r, t, st)
            if op == "&" and cb is not None and (cb & (cb + 1)) == 0:
                return a % (cb + 1)
            if op == "&" and ca is not None and (ca & (ca + 1)) == 0:
                return b % (ca + 1)
            h = self.hooks.get("bitop")
            if h:
                return h(self, op, a, b, t)
            raise Unsupported("bit operation on mathematical integers")
        if op == "/":
            if ca is not None and cb:
                q = abs(ca) // abs(cb)
                return z3.IntVal(q if (ca < 0) == (cb < 0) else -q)
            if signed:
                q = ite(mkor(mkand(a >= 0, b > 0)), a / b, ite(mkand(a < 0, b > 0), -((-a) / b), ite(a >= 0, -(a / (-b)), (-a) / (-b))))
                return z3.simplify(q)
            return a / b
        if op == "%":
            if ca is not None and cb:
                return z3.IntVal(ca % cb if ca >= 0 else -((-ca) % cb))
            if signed:
                return ite(a >= 0, a % b, -((-a) % b))
            return a % b
        r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
        return self.fit(r, t, st)

    def fit(self, r, t, st):
        """reduce an exact integer result to its machine type"""
        lo, hi = self.int_range(t)
        r = z3.simplify(r)
        if t[1] == 64 and t[2]:
            return r                    # signed 64 bit arithmetic is treated as mathematical
        c = concrete(r)
        if c is not None:
            if lo <= c <= hi:
                return r
            c &= 2 ** t[1] - 1
            if t[2] and c > hi:
                c -= 2 ** t[1]
            return z3.IntVal(c)
        if self.dry:
            return self.wrapterm(r, t)
        if self.provable(st, z3.And(r >= lo, r <= hi)):
            return r
        return self.wrapterm(r, t)

    def tobv(self, a, w):
        if isinstance(a.sort(), z3.BitVecSortRef):
            s = a.sort().size()
            if s == w:
                return a
            if s < w:
                return z3.ZeroExt(w - s, a)
            return z3.Extract(w - 1, 0, a)
        c = concrete(a)
        if c is not None:
            return z3.BitVecVal(c, w)
        return z3.Int2BV(a, w)

    def ptr_arith(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, z3.ExprRef):
            if a.off is None:
                raise Unsupported("pointer arithmetic on an object")
            return Ptr(a.lv, z3.simplify(a.off + b if op == "+" else a.off - b))
        if isinstance(b, Ptr) and isinstance(a, z3.ExprRef) and op == "+":
            return Ptr(b.lv, z3.simplify(b.off + a))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-" and a.lv.same(b.lv):
            return z3.simplify(a.off - b.off)
        raise Unsupported("pointer arithmetic")

    def compare(self, op, a, b, st):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.same(b.lv):
                if a.off is None:
                    return z3.BoolVal(op in ("==", "<=", ">="))
                a, b = a.off, b.off
            elif (a is NULL or b is NULL) and op in ("==", "!="):
                return z3.BoolVal(op == "!=")
            else:
                raise Unsupported("comparison of unrelated pointers")
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            raise Unsupported("comparison of %s" % type(a).__name__)
        if a.sort() != b.sort():
            if isinstance(a.sort(), z3.BitVecSortRef) or isinstance(b.sort(), z3.BitVecSortRef):
                w = max(x.sort().size() for x in (a, b) if isinstance(x.sort(), z3.BitVecSortRef))
                a, b = self.tobv(a, w), self.tobv(b, w)
            elif Bool in (a.sort(), b.sort()):
                a = a if a.sort() != Bool else ite(a, z3.IntVal(1), z3.IntVal(0))
                b = b if b.sort() != Bool else ite(b, z3.IntVal(1), z3.IntVal(0))
        if op == "==":
            return a == b
        if op == "!=":
            return mknot(a == b)
        if isinstance(a.sort(), z3.BitVecSortRef):
            return {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE}[op](a, b)
        if a.sort() == Bool:
            a = ite(a, z3.IntVal(1), z3.IntVal(0))
            b = ite(b, z3.IntVal(1), z3.IntVal(0))
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "=":
            v = self.rv(st, self.ev(r, st))
            lv = self.ev(l, st)
            self.write(st, lv, v)
            return lv
        if op == ",":
            self.ev(l, st)
            return self.ev(r, st)
        if op in ("&&", "||"):
            a = self.cond(l, st)
            b, a = self.decide(st, a)
            if b is not None:
                if (op == "&&") == b:
                    return self.cond(r, st)
                return z3.BoolVal(b)
            return self.shortcut(op, a, r, st)
        a = self.val(l, st)
        b = self.val(r, st)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b, st)
        return self.arith(op, a, b, self.etype(n), st)

    def shortcut(self, op, a, r, st):
        s1 = st.fork()
        g = a if op == "&&" else mknot(a)
        s1.pc.append(g)
        b = self.cond(r, s1)
        s2 = st.fork()
        s2.pc.append(mknot(g))
        m = self.merge2(s1, s2)
        st.become(m)
        return mkand(a, b) if op == "&&" else mkor(a, b)

    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        b = self.val(r, st)
        lv = self.ev(l, st)
        a = self.read(st, lv)
        ct = tparse(n.get("computeResultType", {}).get("desugaredQualType") or n.get("computeResultType", {}).get("qualType", "") or ty(n))
        lt = self.etype(l)
        if isinstance(a, Ptr):
            v = self.ptr_arith(op, a, b)
        else:
            a2 = self.conv(st, a, ct)
            b2 = self.conv(st, b, ct) if op not in ("<<", ">>") else b
            v = self.conv(st, self.arith(op, a2, b2, ct, st), lt)
        self.write(st, lv, v)
        return lv

    def conv(self, st, v, t):
        """implicit conversion between arithmetic types"""
        if not isinstance(v, z3.ExprRef):
            return v
        if isinstance(t, z3.SortRef):
            if t == Int and isinstance(v.sort(), z3.BitVecSortRef):
                return self.intidx(v)
            if isinstance(t, z3.BitVecSortRef):
                return self.tobv(v, t.size())
            return v
        s = v.sort()
        if t[0] == "real":
            if s == Real:
                return v
            if s == Bool:
                return ite(v, z3.RealVal(1), z3.RealVal(0))
            if s == Int:
                c = concrete(v)
                return z3.RealVal(c) if c is not None else z3.ToReal(v)
            if isinstance(s, z3.BitVecSortRef):
                h = self.hooks.get("bv2real")
                return h(self, v) if h else z3.ToReal(z3.BV2Int(v))
        if t[0] == "int":
            if self.is_bv(t):
                if s == Bool:
                    return ite(v, z3.BitVecVal(1, t[1]), z3.BitVecVal(0, t[1]))
                b = self.tobv(v, t[1])
                if s == Int and not z3.is_bv_value(b) and not self.dry and self.provable(st, z3.And(v >= 0, v < 2 ** t[1])):
                    self.exact_bv[b.get_id()] = (b, v)
                return b
            if isinstance(s, z3.BitVecSortRef):
                v = self.intidx(v)
                s = Int
            if s == Bool:
                return ite(v, z3.IntVal(1), z3.IntVal(0))
            if s == Real:
                return self.real2int(st, v, t)
            if s == Int:
                return self.fit(v, t, st)
        if t[0] == "bool":
            return self.tobool(st, v)
        return v

    def real2int(self, st, v, t):
        v = z3.simplify(v)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return self.fit(v.arg(0), t, st)
        # truncation towards zero
        r = ite(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if self.hooks.get("real2int"):
            return self.hooks["real2int"](self, st, v, t)
        return self.fit(r, t, st)

    def e_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        cv = self.cond(c, st)
        d, cv = self.decide(st, cv)
        if d is not None:
            return self.ev(a if d else b, st)
        if not self.dry and self.provable(st, cv, 150):
            return self.ev(a, st)
        s1, s2 = st.fork(), st.fork()
        s1.pc.append(cv)
        s2.pc.append(mknot(cv))
        nt = len(self.frames[-1].throws)
        va = self.ev(a, s1)
        vb = self.ev(b, s2)
        if isinstance(va, LV) and isinstance(vb, LV):
            if va.same(vb):
                res = va
            else:
                res = None
                va, vb = self.read(s1, va), self.read(s2, vb)
        elif isinstance(va, LV):
            va = self.read(s1, va)
        elif isinstance(vb, LV):
            vb = self.read(s2, vb)
        da, db = self.dead(s1) or va is None, self.dead(s2) or vb is None
        if da and not db:
            st.become(s2)
            return vb
        if db and not da:
            st.become(s1)
            return va
        m = self.merge2(s1, s2)
        st.become(m)
        if isinstance(va, LV):
            return va
        lit = lambda x: isinstance(x, Opaque) and isinstance(x.tag, tuple) and x.tag[0] == "lit"
        if lit(va) and lit(vb) and va.tag != vb.tag:
            va, vb = self.strlit(va.tag[1]), self.strlit(vb.tag[1])
        return merge_values(cv, va, vb)

    # ------------------------------------------------------------ casts
    def e_ImplicitCastExpr(self, n, st):
        return self.cast(n, st)

    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, n, st):
        ck = n.get("castKind")
        sub = [c for c in n["inner"] if c][-1]
        if ck == "LValueToRValue":
            v = self.ev(sub, st)
            return self.rv(st, v)
        if ck in ("NoOp", "FunctionToPointerDecay", "ConstructorConversion", "BuiltinFnToFnPtr", "DerivedToBase", "UncheckedDerivedToBase",
                  "BaseToDerived", "UserDefinedConversion"):
            return self.ev(sub, st)
        if ck == "ArrayToPointerDecay":
            v = self.ev(sub, st)
            if isinstance(v, LV):
                return Ptr(v, z3.IntVal(0))
            return v
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "IntegralToBoolean", "FloatingToBoolean", "FloatingCast", "BooleanToSignedIntegral"):
            v = self.rv(st, self.ev(sub, st))
            if ck == "IntegralCast" and isinstance(v, z3.ExprRef) and v.sort() == Int:
                # a value of a narrower unsigned type fits
                f, t = self.etype(sub), self.etype(n)
                if f[0] == t[0] == "int" and not f[2] and t[1] > f[1] and not self.is_bv(t):
                    return v
            return self.conv(st, v, self.etype(n))
        if ck == "PointerToBoolean":
            return self.tobool(st, self.rv(st, self.ev(sub, st)))
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            self.ev(sub, st)
            return None
        if ck == "BitCast":
            return self.ev(sub, st)
        raise Unsupported("cast " + str(ck))

    def e_MaterializeTemporaryExpr(self, n, st):
        v = self.ev(n["inner"][0], st)
        if isinstance(v, LV):
            return v
        return self.temp(st, v)

    def e_CXXDefaultArgExpr(self, n, st):
        raise Unsupported("default argument without context")

    def e_CXXDefaultInitExpr(self, n, st):
        inner = [c for c in n.get("inner", ()) if c]
        if inner:
            return self.ev(inner[0], st)
        raise Unsupported("default member initialiser")

    def e_ImplicitValueInitExpr(self, n, st):
        return self.zero(self.etype(n))

    def e_CXXScalarValueInitExpr(self, n, st):
        return self.zero(self.etype(n))

    def e_InitListExpr(self, n, st):
        t = self.etype(n)
        items = [c for c in n.get("inner", ()) if c]
        if n.get("array_filler"):
            items = [c for c in n["array_filler"] if c.get("kind") != "ImplicitValueInitExpr"]
        if t[0] == "arr":
            vals = [self.rv(st, self.ev(c, st)) for c in items]
            size = t[2] if t[2] is not None else len(vals)
            s = self.zero(("arr", t[1], size))
            d = s.data
            for i, v in enumerate(vals):
                d = setindex(d, z3.IntVal(i), v)
            return Seq(t[1], z3.IntVal(size), d, "raw")
        if t[0] == "rec":
            r = self.record(t[1])
            f = {}
            fl = self.fields(r)
            for fd, c in zip(fl, items):
                f[fd["name"]] = self.rv(st, self.ev(c, st))
            for fd in fl[len(items):]:
                f[fd["name"]] = self.zero(tparse(ty(fd)))
            return Rec(t[1], f)
        if t[0] == "seq":
            return self.zero(t)
        if len(items) == 1:
            return self.ev(items[0], st)
        raise Unsupported("initialiser list")

    def e_CXXStdInitializerListExpr(self, n, st):
        v = self.rv(st, self.ev(n["inner"][0], st))
        if isinstance(v, Seq):
            return Seq(v.elt, v.size, v.data, "il")
        return v

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get("name") == "sizeof":
            t = n.get("argType", {})
            q = t.get("desugaredQualType") or t.get("qualType") or ty(n["inner"][0])
            s = {"double": 8, "unsigned int": 4, "int": 4, "unsigned long": 8, "long": 8, "char": 1, "bool": 1, "float": 4}
            if strip_cv(q) in s:
                return z3.IntVal(s[strip_cv(q)])
        raise Unsupported("sizeof")

    # ------------------------------------------------------------ exceptions, heap
    def e_CXXThrowExpr(self, n, st):
        inner = [c for c in n.get("inner", ()) if c]
        if inner:
            v = self.rv(st, self.ev(inner[0], st))
            if not isinstance(v, Rec):
                t = self.etype(inner[0])
                v = Rec(t[1].split("::")[-1] if t[0] == "rec" else str(t), {})
        else:
            v = self.exc_stack[-1]
        self.throw(st, v)
        return None

    def throw(self, st, v):
        s = st.fork()
        self.frames[-1].throws.append(Exit("throw", s, v))
        st.pc.append(z3.BoolVal(False))

    def maythrow(self, st, c, v):
        """throw v if condition c holds; continue otherwise"""
        b, c = self.decide(st, c)
        if b is False:
            return
        s = st.fork()
        s.pc.append(c)
        self.frames[-1].throws.append(Exit("throw", s, v))
        st.pc.append(mknot(c))

    def e_CXXNewExpr(self, n, st):
        h = self.hooks.get("new")
        if h:
            r = h(self, n, st)
            if r is not NotImplemented:
                return r
        e = [c for c in n.get("inner", ()) if c]
        if n.get("isArray") or not e:
            raise Unsupported("new")
        return Ptr(self.temp(st, self.rv(st, self.ev(e[-1], st)), "heap"))

    def e_CXXDeleteExpr(self, n, st):
        h = self.hooks.get("delete")
        if not h:
            raise Unsupported("delete")
        return h(self, n, st)

    # ------------------------------------------------------------ lambdas
    def e_LambdaExpr(self, n, st):
        rec = n["inner"][0]
        inits = [c for c in n["inner"][1:] if c.get("kind") and c["kind"] != "CompoundStmt"]
        flds = [c for c in rec["inner"] if c.get("kind") == "FieldDecl"]
        meth = [c for c in rec["inner"] if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"]
        env = dict(self.frames[-1].env)
        this = self.frames[-1].this
        for f, i in zip(flds, inits):
            t = tparse(ty(f))
            x = i
            while x["kind"] != "DeclRefExpr":
                if x["kind"] == "CXXThisExpr":
                    break
                x = [c for c in x["inner"] if c][-1]
            if x["kind"] == "CXXThisExpr":
                continue
            did = x["referencedDecl"]["id"]
            if t[0] == "ref":
                continue
            v = self.rv(st, self.ev(i, st))
            env[did] = self.temp(st, v, "cap")
        return Closure(n, env, this, meth[0])

    # ------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, n, st):
        t = self.etype(n)
        args = [c for c in n.get("inner", ()) if c]
        return self.construct(t, n.get("ctorType", {}).get("qualType", ""), args, st, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, t, ctype, argn, st, n):
        if t[0] == "rec":
            r = self.record(t[1])
            h = lib.ctor_hook(self, t, argn, st, n)
            if h is not NotImplemented:
                return h
            if r is not None:
                return self.construct_rec(t, r, ctype, argn, st, n)
        return lib.construct(self, t, ctype, argn, st, n)

    def ctor_of(self, r, ctype, nargs):
        best = None
        cands = []
        for c in r.get("inner", ()):
            cs = [c]
            if c.get("kind") == "FunctionTemplateDecl":
                cs = c.get("inner", ())
            for d in cs:
                if d.get("kind") == "CXXConstructorDecl":
                    cands.append(d)
        def canon(s):
            return norm_name(s.replace(" noexcept(false)", "").replace(" noexcept", ""))
        for d in cands:
            for key in ("desugaredQualType", "qualType"):
                q = d["type"].get(key)
                if q and canon(q) == canon(ctype):
                    return d
        c2 = [d for d in cands if len(self.u.params(d)) == nargs and not d.get("isImplicit")]
        if len(c2) == 1:
            return c2[0]
        return best

    def construct_rec(self, t, r, ctype, argn, st, n):
        d = self.ctor_of(r, ctype, len(argn))
        # copy / move construction of plain data
        if len(argn) == 1:
            at = self.etype(argn[0])
            while at[0] == "ref":
                at = at[1]
            iscopy = at[0] == "rec" and self.record(at[1]) is r
            if iscopy:
                fn = d and self.u.defs.get(d["id"])
                if fn is None or fn.get("isImplicit") or fn.get("explicitlyDefaulted"):
                    return self.rv(st, self.ev(argn[0], st))
        if d is None:
            raise Unsupported("constructor of " + t[1] + " " + ctype)
        fn = self.u.defs.get(d["id"])
        if fn is None:
            c = self.contracts.get(self.u.qname(d))
            if c:
                self.calls.add(self.u.qname(d))
                return c(self, st, d, [self.ev(a, st) for a in argn], None)
            if d.get("isImplicit") or d.get("explicitlyDefaulted") or not argn:
                if not argn:
                    return self.default_rec(t, r, st)
            raise Unsupported("constructor without body " + t[1])
        q = self.u.qname(fn)
        self.calls.add(q)
        c = self.contracts.get(q) or self.contracts.get(norm_name(q))
        if c:
            return c(self, st, fn, [self.ev(a, st) for a in argn if a["kind"] != "CXXDefaultArgExpr"], None)
        this = self.temp(st, self.blank(t, r), "obj")
        args = self.eval_args(fn, argn, st)
        self.invoke(fn, args, this, st)
        if self.dead(st):
            return None
        return self.read(st, this, False)

    def blank(self, t, r):
        return Rec(t[1], {fd["name"]: None for fd in self.fields(r)})

    def default_rec(self, t, r, st):
        f = {}
        for fd in self.fields(r):
            f[fd["name"]] = self.default_member(fd, st)
        return Rec(t[1], f)

    def default_member(self, fd, st):
        init = [c for c in fd.get("inner", ()) if c.get("kind") and not c["kind"].endswith(("Comment", "Attr"))]
        if fd.get("hasInClassInitializer") and init:
            return self.rv(st, self.ev(init[-1], st))
        ft = tparse(ty(fd))
        if ft[0] == "rec":
            r2 = self.record(ft[1])
            if r2 is not None:
                d = self.ctor_of(r2, "void ()", 0)
                fn = d and self.u.defs.get(d["id"])
                if fn is not None and not fn.get("explicitlyDefaulted"):
                    this = self.temp(st, self.blank(ft, r2), "obj")
                    self.invoke(fn, self.eval_args(fn, [], st), this, st)
                    return self.read(st, this, False)
                return self.default_rec(ft, r2, st)
        if ft[0] == "seq":
            return self.zero(ft)
        return lib.default_value(self, ft, st)

    # ------------------------------------------------------------ calls
    def eval_args(self, fn, argn, st):
        ps = self.u.params(fn)
        out = []
        for i, p in enumerate(ps):
            if i < len(argn) and argn[i]["kind"] != "CXXDefaultArgExpr":
                out.append(self.ev(argn[i], st))
            else:
                out.append(self.default_arg(fn, i, st))
        if len(argn) > len(ps):
            raise Unsupported("variadic call")
        return out

    def default_arg(self, fn, i, st):
        cands = [fn]
        p = fn.get("previousDecl")
        while p:
            d = self.u.decl.get(p)
            if d is None:
                break
            cands.append(d)
            p = d.get("previousDecl")
        # template patterns carry the default
        for c in list(cands):
            par = self.u.parent.get(c["id"])
            if par is not None and par["kind"] == "FunctionTemplateDecl":
                cands += [x for x in par["inner"] if x.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl")]
        for c in cands:
            ps = self.u.params(c)
            if i < len(ps):
                init = [x for x in ps[i].get("inner", ()) if x.get("kind") and not x["kind"].endswith(("Comment", "Attr"))]
                if init:
                    fr = Frame(c, {}, self.frames[-1].this if self.frames else None)
                    fr.ret_ref = False
                    self.frames.append(fr)
                    try:
                        return self.ev(init[-1], st)
                    finally:
                        self.frames.pop()
        raise Unsupported("default argument of " + fn.get("name", "?"))

    def bind(self, fn, args, st):
        env = {}
        for p, a in zip(self.u.params(fn), args):
            t = tparse(ty(p))
            if t[0] == "ref":
                if isinstance(a, (LV, Fn)):
                    env[p["id"]] = a
                else:
                    env[p["id"]] = self.temp(st, a, p.get("name", "arg"))
            else:
                v = self.rv(st, a)
                env[p["id"]] = self.temp(st, v, p.get("name", "arg"))
        return env

    depth = 0

    def invoke(self, fn, args, this, st, closure_env=None):
        """inline a function body"""
        body = self.u.body(fn)
        if body is None:
            raise Unsupported("function without body " + fn.get("name", "?"))
        if sum(1 for f in self.frames if f.fn is fn) >= 3:
            raise Unsupported("recursion in " + fn.get("name", "?"))
        env = dict(closure_env) if closure_env else {}
        env.update(self.bind(fn, args, st))
        fr = Frame(fn, env, this)
        fr.ret_ref = rettype(fn).endswith("&")
        self.frames.append(fr)
        try:
            if fn["kind"] == "CXXConstructorDecl":
                self.ctor_inits(fn, this, st)
            ex0 = self.take_throws()
            if self.dead(st):
                cur, exits = None, []
            else:
                cur, exits = self.stmt(body, st.fork())
            exits = ex0 + exits + self.take_throws()
        finally:
            self.frames.pop()
        rets = [x for x in exits if x.kind == "return"]
        if cur is not None:
            rets.append(Exit("return", cur, None))
        thr = [x for x in exits if x.kind == "throw"]
        if self.frames:
            self.frames[-1].throws += thr
        else:
            self.top_throws = thr
        if not rets:
            st.pc.append(z3.BoolVal(False))
            return None
        e = self.merge_exits(rets)
        st.become(e.st)
        return e.val

    def ctor_inits(self, fn, this, st):
        inits = [c for c in fn.get("inner", ()) if c.get("kind") == "CXXCtorInitializer"]
        rec = self.u.semantic_parent(fn)
        done = set()
        for i in inits:
            a = i.get("anyInit")
            e = [c for c in i.get("inner", ()) if c]
            if a is None:
                # base or delegating initialiser
                if "delegatingInit" in i:
                    v = self.rv(st, self.ev(e[0], st))
                    self.write(st, this, v, False)
                    done |= set(v.f)
                    continue
                continue
            fd = self.u.decl.get(a["id"], a)
            ft = tparse(ty(fd))
            if e and e[0]["kind"] == "CXXDefaultInitExpr":
                v = self.default_member(fd, st) if not [c for c in e[0].get("inner", ()) if c] else self.ev(e[0], st)
            elif e:
                v = self.ev(e[0], st)
            else:
                v = self.default_member(fd, st)
            if ft[0] == "ref":
                if not isinstance(v, LV):
                    v = v if isinstance(v, (Opaque, Closure, Fn)) else self.temp(st, v)
            else:
                v = self.rv(st, v)
            cur = self.read(st, this, False)
            f = dict(cur.f)
            f[a["name"]] = v
            self.write(st, this, Rec(cur.cls, f), False)
            done.add(a["name"])
        cur = self.read(st, this, False)
        f = dict(cur.f)
        for fd in self.fields(rec):
            if f.get(fd["name"]) is None:
                f[fd["name"]] = self.default_member(fd, st)
        self.write(st, this, Rec(cur.cls, f), False)

    def call_fn(self, fid, argn, this, st, n, args=None, name=None):
        """call of a function declaration id with argument expressions"""
        fn = self.u.defs.get(fid)
        d = fn or self.u.decl.get(fid)
        if d is not None:
            q = self.u.qname(d)
            c = self.contracts.get(q) or self.contracts.get(norm_name(q))
            if c:
                a = args if args is not None else self.eval_args(d, argn, st)
                self.calls.add(q)
                return c(self, st, d, a, this)
        if fn is not None:
            a = args if args is not None else self.eval_args(fn, argn, st)
            self.calls.add(self.u.qname(fn))
            return self.invoke(fn, a, this, st)
        a = args if args is not None else [self.ev(x, st) for x in argn if x["kind"] != "CXXDefaultArgExpr"]
        return lib.call(self, name or (d or {}).get("name"), a, this, st, n)

    def e_CallExpr(self, n, st):
        callee, argn = n["inner"][0], n["inner"][1:]
        x = callee
        while x["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            x = x["inner"][0]
        if x["kind"] == "DeclRefExpr":
            d = x["referencedDecl"]
            if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return self.call_fn(d["id"], argn, None, st, n, name=d["name"])
        f = self.rv(st, self.ev(callee, st)) if True else None
        return self.call_value(f, [self.ev(a, st) for a in argn], st, n)

    def call_value(self, f, args, st, n=None):
        if isinstance(f, LV):
            f = self.read(st, f)
        if isinstance(f, Fn):
            if callable(f.ref):
                return f.ref(self, st, args)
            return self.call_fn(f.ref, None, None, st, n, args=args, name=self.u.decl.get(f.ref, {}).get("name") or self.extnames.get(f.ref))
        if isinstance(f, Closure):
            fn = f.method
            if self.u.body(fn) is None:
                raise Unsupported("generic lambda")
            return self.invoke(fn, args, f.this, st, f.env)
        if isinstance(f, Rec) or isinstance(f, Opaque):
            return self.call_object(f, "operator()", args, st, n)
        raise Unsupported("call of %s" % type(f).__name__)

    def call_object(self, obj, name, args, st, n=None, lv=None, mid=None):
        cls = obj.cls if isinstance(obj, Rec) else getattr(obj, "tag", None)
        h = None
        if isinstance(cls, str):
            h = self.opaque.get(cls) or self.opaque.get(norm_name(cls))
        if h and name in h:
            return h[name](self, st, args, lv if lv is not None else obj)
        if isinstance(obj, Rec):
            r = self.record(cls)
            if r is not None:
                for c in r["inner"]:
                    if c.get("kind") == "CXXMethodDecl" and c.get("name") == name and len(self.u.params(c)) == len(args):
                        this = lv if lv is not None else self.temp(st, obj)
                        return self.call_fn(c["id"], None, this, st, n, args=args)
        r = lib.method(self, obj, lv, name, args, st, n)
        return r

    def e_CXXMemberCallExpr(self, n, st):
        me = n["inner"][0]
        while me["kind"] in ("ParenExpr",):
            me = me["inner"][0]
        argn = n["inner"][1:]
        base = me["inner"][0]
        mid = me.get("referencedMemberDecl")
        name = me["name"]
        b = self.ev(base, st)
        if me.get("isArrow"):
            p = self.rv(st, b)
            if isinstance(p, z3.ExprRef) and "deref" not in self.hooks:
                # handle of an object that is known through contracts only
                d = self.u.decl.get(mid)
                c = d and (self.contracts.get(self.u.qname(d)) or self.contracts.get(norm_name(self.u.qname(d))))
                if not c:
                    raise Unsupported("member of an object handle")
                self.calls.add(self.u.qname(d))
                return c(self, st, d, [self.ev(x, st) for x in argn], p)
            if isinstance(p, Opaque):
                this, obj = None, p
            else:
                this = self.lv_of_ptr(p)
                obj = None
        elif isinstance(b, LV):
            this, obj = b, None
        else:
            this = self.temp(st, b)
            obj = b
        d = self.u.decl.get(mid)
        if d is not None and (self.u.defs.get(mid) is not None or self.u.qname(d) in self.contracts):
            return self.call_fn(mid, argn, this, st, n)
        args = [self.ev(x, st) for x in argn if x["kind"] != "CXXDefaultArgExpr"]
        if obj is None:
            obj = self.read(st, this, not self.quiet)
        return self.call_object(obj, name, args, st, n, lv=this, mid=mid)

    def e_CXXOperatorCallExpr(self, n, st):
        callee, argn = n["inner"][0], n["inner"][1:]
        x = callee
        while x["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            x = x["inner"][0]
        d = x["referencedDecl"]
        op = d["name"]
        fid = d["id"]
        if self.u.decl.get(fid) is not None:
            dn = self.u.decl[fid]
            if dn["kind"] == "CXXMethodDecl":
                b = self.ev(argn[0], st)
                if isinstance(b, LV):
                    try:
                        o = self.read(st, b, False)
                    except Unsupported:
                        o = None
                else:
                    o = b
                if isinstance(o, Closure):
                    return self.call_value(o, [self.ev(a, st) for a in argn[1:]], st, n)
                if isinstance(o, Fn):
                    return self.call_value(o, [self.ev(a, st) for a in argn[1:]], st, n)
                if self.u.defs.get(fid) is not None or self.u.qname(dn) in self.contracts:
                    q = self.u.qname(dn)
                    fn = self.u.defs.get(fid)
                    if op == "operator=" and (dn.get("isImplicit") or (fn and fn.get("isImplicit"))):
                        v = self.rv(st, self.ev(argn[1], st))
                        self.write(st, b, v)
                        return b
                    this = b if isinstance(b, LV) else self.temp(st, b)
                    return self.call_fn(fid, argn[1:], this, st, n)
                if op == "operator=":
                    v = self.rv(st, self.ev(argn[1], st))
                    self.write(st, b, v)
                    return b
                return self.call_object(o, op, [self.ev(a, st) for a in argn[1:]], st, n, lv=b if isinstance(b, LV) else None)
            return self.call_fn(fid, argn, None, st, n, name=op)
        args = [self.ev(a, st) for a in argn if a["kind"] != "CXXDefaultArgExpr"]
        return lib.operator(self, op, args, st, n)


def real_const(f):
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant")
    fr = Fraction(repr(f))
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def eval_cstring(s):
    import json
    try:
        return json.loads(s)
    except Exception:
        return s
