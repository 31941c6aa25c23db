"""Symbolic executor over the clang AST: produces proof obligations.

Functions without a contract are inlined; functions with a contract are replaced
by it at call sites.  Loops with a concrete trip count are executed; all others
are turned into recurrences over the iteration number (closed forms where a
recurrence solves, uninterpreted functions defined by the recurrence
otherwise), which is exact -- no invariant is guessed and trusted."""
import z3, re, time, os
from terms import *
from values import *
import front
from front import ty

LIMIT_UNROLL = 4096


class Obligation:
    def __init__(self, name, hyps, goal, kind, where):
        self.name, self.hyps, self.goal, self.kind, self.where = name, hyps, goal, kind, where


class Exit:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Frame:
    def __init__(self, fn, env, this):
        self.fn, self.env, self.this = fn, env, this
        self.throws = []      # Exit('throw') raised inside expressions


# ---------------------------------------------------------------- types
def strip_cv(t):
    t = t.strip()
    while True:
        o = t
        for w in ("const ", "volatile ", "struct ", "class ", "typename ", "enum "):
            if t.startswith(w):
                t = t[len(w):].strip()
        for w in (" const", " volatile", "*const", "* const"):
            if t.endswith(w) and not w.startswith("*"):
                t = t[:-len(w)].strip()
        if t.endswith("*const"):
            t = t[:-5]
        if t == o:
            return t


def targs(t):
    """split the template arguments of name<...>"""
    i = t.index("<")
    depth, cur, out = 0, "", []
    for ch in t[i + 1:t.rindex(">")]:
        if ch in "<(":
            depth += 1
        if ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


INTS = {"unsigned int": (32, False), "int": (32, True), "unsigned long": (64, False), "long": (64, True),
        "unsigned long long": (64, False), "long long": (64, True), "unsigned short": (16, False),
        "short": (16, True), "unsigned char": (8, False), "char": (8, True), "signed char": (8, True),
        "size_t": (64, False), "std::size_t": (64, False), "natural": (32, False), "integer": (32, True),
        "especia::natural": (32, False), "word64": (64, False), "word32": (32, False), "uint64_t": (64, False), "uint32_t": (32, False),
        "especia::word64": (64, False), "especia::word32": (32, False),
        "unsigned": (32, False), "std::ptrdiff_t": (64, True), "ptrdiff_t": (64, True)}


def tparse(t):
    t = strip_cv(t)
    if t.endswith("&&"):
        return ("ref", tparse(t[:-2]))
    if t.endswith("&"):
        return ("ref", tparse(t[:-1]))
    if t.endswith("*"):
        return ("ptr", tparse(t[:-1]))
    m = re.match(r"^(.*\S)\s*\[(\d*)\]$", t)
    if m:
        return ("arr", tparse(m.group(1)), int(m.group(2)) if m.group(2) else None)
    if t in ("double", "float", "real", "especia::real", "long double"):
        return ("real",)
    if t in ("bool", "_Bool"):
        return ("bool",)
    if t in INTS:
        return ("int",) + INTS[t]
    if t == "void":
        return ("void",)
    b = t[5:] if t.startswith("std::") else t
    if b.startswith("valarray<") and b.endswith(">"):
        return ("seq", tparse(targs(b)[0]), "valarray")
    if b.startswith("vector<") and b.endswith(">"):
        return ("seq", tparse(targs(b)[0]), "vector")
    if re.match(r"^(_Expr|_UnBase|slice_array|mask_array)<", b):
        return ("vexpr",)
    if b in ("basic_string<char>", "string", "__cxx11::basic_string<char>", "basic_string<char, std::char_traits<char>, std::allocator<char>>"):
        return ("str",)
    if b == "initializer_list" or b.startswith("initializer_list<"):
        return ("seq", tparse(targs(b)[0]), "il")
    if "__normal_iterator<" in b:
        return ("ptr", ("any",))
    if re.search(r"\)\s*(const|noexcept)?", t) and "(" in t and "lambda at" not in t:
        return ("func",)
    return ("rec", t)


def norm_name(t):
    t = re.sub(r"\bespecia::", "", t)
    t = re.sub(r"\bstd::", "", t)
    t = t.replace(" ", "")
    t = re.sub(r"\breal\b", "double", t)
    return t


def rettype(fn):
    t = fn.get("type", {}).get("qualType", "")
    depth = 0
    # return type ends at the parameter list's '(' at depth 0 of <>
    for i, ch in enumerate(t):
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == "(" and depth == 0:
            if t[i:i + 7] == "(lambda":
                depth += 1
                continue
            return t[:i].strip()
        elif ch == ")" and depth == 1 and "(lambda" in t[:i]:
            depth -= 1
    return t


class Exec:
    def __init__(self, unit, mode=None, contracts=None, opaque=None, facts=(), hooks=None):
        self.u = unit
        self.bv = (mode or {}).get("bv", {})          # type name -> bits
        self.contracts = contracts or {}
        self.opaque = opaque or {}                     # record name -> handlers {'op()':f, method: f}
        self.hooks = hooks or {}
        self.obls = []
        self.fresh_log = []                            # z3 decls created, in order
        self.facts = list(facts)                       # global background facts
        self.frames = []
        self.dry = 0
        self.quiet = 0
        self.wlog = []
        self.rlog = []
        self.calls = set()
        self.loops = []
        self.cells = 0
        self.rec_by_name = {}
        for q, n in unit.records.items():
            self.rec_by_name.setdefault(norm_name(q), n)
        self._prv = {}
        self.ncalls = 0
        self.assumed = set()
        self.static_cells = {}
        self.tprove = 0.0
        self.bounds = True
        self.loop_hooks = []
        self.named = {}
        self.invariants = []
        self._scopes = {}
        self.exact_bv = {}
        self.max_size = None

    # ------------------------------------------------------------ fresh
    def fconst(self, sort, name="v"):
        c = z3.Const(fresh_name(name), sort)
        self.fresh_log.append(c.decl())
        return c

    def ffun(self, name, *sorts):
        f = z3.Function(fresh_name(name), *sorts)
        self.fresh_log.append(f)
        return f

    def newcell(self, hint="c"):
        self.cells += 1
        return "%s#%d" % (hint, self.cells)

    def sort_of(self, t):
        if t[0] == "real":
            return Real
        if t[0] == "bool":
            return Bool
        if t[0] == "int":
            return self.int_sort(t)
        if t[0] == "ptr":
            return Int
        if t[0] == "str":
            return self.str_sort
        return None

    str_sort = z3.DeclareSort("Str")

    def int_sort(self, t):
        b = self.bv.get((t[1], t[2]))
        return z3.BitVecSort(t[1]) if b else Int

    def is_bv(self, t):
        return t[0] == "int" and self.bv.get((t[1], t[2]))

    def record(self, name):
        n = self.rec_by_name.get(norm_name(name))
        if n is None:
            k = norm_name(name)
            # a nested name printed without its scope
            c = [r for q, r in self.rec_by_name.items() if q.endswith("::" + k)]
            if not c and "<>" in k:
                # default template arguments are not printed
                import re as _re
                rx = _re.compile("(.*::)?" + _re.escape(k).replace("<>", "<[^<>]*>") + "$")
                c = [r for q, r in self.rec_by_name.items() if rx.match(q.replace("<>", "<default>"))]
                c = [r for r in c if r is c[0]] if c else []
            if not c:
                base = k.split("<")[0]
                c = [r for q, r in self.rec_by_name.items() if q.split("<")[0].split("::")[-1] == base and "<" in q] if "<" in k else []
                if len(c) != 1:
                    c = []
            if len(c) >= 1:
                n = c[0]
        return n

    def fields(self, rec):
        out = []
        for b in rec.get("bases", ()):
            r = self.record(b["type"].get("desugaredQualType") or b["type"]["qualType"])
            if r is not None:
                out += self.fields(r)
        for c in rec.get("inner", ()):
            if c.get("kind") == "FieldDecl":
                out.append(c)
        return out

    def fresh(self, t, name="v", depth=0, facts=None):
        """arbitrary value of a type; size facts appended to facts"""
        s = self.sort_of(t)
        if s is not None:
            for _ in range(depth):
                s = z3.ArraySort(Int, s)
            c = self.fconst(s, name)
            if facts is not None and depth == 0 and t[0] == "int" and s == Int:
                lo, hi = self.int_range(t)
                facts.append(z3.And(c >= lo, c <= hi))
            return c
        if t[0] in ("seq", "arr"):
            if t[0] == "arr" and t[2] is not None and depth == 0:
                sz = z3.IntVal(t[2])
            else:
                so = Int
                for _ in range(depth):
                    so = z3.ArraySort(Int, so)
                sz = self.fconst(so, name + ".n")
                if facts is not None and depth == 0:
                    facts.append(z3.And(sz >= 0, sz < 2 ** 31))
                elif facts is not None and depth == 1:
                    q = z3.Int(fresh_name("q"))
                    facts.append(z3.ForAll([q], z3.And(sz[q] >= 0, sz[q] < 2 ** 31)))
            return Seq(t[1], sz, self.fresh(t[1], name + ".d", depth + 1), t[2] if t[0] == "seq" else "raw")
        if t[0] == "rec" and t[1].split("::")[-1] == "exception_ptr":
            return Rec("std::exception_ptr", {"set": self.fresh(("bool",), name + ".set", depth), "id": self.fresh(("int", 64, True), name + ".id", depth)})
        if t[0] == "rec":
            if t[1] in self.opaque or norm_name(t[1]) in self.opaque:
                return Opaque(t[1])
            r = self.record(t[1])
            if r is None:
                h = self.hooks.get("fresh_rec")
                if h:
                    v = h(self, t, name, depth)
                    if v is not None:
                        return v
                return Opaque(t[1])
            f = {}
            for fd in self.fields(r):
                ft = tparse(ty(fd))
                f[fd["name"]] = self.fresh(ft, name + "." + fd["name"], depth, facts)
            return Rec(t[1], f)
        if t[0] == "ref":
            return self.fresh(t[1], name, depth, facts)
        if t[0] == "func":
            return Opaque("func")
        raise Unsupported("value of type %s" % (t,))

    def zero(self, t, depth=0):
        s = self.sort_of(t)
        if s is not None:
            z = {Real: z3.RealVal(0), Int: z3.IntVal(0), Bool: z3.BoolVal(False)}.get(s)
            if z is None:
                if isinstance(s, z3.BitVecSortRef):
                    z = z3.BitVecVal(0, s.size())
                else:
                    z = self.strlit("")
            for _ in range(depth):
                z = z3.K(Int, z)
            return z
        if t[0] in ("seq", "arr"):
            n = z3.IntVal(t[2] if t[0] == "arr" and t[2] else 0)
            for _ in range(depth):
                n = z3.K(Int, n)
            return Seq(t[1], n, self.zero(t[1], depth + 1), t[2] if t[0] == "seq" else "raw")
        if t[0] == "rec" and t[1].split("::")[-1] == "exception_ptr":
            b, i = z3.BoolVal(False), z3.IntVal(0)
            for _ in range(depth):
                b, i = z3.K(Int, b), z3.K(Int, i)
            return Rec("std::exception_ptr", {"set": b, "id": i})
        if t[0] == "rec":
            return self.fresh(t, "dflt", depth)
        raise Unsupported("zero of type %s" % (t,))

    def strlit(self, s):
        c = z3.Const("str:" + repr(s), self.str_sort)
        return c

    def int_range(self, t):
        bits, signed = t[1], t[2]
        if signed:
            return -(2 ** (bits - 1)), 2 ** (bits - 1) - 1
        return 0, 2 ** bits - 1

    # ------------------------------------------------------------ proving small facts
    def provable(self, st, goal, ms=400):
        goal = z3.simplify(goal)
        b = boolval(goal)
        if b is not None:
            return b
        hy = [h for h in self.facts + st.pc if self.light(h)]
        key = (goal.get_id(), tuple(h.get_id() for h in hy))
        if key in self._prv:
            return self._prv[key][0]
        # relevance: symbols
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", ms)
        for h in self.relevant(hy, goal):
            s.add(h)
        s.add(z3.Not(goal))
        r = s.check() == z3.unsat
        if not r:
            rel = [z3.simplify(h) for h in self.relevant(hy, goal)]
            ls = product_lemmas([goal] + rel)
            if len(ls) > 2:
                s = z3.Solver()
                s.set("timeout", 8 * ms)
                s.add(*rel)
                s.add(*ls)
                s.add(z3.Not(goal))
                r = s.check() == z3.unsat
        self.tprove += time.time() - t0
        self._prv[key] = (r, goal, hy)
        return r

    _light = {}

    def light(self, h):
        k = h.get_id()
        v = Exec._light.get(k)
        if v is not None and v[1] is h or (v is not None and v[1].eq(h)):
            return v[0]
        r = True
        n = 0
        for t in walk(h):
            n += 1
            if z3.is_quantifier(t) or n > 400:
                r = False
                break
            if z3.is_app(t) and t.sort() == Real and t.decl().kind() == z3.Z3_OP_MUL and not any(z3.is_rational_value(c) for c in t.children()):
                r = False
                break
        Exec._light[k] = (r, h)
        return r

    def relevant(self, hyps, goal):
        syms = symbols_of(goal)
        out, rest = [], [(h, symbols_of(h)) for h in hyps]
        changed = True
        while changed:
            changed = False
            nr = []
            for h, s in rest:
                if s & syms or not s:
                    out.append(h)
                    syms |= s
                    changed = True
                else:
                    nr.append((h, s))
            rest = nr
        return out

    def oblige(self, st, goal, kind, what):
        if self.dry or self.quiet:
            return
        goal = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
        fn = self.frames[-1].fn if self.frames else None
        where = self.u.qname(fn) if fn else "contract"
        self.obls.append(Obligation("%s/%s" % (where, what), list(st.pc), goal, kind, where))

    # ------------------------------------------------------------ memory
    def read(self, st, lv, check=True):
        if check:
            self.check_path(st, lv)
        if lv.cell not in st.store:
            raise Unsupported("dangling reference %s" % lv.cell)
        for log in self.rlog:
            log(lv.cell, lv.path, st)
        return value_at(st.store[lv.cell], lv.path)

    def write(self, st, lv, v, check=True):
        if check:
            self.check_path(st, lv)
        for log in self.wlog:
            log(lv.cell, lv.path, st)
        old = st.store.get(lv.cell)
        if not lv.path:
            st.store[lv.cell] = v
        else:
            st.store[lv.cell] = update_at(old, lv.path, v)

    def check_path(self, st, lv):
        if not self.bounds or self.dry or self.quiet:
            return
        v = None
        for n, a in enumerate(lv.path):
            if a[0] == "i":
                s = value_at(st.store[lv.cell], lv.path[:n])
                if isinstance(s, Seq) and s.kind != "map":
                    i = a[1]
                    g = z3.And(i >= 0, i < s.size)
                    gs = z3.simplify(g)
                    if not z3.is_true(gs):
                        k = (gs.get_id(), len(st.pc), id(st.pc))
                        self.oblige(st, g, "bounds", "index in bounds")

    def note_range(self, st, p, cnt, mode):
        for log in (self.wlog if mode == "w" else self.rlog):
            log(p.lv.cell, p.lv.path + (("range", p.off, cnt),), st)

    def lv_of_ptr(self, p, extra=None):
        """location a pointer designates"""
        if isinstance(p, Ptr):
            if p.off is None:
                if extra is not None and not (concrete(extra) == 0):
                    raise Unsupported("arithmetic on a pointer to a single object")
                return p.lv
            i = p.off if extra is None else z3.simplify(p.off + extra)
            return p.lv.idx(i)
        if isinstance(p, z3.ExprRef):
            h = self.hooks.get("deref")
            if h:
                return h(self, p)
        raise Unsupported("dereference of %s" % type(p).__name__)

    def temp(self, st, v, hint="tmp"):
        c = self.newcell(hint)
        st.store[c] = v
        return LV(c)

    def rv(self, st, v):
        """value of an expression result (location or value)"""
        return self.read(st, v) if isinstance(v, LV) else v

    # ------------------------------------------------------------ merging
    def merge(self, states, base=None):
        """merge states (forks of a common ancestor) into one"""
        if len(states) == 1:
            return states[0]
        s = states[0]
        for t in states[1:]:
            s = self.merge2(s, t)
        return s

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])):
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        c = None
        if ra and rb and (ra[0].eq(mknot(rb[0])) or rb[0].eq(mknot(ra[0]))):
            c = ra[0]
            ra2, rb2 = ra[1:], rb[1:]
        else:
            c = self.fconst(Bool, "sel")
            ra2, rb2 = ra, rb
        nc = mknot(c)
        out = State({}, list(a.pc[:n]))
        for f in ra2:
            out.pc.append(z3.Or(nc, f))
        for f in rb2:
            out.pc.append(z3.Or(c, f))
        for k, va in a.store.items():
            if k in b.store:
                vb = b.store[k]
                out.store[k] = va if va is vb else merge_values(c, va, vb)
        self.last_sel = c
        return out

    def merge_exits(self, exits):
        """merge exits of the same kind carrying values"""
        if len(exits) == 1:
            return exits[0]
        e = exits[0]
        for x in exits[1:]:
            st = self.merge2(e.st, x.st)
            c = self.last_sel
            if e.val is None and x.val is None:
                val = None
            elif isinstance(e.val, LV) and isinstance(x.val, LV) and not e.val.same(x.val):
                raise Unsupported("function returning different references")
            else:
                val = merge_values(c, e.val, x.val)
            e = Exit(e.kind, st, val)
        return e

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """execute statements in order; returns (normal state or None, exits)"""
        exits = []
        cur = st
        for s in stmts:
            cur, ex = self.stmt(s, cur)
            exits += ex
            if cur is None:
                break
        return cur, exits

    def take_throws(self):
        f = self.frames[-1]
        t, f.throws = f.throws, []
        return t

    def stmt(self, n, st):
        k = n.get("kind")
        m = getattr(self, "s_" + k, None) if k else None
        if m is None:
            if k is None:
                return st, []
            # expression statement
            self.ev(n, st)
            return st if not self.dead(st) else None, self.take_throws()
        return m(n, st)

    def dead(self, st):
        return bool(st.pc) and z3.is_false(st.pc[-1])

    def s_NullStmt(self, n, st):
        return st, []

    def s_CompoundStmt(self, n, st):
        return self.block(n.get("inner", ()), st)

    def s_AttributedStmt(self, n, st):
        return self.stmt(n["inner"][-1], st)

    def s_DeclStmt(self, n, st):
        ex = []
        for d in n.get("inner", ()):
            if d["kind"] == "VarDecl":
                self.vardecl(d, st)
                ex += self.take_throws()
                if self.dead(st):
                    return None, ex
            elif d["kind"] in ("UsingDecl", "TypedefDecl", "UsingDirectiveDecl", "TypeAliasDecl", "CXXRecordDecl", "StaticAssertDecl"):
                pass
            else:
                raise Unsupported("declaration " + d["kind"])
        return st, ex

    def vardecl(self, d, st):
        t = tparse(ty(d))
        fr = self.frames[-1]
        init = [c for c in d.get("inner", ()) if c.get("kind") and not c["kind"].endswith("Attr") and not c["kind"].endswith("Comment")]
        if d.get("storageClass") == "static":
            key = ("static", d["id"])
            if key not in self.static_cells:
                self.static_cells[key] = self.newcell("static")
            cell = self.static_cells[key]
            if "const" not in d["type"]["qualType"]:
                raise Unsupported("mutable static local variable")
        else:
            cell = self.newcell(d.get("name", "v"))
        if t[0] == "ref":
            v = self.ev(init[0], st)
            if not isinstance(v, LV):
                v = self.temp(st, v, d.get("name", "ref"))
            fr.env[d["id"]] = v
            return
        if d.get("init") and init:
            v = self.ev(init[-1], st)
            v = self.coerce(st, v, t)
        else:
            v = self.fresh(t, d.get("name", "v"))
        st.store[cell] = v
        fr.env[d["id"]] = LV(cell)

    def coerce(self, st, v, t):
        if isinstance(v, LV):
            v = self.read(st, v)
        if isinstance(v, Seq) and t[0] == "arr" and t[2] is not None and v.kind == "il":
            v = Seq(t[1], z3.IntVal(t[2]), v.data, "raw")
        return v

    def s_IfStmt(self, n, st):
        inner = [c for c in n["inner"] if c]
        if n.get("hasVar") or n.get("hasInit"):
            raise Unsupported("if with declaration")
        c = self.cond(inner[0], st)
        ex = self.take_throws()
        then = inner[1]
        els = inner[2] if len(inner) > 2 else None
        r, e2 = self.branch(c, st, lambda s: self.stmt(then, s), (lambda s: self.stmt(els, s)) if els else (lambda s: (s, [])))
        return r, ex + e2

    def decide(self, st, c):
        c = z3.simplify(c)
        b = boolval(c)
        if b is not None:
            return b, c
        return None, c

    def branch(self, c, st, f, g):
        b, cs = self.decide(st, c)
        if b is True:
            return f(st)
        if b is False:
            return g(st)
        if not self.dry and self.prunable(st):
            if self.provable(st, c, 150):
                st.pc.append(c)
                return f(st)
            if self.provable(st, mknot(c), 150):
                st.pc.append(mknot(c))
                return g(st)
        s1, s2 = st.fork(), st.fork()
        s1.pc.append(c)
        s2.pc.append(mknot(c))
        r1, e1 = f(s1)
        r2, e2 = g(s2)
        if r1 is not None and r2 is not None:
            r = self.merge2(r1, r2)
        else:
            r = r1 if r1 is not None else r2
        return r, e1 + e2

    prune = True

    def prunable(self, st):
        return self.prune

    def s_ReturnStmt(self, n, st):
        inner = n.get("inner", ())
        v = None
        if inner:
            v = self.ev(inner[0], st)
            fr = self.frames[-1]
            if isinstance(v, LV) and not fr.ret_ref:
                v = self.read(st, v)
            if not isinstance(v, LV) and v is not None and fr.ret_ref:
                v = self.temp(st, v)
        return None, self.take_throws() + [Exit("return", st, v)]

    def s_BreakStmt(self, n, st):
        return None, [Exit("break", st)]

    def s_ContinueStmt(self, n, st):
        return None, [Exit("continue", st)]

    def s_SwitchStmt(self, n, st):
        inner = [c for c in n["inner"] if c]
        v = self.rv(st, self.ev(inner[0], st))
        ex = self.take_throws()
        body = inner[-1].get("inner", ())
        # flatten labels
        flat = []
        def add(s):
            if s["kind"] == "CaseStmt":
                cs = [c for c in s["inner"] if c]
                flat.append(("case", cs[0]))
                add(cs[-1])
            elif s["kind"] == "DefaultStmt":
                flat.append(("default", None))
                add(s["inner"][-1])
            else:
                flat.append(("stmt", s))
        for s in body:
            add(s)
        exits, outs = [], []
        cases = []
        for i, (k, e) in enumerate(flat):
            if k == "case":
                cv = self.rv(st, self.ev(e, st))
                cases.append((i, v == cv if v.sort() == cv.sort() else v == self.conv(st, cv, v.sort())))
        default = [i for i, (k, e) in enumerate(flat) if k == "default"]
        rest = st
        from functools import reduce
        neg = []
        def run(i, s):
            cur, xs = self.block([e for k, e in flat[i:] if k == "stmt"], s)
            for x in xs:
                if x.kind == "break":
                    outs.append(x.st)
                else:
                    exits.append(x)
            if cur is not None:
                outs.append(cur)
        alive = True
        for i, c in cases:
            b, cs = self.decide(rest, c)
            if b is False:
                continue
            if b is True:
                run(i, rest)
                alive = False
                break
            if not self.dry and self.provable(rest, mknot(c), 150):
                continue
            s1 = rest.fork()
            s1.pc.append(c)
            run(i, s1)
            rest = rest.fork()
            rest.pc.append(mknot(c))
        if alive:
            if default:
                run(default[0], rest)
            else:
                if not (not self.dry and self.provable(rest, z3.BoolVal(False), 150)):
                    outs.append(rest)
        r = None
        if outs:
            # pairwise merge from the last (nearest common prefixes)
            r = outs[-1]
            for o in reversed(outs[:-1]):
                r = self.merge2(o, r)
        return r, ex + exits

    def s_CXXTryStmt(self, n, st):
        body = n["inner"][0]
        handlers = n["inner"][1:]
        cur, exits = self.stmt(body, st)
        out, normal = [], ([cur] if cur is not None else [])
        for x in exits:
            if x.kind != "throw":
                out.append(x)
                continue
            done = False
            for h in handlers:
                hi = [c for c in h.get("inner", ()) if c]
                var = hi[0] if hi and hi[0].get("kind") == "VarDecl" else None
                if var is None or self.exc_matches(x.val, tparse(ty(var))):
                    if var is not None:
                        self.frames[-1].env[var["id"]] = self.temp(x.st, x.val, "exc")
                    self.exc_stack = getattr(self, "exc_stack", [])
                    self.exc_stack.append(x.val)
                    c2, e2 = self.stmt(hi[-1], x.st)
                    self.exc_stack.pop()
                    if c2 is not None:
                        normal.append(c2)
                    out += e2
                    done = True
                    break
            if not done:
                out.append(x)
        r = None
        if normal:
            r = normal[0]
            for o in normal[1:]:
                r = self.merge2(r, o)
        return r, out

    EXC_BASES = {"invalid_argument": ["logic_error", "exception"], "out_of_range": ["logic_error", "exception"],
                 "logic_error": ["exception"], "runtime_error": ["exception"], "exception": [],
                 "bad_alloc": ["exception"], "domain_error": ["logic_error", "exception"], "length_error": ["logic_error", "exception"],
                 "range_error": ["runtime_error", "exception"], "overflow_error": ["runtime_error", "exception"]}

    def exc_matches(self, v, t):
        while t[0] == "ref":
            t = t[1]
        name = t[1].split("::")[-1] if t[0] == "rec" else str(t)
        cls = v.cls.split("::")[-1] if isinstance(v, Rec) else "?"
        if cls == "?":
            raise Unsupported("catch of an unknown exception type")
        return name == cls or name in self.EXC_BASES.get(cls, ())

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, n, st):
        init, _, cond, inc, body = (n["inner"] + [{}] * 5)[:5]
        if init:
            st, ex = self.stmt(init, st)
            assert not ex
        return self.loop(n, st, cond or None, inc or None, body, False)

    def s_WhileStmt(self, n, st):
        inner = [c for c in n["inner"] if c]
        return self.loop(n, st, inner[0], None, inner[-1], False)

    def s_DoStmt(self, n, st):
        return self.loop(n, st, n["inner"][1], None, n["inner"][0], True)

    def s_CXXForRangeStmt(self, n, st):
        inner = [c for c in n["inner"]]
        # init, range decl, begin, end, cond, inc, loopvar, body
        stmts = [c for c in inner[:4] if c]
        cur, ex = self.block(stmts, st)
        cond, inc, var, body = inner[4:8]
        fake = {"kind": "CompoundStmt", "inner": [var, body]}
        r, e2 = self.loop(n, cur, cond, inc, fake, False)
        return r, ex + e2

    def cond(self, e, st):
        v = self.rv(st, self.ev(e, st))
        return self.tobool(st, v)

    def tobool(self, st, v):
        if isinstance(v, z3.ExprRef):
            if v.sort() == Bool:
                return v
            if v.sort() == Int or v.sort() == Real:
                return v != 0
            if isinstance(v.sort(), z3.BitVecSortRef):
                return v != z3.BitVecVal(0, v.sort().size())
        if isinstance(v, Ptr):
            return z3.BoolVal(True)
        if v is NULL:
            return z3.BoolVal(False)
        h = self.hooks.get("tobool")
        if h:
            return h(self, st, v)
        raise Unsupported("condition on %s" % type(v).__name__)

    def iteration(self, st, cond, inc, body, post):
        """one loop iteration: (state at next head or None, exits with kind 'exit'|'return'|'throw')"""
        exits = []
        cur = st
        if cond is not None and not post:
            cur = self.loop_test(cond, cur, exits)
            if cur is None:
                return None, exits
        cur2, ex = self.stmt(body, cur)
        conts = [cur2] if cur2 is not None else []
        for x in ex:
            if x.kind == "continue":
                conts.append(x.st)
            elif x.kind == "break":
                exits.append(Exit("exit", x.st))
            else:
                exits.append(x)
        if not conts:
            return None, exits
        cur = self.merge(conts)
        if inc is not None:
            self.ev(inc, cur)
            exits += self.take_throws()
        if cond is not None and post:
            cur = self.loop_test(cond, cur, exits)
        return cur, exits

    def loop_test(self, cond, cur, exits):
        c = self.cond(cond, cur)
        exits += self.take_throws()
        b, cs = self.decide(cur, c)
        self.last_cond = cs
        if b is True:
            return cur
        if b is False:
            exits.append(Exit("exit", cur))
            return None
        self.cond_symbolic = True
        s1, s2 = cur.fork(), cur.fork()
        s1.pc.append(c)
        s2.pc.append(mknot(c))
        exits.append(Exit("exit", s2))
        return s1

    def loop(self, n, st, cond, inc, body, post):
        if self.dry:
            return self.loop_dry(n, st, cond, inc, body, post)
        # 0. an invariant supplied by the contract
        for f in self.invariants:
            self.inv_node = n
            try:
                inv = f(self, n, st)
            finally:
                self.inv_node = None
            if inv is not None:
                return self.loop_inv(n, st, cond, inc, body, post, inv)
        # 1. concrete execution
        r = self.try_unroll(st, cond, inc, body, post)
        if r is not None:
            return r
        return self.loop_symbolic(n, st, cond, inc, body, post)

    def try_unroll(self, st, cond, inc, body, post):
        if cond is None:
            return None
        save_obl, save_fresh = len(self.obls), len(self.fresh_log)
        cur = st.fork()
        exits = []
        if not post:
            # test the condition at entry on a scratch state
            sc = cur.fork()
            self.quiet += 1
            try:
                fr = self.frames[-1]
                c = self.cond(cond, sc)
                fr.throws = []
            finally:
                self.quiet -= 1
            if self.decide(sc, c)[0] is None:
                return None
        oldflag = getattr(self, "cond_symbolic", False)
        for it in range(LIMIT_UNROLL):
            self.cond_symbolic = False
            if post or True:
                saved = self.cond_symbolic
            nxt, ex = self.iteration_c(cur, cond, inc, body, post)
            if nxt == "symbolic":
                del self.obls[save_obl:]
                self.cond_symbolic = oldflag
                return None
            exits += ex
            if nxt is None:
                break
            cur = nxt
        else:
            raise Unsupported("loop with more than %d concrete iterations" % LIMIT_UNROLL)
        self.cond_symbolic = oldflag
        return self.split_exits(exits)

    def iteration_c(self, st, cond, inc, body, post):
        exits = []
        cur = st
        if not post:
            c = self.cond(cond, cur)
            exits += self.take_throws()
            b, _ = self.decide(cur, c)
            if b is None:
                return "symbolic", []
            if not b:
                return None, exits + [Exit("exit", cur)]
        cur2, ex = self.stmt(body, cur)
        conts = [cur2] if cur2 is not None else []
        for x in ex:
            if x.kind == "continue":
                conts.append(x.st)
            elif x.kind == "break":
                exits.append(Exit("exit", x.st))
            else:
                exits.append(x)
        if not conts:
            return None, exits
        cur = self.merge(conts)
        if inc is not None:
            self.ev(inc, cur)
            exits += self.take_throws()
        if post:
            c = self.cond(cond, cur)
            exits += self.take_throws()
            b, _ = self.decide(cur, c)
            if b is None:
                return "symbolic", []
            if not b:
                return None, exits + [Exit("exit", cur)]
        return cur, exits

    def split_exits(self, exits):
        normal = [x.st for x in exits if x.kind == "exit"]
        other = [x for x in exits if x.kind != "exit"]
        r = None
        if normal:
            r = normal[-1]
            for s in reversed(normal[:-1]):
                r = self.merge2(s, r)
        return r, other

    def loop_dry(self, n, st, cond, inc, body, post):
        """discovery mode: run the body once, havoc what changed"""
        before = dict(st.store)
        cur, exits = self.iteration(st.fork(), cond, inc, body, post)
        outs = [x.st for x in exits if x.kind == "exit"] + ([cur] if cur is not None else [])
        other = [x for x in exits if x.kind != "exit"]
        if not outs:
            return None, other
        res = State(dict(st.store), list(st.pc))
        for cell, v in before.items():
            ch = set()
            for o in outs:
                w = o.store.get(cell)
                if w is None or w is v:
                    continue
                for p, l in leaves(v):
                    if not same_leaf(l, getleaf(w, p)):
                        ch.add(p)
            nv = v
            for p in ch:
                nv = setleaf(nv, p, self.fconst(z(getleaf(v, p)).sort(), "hv"))
            res.store[cell] = nv
        return res, other

    def local(self, st, name, fn=None):
        """value of the local variable (or parameter) of that name in the running function"""
        l = self.local_lv(name)
        return self.read(st, l, False)

    def visible(self, fn, node):
        """declarations in scope at a statement of a function, innermost last"""
        key = (id(fn), id(node))
        if key in self._scopes:
            return self._scopes[key]
        found = []

        def walk(n, scope):
            if not isinstance(n, dict) or found:
                return
            if n is node:
                sc = list(scope)
                if n.get("kind") == "ForStmt" and n["inner"] and n["inner"][0]:
                    sc += [d["id"] for d in n["inner"][0].get("inner", ()) if d.get("kind") == "VarDecl"]
                found.append(sc)
                return
            k = n.get("kind")
            own = list(scope) if k in ("CompoundStmt", "ForStmt", "CXXForRangeStmt", "WhileStmt", "IfStmt") else scope
            for c in n.get("inner", ()):
                if isinstance(c, dict) and c.get("kind") == "DeclStmt":
                    walk(c, own)
                    own += [d["id"] for d in c.get("inner", ()) if d.get("kind") == "VarDecl"]
                else:
                    walk(c, own)
        walk(self.u.body(fn), [p["id"] for p in self.u.params(fn)])
        self._scopes[key] = found[0] if found else []
        return self._scopes[key]

    def local_lv(self, name):
        fr = self.frames[-1]
        vis = self.visible(fr.fn, self.inv_node) if getattr(self, "inv_node", None) is not None else list(fr.env)
        for d in reversed(vis):
            if (self.u.decl.get(d) or {}).get("name") == name and isinstance(fr.env.get(d), LV):
                return fr.env[d]
        raise Unsupported("invariant: no variable " + name)

    def frame_of(self, st0, cond, inc, body, post):
        """leaves modified by a loop"""
        mod = []
        self.dry += 1
        try:
            for _ in range(8):
                s = st0.fork()
                self.havoc(s, mod)
                b4 = dict(s.store)
                cur, exits = self.iteration(s, cond, inc, body, post)
                outs = ([cur] if cur is not None else []) + [x.st for x in exits]
                new = [m for m in self.changed_leaves(b4, outs) if m not in mod]
                if not new:
                    return mod
                mod += new
        finally:
            self.dry -= 1
            self.frames[-1].throws = []
        raise Unsupported("loop frame not found")

    def loop_inv(self, n, st0, cond, inc, body, post, inv):
        """Hoare rule: inv(ex, st) yields the named invariants of a state at the loop head"""
        inv0 = inv

        def inv(ex, st):
            ex.inv_node = n
            try:
                return inv0(ex, st)
            finally:
                ex.inv_node = None
        for nm, f in inv(self, st0):
            self.oblige(st0, f, "invariant", "loop invariant holds on entry: " + nm)
        mod = self.frame_of(st0, cond, inc, body, post)
        s = st0.fork()
        self.havoc(s, mod)
        for nm, f in inv(self, s):
            s.pc.append(f)
        self.loops.append({"node": n, "fn": self.frames[-1].fn})
        cur, exits = self.iteration(s, cond, inc, body, post)
        if cur is not None:
            for nm, f in inv(self, cur):
                self.oblige(cur, f, "invariant", "loop invariant is preserved: " + nm)
        brk = getattr(inv0, "brk", None)
        if brk is not None:
            self.inv_node = n
            for x in exits:
                if x.kind == "exit":
                    for nm, f in brk(self, x.st):
                        self.oblige(x.st, f, "invariant", "at the end of the loop: " + nm)
                    if hasattr(inv0, "known"):      # a generalisation of the obligations above over their fresh constants
                        x.st.pc += inv0.known(self, x.st)
            self.inv_node = None
        return self.split_exits(exits)

    def changed_leaves(self, before, outs):
        res = []
        for cell, v in before.items():
            for o in outs:
                w = o.store.get(cell)
                if w is None or w is v:
                    continue
                for p, l in leaves(v):
                    if (cell, p) not in res and not same_leaf(l, getleaf(w, p)):
                        res.append((cell, p))
        return res

    def havoc(self, st, ls):
        m = {}
        for cell, p in ls:
            v = st.store[cell]
            l = getleaf(v, p)
            c = self.fconst(z(l).sort(), "in." + cell.split("#")[0])
            st.store[cell] = setleaf(v, p, c)
            m[(cell, p)] = c
        return m

    name_arrays = False
    symlevel = 0

    def loop_symbolic(self, n, st0, cond, inc, body, post):
        self.symlevel += 1
        try:
            return self.loop_symbolic_(n, st0, cond, inc, body, post)
        finally:
            self.symlevel -= 1

    def named_array(self, s, a):
        """a name for the array written by a loop, defined element by element"""
        if not (self.name_arrays and self.symlevel == 1) or self.dry or self.quiet or not is_lambda(a) or a.sort() != z3.ArraySort(Int, Real):
            return a
        n = self.fconst(a.sort(), "array")
        q = z3.Int(fresh_name("q"))
        self.named[n.decl().name()] = a
        s.pc.append(z3.ForAll([q], z3.Select(n, q) == sel(a, q), patterns=[z3.Select(n, q)]))
        return n

    def loop_symbolic_(self, n, st0, cond, inc, body, post):
        env0 = dict(self.frames[-1].env)
        # ---- discovery of the modified leaves and induction variables
        mod = []
        self.dry += 1
        try:
            for _ in range(8):
                s = st0.fork()
                mark_d = len(self.fresh_log)
                ins = self.havoc(s, mod)
                b4 = dict(s.store)
                cur, exits = self.iteration(s, cond, inc, body, post)
                outs = ([cur] if cur is not None else []) + [x.st for x in exits]
                new = [m for m in self.changed_leaves(b4, outs) if m not in mod]
                if not new:
                    break
                mod += new
            else:
                raise Unsupported("loop frame not found")
        finally:
            self.dry -= 1
            self.frames[-1].throws = []
        ind = {}
        rawcond = None
        born_d = {d.name() for d in self.fresh_log[mark_d:]}
        if cur is not None:
            for m in mod:
                l = ins[m]
                if l.sort() != Int and not isinstance(l.sort(), z3.BitVecSortRef) and l.sort() != Real:
                    continue
                if l.sort() != Int:
                    continue
                o = getleaf(cur.store[m[0]], m[1])
                o = unwrap(o)
                d = z3.simplify(o - l)
                names = {c.decl().name() for c in ins.values()}
                if not depends(d, names) and not depends(d, born_d):
                    ind[m] = d
        # ---- the iteration number
        k = self.fconst(Int, "it")
        kname = k.decl().name()
        s = st0.fork()
        entry = {m: getleaf(st0.store[m[0]], m[1]) for m in mod}
        mark_f = len(self.fresh_log)
        mark_o = len(self.obls)
        affine = {}
        for m, d in ind.items():
            affine[m] = z3.simplify(entry[m] + k * d)
            s.store[m[0]] = setleaf(s.store[m[0]], m[1], affine[m])
        rest = [m for m in mod if m not in ind]
        ins = self.havoc(s, rest)
        npc = len(s.pc)
        s.pc.append(k >= 0)
        # trip count guess from the loop condition
        K = None
        kfacts = []
        if cond is not None and not post:
            K = self.guess_count(s, cond, k, affine, ins)
        if K is not None:
            s.pc.append(k < K)
        h = self.hooks.get("loop_head")
        # ---- the generic iteration
        n_pc0 = len(s.pc)
        lid = len(self.loops)
        self.loops.append({"node": n, "fn": self.frames[-1].fn})
        if K is not None:
            # condition known true for k<K
            cur, exits = self.iteration(s, None, inc, body, False) if not post else self.iteration(s, cond, inc, body, post)
        else:
            cur, exits = self.iteration(s, cond, inc, body, post)
        # ---- wrap-around of induction variables
        exitval = {}
        bad = []
        if cur is not None:
            for m in ind:
                o = getleaf(cur.store[m[0]], m[1])
                want = z3.simplify(entry[m] + (k + 1) * ind[m])
                if not self.provable(cur, o == want, 3000):
                    # allowed to differ only at the last iteration
                    if K is not None and self.provable(self.with_pc(cur, k + 1 < K), o == want):
                        exitval[m] = ite(K == 0, entry[m], z3.substitute(o, (k, K - 1)))
                    else:
                        bad.append(m)
        if bad:
            # not an affine variable after all: treat as an ordinary leaf (slow path)
            if os.environ.get("DBG"): print(bad, [ (m, entry[m], ind[m], getleaf(cur.store[m[0]], m[1])) for m in bad], K, cur.pc)
            raise Unsupported("induction variable wraps around")
        # ---- solve the recurrences
        sol, gen = self.solve(st0, s, cur, k, K, rest, ins, entry, npc, mark_f)
        return self.finish(n, st0, cur, exits, k, K, mod, ind, affine, exitval, ins, sol, gen, entry,
                           mark_f, mark_o, npc, post)

    def with_pc(self, st, *fs):
        t = st.fork()
        t.pc += list(fs)
        return t

    def born_inside(self, e):
        return False

    def guess_count(self, s, cond, k, affine, ins):
        """trip count K as a term if the condition is a linear bound on k"""
        t = s.fork()
        self.quiet += 1
        fr = self.frames[-1]
        nf = len(self.fresh_log)
        try:
            c = self.cond(cond, t)
            if fr.throws or len(t.pc) != len(s.pc):
                return None
            raw = z3.simplify(unwrap(c))
        except Unsupported:
            return None
        finally:
            fr.throws = []
            self.quiet -= 1
        if depends(raw, {x.decl().name() for x in ins.values()}):
            return None
        cand = count_candidates(raw, k)
        for K in cand:
            K = z3.simplify(K)
            s1 = s.fork()
            # K >= 0 is needed
            if not self.provable(s, K >= 0):
                K = z3.simplify(ite(K >= 0, K, z3.IntVal(0)))
            s1.pc += [k < K]
            if not self.provable(s1, c):
                # conversions of the counter are exact below the bound
                self.quiet += 1
                try:
                    t1 = s1.fork()
                    c1 = self.cond(cond, t1)
                except Unsupported:
                    continue
                finally:
                    fr.throws = []
                    self.quiet -= 1
                if not self.provable(s1, c1, 2000):
                    continue
            # at k == K (with wrap-around semantics) the condition must fail
            s2 = s.fork()
            atK = z3.substitute(c, (k, K))
            # values of induction variables at K might wrap: re-evaluate with wrapping
            t2 = s.fork()
            for m, a in affine.items():
                v = z3.substitute(a, (k, K))
                t2.store[m[0]] = setleaf(t2.store[m[0]], m[1], v)
            self.quiet += 1
            try:
                w = {}
                for m, a in affine.items():
                    typ = self.leaf_int_type.get(m[0])
                    v = z3.substitute(a, (k, K))
                    if typ is not None and not self.provable(s, z3.And(v >= self.int_range(typ)[0], v <= self.int_range(typ)[1])):
                        v = self.wrapterm(v, typ)
                    t2.store[m[0]] = setleaf(t2.store[m[0]], m[1], v)
                c2 = self.cond(cond, t2)
            except Unsupported:
                continue
            finally:
                fr.throws = []
                self.quiet -= 1
            if self.provable(s, mknot(c2)):
                return K
        return None

    leaf_int_type = {}

    # ---- solving
    def lifter(self, born, k):
        """symbols that denote a new value in every iteration become functions of the iteration number"""
        lc = [(d(), z3.Function(d.name() + "@", Int, d.range())(k)) for d in born if d.arity() == 0]
        lf = [d for d in born if d.arity() > 0]

        def lift(e):
            e = z3.substitute(e, *lc) if lc else e
            if lf:
                sy = symbols_of(e)
                ff = []
                for d in lf:
                    if d.name() in sy:
                        doms = [d.domain(i) for i in range(d.arity())]
                        g = z3.Function(d.name() + "@", *(doms + [Int, d.range()]))
                        ff.append((d, g(*([z3.Var(i, d.domain(i)) for i in range(d.arity())] + [k]))))
                if ff:
                    e = z3.substitute_funs(e, *ff)
            return e
        return lift

    def solve(self, st0, s, cur, k, K, rest, ins, entry, npc, mark_f):
        """closed forms: sol[m] = function k -> term ; gen = leaves left as recurrences"""
        sol = {}
        if cur is None:
            return {m: (lambda kk, e=entry[m]: e) for m in rest}, []
        outs = {m: getleaf(cur.store[m[0]], m[1]) for m in rest}
        names = {m: ins[m].decl().name() for m in rest}
        todo = list(rest)
        sub = []          # (in-const, closed(k)) of the solved ones
        progress = True
        inn = {c.decl().name() for c in ins.values()}
        born = [d for d in self.fresh_log[mark_f:] if d.name() not in inn]
        lift = self.lifter(born, k)
        bn = {d.name() for d in born}
        for m in rest:
            o = outs[m]
            if not (isinstance(o, CArr) and not any(depends(x, bn) for x in list(o.ov.values()) + [o.base])) and depends(z(o), bn):
                outs[m] = lift(z(o))
        base = State({}, [lift(f) for f in cur.pc])
        self.ins_names = inn
        while progress and todo:
            progress = False
            for m in list(todo):
                others = {names[x] for x in todo if x != m}
                out = outs[m]
                o = z3.substitute(z(out), *sub) if sub and not isinstance(out, CArr) else z(out)
                if sub and isinstance(out, CArr):
                    o = z3.substitute(o, *sub)
                f = self.closed_form(m, o, ins[m], entry[m], k, K, others, base, sub)
                if f is not None:
                    sol[m] = f
                    sub.append((ins[m], z(f(k))))
                    todo.remove(m)
                    progress = True
        return sol, todo

    def closed_form(self, m, out, vin, v0, k, K, others, base, sub):
        v0 = z(v0)
        if out.eq(vin):
            return lambda kk: v0
        if depends(out, others):
            if not isinstance(out.sort(), z3.ArraySortRef):
                return None
            # array: values may not depend on unsolved leaves
            return None
        srt = out.sort()
        me = {vin.decl().name()}
        if isinstance(srt, z3.ArraySortRef):
            f = self.element_form(out, vin, v0, k, K, others, base, sub)
            if f is not None:
                return f
            return self.parallel_write(out, vin, v0, k, K, base, sub)
        if not depends(out, me):
            # last value
            def last(kk):
                return ite(kk <= 0, v0, z3.substitute(out, (k, z3.simplify(kk - 1))))
            return last
        if srt in (Real, Int):
            o2 = unwrap(out) if srt == Int else out
            d = delta(o2, vin)
            if d is not None and not depends(d, me):
                d = z3.simplify(d)
                if srt == Int:
                    if not self.unit_step(d):
                        if not o2.eq(out):
                            return None
                    return lambda kk: z3.simplify(v0 + ISUMF(lambda j: z3.substitute(d, (k, j)), 0, kk)) if not is_const0(d) else v0
                return lambda kk: v0 + SUMF(lambda j: z3.substitute(d, (k, j)), 0, kk) if not is_zero(v0) else SUMF(lambda j: z3.substitute(d, (k, j)), 0, kk)
        return None

    def element_form(self, out, vin, v0, k, K, others, base, sub):
        """every iteration updates the same element of an array"""
        out = z(out)
        P = []

        def scan(e):
            if e.eq(vin):
                return True
            if not z3.is_app(e):
                return False
            kd = e.decl().kind()
            if kd == z3.Z3_OP_ITE:
                return scan(e.arg(1)) and scan(e.arg(2))
            if kd == z3.Z3_OP_STORE and e.arg(0).eq(vin):
                P.append(e.arg(1))
                return True
            return False
        if not scan(out) or not P or any(not p.eq(P[0]) for p in P[1:]):
            return None
        p = P[0]
        me = {vin.decl().name(), k.decl().name()}
        if depends(p, me) or self.born_inside(p) or depends(p, others):
            return None
        cur = z3.Select(vin, p)
        x = self.fconst(cur.sort(), "elem")

        def elem(e):
            if e.eq(vin):
                return x
            if e.decl().kind() == z3.Z3_OP_ITE:
                return ite(z3.substitute(e.arg(0), (cur, x)), elem(e.arg(1)), elem(e.arg(2)))
            return z3.substitute(e.arg(2), (cur, x))
        e = z(elem(out))
        if depends(e, {vin.decl().name()}):
            return None
        f = self.closed_form(None, e, x, sel(v0, p), k, K, others, base, sub)
        if f is None:
            return None
        return lambda kk: store(v0, p, f(kk))

    def unit_step(self, d):
        if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE:
            return self.unit_step(d.arg(1)) and self.unit_step(d.arg(2))
        c = concrete(d)
        return c is not None and abs(c) <= 64

    def parallel_write(self, out, vin, v0, k, K, base, sub):
        q = z3.Int(fresh_name("q"))
        e = sel(out, q)
        pas = sel(vin, q)
        P, W = guarded(e, pas)
        if P is None:
            return None
        P = z3.simplify(P)
        hyp = State({}, base.pc + [])
        hyp.pc = [z3.substitute(h, *sub) for h in hyp.pc] if sub else hyp.pc
        # inverse of the written index
        inv = solve_index(P, q, k)
        k1 = z3.Int(fresh_name("k"))
        at1 = [z3.substitute(h, (k, k1)) for h in hyp.pc if depends(h, {k.decl().name()}) and not depends(h, self.ins_names)]
        ctx = State({}, hyp.pc + at1 + [k >= 0] + ([k < K] if K is not None else []))

        def written_before(r, extra=()):
            c2 = State({}, ctx.pc + list(extra) + [k1 >= 0, k1 < k])
            return self.provable(c2, mknot(z3.substitute(P, (k, k1), (q, r))), 1500)

        # reads of the array inside P and W must be of entries not written before
        rep = {}
        for t in walk(z3.And(P, W == W) if not isinstance(W.sort(), z3.ArraySortRef) else z3.And(P, W == z3.K(Int, z3.FreshConst(W.sort().range())) if False else P)) if False else walk_terms([P, W]):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(0).eq(vin):
                r = t.arg(1)
                if has_var(r):
                    if not self.unwritten_var(r, P, k, k1, q, ctx):
                        return None
                    rep[t.get_id()] = (t, z3.Select(v0, r))
                    continue
                extra = [P] if r.eq(q) else [P]
                if not written_before(r, extra):
                    return None
                rep[t.get_id()] = (t, sel(v0, r))
        prs = list(rep.values())
        if prs:
            W = z3.substitute(W, *prs)
            P = z3.substitute(P, *prs)
        if depends(W, {vin.decl().name()}) or depends(P, {vin.decl().name()}):
            return None
        if inv is None:
            # need disjointness of the regions of different iterations
            k2 = z3.Int(fresh_name("k"))
            c3 = State({}, ctx.pc + [k1 >= 0, k1 < k, P])
            if not self.provable(c3, mknot(z3.substitute(P, (k, k1))), 3000) and not self.disjoint_nl(ctx, P, k, k1, q):
                return None
            f = self.ffun("inv", Int, Int)
            hi = K
            body = z3.substitute(P, (k, k1))
            kq = z3.Int(fresh_name("q"))
            body = z3.substitute(body, (q, kq))
            rng = [k1 >= 0] + ([k1 < K] if K is not None else [])
            ax = z3.ForAll([k1, kq], z3.Implies(z3.And(*(rng + [body])), f(kq) == k1))
            self.pending_facts.append(ax)
            inv = f(q)

        def closed(kk):
            kin = z3.substitute(inv, (k, kk)) if False else inv
            def ent(j):
                i = z3.simplify(z3.substitute(kin, (q, j)))
                p = z3.simplify(z3.substitute(P, (k, i), (q, j)))
                w = z3.substitute(W, (k, i), (q, j))
                return ite(mkand(i >= 0, i < kk, p), w, sel(v0, j))
            j = z3.Int(fresh_name("j"))
            return z3.Lambda([j], ent(j))
        return closed

    def unwritten_var(self, r, P, k, k1, q, ctx):
        return False

    def disjoint_nl(self, ctx, P, k, k1, q):
        """regions of the form  c + k*n + [0,n): nonlinear, with the lemma (k1+1)*n <= k*n"""
        prods = set()
        for t in walk(P):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
                cs = [c for c in t.children()]
                if any(c.eq(k) for c in cs):
                    others = [c for c in cs if not c.eq(k)]
                    if len(others) == 1:
                        prods.add(others[0])
        lem = []
        for o in prods:
            lem.append(z3.Implies(o >= 0, (k1 + 1) * o <= k * o))
            lem.append((k1 + 1) * o == k1 * o + o)
        s = z3.Solver()
        s.set("timeout", 3000)
        for h in ctx.pc:
            if self.light(h):
                s.add(h)
        for h in self.facts:
            if self.light(h):
                s.add(h)
        s.add(k1 >= 0, k1 < k, P, z3.substitute(P, (k, k1)), *lem)
        return s.check() == z3.unsat

    pending_facts = []

    def finish(self, n, st0, cur, exits, k, K, mod, ind, affine, exitval, ins, sol, gen, entry, mark_f, mark_o, npc, post):
        # recurrences for the rest
        gfun = {}
        for m in gen:
            srt = ins[m].sort()
            f = z3.Function(fresh_name("rec." + m[0].split("#")[0]), Int, srt)
            gfun[m] = f
        # substitution in-const -> value at iteration k
        def at(kk):
            r = {}
            for m in sol:
                r[m] = z(sol[m](kk))
            for m in gen:
                r[m] = gfun[m](kk)
            return r
        vk = at(k)
        subs1 = []
        # closed forms may mention in-consts of generic leaves: resolve repeatedly
        gsub = [(ins[m], gfun[m](k)) for m in gen]
        for m in sol:
            vk[m] = z3.substitute(vk[m], *gsub) if gsub else vk[m]
        S = [(ins[m], vk[m]) for m in ins]
        pend = self.pending_facts
        self.pending_facts = []
        # lifting of symbols born in the body
        born = [d for d in self.fresh_log[mark_f:] if d.name() not in {c.decl().name() for c in ins.values()}]
        lift_c, lift_f = [], []
        newborn = []
        for d in born:
            if d.arity() == 0:
                g = z3.Function(d.name() + "@", Int, d.range())
                lift_c.append((d(), g(k)))
                newborn.append(g)
            else:
                doms = [d.domain(i) for i in range(d.arity())]
                g = z3.Function(d.name() + "@", *(doms + [Int, d.range()]))
                lift_f.append((d, g))
                newborn.append(g)
        # pending inv functions are per-loop (not per-iteration)
        pinv = set()
        for ax in pend:
            pinv |= {x for x in symbols_of(ax) if x.startswith("inv!")}
        mine = [d for d in born if d.name() in pinv and d.arity() == 1 and d.name() not in self._lifted]
        own = {d.name() for d in mine}
        lift_f = [(d, g) for d, g in lift_f if d.name() not in own]
        self._lifted |= {d.name() for d in born}

        def tr(e):
            e = z(e)
            e = z3.substitute(e, *S) if S else e
            used = None
            if lift_c:
                e = z3.substitute(e, *lift_c)
            if lift_f:
                sy = symbols_of(e)
                ff = []
                for d, g in lift_f:
                    if d.name() in sy:
                        vs = [z3.Var(i, d.domain(i)) for i in range(d.arity())]
                        ff.append((d, g(*(vs + [k]))))
                if ff:
                    e = z3.substitute_funs(e, *ff)
            return e
        # symbols that stay: the fresh log after this loop
        del self.fresh_log[mark_f:]
        self.fresh_log += [d for d in newborn if d.name()[:-1] not in own]
        self.fresh_log += mine
        self.fresh_log += [gfun[m] for m in gen]

        def body_facts(pc):
            return [tr(f) for f in pc[npc:]]

        # facts established by every completed iteration j < k
        iter_facts = []
        if cur is not None:
            cont = body_facts(cur.pc)
            cont = [f for f in cont if not z3.is_true(f) and not f.eq(k >= 0) and not (K is not None and f.eq(k < K))]
            rec = []
            nxt = at(z3.simplify(k + 1))
            for m in gen:
                o = getleaf(cur.store[m[0]], m[1])
                rec.append(pointwise_eq(gfun[m](k + 1), tr(o)))
            iter_facts = cont + rec
        base_facts = [pointwise_eq(gfun[m](z3.IntVal(0)), z(entry[m])) for m in gen]
        pend = [tr_pending(ax, tr, k) for ax in pend]

        def all_before(kk):
            if not iter_facts:
                return []
            j = z3.Int(fresh_name("j"))
            b = [z3.substitute(f, (k, j)) for f in iter_facts]
            return [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < kk), mkand(*b)))]

        extra = base_facts + pend
        # obligations raised in the body
        pre = len(st0.pc)
        for ob in self.obls[mark_o:]:
            ob.hyps = list(st0.pc) + extra + all_before(k) + [tr(f) for f in ob.hyps[pre:]]
            ob.goal = tr(ob.goal)
        # ---- loop lemmas from contracts
        info = LoopInfo(self, n, st0, k, K, mod, ind, sol, gen, gfun, entry, iter_facts, base_facts, extra, cur, tr, all_before)
        for hk in self.loop_hooks:
            if not self.quiet:
                extra = extra + (hk(self, info) or [])
        # ---- exits
        outs = []
        def state_at(e, kk, useexit):
            """state of an exit; values from e.st with iteration number kk"""
            s = State({}, list(st0.pc))
            for cell, v in st0.store.items():
                w = e.st.store.get(cell)
                if w is None:
                    continue
                if w is st0.store[cell]:
                    s.store[cell] = v
                    continue
                chg = set(p for c, p in mod if c == cell)
                def f(l):
                    if isinstance(l, CArr):
                        if all(not depends_any(x, k, ins, born) for x in list(l.ov.values()) + [l.base]):
                            return l
                    x = tr(l)
                    return z3.substitute(x, (k, kk))
                s.store[cell] = tmap(f, w)
            return s

        for e in exits:
            if e.kind == "exit" and False:
                pass
            kk = self.fconst(Int, "K")
            s = state_at(e, kk, False)
            s.pc += extra
            s.pc.append(kk >= 0)
            s.pc += all_before(kk)
            s.pc += [z3.substitute(f, (k, kk)) for f in body_facts(e.st.pc) if not z3.is_true(f)]
            v = e.val
            if v is not None:
                v = tmap(lambda l: z3.substitute(tr(l), (k, kk)), v) if not isinstance(v, LV) else \
                    LV(v.cell, tuple((a, z3.substitute(tr(b), (k, kk))) if a == "i" else (a, b) for a, b in v.path))
            outs.append(Exit(e.kind, s, v))
        if K is not None:
            # regular exit by the loop condition after K complete iterations
            s = State({}, list(st0.pc))
            vals = at(K)
            for m in sol:
                vals[m] = z3.substitute(vals[m], *[(ins[x], gfun[x](K)) for x in gen]) if gen else vals[m]
            for cell, v in st0.store.items():
                s.store[cell] = v
            for m in ind:
                x = exitval[m] if m in exitval else z3.simplify(entry[m] + K * ind[m])
                if m in exitval:
                    x = z3.simplify(z3.substitute(tr(x), (k, K)))
                s.store[m[0]] = setleaf(s.store[m[0]], m[1], x)
            for m in list(sol) + list(gen):
                s.store[m[0]] = setleaf(s.store[m[0]], m[1], self.named_array(s, tr_keep(vals[m], tr, k, K)))
            s.pc += extra + all_before(K)
            outs.append(Exit("exit", s))
        return self.split_exits(outs)

    _lifted = set()


def walk_terms(ts):
    out, seen = [], set()
    for t in ts:
        for x in walk(t):
            if x.get_id() not in seen:
                seen.add(x.get_id())
                out.append(x)
    return out


def depends_any(x, k, ins, born):
    names = {k.decl().name()} | {c.decl().name() for c in ins.values()} | {d.name() for d in born}
    return depends(x, names)


def tr_keep(e, tr, k, K):
    return z3.substitute(tr(e), (k, K))


def tr_pending(ax, tr, k):
    return tr(ax)


def pointwise_eq(a, b):
    if isinstance(a.sort(), z3.ArraySortRef):
        q = z3.Int(fresh_name("q"))
        return z3.ForAll([q], pointwise_eq(sel(a, q), sel(b, q)))
    return a == b


class LoopInfo:
    def __init__(self, ex, node, st0, k, K, mod, ind, sol, gen, gfun, entry, iter_facts, base_facts, extra, cur, tr, all_before):
        self.__dict__.update(locals())


def same_leaf(a, b):
    if a is b:
        return True
    if isinstance(a, CArr) or isinstance(b, CArr):
        if isinstance(a, CArr) and isinstance(b, CArr):
            return a.base.eq(b.base) and a.ov.keys() == b.ov.keys() and all(a.ov[i].eq(b.ov[i]) for i in a.ov)
        return False
    return a.eq(b)


def is_zero(v):
    return (z3.is_rational_value(v) or z3.is_int_value(v)) and v.as_fraction() == 0 if z3.is_rational_value(v) else (z3.is_int_value(v) and v.as_long() == 0)


def is_const0(v):
    return z3.is_int_value(v) and v.as_long() == 0


WRAP = {}
for _b in (8, 16, 32, 64):
    WRAP[(_b, False)] = z3.Function("wrap_u%d" % _b, Int, Int)
    WRAP[(_b, True)] = z3.Function("wrap_s%d" % _b, Int, Int)
WRAPNAMES = {f.name() for f in WRAP.values()}


def unwrap(e):
    """drop wrap-around markers (tentatively)"""
    if isinstance(e, CArr):
        return e
    fs = [t for t in walk(e) if z3.is_app(t) and t.decl().name() in WRAPNAMES]
    if not fs:
        return e
    subs = [(f, z3.Var(0, Int)) for f in WRAP.values()]
    return z3.simplify(z3.substitute_funs(e, *subs))


def delta(out, vin):
    """d with out == vin + d, if out is (piecewise) vin plus something"""
    if out.eq(vin):
        return z3.RealVal(0) if vin.sort() == Real else z3.IntVal(0)
    if z3.is_app(out):
        k = out.decl().kind()
        ch = out.children()
        if k == z3.Z3_OP_ITE:
            a, b = delta(ch[1], vin), delta(ch[2], vin)
            if a is None or b is None:
                return None
            return ite(ch[0], a, b)
        if k == z3.Z3_OP_ADD:
            hit = [c for c in ch if depends(c, {vin.decl().name()})]
            if len(hit) == 1:
                d = delta(hit[0], vin)
                if d is None:
                    return None
                r = d
                for c in ch:
                    if c is not hit[0] and not c.eq(hit[0]):
                        r = r + c
                return r
        if k == z3.Z3_OP_SUB and len(ch) == 2:
            if depends(ch[0], {vin.decl().name()}) and not depends(ch[1], {vin.decl().name()}):
                d = delta(ch[0], vin)
                return None if d is None else d - ch[1]
    return None


def guarded(e, pas):
    """(condition under which the entry is written, value written)"""
    if e.eq(pas):
        return z3.BoolVal(False), pas
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        pa, wa = guarded(a, pas)
        pb, wb = guarded(b, pas)
        if z3.is_false(pa):
            return mkand(mknot(c), pb), wb
        if z3.is_false(pb):
            return mkand(c, pa), wa
        return mkor(mkand(c, pa), mkand(mknot(c), pb)), ite(c, wa, wb)
    return z3.BoolVal(True), e


def conjuncts(P):
    if z3.is_and(P):
        out = []
        for c in P.children():
            out += conjuncts(c)
        return out
    return [P]


def lin_in(e, k):
    """(c0, c1) with e == c0 + c1*k, c1 an integer constant, else None"""
    c0 = z3.simplify(z3.substitute(e, (k, z3.IntVal(0))))
    c1 = z3.simplify(z3.substitute(e, (k, z3.IntVal(1))) - c0)
    v = concrete(c1)
    if v is None:
        return None
    if not depends(e, {k.decl().name()}):
        return c0, 0
    d = z3.simplify(e - (c0 + v * k))
    if concrete(d) == 0:
        return c0, v
    return None


def solve_index(P, q, k):
    for c in conjuncts(P):
        if z3.is_eq(c):
            a, b = c.children()
            if a.sort() != Int:
                continue
            d = z3.simplify(a - b)
            l = lin_in(d, k)
            if l is None or l[1] == 0:
                continue
            # d = c0 + c1*k == 0
            if l[1] == -1:
                return l[0]
            if l[1] == 1:
                return z3.simplify(-l[0])
    return None


def count_candidates(c, k):
    """terms K such that c holds exactly for 0<=k<K, guessed from linear bounds"""
    out = []
    for x in conjuncts(c):
        neg = False
        while z3.is_not(x):
            neg = not neg
            x = x.arg(0)
        if not z3.is_app(x):
            continue
        kk = x.decl().kind()
        ch = x.children()
        if kk in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and ch[0].sort() == Int:
            a, b = ch
            if kk in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
                kk = z3.Z3_OP_LE if kk == z3.Z3_OP_GE else z3.Z3_OP_LT
            # a (<|<=) b
            if neg:
                a, b = b, a
                kk = z3.Z3_OP_LT if kk == z3.Z3_OP_LE else z3.Z3_OP_LE
            d = b - a                       # holds iff d>0 (or >=0)
            if kk == z3.Z3_OP_LE:
                d = d + 1
            l = lin_in(z3.simplify(d), k)
            if l is None:
                continue
            c0, c1 = l
            if c1 == -1:
                out.append(c0)
            elif c1 < -1:
                m = -c1
                out.append((c0 + (m - 1)) / m)
        elif z3.is_eq(x) and neg and ch[0].sort() == Int:
            l = lin_in(z3.simplify(ch[0] - ch[1]), k)
            if l and l[1] in (1, -1):
                out.append(z3.simplify(-l[0] if l[1] == 1 else l[0]))
    return out
