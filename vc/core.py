"""Contract units: run the verifier on functions of /repo and discharge their obligations."""
import os, sys, time, json, traceback, hashlib
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3
from terms import *
from values import *
import front, exec as X, expr, lib, prove
from exec import Exit, Frame, norm_name, tparse
from front import ty


class ContractMissing(Exception):
    """the function under contract no longer exists under its name"""


_units = {}


def unit(text, defines=()):
    k = (text, tuple(defines))
    if k not in _units:
        u = _units[k] = front.Unit(text + PROBE, defines)
        u.extconst = {}
        for f in u.funcs:
            if f["name"].startswith("vc_probe_"):
                ref = find_ref(u.body(f))
                if ref:
                    u.extconst[ref] = PROBES[int(f["name"][9:])][1]
    return _units[k]


# values of external constants (numeric_limits), identified by declaration
PROBES = []
for _t, _d, _d10, _m10 in (("double", 53, 15, 17), ("float", 24, 6, 9), ("unsigned long", 64, 19, 0), ("unsigned long long", 64, 19, 0), ("unsigned", 32, 9, 0), ("int", 31, 9, 0), ("long", 63, 18, 0)):
    PROBES += [("std::numeric_limits<%s>::digits" % _t, _d), ("std::numeric_limits<%s>::digits10" % _t, _d10), ("std::numeric_limits<%s>::max_digits10" % _t, _m10)]
PROBE = "\n#include <limits>\n" + "\n".join("inline int vc_probe_%d () { return %s; }" % (_i, _p[0]) for _i, _p in enumerate(PROBES)) + "\n"


def find_ref(n):
    if n.get("kind") == "DeclRefExpr":
        return n["referencedDecl"]["id"]
    for c in n.get("inner", ()):
        r = find_ref(c) if c else None
        if r:
            return r


class Outcome:
    """result of one contract unit"""
    def __init__(self, name):
        self.name = name
        self.functions = []
        self.inlined = []
        self.obls = []          # dict(name, kind, ok, backend, secs, detail)
        self.status = "?"       # proved | failed | unsupported
        self.reason = ""
        self.assumed = []
        self.secs = 0.0


class V:
    """one symbolic run of a function under contract"""
    def __init__(self, out, u, contracts=None, opaque=None, hooks=None, mode=None, facts=(), timeout=10000):
        self.out = out
        self.ex = expr.Verifier(u, mode=mode, contracts=contracts, opaque=opaque, facts=facts, hooks=hooks)
        self.u = u
        self.st = State()
        self.timeout = timeout
        self.pre = []
        self.axioms = []
        self.goals = []

    # -- building inputs
    def real(self, name):
        return self.ex.fconst(Real, name)

    def nat(self, name, lo=0, hi=2 ** 31 - 1):
        c = self.ex.fconst(Int, name)
        self.assume(z3.And(c >= lo, c <= hi))
        return c

    def assume(self, f):
        self.st.pc.append(f)
        self.pre.append(f)

    def array(self, name, size, elt=("real",), kind="raw"):
        srt = {"real": Real, "int": Int, "bool": Bool}[elt[0]]
        a = self.ex.fconst(z3.ArraySort(Int, srt), name)
        cell = self.ex.newcell(name)
        self.st.store[cell] = Seq(elt, size if not isinstance(size, int) else z3.IntVal(size), a, kind)
        return LV(cell), a

    def cell(self, v, name="v"):
        c = self.ex.newcell(name)
        self.st.store[c] = v
        return LV(c)

    def obj(self, cls, name="self", facts=True):
        fs = []
        v = self.ex.fresh(("rec", cls), name, 0, fs)
        for f in fs:
            self.assume(f)
        return self.cell(v, name)

    # -- running
    def find(self, qname, pred=None):
        fs = self.u.find(qname, pred)
        if not fs:
            # names printed differently (template arguments): compare normalised
            k = norm_name(qname)
            fs = [f for f in self.u.funcs if not self.u.is_pattern(f) and norm_name(self.u.qname(f)) == k and (pred is None or pred(f))]
        if not fs:
            raise ContractMissing(qname)
        return fs[0]

    def call(self, qname, args, this=None, pred=None):
        """returns (value, normal state or None, throws)"""
        fn = qname if isinstance(qname, dict) else self.find(qname, pred)
        ex = self.ex
        st = self.st.fork()
        ex.frames = []
        ex.top_throws = []
        q = self.u.qname(fn)
        self.out.functions.append(q)
        v = ex.invoke(fn, args, this, st)
        throws = ex.top_throws
        self.out.inlined += [c for c in sorted(ex.calls) if c not in self.out.inlined]
        if ex.dead(st):
            st = None
        return v, st, throws

    def construct(self, cls, args, pred=None):
        ex = self.ex
        r = ex.record(cls)
        if r is None:
            raise ContractMissing(cls)
        cands = []
        for c in r["inner"]:
            for d in ([c] if c.get("kind") != "FunctionTemplateDecl" else c["inner"]):
                if d.get("kind") == "CXXConstructorDecl" and not d.get("isImplicit") and len(self.u.params(d)) >= len(args) and (pred is None or pred(d)):
                    if self.u.defs.get(d["id"]):
                        cands.append(d)
        cands.sort(key=lambda d: len(self.u.params(d)))
        if not cands:
            raise ContractMissing(cls + " constructor")
        fn = self.u.defs[cands[0]["id"]]
        st = self.st.fork()
        ex.frames = []
        ex.top_throws = []
        this = ex.temp(st, ex.blank(("rec", cls), r), "obj")
        ps = self.u.params(fn)
        ex.frames.append(Frame(fn, {}, this))
        for i in range(len(args), len(ps)):
            args = list(args) + [ex.default_arg(fn, i, st)]
        ex.frames.pop()
        ex.invoke(fn, args, this, st)
        self.out.functions.append(self.u.qname(fn))
        if ex.dead(st):
            st = None
        return this, st, ex.top_throws

    # -- obligations
    def goal(self, name, hyps, goal, kind="post", inst=None):
        """inst: terms with which universally quantified hypotheses are instantiated (instead of leaving that to the solver)"""
        if isinstance(hyps, State):
            hyps = hyps.pc
        if inst:
            qf, work = [], prove.flatten(list(self.ex.facts) + list(hyps))
            for _ in range(3):
                nxt = []
                for h in work:
                    if prove.has_quant(h):
                        nxt += prove.instances(h, inst, 120)
                    else:
                        qf.append(h)
                work = prove.flatten(nxt)
            hyps = prove.dedupe(qf)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.goals.append(X.Obligation(name, list(hyps), goal, kind, ""))

    def discharge(self, bounds=True, only=None):
        """prove everything collected so far"""
        ex = self.ex
        pv = prove.Prover(ex.facts, self.timeout)
        pv.extra_axioms = self.axioms
        allobl = [o for o in ex.obls if bounds or o.kind != "bounds"] + self.goals
        if os.environ.get("ONLY"):
            allobl = [o for o in allobl if os.environ["ONLY"] in o.name]
        if only is not None:
            allobl = [o for o in allobl if only(o)]
        W = min(4, len(allobl) // 15)
        if W > 1:
            res = self.parallel(pv, allobl, W)
        else:
            res = self.prove_some(pv, allobl, 3)
        for o, r in zip(allobl, res):
            self.out.obls.append(dict(name=self.out.name + ": " + o.name, kind=o.kind, ok=r.ok, backend=r.backend, secs=round(r.secs, 3), detail=r.detail))
        ex.obls = []
        self.goals = []

    def prove_some(self, pv, obls, limit):
        cache = {}
        bad = 0
        out = []
        for o in obls:
            key = (o.goal.sexpr(), tuple(h.get_id() for h in o.hyps))
            if key in cache:
                r = cache[key]
            elif bad >= limit:
                r = prove.Result(False, "", "not attempted after %d failures in this unit" % limit)
            else:
                r = pv.prove(o.hyps, o.goal)
                if not r.ok and not bad and "sat:" not in r.detail:
                    r = pv.prove(o.hyps, o.goal, 3 * self.timeout)
                bad += not r.ok
                cache[key] = r
            out.append(r)
        return out

    def parallel(self, pv, obls, W):
        """the obligations are distributed over forked processes"""
        import pickle, tempfile, shutil
        d = tempfile.mkdtemp(prefix="vcp")
        try:
            pids = []
            for w in range(W):
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        r = self.prove_some(pv, obls[w::W], 1)
                        with open(os.path.join(d, str(w)), "wb") as f:
                            pickle.dump([x.__dict__ for x in r], f)
                        rc = 0
                    except BaseException:
                        with open(os.path.join(d, "err"), "a") as f:
                            f.write(traceback.format_exc()[-1500:])
                    finally:
                        os._exit(rc)
                pids.append(pid)
            for p in pids:
                os.waitpid(p, 0)
            out = [None] * len(obls)
            for w in range(W):
                f = os.path.join(d, str(w))
                if not os.path.exists(f):
                    e = os.path.join(d, "err")
                    raise Unsupported("a prover process ended" + (": " + open(e).read() if os.path.exists(e) else ""))
                for k, x in enumerate(pickle.load(open(f, "rb"))):
                    r = out[w + k * W] = prove.Result(True, "")
                    r.__dict__.update(x)
            return out
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def reachable(self, st, what):
        """vacuity guard: the state must not be contradictory"""
        s = z3.Solver()
        s.set("timeout", 1500)
        for h in self.ex.facts + st.pc:
            s.add(h)
        r = s.check()
        ok = r != z3.unsat
        self.out.obls.append(dict(name=self.out.name + ": reachable: " + what, kind="vacuity", ok=ok, backend="z3", secs=0, detail="" if ok else "the assumptions are contradictory"))
        return ok


def lean_unit(path, names):
    """unit of mathematical lemmas (independent of the code) checked by the Lean kernel"""
    def run(out):
        import subprocess, resource

        def limits():
            h = resource.getrlimit(resource.RLIMIT_AS)[1]
            resource.setrlimit(resource.RLIMIT_AS, (h, h))
        f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas", path)
        t0 = time.time()
        try:
            r = subprocess.run(["lean", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, preexec_fn=limits)
        except (OSError, subprocess.TimeoutExpired) as e:
            raise Unsupported("lean: %s" % e)
        txt = r.stdout.decode()
        if r.returncode or "error" in txt or "sorry" in txt:
            raise Unsupported("lean: " + txt[:300])
        src = open(f).read()
        for n in names:
            if "theorem %s " % n not in src:
                raise Unsupported("lean: no theorem " + n)
            out.obls.append(dict(name=out.name + ": lemma " + n, kind="lemma", ok=True, backend="lean", secs=round((time.time() - t0) / len(names), 3), detail=""))
    return run


def run_unit(name, fn):
    out = Outcome(name)
    t0 = time.time()
    try:
        fn(out)
        bad = [o for o in out.obls if not o["ok"]]
        if bad:
            out.status = "failed"
            out.reason = bad[0]["name"]
        elif not [o for o in out.obls if o["kind"] != "vacuity"]:
            out.status = "unsupported"
            out.reason = "no obligation was generated"
        else:
            out.status = "proved"
    except (Unsupported, ContractMissing, OverflowError, RecursionError, NotImplementedError) as e:
        out.status = "unsupported"
        out.reason = "%s: %s" % (type(e).__name__, e)
    except z3.Z3Exception as e:
        out.status = "unsupported"
        out.reason = "z3: %s\n%s" % (e, traceback.format_exc()[-1500:])
    except front.FrontError as e:
        out.status = "frontend"
        out.reason = str(e)
    except Exception as e:
        out.status = "unsupported"
        out.reason = "internal: %s\n%s" % (e, traceback.format_exc()[-2500:])
    out.secs = time.time() - t0
    return out


def forall(vs, body, pats=()):
    """universal quantifier; patterns that z3 does not accept are left out"""
    vs = list(vs)

    def good(p):
        names = set()
        for t in walk(p):
            if not z3.is_app(t) or t.sort() == Bool or t.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_ADD, z3.Z3_OP_ANUM):
                return False
            if z3.is_const(t):
                names.add(t.decl().name())
        return all(x.decl().name() in names for x in vs) and z3.is_app(p) and p.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)
    pats = [p for p in pats if isinstance(p, z3.PatternRef) or good(p)]
    try:
        if pats:
            return z3.ForAll(vs, body, patterns=list(pats))
    except z3.Z3Exception:
        pass
    return z3.ForAll(vs, body)
