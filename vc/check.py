#!/usr/bin/env python3-vt
"""check.py ID: decide one property on /repo's current source.

1. Every contract unit of the property is generated from the current source
   and its obligations are discharged (one forked process per unit).
2. The bounded validation harness of the property runs the real code; it
   replays failed obligations, stands in (bounded, not proved) for units the
   verifier cannot express, and validates the modelling assumptions.
"""
import os, sys, time, json, pickle, subprocess, importlib, tempfile, signal, shutil, resource, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(HERE, "units")]
REPO = os.environ.get("VERIF_REPO", "/repo")
import props

JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def run_units(mods, tier):
    """fork one process per unit after parsing the driver translation units once"""
    import core
    tasks = []
    for mn in mods:
        m = importlib.import_module(mn)
        for d in getattr(m, "DRIVERS", [m.DRIVER] if hasattr(m, "DRIVER") else []):
            t, defs = d if isinstance(d, tuple) else (d, ())
            try:
                core.unit(t, defs)
            except core.front.FrontError:
                pass
        for u in m.UNITS + (getattr(m, "THOROUGH", []) if tier == "thorough" else []):
            tasks.append((mn, u[0], u[1]))
    tmp = tempfile.mkdtemp(prefix="vcu")
    limit = 420 if tier == "quick" else 2400
    running, results, queue = {}, {}, list(enumerate(tasks))
    t_end = time.time() + (660 if tier == "quick" else 7200)
    while queue or running:
        while queue and len(running) < JOBS:
            i, (mn, name, fn) = queue.pop(0)
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
                    o = core.run_unit(name, fn)
                    o.module = mn
                    with open(os.path.join(tmp, "%d.tmp" % i), "wb") as f:
                        pickle.dump(o.__dict__, f)
                    os.rename(os.path.join(tmp, "%d.tmp" % i), os.path.join(tmp, "%d" % i))
                finally:
                    os._exit(0)
            running[pid] = (i, mn, name, time.time())
        time.sleep(0.02)
        for pid in list(running):
            i, mn, name, t0 = running[pid]
            p, s = os.waitpid(pid, os.WNOHANG)
            late = time.time() - t0 > limit or time.time() > t_end
            if p == 0 and not late:
                continue
            if p == 0:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            del running[pid]
            f = os.path.join(tmp, "%d" % i)
            if os.path.exists(f):
                results[i] = pickle.load(open(f, "rb"))
            else:
                results[i] = dict(name=name, module=mn, functions=[], inlined=[], obls=[], status="unsupported",
                                  reason="time limit" if p == 0 else "the verifier process ended (%d)" % s, assumed=[], secs=time.time() - t0)
    shutil.rmtree(tmp, ignore_errors=True)
    return [results[i] for i in sorted(results)]


def build_oracle(src, out, flags):
    import front
    d = os.path.dirname(out)
    front.config_h(d)
    cmd = ["g++", "-std=c++14", "-O1", "-g", "-w", "-pthread", "-I" + d, "-I" + os.path.join(VERIF, "oracle"), "-I" + os.path.join(REPO, "src/main/cxx/core"), "-I" + os.path.join(REPO, "src/main/cxx"),
           "-DREPO=\"%s\"" % REPO] + flags + [src, "-o", out, "-llapack", "-lblas"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 0, r.stdout.decode(errors="replace")


def run_oracle(name, seed, secs, tier):
    """(status, witness, cases, text): status ok | witness | nobuild"""
    src = os.path.join(VERIF, "oracle", name)
    with tempfile.TemporaryDirectory(prefix="orc") as d:
        if src.endswith(".cc"):
            exe = os.path.join(d, "oracle")
            ok, txt = build_oracle(src, exe, ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
            if not ok and "PUBLIC_ONLY" in open(src).read():
                # private members were renamed: go on without direct access to them
                ok, txt = build_oracle(src, exe, ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DPUBLIC_ONLY"])
            if not ok:
                return "nobuild", "", 0, txt[-3000:]
            cmd = [exe, str(seed), str(secs)]
        else:
            cmd = [sys.executable, src, str(seed), str(secs)]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:handle_segv=0:handle_abort=0:allocator_may_return_null=1", UBSAN_OPTIONS="exitcode=78:print_stacktrace=0", TMPDIR=d, VERIF_REPO=REPO)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d, start_new_session=True)
        try:
            so, se = p.communicate(timeout=secs * 3 + 300)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            so, se = p.communicate()
            rc = -999
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        so, se = so.decode(errors="replace"), se.decode(errors="replace")
    m = re.findall(r"^CASES (\d+)", so, re.M)
    cases = int(m[-1]) if m else 0
    w = re.findall(r"^WITNESS (.*)", so, re.M)
    samples = re.findall(r"^SAMPLE (.*)", so, re.M)
    if rc == 0:
        return "ok", "", cases, "\n".join(samples[:5])
    if rc == 3:
        return "nobuild", "", 0, so[-2000:] + se[-2000:]
    if w:
        return "witness", w[0], cases, se[-2000:]
    if rc in (77, 78):
        line = [l for l in se.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l]
        return "witness", "sanitizer: " + (line[0] if line else se[:300]), cases, se[-4000:]
    if rc < 0:
        return "witness", "the program under test ended with signal %d" % -rc if rc != -999 else "no termination", cases, se[-2000:]
    return "nobuild", "", cases, "harness ended with %d\n%s\n%s" % (rc, so[-1500:], se[-1500:])


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
            if m and m[1] == pid:
                out.append((re.compile(m[2]), m[3].strip()))
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    t0 = time.time()
    res = run_units(P["units"], tier) if P["units"] else []
    failed = [r for r in res if r["status"] == "failed"]
    undec = [r for r in res if r["status"] in ("unsupported", "frontend")]
    orc = None
    base = P.get("secs", 12)
    secs = base if tier == "quick" else 20 * base
    if failed and tier == "quick":
        secs = max(secs, 90)
    elif undec and tier == "quick":
        secs = max(secs, 40)
    oracles = P["oracle"] if isinstance(P["oracle"], (list, tuple)) else [P["oracle"]]
    orcs = []
    for o in oracles:
        orcs.append((o,) + run_oracle(o, seed, secs / len(oracles), tier))
    wit = [(o, w, x) for o, s, w, c, x in orcs if s == "witness"]
    vdir = os.path.join(VERIF, "replays")
    violations = 0
    lines = []
    nobuild = [(o, x) for o, s, w, c, x in orcs if s == "nobuild"]
    if wit:
        kf = known_findings(pid)
        for o, w, x in wit:
            hit = [t for p, t in kf if p.search(w)]
            if hit:
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
            else:
                violations += 1
                os.makedirs(vdir, exist_ok=True)
                rp = os.path.join(vdir, "%s.txt" % pid)
                with open(rp, "w") as f:
                    f.write("property %s: %s\n\nwitness on the real code (harness oracle/%s, seed %d):\n  %s\n\n%s\n" % (pid, P["title"], o, seed, w, x))
                    f.write("\nfailed obligations:\n" + "".join("  %s\n    %s\n" % (b["name"], b["detail"]) for r in failed for b in r["obls"] if not b["ok"]))
                    f.write("\nreplay: VERIF_SEED=%d python3-vt /verif/vc/check.py %s\n" % (seed, pid))
                lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
                break
    if failed and not violations and not any(l.startswith("KNOWN") for l in lines):
        violations += 1
        os.makedirs(vdir, exist_ok=True)
        rp = os.path.join(vdir, "%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("property %s: %s\n\nfailed obligations (no failing input found by the replay harness):\n" % (pid, P["title"]))
            for r in failed:
                for b in r["obls"]:
                    if not b["ok"]:
                        f.write("  %s\n    %s\n" % (b["name"], b["detail"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    obls = [b for r in res for b in r["obls"]]
    disch = [b for b in obls if b["ok"]]
    back = {}
    for b in disch:
        k = back.setdefault(b["backend"] or "trivial", [0, 0.0])
        k[0] += 1
        k[1] = round(k[1] + b["secs"], 3)
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "proof"), wall_s=round(time.time() - t0, 2), violations=violations,
              assumptions=P.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
              coverage=dict(obligations=len(obls), discharged=len(disch),
                            checker_cmd="python3-vt /verif/vc/check.py %s %s (obligations generated from the clang AST of /repo; back ends: normaliser, z3, cvc5)" % (pid, tier),
                            trusted_base=P.get("trusted", []) + props.COMMON_TRUSTED,
                            functions_under_contract=sorted({f for r in res for f in r["functions"]}),
                            functions_inlined=sorted({f for r in res for f in r["inlined"]}),
                            back_ends={k: dict(obligations=v[0], seconds=v[1]) for k, v in back.items()},
                            solver_seconds=round(sum(b["secs"] for b in obls), 2),
                            units=[dict(name=r["name"], status=r["status"], obligations=len(r["obls"]), seconds=round(r["secs"], 2), reason=r["reason"][:400]) for r in res],
                            not_proved=[r["name"] + ": " + r["reason"][:200] for r in undec],
                            evaluations=sum(c for o, s, w, c, x in orcs),
                            bounded_validation=[dict(harness="oracle/" + o, status=s, cases=c, note="bounded, never counted as proved: " + P.get("bounded", "")) for o, s, w, c, x in orcs],
                            samples=[b["name"] for b in disch[:3]] + [x for o, s, w, c, x in orcs if s == "ok" and x]))
    if P.get("level", "proof") != "proof":
        ev["coverage"]["explanation"] = P.get("explanation", P.get("bounded", ""))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d contract units, %d/%d obligations discharged, %d not expressible, bounded validation %s, %.1f s" % (
        pid, len(res), len(disch), len(obls), len(undec), ", ".join("%s (%d cases)" % (s, c) for o, s, w, c, x in orcs), time.time() - t0))
    for r in undec:
        print("  not proved: %s: %s" % (r["name"], r["reason"].strip().splitlines()[0][:200] if r["reason"] else ""))
    for o, x in nobuild:
        print("  harness %s gave no answer: %s" % (o, x.strip()[:600]))
    for l in lines:
        print(l)
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
