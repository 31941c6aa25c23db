#!/usr/bin/env python3
"""seed.py: build /verif/seeded/<id> from (file, old, new) edits and a demo; validate in a scratch copy.

usage: seed.py FILE.py   where FILE.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=C++ source | sh=shell body)}
       seed.py --validate id ... """
import os, sys, subprocess, json, shutil, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = '''#!/bin/bash
# exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
cat > "$d/config.h" <<'X'
#define ESPECIA_CONFIG_H
#include <string>
namespace especia {
const std::string project_name = "", project_title = "", project_long_name = "", project_doi = "", project_doi_html = "", system_name = "", cxx_compiler = "", cxx_compiler_version = "";
}
X
g++ -std=c++14 -O1 -w -pthread -I"$d" -I"$PWD/src/main/cxx/core" -I"$PWD/src/main/cxx" "$here/demo.cc" -o "$d/demo" @LIBS@ || exit 2
cd "$d" && timeout 120 ./demo
'''


def make(i, s):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.check_call(["git", "-C", REPO, "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        for f, a, b in s["edits"]:
            p = os.path.join(w, "r", "src/main/cxx", f)
            t = open(p).read()
            assert t.count(a) == s.get("count", 1), (i, f, t.count(a), a)
            t = t.replace(a, b)
            open(p, "w").write(t)
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    finally:
        subprocess.call(["git", "-C", REPO, "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "demo" in s:
        open(os.path.join(d, "demo.cc"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(SH.replace("@LIBS@", s.get("libs", "")))
    else:
        open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n# exit 0 when the property holds\n" + s["sh"])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


def validate(i, tests=True):
    d = os.path.join(V, "seeded", i)
    w = tempfile.mkdtemp(prefix="seedv")
    r = w + "/r"
    try:
        subprocess.check_call(["cp", "-a", REPO, r])
        a = subprocess.run(["bash", d + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        subprocess.check_call(["git", "-C", r, "apply", d + "/patch.diff"])
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(i, "demo unchanged:", a.returncode, "patched:", b.returncode, b.stdout.decode(errors="replace").strip()[-200:], "" if a.returncode == 0 and b.returncode != 0 else "  <<<<<< BAD " + a.stdout.decode(errors="replace")[-600:], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    if sys.argv[1] == "--validate":
        for i in sys.argv[2:]:
            validate(i)
        return
    S = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    for i, s in S.items():
        if not only or i in only:
            make(i, s)
            validate(i)


main()
