#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy and files it under seeded/.

  plant.py BUGFILE.py [--check] [--only ID]

BUGFILE.py defines BUGS = [dict(id=, property=, edits=[(file, old, new)...],
demo="C++ source" (or sh="shell body"), needs=, breaks=)].  The scratch copy is
/tmp/plant/repo (a copy of /repo with build and test scripts beside it)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"
R = S + "/repo"
SH = '''#!/bin/bash
# run in the repository after a build; 0 = behaves, otherwise the bug shows
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$W" -delete' EXIT
g++ -std=gnu++17 -O1 -w -I src/include -I src/idf -I _build/src "$D/demo.cpp" _build/src/idf/libidf3.a _build/src/libiges_static.a -lsisl -o "$W/demo" >"$W/cc.log" 2>&1 || { tail -5 "$W/cc.log"; exit 3; }
export IDF2IGS="$PWD/_build/src/idf/idf2igs"
cd "$W" && timeout 120 ./demo 2>"$W/err.log"
r=$?
echo "demo: exit $r"
exit $r
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def reset():
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R, R))


def build_test():
    r = sh("bash %s/build.sh" % S)
    if r.returncode:
        return "build: " + r.stdout[-1500:]
    sh("bash %s/test.sh %s/t.json" % (S, S))
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    t = set(json.load(open(S + "/t.json"))["passed"])
    miss = [x for x in b if x not in t]
    return "tests fail: %s" % miss[:5] if miss else None


def original_lines():
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
    out = []
    for f in sh("git -C %s diff --name-only" % R).stdout.split():
        bad = 0
        bl = subprocess.run("git -C /repo blame -s %s -- %s" % ("HEAD", f), shell=True, stdout=subprocess.PIPE).stdout.decode("latin-1").splitlines()
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh("git -C %s diff -U0 -- %s" % (R, f)).stdout, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for i in range(a, a + n):
                h = bl[i - 1].split()[0].lstrip("^")
                if not any(base.startswith(h[:7]) or h in o for o in ORIG):
                    bad += 1
        out.append((f, bad))
    return out


ORIG = []


def main():
    mod = {}
    exec(open(sys.argv[1]).read(), mod)
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    base = sh("git -C /repo log --format=%H --grep='^fix:' --invert-grep").stdout.split()
    ORIG.extend(base)
    for b in mod["BUGS"]:
        if only and b["id"] != only:
            continue
        reset()
        d = "%s/new/%s" % (S, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        err = build_test() if False else None
        open(d + "/demo.cpp", "w").write(b.get("demo", "int main(){return 0;}"))
        open(d + "/demo.sh", "w").write(b.get("sh", SH))
        os.chmod(d + "/demo.sh", 0o755)
        for n, c in b.get("files", {}).items():
            open(os.path.join(d, n), "w").write(c)
        sh("bash %s/build.sh" % S)
        r0 = sh("bash %s/demo.sh" % d, cwd=R)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(R, f)
                s = open(p, encoding="latin-1").read()
                if s.count(old) < 1:
                    raise Exception("not found in %s: %s" % (f, old[:60]))
                s = s.replace(old, new, 1)
                open(p, "w", encoding="latin-1").write(s)
        except Exception as e:
            print(b["id"], "EDIT FAILED", e)
            continue
        err = build_test()
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
        patch = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
        ol = original_lines()
        ok = not err and r0.returncode == 0 and r1.returncode != 0 and not any(n for f, n in ol)
        print(b["id"], "OK" if ok else "REJECTED", "clean=%d patched=%d" % (r0.returncode, r1.returncode), err or "", [x for x in ol if x[1]], r0.stdout[-300:] if r0.returncode else "", flush=True)
        if ok:
            dst = os.path.join(HERE, "seeded", b["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            if "sh" in b and "demo" not in b:
                os.unlink(dst + "/demo.cpp")
            open(dst + "/patch.diff", "wb").write(patch)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(dst + "/meta.json", "w"), indent=1)
        if "--check" in sys.argv and not err:
            e = dict(os.environ, SIM_REPO=R, SIM_BUILD=S + "/simb", VERIF_SEED="1", SIM_EVIDENCE=S + "/ev", SIM_REPLAYS=S + "/rp")
            for p in [b["property"]] + (b.get("also", []) if "--also" in sys.argv else []):
                r = sh("python3 %s/driver.py %s quick" % (HERE, p), env=e)
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                print("   check %s exit %d %s" % (p, r.returncode, v[:2] or r.stdout[-200:]), flush=True)
    reset()


main()
