#!/usr/bin/env python3
"""Plants, confirms and tries out a seeded bug.
   seed.py add ID PROPERTY DEMO.rs 'needs' 'what it breaks'   (the change is in /repo's working tree; it is undone)
   seed.py try [ID...]     which check catches which bug (quick commands)
   seed.py confirm ID...   builds, tests and demonstrates again"""
import json, os, shutil, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
R = "/repo"
DEMO = '''#!/bin/bash
# Builds demo.rs as an integration test of the library, with the command of
# build.sh so that no dependency is rebuilt, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p %(dir)s
cp "$here/demo.rs" %(dir)s/vp_demo.rs
trap 'rm -f /repo/%(dir)s/vp_demo.rs; rmdir /repo/%(dir)s 2>/dev/null' EXIT
exe=$(cargo test "${ARGS[@]}" --no-run 2>&1 | tee /dev/stderr | sed -n 's/.*tests\\/vp_demo.rs (\\(.*\\))/\\1/p')
[ -x "$exe" ] || { echo "the demo does not build"; exit 3; }
timeout 120 "$exe" --nocapture
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")
    o = sh("git -C /repo status --short").stdout
    assert not o.strip(), o


def confirm(d):
    clean()
    r = sh(f"bash {d}/demo.sh", cwd=R)
    if r.returncode:
        return "demo fails on the unchanged tree:\n" + r.stdout[-3000:]
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode:
        return "patch does not apply: " + a.stdout
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            return "does not build:\n" + b.stdout[-3000:]
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode == 0:
            return "demo passes with the patch:\n" + r.stdout[-1500:]
        if "does not build" in r.stdout:
            return "demo does not build with the patch"
        print("   demo with patch:", "\n".join(r.stdout.strip().split("\n")[-12:])[:900])
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        j = json.load(open("/tmp/seedtest.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base.get("stable") or base.get("tests") or base.get("passed"))
        got = set(j.get("passed", []))
        if want - got:
            return f"tests fail: {sorted(want - got)[:8]}"
    finally:
        clean()
    return None


def check(pid, d):
    sh(f"git -C /repo apply {d}/patch.diff")
    try:
        r = sh(f"./check {pid}", cwd=V)
        return r
    finally:
        clean()


def main():
    if sys.argv[1] == "add":
        i, pid, demo, needs, breaks = sys.argv[2:7]
        d = os.path.join(S, i)
        os.makedirs(d, exist_ok=True)
        diff = sh("git -C /repo diff").stdout
        assert diff.strip(), "no change in /repo"
        open(d + "/patch.diff", "w").write(diff)
        clean()
        if demo.endswith(".sh"):
            shutil.copy(demo, d + "/demo.sh")
        else:
            kind = "proto/tests" if demo.endswith("proto.rs") else "plugins/host/tests" if demo.endswith("host.rs") else "lib/tests"
            shutil.copy(demo, d + "/demo.rs")
            open(d + "/demo.sh", "w").write(DEMO % {"dir": kind})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        e = confirm(d)
        if e:
            print(i, "NOT KEPT:", e)
            shutil.rmtree(d)
            return
        r = check(pid, d)
        print(i, pid, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout else f"MISSED rc={r.returncode}")
        print(r.stdout[:1200])
    elif sys.argv[1] == "try":
        ids = sys.argv[2:] or sorted(os.listdir(S))
        for i in ids:
            d = os.path.join(S, i)
            pid = json.load(open(d + "/meta.json"))["property"]
            sh(f"git -C /repo apply {d}/patch.diff")
            try:
                r = sh("./check all", cwd=V)
            finally:
                clean()
            hits = re.findall(r"VIOLATION property=(\w+)", r.stdout)
            print(i, pid, "CAUGHT" if pid in hits else "MISSED", "by", " ".join(hits), flush=True)
    elif sys.argv[1] == "confirm":
        for i in sys.argv[2:]:
            print(i, confirm(os.path.join(S, i)) or "confirmed", flush=True)


main()
