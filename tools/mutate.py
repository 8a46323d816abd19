#!/usr/bin/env python3
"""mutate.py CASES.py [-k NAME] [-v] [-j N]: applies textual edits in scratch copies and shows what the checks say.
CASES.py defines CASES = [(name, 'bug'|'ok', [(file, old, new)...], [properties])]; properties [] = all."""
import os, queue, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
K = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else ""
J = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 5
VERB = "-v" in sys.argv
todo = queue.Queue()
for c in ns["CASES"]:
    if not K or re.search(K, c[0]):
        todo.put(c)
bad = []
lock = threading.Lock()


def say(*a):
    with lock:
        print(*a, flush=True)


def work(n):
    scr, cache = f"/tmp/scratch-mutate-{os.getpid()}-{n}", f"/tmp/mutate-cache-{os.getpid()}-{n}"
    os.makedirs(cache)
    for x in os.listdir(V + "/.cache"):
        if x not in ("facts", "lock"):
            subprocess.run(["cp", "-a", f"{V}/.cache/{x}", cache], check=True)
    try:
        while True:
            try:
                c = todo.get_nowait()
            except queue.Empty:
                return
            one(c, scr, cache)
    finally:
        shutil.rmtree(scr, ignore_errors=True)
        shutil.rmtree(cache, ignore_errors=True)


def one(case, scr, cache):
    name, kind, edits, props = case
    shutil.rmtree(scr, ignore_errors=True)
    subprocess.run(f"mkdir -p {scr} && git -C /repo archive HEAD | tar xf - -C {scr}", shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(scr, f)
        s = open(p).read()
        if old not in s:
            say(f"?? {name}: text not found in {f}: {old[:60]!r}")
            bad.append(name)
            return
        open(p, "w").write(s.replace(old, new, 1))
    out = ""
    env = dict(os.environ, VERIF_REPO=scr, VERIF_CACHE=cache, VERIF_EVIDENCE=cache + "/evidence")
    for pr in props or ["all"]:
        r = subprocess.run([V + "/check", pr], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out += r.stdout
    hits = re.findall(r"VIOLATION property=(\w+)", out)
    if "could not be completed" in out or "does not build" in out or "driver failed" in out:
        m = re.findall(r"^(?:error.*|\w*Error.*)\n(?:.*\n){0,6}", out, re.M)
        say(f"!! {name}: " + "".join(m[:3])[:900])
        bad.append(name)
        return
    good = bool(hits) == (kind == "bug")
    if not good:
        bad.append(name)
    msg = ("ok " if good else "## ") + f"{name} [{kind}]: " + (" ".join(hits) or "quiet")
    if VERB or not good and kind != "bug":
        msg += "\n" + "\n".join(l[:400] for l in out.split("\n") if l.startswith("  "))[:4000 if VERB else 800]
    say(msg)


ts = [threading.Thread(target=work, args=(i,)) for i in range(min(J, todo.qsize()))]
[t.start() for t in ts]
[t.join() for t in ts]
print("unexpected:", len(bad), bad)
