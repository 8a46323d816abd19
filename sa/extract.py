"""Builds the MIR driver and dumps the facts of /repo's current sources.

Everything lives under /verif/.cache (ignored by git).  Facts are keyed by a
hash of the sources, so a change in /repo is always re-extracted."""
import time
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE") or os.path.join(VERIF, ".cache")
FEATURES = "indradb-lib/rocksdb-datastore,indradb-proto/client,indradb-proto/server"
CRATES = ["indradb", "indradb_proto", "indradb_client.bin", "indradb_server.bin", "indradb_plugin_host", "indradb_plugin_hello_world",
          "indradb_plugin_naive_vertex_count"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def sources():
    r = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ("target", ".git", "node_modules")]
        for f in fs:
            if f.endswith((".rs", ".toml", ".lock", ".proto")):
                r.append(os.path.join(d, f))
    return r


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(CACHE, "driver-" + digest([src]), "mirfacts")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = sh(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", out + ".tmp"])
        if r.returncode:
            raise RuntimeError("the MIR driver does not build:\n" + r.stdout[-3000:])
        os.rename(out + ".tmp", out)
    return out


def facts_dir(debug=False):
    """path of the facts of the current sources; extracts them when they are not there"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = driver()
        key = digest(sources() + [os.path.join(VERIF, "driver", "main.rs")]) + ("-debug" if debug else "")
        out = os.path.join(CACHE, "facts", key)
        if os.path.exists(os.path.join(out, "_ok")):
            return out
        root = os.path.join(CACHE, "facts")
        os.makedirs(root, exist_ok=True)
        old = sorted((os.path.join(root, x) for x in os.listdir(root)), key=os.path.getmtime)
        for x in old[:-6]:
            if time.time() - os.path.getmtime(x) > 600:
                shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(CACHE, "target")
        for sub in ("build", ".fingerprint", "deps"):
            p = os.path.join(tgt, "debug", sub)
            if os.path.isdir(p):
                for x in os.listdir(p):
                    if x.startswith("indradb") and sub != "deps":
                        shutil.rmtree(os.path.join(p, x), ignore_errors=True)
        empty = os.path.join(CACHE, "emptylib")
        os.makedirs(empty, exist_ok=True)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("CARGO", "RUSTC", "RUSTFLAGS", "RUSTDOC")) and k not in ("CARGO_HOME",):
                env.pop(k)
        env.update({"RUSTC_WORKSPACE_WRAPPER": d, "MIRFACTS_DIR": out, "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
                    "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "RUSTUP_TOOLCHAIN": "nightly", "CARGO_NET_OFFLINE": "true",
                    "CARGO_TARGET_DIR": tgt, "CARGO_INCREMENTAL": "0"})
        for l in ("ROCKSDB", "SNAPPY", "LZ4", "ZSTD", "Z", "BZ2"):
            env[l + "_LIB_DIR"] = empty
        if debug:
            env["MIRFACTS_DEBUG"] = "1"
        r = sh(["cargo", "check", "--workspace", "--locked", "--offline", "--features", FEATURES], cwd=REPO, env=env)
        if r.returncode:
            raise RuntimeError("cargo check under the MIR driver failed:\n" + r.stdout[-4000:])
        missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))]
        if missing:
            raise RuntimeError(f"no facts for {missing}:\n" + r.stdout[-3000:])
        open(os.path.join(out, "_ok"), "w").write(r.stdout[-2000:])
        return out


if __name__ == "__main__":
    print(facts_dir("--debug" in sys.argv))
