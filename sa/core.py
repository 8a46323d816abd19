"""Check runner: rules register themselves with @prop, get a Ctx, report on a Report."""
import json, os, sys, time, traceback
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import extract
from facts import Facts
from engine import *
from cond import *
from store import *
import ops as opsmod
from ops import Op, STORES, RDB_OPAQUE

RULES = {}


def prop(pid):
    def d(f):
        RULES.setdefault(pid, []).append(f)
        return f
    return d


# canonical names of the parameters of the datastore operations, by position
PARAMS = {
    "range_vertices": ["offset"], "specific_vertices": ["ids"], "vertex_ids_with_property": ["name"], "vertex_ids_with_property_value": ["name", "value"],
    "range_edges": ["offset"], "range_reversed_edges": ["offset"], "specific_edges": ["edges"], "edges_with_property": ["name"],
    "edges_with_property_value": ["name", "value"], "vertex_property": ["vertex", "name"], "all_vertex_properties_for_vertex": ["vertex"],
    "edge_property": ["edge", "name"], "all_edge_properties_for_edge": ["edge"], "delete_vertices": ["vertices"], "delete_edges": ["edges"],
    "delete_vertex_properties": ["props"], "delete_edge_properties": ["props"], "create_vertex": ["vertex"], "create_edge": ["edge"],
    "bulk_insert": ["items"], "index_property": ["name"], "set_vertex_properties": ["ids", "name", "value"], "set_edge_properties": ["edges", "name", "value"],
    "vertex_count": [], "edge_count": [], "all_vertices": [], "all_edges": [], "sync": [],
}
MUTATORS = ["create_vertex", "create_edge", "delete_vertices", "delete_edges", "delete_vertex_properties", "delete_edge_properties", "set_vertex_properties",
            "set_edge_properties", "bulk_insert", "index_property"]
READERS = [m for m in PARAMS if m not in MUTATORS and m != "sync"]


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = {}       # key -> message
        self.oblig = 0
        self.ok = 0
        self.fns = set()
        self.sites = 0
        self.steps = 0  # of the abstract interpreter
        self.samples = []
        self.notes = []

    def analysed(self, *fns):
        for f in fns:
            if f is not None:
                self.fns.add(f if isinstance(f, str) else f.label())

    def check(self, ok, key, msg, sample=None):
        """one obligation; key names the construct without line numbers"""
        self.oblig += 1
        if ok:
            self.ok += 1
            if sample and len(self.samples) < 40:
                self.samples.append(sample)
        else:
            self.viol.setdefault(key, msg)
        return ok

    def missing(self, what):
        self.oblig += 1
        self.viol.setdefault("missing:" + what, f"anchor not found: {what}")


class Ctx:
    def __init__(self, debug=False):
        self.debug = debug
        self.dir = extract.facts_dir(debug)
        self.F = Facts(self.dir)
        self.ops = {}

    def op(self, store, name, rep=None, assume=None, akey=None):
        k = (store, name, akey)
        if k not in self.ops:
            params = {i + 2: mk("param", p) for i, p in enumerate(PARAMS.get(name, []))}
            self.ops[k] = opsmod.op(self.F, store, name, params, assume)
        o = self.ops[k]
        if rep is not None:
            if o is None:
                rep.missing(f"{store} {name}")
            else:
                rep.analysed(o.fn)
                rep.sites += len(o.A.events)
                for e in o.A.events.values():
                    if e.fn.crate.startswith("indradb"):
                        rep.analysed(e.fn)
        return o


def where(ev):
    return f"{ev.fn.file}:{ev.line} in {ev.fn.label()}"


def lits(cl):
    return frozenset(("" if l == "Y" else "not " if l == "N" else f"[{l if isinstance(l, str) else '/'.join(sorted(l))}] ") + sshow(a) for a, l in cl)


def known(pid):
    """keys of the known findings of one property"""
    r = {}
    p = os.path.join(extract.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property="):
                head, _, msg = line[len("finding: "):].partition(" :: ")
                q, _, key = head.partition(" key=")
                if q == "property=" + pid:
                    r[key.strip()] = msg.strip()
    return r


def run(pid, tier):
    t0 = time.time()
    rep = Report(pid)
    ctxs = []
    try:
        ctx = Ctx()
        ctxs.append(ctx)
        for f in RULES[pid]:
            f(ctx, rep)
        if tier == "thorough":
            # the same obligations on the build with debug assertions
            ctx2 = Ctx(debug=True)
            ctxs.append(ctx2)
            rep2 = Report(pid)
            for f in RULES[pid]:
                f(ctx2, rep2)
            for k, m in rep2.viol.items():
                rep.viol.setdefault(k, m + " [debug build]")
            rep.oblig += rep2.oblig
            rep.ok += rep2.ok
            rep.sites += rep2.sites
            rep.steps += rep2.steps
    except Exception:
        tb = traceback.format_exc()
        print(tb, file=sys.stderr)
        print(f"{pid}: the analysis could not be completed: " + tb.strip().split("\n")[-1])
        if not rep.viol:
            return 2
    if rep.oblig == 0:
        rep.viol["no-obligations"] = "no obligation was generated"
    kn = known(pid)
    new = {k: m for k, m in rep.viol.items() if k not in kn}
    old = {k: m for k, m in rep.viol.items() if k in kn}
    crates = sorted({c for x in ctxs for c in x.F.crates})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
        "coverage": {
            "explanation": "static analysis of the type-checked program (MIR) of /repo: " + "; ".join((f.__doc__ or f.__name__).strip().split("\n")[0] for f in RULES[pid]),
            "obligations": rep.oblig, "discharged": rep.ok, "call_sites": rep.sites, "abstract_steps": rep.steps, "functions": sorted(rep.fns)[:400],
            "functions_analysed": len(rep.fns), "crates": crates, "samples": rep.samples[:40], "notes": rep.notes[:40],
        },
        "assumptions": ["the models of std, rocksdb and tonic functions in sa/engine.py and sa/store.py", "rustc's MIR of the current sources"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(os.environ.get("VERIF_EVIDENCE") or os.path.join(extract.VERIF, "evidence")), exist_ok=True)
    path = os.path.join(os.environ.get("VERIF_EVIDENCE") or os.path.join(extract.VERIF, "evidence"), pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}]: {rep.ok}/{rep.oblig} obligations discharged, {len(rep.fns)} functions, {rep.sites} call sites, {rep.steps} abstract steps, {ev['wall_s']} s")
    for k in sorted(old):
        print(f"KNOWN-FINDING: property={pid} {k}: {old[k]}")
    if new:
        rp = os.path.join(os.environ.get("VERIF_EVIDENCE") or os.path.join(extract.VERIF, "evidence"), pid + ".violations.txt")
        with open(rp, "w") as f:
            for k in sorted(new):
                f.write(f"{k}\n    {new[k]}\n")
        for k in sorted(new):
            print(f"  {k}: {new[k]}"[:1500])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def main():
    import importlib
    for f in sorted(os.listdir(os.path.join(HERE, "rules"))):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("rules." + f[:-3])
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if args and args[0] == "all":
        rc = 0
        for p in sorted(RULES):
            rc |= run(p, tier)
        sys.exit(rc)
    if not args or args[0] not in RULES:
        print("usage: check <property>|all; have", sorted(RULES))
        sys.exit(2)
    sys.exit(run(args[0], tier))
