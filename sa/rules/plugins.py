"""C22: plugin libraries are loaded checked and kept; C23: the parallel map over all vertices"""
from itertools import product
from core import prop
from absint import Stuck, TOP, TRUE, FALSE, UNIT, agg, boolean
from values import PANIC, sym, bounds
from world import World
from rules.codec import pv


class Mapper(World):
    def __init__(self, F, items, fate, eager, start="ok"):
        super().__init__(F, keep={"VertexMapper::num_threads"})
        self.vertices, self.fate, self.EAGER, self.start = items, fate, eager, start

    def special(self, path, name, short, args, vs, env, c):
        tr = c.get("trait", "").split("::")[-1].split("<")[0]
        if name == "num_threads" and tr == "VertexMapper":
            return ("rng", "threads", 0, 1 << 40)
        if name == "all_vertices" and tr in ("Transaction", ""):
            return agg("Ok", ("it", self.vertices)) if self.start == "ok" else agg("Err", sym("start error"))
        if name == "map" and tr == "VertexMapper":
            e = self.log(env, ("map", vs[1]))
            if vs[0][0] == "agg":
                fs = [f for f in self.F.find(kind="fn") if f.label() == f"<{vs[0][1]} as VertexMapper>::map"]
                return self.run(fs[0], args, e) if fs else [(TOP, e)]
            return [({"ok": agg("Ok", UNIT), "err": agg("Err", sym("map error", vs[1])), "panic": PANIC}[self.fate.get(vs[1], "ok")], e)]
        return None


def unwrapped(v):
    """the cause inside error variants"""
    while v[0] == "agg" and len(v[2]) == 1:
        v = v[2][0][1]
    return v


@prop("C23")
def parallel_map(ctx, rep):
    """every vertex once, waited for, first error answered"""
    F = ctx.F
    fs = [f for f in F.find(kind="fn", crate="indradb_plugin_host") if f.label() == "map" and f.file.endswith("util.rs")]
    if len(fs) != 1:
        rep.missing("util::map")
        return
    f = fs[0]
    rep.analysed(f)
    for d in F.find(kind="fn", crate="indradb_plugin_host"):
        if d.label().endswith("num_threads"):
            rep.analysed(d)

    def ev(A, g, args, env):
        try:
            return A.run(g, args, env)
        except Stuck:
            rep.missing(g.label() + ": not decided within its budget")
            return []
        finally:
            rep.steps += A.steps

    vs = [sym("vertex", k) for k in range(3)]
    for n in range(4):
        for kinds in product(("ok", "err", "panic", "unread"), repeat=n):
            if n == 3 and len(set(kinds)) > 2:
                continue
            items = tuple(agg("Err", sym("read error", k)) if x == "unread" else agg("Ok", vs[k]) for k, x in enumerate(kinds))
            fate = {vs[k]: x for k, x in enumerate(kinds)}
            errs = [sym("read error", k) if x == "unread" else sym("map error", vs[k]) for k, x in enumerate(kinds) if x in ("err", "unread")]
            reads = [e for e in errs if e[1] == "read error"]
            firsts = set(errs[:1] + (reads + [e for e in errs if e not in reads])[:1])
            what = "vertices " + ", ".join(kinds) if n else "no vertices"
            for eager in (True, False):
                A = Mapper(F, items, fate, eager)
                outs = ev(A, f, [("ref", (0, "txn"), ()), ("ref", ("heap", "mapper"), ())], {("heap", "mapper"): sym("mapper")})
                sched = "jobs run at once" if eager else "jobs run when waited for"
                if not outs:
                    rep.missing(f"map of {what} gives nothing")
                for v, env in outs:
                    log = env.get(("log",), ())
                    done = [x for t, x in log if t == "map"]
                    at = f"map over {what} ({sched})"
                    dup = [x for x in done if done.count(x) > 1]
                    rep.check(not dup, f"twice: {kinds}", f"{at} maps {pv(dup[0]) if dup else ''} more than once; {f.file}:{f.line}", f"{at}: none twice")
                    if v == PANIC:
                        rep.check(False, f"panics: {kinds}", f"{at} panics; {f.file}:{f.line}")
                        continue
                    left = env.get(("pool",), ((), 0))[0]
                    rep.check(not left, f"answers early: {kinds}", f"{at} answers while {len(left)} started map operations have not finished; {f.file}:{f.line}", f"{at}: waits for all")
                    if left:
                        continue
                    if not errs:
                        miss = [x for x, k in zip(vs, kinds) if x not in done]
                        rep.check(not miss, f"skipped: {kinds}", f"{at} does not map {pv(miss[0]) if miss else ''} although no error was seen; {f.file}:{f.line}", f"{at}: all mapped")
                    ok = v[0] == "agg" and (v[1] == "Err" and unwrapped(v) in firsts if errs else v[1] == "Err" if "panic" in kinds else v == agg("Ok", UNIT))
                    want = "the first error" if errs else "an error" if "panic" in kinds else "Ok"
                    rep.check(ok, f"answer: {kinds}: {pv(v)}"[:200], f"{at} answers {pv(v)}, expected {want}; {f.file}:{f.line}", f"{at}: answers {want}")
    A = Mapper(F, (), {}, True, "error")
    for v, env in ev(A, f, [("ref", (0, "txn"), ()), ("ref", ("heap", "mapper"), ())], {("heap", "mapper"): sym("mapper")}):
        rep.check(v[0] == "agg" and v[1] == "Err" and unwrapped(v) == sym("start error"), f"start: {pv(v)}", f"map answers {pv(v)} when the vertices cannot be read, expected that error; {f.file}:{f.line}", "vertices cannot be read: that error")
    # the naive vertex count plugin
    fs = [g for g in F.find(kind="fn", crate="indradb_plugin_naive_vertex_count") if g.label() == "<NaiveVertexCountPlugin as Plugin>::call"]
    if len(fs) != 1:
        rep.missing("NaiveVertexCountPlugin::call")
        return
    g = fs[0]
    rep.analysed(g)
    for n in range(4):
        for eager in (True, False):
            A = Mapper(F, tuple(agg("Ok", x) for x in vs[:n]), {}, eager)
            A.keep.add("Json::new")
            for v, env in ev(A, g, [TOP, ("ref", (0, "txn"), ()), sym("arg")], {}):
                w = unwrapped(v)
                rep.check((w == ("i", n) or w[0] == "sym" and w[2] == (("i", n),)) and v[0] == "agg" and v[1] == "Ok", f"count of {n}: {pv(v)}"[:200], f"the naive vertex count of {n} vertices answers {pv(v)}; {g.file}:{g.line}", f"naive count of {n}: {n}")
    A = Mapper(F, (agg("Err", sym("read error", 0)),), {}, True)
    for v, env in ev(A, g, [TOP, ("ref", (0, "txn"), ()), sym("arg")], {}):
        rep.check(v[0] == "agg" and v[1] == "Err", f"count error: {pv(v)}"[:200], f"the naive vertex count answers {pv(v)} when a vertex cannot be read; {g.file}:{g.line}", "naive count, read error: Err")
