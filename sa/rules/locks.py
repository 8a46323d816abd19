"""C39, C40: guards of locks, from where they are taken to where they are let go"""
import re
from core import prop
from facts import clean_ty, strip_generics, term_succ

GUARD = re.compile(r"(?<![\w])((?:[\w]+::)*)((?:Mapped)?(?:Mutex|RwLockRead|RwLockWrite|ReentrantMutex|ArcMutex|ArcRwLockRead|ArcRwLockWrite|OwnedMutex|OwnedRwLockRead|OwnedRwLockWrite)Guard)<")
TAKE = re.compile(r"(?:^|::)(Mutex|RwLock|ReentrantMutex|FairMutex)(?:::<.*>)?::(lock|read|write|upgradable_read|lock_arc|read_arc|write_arc|blocking_lock|blocking_read|blocking_write|lock_owned|read_owned|write_owned)$")
SPAWN = ("spawn", "spawn_blocking", "execute", "spawn_local", "spawn_unchecked", "spawn_scoped")
WAIT = re.compile(r"(ThreadPool::join|JoinHandle(::<.*>)?::join|ScopedJoinHandle(::<.*>)?::join|Barrier::wait)$")
MESSAGE = re.compile(r"(::blocking_send|::blocking_recv|::block_on|mpsc::(Sender|SyncSender|Receiver)(::<.*>)?::(send|recv))$")
OPS = ("delete_vertices", "delete_edges", "delete_vertex_properties", "delete_edge_properties", "bulk_insert", "set_vertex_properties", "set_edge_properties", "index_property")


def inner(ty, i):
    """the generic arguments that begin at i"""
    d, j = 1, i
    while j < len(ty) and d:
        d += {"<": 1, ">": -1}.get(ty[j], 0) if ty[j - 1:j + 1] != "->" else 0
        j += 1
    return ty[i:j - 1]


def protected(ty):
    """what a lock protects: the last type argument, without paths and lifetimes"""
    ty = re.sub(r"'[\w{}]+,? ?", "", ty)
    ty = re.sub(r"(?:\w+::)+", "", ty)
    parts, d, cur = [], 0, ""
    for ch in ty:
        d += {"<": 1, "(": 1, "[": 1, ">": -1, ")": -1, "]": -1}.get(ch, 0)
        if ch == "," and d == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
    return (parts + [cur])[-1].strip()


class Locks:
    def __init__(self, F):
        self.F = F
        self.own = {}
        for p, a in F.adts.items():
            if p.startswith("indradb"):
                self.own[p.split("::", 1)[-1]] = [f[1] for _, fs in a["variants"] for f in fs]
        self.kinds = {}
        self.acq = {}
        self.wait = {}
        self.calling = {}
        self.impls = {}
        for f in F.fns.values():
            if f.trait and f.blocks and f.crate.startswith("indradb"):
                self.impls.setdefault((f.trait, f.name), []).append(f)

    def guards(self, ty, seen=()):
        """{(key, kind)} of the guards that a value of this type owns"""
        ty = str(ty)
        if (ty, seen) in self.kinds:
            return self.kinds[(ty, seen)]
        r = set()
        t = ty.strip()
        if not t.startswith(("&", "*", "fn(", "for<", "std::marker::PhantomData", "dyn ")) and "{closure" not in t and "{async" not in t and not re.match(r"(std::|core::)?(sync::)?(Arc|Weak|poison::|Rc)<", t):
            for m in GUARD.finditer(t):
                a = protected(inner(t, m.end()))
                r.add((a, "read" if "Read" in m.group(2) else "write", "tokio" in m.group(1)))
            if re.search(r"(?:Datastore>?::|\bSelf::|\bD::)Transaction\b", t) and "closure" not in t:
                r.add(("the datastore's transaction", "write", False))
            if not r:
                for p, fs in self.own.items():
                    if p not in seen and re.search(r"(?<![\w:])(?:indradb::)?" + re.escape(p) + r"(?![\w])", t) and not re.search(r"[&*][^<>,]*" + re.escape(p), t):
                        for x in fs:
                            r |= self.guards(clean_ty(x), seen + (p,))
        self.kinds[(ty, seen)] = r
        return r

    def owned(self, f, i):
        return self.guards(f.locals[i][0])

    def calls(self, f):
        """(block, terminator, callee, path)"""
        if f.id not in self.calling:
            self.calling[f.id] = list(self.find_calls(f))
        return self.calling[f.id]

    def find_calls(self, f):
        for i, b in enumerate(f.blocks):
            t = b["t"]
            if not b["c"] and t[0] == "call" and t[1][0] == "const" and isinstance(t[1][1], dict) and "fn" in t[1][1]:
                yield i, t, t[1][1]["fn"], strip_generics(t[1][1]["fn"]["path"])

    def callees(self, c, path):
        """the workspace functions that a call can reach, closures given to it included unless another thread runs them"""
        F = self.F
        g = F.fns.get(c.get("rid", c["id"])) or F.fns.get(c["id"])
        r = [g] if g is not None and g.blocks else []
        if not r:
            parts = path.split("::")
            if len(parts) > 1:
                r += self.impls.get((parts[-2].split("<")[0], parts[-1]), [])
        if path.split("::")[-1] not in SPAWN:
            r += [F.fns[x] for x in c.get("closures", ()) if x in F.fns and F.fns[x].blocks]
        return r

    def taken(self, f, t, path):
        """the guards taken by this very call"""
        if TAKE.search(path):
            return self.owned(f, t[3][0]) or {(protected(inner(path, path.find("<") + 1)) if "<" in path else "?", "write", False)}
        if path.endswith("Datastore::transaction"):
            return {("the datastore's transaction", "write", False)}
        return set()

    def acquires(self, f):
        """every lock that running f can take: key -> how"""
        if f.id in self.acq:
            return self.acq[f.id]
        self.acq[f.id] = {}
        seen, st, r = {f.id}, [(f, f.label())], {}
        while st:
            g, how = st.pop()
            for i, t, c, path in self.calls(g):
                for k in self.taken(g, t, path):
                    r.setdefault(k[0], how)
                for h in self.callees(c, path):
                    if h.id not in seen:
                        seen.add(h.id)
                        st.append((h, how + " -> " + h.label()))
        self.acq[f.id] = r
        return r

    def waits(self, f):
        """(kind, path, function) of waiting for others in f or what it calls"""
        if f.id in self.wait:
            return self.wait[f.id]
        r = self.wait[f.id] = set()
        seen, st = {f.id}, [f]
        while st:
            g = st.pop()
            for i, t, c, path in self.calls(g):
                if WAIT.search(path):
                    r.add(("join", path, g.id))
                elif MESSAGE.search(path):
                    r.add(("message", path, g.id))
                for h in self.callees(c, path):
                    if h.id not in seen:
                        seen.add(h.id)
                        st.append(h)
        return r

    def threads(self, f):
        """locks taken by what f, and what it calls, let other threads run: those that a join in f waits for"""
        r, seen, st = set(), {f.id}, [f]
        while st:
            g = st.pop()
            for i, t, c, path in self.calls(g):
                if path.split("::")[-1] in SPAWN:
                    for x in c.get("closures", ()):
                        if x in self.F.fns:
                            r |= set(self.acquires(self.F.fns[x]))
                for h in self.callees(c, path):
                    if h.id not in seen:
                        seen.add(h.id)
                        st.append(h)
        return r

    def flow(self, f):
        """held guards before each block's terminator: block -> {local: guards}; and those let go on some way to it"""
        start = {i: self.owned(f, i) for i in range(1, f.nargs + 1) if self.owned(f, i)}
        inn = {0: (start, frozenset())}
        out = {}
        st = [0]
        while st:
            i = st.pop()
            held, gone = dict(inn[i][0]), set(inn[i][1])
            b = f.blocks[i]
            for s in b["s"]:
                if s[0] == "=":
                    ms = list(moved(s[2]))
                    ks = set()
                    for l, proj in ms:
                        if l in held and (not proj or self.owned(f, s[1][0])):
                            ks |= held.pop(l)
                    if not s[1][1]:
                        ow = self.owned(f, s[1][0])
                        if ow and ks:
                            held[s[1][0]] = ks
                        elif s[1][0] in held:
                            gone |= held.pop(s[1][0])
                        elif ks:
                            gone |= ks  # (moved into something that is not followed)
                    elif ks:
                        held[s[1][0]] = held.get(s[1][0], set()) | ks
                elif s[0] in ("dead", "storagedead") and s[1] in held:
                    gone |= held.pop(s[1])
            out[i] = (dict(held), frozenset(gone))
            t = b["t"]
            if t[0] == "drop":
                l, proj = t[1]
                if l in held and not proj:
                    gone |= held.pop(l)
            elif t[0] == "call":
                ks = set()
                for a in t[2]:
                    if a[0] == "move" and a[1][0] in held:
                        ks |= held.pop(a[1][0])
                d = t[3][0]
                ow = self.owned(f, d) if not t[3][1] else set()
                if ow:
                    if d in held:
                        gone |= held.pop(d)
                    held[d] = set(ow)
                    ks -= ow
                gone |= ks
            for j, _ in term_succ(t):
                o = inn.get(j)
                if o is None:
                    inn[j] = (dict(held), frozenset(gone))
                    st.append(j)
                else:
                    h = {k: o[0].get(k, set()) | held.get(k, set()) for k in set(o[0]) | set(held)}
                    g = o[1] | gone
                    if h != o[0] or g != o[1]:
                        inn[j] = (h, frozenset(g))
                        st.append(j)
        return out


def moved(rv):
    """locals moved out of in an rvalue: (local, projected?)"""
    st = [rv]
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == "move" and isinstance(x[1], (list, tuple)):
                yield x[1][0], bool(x[1][1])
            else:
                st += [y for y in x if isinstance(y, (list, tuple))]


def product(F):
    return [f for f in F.fns.values() if f.crate.startswith("indradb") and f.blocks and "/tests" not in f.file and "/out/" not in f.file and "bench" not in f.file]


@prop("C40")
def held_while_waiting(ctx, rep):
    """at each call and await: the guards held there against the locks that the call can take or wait for"""
    F = ctx.F
    L = Locks(F)
    n = 0
    for f in product(F):
        fl = None
        for i, b in enumerate(f.blocks):
            t = b["t"]
            if b["c"] or t[0] not in ("call", "yield"):
                continue
            if fl is None:
                if not any(L.guards(x[0]) for x in f.locals):
                    break
                fl = L.flow(f)
                rep.analysed(f)
            if i not in fl:
                continue
            held = {k for ks in fl[i][0].values() for k in ks}
            if not held:
                continue
            n += 1
            rep.sites += 1
            at = f"{f.file}:{f.label()}"
            if t[0] == "yield":
                bad = [k for k, _, tok in held if not tok]
                rep.check(not bad, f"{at}: awaits", f"{at} awaits while it holds the lock on {', '.join(sorted(bad))}", f"{at}: awaits")
                continue
            if t[1][0] != "const" or "fn" not in t[1][1]:
                continue
            c = t[1][1]["fn"]
            path = strip_generics(c["path"])
            moving = {k for a in t[2] if a[0] == "move" and a[1][0] in fl[i][0] for k in fl[i][0][a[1][0]]}
            keep = {k[0] for k in held - moving} | {k[0] for l, ks in fl[i][0].items() for k in ks if not any(a[0] == "move" and a[1][0] == l for a in t[2])}
            todo = {k[0]: "" for k in L.taken(f, t, path)}
            for g in L.callees(c, path):
                for k, how in L.acquires(g).items():
                    todo.setdefault(k, how)
            name = path.split("::")[-1]
            both = sorted(keep & set(todo))
            rep.check(not both, f"{at}: {name} takes {', '.join(both)}", f"{at} holds the lock on {', '.join(both)} when it calls {name}, which takes it{' (' + todo[both[0]] + ')' if both and todo[both[0]] else ''}", f"{at}: {name} with {', '.join(sorted(keep))}"[:200])
            ws = set()
            if WAIT.search(path):
                ws.add(("join", path, f.id))
            elif MESSAGE.search(path):
                ws.add(("message", path, f.id))
            for g in L.callees(c, path):
                ws |= L.waits(g)
            for kind, p, g in sorted(ws):
                bad = sorted(k for k in keep if kind == "message" or k in L.threads(F.fns[g]))
                rep.check(not bad, f"{at}: {name} waits with {', '.join(bad)}", f"{at} holds the lock on {', '.join(bad)} when it waits in {p}{' for threads that take it' if kind == 'join' else ''}", f"{at}: {name} waits")
    rep.check(n >= 40, f"{n} calls under a lock", f"only {n} calls under a lock were found", f"{n} calls under a lock")


def registered(k):
    return re.search(r"(HashSet|BTreeSet|Vec)<Identifier", k[0]) is not None


@prop("C39")
def writes_under_lock(ctx, rep):
    """each batch that depends on the registered indexes is written under the lock they were read under"""
    F = ctx.F
    L = Locks(F)
    memo = {}

    def bare(f, kinds):
        """a write of f outside of the lock, or after it was let go: text or None"""
        if (f.id, kinds) in memo:
            return memo[(f.id, kinds)]
        memo[(f.id, kinds)] = None
        fl = L.flow(f)
        rep.analysed(f)
        r = None
        for i, t, c, path in L.calls(f):
            if i not in fl:
                continue
            held = {k for ks in fl[i][0].values() for k in ks if registered(k)}
            gone = {k for k in fl[i][1] if registered(k)}
            name = path.split("::")[-1]
            at = f"{f.file}:{f.label()}"
            rep.sites += 1
            writes = "rocksdb" in str(c.get("rpath", path)) + str(c.get("rid", "")) and re.match(r"write(_opt|_without_wal)?$|(put|delete|merge)(_cf)?(_opt)?$|delete_range_cf", name) and "WriteBatch" not in path
            takes = {k for k in L.taken(f, t, path) if registered(k)}
            sub = [g for g in L.callees(c, path)]
            if gone and not held and (takes or any(registered((k,)) for g in sub for k in L.acquires(g))) and not held:
                r = r or f"{at} lets go of the registered indexes and takes them again in {name}: what it read before may have changed"
            ok = any(k[1] in kinds for k in held)
            if writes and not ok:
                r = r or f"{at} writes with {name} {'without' if not held else 'with only a shared'} lock on the registered indexes"
            for g in sub:
                if not ok:
                    x = bare(g, kinds)
                    r = r or x
        memo[(f.id, kinds)] = r
        return r
    n = 0
    for name in OPS:
        f = next((g for g in F.fns.values() if g.label() == f"<RocksdbTransaction as Transaction>::{name}" and g.blocks), None)
        if f is None:
            rep.missing(f"RocksdbTransaction::{name}")
            continue
        n += 1
        kinds = ("write",) if name == "index_property" else ("read", "write")
        r = bare(f, kinds)
        takes = any(registered((k,)) for k in L.acquires(f))
        rep.check(takes, f"{name}: never takes the lock", f"{f.file}:{f.label()} never takes the lock on the registered indexes", f"{name}: takes the lock on the registered indexes")
        rep.check(r is None, f"{name}: {r}", f"{name}: {r}; an index created at the same time misses what is written", f"{name}: writes under the lock")
