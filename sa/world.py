"""Abstract interpretation of code with shared state: reference counts, locks, atomics, thread pools, async functions and a log of what happened.

The environment also holds ("heap", n) shared values, ("log",) the events so far, ("pool",) the jobs that have not run and the number of panics."""
from absint import TOP, TRUE, FALSE, UNIT, agg, boolean
from values import Mem, PANIC, sym, bounds

SHARED = ("Arc", "Rc")
LOCKS = ("Mutex", "RwLock", "RefCell", "Cell", "OnceCell", "OnceLock")


class World(Mem):
    LIMIT = 40000
    EAGER = True  # whether jobs given to a pool run at once, or only when they are waited for

    def log(self, env, ev):
        e = dict(env)
        e[("log",)] = e.get(("log",), ()) + (ev,)
        return e

    def alloc(self, env, v):
        e = dict(env)
        n = sum(1 for k in e if k[0] == "heap")
        e[("heap", n)] = v
        return [(("ref", ("heap", n), ()), e)]

    def handle(self, v, env):
        """the shared handle a value leads to"""
        for _ in range(40):
            if v[0] != "ref" or v[1][0] == "heap":
                break
            v = self.get(env, v[1], v[2])
        return v

    def dropped(self, fid, place, env):
        loc, path = self.place(fid, place, env)
        v = self.get(env, loc, path)
        if v[0] == "ref" or v == TOP or v[0] == "i":
            return env
        v = self.solidall(env, v)
        return self.log(env, ("drop", v)) if self.watched(v) else env

    def watched(self, v):
        return False

    def arith(self, op, a, b):
        if any(x[0] == "i" and x[1] > 50 for x in (a, b)) and op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and not (bounds(a) and bounds(b)):
            return TOP
        return super().arith(op, a, b)

    def rvalue(self, fid, r, env):
        if r[0] == "bin" and r[1] in ("Rem", "Eq", "Ne", "Lt", "Le", "Gt", "Ge", "BitAnd", "Div", "Shr"):
            a, b = (self.val(env, self.operand(fid, x, env)) for x in r[2:4])
            if a[0] == b[0] == "i":
                if r[1] in ("Rem", "BitAnd", "Div", "Shr"):
                    return TOP  # every residue: what depends on it happens or does not
                if max(abs(a[1]), abs(b[1])) > 50:
                    return TOP
        return super().rvalue(fid, r, env)

    def ready(self, v, env):
        """what awaiting gives"""
        if v[0] == "clo" and v[1] in self.F.fns and self.F.fns[v[1]].coroutine:
            return self.run(self.F.fns[v[1]], [v], env)
        return [(v, env)]

    def jobs(self, env):
        """runs what a pool was given"""
        pend, bad = env.get(("pool",), ((), 0))
        outs = [(env, bad)]
        for j in pend:
            nxt = []
            for e, n in outs:
                for v, e2 in self.apply(j, [], e):
                    nxt.append((e2, n + (v == PANIC)))
            outs = nxt
        res = []
        for e, n in outs:
            e = dict(e)
            e[("pool",)] = ((), n)
            res.append(e)
        return res

    def model(self, path, name, short, args, vs, env, c):
        r = self.special(path, name, short, args, vs, env, c)
        if r is not None:
            return r
        v = vs[0] if vs else None
        ty = short.split("::")[0]
        tr = c.get("trait", "").split("::")[-1].split("<")[0]
        slf = c.get("self", "")
        if tr in ("Deref", "DerefMut") and args[0][0] == "ref":
            x = self.get(env, args[0][1], args[0][2])
            return x if x[0] == "ref" else args[0]
        if name == "new" and ty in SHARED or name in ("from", "into") and c.get("targs") and any(c["targs"][0 if name == "from" else -1].startswith(f"std::sync::{x}<") for x in SHARED):
            return self.alloc(env, args[0])
        if name == "clone" and (ty in SHARED or any(f"::{x}<" in slf.split(">")[0] for x in SHARED)):
            h = self.handle(args[0], env)
            if h[0] == "ref":
                return h
        if short == "Box::new_uninit":
            return self.alloc(env, agg("", value=agg("", value=TOP)))
        if name == "box_assume_init_into_vec_unsafe" and v[0] == "agg":
            x = self.get(env, *self.handle(args[0], env)[1:])
            return self.sub(env, self.sub(env, x, "value"), "value")
        if name in ("new",) and ty in LOCKS + ("Box", "Pin") or name == "pin" and ty in ("Box", "Pin"):
            return args[0]
        if ty in LOCKS and name in ("lock", "write", "read", "try_lock"):
            return agg("Ok", args[0])
        if ty in LOCKS and name in ("into_inner", "get_mut"):
            return agg("Ok", args[0] if name == "get_mut" else v)
        if name in ("try_unwrap",) and ty in SHARED:
            return agg("Ok", v)
        if ty in SHARED and name in ("into_inner", "unwrap_or_clone"):
            return agg("Some", v) if name == "into_inner" else v
        if ty == "Option" and v is not None and v[0] == "agg" and args[0][0] == "ref" and name in ("take", "replace", "insert", "get_or_insert", "get_or_insert_with"):
            some = v[1] == "Some"
            if name == "take":
                return [(v, self.upd(env, args[0], agg("None")))]
            if name == "replace":
                return [(v, self.upd(env, args[0], agg("Some", args[1])))]
            if name == "insert" or not some and name == "get_or_insert":
                return [(TOP, self.upd(env, args[0], agg("Some", args[1])))]
            if some:
                return TOP
            return [(TOP, self.upd(e, args[0], agg("Some", x))) for x, e in self.apply(args[1], [], env)]
        if short in ("mem::take", "mem::replace", "mem::swap") and v is not None and args[0][0] == "ref":
            if name == "replace":
                return [(v, self.upd(env, args[0], args[1]))]
            if name == "take" and v[0] == "agg" and v[1] in ("Some", "None"):
                return [(v, self.upd(env, args[0], agg("None")))]
            if name == "take" and v[0] == "vec":
                return [(v, self.upd(env, args[0], ("vec", ())))]
        if "atomic" in path:
            if name == "new":
                return args[0]
            if name == "load" or name == "into_inner":
                return v
            if name == "store":
                return [(UNIT, self.upd(env, args[0], vs[1]))]
            if name == "swap":
                return [(v, self.upd(env, args[0], vs[1]))]
            if name in ("fetch_add", "fetch_sub") and v[0] == vs[1][0] == "i":
                return [(v, self.upd(env, args[0], ("i", v[1] + (vs[1][1] if name == "fetch_add" else -vs[1][1]))))]
            if name in ("fetch_or", "fetch_and") and v[0] == vs[1][0] == "i":
                return [(v, self.upd(env, args[0], ("i", v[1] | vs[1][1] if name == "fetch_or" else v[1] & vs[1][1])))]
            if name in ("fetch_max",) and v[0] == vs[1][0] == "i":
                return [(v, self.upd(env, args[0], ("i", max(v[1], vs[1][1]))))]
        if name in ("max", "min") and len(vs) == 2 and bounds(v) and bounds(vs[1]):
            f = max if name == "max" else min
            lo, hi = f(bounds(v)[0], bounds(vs[1])[0]), f(bounds(v)[1], bounds(vs[1])[1])
            return ("i", lo) if lo == hi else ("rng", "max", lo, hi)
        if name == "clamp" and len(vs) == 3 and all(bounds(x) for x in vs):
            lo, hi = max(bounds(v)[0], vs[1][1]), min(bounds(v)[1], vs[2][1])
            return ("i", lo) if lo == hi else ("rng", "clamped", lo, hi)
        if name in ("is_multiple_of",):
            return TOP
        # thread pools
        if ty == "ThreadPool" or "threadpool" in path:
            if name in ("new", "with_name", "num_threads", "threads"):
                n = vs[-1]
                e = self.log(env, ("threads", n))
                return [(agg("ThreadPool"), e)] if bounds(n) and bounds(n)[0] > 0 or not bounds(n) else [(agg("ThreadPool"), e), (PANIC, e)]
            if name == "execute":
                pend, bad = env.get(("pool",), ((), 0))
                e = dict(env)
                e[("pool",)] = (pend + (self.held(env, vs[1]),), bad)
                return [(UNIT, x) for x in (self.jobs(e) if self.EAGER else [e])]
            if name == "join":
                return [(UNIT, e) for e in self.jobs(env)]
            if name == "panic_count":
                return ("i", env.get(("pool",), ((), 0))[1])
            if name in ("queued_count", "active_count", "max_count"):
                return TOP
            if name == "clone":
                return args[0]
        # async
        if name == "into_future" and tr == "IntoFuture":
            return args[0]
        if short.startswith("Pin::") and name in ("new_unchecked", "new", "get_mut", "as_mut", "get_unchecked_mut", "into_inner"):
            return args[0]
        if name == "get_context":
            return TOP
        if name == "poll" and tr == "Future":
            return [(agg("Ready", x) if x != PANIC else x, e) for x, e in self.ready(v, env)]
        if name in ("block_on", "spawn", "spawn_blocking") and len(args) > (1 if name == "block_on" else 0):
            f = vs[-1]
            if name == "block_on":
                return self.ready(f, env)
            if name == "spawn_blocking":
                return [(agg("Ok", x), e) for x, e in self.apply(args[-1], [], env)]
            return [(agg("Ok", x), e) for x, e in self.ready(f, env)]
        # maps, as lists of pairs
        if short in ("HashMap::new", "BTreeMap::new", "HashMap::with_capacity", "HashMap::default"):
            return ("vec", ())
        if name == "default" and ("HashMap<" in slf or "BTreeMap<" in slf):
            return ("vec", ())
        if v is not None and v[0] == "vec" and ty in ("HashMap", "BTreeMap") and name == "insert":
            return [(TOP, self.upd(env, args[0], ("vec", v[1] + (agg("", args[1], args[2]),))))]
        if v is not None and v[0] == "vec" and ty in ("HashMap", "BTreeMap") and name in ("into_values", "into_keys", "values", "keys"):
            return ("it", tuple(dict(self.val(env, x)[2])["1" if "values" in name else "0"] for x in v[1]))
        return super().model(path, name, short, args, vs, env, c)

    def held(self, env, v):
        return v
