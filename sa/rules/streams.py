"""streams of messages: what a function does with failures that come after good items (C15, C16)"""
from absint import TOP, TRUE, UNIT, agg, Stuck
from values import PANIC, sym
from world import World
from cond import strip

FATES = [("ok",), ("ok", "ok"), ("ok", "ok", "ok"), ("broken",), ("ok", "broken"), ("ok", "ok", "broken"), ("ok", "broken", "ok"), ("malformed",), ("ok", "malformed"), ("ok", "ok", "malformed"), ("ok", "malformed", "ok")]


class Stream(World):
    """a stream of items of which some are broken or cannot be decoded; tests of how many items there are go both ways"""

    def __init__(self, F, fates):
        super().__init__(F)
        self.items_ = tuple(agg("Err", sym("broken", k)) if x == "broken" else agg("Ok", sym("item", k, x)) for k, x in enumerate(fates))

    def intercept(self, fn, args, vs, env):
        lab, last = fn.label(), fn.label().split("::")[-1]
        if fn.crate == "indradb" and lab.startswith("Database::"):
            return [(agg("Ok", UNIT), self.log(env, ("did", last, tuple(self.solidall(env, x) for x in vs[1:]))))]
        if fn.crate == "indradb_proto":
            if "IndraDbClient::" in lab or "IndraDbClient::" in fn.path:
                return [(sym("rpc", last), env)]
            v = self.solidall(env, vs[-1]) if vs else None
            if last in ("into", "from", "try_into", "try_from") and v is not None:
                if v[0] == "sym" and v[1] == "item":
                    return [(agg("Ok", sym("decoded", v[2][0])) if v[2][1] == "ok" else agg("Err", sym("malformed", v[2][0])), env)]
                return [(sym("from", v), env)]
        return None

    def special(self, path, name, short, args, vs, env, c):
        v = vs[0] if vs else None
        if name == "into_inner" and v is not None and v[0] == "sym" and v[1] in ("request", "response"):
            return ("it", self.items_)
        if name in ("next", "message", "try_next") and args and ("Stream" in path or "Streaming" in path):
            return sym("next", name, args[0])
        if name == "size_hint" and "Stream" in path:
            return agg("", TOP, TOP)
        if name in ("into", "from") and v is not None and v[0] == "sym" and v[1] in ("broken", "malformed"):
            return v
        if v is not None and v[0] == "vec" and v[1] and name in ("len", "is_empty", "capacity"):
            return TOP
        return None

    def ready(self, v, env):
        if v[0] == "sym" and v[1] == "rpc":
            return [(agg("Ok", sym("response")), env)]
        if v[0] == "sym" and v[1] == "next":
            how, ref = v[2]
            x = self.val(env, ref)
            if x[0] == "it":
                r = agg("Some", x[1][0]) if x[1] else agg("None")
                if how != "next":
                    r = agg("Ok", agg("None")) if not x[1] else agg("Ok", agg("Some", x[1][0][2][0][1])) if x[1][0][1] == "Ok" else x[1][0]
                loc = ref
                while loc[0] == "ref":
                    y = self.get(env, loc[1], loc[2])
                    if y[0] != "ref":
                        break
                    loc = y
                if loc[0] != "ref":
                    raise Stuck("stream moved")
                return [(r, self.upd(env, loc, ("it", x[1][1:])))]
        return super().ready(v, env)


class Sends(Stream):
    """a channel that may be closed at any item, and a call that may fail"""

    def special(self, path, name, short, args, vs, env, c):
        if name in ("channel", "unbounded_channel") and "mpsc" in path:
            return agg("", sym("sender"), sym("receiver"))
        if vs and vs[0] == sym("sender") and name in ("send", "blocking_send", "send_timeout", "reserve"):
            return sym("send", self.solidall(env, vs[1])) if name == "send" else None
        if vs and vs[0] == sym("sender") and name == "clone":
            return vs[0]
        if vs and vs[0] == sym("sender") and name == "is_closed":
            return TOP
        if name in ("try_lock", "try_write", "try_read"):
            return [(agg("Ok", args[0]), env), (agg("Err", sym("locked")), env)]
        return super().special(path, name, short, args, vs, env, c)

    def ready(self, v, env):
        if v[0] == "sym" and v[1] == "send":
            if ("failed", "send") in env.get(("log",), ()):
                return [(agg("Err", sym("closed")), env)]
            return [(agg("Ok", UNIT), self.log(env, ("sent", v[2][0]))), (agg("Err", sym("closed")), self.log(env, ("failed", "send")))]
        if v[0] == "sym" and v[1] == "rpc":
            return [(agg("Ok", sym("response")), self.log(env, ("called", v[2][0]))), (agg("Err", sym("broken")), self.log(env, ("failed", "call")))]
        return super().ready(v, env)


def closed(ctx, rep, name, f):
    """the items of a list are sent one by one; any of them, or the call, may fail"""
    at = f"{f.file} in {f.label()}"
    for n in (1, 2, 3):
        A = Sends(ctx.F, ())
        items = tuple(sym("item", k, "ok") for k in range(n))
        try:
            outs = []
            for v, e in A.run(f, [sym("self"), ("vec", items)], {}):
                outs += [(A.solidall(e2, x), e2) for x, e2 in A.ready(v, e)]
        except Stuck:
            outs = []
        rep.steps += A.steps
        if not outs or any(v != PANIC and not (v[0] == "agg" and v[1] in ("Ok", "Err")) for v, _ in outs):
            continue
        for v, e in outs:
            log = e.get(("log",), ())
            fails, failed = [x[1] for x in log if x[0] == "failed"], v == PANIC or v[1] == "Err"
            k = len([x for x in log if x[0] == "sent"])
            if fails:
                what = f"the server's answer is an error" if "call" in fails else f"item {k + 1} of {n} could not be sent"
                rep.check(failed, f"{name}: success although {what}", f"{name} returns success when {what}; {at}", f"{name}: {what}: an error")
            elif any(x[0] == "sent" for x in log):
                rep.check(not failed, f"{name}: fails for {n} items", f"{name} fails although all {n} items were sent and the call succeeded; {at}", f"{name}: {n} items: success")
                got = tuple(x[1] for x in log if x[0] == "sent")
                want = tuple(sym("decoded", k) for k in range(n))
                rep.check(len(got) == n and all(g in (w, agg("Ok", w), i) for g, w, i in zip(got, want, items)), f"{name}: sends {len(got)} of {n}", f"{name} sends {len(got)} of {n} items, or not in order; {at}", f"{name}: {n} items sent in order")


def late(ctx, rep, name, f, s, item, decode, server):
    """failures after good items; s: the run where every item fails, decode: where every decoding fails.
    The kinds of items whose outcome is decided."""
    at = f"{f.file} in {f.label()}"
    decided = set()
    for fates in FATES:
        A = Stream(ctx.F, fates)
        bad = sorted(set(fates) - {"ok"})
        want = tuple(sym("decoded", k) for k in range(len(fates)))
        what = f"{name}: {' '.join(fates)}"
        try:
            outs = []
            args = [sym("self"), sym("request")] if server else [sym("self")] + [sym("argument", str(k)) for k in range(1, f.nargs)]
            for v, e in A.run(f, args, {}):
                outs += [(A.solidall(e2, x), e2) for x, e2 in A.ready(v, e)]
        except Stuck:
            outs = []
        rep.steps += A.steps
        if not outs or any(v != PANIC and not (v[0] == "agg" and v[1] in ("Ok", "Err")) for v, _ in outs):
            if bad:  # fall back on the flow alone
                got = escapes(s if bad == ["broken"] else decode, item)
                rep.check(not got, f"{what}: goes on at {got}"[:200], f"{name} goes on after an item that is {bad[0]} ({got}); {at}", f"{what}: ends with the error (flow)")
            continue
        decided |= set(bad or ["ok"])
        for v, e in outs:
            did = [x[2] for x in e.get(("log",), ()) if x[0] == "did"]
            failed = v == PANIC or v[1] == "Err"
            if bad:
                rep.check(failed and not did, f"{what}: {'performed' if did else 'success'}", f"{name} {'performs its operation with the other items' if did else 'answers with success'} when the items of the stream are {', '.join(fates)}; {at}", f"{what}: an error")
            elif server:
                ok = not failed and len(did) == 1 and len(did[0]) == 1 and A.items(did[0][0]) == want
                rep.check(ok, f"{what}: not all inserted", f"{name} {'fails' if failed else 'passes on ' + str(did)[:150]} when {len(fates)} good items come; {at}", f"{what}: all, in order")
            else:
                x = A.solidall(e, v[2][0][1]) if v[2] else UNIT
                rep.check(not failed and A.items(x) == want, f"{what}: not all returned", f"{name} {'fails' if failed else 'returns ' + str(x)[:150]} when {len(fates)} good items come; {at}", f"{what}: all, in order")
    return decided


def escapes(s, item):
    """places where the flow goes on after an item, in a run where all items fail"""
    out = []
    for fr in s.A.frames.values():
        S = s.C.graph(fr.id)["succ"]
        for b, l in S.items():
            for x in set(l):
                d = s.C.edge(fr.id, b, x) if len(set(l)) > 1 else ()
                if d and all(any(a.op in ("some", "iter") and lab == "Y" and any(item(y) for y in (a.a[0], strip(a.a[0]))) for a, lab in c) for c in d):
                    seen, st = set(), [x]
                    while st:
                        y = st.pop()
                        if y not in seen:
                            seen.add(y)
                            st += S.get(y, [])
                    if b in seen or any(r in seen and any(m.op != "err" for m in members_(v)) for r, v in fr.retw.items()):
                        out.append(f"{fr.fn.file}:{fr.fn.line}")
    return out


def members_(v):
    from engine import members
    return list(members(v)) or [v]
