"""C36: operations of the database and transactions of a memory datastore exclude each other"""
import re
from core import *
from spec import *
from facts import clean_ty
from rules.api import Op, strip_g, text, where

GUARD = re.compile(r"(MutexGuard|RwLockWriteGuard|ReentrantMutexGuard|MappedMutexGuard|MappedRwLockWriteGuard|ArcMutexGuard|ArcRwLockWriteGuard)<(?:'[a-z_]+, )?(?:[\w:]*Raw\w+, )?(.+)>$")
LOCK = re.compile(r"(?:^|::)(Mutex|RwLock|ReentrantMutex|FairMutex)<")
MANY = re.compile(r"(?:^|[<:, ])(Vec|VecDeque|HashMap|BTreeMap|HashSet|BTreeSet|Cell|RefCell|Option|\[)[<\[]?")


def fns_of(f):
    """(callee id, generic arguments and receiver type, name) of each call"""
    for b in f.blocks:
        t = b["t"]
        if not b["c"] and t[0] == "call" and t[1][0] == "const" and isinstance(t[1][1], dict) and "fn" in t[1][1]:
            c = t[1][1]["fn"]
            yield c.get("rid", c["id"]), " ".join(map(str, c.get("targs", []))), strip_generics(c["path"])


def mentions(ty, p):
    """does the type mention the workspace type p?"""
    q = p.split("::", 1)[-1]
    return re.search(r"(?<![\w:])(?:indradb::)?" + re.escape(q) + r"(?!\w)", ty) is not None


def leaves(F, p, path=()):
    """the fields of type p, those of workspace structs in it included"""
    names = {k[len("indradb::"):]: k for k in F.adts if k.startswith("indradb::")}
    for _, fs in F.adts[p]["variants"]:
        for n, ty, *_ in fs:
            ty = clean_ty(ty)
            q = names.get(re.sub(r"<.*", "", ty)) if not GUARD.search(ty) else None
            if q and q != p and len(path) < 4:
                yield (path + (n,), ty, q)
                yield from leaves(F, q, path + (n,))
            else:
                yield (path + (n,), ty, None)


@prop("C36")
def excluded(ctx, rep):
    F = ctx.F
    # each operation of Database: within one transaction
    n = 0
    t = text(mk("call", "Datastore::transaction", (field(mk("param", "self"), "datastore", "indradb::database::Database"),)))
    for f in F.find(kind="fn", crate="indradb"):
        if f.blocks and f.self_ty and adt_last(strip_g(f.self_ty)) == "Database" and not f.trait and f.nargs and f.locals[1][0].startswith("&") and any(p.endswith("Datastore::transaction") for g in fns_in(F, f) for _, _, p in fns_of(g)):
            o = Op(ctx, f.name)
            if o.f is not f:
                continue
            n += 1
            rep.analysed(f)
            rep.sites += len(o.events)
            many = any(a.op == "iter" for e in o.txns for c in o.cond(e) for a, _ in c)
            rep.check(len(o.txns) == 1 and not many, f"{f.name}: {len(o.txns)} transactions{' in a loop' if many else ''}", f"{f.name} opens {len(o.txns)} transactions{' in a loop' if many else ''} ({[where(e) for e in o.txns]}), so another operation can come between its parts (or it waits for itself); {f.file} in {f.label()}", f"{f.name}: one transaction")
            for e in o.ops + o.queries:
                rep.check(text(e.args[0]) == t, f"{f.name}: {e.name} on `{text(e.args[0])[:100]}`", f"{f.name} calls {e.name} on {text(e.args[0])}, not on its transaction; {where(e)}", f"{f.name}: {e.name} on its transaction")
    rep.check(n >= 9, f"{n} operations with a transaction", f"only {n} operations of Database open a transaction")
    # the memory datastore: its transaction is the exclusive lock of its state
    f = next((g for g in F.find(kind="fn", crate="indradb") if g.label() == "<MemoryDatastore as Datastore>::transaction"), None)
    store = next((p for p in F.adts if p.endswith("::MemoryDatastore")), None)
    if f is None or store is None:
        rep.missing("MemoryDatastore::transaction")
        return
    rep.analysed(f)
    tx = next((p for p in F.adts if p.startswith("indradb::") and re.sub(r"<.*", "", clean_ty(f.locals[0][0])) in (p, p[len("indradb::"):])), None)
    if not rep.check(tx is not None, f"transaction of type {clean_ty(f.locals[0][0])}"[:150], f"a memory datastore's transaction is a {f.locals[0][0]}, not a type of the library; {f.file}:{f.line}", "transaction: a type of the library"):
        return
    held = [(n, GUARD.search(ty)) for n, ty, _ in leaves(F, tx) if GUARD.search(ty)]
    maps = [(n, m) for n, m in held if any(q.endswith("::" + m.group(2).split("::")[-1]) and any(re.search(r"(BTreeMap|HashMap|BTreeSet|HashSet)<", clean_ty(t)) for _, fs in F.adts[q]["variants"] for _, t, *_ in fs) for q in F.adts if q.startswith("indradb::"))]
    if not rep.check(len(maps) == 1 and len(held) == 1, f"transaction: holds {[m.group(0) for _, m in held]}"[:200], f"a transaction of a memory datastore must hold the exclusive lock of its state for as long as it lives; {tx} holds {[m.group(0) for _, m in held] or 'no lock guard'}, so that other transactions can change the state while it is open; {f.file}:{f.line}", f"transaction: holds {held[0][1].group(0) if held else ''}"):
        return
    state = next(q for q in F.adts if q.startswith("indradb::") and q.endswith("::" + maps[0][1].group(2).split("::")[-1]))
    for n, ty, q in leaves(F, tx):
        if n != maps[0][0] and q is None:
            rep.check(not mentions(ty, state), f"transaction: field {'.'.join(n)}: {ty}"[:200], f"{tx} has the state outside of its lock, in {'.'.join(n)}: {ty}; {f.file}", f"transaction: {'.'.join(n)}: {ty}")
    # one lock per datastore, shared by its clones
    locks = [(n, ty) for n, ty, q in leaves(F, store) if mentions(ty, state) and q is None]
    ok = len(locks) == 1 and LOCK.search(locks[0][1]) is not None and not MANY.search(locks[0][1].split(state.split("::")[-1])[0])
    rep.check(ok, f"datastore: {[ty for _, ty in locks]}"[:200], f"a memory datastore must have its state behind exactly one lock, it has {[(n, ty) for n, ty in locks]}; {f.file}", f"datastore: {locks[0][1] if locks else ''}")
    # the lock is taken from the datastore
    taken = [c for c in fns_in(F, f) for i, t, p in fns_of(c) if mentions(t, state) and p.split("::")[-1] in ("lock", "write", "try_lock", "try_write", "lock_arc", "write_arc") and re.search(r"(Mutex|RwLock)", p)]
    rep.check(len(taken) == 1, f"transaction: takes {len(taken)} locks", f"transaction takes the state's lock {len(taken)} times; {f.file}:{f.line}", "transaction: takes the lock once")
    # a lock of its own for the state is made only for a new datastore
    made = 0
    for g in F.fns.values():
        if g.crate == "indradb" and g.blocks:
            for i, t, p in fns_of(g):
                if mentions(t, state) and re.search(r"(Mutex|RwLock)(::<.*>)?::(new|from|default|const_new)$", p):
                    made += 1
                    up = callers(F, g)
                    bad = [h for h in up if any(mentions(h.locals[k][0], store) and not h.locals[k][0].startswith("database::Database") or mentions(h.locals[k][0], tx) for k in range(1, h.nargs + 1))]
                    rep.check(not bad, f"new state in {bad[0].label() if bad else ''}", f"{bad[0].label() if bad else ''} makes another lock and state from an existing datastore or transaction, so that they no longer exclude each other (or share their content); {g.file}:{g.line}", f"{g.label()}: new datastore")
    rep.check(made >= 1, "no lock made", f"no function makes the lock of {state}")
    # nothing lets go of the lock while the transaction lives
    for g in F.fns.values():
        if g.crate == "indradb" and g.blocks:
            for i, t, p in fns_of(g):
                if mentions(t, state) and p.split("::")[-1] in ("unlocked", "unlocked_fair", "bump", "force_unlock", "data_ptr", "force_unlock_fair", "make_guard_unchecked", "leak", "transmute", "transmute_copy"):
                    rep.check(False, f"{g.label()}: {p}", f"{g.label()} goes around the lock with {p}; {g.file}:{g.line}")


def fns_in(F, f):
    """f, the library functions it calls and its closures, transitively"""
    seen, st = {}, [f]
    while st:
        g = st.pop()
        if g.id in seen:
            continue
        seen[g.id] = g
        for i, _, _ in fns_of(g):
            h = F.fns.get(i)
            if h is not None and h.crate == "indradb" and h.blocks:
                st.append(h)
        st += [h for h in F.fns.values() if h.parent == g.id and h.blocks]
    return list(seen.values())


def callers(F, f):
    """f and the library functions that call it, transitively"""
    rev = {}
    for g in F.fns.values():
        if g.crate == "indradb" and g.blocks:
            for i, _, _ in fns_of(g):
                rev.setdefault(i, []).append(g)
            if g.parent and g.parent in F.fns:
                rev.setdefault(g.id, []).append(F.fns[g.parent])
    seen, st = {}, [f]
    while st:
        g = st.pop()
        if g.id in seen:
            continue
        seen[g.id] = g
        st += rev.get(g.id, [])
    return list(seen.values())
