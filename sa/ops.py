"""Guarded effects of each datastore operation, for both datastores."""
from store import *

RO = {"get", "contains", "contains_key", "range", "iter", "len", "is_empty", "keys", "values", "get_key_value", "index", "first", "last", "first_key_value",
      "last_key_value", "entry", "get_mut", "index_mut", "read", "write", "lock", "clone", "deref", "deref_mut", "eq", "ne", "fmt", "borrow", "as_ref", "cmp", "unwrap",
      "expect", "into_iter", "serialize", "hash", "difference", "intersection", "union", "is_subset", "map", "and_then", "is_some", "is_none",
      "ok_or", "is_some_and", "iter_mut", "values_mut", "count", "or_default", "or_insert_with", "or_insert", "collect", "peekable", "next", "take", "rev",
      "filter", "filter_map", "for_each", "any", "all", "find", "position", "chain", "zip", "flat_map", "flatten", "take_while", "skip_while", "skip", "cloned", "copied",
      "Some", "Ok", "new", "from", "into", "with_capacity", "extend", "push", "write_", "drop", "as_deref", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "ok",
      "partial_cmp", "max", "min", "to_owned", "last_mut", "enumerate", "default", "fold", "try_for_each", "map_or", "inspect", "is_ok", "is_err", "map_err", "transpose", "poll", "inner"}


class Eff:
    __slots__ = ("kind", "T", "key", "val", "cl", "ev", "obj", "raw")

    def __init__(self, kind, T_, key, val, cl, ev, obj=None):
        self.kind, self.T, self.key, self.val, self.cl, self.ev, self.obj = kind, T_, key, val, cl, ev, obj

    def __repr__(self):
        return f"{self.kind} {self.T}{sshow(self.key)}{' := ' + sshow(self.val) if self.val is not None else ''}  | {showl(self.cl)}"


class Op:
    """one analysed operation"""

    def __init__(self, F, fn, params, opaque=(), assume=None, bind=None):
        self.F, self.fn = F, fn
        self.A = Analysis(F, opaque=opaque, assume=assume, bind=bind)
        self.ret = self.A.run(fn, params)
        self.C = Cond(self.A)
        self.X = Clauses(self.A, self.C)
        self.eff = []
        self.unknown = []
        self.extract()

    def events(self):
        return sorted(self.A.events.values(), key=lambda e: e.order)

    def emptied(self, ev):
        """is this the removal of a value from an index only when no item has that value any more?"""
        d = self.X.dnf(self.C.event(ev))
        v = clean(strip(self.X.L(ev.args[1])))
        return bool(d) and all(any(a.op == "empty" and l == "Y" and (b := clean(strip(a.a[0]))).op == "ixv" and len(b.a) > 1 and clean(strip(b.a[1])) is v for a, l in c) for c in d)

    def add(self, kind, Tn, terms, ev, val=True, obj=None, keyf=None, each=None):
        """terms: raw [key] or [key, val]; each: once per element of an iterator"""
        cond = self.C.event(ev)
        if each is not None:
            cond = conj(cond, self.C.iterlit(each))
        for vals, cl in self.X.alternatives(terms, cond):
            key = keyf(vals[0])
            v = vals[1] if len(vals) > 1 else None
            if v is not None and v.op == "bytes" and len(v.a[0]) == 1:
                v = v.a[0][0][1]
            T2 = Tn
            if isinstance(key, tuple):
                T2, key = key
            n = normalise([key] + ([v] if v is not None else []), cl)
            if n is None:
                continue
            self.eff.append(Eff(kind, T2, n[0][0], n[0][1] if v is not None else None, n[1], ev, obj))

    def extract(self):
        L = self.X.L
        for ev in self.events():
            if not ev.args:
                continue
            if ev.path == "store":
                a0 = L.strip(L(ev.args[0]))
                v = L.strip(L(ev.args[1]))
                if a0.op == "tbl" and v.op == "plus" and L.strip(v.a[0]) is a0:
                    self.add("put", a0.a[0], [ev.args[1]], ev, keyf=lambda x: K(L.strip(x).a[1]))
                elif a0.op == "tbl":
                    self.unknown.append((ev, f"table {a0.a[0]} is overwritten"))
                elif a0.op == "get":
                    self.add("put", a0.a[0], [ev.args[0], ev.args[1]], ev, keyf=lambda x: x.a[1] if x.op == "get" else K(x))
                elif any(x.op in ("tbl", "ix", "ixv") for x in subterms(a0)):
                    self.unknown.append((ev, "store through a table"))
                continue
            a0 = L(ev.args[0])
            while a0.op in ("pushed", "ret"):
                a0 = a0.a[1] if a0.op == "ret" else a0.a[0]
            if a0.op == "copy":
                continue
            a0 = L.strip(a0)
            n = ev.name
            if a0.op in ("tbl", "tent", "pent", "ix", "ient", "ixv") or a0.op == "phi" and any(m.op in ("tbl", "ix", "ixv") for m in members(a0)):
                self.container(ev, a0, n)
            elif a0.op == "obj" and a0.a[0] in ("WriteBatch", "WriteBatchWithTransaction") or "WriteBatch" in ev.path:
                self.batch(ev, a0, n)
            elif "rocksdb" in ev.path or "DBCommon" in ev.path or ev.path.startswith("rocksdb"):
                self.db(ev, a0, n)

    def container(self, ev, a0, n):
        L = self.X.L
        ms = members(a0)
        m = ms[0]
        if m.op == "tbl" and m.a[0] not in ("IX", "PV"):
            Tn = m.a[0]
            if n == "insert":
                self.add("put", Tn, list(ev.args[1:3]), ev, keyf=lambda x: L.key(Tn, x))
            elif n == "extend" and len(ev.args) == 2:
                el = elem(ev.args[1])
                kv = [el] if Tn in ("E", "R") else [field(el, "0", "tuple"), field(el, "1", "tuple")]
                self.add("put", Tn, kv, ev, keyf=lambda x: L.key(Tn, x), each=ev.args[1])
            elif n in ("remove", "take", "remove_entry"):
                self.add("del", Tn, [ev.args[1]], ev, keyf=lambda x: L.key(Tn, x))
            elif n not in RO or n == "take":
                self.unknown.append((ev, f"{n} on table {Tn}"))
        elif m.op == "tent":
            if n.startswith("or_"):
                v = ev.args[-1] if len(ev.args) > 1 else mk("default", "?")
                cond = self.C.event(ev)
                for vals, cl in self.X.alternatives([ev.args[0], v], cond):
                    e = vals[0]
                    if e.op != "tent":
                        self.unknown.append((ev, "entry"))
                        continue
                    cl = cl | {(mk("has", e.a[0], e.a[1]), "N")}
                    r = normalise([e.a[1], vals[1]], cl)
                    if r:
                        self.eff.append(Eff("put", e.a[0], r[0][0], r[0][1], r[1], ev))
            elif n == "insert" and len(ev.args) == 2:
                self.add("put", None, list(ev.args[:2]), ev, keyf=lambda x: x.a if x.op == "tent" else ("?", K(x)))
            elif n in ("remove", "remove_entry"):
                self.add("del", None, [ev.args[0]], ev, keyf=lambda x: x.a if x.op == "tent" else ("?", K(x)))
            elif n not in ("key", "get", "get_mut", "into_mut"):
                self.unknown.append((ev, f"{n} on an entry"))
        elif m.op == "tbl":
            Tn = m.a[0]
            if n == "insert":
                self.add("put", Tn, list(ev.args[1:3]), ev, keyf=lambda x: K(x))
            elif n in ("remove", "take"):
                self.add("del", Tn, [ev.args[1]], ev, keyf=lambda x: K(x))
            elif n not in RO:
                self.unknown.append((ev, f"{n} on table {Tn}"))
        elif m.op == "pent":
            if n.startswith("or_"):
                self.add("ensure", "IX", [ev.args[0]], ev, keyf=lambda x: K(x.a[0]) if x.op == "pent" else K(x))
            elif n == "insert" and all(m.op in ("coll", "default") and not (m.op == "coll" and m.a[1]) for m in members(L(ev.args[1]))):
                self.add("ensure", "IX", [ev.args[0]], ev, keyf=lambda x: K(x.a[0]) if x.op == "pent" else K(x))
            elif n in ("key", "get", "get_mut", "into_mut"):
                pass
            else:
                self.unknown.append((ev, f"{n} on an index entry"))
        elif m.op == "ient":
            if not n.startswith("or_") and n not in ("key", "get", "get_mut", "into_mut"):
                self.unknown.append((ev, f"{n} on an index entry"))
        elif m.op == "ix":
            if n in ("remove", "clear", "retain", "drain", "insert") and not (n == "remove" and self.emptied(ev)):
                self.unknown.append((ev, f"{n} on the values of an index"))
        elif m.op == "ixv":
            if n in ("insert", "remove", "take"):
                self.add("put" if n == "insert" else "del", None, [mk("agg", "pair", "", (("s", ev.args[0]), ("m", ev.args[1])))], ev, keyf=lambda x: self.pairkey(x))
            elif n == "extend":
                src = elem(ev.args[1])
                self.add("put", None, [mk("agg", "pair", "", (("s", ev.args[0]), ("m", src)))], ev, keyf=lambda x: self.pairkey(x), each=ev.args[1])
            elif n not in RO:
                self.unknown.append((ev, f"{n} on an index bucket"))

    def pairkey(self, x):
        s, m = x.a[2][0][1], x.a[2][1][1]
        s = self.X.L.strip(s)
        if s.op == "ixv":
            return self.X.L.member_key(s, m)
        return ("?I", K(s, m))

    def batch(self, ev, a0, n):
        L = self.X.L
        if n in ("put_cf", "delete_cf"):
            T_ = L.table(L(ev.args[1]))
            if n == "put_cf":
                self.add("put", T_, [ev.args[2], ev.args[3]], ev, obj=a0, keyf=lambda x: L.rkey(T_, x))
            else:
                self.add("del", T_, [ev.args[2]], ev, obj=a0, keyf=lambda x: L.rkey(T_, x))
        elif n in ("default", "new", "len", "is_empty", "size_in_bytes", "data", "with_capacity"):
            pass
        else:
            self.unknown.append((ev, f"WriteBatch::{n}"))

    def db(self, ev, a0, n):
        if n in ("get_cf", "get_pinned_cf", "iterator_cf", "cf_handle", "full_iterator_cf", "key_may_exist_cf", "raw_iterator_cf", "prefix_iterator_cf"):
            return
        if n in ("write", "write_opt", "write_without_wal", "flush", "compact_range_cf", "flush_cf", "flush_wal", "flush_cf_opt", "flush_opt"):
            return
        if n in ("put_cf", "delete_cf", "merge_cf", "put", "delete", "delete_range_cf", "drop_cf", "create_cf", "put_cf_opt", "delete_cf_opt", "merge"):
            self.unknown.append((ev, f"direct DB::{n} outside a batch"))


def rdb_self(F):
    tx = F.one(name="transaction", self_ty="RocksdbDatastore", kind="fn")
    if tx is None:
        return None
    return Analysis(F, opaque=RDB_OPAQUE).run(tx, {})


STORES = {"memory": "MemoryTransaction", "rocksdb": "RocksdbTransaction"}


def op(F, store, name, params=None, assume=None):
    fn = F.one(name=name, self_ty=STORES[store], kind="fn", trait="Transaction")
    if fn is None:  # a default method of the trait
        fn = next((f for f in F.find(name=name, kind="fn") if f.trait_default == "Transaction"), None)
    p = dict(params or {})
    if store == "rocksdb":
        if not hasattr(F, "_rself"):
            F._rself = rdb_self(F)
        if fn is None or F._rself is None:
            return None
        p.setdefault(1, F._rself)
    return Op(F, fn, p, opaque=RDB_OPAQUE, assume=assume, bind={"Transaction": STORES[store]})


if __name__ == "__main__":
    import sys
    from facts import Facts
    F = Facts(sys.argv[1])
    for s in STORES:
        for n in sys.argv[2:]:
            o = op(F, s, n)
            if o is None:
                print("==", s, n, "missing")
                continue
            print("==", s, n, len(o.A.events))
            for e in o.eff:
                print("   ", str(e)[:400])
            for ev, w in o.unknown:
                print("    UNKNOWN", w, ev.fn.label(), ev.line)
            print("    bad", o.X.L.bad)
