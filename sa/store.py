"""Storage-neutral reading of what a datastore operation does.

The provenance terms of `engine.py` are lowered into a small vocabulary shared
by both datastores:

  tbl(T)                 a logical table, T in V, E, R, VP, EP, VI, EI, META
  k(c0, c1, ...)         a key, flattened to its components
  get(T, k)              the value stored in T under k
  row(scan)              the row an iteration over a table is at
  col(row, i), val(row)  its key components / value
  scan(T, low, high)     an iteration over T from a lower bound
  indexed(name)          the set of indexed property names contains name

Logical tables and their key components:

  V  (id)                       value: type
  E  (out, t, in)               R holds the same rows keyed (in, t, out)
  VP (id, name)                 value: JSON
  EP (out, t, in, name)         value: JSON
  VI (name, value, id)          index of VP
  EI (name, value, out, t, in)  index of EP

Every mutation becomes guarded effects `(kind, T, key, value | literals)`.
"""
from engine import *
from cond import *

# logical table of each MemoryTransaction field / RocksDB column family
MEM_FIELDS = {"vertices": "V", "edges": "E", "reversed_edges": "R", "vertex_properties": "VP", "edge_properties": "EP", "property_values": "PV"}
CFS = {"vertices:v2": "V", "edge_ranges:v2": "E", "reversed_edge_ranges:v2": "R", "vertex_properties:v2": "VP", "edge_properties:v2": "EP",
       "vertex_property_values:v2": "VI", "edge_property_values:v2": "EI", "metadata:v2": "META"}
# component kinds of a RocksDB key: U uuid, I identifier, S trailing name, J json hash
SCHEMA = {"V": "U", "E": "UIU", "R": "UIU", "VP": "US", "EP": "UIUS", "VI": "IJU", "EI": "IJUIU"}
READS = {"read_uuid": "U", "read_identifier": "I", "read_fixed_length_string": "S", "read_u64": "J"}
COMPS = {"Uuid": "U", "Identifier": "I", "FixedLengthString": "S", "Json": "J"}
RDB_OPAQUE = {"util::build", "util::read_uuid", "util::read_identifier", "util::read_fixed_length_string", "util::read_u64", "Identifier::new",
              "Identifier::new_unchecked", "util::next_uuid"}
WILD = mk("any")
NOKEY = mk("k")


def tbl(t):
    return mk("tbl", t)


def K(*cs):
    return mk("k", *cs)


def edge_agg(o, t, i):
    return mk("agg", "indradb::models::edges::Edge", "", (("outbound_id", o), ("t", t), ("inbound_id", i)))


def is_edge_agg(x):
    return x.op == "agg" and adt_last(x.a[0]) == "Edge"


def edge_parts(e):
    while e.op in ("pushed", "ret"):
        e = e.a[0] if e.op == "pushed" else e.a[1]
    if e.op == "row" and e.a[0].a[0] in ("E", "R"):
        c = tuple(mk("col", e, str(i)) for i in range(3))
        if e.a[0].op == "R":
            c = tuple(mk("col", e, str(i)) if p is WILD else p for i, p in enumerate(e.a[0].a[1]))
            return c
        return c if e.a[0].a[0] == "E" else tuple(reversed(c))
    if isget(e):
        return tuple(e.a[1].a) if e.a[0] == "E" else tuple(reversed(e.a[1].a))
    if is_edge_agg(e):
        d = dict(e.a[2])
        return tuple(d.get(k, mk("unk", k)) for k in ("outbound_id", "t", "inbound_id"))
    return tuple(field(e, k, "indradb::models::edges::Edge") for k in ("outbound_id", "t", "inbound_id"))


def isget(e):
    """a member of an adjacency set, looked up by itself"""
    return e.op == "get" and e.a[0] in ("E", "R") and e.a[1].op == "k" and len(e.a[1].a) == 3


def asedge(x):
    return edge_agg(*edge_parts(x)) if isget(x) or x.op == "row" and x.a[0].a[0] in ("E", "R") else x


def perm(T):
    """position in the stored key -> logical column"""
    return (2, 1, 0) if T == "R" else tuple(range(8))


class Lower:
    def __init__(self):
        self.memo = {}
        self.bad = set()

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = t
            r = self.go(t)
            self.memo[t] = r
        return r

    # ---------------------------------------------------------- helpers
    def isrow(self, x):
        return x.op == "row"

    def mkrow(self, s):
        return mk("row", s)

    def rowkey(self, r):
        """the in-memory key of a row"""
        T = r.a[0].a[0]
        c = lambda i: mk("col", r, str(i))
        if T == "V":
            return c(0)
        if T == "E":
            return edge_agg(c(0), c(1), c(2))
        if T == "R":
            return edge_agg(c(2), c(1), c(0))
        if T == "VP":
            return mk("agg", "tuple", "", (("0", c(0)), ("1", c(1))))
        if T == "EP":
            return mk("agg", "tuple", "", (("0", edge_agg(c(0), c(1), c(2))), ("1", c(3))))
        return mk("rowkey", r)

    def scan(self, T, low=None, high=None):
        return mk("scan", T, low if low is not None else NOKEY, high if high is not None else NOKEY)

    def key(self, T, x):
        """flatten an in-memory key expression for table T"""
        x = self.strip(x)
        if T == "E":
            return K(*edge_parts(x))
        if T == "R":  # both adjacency tables are keyed by the logical edge
            return K(*reversed(edge_parts(x)))
        if T == "V":
            return K(x)
        if T == "VP":
            if x.op == "agg" and len(x.a[2]) == 2:
                return K(x.a[2][0][1], x.a[2][1][1])
            return K(field(x, "0", "tuple"), field(x, "1", "tuple"))
        if T == "EP":
            if x.op == "agg" and len(x.a[2]) == 2:
                return K(*edge_parts(x.a[2][0][1]), x.a[2][1][1])
            return K(*edge_parts(field(x, "0", "tuple")), field(x, "1", "tuple"))
        return K(x)

    def strip(self, x):
        while x.op in ("pushed", "ret", "copy"):
            x = x.a[1] if x.op == "ret" else x.a[0]
        return x

    def bytes_key(self, x):
        """components of a util::build(...) byte string: [(kind, term)] or None"""
        if x.op == "bytes":
            return x.a[0]
        return None

    # ---------------------------------------------------------- lowering
    def go(self, t):
        o, a = t.op, t.a
        L = self
        if o in ("param", "c", "none", "unit", "bot", "fn", "zst", "named", "obj", "default", "top", "resume", "tbl", "any"):
            return t
        if o == "pushed":
            return mk("pushed", L(a[0]), a[1])
        if o == "ret":
            return L(a[1])
        if o == "phi":
            ms = [L(x) for x in a[0]]
            keep = [x for x in ms if x.op != "err"]
            return phi(keep if keep else ms)
        if o == "err":
            return mk("err", L(a[0]))
        if o == "field":
            return L.field(L(a[0]), a[1])
        if o == "elem":
            return L.elem(L(a[0]))
        if o == "call":
            return L.call(a[0], tuple(L(x) for x in a[1]))
        if o == "mut":
            return L.mutated(a[0], a[1], L(a[2]), tuple(L(x) for x in a[3]))
        if o == "agg":
            fs = tuple((k, L(v)) for k, v in a[2])
            if adt_last(a[0]) == "Component":
                kind = COMPS.get(a[1])
                return mk("comp", kind, L.ident(fs[0][1], kind)) if kind and len(fs) == 1 else mk("agg", a[0], a[1], fs)
            e = eta(a[0], a[1], fs)
            return e if e is not None else mk("agg", a[0], a[1], fs)
        if o == "coll":
            return mk("coll", a[0], frozenset(L(x) for x in a[1]))
        if o == "try":
            return L(a[1])
        na = []
        for y in a:
            if isinstance(y, T):
                na.append(L(y))
            elif isinstance(y, tuple):
                na.append(tuple(L(z) if isinstance(z, T) else z for z in y))
            elif isinstance(y, frozenset):
                na.append(frozenset(L(z) if isinstance(z, T) else z for z in y))
            else:
                na.append(y)
        return mk(o, *na)

    def ident(self, x, kind):
        """&name.0 -> name"""
        if kind == "S":
            def g(y):
                if y.op == "field" and y.a[1] in ("Identifier.0",):
                    return y.a[0]
                return y
            return dist(x, g)
        return x

    def field(self, x, key):
        def g(x):
            seg, name = key.rsplit(".", 1)
            if seg == "InternalMemory" and name in MEM_FIELDS:
                return tbl(MEM_FIELDS[name])
            if name == "indexed_properties" and seg in ("RocksdbTransaction", "RocksdbDatastore"):
                return tbl("IX")
            if x.op == "row":
                T = x.a[0].a[0]
                if x.a[0].a[1].op == "raw":
                    pass
                if T in ("E", "R") and key.startswith("Edge."):
                    return field(L.rowkey(x), name, "indradb::models::edges::Edge")
                if key == ".0":
                    return L.rowkey(x)
                if key == ".1":
                    return mk("val", x)
            if isget(x) and key.startswith("Edge."):
                return field(edge_agg(*edge_parts(x)), name, "indradb::models::edges::Edge")
            if x.op in ("tent", "pent", "ient") and key in ("Entry::Vacant.0", "Entry::Occupied.0"):
                return x
            if x.op == "rrow":  # a RocksDB (key bytes, value bytes) pair
                if key == ".0":
                    return mk("rkey", x.a[0])
                if key == ".1":
                    return mk("val", x.a[0])
            if x.op == "agg":
                for k2, v in x.a[2]:
                    if k2 == name:
                        return v
            if x.op == "coll" or x.op in ("none", "err"):
                return BOT if x.op != "coll" else mk("field", x, key)
            if x.op == "member" and key in ("IndexedPropertyMember::Vertex.0", "IndexedPropertyMember::Edge.0"):
                n, v = x.a
                if "Vertex" in key:
                    return mk("col", mk("row", L.scan("VI", K(n, v) if v is not WILD else K(n))), "2")
                r = mk("row", L.scan("EI", K(n, v) if v is not WILD else K(n)))
                return edge_agg(*[mk("col", r, str(i)) for i in (2, 3, 4)])
            if key == "Identifier.0" and x.op == "ident":
                return x.a[0]
            return mk("field", x, key)
        L = self
        return dist(x, g)

    def elem(self, x):
        L = self

        def g(x):
            if x.op == "tbl":
                if x.a[0] == "PV":
                    return mk("pventry")
                return mk("row", L.scan(x.a[0]))
            if x.op == "scan":
                return mk("row", x)
            if x.op == "rscan":
                return mk("rrow", mk("row", x.a[0]))
            if x.op == "values":
                y = L.strip(x.a[0])
                if y.op == "ix":
                    return mk("ixv", y.a[0], WILD)
                e = L.elem(y)
                if e.op == "row":
                    return mk("val", e)
            if x.op == "keys":
                e = L.elem(x.a[0])
                if e.op == "row":
                    return L.rowkey(e)
            if x.op == "ix":
                return mk("agg", "tuple", "", (("0", mk("ixval", x.a[0])), ("1", mk("ixv", x.a[0], WILD))))
            if x.op == "ixv":
                return mk("member", x.a[0], x.a[1])
            if x.op == "map":
                return x.a[1]
            return elem(x)
        return dist(x, g)

    def call(self, path, args):
        L = self
        n = path.split("::")[-1]
        seg = path.split("::")[-2] if "::" in path else ""
        a0 = L.strip(args[0]) if args else None
        # ---------------------------------------------------- RocksDB
        if n == "cf_handle" and len(args) >= 2 and args[1].op == "c":
            return tbl(CFS[args[1].a[0]]) if args[1].a[0] in CFS else mk("tbl", "?" + args[1].a[0])
        if path.endswith("util::build") and a0 is not None and a0.op == "agg":
            cs = [v for _, v in a0.a[2]]
            if all(c.op == "comp" for c in cs):
                return mk("bytes", tuple((c.a[0], c.a[1]) for c in cs))
            return mk("bytes", tuple(("?", c) for c in cs))
        if n == "concat" and a0 is not None and a0.op == "agg" and a0.a[0] == "array" and a0.a[2]:
            ps = [L.strip(v) for _, v in a0.a[2]]
            if all(q.op == "bytes" for q in ps):
                return mk("bytes", sum((q.a[0] for q in ps), ()))
        if path.endswith("util::build") and a0 is not None and a0.op == "coll":
            return mk("badkey", a0)
        if n in ("get_cf", "get_pinned_cf", "get_cf_opt", "get_pinned_cf_opt") and len(args) >= 3:
            T = L.table(args[1])
            return mk("get", T, L.rkey(T, args[2]))
        if n in ("key_may_exist_cf",):
            return mk("call", path, args)
        if n in ("iterator_cf", "iterator_cf_opt", "full_iterator_cf", "prefix_iterator_cf", "raw_iterator_cf") and len(args) >= 2:
            T = L.table(args[1])
            m = L.strip(args[2]) if len(args) > 2 else None
            m = next((L.strip(y) for y in args[2:] if L.strip(y).op == "agg"), m)
            if n in ("iterator_cf", "full_iterator_cf") and m is not None and m.op == "agg" and m.a[1] == "From":
                d = dict(m.a[2])
                dr = d.get("1")
                if dr is not None and dr.op == "agg" and dr.a[1] == "Forward":
                    return mk("rscan", L.scan(T, L.rkey(T, d["0"])))
            if n in ("iterator_cf", "full_iterator_cf") and m is not None and m.op == "agg" and m.a[1] == "Start":
                return mk("rscan", L.scan(T))
            return mk("rscan", mk("scan", T, mk("badlow", *[x for x in args[2:]]), NOKEY))
        if n in READS and path.endswith("util::" + n):
            return L.readcol(a0, READS[n], 0)
        if n in ("from_slice", "deserialize", "from_bytes", "to_vec", "serialize", "serialize_into") and len(args) >= 1:
            return args[0]
        if n in ("new_unchecked",) or seg == "Identifier" and n in ("new", "new_unchecked"):
            return args[0]
        if n == "new" and seg == "Cursor":
            if a0.op == "rkey":
                return mk("cur", a0.a[0], "0")
            return mk("vcur", args[0])
        # ---------------------------------------------------- containers
        if a0 is not None and a0.op == "tbl":
            T = a0.a[0]
            if T == "IX":
                if n == "contains":
                    return mk("indexed", args[1])
                if n == "insert":
                    return mk("inserted", T, K(args[1]))
                return mk("call", n, args)
            if T == "PV":
                if n in ("get", "get_mut", "get_key_value", "index", "index_mut", "remove") and len(args) == 2:
                    return mk("ix", args[1])
                if n == "entry":
                    return mk("pent", args[1])
                if n == "contains_key":
                    return mk("indexed", args[1])
                return mk("call", n, args)
            if n in ("get", "get_mut", "index", "remove", "take", "get_key_value", "remove_entry") and len(args) == 2:
                k = L.key(T, args[1])
                return mk("get" if n not in ("remove", "take", "remove_entry") else "get", T, k)
            if n in ("contains", "contains_key") and len(args) == 2:
                return mk("has", T, L.key(T, args[1]))
            if n in ("range", "range_mut") and len(args) == 2:
                lo, hi = L.range_bounds(T, args[1])
                return L.scan(T, lo, hi)
            if n == "entry":
                return mk("tent", T, L.key(T, args[1]))
            if n in ("insert",):
                return mk("inserted", T, L.key(T, args[1]))
            if n in ("iter", "iter_mut", "into_iter", "drain"):
                return a0
            if n == "len":
                return mk("count", L.scan(T))
            return mk("call", n, args)
        if a0 is not None and a0.op == "pent":
            if n.startswith("or_") or n in ("insert", "get", "get_mut", "into_mut"):
                return mk("ix", a0.a[0])
        if a0 is not None and a0.op == "tent" and (n.startswith("or_") or n in ("insert", "get", "get_mut", "into_mut", "remove")):
            return mk("get", a0.a[0], a0.a[1])
        if a0 is not None and a0.op == "ix":
            if n in ("get", "get_mut", "index", "index_mut", "remove") and len(args) == 2:
                return mk("ixv", a0.a[0], args[1])
            if n == "entry":
                return mk("ient", a0.a[0], args[1])
            if n == "contains_key":
                return mk("hasval", a0.a[0], args[1])
        if a0 is not None and a0.op == "ient" and (n.startswith("or_") or n in ("insert", "get", "get_mut", "into_mut")):
            return mk("ixv", a0.a[0], a0.a[1])
        if a0 is not None and a0.op == "ixv":
            if n in ("contains", "remove", "take", "get", "insert") and len(args) == 2:
                T, k = L.member_key(a0, args[1])
                return mk("has", T, k)
        if n == "count" and len(args) == 1:
            return mk("count", L.basescan(args[0]))
        if n in ("starts_with", "strip_prefix") and len(args) == 2:
            return mk("starts_with", args[0], args[1])
        if n == "index" and len(args) == 2 and args[1].op == "zst" and "RangeFull" in str(args[1].a[0]):
            return args[0]
        if n in ("get", "index") and len(args) == 2 and a0 is not None and a0.op == "rkey":
            p = L.headlen(args[1])
            if p is not None:
                return mk("head", a0, p)
        return mk("call", path, args)

    def headlen(self, x):
        """..p.len() or 0..p.len() for a byte string p: p"""
        x = self.strip(x)
        d = dict(x.a[2]) if x.op == "agg" and adt_last(x.a[0]) in ("RangeTo", "Range") else {}
        if set(d) == {"end"} or set(d) == {"start", "end"} and d["start"].op == "c" and str(d["start"].a[0]) in ("0", "0_usize"):
            return bytelen(self.strip(d["end"]))
        return None

    def basescan(self, x):
        y = self.strip(x)
        if y.op == "scanned":
            y = y.a[0]
        while y.op in ("map", "rscan", "rev", "peek", "inspect"):
            y = self.strip(y.a[0])
        return y

    def member_key(self, ixv, m):
        m = self.strip(m)
        if m.op == "agg" and adt_last(m.a[0]) == "IndexedPropertyMember":
            x = m.a[2][0][1]
            if m.a[1] == "Vertex":
                return "VI", K(ixv.a[0], ixv.a[1], x)
            return "EI", K(ixv.a[0], ixv.a[1], *edge_parts(x))
        return "?I", K(ixv.a[0], ixv.a[1], m)

    def table(self, x):
        x = self.strip(x)
        return x.a[0] if x.op == "tbl" else "?"

    def rkey(self, T, x):
        """lower a byte key used with table T to logical columns; mismatching component kinds are kept visible"""
        x = self.strip(x)
        if x.op == "bytes":
            kinds = "".join(k for k, _ in x.a[0])
            sch = SCHEMA.get(T, "")
            if not sch.startswith(kinds):
                self.bad.add((T, kinds))
                return mk("k", mk("badkey", T, kinds))
            cs = [c for _, c in x.a[0]]
            if T == "R" and len(cs) == 3:
                cs = [cs[2], cs[1], cs[0]]
            elif T == "R":
                cs = [WILD] * (3 - len(cs)) + list(reversed(cs))
            return K(*cs)
        if x.op == "c":
            return K(x)
        return K(mk("badkey", x))

    def readcol(self, cur, kind, _):
        if cur.op == "cur":
            r, pos = cur.a[0], int(cur.a[1])
            T = r.a[0].a[0]
            sch = SCHEMA.get(T, "")
            if pos < len(sch) and sch[pos] == kind:
                return mk("col", r, str(perm(T)[pos]))
            self.bad.add((T, f"read {kind} at {pos}"))
            return mk("badread", r, str(pos), kind)
        if cur.op == "vcur":
            if kind == "I":
                return cur.a[0]
            return mk("badread", cur.a[0], "v", kind)
        return mk("call", "read_" + kind, (cur,))

    def mutated(self, path, site, old, args):
        n = path.split("::")[-1]
        if n in READS:
            c = self.strip(old)
            if c.op == "cur":
                return mk("cur", c.a[0], str(int(c.a[1]) + 1))
            return mk("vcur?", c)
        if n in ("extend", "extend_from_slice", "append") and args:
            x, y = self.strip(old), self.strip(args[0])
            if x.op == "bytes" and y.op == "bytes":
                return mk("bytes", x.a[0] + y.a[0])
        if n == "insert" and self.strip(old) is tbl("IX"):
            return mk("plus", tbl("IX"), args[0])
        return mk("mut", path, site, old, args)

    def range_bounds(self, T, x):
        x = self.strip(x)
        al = adt_last(x.a[0]) if x.op == "agg" else ""
        d = dict(x.a[2]) if x.op == "agg" else {}
        if al == "RangeFrom":
            return self.key(T, d["start"]), NOKEY
        if al == "Range":
            return self.key(T, d["start"]), self.key(T, d["end"])
        if al == "RangeFull":
            return NOKEY, NOKEY
        if al == "tuple" and len(d) == 2:
            lo, hi = self.strip(d["0"]), self.strip(d["1"])
            r = []
            for b, ok in ((lo, "Included"), (hi, "Excluded")):
                if b.op == "agg" and b.a[1] == "Unbounded":
                    r.append(NOKEY)
                elif b.op == "agg" and b.a[1] == ok:
                    r.append(self.key(T, b.a[2][0][1]))
                else:
                    r.append(mk("badlow", b))
            return tuple(r)
        return mk("badlow", x), NOKEY


def bytelen(e):
    while e.op in ("pushed", "ret"):
        e = e.a[0] if e.op == "pushed" else e.a[1]
    if e.op == "len" or e.op == "call" and e.a[0].split("::")[-1] == "len":
        y = e.a[0] if e.op == "len" else e.a[1][0]
        while y.op in ("pushed", "ret"):
            y = y.a[0] if y.op == "pushed" else y.a[1]
        return y if y.op in ("bytes", "rkey") else None
    return None


# ------------------------------------------------------------------ guarded clauses
MIN = ("default",)


def is_min(x):
    return x.op == "default" or x.op == "call" and x.a[0].split("::")[-1] in ("nil", "default", "max_nil")


def prefix_ok(eqs):
    """the equalities fix a prefix of the stored key of one row"""
    cols, rw = set(), None
    for a in eqs:
        hit = False
        for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
            if x.op == "col" and (rw is None or rw is x.a[0]) and not any(z is x.a[0] for z in subterms(y)):
                rw = x.a[0]
                cols.add(int(x.a[1]))
                hit = True
                break
        if not hit:
            return False
    if rw is None or rw.a[0].op != "scan":
        return False
    order = (2, 1, 0) if rw.a[0].a[0] == "R" else tuple(range(8))
    return cols == set(order[:len(cols)])


class Clauses:
    """turns (terms, DNF) into lists of phi-free guarded clauses over the neutral vocabulary"""

    def __init__(self, an, cond=None):
        self.A = an
        self.C = cond or Cond(an)
        self.L = Lower()
        self.cutmemo = {}
        self.pick, self.pickmemo = {}, {}

    # literal -> DNF over neutral atoms
    def lit(self, atom, lab):
        L = self.L
        if self.pick:
            atom = choose(atom, self.pick, self.pickmemo)
        if atom.op == "iter":
            return self.iterlit(L(atom.a[0]), lab)
        if atom.op == "tw":  # take_while keeps every matching row only if it follows the sort order
            fid = int(atom.a[0].a[0])
            d = self.dnf(self.C.keeps(atom))
            if len(atom.a) > 1:  # (map_while: an item that is not an error)
                d = {frozenset((a, l) for a, l in c if not (a.op == "some" and l == "Y" and a.a[0].op == "rrow")) for c in d}
            if len(d) == 1 and all(a.op == "eq" and l == "Y" for a, l in next(iter(d))) and prefix_ok([a for a, l in next(iter(d))]):
                return TOP
            fn = self.A.frames[fid].fn
            return one(mk("truncated", mk("c", fn.label())), "Y")
        if atom.op == "cut":  # leaving a loop early is the same
            if atom in self.cutmemo:
                return self.cutmemo[atom]
            self.cutmemo[atom] = TOP
            eqs, ok = [], True
            for st in self.C.stays(atom):
                d = self.dnf(st)
                if len(d) == 1 and all(a.op == "eq" and l == "Y" for a, l in next(iter(d))):
                    eqs += [a for a, l in next(iter(d))]
                else:
                    ok = False
            if not (ok and prefix_ok(eqs)):
                fn = self.A.frames[int(atom.a[0].a[0])].fn
                self.cutmemo[atom] = one(mk("truncated", mk("c", fn.label())), "Y")
            return self.cutmemo[atom]
        if atom.op == "is":
            x = L.strip(L(atom.a[0]))
            kind = atom.a[1]
            if kind == "R":
                return TOP if lab == "Y" else [frozenset([(mk("error", x), "Y")])]
            return self.present(x, lab)
        if atom.op == "has":
            t, k = L.strip(L(atom.a[0])), L(atom.a[1])
            if t.op == "tbl" and t.a[0] in ("IX", "PV"):
                return one(mk("indexed", k), lab)
            if t.op == "tbl":
                return one(mk("has", t.a[0], L.key(t.a[0], k)), lab)
            if t.op == "agg" and t.a[0] == "array":  # [a, b].contains(x)
                r = FALSEC if lab == "Y" else TOP
                for _, v in t.a[2]:
                    e = self.eqlit(L.strip(v), L.strip(k), lab)
                    r = disj(r, e) if lab == "Y" else conj(r, e)
                return r
            if t.op == "ix":
                return one(mk("hasval", t.a[0], k), lab)
            if t.op == "ixv":
                T, kk = L.member_key(t, k)
                return one(mk("has", T, kk), lab)
            return one(mk("has", t, k), lab)
        x = L(atom)
        if x.op == "bin" and lab in ("Y", "N"):  # is the row's key at least as long as a prefix
            l, r = bytelen(L.strip(x.a[1])), bytelen(L.strip(x.a[2]))
            if l is not None and r is not None:
                op = x.a[0]
                if l.op == "bytes":
                    l, r, op = r, l, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
                if l.op == "rkey" and r.op == "bytes" and (op, lab) in (("Lt", "N"), ("Ge", "Y")):
                    return one(mk("longer", l, r), "Y")
        if x.op in ("eq",):
            return self.eqlit(x.a[0], x.a[1], lab)
        if x.op == "starts_with":
            return self.startslit(x, lab)
        if x.op in ("has", "indexed", "hasval"):
            return one(x, lab)
        if x.op == "get":
            return one(mk("has", x.a[0], x.a[1]), lab)
        if x.op == "vacant" and x.a:
            e = L.strip(x.a[0])
            if e.op == "tent":
                return one(mk("has", e.a[0], e.a[1]), "N" if lab == "Y" else "Y")
            if e.op == "pent":
                return one(mk("indexed", e.a[0]), "N" if lab == "Y" else "Y")
        if x.op == "inserted" and x.a[0] == "IX":
            return one(mk("indexed", x.a[1].a[0]), "N" if lab == "Y" else "Y")
        if x.op == "inserted":
            return one(mk("has", x.a[0], x.a[1]), "N" if lab == "Y" else "Y")
        if x.op == "call" and x.a[0].split("::")[-2:] in (["Iterator", "all"], ["Iterator", "any"]) and lab in ("Y", "N") and len(x.a[1]) == 2:
            arr, body = L.strip(x.a[1][0]), (atom if atom.op == "call" else x).a[1][1]
            if arr.op == "agg" and arr.a[0] == "array" and arr.a[2]:
                es = [L.strip(v) for _, v in arr.a[2]]
                ph = [z for z in subterms(body) if z.op == "phi" and {L.strip(L(y)) for y in z.a[0]} == set(es)]
                both = x.a[0].endswith("::all") == (lab == "Y")
                r = TOP if both else FALSEC
                for v in es:
                    y = subst(body, {z: v for z in ph})
                    if y.op in ("has", "indexed", "hasval") and not isinstance(y.a[0], T):
                        d = one(y, lab)
                    else:
                        d = self.dnf(self.C.bool_lit(y, lab == "Y"))
                    r = conj(r, d) if both else disj(r, d)
                return r
        if x.op == "call" and x.a[0].split("::")[-1] == "starts_with":
            return self.startslit(mk("starts_with", *x.a[1][:2]), lab)
        if x.op == "variant":
            v = L.strip(x.a[0])
            if v.op in ("tent", "pent", "ient") and lab in ("Vacant", "Occupied"):
                a = {"tent": "has", "pent": "indexed", "ient": "hasval"}[v.op]
                return one(mk(a, *v.a), "Y" if lab == "Occupied" else "N")
            if v.op == "member" and isinstance(lab, str):
                return [frozenset([(mk("member", v.a[0], v.a[1], lab), "Y")])]
        return one(x, lab)

    def present(self, x, lab):
        if x.op == "get":
            return one(mk("has", x.a[0], x.a[1]), lab)
        if x.op == "ix":
            return one(mk("indexed", x.a[0]), lab)
        if x.op == "ixv":
            return one(mk("hasval", x.a[0], x.a[1]), lab)
        if x.op == "phi":
            ms = [y for y in x.a[0] if y.op not in ("none", "err")]
            if len(ms) == 1:
                return self.present(ms[0], lab)
        if x.op == "val" and lab == "Y":
            return TOP
        if x.op == "agg" and not x.a[0].endswith(("Option", "Result")):
            return TOP if lab == "Y" else FALSEC
        return one(mk("some", x), lab)

    def iterlit(self, x, lab):
        L = self.L
        x = L.strip(x)
        if x.op in ("keys", "values", "map", "rev", "filter", "enumerate"):
            y = L.strip(x.a[0])
            if y.op == "ix":
                return one(mk("iter", mk("ixall", y.a[0])), lab)
            return self.iterlit(y, lab)
        if x.op == "rscan":
            return one(mk("iter", x.a[0]), lab)
        if x.op == "tbl":
            return one(mk("iter", L.scan(x.a[0])), lab)
        if x.op == "phi":
            r = set()
            for y in x.a[0]:
                r |= set(self.iterlit(y, lab))
            return frozenset(r)
        if x.op == "coll" or x.op == "agg" and x.a[0] == "array" and x.a[2]:
            return TOP if lab == "Y" else one(mk("iter", x), lab)
        return one(mk("iter", x), lab)

    def eqlit(self, a, b, lab):
        L = self.L
        a, b = asedge(L.strip(a)), asedge(L.strip(b))
        for p, q in ((a, b), (b, a)):
            if p.op == "head" and p.a[1] is q:
                return self.startslit(mk("starts_with", p.a[0], q), lab)
        if lab == "Y" and (is_edge_agg(a) or is_edge_agg(b)):
            r = set()
            for x, y in zip(edge_parts(a), edge_parts(b)):
                if x is not y:
                    r.add((mk("eq", *sorted((x, y), key=lambda z: z.h)), "Y"))
            return frozenset([frozenset(r)])
        if lab == "N" and (is_edge_agg(a) or is_edge_agg(b)):
            return frozenset([frozenset([(mk("eqedge", *sorted((a, b), key=lambda z: z.h)), "N")])])
        if a is b:
            return TOP if lab == "Y" else FALSEC
        return one(mk("eq", *sorted((a, b), key=lambda z: z.h)), lab)

    def startslit(self, x, lab):
        L = self.L
        r, p = L.strip(x.a[0]), L.strip(x.a[1])
        if r.op == "rkey" and p.op == "bytes" and lab == "Y":
            row = r.a[0]
            T = row.a[0].a[0]
            sch = SCHEMA.get(T, "")
            kinds = "".join(k for k, _ in p.a[0])
            # a prefix ending in an unterminated string would also match longer strings
            if sch.startswith(kinds) and not kinds.endswith("S") and "S" not in kinds:
                lits = set()
                for i, (_, c) in enumerate(p.a[0]):
                    lits.add((mk("eq", *sorted((mk("col", row, str(perm(T)[i])), c), key=lambda z: z.h)), "Y"))
                return frozenset([frozenset(lits)])
        return one(x, lab)

    def dnf(self, d):
        out = set()
        for c in d:
            acc = [frozenset()]
            dead = False
            for atom, lab in c:
                labs = [lab] if not isinstance(lab, frozenset) else None
                r = self.lit(atom, lab)
                if r == TOP:
                    continue
                acc = [x | y for x in acc for y in r]
                if not acc:
                    dead = True
                    break
            if not dead:
                out |= set(acc)
        out = {frozenset(z for z in c if not (z[0].op == "longer" and all(x <= c for x in self.startslit(z[0], "Y")))) for c in out}
        out = simplify(frozenset(out)) if out else frozenset()
        good = {c for c in out if not any(a.op == "error" for a, l in c)}
        return good if good else out

    def alternatives(self, terms, cond):
        """[(terms, clause)] - every phi-free instance of the terms with one disjunct of its condition"""
        n = len(terms)
        bundle = mk("agg", "bundle", "", tuple((str(i), t) for i, t in enumerate(terms)))
        res = []
        colls = {}
        for t, tags in expand(bundle, 512):
            # two values pushed into one local collection at different places cannot meet
            seen = {}
            clash = not consistent(tags)
            for tg in tags:
                ev = self.A.events.get(tg) if not is_next(tg) else None
                if ev is not None and ev.name in ADD | {"insert"} and ev.args:
                    org = origin(ev.args[0])
                    if org is not None and seen.setdefault(org, tg) != tg and nested(ev, self.A.events[seen[org]]):
                        clash = True
            if clash:
                continue
            c = cond
            for tg in tags:
                if not is_next(tg):
                    c = conj(c, self.C.tagcond(tg))
            self.pick, self.pickmemo = choice(tags) or {}, {}
            if self.pick:
                self.cutmemo = {}
            d = self.dnf(c)
            if self.pick:
                self.pick, self.cutmemo = {}, {}
            vals = [asedge(self.L.strip(self.L(v))) for _, v in t.a[2]] if t.op == "agg" and t.a[0] == "bundle" else [self.L.strip(self.L(t))]
            for cl in d:
                res.append((vals, cl))
        return res


def nested(a, b):
    return True


def origin(t):
    """identity of the local collection a push goes to"""
    if t.op == "coll":
        return t.a[0]
    if t.op == "entry":
        return origin(t.a[0])
    if t.op == "phi":
        for m in t.a[0]:
            o = origin(m)
            if o is not None:
                return o
    return None


def one(atom, lab):
    return frozenset([frozenset([(atom, lab)])])


# ------------------------------------------------------------------ clause normalisation
def subst(t, m, memo=None):
    if not m:
        return t
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t in m:
        return m[t]
    memo[t] = t
    if not any(x in m for x in subterms(t)):
        return t
    na = []
    for y in t.a:
        if isinstance(y, T):
            na.append(subst(y, m, memo))
        elif isinstance(y, tuple):
            na.append(tuple(subst(z, m, memo) if isinstance(z, T) else (tuple(subst(w, m, memo) if isinstance(w, T) else w for w in z) if isinstance(z, tuple) else z) for z in y))
        elif isinstance(y, frozenset):
            na.append(frozenset(subst(z, m, memo) if isinstance(z, T) else z for z in y))
        else:
            na.append(y)
    r = mk(t.op, *na)
    memo[t] = r
    return r


NCOLS = {"V": 1, "E": 3, "R": 3, "VP": 2, "EP": 4, "VI": 3, "EI": 5, "META": 1}


def normalise(vals, clause):
    """Use the equalities of a clause: rows become row(T, pattern, low) and the
    columns fixed by the pattern are replaced by what they equal."""
    lits = set(clause)
    # member variants of the in-memory index
    for a, l in list(lits):
        if a.op == "member":
            n, v, var = a.a
            lits.discard((a, l))
            Tn = "VI" if var == "Vertex" else "EI"
            s = mk("scan", Tn, K(n, v) if v is not WILD else K(n), NOKEY)
            for b, lb in list(lits):
                if b.op == "iter" and b.a[0].op in ("ixv", "ixall") and b.a[0].a[0] is n:
                    lits.discard((b, lb))
                if b.op in ("indexed",) and b.a[0] is n and False:
                    pass
            lits.add((mk("iter", s), "Y"))
            lits.add((mk("eq", mk("col", mk("row", s), "0"), n), "Y"))
            if v is not WILD:
                lits.add((mk("eq", mk("col", mk("row", s), "1"), v), "Y"))
    for _ in range(6):
        rows = {}
        for t in list(vals) + [a for a, _ in lits]:
            for x in subterms(t):
                if x.op == "row" and x.a[0].op == "scan":
                    rows[x] = None
                if x.op == "scan":
                    rows[mk("row", x)] = None
        # innermost rows first: a row whose bounds mention no other raw row
        todo = [r for r in rows if not any(y.op == "row" and y.a[0].op == "scan" and y is not r for y in subterms(r))]
        if not todo:
            break
        m = {}
        for r in todo:
            s = r.a[0]
            Tn, low, high = s.a
            n = NCOLS.get(Tn, 1)
            pat = [WILD] * n
            for a, l in list(lits):
                if a.op == "eq" and l == "Y":
                    for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                        if x.op == "col" and x.a[0] is r and not any(z is r for z in subterms(y)):
                            i = int(x.a[1])
                            if pat[i] is WILD:
                                pat[i] = y
                                lits.discard((a, l))
                            break
            # exclusive upper bound (next(prefix), min...) fixes the first column
            if high.op == "k" and high.a and low.op == "k" and len(low.a) == len(high.a):
                h0, l0 = high.a[0], low.a[0]
                if Tn == "R":
                    h0, l0 = high.a[-1], low.a[-1]
                hr = high.a[:-1] if Tn == "R" else high.a[1:]
                if h0.op == "call" and h0.a[0].split("::")[-1] in ("next_uuid",) and h0.a[1] and h0.a[1][0] is l0 and all(is_min(z) for z in hr):
                    pat[2 if Tn == "R" else 0] = l0
                    high = NOKEY
            # lower bound implied by the pattern?
            order = (2, 1, 0) if Tn == "R" else tuple(range(n))
            lowk = low
            if low.op == "k":
                comps = list(low.a)
                stored = comps
                if Tn == "R":
                    stored = list(reversed(comps))
                full = True
                ok = True
                for j, c in enumerate(stored):
                    colno = order[j] if j < len(order) else j
                    if c is WILD or is_min(c):
                        full = False
                        continue
                    if not full:
                        ok = False
                        break
                    if pat[colno] is WILD or pat[colno] is not c:
                        ok = False
                        break
                if ok:
                    lowk = NOKEY
            base = Tn
            nr = mk("row", mk("R", "E" if Tn == "R" else Tn, tuple(pat), lowk, high if isinstance(high, T) else NOKEY, Tn if lowk is not NOKEY or Tn != "R" else "E"))
            m[r] = nr
            m[s] = nr.a[0]
            for i, p in enumerate(pat):
                if p is not WILD:
                    m[mk("col", r, str(i))] = p
        vals = [subst(v, m) for v in vals]
        # columns of patterned rows
        lits = {(subst(a, m), l) for a, l in lits}
    # columns fixed by the pattern, seen through the new rows
    m = {}
    for t in list(vals) + [a for a, _ in lits]:
        for x in subterms(t):
            if x.op == "col" and x.a[0].op == "row" and x.a[0].a[0].op == "R":
                p = x.a[0].a[0].a[1][int(x.a[1])]
                if p is not WILD:
                    m[x] = p
    if m:
        vals = [subst(v, m) for v in vals]
        lits = {(subst(a, m), l) for a, l in lits}
    # get of the row one is at
    m = {}
    for t in list(vals) + [a for a, _ in lits]:
        for x in subterms(t):
            if x.op == "get" and x.a[1].op == "k":
                for r in {y.a[0] for y in subterms(x) if y.op == "col" and y.a[0].op == "row"}:
                    s = r.a[0]
                    if s.op == "R" and s.a[0] == x.a[0] and len(x.a[1].a) == NCOLS.get(s.a[0], 0):
                        if all(c is (mk("col", r, str(i)) if s.a[1][i] is WILD else s.a[1][i]) for i, c in enumerate(x.a[1].a)):
                            m[x] = mk("val", r)
    vals = [subst(v, m) for v in vals]
    lits2 = set()
    dead = False
    for a, l in lits:
        a = subst(a, m)
        # presence of the very row one is at is known
        if a.op == "has" and isinstance(a.a[0], str) and a.a[1].op == "k" and l == "Y":
            hit = False
            for r in {y.a[0] for y in subterms(a) if y.op == "col" and y.a[0].op == "row"}:
                s = r.a[0]
                if s.op == "R" and s.a[0] == a.a[0] and len(a.a[1].a) == NCOLS.get(s.a[0], 0):
                    if all(c is (mk("col", r, str(i)) if s.a[1][i] is WILD else s.a[1][i]) for i, c in enumerate(a.a[1].a)):
                        hit = True
            if hit:
                continue
        if a.op == "eq" and a.a[0] is a.a[1]:
            if l == "N":
                dead = True
            continue
        lits2.add((a, l))
    if dead:
        return None
    # contradictory literals
    pos = {a for a, l in lits2 if l == "Y"}
    if any(a in pos for a, l in lits2 if l == "N"):
        return None
    return list(vals), frozenset(lits2)


def showk(t):
    return sshow(t)


def sshow(t):
    o, a = t.op, t.a
    if o == "k":
        return "(" + ", ".join(sshow(x) for x in a) + ")"
    if o == "row":
        return sshow(a[0])
    if o == "R":
        s = f"{a[0]}[" + ",".join("_" if p is WILD else sshow(p) for p in a[1]) + "]"
        if a[2] is not NOKEY:
            s += f" from{'~' if a[4] == 'R' else ''} {sshow(a[2])}"
        if a[3] is not NOKEY:
            s += f" to {sshow(a[3])}"
        return s
    if o == "col":
        return f"{sshow(a[0])}.{a[1]}"
    if o == "val":
        return f"{sshow(a[0])}.val"
    if o == "get":
        return f"{a[0]}{sshow(a[1])}"
    if o == "has":
        return f"has {a[0]}{sshow(a[1])}" if isinstance(a[0], str) else f"has {sshow(a[0])} {sshow(a[1])}"
    if o == "indexed":
        return f"indexed {sshow(a[0])}"
    if o == "iter":
        return f"each {sshow(a[0])}"
    if o == "field":
        return f"{sshow(a[0])}.{a[1].split('.')[-1]}"
    if o == "elem":
        return f"each({sshow(a[0])})"
    if o == "eq":
        return " == ".join(sorted((sshow(a[0]), sshow(a[1]))))
    if o in ("tbl",):
        return a[0]
    if o == "agg":
        return f"{short(a[0])}{'::' + a[1] if a[1] else ''}{{" + ", ".join(f"{k}: {sshow(v)}" for k, v in a[2]) + "}"
    if o == "call":
        return f"{short(a[0])}({', '.join(sshow(x) for x in a[1])})"
    if o == "phi":
        return "{" + " | ".join(sorted(sshow(x) for x in a[0])) + "}"
    if o == "pushed":
        return sshow(a[0])
    if all(not isinstance(x, T) for x in a):
        return show(t)
    return f"{o}(" + ", ".join(sshow(x) if isinstance(x, T) else str(x)[:40] for x in a) + ")"


def showl(cl):
    return " & ".join(sorted(("" if l == "Y" else "not " if l == "N" else f"[{l if isinstance(l, str) else '/'.join(sorted(l))}] ") + sshow(a) for a, l in cl)) or "always"
