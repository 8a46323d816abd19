"""Durability: the memory image file, RocksDB's sync, opening a database, the serialized form of the memory datastore."""
import re
from core import *
from facts import clean_ty, strip_generics


def core_of(t):
    """the value below wrappers, in-place changes and error conversion"""
    while True:
        if t.op in ("pushed",):
            t = t.a[0]
        elif t.op == "ret":
            t = t.a[1]
        elif t.op == "mut":
            t = t.a[2]
        elif t.op == "try":
            t = t.a[1]
        elif t.op == "call" and t.a[0].split("::")[-1] in ("as_file", "as_file_mut", "map_err", "get_ref", "get_mut", "into_file", "as_path", "reopen", "by_ref", "path") and t.a[1]:
            t = t.a[1][0]
        else:
            return t


def oks(t):
    """the non-error alternatives of a value"""
    r = []
    for m in members(t):
        if m.op in ("pushed", "ret") and core_of(m).op == "phi":
            r += oks(core_of(m))
        elif m.op not in ("err", "bot"):
            r.append(m)
    return r


def base(t):
    """core of every alternative: a term if they agree"""
    s = {core_of(m) for m in oks(core_of(t))}
    return next(iter(s)) if len(s) == 1 else phi(s) if s else t


def conds(o, ev):
    return frozenset(lits(c) for c in o.X.dnf(o.C.event(ev)))


def file_events(o):
    """(event, kind, target terms)"""
    out = []
    for e in o.events():
        p, n = e.path, e.name
        a = [base(x) for x in e.args]
        if n in ("persist", "persist_noclobber") and "tempfile" in p:
            out.append((e, "publish", a[0], a[1]))
        elif p.startswith("std::fs::rename"):
            out.append((e, "publish", a[0], a[1]))
        elif re.match(r"std::fs::(copy|hard_link)$", p):
            out.append((e, "copy", a[0], a[1]))
        elif re.match(r"std::fs::(remove_file|remove_dir_all|remove_dir|set_permissions)$", p) or n in ("set_len", "truncate"):
            out.append((e, "destroy", a[0], None))
        elif p == "std::fs::write":
            out.append((e, "create", a[0], None))
            out.append((e, "write", a[0], a[1]))
        elif re.search(r"fs::File::(create|create_new)$", p):
            out.append((e, "create", a[0], None))
        elif n == "open" and "OpenOptions" in p:
            out.append((e, "create", a[1], None))
        elif "tempfile" in p and n in ("new", "tempfile", "tempdir"):
            out.append((e, "tempnew", None, None))
        elif "tempfile" in p and n in ("new_in", "tempfile_in"):
            out.append((e, "temp", a[-1], None))
        elif p.startswith("rmp_serde") and n in ("write", "write_named"):
            out.append((e, "write", a[0], a[1]))
        elif p.startswith("rmp_serde") and n in ("to_vec", "to_vec_named"):
            pass
        elif n in ("write_all", "write") and "Write" in p:
            out.append((e, "write", a[0], a[1]))
        elif n == "serialize" and len(a) == 2:
            out.append((e, "write", a[1], a[0]))
        elif n in ("sync_all", "sync_data"):
            out.append((e, "sync", a[0], None))
        elif n == "flush" and "Write" in p:
            out.append((e, "flush", a[0], None))
        elif n == "into_inner" and "BufWriter" in p:
            out.append((e, "flush", a[0], None))
    return out


def handle(t):
    """the file a handle or path stands for: File::create(p) and p, Serializer::new(f) and f are the same file"""
    t = base(t)
    if t.op == "call" and t.a[1] and (re.search(r"File::(create|create_new|open)$", t.a[0]) or t.a[0].split("::")[-1] in ("create", "create_new") and "File" in t.a[0]):
        return base(t.a[1][0])
    if t.op == "call" and "OpenOptions" in t.a[0] and len(t.a[1]) > 1:
        return base(t.a[1][1])
    if t.op in ("call", "obj") and "Serializer" in str(t.a[0]) and isinstance(t.a[1], tuple) and t.a[1] and isinstance(t.a[1][0], T):
        return handle(t.a[1][0])
    return t


def in_dir(t, path):
    """is this directory / temporary in the directory of `path`"""
    for m in oks(t):
        m = core_of(m)
        while m.op == "ofilter":
            m = core_of(m.a[0])
        s = sshow(m)
        if s not in (f"Path::parent({path})", "Path::new('.')", "'.'", "''"):
            return False
    return True


@prop("C07")
def memory_image(ctx, rep):
    """sync of the memory datastore: temporary file in the same directory, written, flushed, synced, renamed over the image"""
    o = ctx.op("memory", "sync", rep)
    if o is None:
        return
    evs = file_events(o)
    P = "self.path"
    pubs = [x for x in evs if x[1] == "publish"]
    if not rep.check(len(pubs) == 1, "memory sync: published once", f"the image is put in place {len(pubs)} times, expected one atomic rename"):
        return
    e, _, src, dst = pubs[0]
    w = where(e)
    rep.check(sshow(dst) == P, "memory sync: published to the path of the datastore", f"{w}: renamed to {sshow(dst)}", f"{w}: renamed onto {P}")
    rep.check(e.name != "persist_noclobber", "memory sync: replaces the old image", f"{w}: {e.name} fails once the image exists")
    S = frozenset([frozenset([f"some({P})"])])
    cs = conds(o, e)
    rep.check(cs == S, "memory sync: published whenever there is a path", f"{w}: published only if {sorted(map(sorted, cs))}")
    tmp = handle(src)
    rep.check(sshow(tmp) != P, "memory sync: written to a temporary file", f"{w}: the image itself is written in place")
    for x in evs:
        ev, k, a, b = x
        we = where(ev)
        if k in ("create", "destroy", "copy"):
            tgt = handle(b if k == "copy" else a)
            rep.check(sshow(tgt) != P, f"memory sync: {k} {short(ev.path)} on the image", f"{we}: {ev.name} on the image itself: a crash in between leaves no complete image")
            if k == "copy" and sshow(tgt) != P:
                rep.check(False, "memory sync: copied", f"{we}: {ev.name} to {sshow(tgt)}")
        if k == "tempnew":
            rep.check(False, "memory sync: temporary file in the system's directory", f"{we}: the temporary file may be on another filesystem, where the rename fails or is not atomic")
        if k == "temp":
            rep.check(in_dir(a, P), "memory sync: temporary file in the image's directory", f"{we}: temporary file created in {sshow(a)}", f"{we}: temporary in {sshow(a)}")
    if tmp.op != "call" or "tempfile" not in tmp.a[0]:
        ok = any(x.op == "field" and sshow(x) == P for x in subterms(tmp))
        ok = ok and not any(x.op == "call" and x.a[0].split("::")[-1] == "temp_dir" for x in subterms(tmp))
        rep.check(ok, "memory sync: temporary file in the image's directory", f"{w}: the temporary file {sshow(tmp)} is not beside the image")
    writes = [x for x in evs if x[1] == "write" and handle(x[2]) is tmp]
    if rep.check(bool(writes), "memory sync: the image is written", f"{w}: nothing is written to {sshow(tmp)}"):
        for ev, _, _, v in writes:
            v = base(v)
            if v.op == "call" and v.a[0].startswith("rmp_serde") and v.a[0].split("::")[-1] in ("to_vec", "to_vec_named") and v.a[1]:
                v = base(v.a[1][0])
            rep.check(sshow(v) == "self.internal", "memory sync: the whole state is written", f"{where(ev)}: writes {sshow(v)}", f"{where(ev)}: writes {sshow(v)}")
            rep.check(conds(o, ev) == S, "memory sync: written whenever there is a path", f"{where(ev)}: written only if {sorted(map(sorted, conds(o, ev)))}")
        rep.check(len(writes) == 1, "memory sync: written once", f"{len(writes)} writes into the image: the reader expects one value")
        syncs = [x for x in evs if x[1] == "sync" and handle(x[2]) is tmp and all(o.A.before(y[0], x[0]) for y in writes) and o.A.before(x[0], e) and conds(o, x[0]) == S]
        rep.check(bool(syncs), "memory sync: synced before the rename", f"{w}: the image is put in place without File::sync_all after its last write: a crash can leave an incomplete image", f"{w}: sync_all before persist")
        if uses_bufwriter(o):
            ends = [x[0] for x in syncs] or [e]
            fl = [x for x in evs if x[1] == "flush" and conds(o, x[0]) == S and all(o.A.before(y[0], x[0]) for y in writes) and any(o.A.before(x[0], y) for y in ends)]
            rep.check(bool(fl), "memory sync: buffer flushed before the sync", f"{w}: the buffered writer is not flushed explicitly between the write and the sync, so that the rest may be written late or its failure is lost")

def uses_bufwriter(o):
    for fr in o.A.frames.values():
        for b in fr.fn.blocks:
            t = b["t"]
            if t[0] == "call" and t[1][0] == "const" and "fn" in t[1][1]:
                p = strip_generics(t[1][1]["fn"]["path"])
                if re.search(r"BufWriter::(new|with_capacity)$", p) or p.endswith("LineWriter::new"):
                    return True
    return False


def literals(t):
    return [x.a[0] for x in subterms(t) if x.op == "c"]


def cfname(t):
    """names of column families a handle stands for"""
    r = set()
    for m in members(core_of(t)):
        m = core_of(m)
        if m.op == "call" and m.a[0].endswith("cf_handle") and len(m.a[1]) == 2:
            for n in members(core_of(elem1(m.a[1][1]))):
                r.add(n.a[0] if n.op == "c" else sshow(n))
        else:
            r.add("?" + sshow(m))
    return r


def elem1(t):
    t = core_of(t)
    return t


def opened(ctx, rep, name):
    """the names opened by a constructor"""
    fn = ctx.F.one(name=name, self_ty="RocksdbDatastore", kind="fn")
    if fn is None:
        rep.missing(f"RocksdbDatastore::{name}")
        return None
    o = Op(ctx.F, fn, {1: mk("param", "path")}, opaque=RDB_OPAQUE)
    rep.analysed(fn)
    rep.sites += len(o.A.events)
    return o


def names_of(t):
    """strings in an array or collection of names / descriptors"""
    r = set()
    for m in members(core_of(elem(core_of(t)))):
        m = core_of(m)
        if m.op in ("call", "obj") and "ColumnFamilyDescriptor" in str(m.a[0]):
            m = core_of(m.a[1][0]) if isinstance(m.a[1], tuple) and m.a[1] and isinstance(m.a[1][0], T) else m
        for n in members(m):
            r.add(n.a[0] if n.op == "c" else "?" + sshow(n))
    return r


CONSTRUCTORS = ["new_db", "new_db_with_options"]


def tables_used(ctx, rep):
    """{role: {names}} from the managers a transaction carries"""
    fn = ctx.F.one(name="transaction", self_ty="RocksdbDatastore", kind="fn")
    if fn is None:
        rep.missing("RocksdbDatastore::transaction")
        return {}
    A = Analysis(ctx.F, opaque=RDB_OPAQUE)
    r = A.run(fn, {})
    rep.analysed(fn)
    use = {}

    def go(t, role):
        t = core_of(t)
        if t.op == "agg":
            for k, v in t.a[2]:
                go(v, role if k in ("cf",) else k)
        elif t.op == "phi":
            for m in t.a[0]:
                go(m, role)
        elif t.op == "call" and t.a[0].endswith("cf_handle"):
            use.setdefault(role, set()).update(cfname(t))
    go(r, "transaction")
    return use


@prop("C20")
def column_families(ctx, rep):
    """every column family a transaction uses exists after either way of opening a database; no two roles share one"""
    use = tables_used(ctx, rep)
    rep.check(len(use) >= 8, "roles", f"only {len(use)} tables found in transaction(): {sorted(use)}")
    by = {}
    for role, ns in use.items():
        rep.check(len(ns) == 1 and not any(n.startswith("?") for n in ns), f"table of {role}", f"{role} uses {sorted(ns)}", f"{role} -> {sorted(ns)}")
        for n in ns:
            by.setdefault(n, []).append(role)
    for n, roles in sorted(by.items()):
        rep.check(len(roles) == 1, f"column family {n} has one role", f"{n} is used as {sorted(roles)}")
    need = set(by)
    for c in CONSTRUCTORS:
        o = opened(ctx, rep, c)
        if o is None:
            continue
        opens = [e for e in o.events() if re.search(r"DBCommon::open(_cf|_cf_descriptors|_cf_with_opts)?$|DB::open(_cf|_cf_descriptors)?$", e.path)]
        full = []
        bare = []
        for e in opens:
            if e.name == "open":
                bare.append(e)
            else:
                ns = names_of(e.args[2])
                full.append(e)
                miss, more = need - ns, ns - need
                rep.check(not miss, f"{c}: {e.name} names every table", f"{where(e)}: {sorted(miss)} not opened: a transaction on the reopened database panics", f"{where(e)}: opens {len(ns)} column families")
                rep.check(not any(x.startswith("?") for x in more), f"{c}: {e.name} names are known", f"{where(e)}: opens {sorted(more)}")
                rep.check(base(e.args[1]) is mk("param", "path"), f"{c}: {e.name} path", f"{where(e)}: opens {sshow(base(e.args[1]))}")
        rep.check(bool(full), f"{c}: opens the tables", f"{c} never opens the column families")
        for e in bare:
            rep.check(base(e.args[1]) is mk("param", "path"), f"{c}: {e.name} path", f"{where(e)}: opens {sshow(base(e.args[1]))}")
            made = [x for x in o.events() if x.name == "create_cf"]
            ns = set()
            cs = conds(o, e)
            for x in made:
                d = frozenset(frozenset(l for l in c if not l.startswith("each ")) for c in conds(o, x))
                if d == cs or d == frozenset([frozenset()]):
                    ns |= names_of(mk("agg", "array", "", (("0", x.args[1]),)))
                else:
                    rep.check(False, f"{c}: create_cf under a condition", f"{where(x)}: only if {sorted(map(sorted, d))}")
            miss = need - ns
            rep.check(not miss, f"{c}: creates every table", f"{where(e)}: {sorted(miss)} not created for a new database", f"{where(e)}: creates {len(ns)} column families")
        # the database handed out is the one opened
        for e in o.events():
            if e.name in ("destroy", "drop_cf", "repair") and "DB" in e.path:
                rep.check(False, f"{c}: {e.name}", f"{where(e)}: {e.name} while opening")
    fn = ctx.F.one(name="repair", self_ty="RocksdbDatastore", kind="fn")
    if fn is not None:
        rep.analysed(fn)
        A = Analysis(ctx.F, opaque=RDB_OPAQUE)
        A.run(fn, {1: mk("param", "path")})
        rs = [e for e in A.events.values() if e.name == "repair" and "DB" in e.path]
        rep.check(len(rs) == 1 and base(rs[0].args[1]) is mk("param", "path"), "repair: repairs the database at the path", f"{fn.label()} does not call DB::repair on its path")


@prop("C08")
def rocksdb_sync(ctx, rep):
    """sync of the RocksDB datastore forces every column family (or the write-ahead log) to disk"""
    use = tables_used(ctx, rep)
    o = ctx.op("rocksdb", "sync", rep)
    if o is None:
        return
    need = {n for ns in use.values() for n in ns}
    done = {}
    A = frozenset([frozenset()])
    allcf = False
    for e in o.events():
        if "DB" not in e.path and "rocksdb" not in e.path:
            continue
        cs = frozenset(frozenset(l for l in c if not l.startswith("each ")) for c in conds(o, e))
        w = where(e)
        if e.name in ("compact_range_cf", "compact_range_cf_opt"):
            full = all(base(x).op == "none" for x in e.args[2:4])
            rep.check(full, f"rocksdb sync: {sorted(cfname(e.args[1]))} compacted in full", f"{w}: only the range {sshow(e.args[2])}..{sshow(e.args[3])}")
            if cs == A and full:
                for n in cfname(e.args[1]):
                    done[n] = w
        elif e.name in ("flush_cf", "flush_cf_opt"):
            if cs == A:
                for n in cfname(e.args[1]):
                    done[n] = w
        elif e.name in ("flush_cfs_opt",):
            if cs == A:
                for n in cfname(elem(core_of(e.args[1]))):
                    done[n] = w
        elif e.name == "flush_wal":
            if cs == A and base(e.args[1]) is TRUE:
                allcf = True
        elif e.name in ("flush", "flush_opt"):
            pass
        elif e.name in ("cf_handle",):
            pass
        else:
            rep.check(False, f"rocksdb sync: {e.name}", f"{w}: unexpected {e.path}")
    for n in sorted(need):
        rep.check(allcf or n in done, f"rocksdb sync: {n}", f"sync does not force {n} to disk: after Ok the data of that table can be lost", f"{n}: {done.get(n, 'flush_wal(true)')}")


# ------------------------------------------------------------------ serialized form
def nested_next(t):
    """number of next_element calls before this one"""
    d = 0
    t = core_of_try(t)
    if t.op != "call" or not t.a[0].endswith("SeqAccess::next_element"):
        return None
    x = t.a[1][0]
    while x.op in ("mut", "pushed", "ret"):
        if x.op == "mut":
            if not x.a[0].endswith("next_element"):
                return None
            d += 1
            x = x.a[2]
        else:
            x = x.a[0] if x.op == "pushed" else x.a[1]
    return d


def core_of_try(t):
    while t.op in ("pushed", "ret", "try"):
        t = t.a[0] if t.op == "pushed" else t.a[1]
    return t


def last_two(p):
    return p.split("<")[0].split("::")[-1]


def reach_types(F, start):
    """workspace types in the fields of `start`, transitively"""
    names = {}
    for p in F.adts:
        if p.startswith("indradb::"):
            names.setdefault(p[len("indradb::"):], p)
    seen, st = set(), [start]
    while st:
        p = st.pop()
        if p in seen:
            continue
        seen.add(p)
        for _, fs in F.adts[p]["variants"]:
            for _, ty, *_ in fs:
                for m in re.finditer(r"[A-Za-z_][A-Za-z0-9_:]*", clean_ty(ty)):
                    q = names.get(m.group(0))
                    if q:
                        st.append(q)
    return sorted(seen)


def chain_events(A, name):
    return sorted([e for e in A.events.values() if e.name == name], key=lambda e: e.order)


@prop("C27")
def image_round_trip(ctx, rep):
    """serialization and deserialization of every type of the memory image name the same fields in the same order"""
    F = ctx.F
    start = next((p for p in F.adts if p.endswith("::InternalMemory")), None)
    if start is None:
        rep.missing("InternalMemory")
        return
    for p in reach_types(F, start):
        adt = F.adts[p]
        al = last_two(p)
        ser = F.find(name="serialize", self_ty=al, trait="Serialize", kind="fn", crate="indradb")
        de = F.find(name="deserialize", self_ty=al, trait="Deserialize", kind="fn", crate="indradb")
        if not rep.check(len(ser) == 1 and len(de) == 1, f"{al}: serialized and deserialized", f"{p}: {len(ser)} Serialize, {len(de)} Deserialize impls"):
            continue
        ser, de = ser[0], de[0]
        rep.analysed(ser, de)
        A = Analysis(F)
        r = A.run(ser, {1: mk("param", "self")})
        C = Cond(A)
        X = Clauses(A, C)
        rep.sites += len(A.events)
        SELF = mk("param", "self")
        DA = Analysis(F)
        dr = DA.run(de, {})
        de_struct = [e for e in DA.events.values() if e.name in ("deserialize_struct", "deserialize_enum", "deserialize_newtype_struct", "deserialize_tuple_struct")]
        if adt["enum"]:
            evs = chain_events(A, "serialize_newtype_variant") + chain_events(A, "serialize_unit_variant") + chain_events(A, "serialize_tuple_variant")
            vs = [v for v, _ in adt["variants"]]
            got = {}
            for e in evs:
                got[base(e.args[3]).a[0]] = (base(e.args[2]).a[0], e)
            for i, (v, fs) in enumerate(adt["variants"]):
                g = got.get(v)
                ok = g is not None and g[0] == str(i) and len(fs) == 1 and len(g[1].args) == 5 and base(g[1].args[4]) is field(SELF, fs[0][0], p, v)
                rep.check(ok, f"{al}::{v}: serialized", f"{ser.file}:{ser.line}: variant {v} is not written as variant {i} with its value", f"{al}::{v} <-> variant {i}")
            rep.check(len(de_struct) == 1 and names_list(de_struct[0].args) == vs, f"{al}: variants read", f"{de.file}:{de.line}: reads {names_list(de_struct[0].args) if de_struct else None}, expected {vs}")
            vis = visitor(F, de, "visit_enum")
            if rep.check(vis is not None, f"{al}: visitor", f"no visit_enum below {de.id}"):
                VA = Analysis(F)
                vr = VA.run(vis, {})
                got = {m.a[1] for m in oks(core_of(vr)) if m.op == "agg" and m.a[0] == p and all(core_of_try(v).op == "call" and core_of_try(v).a[0].endswith("newtype_variant") for _, v in m.a[2])}
                rep.check(got == set(vs), f"{al}: every variant is restored", f"{vis.file}:{vis.line}: restores {sorted(got)}, expected {vs}")
            continue
        fields = [f[0] for f in adt["variants"][0][1]]
        body = oks(core_of(r))
        evs = chain_events(A, "serialize_field")
        if not evs:
            # hand written: delegates to the only field
            ok = len(body) == 1 and core_of(body[0]).op == "call" and core_of(body[0]).a[0].endswith("Serialize::serialize") and base(core_of(body[0]).a[1][0]) is field(SELF, fields[0], p) and len(fields) == 1
            rep.check(ok, f"{al}: serialized as its value", f"{ser.file}:{ser.line}: writes {sshow(r)}", f"{al} serializes as its field")
            good = False
            for m in oks(core_of(dr)):
                if m.op == "agg" and m.a[0] == p:
                    v = unwrap_val(m.a[2][0][1])
                    good = v.op == "call" and v.a[0].endswith("Deserialize::deserialize")
                else:
                    good = False
                    break
            rep.check(good, f"{al}: deserialized as its value", f"{de.file}:{de.line}: reads {sshow(dr)}", f"{al} deserializes to its field")
            continue
        wrote = []
        for e in evs:
            n = base(e.args[1]).a[0] if base(e.args[1]).op == "c" else "?"
            v = base(e.args[2])
            fn_ = next((f for f in fields if field(SELF, f, p) is v), None)
            wrote.append(fn_)
            rep.check(fn_ is not None, f"{al}: value of serialized field {n}", f"{ser.file}:{ser.line}: field {n} is written as {sshow(v)}, not as it is")
            cl = [lits(c) for c in X.dnf(C.event(e))]
            rep.check(cl == [frozenset()], f"{al}.{n}: always written", f"{ser.file}:{ser.line}: field {n} is written only if {cl}")
        for f in fields:
            rep.check(f in wrote, f"{al}.{f}: written", f"{ser.file}:{ser.line}: field {f} is not written to the image: it is lost on reload", f"{al}.{f} written")
        vis = visitor(F, de, "visit_seq")
        if not rep.check(vis is not None, f"{al}: visitor", f"no visit_seq below {de.id}"):
            continue
        rep.analysed(vis)
        VA = Analysis(F)
        vr = VA.run(vis, {})
        rep.sites += len(VA.events)
        aggs = [m for m in oks(core_of(vr)) if m.op == "agg" and m.a[0] == p]
        rep.check(len(aggs) == 1, f"{al}: restored", f"{vis.file}:{vis.line}: {len(aggs)} ways to build {al}")
        for m in aggs:
            for f, v in m.a[2]:
                ds = {nested_next(x) for x in oks(v)}
                want = wrote.index(f) if f in wrote else None
                rep.check(ds == {want}, f"{al}.{f}: restored from where it was written", f"{vis.file}:{vis.line}: field {f} is element {want} of the written sequence and is restored from {sorted(map(str, ds))}: {sshow(v)[:120]}", f"{al}.{f} <-> element {want}")
    image_files(ctx, rep)


def unwrap_val(v):
    while True:
        v = core_of_try(v)
        if v.op == "call" and v.a[0].split("::")[-1] in ("new", "into", "from", "to_string", "to_owned", "clone", "into_string") and v.a[1]:
            v = v.a[1][0]
        elif v.op == "phi":
            o = {unwrap_val(m) for m in oks(v)}
            if len(o) == 1:
                return next(iter(o))
            return v
        else:
            return v


def names_list(args):
    for a in args:
        a = base(a)
        if a.op == "agg" and a.a[0] == "array":
            return [core_of(v).a[0] for _, v in a.a[2]]
    return None


def visitor(F, de, name):
    c = [f for f in F.fns.values() if f.name == name and f.kind == "fn" and f.id.startswith(de.id + "::")]
    return c[0] if len(c) == 1 else None


def image_files(ctx, rep):
    """the constructors of the memory datastore use the path they are given and the reader reads what sync writes"""
    F = ctx.F
    P = mk("param", "path")
    for n, want in (("read_msgpack_db", "read"), ("create_msgpack_db", "default"), ("new_db", "default")):
        fn = F.one(name=n, self_ty="MemoryDatastore", kind="fn")
        if fn is None:
            rep.missing(f"MemoryDatastore::{n}")
            continue
        rep.analysed(fn)
        A = Analysis(F, opaque=RDB_OPAQUE)
        r = A.run(fn, {1: P} if n != "new_db" else {})
        rep.sites += len(A.events)
        p = next((q for q in F.adts if q.endswith("::MemoryDatastore")), "")
        stores = [x for m in oks(core_of(r)) for x in subterms(m) if x.op == "agg" and x.a[0] == p]
        if not rep.check(len(set(stores)) == 1, f"{n}: builds a datastore", f"{fn.file}:{fn.line}: {sshow(r)[:200]}"):
            continue
        d = dict(stores[0].a[2])
        pv, iv = base(d["path"]), base(d["internal"])
        if n == "new_db":
            rep.check(pv.op == "none", f"{n}: no path", f"{fn.file}:{fn.line}: path {sshow(pv)}")
        else:
            rep.check(pv is P, f"{n}: keeps the path", f"{fn.file}:{fn.line}: sync would write to {sshow(pv)}, not to the given path", f"{n}: path kept")
        if want == "default":
            ok = iv.op == "default" or iv.op == "agg" and all(base(v).op in ("default", "coll", "call") for _, v in iv.a[2])
            rep.check(ok, f"{n}: starts empty", f"{fn.file}:{fn.line}: starts with {sshow(iv)[:150]}")
            # an existing image is not touched by creating the datastore
            bad = [e for e in A.events.values() if e.path.startswith("std::fs::")]
            rep.check(not bad, f"{n}: touches no file", f"{fn.label()}: {bad}")
        else:
            s = unwrap_reader(iv)
            rep.check(s, f"{n}: reads the image", f"{fn.file}:{fn.line}: the state is {sshow(iv)[:200]}, not the image decoded from the path", f"{n}: internal = decoded file at path")
            mut = [e for e in A.events.values() if e.name in MUTNAMES and e.args and any(x.op == "call" and x.a[0].startswith("rmp_serde") for x in subterms(e.args[0]))]
            rep.check(not mut, f"{n}: the state is used as read", f"{mut}")


MUTNAMES = {"insert", "remove", "clear", "retain", "pop_first", "pop_last", "drain", "append", "extend", "take", "replace", "swap"}


def unwrap_reader(v):
    v = base(v)
    if v.op == "call" and v.a[0].startswith("rmp_serde") and v.a[0].split("::")[-1] in ("from_read", "from_slice"):
        x = base(v.a[1][0])
        for _ in range(4):
            if x.op == "call" and x.a[1] and x.a[0].split("::")[-1] in ("open", "read", "new", "into", "as_slice", "deref"):
                x = base(x.a[1][-1])
        return x is mk("param", "path")
    if v.op == "call" and v.a[0].endswith("Deserialize::deserialize"):
        x = base(v.a[1][0])
        return any(y is mk("param", "path") for y in subterms(x))
    return False


@prop("C09")
def reload_registrations(ctx, rep):
    """opening a RocksDB database registers exactly the persisted indexed names"""
    key = "META('indexed_properties')"
    for c in CONSTRUCTORS:
        o = opened(ctx, rep, c)
        if o is None:
            continue
        st = {x for x in subterms(o.ret) if x.op == "agg" and x.a[0].endswith("::RocksdbDatastore")}
        if not rep.check(len(st) == 1, f"{c}: builds a datastore", f"{c}: {len(st)} datastores built"):
            continue
        d = dict(next(iter(st)).a[2])
        vals = {sshow(v[0]) for v, _ in o.X.alternatives([d["indexed_properties"]], TOP)}
        rep.check(key in vals and vals <= {key, "[]", "default()"} | {v for v in vals if v.startswith("default(")}, f"{c}: registered names", f"{c}: the registered names are {sorted(v[:150] for v in vals)}, expected the persisted ones", f"{c}: names = {key}")
        ds = [e for e in o.events() if e.name in ("deserialize", "deserialize_from") and "bincode" in e.path]
        ok = [e for e in ds if conds(o, e) in (frozenset([frozenset([f"has {key}"])]), frozenset([frozenset()]))]
        rep.check(len(ds) == len(ok) and ok, f"{c}: registered whenever persisted", f"{c}: persisted names are read under {[sorted(map(sorted, conds(o, e))) for e in ds]}")
