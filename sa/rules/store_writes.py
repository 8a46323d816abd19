"""Writes of both datastores: exactness, agreement of the tables, atomicity."""
from core import *
from spec import *

E3 = "each(edges).outbound_id, each(edges).t, each(edges).inbound_id"
v = "each(vertices).id"
VPR = f"VP[{v},_]"
OUT, INC = f"E[{v},_,_]", f"E[_,_,{v}]"
OK3, IK3 = f"{v}, {OUT}.1, {OUT}.2", f"{INC}.0, {INC}.1, {v}"
OKC, IKC = OK3.replace(", ", ","), IK3.replace(", ", ",")
EPO, EPI = f"EP[{OKC},_]", f"EP[{IKC},_]"
SELF = [f"not {INC}.0 == {v}"]


def rows_of(ctx, rep, store, name_):
    o = ctx.op(store, name_, rep)
    return (o, Rows(o)) if o is not None else (None, None)


def w(k, cond, val="", may=()):
    kind, _, key = k.partition(" ")
    return row(kind, key, cond, val, may)


DELETE_VERTICES = [
    w(f"del V({v})", "each vertices"),
    w(f"del VP({v}, {VPR}.1)", "each vertices"),
    w(f"del VI({VPR}.1, {VPR}.val, {v})", "each vertices"),
]
for T_ in ("E", "R"):
    DELETE_VERTICES += [w(f"del {T_}({OK3})", "each vertices"), w(f"del {T_}({IK3})", "each vertices", may=SELF)]
for k3, r_, may in ((OK3, EPO, ()), (IK3, EPI, SELF)):
    DELETE_VERTICES += [w(f"del EP({k3}, {r_}.3)", "each vertices", may=may), w(f"del EI({r_}.3, {r_}.val, {k3})", "each vertices", may=may)]
EPE = f"EP[{E3.replace(', ', ',')},_]"
DELETE_EDGES = [
    w(f"del E({E3})", "each edges"), w(f"del R({E3})", "each edges"),
    w(f"del EP({E3}, {EPE}.3)", "each edges"), w(f"del EI({EPE}.3, {EPE}.val, {E3})", "each edges"),
]
P0, P1 = "each(props).0", "each(props).1"
PE = f"{P0}.outbound_id, {P0}.t, {P0}.inbound_id"
DELETE_VP = [w(f"del VP({P0}, {P1})", "each props"), w(f"del VI({P1}, VP({P0}, {P1}), {P0})", "each props")]
DELETE_EP = [w(f"del EP({PE}, {P1})", "each props"), w(f"del EI({P1}, EP({PE}, {P1}), {PE})", "each props")]
SET_VP = [w("put VP(each(ids), name)", "each ids", "value"), w("put VI(name, value, each(ids))", "each ids & indexed name"),
          w("del VI(name, VP(each(ids), name), each(ids))", "each ids")]
SET_EP = [w(f"put EP({E3}, name)", "each edges", "value"), w(f"put EI(name, value, {E3})", "each edges & indexed name"),
          w(f"del EI(name, EP({E3}, name), {E3})", "each edges")]
I0, I1, I2 = "each(items).0", "each(items).1", "each(items).2"
IE = f"{I0}.outbound_id, {I0}.t, {I0}.inbound_id"
ENDS = [f"has V({I0}.outbound_id)", f"has V({I0}.inbound_id)"]
BULK = [
    w(f"put V({I0}.id)", "[Vertex] variant(each(items)) & each items", f"{I0}.t", may=[f"not has V({I0}.id)"]),
    w(f"put E({IE})", "[Edge] variant(each(items)) & each items", may=ENDS), w(f"put R({IE})", "[Edge] variant(each(items)) & each items", may=ENDS),
    w(f"put VP({I0}, {I1})", "[VertexProperty] variant(each(items)) & each items", I2),
    w(f"put EP({IE}, {I1})", "[EdgeProperty] variant(each(items)) & each items", I2),
    w(f"put VI({I1}, {I2}, {I0})", f"[VertexProperty] variant(each(items)) & each items & indexed {I1}"),
    w(f"put EI({I1}, {I2}, {IE})", f"[EdgeProperty] variant(each(items)) & each items & indexed {I1}"),
    w(f"del VI({I1}, VP({I0}, {I1}), {I0})", f"[VertexProperty] variant(each(items)) & each items"),
    w(f"del EI({I1}, EP({IE}, {I1}), {IE})", f"[EdgeProperty] variant(each(items)) & each items"),
]
CE = "edge.outbound_id, edge.t, edge.inbound_id"
CEC = "has V(edge.inbound_id) & has V(edge.outbound_id)"
CREATE_V = [w("put V(vertex.id)", "not has V(vertex.id)", "vertex.t")]
CREATE_E = [w(f"put E({CE})", CEC), w(f"put R({CE})", CEC)]


@prop("C01")
def cascade(ctx, rep):
    """deleting vertices (or edges) removes exactly the rows that depend on them, from every table, in both datastores"""
    for s in STORES:
        for n, sp in (("delete_vertices", DELETE_VERTICES), ("delete_edges", DELETE_EDGES)):
            o, R = rows_of(ctx, rep, s, n)
            if o:
                compare(rep, s, n, o, R, sp)


@prop("C26")
def props_exact(ctx, rep):
    """setting or deleting properties writes exactly the named property of exactly the given items, in both datastores"""
    for s in STORES:
        for n, sp in (("set_vertex_properties", SET_VP), ("set_edge_properties", SET_EP), ("delete_vertex_properties", DELETE_VP), ("delete_edge_properties", DELETE_EP)):
            o, R = rows_of(ctx, rep, s, n)
            if o:
                compare(rep, s, n, o, R, sp)


@prop("C29")
def bulk(ctx, rep):
    """bulk insertion stores every item of the batch and nothing else, in both datastores"""
    for s in STORES:
        o, R = rows_of(ctx, rep, s, "bulk_insert")
        if o:
            compare(rep, s, "bulk_insert", o, R, BULK)
            in_order(ctx, rep, f"{s} bulk_insert", o.fn)


BACKWARDS = {"rev", "reverse", "rfold", "try_rfold", "next_back", "pop"}


def backwards(F, f, seen):
    """(function, line, name) of each call that turns a list of bulk insert items around"""
    if f is None or f.id in seen or not f.blocks:
        return []
    seen.add(f.id)
    r = []
    for b in f.blocks:
        t = b["t"]
        if b["c"] or t[0] != "call" or t[1][0] != "const" or not isinstance(t[1][1], dict) or "fn" not in t[1][1]:
            continue
        c = t[1][1]["fn"]
        n = strip_generics(c["path"]).split("::")[-1]
        if n in BACKWARDS and "BulkInsertItem" in str(c):
            r.append((f, n))
        g = F.fns.get(c.get("rid") or c["id"])
        if g is not None and g.crate == f.crate:
            r += backwards(F, g, seen)
        for cl in c.get("closures", []):
            r += backwards(F, F.fns.get(cl), seen)
    return r


def in_order(ctx, rep, what, f):
    """the items of a batch are applied in the order given, so that the later of two values of a property stays"""
    back = backwards(ctx.F, f, set())
    rep.check(len(back) % 2 == 0, f"{what}: items from the last to the first", f"{what} goes through its items from the last to the first ({', '.join(sorted({n + ' in ' + g.label() for g, n in back}))}; {f.file}), so the first of two values of a property stays",
              f"{what}: items in order")


def loose(t, key):
    """does the term vary with the item of a loop beyond what the key fixes?"""
    fixed = {sshow(y) for y in subterms(key)} - {sshow(y) for y in subterms(key) if y.op == "elem"}

    def go(x):
        if sshow(x) in fixed:
            return False
        return x.op == "elem" or any(go(y) for y in x.a if isinstance(y, T))
    return go(t)


@prop("C04")
def creation(ctx, rep):
    """create_vertex/create_edge store the item exactly when its preconditions hold, and return whether they did"""
    for s in STORES:
        for n, sp, cond in (("create_vertex", CREATE_V, "not has V(vertex.id)"), ("create_edge", CREATE_E, CEC)):
            o, R = rows_of(ctx, rep, s, n)
            if not o:
                continue
            compare(rep, s, n, o, R, sp)
            top = next(f for f in o.A.frames.values() if f.parent is None)
            want = parse(cond)
            yes, no = ({cstr(c) for c in o.X.dnf(o.C.returns(top.id, t))} for t in (True, False))
            rep.check(bool(yes) and all(c >= want for c in yes) and covered(want, yes), f"{s} {n}: returns true in other cases than `{cond}`",
                      f"{s} {n} ({o.fn.file}) returns true when {' or '.join(map(show_clause, yes)) or 'never'}; it must return true exactly when {cond}", f"{s} {n} returns true iff {cond}")
            neg = [(a, "N" if l == "Y" else "Y") for a, l in want]
            rep.check(bool(no) and all(any(x in c for x in neg) for c in no) and all(any(c <= {x} | (want - {(x[0], "Y" if x[1] == "N" else "N")}) for c in no) for x in neg),
                      f"{s} {n}: returns false in other cases than the negation of `{cond}`",
                      f"{s} {n} ({o.fn.file}) returns false when {' or '.join(map(show_clause, no)) or 'never'}; it must return false exactly when not ({cond})")


def agree(rep, s, n, R, A, B, tag):
    """tables A and B receive the same operations under the same conditions"""
    for k in list(R.g):
        if k[1] not in (A, B):
            continue
        other = (k[0], B if k[1] == A else A, k[2], k[3])
        got = R.g.get(other)
        if got is None:
            rep.check(harmless(R, k), f"{s} {n}: `{name(k)}` without `{name(other)}`", f"{s} {n} performs `{name(k)}` but never `{name(other)}`; at {place(R, k)}")
            continue
        for c in R.g[k]:
            rep.check(covered(c, got), f"{s} {n}: `{name(k)}` without `{name(other)}` in some case",
                      f"{s} {n} performs `{name(k)}` when {show_clause(c)} but `{name(other)}` only when {' or '.join(map(show_clause, got))}; at {place(R, k)}",
                      f"{s} {n}: {name(k)} <=> {name(other)} | {show_clause(c)}")
    order(rep, s, n, R, (A, B))


def order(rep, s, n, R, tables):
    """a key both deleted and written: the write comes last"""
    for k in R.g:
        if k[0] == "put" and k[1] in tables:
            d = [e for kk, l in R.effs.items() if kk[0] == "del" and kk[1] == k[1] and kk[2] == k[2] for e in l]
            for e in d:
                rep.check(all(R.o.A.before(e.ev, p.ev) for p in R.effs[k]), f"{s} {n}: `{name(k)}` is undone by a later delete",
                          f"{s} {n} performs `{name(k)}` and afterwards deletes the same row; at {place(R, k)}", f"{s} {n}: delete before {name(k)}")


@prop("C02")
def adjacency(ctx, rep):
    """every operation changes the forward and the reverse adjacency table alike"""
    for s in STORES:
        for n in MUTATORS:
            o, R = rows_of(ctx, rep, s, n)
            if o:
                agree(rep, s, n, R, "E", "R", "adjacency")
                sane(rep, s, n, o)


@prop("C03")
def index_step(ctx, rep):
    """every operation that changes a property value changes the index entry with it"""
    for s in STORES:
        for n in MUTATORS:
            o, R = rows_of(ctx, rep, s, n)
            if not o:
                continue
            sane(rep, s, n, o)
            for P, I in (("VP", "VI"), ("EP", "EI")):
                index_table(rep, s, n, o, R, P, I)


def index_table(rep, s, n, o, R, P, I):
    def ikey(e, val):
        cs = e.key.a
        return mk("k", cs[-1], val, *cs[:-1])
    for k, effs in R.effs.items():
        if k[1] != P:
            continue
        for e in effs:
            if k[0] == "del" and harmless(R, k):
                continue
            c = cstr(denoise(e.cl, e.kind, P, e.key, e.val))
            old = mk("get", P, e.key)
            # the value of the row one is at
            rows = {x.a[0] for x in subterms(e.key) if x.op == "col" and x.a[0].op == "row" and x.a[0].a[0].op == "R" and x.a[0].a[0].a[0] == P}
            olds = {old} | {mk("val", r) for r in rows}
            ixd = ("indexed " + sshow(e.key.a[-1]), "Y")
            ds = {sshow(ikey(e, x)) for x in olds}
            got = [x for kk, l in R.effs.items() if kk[0] == "del" and kk[1] == I and kk[2] in ds for x in l]
            clauses = merge({cstr(denoise(x.cl, "del", I, x.key)) for x in got})
            need = c | {ixd}
            nm = f"{e.kind} {P}{sshow(e.key)}"
            rep.check(bool(got) and covered(need, clauses), f"{s} {n}: `{nm}` leaves the old index entry",
                      f"{s} {n}: {nm} when {show_clause(c)}, but the index entry of the old value is removed " + (f"only when {' or '.join(map(show_clause, clauses))}" if got else "never") + f"; at {where(e.ev)}",
                      f"{s} {n}: {nm} removes the old entry from {I}")
            if k[0] == "put":
                nk = sshow(ikey(e, e.val))
                put = [x for kk, l in R.effs.items() if kk[0] == "put" and kk[1] == I and kk[2] == nk for x in l]
                clauses = merge({cstr(denoise(x.cl, "put", I, x.key)) for x in put})
                rep.check(bool(put) and covered(need, clauses), f"{s} {n}: `{nm}` does not add the new index entry",
                          f"{s} {n}: {nm} when {show_clause(c)}, but the index entry of the new value is added " + (f"only when {' or '.join(map(show_clause, clauses))}" if put else "never") + f"; at {where(e.ev)}",
                          f"{s} {n}: {nm} adds the new entry to {I}")
                for d in got:
                    for x in put:
                        rep.check(o.A.before(d.ev, x.ev), f"{s} {n}: the new entry in {I} is removed together with the old one",
                                  f"{s} {n}: the entry of the new value is added to {I} before the entry of the old value is removed, so an unchanged value loses its entry; at {where(x.ev)}",
                                  f"{s} {n}: {I} delete before put")
                if s == "rocksdb" and old in {x for d in got for x in subterms(d.key)}:
                    rep.check(not loose(e.val, e.key), f"{s} {n}: a second value for one key of {P} in one call leaves the index entry of the first",
                              f"{s} {n}: {nm} takes its value from the item, and the old value from the database, which does not see what this batch already wrote: two items with the same owner and name leave the first one's entry in {I}; at {where(e.ev)}",
                              f"{s} {n}: one value per key of {P}")
    # no index entry without the property behind it
    for k, effs in R.effs.items():
        if k[1] != I:
            continue
        for e in effs:
            cs = e.key.a
            if len(cs) < 3:
                rep.check(False, f"{s} {n}: `{name(k)}` is not a full index key", f"{s} {n}: {name(k)} at {where(e.ev)}")
                continue
            pk = mk("k", *cs[2:], cs[0])
            c = cstr(denoise(e.cl, e.kind, I, e.key))
            if k[0] == "put":
                props = [x for kk, l in R.effs.items() if kk[0] == "put" and kk[1] == P and kk[2] == sshow(pk) for x in l if x.val is cs[1]]
                back = cs[1].op == "get" and cs[1].a[0] == P and cs[1].a[1] is pk or cs[1].op == "val" and cs[1].a[0].a[0].op == "R" and cs[1].a[0].a[0].a[0] == P
                clauses = {cstr(denoise(x.cl, "put", P, x.key, x.val)) for x in props}
                rep.check(back or any(p <= c for p in clauses), f"{s} {n}: `{name(k)}` without the property",
                          f"{s} {n} adds an index entry {name(k)} when {show_clause(c)} without storing that property value; at {where(e.ev)}", f"{s} {n}: {name(k)} is backed by {P}")
            else:
                gone = [x for kk, l in R.effs.items() if kk[1] == P and kk[2] == sshow(pk) for x in l]
                clauses = {cstr(denoise(x.cl, x.kind, P, x.key, x.val)) for x in gone}
                rep.check(any(p <= c | {("indexed " + sshow(cs[0]), "Y")} for p in clauses | set(merge(clauses))), f"{s} {n}: `{name(k)}` although the property stays",
                          f"{s} {n} removes the index entry {name(k)} when {show_clause(c)} although the property keeps its value; at {where(e.ev)}", f"{s} {n}: {name(k)} goes with its property")


@prop("C05")
def one_batch(ctx, rep):
    """each RocksDB mutation commits all its changes in one atomic write batch"""
    s = "rocksdb"
    for n in MUTATORS:
        o, R = rows_of(ctx, rep, s, n)
        if not o:
            continue
        sane(rep, s, n, o)
        writes = [e for e in o.A.events.values() if e.name in ("write", "write_opt", "write_without_wal") and ("rocksdb" in e.path or "DBCommon" in e.path)]
        effs = [e for e in o.eff if e.T != "IX"]
        if not effs:
            rep.check(False, f"{s} {n}: no change is extracted", f"{s} {n}: nothing is written")
            continue
        rep.check(len(writes) == 1, f"{s} {n}: {len(writes)} batch commits", f"{s} {n} commits {len(writes)} write batches ({', '.join(where(x) for x in writes)}); it must commit exactly one", f"{s} {n}: one DB::write")
        for x in writes:
            rep.check(x.name == "write" or x.name == "write_opt", f"{s} {n}: the batch is written without the write-ahead log", f"{s} {n}: {where(x)}")
        for wr in writes[:1]:
            bobj = {sshow(o.X.L.strip(o.X.L(a))) for a in wr.args[1:2]}
            cl = o.X.dnf(o.C.event(wr))
            wl = {cstr(denoise(c, "cond", "", NOKEY)) for c in cl}
            rep.check(all(not any(a.op == "iter" for a, l in c) for c in cl), f"{s} {n}: the batch is committed once per item", f"{s} {n} commits its batch inside a loop over the items; at {where(wr)}", f"{s} {n}: commit outside loops")
            for e in effs:
                rep.check(e.obj is not None and sshow(e.obj) in bobj, f"{s} {n}: `{e.kind} {e.T}` is not in the committed batch",
                          f"{s} {n}: {e.kind} {e.T}{sshow(e.key)} goes to {sshow(e.obj) if e.obj is not None else 'the database directly'}, not to the batch committed at {where(wr)}; at {where(e.ev)}",
                          f"{s} {n}: {e.kind} {e.T} in the batch")
                rep.check(o.A.before(e.ev, wr), f"{s} {n}: `{e.kind} {e.T}` after the commit", f"{s} {n}: {e.kind} {e.T}{sshow(e.key)} is added after the batch was committed; at {where(e.ev)}")
                c = cstr(e.cl)
                rep.check(any(p <= c for p in wl), f"{s} {n}: `{e.kind} {e.T}` is not committed in every case",
                          f"{s} {n}: {e.kind} {e.T}{sshow(e.key)} when {show_clause(c)}, but the batch is committed only when {' or '.join(map(show_clause, wl))}; at {where(wr)}")


@prop("C09")
def index_registration(ctx, rep):
    """indexing a property persists the registration, backfills the index from all vertices and edges, and registers it in memory only once it is written"""
    CV, CE_ = "V[_].0", "E[_,_,_].0, E[_,_,_].1, E[_,_,_].2"
    for s in STORES:
        may = ["not indexed name"]
        sp = [w(f"put VI(name, VP({CV}, name), {CV})", "each V[_]" if False else "always", may=may + [f"has VP({CV}, name)"]),
              w(f"put EI(name, EP({CE_}, name), {CE_})", "always", may=may + [f"has EP({CE_}, name)"])]
        if s == "rocksdb":
            sp += [w("put META('indexed_properties')", "always", "plus(IX, name)", may=may), w("put IX(name)", "always", may=may)]
        else:
            sp += [w("ensure IX(name)", "always", may=may)]
        o, R = rows_of(ctx, rep, s, "index_property")
        if not o:
            continue
        compare(rep, s, "index_property", o, R, sp)
        if s == "rocksdb":
            wr = [e for e in o.A.events.values() if e.name.startswith("write") and ("rocksdb" in e.path or "DBCommon" in e.path)]
            ix = [e for e in o.eff if e.T == "IX"]
            for e in ix:
                rep.check(bool(wr) and all(o.A.before(x, e.ev) for x in wr), "rocksdb index_property: registered before it is written",
                          f"rocksdb index_property adds the name to the in-memory set before the batch is committed, so a failed commit leaves an index that is used but not filled; at {where(e.ev)}", "registration after commit")
