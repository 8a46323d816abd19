"""Comparing extracted effects and result rows with a specification.

A clause is a frozenset of (atom string, label).  Noise - guards that cannot
change the outcome - is removed first; then both sides are compared as sets of
clauses: every extracted clause must imply a specified one, and every specified
clause must be covered by an extracted one.
"""
from engine import *
from cond import simplify
from store import *

VALUELESS = {"E", "R", "VI", "EI", "IX"}


def cstr(cl):
    return frozenset((sshow(a), l) for a, l in cl)


def parse(s):
    """'not x' / '[Lab] x' / 'x' joined by ' & '"""
    r = set()
    for p in s.split(" & "):
        p = p.strip()
        if not p or p == "always":
            continue
        if p.startswith("not "):
            r.add((p[4:], "N"))
        elif p.startswith("["):
            l, _, x = p[1:].partition("] ")
            r.add((x, l))
        else:
            r.add((p, "Y"))
    return frozenset(r)


def show_clause(c):
    return " & ".join(sorted(("" if l == "Y" else "not " if l == "N" else f"[{l if isinstance(l, str) else '/'.join(sorted(l))}] ") + a for a, l in c)) or "always"


def denoise(cl, kind, T, key, val=None):
    """drop literals that cannot change what the effect achieves"""
    out = set()
    its = {a.a[0] for a, l in cl if a.op == "iter" and l == "Y"}
    rows = set()
    for t in [key] + ([val] if val is not None else []):
        for x in subterms(t):
            if x.op == "row":
                rows.add(x.a[0])
    gets = set()
    for t in [key] + ([val] if val is not None else []):
        for x in subterms(t):
            if x.op == "get":
                gets.add((x.a[0], x.a[1]))
    for a, l in cl:
        if a.op == "has" and isinstance(a.a[0], str):
            same = a.a[1] is key and (a.a[0] == T or {a.a[0], T} == {"E", "R"})
            if l == "Y" and kind == "del" and same:
                continue
            if l == "N" and kind == "put" and T in VALUELESS and same:
                continue
            if l == "Y" and (a.a[0], a.a[1]) in gets and kind != "cond":
                continue
        if l == "Y" and kind == "del" and T in ("VI", "EI"):
            if a.op == "indexed" and key.a and sshow(a.a[0]) == sshow(key.a[0]):
                continue
            if a.op == "hasval" and len(key.a) > 1 and sshow(a.a[0]) == sshow(key.a[0]) and sshow(a.a[1]) == sshow(key.a[1]):
                continue
        if a.op == "some" and l == "Y":
            continue
        if a.op == "iter" and l == "Y" and a.a[0].op == "R" and a.a[0] in rows:
            continue
        if a.op == "iter" and l == "Y" and a.a[0].op in ("ix", "ixv", "ixall"):
            continue
        if a.op == "empty" and l == "N":
            x = a.a[0]
            if x in its or x.op == "tbl" and x.a[0] == "IX" and any(b.op == "indexed" and m == "Y" for b, m in cl):
                continue
            if x.op == "tbl" and any(r.op == "R" and r.a[0] == x.a[0] for r in rows):
                continue
        out.add((a, l))
    return frozenset(out)


class Rows:
    """effects of one op grouped by (kind, T, key, val)"""

    def __init__(self, o):
        self.o = o
        self.g = {}
        self.effs = {}
        for e in o.eff:
            val = None if e.T in VALUELESS else e.val
            k = (e.kind, e.T, sshow(e.key), sshow(val) if val is not None else "")
            c = cstr(denoise(e.cl, e.kind, e.T, e.key, val))
            self.g.setdefault(k, set()).add(c)
            self.effs.setdefault(k, []).append(e)
        self.g = {k: merge(v) for k, v in self.g.items()}


def merge(clauses):
    return simplify(frozenset(clauses))


def implied(c, spec, drop=()):
    """clause c implies one of the spec clauses"""
    return any(s <= c for s in spec)


def covered(s, got, may=()):
    """some extracted clause holds whenever s does (allowing the `may` literals)"""
    return any(all(x in s or x[0] in may or (x in may) for x in c) for c in got)


def name(k):
    return f"{k[0]} {k[1]}{k[2]}" + (f" := {k[3]}" if k[3] else "")


def row(kind, key, cond, val="", may=()):
    """specification row; key like 'V(each(vertices).id)'"""
    T, _, k = key.partition("(")
    return dict(k=(kind, T, "(" + k, val), must=[parse(c) for c in (cond if isinstance(cond, list) else [cond])], may={parse(m) and next(iter(parse(m))) for m in may})


def compare(rep, store, op, o, rows, spec, tables=None, optional=(), tag=""):
    """rows extracted == rows specified, for the given tables"""
    R = rows
    pre = f"{store} {op}"
    done = set()
    for s in spec:
        k = s["k"]
        got = R.g.get(k)
        done.add(k)
        nm = name(k)
        if got is None:
            rep.check(False, f"{pre}: missing `{nm}`", f"{pre} never performs `{nm}` when {' or '.join(map(show_clause, s['must']))}: {o.fn.file} in {o.fn.label()}")
            continue
        for m in s["must"]:
            rep.check(covered(m, got, s["may"]), f"{pre}: `{nm}` not performed in every required case",
                      f"{pre} performs `{nm}` only when {' or '.join(map(show_clause, got))}; required when {show_clause(m)}; at {place(R, k)}",
                      f"{pre}: {nm} | {show_clause(m)}")
        for c in got:
            rep.check(implied(c, s["must"]), f"{pre}: `{nm}` performed when it must not be",
                      f"{pre} performs `{nm}` when {show_clause(c)}; allowed only when {' or '.join(map(show_clause, s['must']))}; at {place(R, k)}")
    for k in R.g:
        if k in done or (tables is not None and k[1] not in tables) or not R.g[k]:
            continue
        if (k[0], k[1]) in optional or harmless(R, k):
            continue
        rep.check(False, f"{pre}: unexpected `{name(k)}`", f"{pre} performs `{name(k)}` when {' or '.join(map(show_clause, R.g[k]))}, which the operation must not do; at {place(R, k)}")
    sane(rep, store, op, o)


def harmless(R, k):
    """a delete followed by a put of the same key under every condition the delete has"""
    if k[0] != "del":
        return False
    d = R.effs[k]
    puts = [(e, cstr(denoise(e.cl, "put", e.T, e.key, e.val))) for kk, l in R.effs.items() if kk[0] == "put" and kk[1] == k[1] and kk[2] == k[2] for e in l]
    for e in d:
        c = cstr(denoise(e.cl, "del", e.T, e.key))
        if not any(p <= c and R.o.A.before(e.ev, pe.ev) for pe, p in puts):
            return False
    return True


def sane(rep, store, op, o):
    """the extraction itself understood everything and no loop over the data can stop early"""
    for ev, w in o.unknown:
        rep.check(False, f"{store} {op}: {w}", f"{store} {op}: {w} at {ev.fn.file}:{ev.line} in {ev.fn.label()} is not understood as an effect on the logical tables")
    for b in sorted(map(str, o.X.L.bad)):
        rep.check(False, f"{store} {op}: key {b[:120]}", f"{store} {op}: {b} does not match the column layout of its table")
    for k, m in early(o):
        rep.check(False, f"{store} {op}: {k}", m)


def place(R, k):
    return ", ".join(sorted({f"{e.ev.fn.file} in {e.ev.fn.label()}" for e in R.effs[k]}))


def early(o):
    """loop exits that skip the rest of the data an effect or a result ranges over"""
    seen = set()
    evs = {e.ev.id: e.ev for e in o.eff}
    for e in o.A.events.values():
        if e.name in ADD:
            evs[e.id] = e
    for ev in evs.values():
        for fr, b, l in o.C.early_exits(ev):
            if (fr.id, b) in seen:
                continue
            seen.add((fr.id, b))
            for c in o.X.dnf(l):
                if exit_ok(o, c):
                    continue
                ln = fr.fn.blocks[b]["t"]
                yield (f"loop in {fr.fn.label()} can stop early when {show_clause(cstr(c))}"[:300],
                       f"a loop in {fr.fn.label()} ({fr.fn.file}) is left before all its elements were handled when {show_clause(cstr(c))}")


def exit_ok(o, c):
    for a, l in c:
        if a.op == "iter" and l == "N":
            return True
        # end of a run of rows sharing a key prefix
        if a.op == "eq" and l == "N" and prefix_ok([a]):
            return True
        if a.op == "eqedge" and l == "N" and prefix_ok([mk("eq", x, y) for x, y in zip(edge_parts(a.a[0]), edge_parts(a.a[1]))]):
            return True
        if a.op == "some" and l == "N" and a.a[0].op in ("row", "member"):
            return True
    return False
