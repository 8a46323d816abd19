"""The network layer: conversions between the library's types and the messages, the server's handlers, the client's methods."""
import re
from core import *
from spec import *
from rules.queries import *
from facts import strip_generics
from rules.streams import late, closed

CONV_TRAITS = {"From", "Into", "TryFrom", "TryInto"}
CONV_NAMES = {"from", "into", "try_from", "try_into"}
# calls after which a list is no longer the converted list, element by element
SHUFFLE = {"rev", "reverse", "rotate_left", "rotate_right", "dedup", "dedup_by", "dedup_by_key", "truncate", "retain", "retain_mut", "pop", "pop_front", "pop_back", "remove", "swap_remove",
           "drain", "split_off", "take", "skip", "step_by", "filter", "filter_map", "take_while", "skip_while", "map_while", "push_front", "resize", "swap", "last", "first", "nth", "find", "find_map", "flatten",
           "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "chain", "cycle", "clear", "flat_map", "dedup_with"}
WRAP = ("std::boxed::Box<", "std::vec::Vec<", "std::option::Option<", "std::result::Result<", "std::sync::Arc<", "alloc::vec::Vec<")


ORDER = ("rev", "filter", "fmap", "take", "skip", "takewhile", "skipwhile", "chain", "flat", "optit")
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}


def ty(s):
    m = re.match(r"Unnormalized \{ value: (.*), \.\. \}$", s)
    s = m.group(1) if m else s
    return re.sub(r", std::alloc::Global>", ">", s).strip()


def unwrap(t, w):
    """the argument of the wrapper `w<..>`, or None"""
    for p in WRAP:
        if t.startswith(p) and p.split("::")[-1] == w + "<" and t.endswith(">"):
            s, d = t[len(p):-1], 0
            for i, ch in enumerate(s):  # the first type argument
                d += ch in "<("
                d -= ch in ">)"
                if ch == "," and d == 0:
                    return s[:i].strip()
            return s
    return None


class Types:
    def __init__(self, F):
        self.F = F
        self.lib, self.proto = {}, {}
        for n, a in F.adts.items():
            c, _, rest = n.partition("::")
            if c == "indradb" and rest.startswith("models::") and "<" not in rest:
                self.lib[rest.split("::")[-1]] = a
            elif c == "indradb_proto" and "<" not in rest and not rest.startswith(("server", "client", "converters", "indra_db")):
                self.proto[rest] = a

    def side(self, t):
        """("lib"|"proto", name) of a type named in the conversions"""
        t = ty(t)
        t = t[1:].strip() if t.startswith("&") else t
        if t.startswith("("):
            return ("lib", t)
        if t == "uuid::Uuid":
            return ("lib", "Uuid")
        if t.startswith(("indradb::", "models::")):
            n = t.split("::")[-1]
            return ("lib", n) if n in self.lib else None
        if t.startswith("crate::"):
            t = t[7:]
        return ("proto", t) if t in self.proto else None


class Conv:
    def __init__(self, f, src, dst, fallible):
        self.f, self.src, self.dst, self.fallible = f, src, dst, fallible
        self.key = f"{src[0]}::{src[1]} -> {dst[0]}::{dst[1]}"


def conversions(F):
    T_ = Types(F)
    r = []
    for f in F.find(kind="fn", crate="indradb_proto"):
        if f.name not in CONV_NAMES or f.trait not in CONV_TRAITS or not f.blocks or f.nargs != 1:
            continue
        a = T_.side(f.locals[1][0])
        ret = ty(f.locals[0][0])
        ok = unwrap(ret, "Result")
        b = T_.side(ok or ret)
        if a and b and a[0] != b[0]:
            r.append(Conv(f, a, b, ok is not None))
    return T_, r


def cpaths(cs):
    return {c.f.path.split("::", 1)[-1] for c in cs}


def is_conv(x):
    return x.op == "call" and x.a[0].split("::")[-1] in CONV_NAMES and len(x.a[1]) == 1


def peel(t, memo=None):
    """the term without nested conversions, which have obligations of their own"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if is_conv(t):
        r = peel(t.a[1][0], memo)
    elif t.op == "pushed":
        r = peel(t.a[0], memo)
    elif t.op == "ret":
        r = peel(t.a[1], memo)
    elif t.op == "phi":
        r = phi([peel(x, memo) for x in t.a[0]])
    elif t.op in ("map", "fmap"):
        a, b = peel(t.a[0], memo), peel(t.a[1], memo)
        r = a if b is elem(a) or strip(b) is strip(elem(a)) else mk(t.op, a, b, *t.a[2:])
    elif t.op == "agg":
        r = mk("agg", t.a[0], t.a[1], tuple((k, peel(v, memo)) for k, v in t.a[2]))
        r = eta(t.a[0], t.a[1], r.a[2]) or r
    elif t.op == "field":
        r = mk("field", peel(t.a[0], memo), t.a[1])
    elif t.op == "elem":
        r = mk("elem", peel(t.a[0], memo))
    else:
        r = t
    memo[t] = r
    return r


def outcomes(ret):
    """the values a function succeeds with, and its errors"""
    good, errs = [], []

    def go(m):
        if m.op == "pushed" and any(x.op in ("pushed", "err", "okay") for x in members(m.a[0])):
            for x in members(m.a[0]):
                go(x)
        elif m.op == "err":
            errs.append(m)
        else:
            good.extend(members(m.a[0] if m.op == "okay" else m))

    for m in members(ret):
        go(m)
    return good, errs


class Side:
    """one conversion analysed under assumptions"""

    def __init__(self, ctx, c, opaque, assume):
        self.p = mk("param", c.f.locals[1][1] or "value")
        self.A = Analysis(ctx.F, opaque=opaque, assume=list(assume))
        self.A.sets = True
        self.ret = self.A.run(c.f, {1: self.p})
        self.C = Cond(self.A)
        self.X = QClauses(self.A, self.C)
        self.good, self.errs = outcomes(self.ret)


def own_errors(s):
    """errors the function makes itself, not those it hands on"""
    return sorted({text(x)[:80] for m in s.errs for x in members(m.a[0]) if x.op in ("agg", "c")})


class Check:
    def __init__(self, ctx, rep, T_, cs, c):
        self.ctx, self.rep, self.T, self.cs, self.c = ctx, rep, T_, cs, c
        self.opaque = cpaths(cs) | {f.path.split("::", 1)[-1] for f in ctx.F.find(kind="fn", crate="indradb_proto") if f.name == "direction" and f.nargs == 1}
        self.pairs = {(x.src, x.dst) for x in cs}

    def where(self):
        return f"{self.c.f.file} in {self.c.f.label()}"

    def bad(self, path, msg):
        return self.rep.check(False, f"{self.c.key}: {path or 'value'}: {msg}"[:200], f"the conversion {self.c.key} does not carry `{path or 'the value'}` over: {msg}; {self.where()}")

    def good(self, path):
        self.rep.check(True, "", "", f"{self.c.key}: {path or 'value'}")

    def run(self, assume):
        return Side(self.ctx, self.c, self.opaque, assume)

    def adt(self, side, name):
        return (self.T.lib if side == "lib" else self.T.proto).get(name)

    def convert(self):
        s = self.run(())
        self.rep.analysed(self.c.f, *[e.fn for e in s.A.events.values() if e.fn.crate.startswith("indradb")])
        self.rep.sites += len(s.A.events)
        leaf = LEAVES.get(self.c.dst[1] if self.c.dst[0] == "lib" else self.c.src[1])
        if leaf and (self.c.src[1] == self.c.dst[1]):
            leaf(self, s)
        else:
            self.pair(self.c.src, self.c.dst, lambda p: p, lambda r: r, "", (), top=True)
        self.ends()
        for fn, src, dst, line in narrowing(self.ctx, self.c.f):
            self.rep.check(False, f"{self.c.key}: {src} as {dst}", f"{self.c.key} cuts a number from {src} to {dst}; {fn.file}:{line} in {fn.label()}")

    def ends(self, assume=(), path=""):
        """messages that are complete and whose parts convert are accepted; a failing part is an error"""
        if not self.c.fallible:
            return
        some = lambda m: strip(m).op in ("field", "param", "elem")
        s = self.run(list(assume) + [(some, frozenset({"Some"})), (is_conv, frozenset({"Ok"})), (is_conv, "Y")])
        key = self.c.key + (": " + path if path else "")
        if self.c.src[1] not in LEAVES:
            self.rep.check(not own_errors(s), f"{key}: refuses {own_errors(s)}"[:200], f"{key} can fail with {own_errors(s)} although every part is there and converts; {self.where()}", f"{key}: complete values accepted")
        self.rep.check(bool(s.good), f"{key}: never succeeds", f"{key} never succeeds; {self.where()}", f"{key}: succeeds")

    # ---- structure
    def pair(self, st, dt, src, dst, path, assume, top=False):
        """`dst` of the result is the encoding of `src` of the argument; both are functions of a term"""
        a, b = st[1], dt[1]
        if not top and (st, dt) in self.pairs:
            return self.same(src, dst, path, assume, nested=True)
        if st[0] == "lib" and a.startswith("("):
            return self.record([(str(i), ty(x)) for i, x in enumerate(split(a[1:-1]))], "tuple", dt, src, dst, path, assume, True)
        if dt[0] == "lib" and b.startswith("("):
            return self.record([(str(i), ty(x)) for i, x in enumerate(split(b[1:-1]))], "tuple", st, src, dst, path, assume, False)
        A, B = self.adt(*st), self.adt(*dt)
        if A is None or B is None:
            return self.same(src, dst, path, assume)
        return self.structs(st, dt, A, B, src, dst, path, assume)

    def structs(self, st, dt, A, B, src, dst, path, assume):
        enc = st[0] == "lib"
        L, P = (A, B) if enc else (B, A)
        (lt, pt) = (st, dt) if enc else (dt, st)
        if lt[1] in LEAVES and pt[1] != lt[1] and not P["enum"] and len(P["variants"][0][1]) == 1:  # a message around one value
            n, t, _ = P["variants"][0][1][0]
            lty = "models::x::" + lt[1] if lt[1] != "Uuid" else "uuid::Uuid"
            sub = lambda x: field((dst if enc else src)(x), n, pt_path(P))
            return self.value(lty, ty(t), src, sub, n, assume, enc) if enc else self.value(ty(t), lty, sub, dst, n, assume, enc)
        if L["enum"]:
            if not P["enum"] and len(P["variants"][0][1]) == 1:  # message { oneof }
                fname, fty, _ = P["variants"][0][1][0]
                inner = unwrap(ty(fty), "Option")
                o = self.T.side(inner or ty(fty))
                if o and self.adt(*o) and self.adt(*o)["enum"]:
                    padt = pt_path(P)
                    if enc:
                        return self.enums(L, self.adt(*o), src, lambda r: field(dst(r), fname, padt), path, assume, True)
                    self.need(lambda p: field(src(p), fname, padt), path + "." + fname, assume)
                    return self.enums(L, self.adt(*o), lambda p: field(src(p), fname, padt), dst, path, assume, False)
            if P["enum"]:
                return self.enums(L, P, src, dst, path, assume, enc)
            return self.bad(path, f"no rule for {lt[1]} and {pt[1]}")
        fs = [(n, ty(t)) for n, t, _ in L["variants"][0][1]]
        return self.record(fs, pt_path(L), pt, src, dst, path, assume, enc)

    def enums(self, L, P, src, dst, path, assume, enc):
        lv = {v: fs for v, fs in L["variants"]}
        pv = {v: fs for v, fs in P["variants"]}
        for v in (lv if enc else pv):
            p = (path + "." if path else "") + v
            if v not in lv or v not in pv:
                self.bad(p, f"no variant {v} on the other side")
                continue
            s0 = src(mk("param", self.c.f.locals[1][1] or "value"))
            asm = assume + ((s0, frozenset({v})),)
            S, D = (L, P) if enc else (P, L)
            sa, da = pt_path(S), pt_path(D)
            s = self.run(asm)
            got = {m.a[1] if m.op == "agg" else text(m)[:60] for g in s.good for m in members(peel(dst(g))) if m.op != "err"}
            if not self.rep.check(got == {v}, f"{self.c.key}: {p} becomes {sorted(got)}"[:200], f"{self.c.key} turns {v} into {sorted(got)}; {self.where()}", f"{self.c.key}: {p}"):
                continue
            self.ends(asm, p)
            lf, pf = lv[v], pv[v]
            if len(lf) == 0:
                continue
            sub = lambda n, g, adt_, vv: (lambda x: field(g(x), n, adt_, vv))
            if len(lf) == 1 and len(pf) == 1:
                a_, b_ = (lf[0], pf[0]) if enc else (pf[0], lf[0])
                self.value(ty(a_[1]), ty(b_[1]), sub("0", src, sa, v), sub("0", dst, da, v), p, asm, enc)
            elif len(pf) == 1:  # several values in one message: by position
                o = self.T.side(ty(pf[0][1]))
                M = o and self.adt(*o)
                if not M or M["enum"]:
                    self.bad(p, "no rule for its payload")
                    continue
                mf = M["variants"][0][1]
                names = BY_NAME.get(v) or [x[0] for x in mf]
                if len(mf) != len(lf):
                    self.bad(p, f"{len(lf)} values in a message of {len(mf)}")
                    continue
                mp = pt_path(M)
                mt = {x[0]: ty(x[1]) for x in mf}
                for i, n in enumerate(names):
                    if n not in mt:
                        self.bad(p, f"no field {n}")
                        continue
                    ls, ps = sub(str(i), src if enc else dst, pt_path(L), v), sub(n, sub("0", dst if enc else src, pt_path(P), v), mp, None)
                    if enc:
                        self.value(ty(lf[i][1]), mt[n], ls, ps, f"{p}.{n}", asm, enc)
                    else:
                        self.value(mt[n], ty(lf[i][1]), ps, ls, f"{p}.{n}", asm, enc)
            else:
                self.bad(p, "no rule for its payload")

    def record(self, fs, ladt, pt, src, dst, path, assume, enc):
        """fields of a library struct (or tuple) against the message's fields of the same names"""
        P = self.adt(*pt)
        if P is None or P["enum"]:
            return self.same(src, dst, path, assume)
        pf = {n: ty(t) for n, t, _ in P["variants"][0][1]}
        padt = pt_path(P)
        names = list(pf) if ladt == "tuple" or len(fs) == 1 == len(pf) else [n for n, _ in fs]
        if ladt == "tuple" and "q" in pf:
            names = ["q", "name", "value"]
        for (ln, lt), pn in zip(fs, names):
            p = (path + "." if path else "") + pn
            if pn not in pf:
                self.bad(p, f"the message has no field {pn}")
                continue
            ls = (lambda g, n: lambda x: field(g(x), n, ladt))(src if enc else dst, ln)
            ps = (lambda g, n: lambda x: field(g(x), n, padt))(dst if enc else src, pn)
            if enc:
                self.value(lt, pf[pn], ls, ps, p, assume, enc)
            else:
                self.value(pf[pn], lt, ps, ls, p, assume, enc)
        for n in pf:
            if n not in names:
                self.bad((path + "." if path else "") + n, "the library's type has no such part")

    def value(self, st, dt, src, dst, path, assume, enc):
        st, dt = unwrap(st, "Box") or st, unwrap(dt, "Box") or dt
        so, do = unwrap(st, "Option"), unwrap(dt, "Option")
        if so and do:  # optional on both sides
            s = self.run(assume + ((src(self.param()), frozenset({"None"})),))
            if not enc:
                self.rep.check(bool(s.good), f"{self.c.key}: {path}: refused when absent", f"{self.c.key} fails without the optional `{path}`; {self.where()}", f"{self.c.key}: {path} optional")
            return self.same(src, dst, path, assume, nested=True)
        if do and enc:
            s = self.run(assume)
            self.rep.check(not any(m.op == "none" for g in s.good for m in members(dst(g))), f"{self.c.key}: {path}: may be left out", f"{self.c.key} leaves out `{path}` on some runs; {self.where()}", f"{self.c.key}: {path} always there")
            return self.value(st, do, src, dst, path, assume, enc)
        if so and not enc:
            self.need(src, path, assume)
            return self.value(so, dt, src, dst, path, assume, enc)
        sv, dv = unwrap(st, "Vec"), unwrap(dt, "Vec")
        if sv and dv:
            return self.listed(src, dst, path, assume)
        if dv and not sv and st.startswith("std::vec"):
            return self.listed(src, dst, path, assume)
        a, b = self.T.side(st), self.T.side(dt)
        if path.endswith("direction"):
            return self.direction(src, dst, path, assume, enc)
        if a and b:
            return self.pair(a, b, src, dst, path, assume)
        if bool(sv) != bool(dv):  # a list inside a message of its own
            o = b if sv else a
            M = o and self.adt(*o)
            if M and not M["enum"] and len(M["variants"][0][1]) == 1:
                n, t, _ = M["variants"][0][1][0]
                mp = pt_path(M)
                if sv:
                    return self.value(st, ty(t), src, lambda r: field(dst(r), n, mp), path + "." + n, assume, enc)
                return self.value(ty(t), dt, lambda p: field(src(p), n, mp), dst, path + "." + n, assume, enc)
        return self.same(src, dst, path, assume)

    def param(self):
        return mk("param", self.c.f.locals[1][1] or "value")

    def need(self, src, path, assume):
        """a required part that is missing is an error"""
        s = self.run(assume + ((src(self.param()), frozenset({"None"})),))
        self.rep.check(not s.good, f"{self.c.key}: {path}: accepted when missing", f"{self.c.key} succeeds ({[text(g)[:80] for g in s.good]}) without the required `{path}`; {self.where()}", f"{self.c.key}: {path} required")

    def same(self, src, dst, path, assume, nested=False):
        want = peel(src(self.param()))
        s = self.run(assume)
        got = {peel(m) for g in s.good for m in members(dst(g)) if m.op not in ("err", "bot")}
        got = {strip(m) for x in got for m in members(x) if m.op not in ("err", "bot")}
        if got - {NONE} != {strip(want)}:
            return self.bad(path, f"got `{'` or `'.join(sorted(text(x)[:80] for x in got))}`, expected `{text(want)}`")
        # converted only under the assumptions: nothing else decides
        if nested and self.c.fallible:
            w = strip(want)
            f_ = self.run(assume + (((lambda m: is_conv(m) and strip(peel(m)) is w), frozenset({"Err"})), ((lambda m: is_conv(m) and strip(peel(m)) is w), "N")))
            if any(is_conv(x) and strip(peel(x)) is w for g in f_.good if not is_conv(strip(g)) for x in subterms(g)):
                return self.bad(path, "its failure is ignored")
        self.good(path)

    def listed(self, src, dst, path, assume):
        want = strip(peel(src(self.param())))
        s = self.run(assume)
        raw = [m for g in s.good for m in members(dst(g)) if m.op not in ("err", "bot")]
        ops = sorted(self.reorders() | {x.op for m in raw for x in subterms(m) if x.op in (*ORDER,)})
        calls = sorted({e.name for e in s.A.events.values() if e.name in SHUFFLE and any(x is want for a in e.args for x in subterms(peel(a)))} |
                       {x.a[0].split("::")[-1] for m in raw for x in subterms(m) if x.op in ("call", "mut") and x.a[0].split("::")[-1] in SHUFFLE})
        if ops or calls:
            return self.bad(path, f"the list goes through {ops + calls}")
        for m in raw:
            g = strip(peel(m))
            if g is want:
                continue
            e = {strip(x) for x in members(peel(elem(m)))}
            if e != {strip(elem(want))}:
                return self.bad(path, f"got `{text(g)[:100]}`, expected each of `{text(want)}`")
        # one push per element, or one map; no other condition than the iteration
        for ev in s.A.events.values():
            if ev.name in ("push", "push_back") and len(ev.args) == 2 and strip(peel(ev.args[1])) is strip(elem(want)):
                extra = sorted({lits1(a, l) for cl in s.X.dnf(s.C.event(ev)) for a, l in cl if a.op not in ("iter", "some", "variant")})
                if extra:
                    return self.bad(path, f"an element is kept only when {extra}")
        if not raw:
            return self.bad(path, "no list")
        if self.c.fallible:
            w = strip(elem(want))
            pr = lambda m: is_conv(m) and strip(peel(m)) is w
            f_ = self.run(assume + ((pr, frozenset({"Err"})), (pr, "N")))
            s_ = self.run(assume)
            if not any(m.op == "err" and any(pr(x) for x in subterms(m)) for m in s_.errs) and any(pr(x) for g in s_.good for x in subterms(g)):
                return self.bad(path, "an element that cannot be converted is not an error")
        self.good(path)

    def reorders(self):
        """calls that change the order of a list"""
        return {n for n, _ in callees(self.ctx, self.c.f) if n in ("rev", "reverse", "rotate_left", "rotate_right", "swap", "rfold", "next_back", "pop") or n.startswith("sort")}

    def direction(self, src, dst, path, assume, enc):
        s = self.run(assume)
        want = strip(src(self.param()))
        got = {m for g in s.good for m in members(peel(dst(g)))}
        if enc:
            ok = len(got) == 1 and all(g.op == "discr" and strip(peel(g.a[0])) is want and adt_last(g.a[1]) == "EdgeDirection" for g in got)
        else:
            base = want.a[0] if want.op == "field" else None
            ok = len(got) == 1 and all(g is want or g.op == "call" and g.a[0].split("::")[-1] == "direction" and strip(g.a[1][0]) is strip(base) for g in got)
        if ok:
            self.good(path)
        else:
            self.bad(path, f"got `{'` or `'.join(sorted(text(x)[:80] for x in got))}`, expected the direction")


# the order of a library variant's values, by the names of the message's fields
BY_NAME = {"VertexProperty": ["id", "name", "value"], "EdgeProperty": ["edge", "name", "value"]}


def pt_path(a):
    return a["path"]


def split(s):
    r, d, c = [], 0, ""
    for ch in s:
        d += ch in "<("
        d -= ch in ">)"
        if ch == "," and d == 0:
            r.append(c.strip())
            c = ""
        else:
            c += ch
    return r + ([c.strip()] if c.strip() else [])


# ---- values that are carried as bytes or text
UUID_BYTES = {"as_bytes": "be", "into_bytes": "be", "to_bytes": "be", "from_slice": "be", "from_bytes": "be", "from_bytes_ref": "be", "to_bytes_le": "le", "from_slice_le": "le", "from_bytes_le": "le"}


def leaf_uuid(k, s):
    c = k.c
    other = [c2 for c2 in k.cs if {c2.src[1], c2.dst[1]} == {"Uuid"} and c2 is not c]
    kinds, k2 = uuid_bytes(k.ctx, [c.f]), uuid_bytes(k.ctx, [o.f for o in other])
    k.rep.check(len(kinds) == 1 and (not other or kinds == k2) and not any(x.startswith("?") for x in kinds), f"{c.key}: bytes {sorted(kinds)} against {sorted(k2)}", f"{c.key} uses {sorted(kinds)} and the other direction {sorted(k2)}; {k.where()}", f"{c.key}: {sorted(kinds)} bytes both ways")
    leaf_text(k, s, "from_slice", "from_bytes", "from_slice_le", "from_bytes_le", "from_bytes_ref")


def leaf_text(k, s, *readers):
    c = k.c
    adt = "indradb_proto::" + (c.src[1] if c.src[0] == "proto" else c.dst[1])
    p = k.param()
    want = p if c.src[0] == "lib" else field(p, "value", adt)
    got = set()
    for g in s.good:
        for m in members(field(g, "value", adt) if c.src[0] == "lib" else g):
            m = strip(m)
            if c.src[0] == "lib":
                while m is not strip(want) and (m.op == "field" or m.op == "call" and m.a[0].split("::")[-1] in UUID_BYTES and len(m.a[1]) == 1):
                    m = strip(m.a[0] if m.op == "field" else m.a[1][0])
                got.add(m)
            else:
                last = m.a[0].split("::")[-1] if m.op == "call" else m.op
                if m.op == "agg" and len(m.a[2]) == 1:
                    m = strip(m.a[2][0][1])
                    last = m.a[0].split("::")[-1] if m.op == "call" else m.op
                if m.op == "call" and last in readers and len(m.a[1]) == 1:
                    got.add(strip(m.a[1][0]))
                else:
                    got.add(m)
    if got != {strip(want)}:
        return k.bad("value", f"got `{'` or `'.join(sorted(text(x)[:100] for x in got))}`, expected `{text(want)}`")
    k.good("value")


def leaf_json(k, s):
    names = {n for n, p in callees(k.ctx, k.c.f)}
    if k.c.src[0] == "lib":
        ok = "to_string" in names or "to_vec" in names
        k.rep.check(ok, f"{k.c.key}: not written as JSON", f"{k.c.key} does not write the value as JSON text; {k.where()}", f"{k.c.key}: JSON text")
    leaf_text(k, s, "from_str", "from_slice", "from_reader")


def leaf_identifier(k, s):
    if k.c.src[0] == "lib":
        return leaf_text(k, s)
    # decoded through the constructor that validates (C18 says what that accepts)
    new = [f for f in k.ctx.F.find(kind="fn", crate="indradb") if f.name == "new" and f.self_ty and adt_last(strip_g(f.self_ty)) == "Identifier" and f.blocks]
    A = Analysis(k.ctx.F, opaque={f.path.split("::", 1)[-1] for f in new})
    r = A.run(k.c.f, {1: k.param()})
    want = strip(field(k.param(), "value", "indradb_proto::Identifier"))
    good = [strip(m) for m in members(r) if m.op != "err"]
    ok = good and all(m.op == "call" and m.a[0].split("::")[-1] in ("new", "try_from", "from_str") and len(m.a[1]) == 1 and strip(m.a[1][0]) is want for m in good)
    k.rep.check(ok, f"{k.c.key}: got `{[text(m)[:80] for m in good]}`", f"{k.c.key} yields {[text(m)[:100] for m in good]}, expected the identifier that Identifier::new makes of the text; {k.where()}", f"{k.c.key}: through Identifier::new")


def uuid_bytes(ctx, fns):
    return {UUID_BYTES.get(n, "?" + n) for f in fns for n, p in callees(ctx, f) if p.startswith("uuid::") and n not in ("clone", "fmt", "source", "eq")}


def narrowing(ctx, f):
    """casts that lose bits in f and what it calls"""
    seen = set()
    callees(ctx, f, seen)
    r = []
    for i in sorted(seen):
        g = ctx.F.fns[i]
        for b in g.blocks:
            disc = {s[1][0] for s in b["s"] if s[0] == "=" and s[2][0] == "discr"}
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "cast" and s[2][1] == "IntToInt":
                    o, to = s[2][2], s[2][3]
                    frm = g.locals[o[1][0]][0] if o[0] in ("copy", "move") and not o[1][1] else ""
                    if o[0] in ("copy", "move") and o[1][0] not in disc and (BITS.get(frm, 0) > BITS.get(to, 0) or frm[:1] != to[:1] and BITS.get(frm) == BITS.get(to) and frm):
                        r.append((g, frm, to, s[3] if len(s) > 3 else 0))
    return r


def callees(ctx, f, seen=None):
    """(name, path) of what f calls or passes on, through the functions and closures of its crate"""
    seen = set() if seen is None else seen
    if f is None or f.id in seen:
        return set()
    seen.add(f.id)
    r = set()
    for b in f.blocks:
        t = b["t"]
        if b["c"] or t[0] != "call":
            continue
        for o in [t[1]] + list(t[2]):
            if o[0] != "const" or not isinstance(o[1], dict) or "fn" not in o[1]:
                continue
            fn = o[1]["fn"]
            p = strip_generics(fn["path"])
            r.add((p.split("::")[-1], p))
            g = ctx.F.fns.get(fn.get("rid") or fn["id"])
            if g is not None and g.crate == f.crate and g.name not in CONV_NAMES:
                r |= callees(ctx, g, seen)
            for cl in fn.get("closures", []):
                r |= callees(ctx, ctx.F.fns.get(cl), seen)
    return r


LEAVES = {"Uuid": leaf_uuid, "Identifier": leaf_identifier, "Json": leaf_json}


def strip_g(t):
    return t.split("<")[0]


REQUIRED = [(("lib", a), ("proto", b)) for a, b in (("Uuid", "Uuid"), ("Identifier", "Identifier"), ("Json", "Json"), ("Vertex", "Vertex"), ("Edge", "Edge"), ("Query", "Query"), ("QueryOutputValue", "QueryOutputValue"),
            ("EdgeDirection", "EdgeDirection"), ("NamedProperty", "NamedProperty"), ("VertexProperties", "VertexProperties"), ("EdgeProperties", "EdgeProperties"), ("BulkInsertItem", "BulkInsertItem"),
            ("(indradb::Query, indradb::Identifier, indradb::Json)", "SetPropertiesRequest"))] + [(None, (("proto", "IndexPropertyRequest"), ("lib", "Identifier")))]


@prop("C14")
def wire_types(ctx, rep):
    """each conversion between a library type and its message carries every part over, both ways"""
    T_, cs = conversions(ctx.F)
    have = {(c.src, c.dst) for c in cs}
    for x in REQUIRED:
        for pr in ((x, (x[1], x[0])) if x[0] else (x[1],)):
            if pr not in have:
                rep.missing(f"conversion {pr[0][1]} ({pr[0][0]}) -> {pr[1][1]} ({pr[1][0]})")
    for c in cs:
        Check(ctx, rep, T_, cs, c).convert()


# ------------------------------------------------------------------ the server
def dbm(F):
    return {f.path.split("::", 1)[-1] for f in F.find(kind="fn", crate="indradb") if f.self_ty and adt_last(strip_g(f.self_ty)) == "Database" and not f.trait}


def last(x):
    return x.a[0].split("::")[-1] if x.op == "call" else ""


def is_db(x):
    return x.op == "call" and "Database::" in x.a[0]


OKAY = frozenset({"Ok"})
FAIL = frozenset({"Err"})


class Handler:
    """one asynchronous function, its future awaited, under assumptions"""

    def __init__(self, ctx, f, cs, assume=(), join="ok", opaque=(), selfty=None):
        self.f = f
        self.A = Analysis(ctx.F, opaque=cpaths(cs) | dbm(ctx.F) | set(opaque), assume=list(assume), join=join)
        self.A.sets = True
        names = {i: f.locals[i][1] or f"p{i}" for i in range(1, f.nargs + 1)}
        if f.trait == "IndraDb":
            names[1] = "self"
            names[2] = "request"
        self.names = names
        self.ret = self.A.run_async(f, {i: mk("param", n) for i, n in names.items()})
        self.C = Cond(self.A)
        self.X = QClauses(self.A, self.C)
        self.events = sorted(self.A.events.values(), key=lambda e: e.order)
        self.good, self.errs = outcomes(self.ret)

    def cond(self, e):
        return self.X.dnf(self.C.event(e))

    def calls(self, pred):
        return [e for e in self.events if pred(e) and self.cond(e)]

    def frames(self, e):
        return list(self.A.frames[e.fid].chain())


def decoded(t, name):
    return strip(peel(t))


def extra_lits(d, X=None):
    """conditions beyond the success of what came before and the iteration, on the run with the fewest"""
    best = None
    for c in d:
        x = {lits1(a, l) for a, l in c if not (a.op in ("some", "iter") and l == "Y") and not (a.op == "error" and a.a[0].op == "bot" and l == "Y") and not (X is not None and a.op in ("tw", "cut"))}
        if X is not None:
            for a, l in c:
                if a.op in ("tw", "cut"):
                    for stay in X.stops(a):
                        x |= {"the loop goes on: " + y for y in extra_lits(stay)}
        x = sorted(x)
        if best is None or len(x) < len(best):
            best = x
    return best if best is not None else ["never"]


HANDLERS = {
    "sync": ("sync", [], "unit"), "create_vertex": ("create_vertex", [["request"]], "created"), "create_edge": ("create_edge", [["request"]], "created"),
    "create_vertex_from_type": ("create_vertex_from_type", [["request"]], "value"), "delete": ("delete", [["request"]], "unit"), "get": ("get", [["request"]], "stream"),
    "set_properties": ("set_properties", [["request.0", "request.q"], ["request.1", "request.name"], ["request.2", "request.value"]], "unit"),
    "index_property": ("index_property", [["request", "request.name"]], "unit"), "bulk_insert": ("bulk_insert", None, "unit"),
}


def served(s, name, kind, call):
    """does a handler's successful value carry the outcome of `call`?"""
    bad = []
    for g in s.good:
        for m in members(g):
            m = strip(m)
            if kind == "unit":
                ok = m.op == "unit" or strip(m) is call
            elif kind == "created":
                v = strip(field(m, "created", "indradb_proto::CreateResponse"))
                ok = v is call
            else:
                ok = strip(peel(m)) is call
            if not ok:
                bad.append(text(m)[:120])
    return bad


@prop("C15")
def handlers(ctx, rep):
    """each request handler: one database operation with the decoded request, answered with its outcome"""
    T_, cs = conversions(ctx.F)
    fs = {f.name: f for f in ctx.F.find(kind="fn", crate="indradb_proto") if f.trait == "IndraDb" and adt_last(strip_g(f.self_ty)) == "Server" and f.blocks}
    db = field(mk("param", "self"), "db", "indradb_proto::server::Server")
    for name, (op, args, kind) in HANDLERS.items():
        f = fs.get(name)
        if f is None:
            rep.missing(f"handler {name}")
            continue
        at = f"{f.file} in {f.label()}"
        rep.analysed(f)
        isop = lambda m: is_db(m) and last(m) == op
        okconv = [(is_conv, OKAY), (is_conv, "Y")]
        item = lambda m: strip(m) is strip(elem(mk("param", "request")))
        if args is None:
            bad = broken = Handler(ctx, f, cs, okconv + [(isop, OKAY), (isop, "Y"), (item, FAIL), (item, "N")])
            rep.check(bool(bad.errs), f"{name}: broken stream answered with success", f"{name} never answers with an error when the request stream breaks; {at}", f"{name}: broken stream is an error")
            okconv += [(item, OKAY), (item, "Y")]
        s = Handler(ctx, f, cs, okconv + [(isop, OKAY)])
        rep.analysed(*[e.fn for e in s.events if e.fn.crate == "indradb_proto"])
        rep.sites += len(s.events)
        ops = s.calls(lambda e: "indradb::Database::" in e.path or e.path.startswith(("indradb::Transaction::", "indradb::Datastore::")))
        if not rep.check(len(ops) == 1 and ops[0].name == op, f"{name}: calls {[e.name for e in ops]}", f"{name} performs {[e.name for e in ops]}; it must perform {op} exactly once; {at}", f"{name}: one {op}"):
            continue
        e = ops[0]
        x = [y for y in extra_lits(s.cond(e)) if y]
        rep.check(not x, f"{name}: {op} only when {x}"[:200], f"{name} performs {op} only when {x}; {where(e)}", f"{name}: {op} always")
        rep.check(strip(e.args[0]) is strip(db), f"{name}: on `{text(e.args[0])[:60]}`", f"{name} performs {op} on {text(e.args[0])}, not on the server's database; {where(e)}", f"{name}: on the server's database")
        if args is None:
            rows(s, rep, name, e, at)
        else:
            got = [text(strip(peel(a))) for a in e.args[1:]]
            rep.check(len(got) == len(args) and all(g in w for g, w in zip(got, args)), f"{name}: {op}({', '.join(got)})"[:200], f"{name} performs {op} with {got}, expected the decoded request {[w[0] for w in args]}; {where(e)}", f"{name}: {op}({', '.join(got)})")
        call = mk("call", e.path, ()) if False else None
        calls = {m for g in [s.ret] + [a for ev in s.events for a in ev.args] for m in subterms(g) if isop(m)}
        if kind == "stream":
            stream(ctx, rep, s, f, cs, name, isop, okconv, at)
        else:
            bad = [] if kind == "unit" else None
            for c in sorted(calls, key=text) or [None]:
                b = served(s, name, kind, c)
                bad = b if bad is None or len(b) < len(bad) else bad
            if kind == "unit":
                bad = [t for t in (text(m)[:120] for g in s.good for m in members(g) if strip(m).op != "unit" and not isop(strip(m)))]
            rep.check(not bad and bool(s.good), f"{name}: answers `{bad}`"[:200], f"{name} answers {bad or 'nothing'} instead of the outcome of {op}; {at}", f"{name}: answers with the outcome")
            rep.check(not s.errs, f"{name}: success answered with an error", f"{name} answers {[text(m)[:100] for m in s.errs]} although {op} succeeded; {at}", f"{name}: success kept")
            b = Handler(ctx, f, cs, okconv + [(isop, FAIL), (isop, "N")])
            good = [m for g in b.good for m in members(g) if not isop(strip(m))]
            rep.check(not good, f"{name}: failure of {op} answered with success", f"{name} answers {[text(m)[:100] for m in good]} when {op} fails; {at}", f"{name}: failure of {op} is an error")
            b = Handler(ctx, f, cs, okconv, join="fail")
            if not any((fr.hof or "").startswith("spawn") for fr in s.frames(e)):
                b.good = []  # it runs in the handler itself, which then never answers
            rep.check(not b.good, f"{name}: panic answered with success", f"{name} answers {[text(m)[:100] for m in b.good]} when the task running {op} panics; {at}", f"{name}: panic is an error")
        if args != []:
            b = Handler(ctx, f, cs, ([(item, OKAY), (isop, OKAY)] if args is None else []) + [(is_conv, FAIL), (is_conv, "N")])
            n = b.calls(lambda e: "indradb::Database::" in e.path)
            if args is None:  # the stream may be empty
                n = [e for e in n if any(is_conv(x) for a in e.args[1:] for x in subterms(a))]
                rep.check(bool(b.errs), f"{name}: malformed request answered with success", f"{name} never answers with an error when an item cannot be decoded; {at}", f"{name}: malformed request refused")
                late(ctx, rep, name, f, broken, item, b, True)
            else:
                rep.check(not b.good, f"{name}: malformed request answered with success", f"{name} answers {[text(m)[:100] for m in b.good]} to a request that cannot be decoded; {at}", f"{name}: malformed request refused")
            rep.check(not n, f"{name}: malformed request performed", f"{name} performs {[e.name for e in n]} for a request that cannot be decoded; {at}", f"{name}: malformed request changes nothing")
    f = fs.get("execute_plugin")
    if f is None:
        rep.missing("handler execute_plugin")
    else:
        plugin(ctx, rep, f, cs, db)
    f = fs.get("ping")
    if f is None:
        rep.missing("handler ping")
    else:
        s = Handler(ctx, f, cs)
        rep.analysed(f)
        ops = s.calls(lambda e: "indradb::" in e.path)
        rep.check(not ops and not s.errs and bool(s.good), "ping: not answered", f"ping calls {[e.name for e in ops]} and answers {text(s.ret)[:100]}; {f.file}", "ping: answered")


def shuffled(s):
    """calls that reorder or drop what passes through a list, in the functions analysed"""
    r = set()
    for g in {e.fn for e in s.events if e.fn.crate == "indradb_proto"} | {s.f}:
        for n, p in calls_in(g):
            if n in SHUFFLE - {"take", "flatten", "filter", "filter_map", "drain", "pop"} and not p.startswith(("std::option", "std::result", "tokio::sync")) and ("Iterator" in p or "vec::" in p or "slice" in p or "Stream" in p):
                r.add(n)
            if n in ("insert", "swap", "push_front") and "Map" not in p and "Set" not in p and ("vec::" in p or "slice" in p or "Deque" in p):
                r.add(n)
            if n in ("filter", "filter_map", "flatten", "pop", "drain", "take") and ("Iterator" in p or "vec::" in p or "Stream" in p):
                r.add(n)
    return r


def calls_in(f):
    for b in f.blocks:
        t = b["t"]
        if not b["c"] and t[0] == "call" and t[1][0] == "const" and isinstance(t[1][1], dict) and "fn" in t[1][1]:
            p = strip_generics(t[1][1]["fn"]["path"])
            yield p.split("::")[-1], p


def rows(s, rep, name, e, at):
    """the whole stream, in order, in one call"""
    w = strip(elem(mk("param", "request")))
    got = {strip(peel(x)) for m in members(e.args[1]) for x in members(elem(m)) if x.op not in ("bot",)}
    rep.check(got == {w}, f"{name}: items `{[text(x)[:60] for x in got]}`"[:200], f"{name} inserts {[text(x)[:100] for x in got]}, expected each item of the request, decoded; {where(e)}", f"{name}: every item of the request")
    for p in s.events:
        if p.name in ("push", "push_back", "extend") and strip(peel(p.args[-1])) is w:
            x = extra_lits(s.cond(p), s.X)
            rep.check(not x, f"{name}: item kept only when {x}"[:200], f"{name} keeps an item only when {x}; {where(p)}", f"{name}: every item kept")
    x = sorted(shuffled(s))
    rep.check(not x, f"{name}: items go through {x}", f"{name} passes the items through {x}; {at}", f"{name}: items in order")


def stream(ctx, rep, s, f, cs, name, isop, okconv, at):
    """what the client reads: every value, in order; the failure, if any; the panic, if any"""
    chans = [e for e in s.events if e.name in ("channel", "unbounded_channel")]
    tx = [strip(field(mk("call", "::".join(e.path.split("::")[-2:]), tuple(e.args)), "0", "tuple")) for e in chans]
    if not rep.check(len(chans) == 1, f"{name}: {len(chans)} channels", f"{name} opens {len(chans)} channels; {at}", f"{name}: one channel"):
        return
    rx = [m for g in s.good for m in subterms(g) if m.op == "field" and m.a[1] == ".1" and last(strip(m.a[0])) in ("channel", "unbounded_channel")]
    rep.check(bool(s.good) and bool(rx) and all(any(x in set(subterms(g)) for x in rx) for g in s.good) and not s.errs, f"{name}: answer is not the stream", f"{name} answers {text(s.ret)[:200]}, expected the receiving end of its channel; {at}", f"{name}: answers with the stream")
    istx = lambda a: any(m.op == "field" and m.a[1] == ".0" and last(strip(m.a[0])) in ("channel", "unbounded_channel") for m in [strip(a)])
    sends = lambda h: [e for e in h.events if e.args and istx(e.args[0]) and "Sender" in e.path and e.name not in ("clone", "is_closed", "capacity", "closed", "drop", "downgrade")]
    for e in sends(s):
        rep.check(e.name in ("send", "blocking_send"), f"{name}: {e.name}", f"{name} uses {e.name}, which drops a value when the channel is full; {where(e)}", f"{name}: waits for the channel")
    vals = [(e, m) for e in sends(s) if s.cond(e) for m in members(e.args[1]) if m.op != "err"]
    errs = [(e, m) for e in sends(s) if s.cond(e) for m in members(e.args[1]) if m.op == "err"]
    ok = len(vals) == 1 and (lambda p: p.op == "elem" and isop(strip(p.a[0])))(strip(peel(vals[0][1])))
    if rep.check(ok, f"{name}: sends `{[text(m)[:60] for _, m in vals]}`"[:200], f"{name} sends {[text(m)[:100] for _, m in vals]}, expected each value of the output, encoded, once; {at}", f"{name}: sends each value"):
        x = extra_lits(s.cond(vals[0][0]), s.X)
        rep.check(not x, f"{name}: value sent only when {x}"[:200], f"{name} sends a value only when {x}; {where(vals[0][0])}", f"{name}: sends every value")
    rep.check(not errs, f"{name}: success followed by an error", f"{name} sends {[text(m)[:100] for _, m in errs]} although the query succeeded; {at}", f"{name}: no error after success")
    x = sorted(shuffled(s))
    rep.check(not x, f"{name}: values go through {x}", f"{name} passes the values through {x}; {at}", f"{name}: values in order")
    b = Handler(ctx, f, cs, okconv + [(isop, FAIL), (isop, "N")])
    es = [(e, m) for e in sends(b) if b.cond(e) for m in members(e.args[1])]
    rep.check(any(m.op == "err" and not extra_lits(b.cond(e)) for e, m in es) and all(m.op == "err" for e, m in es) or not b.good, f"{name}: failure not sent", f"{name} sends {[text(m)[:80] for _, m in es]} when the query fails, so the client sees a stream that just ends; {at}", f"{name}: failure sent")
    b = Handler(ctx, f, cs, okconv + [(isop, OKAY), (isop, "Y")], join="fail")
    es = [e for e in sends(b) if any(m.op == "err" for m in members(e.args[1])) and not extra_lits(b.cond(e))]
    rep.check(bool(es) or not b.good, f"{name}: panic not sent", f"{name} sends nothing when the task that runs the query panics, so the client sees a stream that just ends; {at}", f"{name}: panic sent")


def plugin(ctx, rep, f, cs, db):
    """execute_plugin: the plugin of that name, on a transaction of the database, with the argument"""
    name = "execute_plugin"
    at = f"{f.file} in {f.label()}"
    rep.analysed(f)
    iscall = lambda m: m.op == "call" and m.a[0].endswith("Plugin::call")
    islook = lambda m: m.op == "call" and last(m) in ("get", "get_mut", "get_key_value") and "Map" in m.a[0]
    rq = mk("param", "request")
    adt = "indradb_proto::ExecutePluginRequest"
    arg = strip(field(rq, "arg", adt))
    isarg = lambda m: strip(m) is arg
    okconv = [(is_conv, OKAY), (is_conv, "Y")]
    some = [(islook, frozenset({"Some"}))]
    want_plugin = mk("call", "HashMap::get", (field(field(mk("param", "self"), "plugins", "indradb_proto::server::Server"), "entries", "indradb_proto::server::Plugins"), field(rq, "name", adt)))
    for there in ("Some", "None"):
        s = Handler(ctx, f, cs, okconv + some + [(isarg, frozenset({there})), (iscall, OKAY), (iscall, "Y")])
        rep.sites += len(s.events)
        key = f"{name} ({'with' if there == 'Some' else 'without'} argument)"
        ev = s.calls(lambda e: e.path.endswith("Plugin::call"))
        if not rep.check(len(ev) == 1, f"{key}: plugin called {len(ev)} times", f"{key} calls the plugin {len(ev)} times; {at}", f"{key}: plugin called once"):
            continue
        e = ev[0]
        x = extra_lits(s.cond(e))
        rep.check(not x, f"{key}: plugin called only when {x}"[:200], f"{key} calls the plugin only when {x}; {where(e)}", f"{key}: plugin always called")
        rep.check(text(strip(e.args[0])) == text(want_plugin), f"{key}: calls `{text(e.args[0])[:80]}`", f"{key} calls {text(e.args[0])}, expected the plugin registered under the request's name; {where(e)}", f"{key}: plugin of the request's name")
        t = strip(e.args[1])
        rep.check(t.op == "call" and last(t) == "transaction" and strip(t.a[1][0]) is strip(field(db, "datastore", "indradb::database::Database")), f"{key}: on `{text(t)[:80]}`", f"{key} gives the plugin {text(t)}, expected a transaction of the server's datastore; {where(e)}", f"{key}: transaction of the datastore")
        a = strip(peel(e.args[2]))
        if there == "Some":
            rep.check(a is arg, f"{key}: argument `{text(a)[:80]}`", f"{key} gives the plugin {text(a)}, expected the request's argument; {where(e)}", f"{key}: the request's argument")
        else:
            rep.check(text(a) in NULLS, f"{key}: argument `{text(a)[:80]}`", f"{key} gives the plugin {text(a)}, expected null; {where(e)}", f"{key}: null")
        vals = [strip(peel(field(m, "value", "indradb_proto::ExecutePluginResponse"))) for g in s.good for m in members(g)]
        rep.check(bool(vals) and all(iscall(v) for v in vals) and not s.errs, f"{key}: answers `{[text(v)[:60] for v in vals]}`"[:200], f"{key} answers {[text(v)[:100] for v in vals] + [text(m)[:100] for m in s.errs]} instead of what the plugin returned; {at}", f"{key}: answers with the plugin's result")
    b = Handler(ctx, f, cs, okconv + some + [(iscall, FAIL), (iscall, "N")])
    rep.check(not b.good, f"{name}: failure of the plugin answered with success", f"{name} answers {[text(m)[:100] for m in b.good]} when the plugin fails; {at}", f"{name}: failure of the plugin is an error")
    b = Handler(ctx, f, cs, okconv, join="fail")
    rep.check(not b.good, f"{name}: panic answered with success", f"{name} answers {[text(m)[:100] for m in b.good]} when the plugin panics; {at}", f"{name}: panic is an error")
    b = Handler(ctx, f, cs, okconv + [(islook, frozenset({"None"}))])
    n = b.calls(lambda e: e.path.endswith("Plugin::call"))
    nf = [e for e in b.events if e.name == "not_found" or "NotFound" in e.path]
    rep.check(not b.good and not n and bool(nf), f"{name}: unknown plugin not refused", f"{name} answers {[text(m)[:100] for m in b.good]} for a plugin that does not exist; expected NotFound; {at}", f"{name}: unknown plugin refused")
    b = Handler(ctx, f, cs, some + [(isarg, frozenset({"Some"})), (is_conv, FAIL), (is_conv, "N")])
    n = b.calls(lambda e: e.path.endswith("Plugin::call"))
    rep.check(not b.good and not n, f"{name}: malformed argument not refused", f"{name} answers {[text(m)[:100] for m in b.good]} for an argument that cannot be decoded; {at}", f"{name}: malformed argument refused")


# ------------------------------------------------------------------ the client
CLIENT = {
    "ping": (["unit()"], "unit"), "sync": (["unit()"], "unit"), "create_vertex": (["vertex"], "created"), "create_edge": (["edge"], "created"),
    "create_vertex_from_type": (["t"], "value"), "delete": (["q"], "unit"), "get": (["q"], "stream"), "index_property": ([("name", {"name": "name"})], "unit"),
    "set_properties": ([("q", {"q": "q", "name": "name", "value": "value"})], "unit"),
    "execute_plugin": ([("arg", {"name": "name", "arg": "arg"})], "plugin"), "bulk_insert": (None, "unit"),
}


def is_rpc(m):
    return m.op == "call" and "IndraDbClient::" in m.a[0]


def rpcs(F):
    return {g.path.split("::", 1)[-1] for g in F.find(kind="fn", crate="indradb_proto") if g.self_ty and adt_last(strip_g(g.self_ty)) == "IndraDbClient" and not g.trait}


@prop("C16")
def client(ctx, rep):
    """each client method: one call of the same name with its arguments encoded, answered with the decoded response"""
    T_, cs = conversions(ctx.F)
    fs = {f.name: f for f in ctx.F.find(kind="fn", crate="indradb_proto") if not f.trait and f.file.endswith("client.rs") and f.self_ty and adt_last(strip_g(f.self_ty)) == "Client" and f.blocks}
    rpc = rpcs(ctx.F)
    if not rpc:
        rep.missing("generated IndraDbClient")
        return
    okconv = [(is_conv, OKAY), (is_conv, "Y")]
    for name, (args, kind) in CLIENT.items():
        f = fs.get(name)
        if f is None:
            rep.missing(f"client method {name}")
            continue
        at = f"{f.file} in {f.label()}"
        isop = lambda m: is_rpc(m) and last(m) == name
        answer = lambda m: m.op == "elem" and isop(strip(m.a[0]))
        good = okconv + [(isop, OKAY), (answer, OKAY), (answer, "Y")]
        val = lambda m: m.op == "field" and m.a[1].endswith("ExecutePluginResponse.value")
        s = Handler(ctx, f, cs, good + [(val, frozenset({"Some"}))], opaque=rpc)
        rep.analysed(f, *[e.fn for e in s.events if e.fn.crate == "indradb_proto"])
        rep.sites += len(s.events)
        ops = s.calls(lambda e: "IndraDbClient::" in e.path)
        if not rep.check(len(ops) == 1 and ops[0].name == name, f"{name}: calls {[e.name for e in ops]}", f"{name} calls {[e.name for e in ops]}; it must call {name} exactly once; {at}", f"{name}: one {name}"):
            continue
        e = ops[0]
        x = [y for y in extra_lits(s.cond(e), s.X) if y]
        rep.check(not x, f"{name}: called only when {x}"[:200], f"{name} calls the server only when {x}; {where(e)}", f"{name}: always called")
        rep.check(text(strip(e.args[0])) == "self.0", f"{name}: on `{text(e.args[0])[:60]}`", f"{name} calls {text(e.args[0])}, not the client's connection; {where(e)}", f"{name}: on its connection")
        if args is None:
            sent(s, rep, ctx, f, cs, name, e, at, good, rpc)
        else:
            got = []
            for a, w in zip(e.args[1:], args):
                a = strip(peel(a))
                if isinstance(w, str):
                    ok = text(a) == w
                elif a.op == "agg" and {k for k, _ in a.a[2]} == set(w[1]):
                    ok = all(text(strip(peel(v))) == w[1][k] for k, v in a.a[2])
                else:
                    ok = False
                rep.check(ok, f"{name}: sends `{text(a)}`"[:200], f"{name} sends {text(a)}, expected {w if isinstance(w, str) else w[1]}; {where(e)}", f"{name}: sends its arguments")
                got.append(a)
            rep.check(len(e.args) - 1 == len(args), f"{name}: {len(e.args) - 1} arguments", f"{name} sends {len(e.args) - 1} arguments; {where(e)}", f"{name}: all arguments")
        bad = []
        for g in s.good:
            m = strip(g)
            if kind == "unit":
                ok = m.op == "unit" or isop(m)
            elif kind == "created":
                v = strip(m)
                ok = v.op == "field" and v.a[1].endswith("CreateResponse.created") and isop(strip(v.a[0]))
            elif kind == "value":
                ok = isop(strip(peel(m))) and any(is_conv(y) for y in subterms(m)) or m.op == "call" and is_conv(m) and isop(strip(peel(m)))
            elif kind == "plugin":
                v = strip(peel(m))
                ok = val(v) and isop(strip(v.a[0]))
            else:
                els = [strip(peel(y)) for y in members(elem(m)) if y.op != "bot"]
                ok = bool(els) and all(answer(y) for y in els)
            if not ok and not (kind == "stream" and m.op == "coll" and not m.a[1]):
                bad.append(text(m)[:120])
        if kind == "stream":
            pushes = [p for p in s.events if p.name in ("push", "push_back", "extend") and any(answer(y) for y in subterms(p.args[-1]))]
            for p in pushes:
                x = extra_lits(s.cond(p), s.X)
                rep.check(not x, f"{name}: value kept only when {x}"[:200], f"{name} keeps a value only when {x}; {where(p)}", f"{name}: every value kept")
            x = sorted(shuffled(s))
            rep.check(not x, f"{name}: values go through {x}", f"{name} passes the values through {x}; {at}", f"{name}: values in order")
        rep.check(not bad and bool(s.good), f"{name}: returns `{bad}`"[:200], f"{name} returns {bad or 'nothing'} instead of the server's answer; {at}", f"{name}: returns the answer")
        if args is not None:
            rep.check(not s.errs, f"{name}: success turned into an error", f"{name} returns {[text(m)[:100] for m in s.errs]} although the call succeeded; {at}", f"{name}: success kept")
        b = Handler(ctx, f, cs, okconv + [(isop, FAIL), (isop, "N")], opaque=rpc)
        rep.check(not b.good, f"{name}: failed call returns success", f"{name} returns {[text(m)[:100] for m in b.good]} when the call fails; {at}", f"{name}: failed call is an error")
        if kind in ("value", "plugin", "stream"):
            b = Handler(ctx, f, cs, [(isop, OKAY), (answer, OKAY), (val, frozenset({"Some"})), (is_conv, FAIL), (is_conv, "N")], opaque=rpc)
            decode = b
            ok = not b.good if kind != "stream" else bool(b.errs) and not any(any(is_rpc(y) for y in subterms(g)) for g in b.good)
            rep.check(ok, f"{name}: undecodable answer returns success", f"{name} returns {[text(m)[:100] for m in b.good]} when the answer cannot be decoded; {at}", f"{name}: undecodable answer is an error")
        if kind == "stream":
            b = Handler(ctx, f, cs, okconv + [(isop, OKAY), (answer, FAIL), (answer, "N")], opaque=rpc)
            done = late(ctx, rep, name, f, b, answer, decode, False)
            rep.check("broken" in done or bool(b.errs) and not any(any(is_rpc(y) for y in subterms(g)) for g in b.good), f"{name}: broken answer returns success", f"{name} returns {[text(m)[:100] for m in b.good]} when the stream of answers breaks; {at}", f"{name}: broken answer is an error")
        if kind == "plugin":
            b = Handler(ctx, f, cs, good + [(val, frozenset({"None"}))], opaque=rpc)
            ts = [text(strip(peel(m))) for m in b.good]
            rep.check(bool(ts) and not b.errs and all(t in NULLS for t in ts), f"{name}: no value returns `{ts}`"[:200], f"{name} returns {ts} when the answer has no value, expected null; {at}", f"{name}: no value is null")
    f = fs.get("new")
    if f is None:
        rep.missing("client method new")
        return
    for how, lab in (("ok", OKAY), ("fail", FAIL)):
        s = Handler(ctx, f, cs, [(is_rpc, lab)], opaque=rpc)
        rep.analysed(f)
        ops = s.calls(lambda e: "IndraDbClient::" in e.path)
        if how == "ok":
            ts = [text(m) for m in s.good]
            w = f"IndraDbClient::connect({s.names[1]})"
            rep.check([e.name for e in ops] == ["connect"] and not s.errs and bool(ts) and all(t.endswith("Client{0: " + w + "}") for t in ts), f"new: `{ts}`"[:200], f"new returns {ts}, expected a client connected to the endpoint; {f.file}", "new: connected to the endpoint")
        else:
            rep.check(not s.good, "new: failed connection returned as success", f"new returns {[text(m)[:100] for m in s.good]} when the connection fails; {f.file}", "new: failed connection is an error")


NULLS = ("json::Json{0: serde_json::Value::Null{}}", "serde_json::Value::Null{}")


def sent(s, rep, ctx, f, cs, name, e, at, good, rpc):
    """bulk_insert: the items, in order, through the channel whose other end is the request"""
    end = lambda a, i: any(m.op == "field" and m.a[1] == i and last(strip(m.a[0])) in ("channel", "unbounded_channel") for m in [strip(a)])
    rx = [m for m in subterms(e.args[1]) if m.op == "field" and m.a[1] == ".1" and last(strip(m.a[0])) in ("channel", "unbounded_channel")]
    items = strip(elem(mk("param", "items")))
    if not rx:
        # a stream over the items themselves
        got = {strip(peel(y)) for m in subterms(e.args[1]) for y in members(elem(m)) if y.op != "bot"}
        rep.check(items in got and not shuffled(s), f"{name}: sends `{text(e.args[1])}`"[:200], f"{name} sends {text(e.args[1])}, expected a stream of the items; {where(e)}", f"{name}: sends the items")
        return
    rep.check(True, "", "", f"{name}: sends the receiving end")
    sends = [v for v in s.events if v.args and end(v.args[0], ".0") and "Sender" in v.path and v.name not in ("clone", "is_closed", "capacity", "closed", "drop", "downgrade")]
    live = [v for v in sends if s.cond(v)]
    if not rep.check(len(live) == 1 and live[0].name in ("send", "blocking_send") and strip(peel(live[0].args[1])) is items, f"{name}: sends `{[text(v.args[1])[:60] for v in live]}`"[:200], f"{name} sends {[v.name + ' ' + text(v.args[1])[:100] for v in live]}, expected each item, once, waiting for room; {at}", f"{name}: sends each item"):
        return
    p = live[0]
    ok = Handler(ctx, f, cs, good + [(lambda m: m.op == "call" and "Sender" in m.a[0] and last(m) == p.name, OKAY)], opaque=rpc)
    q = [v for v in ok.events if v.path == p.path and ok.cond(v)]
    x = extra_lits(ok.cond(q[0]), ok.X) if q else ["never"]
    rep.check(not x, f"{name}: item sent only when {x}"[:200], f"{name} sends an item only when {x}; {where(p)}", f"{name}: every item sent")
    x = sorted(shuffled(s))
    rep.check(not x, f"{name}: items go through {x}", f"{name} passes the items through {x}; {at}", f"{name}: items in order")
    b = Handler(ctx, f, cs, good + [(lambda m: m.op == "call" and "Sender" in m.a[0] and last(m) == p.name, FAIL)], opaque=rpc)
    rep.check(bool(b.errs), f"{name}: closed channel returns success", f"{name} never returns an error when an item could not be sent; {at}", f"{name}: closed channel is an error")
    closed(ctx, rep, name, f)


# ------------------------------------------------------------------ blocking
BLOCKING = {"blocking_send", "blocking_recv", "blocking_lock", "blocking_read", "blocking_write", "blocking_recv_many", "block_on", "park", "park_timeout", "wait_timeout", "wait_while"}


def blocks(e):
    """does this call wait for a disk, another thread or the datastore?"""
    p = e.path
    if "indradb::Database::" in p or p.startswith(("indradb::Database", "indradb::database::")) or "Datastore::" in p and e.name in ("transaction",):
        return e.name not in ("new",)
    if "Transaction::" in p and p.startswith("indradb") or p.endswith("Plugin::call"):
        return True
    if p.startswith(("std::fs::", "std::process::", "std::net::", "libloading::")) and not p.startswith("std::process::id"):
        return True
    if p.startswith("std::thread::") and e.name in ("sleep", "join", "park", "park_timeout", "scope"):
        return True
    if p.startswith("std::sync::") and e.name in ("recv", "recv_timeout", "wait", "wait_timeout", "wait_while"):
        return True
    if ("std::io" in p or "fs::File" in p) and e.name in ("read_to_end", "read_to_string", "write_all", "flush", "sync_all", "sync_data", "read_exact", "copy"):
        return True
    return e.name in BLOCKING


@prop("C17")
def blocking(ctx, rep):
    """nothing that blocks runs on a thread of the asynchronous runtime"""
    T_, cs = conversions(ctx.F)
    rpc = rpcs(ctx.F)
    todo = []
    for f in ctx.F.find(kind="fn", crate="indradb_proto"):
        if not f.blocks or not f.self_ty or f.file.endswith("indradb.rs"):
            continue
        if f.trait == "IndraDb" and adt_last(strip_g(f.self_ty)) == "Server" or not f.trait and f.file.endswith("client.rs") and adt_last(strip_g(f.self_ty)) == "Client":
            todo.append(f)
    if len(todo) < 22:
        rep.missing(f"handlers and client methods ({len(todo)} of 22 found)")
    n = 0
    for f in todo:
        s = Handler(ctx, f, cs, join=None, opaque=rpc)
        rep.analysed(f, *[e.fn for e in s.events if e.fn.crate == "indradb_proto"])
        rep.sites += len(s.events)
        seen = False
        for e in s.events:
            if not blocks(e):
                continue
            seen = True
            n += 1
            ok = False
            for fr in s.frames(e):
                if fr.fn.coroutine:
                    break
                if (fr.hof or "") in ("spawn_blocking", "block_in_place") or (fr.hof or "") == "spawn":
                    ok = True
                    break
            rep.check(ok, f"{f.label()}: {e.name} on the runtime's thread", f"{f.label()} calls {e.path} on a thread of the asynchronous runtime, outside spawn_blocking, so one slow call stalls every other request; {where(e)}", f"{f.label()}: {e.name} in a blocking task")
        if not seen:
            rep.check(True, "", "", f"{f.label()}: nothing that blocks")
    if n < 11:
        rep.missing(f"blocking calls of the handlers ({n} found)")
