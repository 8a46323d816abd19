"""C18: identifiers are valid; C21: JSON values; C23.. see each rule"""
from core import prop
from engine import *
from cond import Cond
from facts import strip_generics
from absint import Abs, Stuck, TOP as ATOP
from rules.store_writes import where
from rules.queries import QClauses, text

IDENT = "models::identifiers::Identifier"
CELLS = {"dash": 0x2d, "underscore": 0x5f, "ASCII letter": 0x61, "ASCII capital": 0x5a, "ASCII digit": 0x35, "letter beyond ASCII": 0xe9, "ideograph": 0x4e2d, "digit beyond ASCII": 0x663, "number beyond ASCII": 0xbd,
         "space": 0x20, "control character": 0, "newline": 0xa, "dot": 0x2e, "slash": 0x2f, "dollar": 0x24, "ASCII punctuation": 0x7e, "punctuation beyond ASCII": 0x2019, "emoji": 0x1f600, "combining mark": 0x301, "no-break space": 0xa0}


def valid(c):
    return c in (0x2d, 0x5f) or chr(c).isalpha() or chr(c).isnumeric()


def show(v):
    if v[0] == "agg":
        return v[1] + ("(" + ", ".join(show(x) for _, x in v[2]) + ")" if v[2] else "")
    if v[0] == "str":
        return "s"
    if v[0] == "sym":
        return v[1] + "(" + ", ".join(show(x) for x in v[2]) + ")"
    return str(v[1]) if len(v) > 1 else v[0]


@prop("C18")
def identifiers(ctx, rep):
    """every identifier is checked when made, except what RocksDB keys are decoded to"""
    F = ctx.F
    fns = {f.label(): f for f in F.find(kind="fn", crate="indradb") if f.file.endswith("models/identifiers.rs")}
    new = fns.get("Identifier::new")
    if new is None:
        rep.missing("Identifier::new")
        return
    rep.analysed(new)
    at = f"{new.file} in {new.label()}"
    # which strings it accepts
    def accepts(n, ok, bad):
        A = Abs(F)
        s = ("str", ("i", n), ok, bad)
        r = A.run(new, [s])
        rep.steps += A.steps
        return A, {v for v, _ in r}, s
    try:
        A, _, _ = accepts(3, 0x61, None)
        lens = sorted({0, 1, 255, 256, 257, 1 << 20} | {k + d for k in A.consts for d in (-1, 0, 1) if k + d >= 0})
        cases = [(f"a string of {n} bytes", n, 0x61, 0x61 if n else None, n <= 255) for n in lens if n < 1 << 40]
        for name, c in CELLS.items():
            cases.append((f"a string of characters like {name}", 6, c, c, valid(c)))
            cases.append((f"a string with a character like {name}", 6, 0x61, c, valid(c)))
        for what, n, ok, bad, want in cases:
            A, vs, s = accepts(n, ok, bad)
            good = {v for v in vs if v[0] == "agg" and v[1] == "Ok"}
            errs = {v for v in vs if v[0] == "agg" and v[1] == "Err"}
            if want:
                rep.check(bool(good) and not vs - good, f"new refuses {what}", f"Identifier::new can refuse {what}, which is valid; {at}", f"new accepts {what}")
                for v in good:
                    i = dict(dict(v[2])["0"][2]).get("0") if dict(v[2])["0"][0] == "agg" else None
                    rep.check(i is not None and (i == s or i[0] == "sym" and i[1] in ("Intern::new", "Intern::from") and i[2] == (s,)), f"new holds `{show(v)}`"[:200], f"Identifier::new makes {show(v)} of s, expected the given string; {at}", "new holds the given string")
            else:
                rep.check(bool(errs) and not vs - errs, f"new accepts {what}", f"Identifier::new can accept {what}; {at}", f"new refuses {what}")
    except Stuck:
        rep.missing("Identifier::new: not decided within its budget")
    # nobody makes one without it
    makers = {"Identifier::new", "Identifier::new_unchecked", "<Identifier as Default>::default", "<Identifier as Clone>::clone"}
    n = 0
    for f in F.fns.values():
        if not f.blocks or f.crate.startswith("_"):
            continue
        for b in f.blocks:
            if b["c"]:
                continue
            for s in b["s"]:
                if s[0] != "=":
                    continue
                if s[2][0] == "agg" and s[2][1] == "adt" and s[2][2].endswith("identifiers::Identifier"):
                    n += 1
                    root = root_fn(F, f)
                    rep.check(root.label() in makers and root.file.endswith("identifiers.rs"), f"{f.label()} makes an identifier unchecked", f"{f.label()} makes an Identifier without Identifier::new; {f.file}:{s[3]}", f"{f.label()}: allowed maker")
                if any(e[0] == "f" and len(e) > 3 and str(e[3]).endswith("identifiers::Identifier") for e in s[1][1]):
                    rep.check(False, f"{f.label()} writes into an identifier", f"{f.label()} changes the string of an Identifier; {f.file}:{s[3]}")
            t = b["t"]
            if t[0] == "call" and t[1][0] == "const" and "fn" in t[1][1]:
                p = strip_generics(t[1][1]["fn"]["path"])
                if p.endswith("Identifier::new_unchecked") or p.endswith("util::read_identifier"):
                    n += 1
                    rep.sites += 1
                    rep.check(f.file.endswith("lib/src/util.rs") or "/rdb/" in f.file or root_label(F, f) == "Identifier::new", f"{f.label()} calls {p.split('::')[-1]}", f"{f.label()} makes an identifier with {p.split('::')[-1]}, which checks nothing; {f.file}:{t[-1] if isinstance(t[-1], int) else f.line}", f"{f.label()}: decodes a stored key")
                if p.endswith("intrinsics::transmute") or p.endswith("mem::transmute"):
                    rep.check("Identifier" not in str(t[1][1].get("ty")), f"{f.label()} transmutes an identifier", f"{f.label()} makes an Identifier by transmute; {f.file}")
    if n < 8:
        rep.missing(f"makers of identifiers ({n} found)")
    # where unchecked ones come from
    for f in F.find(crate="indradb"):
        if not f.blocks or f.kind not in ("fn", "closure") or root_label(F, f) == "Identifier::new":
            continue
        for b in f.blocks:
            t = b["t"]
            if not b["c"] and t[0] == "call" and t[1][0] == "const" and "fn" in t[1][1] and strip_generics(t[1][1]["fn"]["path"]).endswith("Identifier::new_unchecked"):
                src = decoded_from(F, f, t[2][0])
                rep.check(src, f"{f.label()}: unchecked identifier not read from a key", f"{f.label()} makes an unchecked identifier of something it did not read from a stored key; {f.file}", f"{f.label()}: read from a stored key")
    # the other ways go through it
    opaque = {IDENT + "::new"}
    for lab, want in (("<Identifier as FromStr>::from_str", "s"), ("<Identifier as TryFrom>::try_from", "s"), ("<Identifier as Deserialize>::deserialize", "Deserialize::deserialize(deserializer)")):
        f = fns.get(lab)
        if f is None:
            rep.missing(lab)
            continue
        rep.analysed(f)
        A = Analysis(F, opaque=opaque)
        r = A.run(f, {i: mk("param", f.locals[i][1] or f"p{i}") for i in range(1, f.nargs + 1)})
        names = f.locals[1][1]
        want = want.replace("s", names) if want == "s" else want.replace("deserializer", names)
        got = sorted({text(m.a[0] if m.op == "okay" else m) for m in members(r) if m.op != "err"})
        rep.check(got == [f"Identifier::new({want})"], f"{lab}: `{got}`"[:200], f"{lab} gives {got}, expected Identifier::new of the given string; {f.file}", f"{lab}: through new")
    for lab in ("Identifier::as_str", "<Identifier as Deref>::deref"):
        f = fns.get(lab)
        if f is None:
            rep.missing(lab)
            continue
        r = Analysis(F).run(f, {1: mk("param", "self")})
        rep.analysed(f)
        rep.check([text(m) for m in members(r)] == ["self.0"], f"{lab}: `{text(r)}`"[:200], f"{lab} gives {text(r)}, expected the string itself; {f.file}", f"{lab}: the string")
    f = fns.get("<Identifier as Serialize>::serialize")
    if f is None:
        rep.missing("<Identifier as Serialize>::serialize")
    else:
        A = Analysis(F)
        r = A.run(f, {1: mk("param", "self"), 2: mk("param", "serializer")})
        rep.analysed(f)
        ts = [text(m) for m in members(r)]
        rep.check(len(ts) == 1 and ts[0] in ("Serialize::serialize(self.0, serializer)", "Serializer::serialize_str(serializer, self.0)"), f"serialize: `{ts}`"[:200], f"serializing an identifier writes {ts}, expected its string; {f.file}", "serialize: the string")


def root_fn(F, f):
    while f.parent and f.parent in F.fns:
        f = F.fns[f.parent]
    return f


def root_label(F, f):
    return root_fn(F, f).label()


READERS = ("read_fixed_length_string", "from_utf8_unchecked", "from_utf8", "read_to_string", "read_exact", "from_utf8_lossy")


def decoded_from(F, f, op, seen=None):
    """is the operand computed from bytes that were read in this function?"""
    seen = seen if seen is not None else set()
    if op[0] not in ("copy", "move"):
        return False
    l = op[1][0]
    if l in seen:
        return False
    seen.add(l)
    for b in f.blocks:
        if b["c"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1][0] == l:
                r = s[2]
                ops = [r[1]] if r[0] == "use" else [["copy", r[2]]] if r[0] == "ref" else r[5] if r[0] == "agg" else [r[2]] if r[0] == "cast" else []
                if any(decoded_from(F, f, o, seen) for o in ops):
                    return True
        t = b["t"]
        if t[0] == "call" and t[3][0] == l and t[1][0] == "const" and "fn" in t[1][1]:
            p = strip_generics(t[1][1]["fn"]["path"])
            if p.split("::")[-1] in READERS:
                return True
            if any(decoded_from(F, f, o, seen) for o in t[2]):
                return True
    return False
