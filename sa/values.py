"""Abstract interpretation of small pure functions over symbolic values: byte strings as sequences of parts, lists of known length, cursors, hashers.

Values, besides those of absint: ("vec", items) lists, arrays, slices and byte strings, whose items are values or, in byte strings, parts of
several bytes: ("all", x) the bytes of x, ("be64", x), ("zero", n); ("cur", items) a cursor with what was written or is left to read;
("it", items) an iterator; ("hasher", kind, fed); ("rng", name, lo, hi) an unknown integer within bounds; ("param", name, type)."""
from absint import Abs, Stuck, TOP, TRUE, FALSE, UNIT, SEGS, agg, boolean

PANIC = ("panic",)
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "i8": 7, "i16": 15, "i32": 31}


def sym(name, *args):
    return ("sym", name, tuple(args))


def bounds(v):
    if v[0] == "i":
        return v[1], v[1]
    if v[0] == "rng":
        return v[2], v[3]
    return None


def length(items, size):
    """number of bytes or elements of a list"""
    k, rest = 0, []
    for x in items:
        if x[0] in SEGS:
            n = size(x)
            if n[0] == "i":
                k += n[1]
            else:
                rest.append(n)
        else:
            k += 1
    if not rest:
        return ("i", k)
    if k == 0 and len(rest) == 1:
        return rest[0]
    return sym("sum", ("i", k), *rest)


class Mem(Abs):
    LIMIT = 6000

    def __init__(self, F, types=None, keep=()):
        super().__init__(F, keep)
        self.types = types or {}  # value -> "uuid" | "str" | "ident"
        self.narrow = []

    def size(self, x):
        if x[0] == "all":
            return ("i", 16) if self.types.get(x[1]) == "uuid" else self.len_of(x[1])
        if x[0] == "be64":
            return ("i", 8)
        if x[0] == "zero":
            return x[1]
        return sym("size", x)

    def len_of(self, s):
        return sym("len", s)

    def rvalue(self, fid, r, env):
        if r[0] == "cast" and len(r) > 3:
            v = self.val(env, self.operand(fid, r[2], env))
            ty = r[3]
            if "IntToInt" in str(r[1]):
                b = bounds(v)
                w = WIDTH.get(ty)
                if v[0] == "i":
                    return ("i", v[1] & ((1 << w) - 1)) if ty in ("u8", "u16", "u32") else v
                if w is not None and not (b and 0 <= b[0] and b[1] < 1 << w) and not self.small(v):
                    return sym("as " + ty, v)
                return v
            if "Float" in str(r[1]):
                return sym("as " + ty, v)
        if r[0] == "repeat":
            v = self.val(env, self.operand(fid, r[1], env))
            n = r[2]
            n = int(n) if str(n).isdigit() else n.get("int") if isinstance(n, dict) else None
            if v == ("i", 0) and n is not None:
                return ("vec", (("zero", ("i", int(n))),))
            return TOP
        if r[0] == "bin":
            a, b = self.val(env, self.operand(fid, r[2], env)), self.val(env, self.operand(fid, r[3], env))
            op = r[1].replace("WithOverflow", "").replace("Unchecked", "")
            if not (a[0] == "i" and b[0] == "i"):
                x = self.arith(op, a, b)
                return agg("", x, FALSE) if r[1].endswith("WithOverflow") else x
        if r[0] == "un" and r[1] == "PtrMetadata":
            v = self.val(env, self.operand(fid, r[2], env))
            if v[0] == "vec":
                return length(v[1], self.size)
        if r[0] == "len":
            loc, path = self.place(fid, r[1], env)
            v = self.val(env, self.get(env, loc, path))
            if v[0] == "vec":
                return length(v[1], self.size)
        if r[0] == "agg" and r[1] == "array":
            return ("vec", tuple(self.operand(fid, o, env) for o in r[5]))
        return super().rvalue(fid, r, env)

    def arith(self, op, a, b):
        x, y = bounds(a), bounds(b)
        if x and y:
            if op == "Lt" and (x[1] < y[0] or x[0] >= y[1]):
                return boolean(x[1] < y[0])
            if op == "Le" and (x[1] <= y[0] or x[0] > y[1]):
                return boolean(x[1] <= y[0])
            if op == "Gt" and (x[0] > y[1] or x[1] <= y[0]):
                return boolean(x[0] > y[1])
            if op == "Ge" and (x[0] >= y[1] or x[1] < y[0]):
                return boolean(x[0] >= y[1])
            if op in ("Eq", "Ne") and (x[1] < y[0] or y[1] < x[0]):
                return boolean(op == "Ne")
        if a == TOP or b == TOP:
            return TOP
        if op in ("Add", "Sub", "Mul", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Div", "Rem", "Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if op == "Add" and a[0] == "i":
                a, b = b, a
            return self.relation(op, a, b)
        return TOP

    def relation(self, op, a, b):
        return sym(op, a, b) if op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else TOP

    def small(self, v):
        """does the value fit in a byte?"""
        return False

    # ---- helpers
    def loc(self, ref, env):
        loc, p = ref[1], ref[2]
        while True:
            x = self.get(env, loc, p)
            if x[0] != "ref":
                return loc, p
            loc, p = x[1], x[2]

    def upd(self, env, ref, v):
        e = dict(env)
        loc, p = self.loc(ref, e)
        self.put(e, loc, p, v)
        return e

    def bytes(self, v):
        """items of a byte string, or None"""
        if v[0] == "vec":
            return v[1]
        if v[0] == "lit":
            return tuple(("i", b) for b in v[1].encode())
        if v in self.types or v[0] in ("sym", "param"):
            return (("all", v),)
        return None

    def whole(self, items):
        """the value all of whose bytes these are"""
        if len(items) == 1 and items[0][0] == "all":
            return items[0][1]
        return ("vec", items)

    def seq(self, f, items, env, acc=()):
        """[(results, env)] of applying f to each"""
        outs = [(tuple(acc), env)]
        for x in items:
            nxt = []
            for rs, e in outs:
                if rs and rs[-1] == PANIC:
                    nxt.append((rs, e))
                    continue
                for v, e2 in self.apply(f, [x], e):
                    nxt.append((rs + (v,), e2))
            outs = nxt
        return outs

    def model(self, path, name, short, args, vs, env, c):
        v = vs[0] if vs else None
        tr = c.get("trait", "").split("::")[-1].split("<")[0]
        targs = " ".join(c.get("targs", []))
        r = self.special(path, name, short, args, vs, env, c)
        if r is not None:
            return r
        if "option::Option" in path or "result::Result" in path:
            if v is not None and v[0] == "agg":
                pos = v[1] in ("Some", "Ok")
                inner = v[2][0][1] if v[2] else UNIT
                if name in ("unwrap", "expect") and not pos or name in ("unwrap_err", "expect_err") and pos:
                    return PANIC
                if name in ("unwrap_err", "expect_err", "err") and not pos:
                    return inner if name != "err" else agg("Some", inner)
                if name == "err":
                    return agg("None")
                if name in ("map_or", "map_or_else"):
                    if pos:
                        return self.apply(args[2], [inner], env)
                    return args[1] if name == "map_or" else self.apply(args[1], [] if v[1] == "None" else [inner], env)
                if name in ("is_some_and", "is_ok_and"):
                    return self.apply(args[1], [inner], env) if pos else FALSE
                if name == "unwrap_or_else":
                    return inner if pos else self.apply(args[1], [] if v[1] == "None" else [inner], env)
                if name == "filter" and pos:
                    outs = []
                    for x, e in self.apply(args[1], [inner], env):
                        if x != FALSE:
                            outs.append((v, e))
                        if x != TRUE:
                            outs.append((agg("None"), e))
                    return outs
                if name in ("as_ref", "as_mut", "as_deref", "copied", "cloned", "as_deref_mut"):
                    return v
                if name in ("or", "or_else"):
                    return v if pos else args[1] if name == "or" else self.apply(args[1], [] if v[1] == "None" else [inner], env)
        # lists
        if name in ("with_capacity", "new", "default") and ("Vec" in short or "vec::Vec" in path) or name == "default" and "Vec<" in c.get("self", ""):
            return ("vec", ())
        if short == "String::new":
            return ("vec", ())
        if name == "from_elem" and len(vs) == 2:
            if vs[0] == ("i", 0):
                return ("vec", (("zero", vs[1]),)) if vs[1] != ("i", 0) else ("vec", ())
            return TOP
        if name == "box_assume_init_into_vec_unsafe" or name in ("into_vec", "to_vec", "into_boxed_slice", "as_slice", "as_mut_slice", "into_iter_vec", "to_owned", "as_bytes_mut", "as_mut_vec") and v[0] == "vec":
            return v if args[0][0] != "ref" or name in ("into_vec", "to_vec", "to_owned", "into_boxed_slice") else args[0]
        if v is not None and v[0] == "vec":
            items = v[1]
            if name == "len":
                return length(items, self.size)
            if name == "is_empty":
                return boolean(not items) if not any(x[0] in SEGS for x in items) else TOP
            if name in ("push", "extend_from_slice", "extend", "write_all", "write", "append", "push_str"):
                add = (args[1],) if name == "push" else self.items(vs[1])
                if add is not None:
                    e = self.upd(env, args[0], ("vec", items + tuple(add)))
                    return [(agg("Ok", UNIT) if name == "write_all" else agg("Ok", length(add, self.size)) if name == "write" else UNIT, e)]
            if name == "resize" and len(vs) > 2 and vs[2] == ("i", 0) and not items:
                return [(UNIT, self.upd(env, args[0], ("vec", (("zero", vs[1]),))))]
            if name == "clear":
                return [(UNIT, self.upd(env, args[0], ("vec", ())))]
            if name == "copy_from_slice" or name == "clone_from_slice":
                b = self.items(vs[1])
                if b is not None and length(b, self.size) == length(items, self.size):
                    return [(UNIT, self.upd(env, args[0], ("vec", tuple(b))))]
            if name == "pop" and args[0][0] == "ref":
                if not items:
                    return agg("None")
                return [(agg("Some", items[-1]), self.upd(env, args[0], ("vec", items[:-1])))]
            if name == "remove" and len(vs) > 1 and vs[1][0] == "i":
                k = vs[1][1]
                return [(items[k], self.upd(env, args[0], ("vec", items[:k] + items[k + 1:])))] if k < len(items) else PANIC
            if name == "swap_remove" and len(vs) > 1 and vs[1][0] == "i":
                k = vs[1][1]
                if k >= len(items):
                    return PANIC
                rest = items[:k] + (items[-1],) + items[k + 1:-1] if k < len(items) - 1 else items[:-1]
                return [(items[k], self.upd(env, args[0], ("vec", rest)))]
            if name in ("first", "last", "first_mut", "last_mut"):
                return agg("Some", items[0 if name.startswith("first") else -1]) if items else agg("None")
            if name in ("split_first", "split_last") and items:
                return agg("Some", agg("", items[0], ("vec", items[1:]))) if name == "split_first" else agg("Some", agg("", items[-1], ("vec", items[:-1])))
            if name == "get" and len(vs) > 1 and vs[1][0] == "i":
                return agg("Some", items[vs[1][1]]) if vs[1][1] < len(items) else agg("None")
            if name == "reverse":
                return [(UNIT, self.upd(env, args[0], ("vec", items[::-1])))]
            if name == "concat" or name == "join" and len(items) and False:
                out = ()
                for x in items:
                    b = self.items(self.val(env, x))
                    if b is None:
                        return TOP
                    out += tuple(b)
                return ("vec", out)
            if name == "iter_mut" and args[0][0] == "ref":
                loc, p = self.loc(args[0], env)
                return ("it", tuple(("ref", loc, p + (f"#{k}",)) for k in range(len(items))))
            if name == "into_iter" and args[0][0] == "ref" and "&mut" in c.get("self", ""):
                loc, p = self.loc(args[0], env)
                return ("it", tuple(("ref", loc, p + (f"#{k}",)) for k in range(len(items))))
            if name in ("iter", "into_iter", "drain"):
                return ("it", items)
            if tr == "Index" or tr == "IndexMut":
                ix = vs[1]
                if "RangeFull" in targs:
                    return args[0]
                if ix[0] == "i":
                    return ("ref", *self.refpath(args[0], env, f"#{ix[1]}")) if args[0][0] == "ref" and ix[1] < len(items) else items[ix[1]] if ix[1] < len(items) else PANIC
                if ix[0] == "agg":
                    f = dict(ix[2])
                    lo, hi = self.val(env, f.get("start", ("i", 0))), self.val(env, f.get("end", ("i", 1 << 40)))
                    if not f:
                        return args[0]
                    if lo[0] == "i" and hi[0] == "i" and not any(x[0] in SEGS for x in items):
                        if args[0][0] == "ref" and hi[1] <= max(len(items), 1 << 40):
                            a, b = lo[1], len(items) if hi[1] == 1 << 40 else hi[1]
                            return ("ref", *self.refpath(args[0], env, f"[{a}:{b}]")) if a <= b <= len(items) else PANIC
                        return ("vec", items[lo[1]:min(hi[1], len(items))]) if hi[1] <= len(items) or hi[1] == 1 << 40 else PANIC
            if name in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut"):
                return args[0]
            if name in ("try_into", "into", "from", "try_from", "clone"):
                return agg("Ok", v) if name.startswith("try") else v
        if short.endswith("Range::rev") or v is not None and v[0] == "agg" and v[1] in ("Range", "RangeInclusive") and name in ("into_iter", "rev", "next", "iter"):
            f = dict(v[2])
            lo, hi = self.val(env, f["start"]), self.val(env, f["end"])
            if lo[0] == "i" and hi[0] == "i" and hi[1] - lo[1] < 70:
                items = tuple(("i", k) for k in range(lo[1], hi[1] + (1 if v[1] == "RangeInclusive" else 0)))
                if name == "next":
                    return [(agg("Some", items[0]) if items else agg("None"), self.upd(env, args[0], ("it", items[1:])))]
                return ("it", items[::-1] if name == "rev" else items)
        if v is not None and v[0] == "it" and name == "collect" and any(x.startswith(("std::result::Result<", "std::option::Option<")) for x in c.get("targs", [])[-1:]):
            xs = [self.val(env, x) for x in v[1]]
            if all(x[0] == "agg" and x[1] in ("Ok", "Err", "Some", "None") for x in xs):
                bad = next((x for x in xs if x[1] in ("Err", "None")), None)
                return bad if bad is not None else agg("Ok" if c["targs"][-1].startswith("std::result") else "Some", ("vec", tuple(x[2][0][1] for x in xs)))
            return TOP
        if v is not None and v[0] == "it":
            r = self.iterator(name, v, args, vs, env)
            if r is not None:
                return r
        # strings and their bytes
        if name in ("from_utf8_unchecked", "from_utf8", "from_utf8_lossy") and vs:
            w = self.whole(vs[-1][1]) if vs[-1][0] == "vec" else None
            if w is not None:
                return agg("Ok", w) if name == "from_utf8" else w
        if v is not None and (v in self.types or v[0] == "sym"):
            ty = self.types.get(v)
            if name == "len" and ty in (None, "str"):
                return self.len_of(v)
            if name in ("as_bytes", "into_bytes", "to_vec", "bytes") or name == "as_ref" and "[u8]" in targs:
                return ("vec", self.bytes(v))
        # cursors
        if short in ("Cursor::new",) or path.endswith("Cursor::<T>::new"):
            b = self.bytes(v)
            return ("cur", b) if b is not None else TOP
        if v is not None and v[0] == "cur":
            items = v[1]
            if name in ("write_all", "write", "write_u8", "write_u64", "write_u16", "write_u32"):
                if name == "write_u8":
                    add = (vs[1],)
                elif name == "write_u64":
                    add = (("be64" if "BigEndian" in targs else "unknown", vs[1]),)
                elif name.startswith("write_u"):
                    add = (("unknown", vs[1]),)
                else:
                    add = self.bytes(vs[1])
                if add is not None:
                    return [(agg("Ok", UNIT) if name != "write" else agg("Ok", length(add, self.size)), self.upd(env, args[0], ("cur", items + tuple(add))))]
            if name in ("into_inner",):
                return ("vec", items)
            if name in ("get_mut",):
                return args[0]
            if name in ("extend_from_slice",):
                add = self.bytes(vs[1])
                return [(UNIT, self.upd(env, args[0], ("cur", items + tuple(add))))] if add is not None else TOP
            if name == "flush":
                return agg("Ok", UNIT)
            if name in ("read_exact", "read"):
                buf = vs[1]
                if buf[0] == "vec":
                    n = length(buf[1], self.size)
                    got = self.take(items, n)
                    if got is None:
                        return [(agg("Err", sym("eof")), env)] if name == "read_exact" else [(agg("Ok", sym("some")), self.upd(env, args[1], ("vec", (("unknown", buf),))))]
                    e = self.upd(env, args[1], ("vec", got))
                    e = self.upd(e, args[0], ("cur", items[len(got):]))
                    return [(agg("Ok", UNIT if name == "read_exact" else n), e)]
            if name in ("read_u8", "read_u64"):
                if not items or items[0][0] == "short":
                    return agg("Err", sym("eof"))
                x = items[0]
                if name == "read_u8" and x[0] not in SEGS:
                    return [(agg("Ok", x), self.upd(env, args[0], ("cur", items[1:])))]
                if name == "read_u64" and x[0] == "be64" and "BigEndian" in targs:
                    return [(agg("Ok", x[1]), self.upd(env, args[0], ("cur", items[1:])))]
                return TOP
            if name in ("read_to_string", "read_to_end") and vs[1][0] == "vec":
                b = ("vec", vs[1][1] + items)
                w = self.whole(b[1]) if name == "read_to_string" else b
                e = self.upd(self.upd(env, args[1], w), args[0], ("cur", ()))
                return [(agg("Ok", length(items, self.size)), e)]
        if short == "io::read_to_string" or path.endswith("io::read_to_string"):
            if v is not None and v[0] == "cur":
                return [(agg("Ok", self.whole(v[1])), self.upd(env, args[0], ("cur", ())))] if args[0][0] == "ref" else agg("Ok", self.whole(v[1]))
        if short == "uuid::Uuid" or path.startswith("uuid::"):
            if name in ("as_bytes", "into_bytes", "as_ref", "to_bytes") and vs:
                b = self.bytes(v)
                return ("vec", b) if b else TOP
            if name in ("from_slice", "from_bytes", "from_bytes_ref") and v[0] == "vec":
                full = length(v[1], self.size) == ("i", 16)
                u = self.whole(v[1])
                return (agg("Ok", u) if full else agg("Err", sym("length"))) if name == "from_slice" else u
            if name in ("as_u128", "to_u128") and self.bytes(v):
                return ("vec", self.bytes(v))
            if name == "from_u128" and v[0] == "vec":
                return self.whole(v[1])
        if name in ("to_be_bytes",) and v is not None:
            return ("vec", v[1]) if v[0] == "vec" else ("vec", (("be64", v),))
        if name in ("to_be",) and v is not None:
            return v
        if name == "from_be_bytes" and v[0] == "vec" and len(v[1]) == 1 and v[1][0][0] == "be64":
            return v[1][0][1]
        if name in ("checked_add", "overflowing_add", "wrapping_add") and v[0] == "vec" and vs[1] == ("i", 1):
            x, over = self.inc(v[1])
            if x is not None:
                return (agg("None") if over else agg("Some", ("vec", x))) if name == "checked_add" else agg("", ("vec", x), boolean(over)) if name == "overflowing_add" else ("vec", x)
        if name in ("checked_add", "overflowing_add", "wrapping_add") and len(vs) == 2 and bounds(v) and bounds(vs[1]) and "u8" in path:
            hi, lo = bounds(v)[1] + bounds(vs[1])[1], bounds(v)[0] + bounds(vs[1])[0]
            if hi <= 255:
                s = ("i", hi) if hi == lo else self.arith("Add", v, vs[1])
                return agg("Some", s) if name == "checked_add" else agg("", s, FALSE) if name == "overflowing_add" else s
            if lo > 255:
                s = ("i", (hi - 256)) if hi == lo else sym("wrapped", v, vs[1])
                return agg("None") if name == "checked_add" else agg("", s, TRUE) if name == "overflowing_add" else s
        # hashers
        if short in ("DefaultHasher::new", "DefaultHasher::default"):
            return ("hasher", "DefaultHasher", ())
        if name == "default" and "DefaultHasher" in c.get("self", "") and "BuildHasher" not in c.get("self", ""):
            return ("hasher", "DefaultHasher", ())
        if v is not None and v[0] == "hasher" and name == "finish":
            return sym("finish", v)
        if len(vs) == 2 and vs[1][0] == "hasher" and name == "hash":
            return [(UNIT, self.upd(env, args[1], ("hasher", vs[1][1], vs[1][2] + (vs[0],))))]
        if name in ("try_from", "try_into") and v is not None and (v[0] == "i" or bounds(v) or self.small(v)):
            w = WIDTH.get((c.get("targs") or [""])[-1] if name == "try_into" else (c.get("targs") or [""])[0])
            b = bounds(v)
            if w is None or b and b[1] < 1 << w or w >= 8 and self.small(v):
                return agg("Ok", v)
        return super().model(path, name, short, args, vs, env, c)

    def special(self, path, name, short, args, vs, env, c):
        return None

    def refpath(self, ref, env, el):
        loc, p = self.loc(ref, env)
        return loc, p + (el,)

    def items(self, v):
        if v[0] in ("vec", "it"):
            return v[1]
        return self.bytes(v)

    def take(self, items, n):
        """the first parts of exactly n bytes"""
        k = 0
        for j in range(len(items) + 1):
            if length(items[:j], self.size) == n:
                return items[:j]
        return None

    def inc(self, items):
        items = list(items)
        if any(x[0] in SEGS for x in items):
            return None, False
        for k in range(len(items) - 1, -1, -1):
            b = bounds(items[k])
            if b is None:
                return None, False
            if b[1] < 255:
                items[k] = ("i", b[0] + 1) if b[0] == b[1] else self.arith("Add", items[k], ("i", 1))
                return tuple(items), False
            if b[0] < 255:
                return None, False
            items[k] = ("i", 0)
        return tuple(items), True

    def iterator(self, name, v, args, vs, env):
        items = v[1]
        if name in ("into_iter", "iter", "by_ref", "copied", "cloned", "fuse", "peekable"):
            return args[0] if name == "by_ref" else v
        if name == "next":
            return [(agg("Some", items[0]), self.upd(env, args[0], ("it", items[1:])))] if items else agg("None")
        if name == "next_back":
            return [(agg("Some", items[-1]), self.upd(env, args[0], ("it", items[:-1])))] if items else agg("None")
        if name == "peek":
            return agg("Some", items[0]) if items else agg("None")
        if name == "rev":
            return ("it", items[::-1])
        if name in ("skip", "take", "nth", "step_by") and vs[1][0] == "i":
            k = vs[1][1]
            if name == "nth":
                return [(agg("Some", items[k]) if k < len(items) else agg("None"), self.upd(env, args[0], ("it", items[k + 1:])))]
            return ("it", items[k:] if name == "skip" else items[:k] if name == "take" else items[::k])
        if name in ("last",):
            return agg("Some", items[-1]) if items else agg("None")
        if name in ("count", "len"):
            return ("i", len(items))
        if name == "enumerate":
            return ("it", tuple(agg("", ("i", k), x) for k, x in enumerate(items)))
        if name in ("chain",) and vs[1][0] in ("it", "vec"):
            return ("it", items + vs[1][1])
        if name == "zip" and vs[1][0] in ("it", "vec"):
            return ("it", tuple(agg("", a, b) for a, b in zip(items, vs[1][1])))
        if name == "map":
            return [(("it", rs), e) if PANIC not in rs else (PANIC, e) for rs, e in self.seq(args[1], items, env)]
        if name == "for_each":
            return [(UNIT, e) if PANIC not in rs else (PANIC, e) for rs, e in self.seq(args[1], items, env)]
        if name in ("fold", "try_fold"):
            outs = [(args[1], env)]
            for x in items:
                nxt = []
                for a, e in outs:
                    if a == PANIC or name == "try_fold" and a[0] == "agg" and a[1] in ("Err", "None"):
                        nxt.append((a, e))
                        continue
                    if name == "try_fold" and a[0] == "agg" and a[1] in ("Ok", "Some"):
                        a = a[2][0][1]
                    nxt += self.apply(args[2], [a, x], e)
                outs = nxt
            return outs
        if name == "try_for_each":
            outs = [(agg("Ok", UNIT), env)]
            for x in items:
                nxt = []
                for a, e in outs:
                    if a == PANIC or a[0] == "agg" and a[1] in ("Err", "None"):
                        nxt.append((a, e))
                    else:
                        nxt += self.apply(args[1], [x], e)
                outs = nxt
            return outs
        if name in ("flat_map", "flatten"):
            outs = []
            for rs, e in (self.seq(args[1], items, env) if name == "flat_map" else [(items, env)]):
                flat = ()
                for x in rs:
                    x = self.val(e, x)
                    b = self.items(x) if x[0] != "agg" else tuple(y for _, y in x[2]) if x[1] not in ("Err", "None") else ()
                    if b is None:
                        return None
                    flat += tuple(b)
                outs.append((("it", flat), e))
            return outs
        if name == "collect":
            return ("vec", items)
        if name == "sum":
            t = ("i", 0)
            for x in items:
                t = self.arith("Add", t, self.val(env, x)) if not (t[0] == "i" and self.val(env, x)[0] == "i") else ("i", t[1] + self.val(env, x)[1])
            return t
        if name in ("find", "position", "any", "all", "filter", "rposition", "rfind", "find_map", "filter_map", "take_while", "skip_while"):
            order = list(range(len(items)))
            if name.startswith("r"):
                order.reverse()
            outs, live = [], [((), env)]
            for k in order:
                nxt = []
                for kept, e in live:
                    todo = []
                    for x, e2 in self.apply(args[1], [items[k]], e):
                        if name in ("find_map", "filter_map"):
                            if x[0] != "agg":
                                return None
                        else:
                            if x not in (TRUE, FALSE):
                                todo += [(kept, FALSE, e2), (kept, TRUE, e2)]
                                continue
                            todo.append((kept, x, e2))
                            continue
                        todo.append((kept, x, e2))
                    for kept, x, e2 in todo:
                        if name in ("find_map", "filter_map"):
                            hit, val = x[1] == "Some", x[2][0][1] if x[2] else None
                        else:
                            hit, val = x == TRUE, items[k]
                        if name in ("filter", "filter_map"):
                            nxt.append((kept + ((val,) if hit else ()), e2))
                        elif name == "take_while":
                            if hit:
                                nxt.append((kept + (val,), e2))
                            else:
                                outs.append((("it", kept), e2))
                        elif name == "skip_while":
                            if hit:
                                nxt.append((kept, e2))
                            else:
                                outs.append((("it", items[k:]), e2))
                        elif name == "all":
                            if hit:
                                nxt.append((kept, e2))
                            else:
                                outs.append((FALSE, e2))
                        elif hit:
                            outs.append((TRUE if name == "any" else agg("Some", ("i", k)) if "position" in name else agg("Some", val), e2))
                        else:
                            nxt.append((kept, e2))
                live = nxt
            for kept, e in live:
                outs.append(((("it", kept) if name in ("filter", "filter_map", "take_while", "skip_while") else TRUE if name == "all" else FALSE if name == "any" else agg("None")), e))
            return outs
        return None
