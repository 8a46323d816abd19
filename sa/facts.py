"""Loads the MIR facts dumped by driver/main.rs and offers lookups and CFG helpers."""
import glob, json, os, re
from collections import defaultdict


def strip_generics(p):
    """std::collections::BTreeMap::<K, V, A>::remove -> std::collections::BTreeMap::remove"""
    out, i, n = [], 0, len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            depth, j = 0, i + 2
            while j < n:
                if p[j] == "<":
                    depth += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(p[i])
            i += 1
    return "".join(out)


_TY = re.compile(r"value: (.*), \.\. \}$")


def clean_ty(s):
    if not s:
        return ""
    m = _TY.search(s)
    if m:
        s = m.group(1)
    return re.sub(r"/#\d+", "", s)


def head_ty(s):
    """last path segment of the outermost type constructor, references stripped"""
    s = clean_ty(s).strip()
    while s.startswith("&"):
        s = re.sub(r"^&('\S+ )?(mut )?", "", s)
    s = s.split("<")[0]
    return s.split("::")[-1].strip()


class Fn:
    __slots__ = ("d", "id", "path", "name", "kind", "file", "line", "self_ty", "trait", "trait_default", "blocks",
                 "nargs", "locals", "parent", "succ", "pred", "reach", "_cd", "_loops", "crate", "coroutine", "isasync",
                 "from_expansion", "_pd", "vis", "traitref", "_err")

    def __init__(self, d, crate):
        self.d = d
        self.crate = crate
        self.id = d["id"]
        self.path = strip_generics(d.get("path", ""))
        self.name = d.get("name", "")
        self.kind = d["kind"]
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.self_ty = head_ty(d.get("self", ""))
        self.trait = d.get("trait", "").split("::")[-1].split("<")[0]
        self.traitref = clean_ty(d.get("traitref", ""))
        self.trait_default = d.get("trait_default", "").split("::")[-1].split("<")[0]
        self.nargs = d.get("args", 0)
        self.locals = d.get("locals", [])
        self.blocks = d.get("blocks", [])
        self.parent = d.get("parent", "")
        self.coroutine = d.get("coroutine", False)
        self.isasync = d.get("async", False)
        self.from_expansion = d.get("from_expansion", False)
        self.vis = d.get("vis", "")
        self._cd = self._loops = self._pd = self._err = None
        self.succ = None
        if self.blocks:
            unroll_arrays(self)
            sink_returns(self)

    def label(self):
        t = f"<{self.self_ty} as {self.trait}>::" if self.trait else (self.self_ty + "::" if self.self_ty else "")
        if self.name:
            return t + self.name
        return self.path.replace("indradb::", "")

    # ---- CFG on non-cleanup blocks
    def cfg(self):
        if self.succ is not None:
            return self.succ
        S = {}
        for i, b in enumerate(self.blocks):
            if b["c"]:
                continue
            S[i] = [t for t, _ in term_succ(b["t"])]
        reach, st = set(), [0]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(S.get(x, []))
        self.succ = {k: v for k, v in S.items() if k in reach}
        self.pred = defaultdict(list)
        for k, v in self.succ.items():
            for t in v:
                self.pred[t].append(k)
        self.reach = reach
        return self.succ


def moved_whole(rv):
    """x for an rvalue that is `move x`, or Ok / Some / Err of it"""
    if rv[0] == "use":
        o = rv[1]
    elif rv[0] == "agg" and rv[1] == "adt" and rv[2].split("::")[-1] in ("Option", "Result") and len(rv[5]) == 1:
        o = rv[5][0]
    else:
        return None
    return o[1][0] if o[0] == "move" and not o[1][1] else None


def mentions(o, acc):
    """locals whose places occur in a MIR fragment"""
    if isinstance(o, list):
        if len(o) == 2 and isinstance(o[0], int) and not isinstance(o[0], bool) and isinstance(o[1], list) and all(isinstance(y, list) for y in o[1]):
            acc.add(o[0])
        for y in o:
            mentions(y, acc)
    return acc


def rename(o, m):
    if isinstance(o, list):
        if len(o) == 2 and isinstance(o[0], int) and not isinstance(o[0], bool) and isinstance(o[1], list) and all(isinstance(y, list) for y in o[1]):
            return [m.get(o[0], o[0]), rename(o[1], m)]
        if len(o) == 2 and o[0] == "i" and isinstance(o[1], int):
            return ["i", m.get(o[1], o[1])]
        return [rename(y, m) for y in o]
    return o


def retarget(t, f):
    k = t[0]
    if k == "goto":
        return [k, f(t[1])] + t[2:]
    if k == "switch":
        return [k, t[1], [[v, f(b)] for v, b in t[2]], f(t[3])] + t[4:]
    if k == "drop":
        return [k, t[1], f(t[2])] + t[3:]
    if k == "call":
        return t[:4] + [f(t[4]) if t[4] is not None else None] + t[5:]
    if k == "assert":
        return t[:3] + [f(t[3])] + t[4:]
    if k == "yield":
        return t[:2] + [f(t[2])] + t[3:]
    return t


def callee_path(op):
    return str(op[1].get("dbg", "")) + " " + str(op[1].get("ty", "")) + " " + str(op[1].get("fn", "")) if op[0] == "const" and isinstance(op[1], dict) else ""


def unroll_arrays(fn):
    """`for x in [a, b] { body }` is read as `body[a]; body[b]`"""
    B = fn.blocks
    arrays = {}
    defs = {}
    for i, b in enumerate(B):
        if b["c"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and not s[1][1]:
                defs.setdefault(s[1][0], []).append(("s", s[2], i))
        if b["t"][0] == "call" and not b["t"][3][1]:
            defs.setdefault(b["t"][3][0], []).append(("t", b["t"], i))

    def one(x):
        return defs[x][0] if len(defs.get(x, ())) == 1 else None

    def elems(x, byref=False, n=0):
        """operands of the array literal the iterator local x runs over"""
        d = one(x)
        if d is None or n > 6:
            return None
        if d[0] == "t":
            p = callee_path(d[1][1])
            if "into_iter" in p or "iter::<impl" in p or "::iter" in p:
                a = d[1][2]
                if len(a) == 1 and a[0][0] in ("move", "copy") and not a[0][1][1]:
                    return elems(a[0][1][0], byref, n + 1)
            return None
        rv = d[1]
        if rv[0] == "agg" and rv[1] == "array" and 1 <= len(rv[5]) <= 4:
            return [(o, byref) for o in rv[5]]
        if rv[0] in ("use",) and rv[1][0] in ("move", "copy") and not rv[1][1][1]:
            return elems(rv[1][1][0], byref, n + 1)
        if rv[0] == "ref" and not rv[1] and not rv[2][1]:
            return elems(rv[2][0], True, n + 1)
        if rv[0] == "cast" and len(rv) > 2 and isinstance(rv[2], list) and rv[2] and rv[2][0] in ("move", "copy") and not rv[2][1][1]:
            return elems(rv[2][1][0], byref, n + 1)
        return None
    for _ in range(3):
        S = {i: [t for t, _ in term_succ(b["t"])] for i, b in enumerate(B) if not b["c"]}
        hit = None
        for h, b in enumerate(B):
            t = b["t"]
            if b["c"] or t[0] != "call" or len(t[2]) != 1 or t[2][0][0] not in ("move", "copy") or "Iterator>::next" not in callee_path(t[1]) or t[3][1] or t[4] is None:
                continue
            r = one(t[2][0][1][0])
            if not r or r[0] != "s" or r[1][0] != "ref" or r[1][2][1] or r[2] != h:
                continue
            it = r[1][2][0]
            es = elems(it)
            if es and not any(o[0] == "const" and br for o, br in es):
                hit = (h, es, it)
                break
        if not hit:
            return
        h, es, it = hit

        def reachable(st, stop=()):
            seen, st = set(), list(st)
            while st:
                x = st.pop()
                if x in seen or x in stop:
                    continue
                seen.add(x)
                st.extend(S.get(x, ()))
            return seen
        # natural loop of h
        body = {x for x in reachable(S[h], (h,)) if h in S.get(x, ()) or h in reachable(S.get(x, ()))} | {h}
        if not any(h in S.get(x, ()) for x in body):
            return
        tgt = B[h]["t"][4]
        nx = B[tgt]["t"]
        opt = B[h]["t"][3][0]
        if nx[0] != "switch":
            return
        none = [b for v, b in nx[2] if str(v) == "0"]
        if len(none) != 1:
            return
        tail = reachable(none, (h,))
        region = (body | reachable([x for y in body for x in S.get(y, ()) if x not in none], (h,) + tuple(none))) - tail
        region.add(h)
        if len(region) > 200 or any(x not in region and x not in tail for y in region for x in S.get(y, ())):
            return
        inside, outside = set(), set()
        for i, b in enumerate(B):
            if b["c"]:
                continue
            (mentions([b["s"], b["t"]], inside if i in region else outside))
        own = {x for x in inside - outside if x > fn.nargs and x != it}
        orig = {x: B[x] for x in region}
        first = None
        heads = []
        base = len(B)
        order = sorted(region)
        N = len(es)
        idx = {(x, k): (x if k == 0 else base + (k - 1) * len(order) + j) for k in range(N + 1) for j, x in enumerate(order)}
        new = {}
        for k in range(N + 1):
            m = {}
            if k:
                for x in own:
                    fn.locals.append(fn.locals[x])
                    m[x] = len(fn.locals) - 1
            for x in order:
                b = orig[x]
                ss = [rename(s, m) for s in b["s"]]
                t = retarget(rename(b["t"], m), lambda y: (idx[y, k] if y in region and y != h else idx[h, min(k + 1, N)] if y == h else y))
                if x == h:
                    line = b["t"][6] if len(b["t"]) > 6 else 0
                    o = m.get(opt, opt)
                    if k < N:
                        op, br = es[k]
                        if br:
                            fn.locals.append(["&", None])
                            ss.append(["=", [len(fn.locals) - 1, []], ["ref", False, op[1]], line])
                            op = ["move", [len(fn.locals) - 1, []]]
                        ss.append(["=", [o, []], ["agg", "adt", "std::option::Option", "Some", ["0"], [op]], line])
                    else:
                        ss.append(["=", [o, []], ["agg", "adt", "std::option::Option", "None", [], []], line])
                    t = ["goto", t[4], line]
                if x == tgt and t[0] == "switch":
                    dead = [b2 for v, b2 in t[2] if str(v) == "0"] if k < N else [b2 for v, b2 in t[2] if str(v) == "1"]
                    live = [b2 for v, b2 in t[2] if b2 not in dead]
                    if len(live) == 1:
                        t = ["goto", live[0], t[-1]]
                new[idx[x, k]] = {"c": False, "s": ss, "t": t}
        while len(B) < base + N * len(order):
            B.append(None)
        for i, b in new.items():
            B[i] = b
        # what is no longer reached goes
        seen, st = set(), [0]
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(t for t, _ in term_succ(B[x]["t"]))
        for i, b in enumerate(B):
            if not b["c"] and i not in seen:
                B[i] = {"c": True, "s": [], "t": ["unreachable"]}
        defs.clear()
        for i, b in enumerate(B):
            if b["c"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and not s[1][1]:
                    defs.setdefault(s[1][0], []).append(("s", s[2], i))
            if b["t"][0] == "call" and not b["t"][3][1]:
                defs.setdefault(b["t"][3][0], []).append(("t", b["t"], i))


def sink_returns(fn):
    """`let r = if c { a } else { b }; Ok(r)` is read as `if c { Ok(a) } else { Ok(b) }`: the assignment of the
    return value moves to the assignments of the local it takes, if each leads straight to it"""
    blocks = fn.blocks
    for _ in range(4):
        cand = [(i, si) for i, b in enumerate(blocks) if not b["c"] for si, s in enumerate(b["s"])
                if s[0] == "=" and s[1] == [0, []] and moved_whole(s[2]) is not None and moved_whole(s[2]) > fn.nargs]
        done = False
        for rb, si in cand:
            st = blocks[rb]["s"][si]
            x = moved_whole(st[2])
            if fn.locals[x][0] == "bool" and st[2][0] == "use":
                continue  # flags are followed by the condition analysis itself
            defs, uses, ok = [], 0, True

            def walk(o):
                n = 0
                if isinstance(o, list):
                    if len(o) == 2 and isinstance(o[0], int) and not isinstance(o[0], bool) and isinstance(o[1], list):
                        n += o[0] == x
                    for y in o:
                        n += walk(y)
                return n
            for i, b in enumerate(blocks):
                if b["c"]:
                    continue
                for sj, s in enumerate(b["s"]):
                    if s[0] == "=":
                        if s[1] == [x, []]:
                            defs.append((i, sj))
                        elif s[1][0] == x:
                            ok = False
                        uses += walk(s[2])
                    elif s[0] not in ("sd", "sl", "nop"):
                        uses += walk(s)
                t = b["t"]
                if t[0] == "call":
                    if t[3] == [x, []]:
                        defs.append((i, "t"))
                    elif t[3][0] == x:
                        ok = False
                    uses += walk(t[1]) + walk(t[2])
                elif t[0] == "switch":
                    uses += walk(t[1])
                elif t[0] == "yield":
                    uses += walk(t[1:])
            if not ok or uses != 1 or len({i for i, _ in defs}) < 2 or len(defs) != len({i for i, _ in defs}) or any(i == rb for i, _ in defs):
                continue
            if any(blocks[i]["t"][4] is None for i, k in defs if k == "t"):
                continue
            for i, k in defs:
                y, n = i, 0
                while ok and y != rb:
                    t = blocks[y]["t"]
                    n += 1
                    ss = [z for z, _ in term_succ(t)]
                    if len(ss) != 1 or t[0] not in ("goto", "drop", "call") or n > 40:
                        ok = False
                        break
                    y = ss[0]
                    if any(s[0] == "=" and s[1][0] == 0 for s in blocks[y]["s"] if y != rb) or any(s[0] == "=" and s[1][0] == 0 for s in blocks[rb]["s"][:si] if y == rb):
                        ok = False
            if not ok:
                continue
            del blocks[rb]["s"][si]
            for i, k in defs:
                if k == "t":
                    t = blocks[i]["t"]
                    blocks.append({"c": False, "s": [st], "t": ["goto", t[4], t[6] if len(t) > 6 else 0]})
                    t[4] = len(blocks) - 1
                else:
                    blocks[i]["s"].insert(k + 1, st)
            done = True
            break
        if not done:
            return


def term_succ(t):
    """[(target, label)] ignoring unwind edges; label None for unconditional"""
    k = t[0]
    if k == "goto":
        return [(t[1], None)]
    if k == "switch":
        r = [(b, v) for v, b in t[2]]
        r.append((t[3], "otherwise"))
        return r
    if k == "drop":
        return [(t[2], None)]
    if k == "call":
        return [(t[4], None)] if t[4] is not None else []
    if k == "assert":
        return [(t[3], None)]
    if k == "yield":
        return [(t[2], None)]
    return []


class Facts:
    def __init__(self, d):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.crates = []
        self.debug = None
        files = sorted(glob.glob(os.path.join(d, "*.json")))
        self.lost = []
        for f in files:
            if os.path.basename(f).startswith("_"):
                continue
            j = json.load(open(f))
            self.crates.append(j["crate"] + (".bin" if j["bin"] else ""))
            for fd in j["fns"]:
                if fd["kind"] == "lost":
                    self.lost.append(fd["id"])
                    continue
                fid = fd["id"]
                fn = Fn(fd, j["crate"])
                if j["bin"]:
                    pass
                self.fns[fid] = fn
            for a in j["adts"]:
                self.adts[a["path"]] = a
            for im in j["impls"]:
                im["crate"] = j["crate"]
                self.impls.append(im)
            for t in j["traits"]:
                self.traits[t["path"]] = t
        self.resolve_parse()

    def resolve_parse(self):
        """`s.parse::<T>()` is T::from_str, for the types of this repository"""
        own = {(f.crate, f.self_ty): f for f in self.fns.values() if f.kind == "fn" and f.name == "from_str" and f.trait == "FromStr"}
        if not own:
            return
        byname = {}
        for (_, ty), f in own.items():
            byname.setdefault(ty, []).append(f)
        for f in self.fns.values():
            for b in f.blocks:
                t = b["t"]
                if t[0] == "call" and t[1][0] == "const" and "fn" in t[1][1]:
                    c = t[1][1]["fn"]
                    if c["path"].endswith("str>::parse") and c.get("targs"):
                        to = byname.get(head_ty(c["targs"][0]), [])
                        if len(to) == 1:
                            c.update(path="std::str::FromStr::from_str", id=to[0].id, rid=to[0].id, trait="std::str::FromStr")

    def find(self, name=None, self_ty=None, trait=None, kind=None, crate=None, file=None, path_end=None):
        r = []
        for f in self.fns.values():
            if f.kind == "promoted":
                continue
            if name is not None and f.name != name:
                continue
            if self_ty is not None and f.self_ty != self_ty:
                continue
            if trait is not None and f.trait != trait:
                continue
            if kind is not None and f.kind != kind:
                continue
            if crate is not None and f.crate != crate:
                continue
            if file is not None and not f.file.endswith(file):
                continue
            if path_end is not None and not f.path.endswith(path_end):
                continue
            r.append(f)
        return r

    def one(self, **kw):
        r = self.find(**kw)
        r = [f for f in r if f.kind in ("fn",)] or r
        if len(r) != 1:
            return None
        return r[0]
