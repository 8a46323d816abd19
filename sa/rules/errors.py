"""No storage error is dropped on its way to the caller (a flow rule on each function's MIR)."""
import re
from core import *
from facts import clean_ty, term_succ, strip_generics

# error types that report a failure of the storage (or of what carries one)
STORAGE = ("errors::Error", "rocksdb::Error", "io::Error", "std::io::error::Error", "bincode::Error", "bincode::ErrorKind", "serde_json::Error", "rmp_serde::encode::Error",
           "rmp_serde::decode::Error", "PersistError", "tempfile::error", "Status", "ClientError", "JoinError", "indradb_plugin_host::Error", "InitError", "transport::Error")
LOSES = {"ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "map_or", "map_or_else", "is_ok_and", "iter", "into_iter", "or", "or_else", "is_some_and", "flatten"}
ASKS = {"is_ok", "is_err", "is_err_and"}
# predicates: (adaptors that drop or stop at an item for which the predicate is false)
PREDS = {"take_while", "filter", "map_while", "find", "all"}


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def err_of(ty):
    """the error type of a Result type, references stripped"""
    t = clean_ty(ty).strip()
    t = re.sub(r"^(&('\S+ )?(mut )?)+", "", t)
    m = re.match(r"^(?:std|core)::result::Result<(.*)>$", t, re.S)
    if not m:
        return None
    a = split_args(m.group(1))
    return a[1] if len(a) == 2 else None


def storage(e):
    """judged by the error type itself, not by what it carries; `Box<dyn Error>` counts"""
    if e is None:
        return False
    h = e.split("<")[0] if not e.startswith(("std::boxed::Box", "Box")) else e
    return any(re.search(r"(^|\W)" + re.escape(x) + r"($|\W)", h) for x in STORAGE)


def results_in(ty):
    """is there a Result with a storage error anywhere in this type?"""
    t = clean_ty(ty)
    for m in re.finditer(r"result::Result<", t):
        d, j = 1, m.end()
        while j < len(t) and d:
            if t[j] == "<":
                d += 1
            elif t[j] == ">" and t[j - 1] != "-":
                d -= 1
            j += 1
        a = split_args(t[m.end():j - 1])
        if len(a) == 2 and storage(a[1]):
            return True
    return False


def places(x):
    """operands and places in a statement/terminator: yields (place, mode)"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("move", "copy") and isinstance(x[1], list):
            yield x[1], x[0]
            return
        for y in x:
            yield from places(y)


class Flow:
    def __init__(self, fn):
        self.fn = fn
        fn.cfg()
        self.uses = {}     # local -> [(block, kind, proj, info)]
        self.defs = {}
        for b in sorted(fn.reach):
            bb = fn.blocks[b]
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                dst, rv = s[1], s[2]
                self.defs.setdefault(dst[0], []).append((b, rv, s[-1], dst[1]))
                if rv[0] == "discr":
                    self.use(b, "discr", rv[1], (dst[0], s[-1]))
                elif rv[0] in ("ref", "rawptr", "addr"):
                    p = next((y for y in rv[1:] if isinstance(y, list)), None)
                    if p is not None:
                        self.use(b, "ref", p, (dst[0], s[-1]))
                else:
                    for p, m in places(rv):
                        self.use(b, m, p, ("stmt", dst, s[-1]))
            t = bb["t"]
            if t[0] == "call":
                for i, o in enumerate(t[2]):
                    for p, m in places(o):
                        self.use(b, m, p, ("call", t, i))
                if t[3] is not None:
                    self.defs.setdefault(t[3][0], []).append((b, t, t[-1] if isinstance(t[-1], int) else 0, t[3][1]))
            elif t[0] == "switch":
                for p, m in places(t[1]):
                    self.use(b, m, p, ("switch", t))
            elif t[0] == "drop":
                pass
            elif t[0] == "yield":
                for p, m in places(t[1:]):
                    self.use(b, m, p, ("yield", t))

    def use(self, b, kind, place, info):
        self.uses.setdefault(place[0], []).append((b, kind, place[1], info))

    def reachable(self, b):
        r, st = set(), [b]
        while st:
            x = st.pop()
            if x in r:
                continue
            r.add(x)
            st.extend(self.fn.succ.get(x, []))
        return r


def callee(t):
    f = t[1]
    if f[0] == "const" and isinstance(f[1], dict) and "fn" in f[1]:
        return f[1]["fn"]
    return None


def scope(ctx):
    for f in ctx.F.fns.values():
        if f.kind in ("promoted", "const", "static") or not f.blocks or f.from_expansion:
            continue
        if f.crate in ("indradb", "indradb_proto", "indradb_server", "indradb_plugin_host", "indradb_plugin_naive_vertex_count", "indradb_plugin_hello_world"):
            if "/tests/" in f.file or "/benches/" in f.file:
                continue
            yield f


def where_(fn, line):
    return f"{fn.file}:{line} in {fn.label()}"


def tline(t):
    for x in reversed(t):
        if isinstance(x, int) and not isinstance(x, bool):
            return x
    return 0


def closures_in(ctx, ty):
    for m in re.finditer(r"closure@([^:}\s]+):(\d+):(\d+)", ty):
        for f in ctx.F.fns.values():
            if f.kind == "closure" and f.file == m.group(1) and f.line == int(m.group(2)):
                yield f


@prop("C06")
def dropped(ctx, rep):
    """every Result that may carry a storage error is propagated, turned into another error, or panics: none is discarded, replaced by a default or filtered away"""
    for fn in scope(ctx):
        fl = Flow(fn)
        n = 0
        ret = clean_ty(fn.locals[0][0]) if fn.locals else ""
        # 1. every local that holds such a Result
        for i, (ty, nm) in enumerate(fn.locals):
            if i == 0:
                continue
            full = storage(err_of(ty))
            inner = not full and results_in(ty)
            if not full and not inner:
                continue
            isref = clean_ty(ty).strip().startswith("&")
            uses = fl.uses.get(i, [])
            if full and not isref and i <= fn.nargs or full and not isref and i in fl.defs:
                n += 1
                one_local(ctx, rep, fn, fl, i, uses, ret)
            elif inner:
                # a Result inside of an Option, a tuple or a collection: look only at matches on it
                for b, kind, proj, info in uses:
                    if kind == "discr" and proj and is_result_discr(fn, b, info[0]):
                        n += 1
                        matched(ctx, rep, fn, fl, i, proj, b, info, uses)
        # 2. functions and adaptors that lose errors, passed by name or as closures
        for b in sorted(fn.reach):
            t = fn.blocks[b]["t"]
            if t[0] != "call":
                continue
            c = callee(t)
            cn = c["path"].split("::")[-1] if c else ""
            cn = strip_generics(c["path"]).split("::")[-1] if c else ""
            for o in t[2]:
                if o[0] == "const" and isinstance(o[1], dict) and "fn" in o[1]:
                    p = strip_generics(o[1]["fn"]["path"])
                    if "result::Result" in p and p.split("::")[-1] in (LOSES | ASKS) and results_in(o[1]["ty"]):
                        rep.check(False, f"{fn.label()}: {cn}(Result::{p.split('::')[-1]})", f"{where_(fn, tline(t))}: {cn}(Result::{p.split('::')[-1]}) drops storage errors")
            if cn in ("flatten", "flat_map") and c and "Iterator" in c["path"]:
                n += 1
                tys = " ".join([clean_ty(fn.locals[p[0]][0]) for o in t[2] for p, m in places(o)] + ([clean_ty(fn.locals[t[3][0]][0])] if t[3] else []))
                bad = results_in(tys) and "result::Result<" in tys.split("Flatten<")[-1][:40]
                for cl in closures_in(ctx, tys):
                    if storage(err_of(cl.locals[0][0])) and (cn == "flatten" or cl.line == fn.line):
                        bad = True
                rep.check(not bad, f"{fn.label()}: {cn} over results", f"{where_(fn, tline(t))}: {cn} over results drops storage errors")
        # 3. predicates on borrowed results: an error passes
        if fn.kind == "closure" and fn.nargs >= 2 and ret == "bool":
            for i in range(2, fn.nargs + 1):
                ty = clean_ty(fn.locals[i][0]).strip()
                if ty.startswith("&") and storage(err_of(ty)):
                    n += 1
                    predicate(ctx, rep, fn, fl, i)
        if n:
            rep.analysed(fn)
            rep.sites += n


def is_result_discr(fn, b, dst):
    for s in fn.blocks[b]["s"]:
        if s[0] == "=" and s[1][0] == dst and s[2][0] == "discr":
            return s[2][2].endswith("result::Result")
    return False


def defined_by(fl, i):
    for b, rv, line, proj in fl.defs.get(i, []):
        if rv[0] == "call":
            c = callee(rv)
            if c:
                return c["path"]
    return ""


def pred_closure(fn):
    return fn.kind == "closure" and clean_ty(fn.locals[0][0]) == "bool" and any(clean_ty(t).strip().startswith("&") and storage(err_of(t)) for t, _ in fn.locals[2:fn.nargs + 1])


def kept(fn, fl, i, only, seen=None):
    """is the error in local i handed on (moved, wrapped, formatted into something), not just printed or dropped?"""
    seen = seen or set()
    if i in seen:
        return False
    seen.add(i)
    if i == 0:
        return True
    prints = formats = False
    for b in only:
        t = fn.blocks[b]["t"]
        if t[0] == "call":
            c = callee(t)
            p = strip_generics(c["path"]) if c else ""
            if p.endswith(("_print", "_eprint")):
                prints = True
            elif p.endswith("fmt::format"):
                formats = True
    for b, k, proj, info in fl.uses.get(i, []):
        if k in ("move", "copy"):
            if info[0] == "stmt":
                if any(x[0] == "d" for x in info[1][1]) or kept(fn, fl, info[1][0], only, seen):
                    return True
            elif info[0] == "call":
                c = callee(info[1])
                p = strip_generics(c["path"]) if c else ""
                if p.endswith("mem::drop"):
                    continue
                if "fmt::" in p and p.split("::")[-1].startswith(("new_", "from_")) or "fmt::rt" in p:
                    if prints and not formats:
                        continue
                return True
            else:
                return True
        elif k == "ref":
            if kept(fn, fl, info[0], only, seen):
                return True
    return False


def nice(fl, fn, i):
    d = strip_generics(defined_by(fl, i)).split("::")
    return "::".join(d[-2:]) if d and d[0] else (fn.locals[i][1] or f"argument {i}")


def one_local(ctx, rep, fn, fl, i, uses, ret):
    what = nice(fl, fn, i)
    if what.endswith("::open_cf") or what.endswith("open_cf_with_opts"):
        return    # the fallback of opening: a database that cannot be opened is created, and errors of that are reported
    whole = [u for u in uses if u[1] in ("move", "copy") and not u[2]]
    for b, k, proj, info in whole:
        if info[0] == "call":
            l = losing(fn, info[1])
            if l == "map_or" and pred_closure(fn) and str(info[1][2][1]).find("'dbg': 'true'") >= 0:
                continue
            if l and info[2] == 0:
                if l in ("unwrap_or_else", "map_or_else", "or_else") and closure_uses_error(ctx, info[1]):
                    continue
                rep.check(False, f"{fn.label()}: {l} on {what}", f"{where_(fn, tline(info[1]))}: `{l}` on the result of {what} drops a storage error")
                return
    if uses and not fn.coroutine:
        alluses = {u[0] for u in uses}
        for b, rv, line, proj in fl.defs.get(i, []):
            if proj or rv[0] == "agg" or b not in fn.reach:
                continue
            if rv[0] != "call" and any(u[0] == b for u in uses):
                continue
            past = ended(fn, fl, b, rv)
            for n in fn.succ.get(b, []):
                l = lost(fn, fl, n, alluses | past, i)
                rep.check(l is None, f"{fn.label()}: the result of {what} is not looked at on a path", f"{where_(fn, line)}: the result of {what} is not looked at on some path", f"{fn.label()}: {what} on each path")
    discr = [u for u in uses if u[1] == "discr" and not u[2]]
    for b, k, proj, info in discr:
        matched(ctx, rep, fn, fl, i, [], b, info, uses)
    # references: followed one step
    asked = False
    escapes = False
    for b, k, proj, info in uses:
        if k == "ref" and not proj:
            r = info[0]
            for b2, k2, proj2, info2 in fl.uses.get(r, []):
                if info2[0] == "call" and k2 in ("move", "copy"):
                    c = callee(info2[1])
                    cn = strip_generics(c["path"]).split("::")[-1] if c else ""
                    if cn in ASKS:
                        asked = True
                    else:
                        escapes = True
                elif k2 == "discr":
                    matched(ctx, rep, fn, fl, r, [["d", ""]], b2, info2, fl.uses.get(r, []))
                    escapes = True
                else:
                    escapes = True
    if not uses and fn.kind == "closure" and i <= fn.nargs and counts(ctx, fn):
        return    # items counted by hand, as `count()` does, in an operation that answers a number
    errpay = any(proj and proj[0][0] == "v" and proj[0][2] == "Err" for b, k, proj, info in uses)
    rep.check(bool(whole) or bool(discr) or escapes or errpay, f"{fn.label()}: the result of {what} is " + ("only asked whether it failed" if asked else "discarded"),
              f"{fn.file} in {fn.label()}: the result of {what} is " + ("only asked whether it failed: the error itself is lost" if asked else "never looked at"),
              f"{fn.label()}: {what}")


def counts(ctx, fn):
    while fn is not None and fn.kind != "fn":
        fn = ctx.F.fns.get(fn.parent)
    return fn is not None and fn.trait == "Transaction" and clean_ty(fn.locals[0][0]) in ("u64", "usize")


def losing(fn, t):
    c = callee(t)
    if not c:
        return None
    p = strip_generics(c["path"])
    n = p.split("::")[-1]
    if n in LOSES and ("result::Result" in p or "IntoIterator" in p and n == "into_iter"):
        return n
    if n == "drop" and "mem" in p:
        return "drop"
    return None


def closure_uses_error(ctx, t):
    for o in t[2][1:]:
        ids = []
        if o[0] == "const" and isinstance(o[1], dict) and "fn" in o[1]:
            return False
        for p, m in places(o):
            pass
        c = callee(t)
        ids = c.get("closures", []) if c else []
        for x in ids:
            f = ctx.F.fns.get(x)
            if f is not None and f.nargs >= 2:
                fl = Flow(f)
                if fl.uses.get(2):
                    return True
    return False


def only_drops(fn, b, i):
    """whether the switch at the end of block b decides nothing but which parts of local i are dropped"""
    t = fn.blocks[b]["t"]
    if t[0] != "switch":
        return False
    dropped, seen, ends = False, set(), set()
    todo = [x for _, x in t[2]] + [t[3]]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        k = fn.blocks[x]["t"]
        if k[0] == "unreachable" and not fn.blocks[x]["s"]:
            continue
        if fn.blocks[x]["s"] or k[0] not in ("switch", "drop", "goto"):
            ends.add(x)
            continue
        if k[0] == "drop":
            if k[1][0] != i:
                ends.add(x)
                continue
            dropped = True
        todo += [k[2]] if k[0] == "drop" else fn.succ.get(x, [])
    return dropped and len(ends) == 1


def matched(ctx, rep, fn, fl, i, proj, b, info, uses):
    """a match on the Result at (local i, proj): on the Err side the payload, or the whole value, must be used"""
    disc = info[0]
    errs = []
    for b2 in sorted(fn.reach):
        t = fn.blocks[b2]["t"]
        if t[0] == "switch" and any(p[0] == disc for p, m in places(t[1])):
            if only_drops(fn, b2, i) and any(u[1] == "discr" and u[2] == proj and u[0] != b and not only_drops(fn, u[0], i) for u in uses):
                continue  # what the compiler adds after a match that moves parts out of the value
            labels = {v: tgt for v, tgt in t[2]}
            errs.append(labels.get("1", t[3]))
    for e in errs:
        reach = fl.reachable(e)
        ok = False
        used = set()
        for b3, k, pr, inf in uses:
            if b3 not in reach:
                continue
            if k in ("move", "copy", "ref") and (pr[:len(proj)] == proj) and (len(pr) == len(proj) or pr[len(proj)][0] == "v" and pr[len(proj)][2] == "Err" or pr[len(proj)][0] == "d"):
                dst = inf[0] if k == "ref" else inf[1][0] if inf[0] == "stmt" and not any(x[0] == "d" for x in inf[1][1]) else None
                if dst is None or kept(fn, fl, dst, reach):
                    ok = True
                    used |= {b3} if dst is None else uses_of(fn, fl, dst)
            elif k in ("move", "copy") and not pr:
                ok = True
                used.add(b3)
        # an arm that never returns (panics) does not drop anything
        dead = not any(fn.blocks[x]["t"][0] in ("return",) for x in reach)
        # a borrowed result is judged by what the predicate returns
        pred = fn.kind == "closure" and clean_ty(fn.locals[0][0]) == "bool" and i <= fn.nargs and clean_ty(fn.locals[i][0]).strip().startswith("&")
        what = nice(fl, fn, i)
        if ok and not dead and not pred:
            line = lost(fn, fl, e, used, i)
            rep.check(line is None, f"{fn.label()}: the error of {what} is ignored on a path of a match", f"{where_(fn, line or info[1])}: the Err case of {what} ignores the error on some path", f"{fn.label()}: match on {what} handles Err on each path")
        rep.check(ok or dead or pred, f"{fn.label()}: the error of {what} is ignored in a match", f"{where_(fn, info[1])}: the Err case of {what} ignores the error", f"{fn.label()}: match on {what} handles Err")


def uses_of(fn, fl, i, seen=None):
    """blocks where the error in local i is handed on"""
    seen = seen if seen is not None else set()
    if i in seen:
        return set()
    seen.add(i)
    out = set()
    for b, k, proj, info in fl.uses.get(i, []):
        if k in ("move", "copy"):
            if info[0] == "stmt" and not any(x[0] == "d" for x in info[1][1]) and info[1][0] != 0:
                out |= uses_of(fn, fl, info[1][0], seen)
            elif info[0] == "call" and strip_generics((callee(info[1]) or {"path": ""})["path"]).endswith("mem::drop"):
                continue
            else:
                out.add(b)
        elif k == "ref":
            out |= uses_of(fn, fl, info[0], seen)
    return out


def recorded(fn, b):
    """does this block ask whether an error is recorded already?"""
    t = fn.blocks[b]["t"]
    tys = [clean_ty(fn.locals[s[2][1][0]][0]) for s in fn.blocks[b]["s"] if s[0] == "=" and s[2][0] == "discr"]
    if t[0] == "call":
        c = callee(t)
        if c and strip_generics(c["path"]).split("::")[-1] in ("is_none", "is_some", "get_or_insert", "get_or_insert_with", "or", "insert"):
            tys += [clean_ty(fn.locals[p[0]][0]) for o in t[2] for p, m in places(o)]
    return any("option::Option<" in x and any(re.search(r"option::Option<[^<>]*" + re.escape(y.split("::")[-1]), x) for y in STORAGE) for x in tys)


def fails(fn, b):
    """does this block make the function's result an error?"""
    t = fn.blocks[b]["t"]
    if t[0] == "call" and t[3] is not None and t[3][0] == 0:
        c = callee(t)
        return bool(c) and strip_generics(c["path"]).endswith("from_residual")
    return any(s[0] == "=" and s[1][0] == 0 and s[2][0] == "agg" and "Err" in str(s[2][1:3]) for s in fn.blocks[b]["s"])


def ended(fn, fl, b, rv):
    """the blocks past the end of the loop whose item this is: an item that is pulled there and then left is as good as not pulled"""
    if rv[0] != "use" or rv[1][0] not in ("move", "copy") or not rv[1][1][1]:
        return set()
    for nb, call, _, proj in fl.defs.get(rv[1][1][0], []):
        if call[0] != "call" or proj or not (callee(call) or {"path": ""})["path"].endswith("Iterator::next") or call[2][0][0] not in ("move", "copy"):
            continue
        r = call[2][0][1][0]
        for _ in range(3):  # (through the reborrows)
            src = [d[1] for d in fl.defs.get(r, [])]
            if len(src) != 1 or src[0][0] not in ("ref", "use"):
                break
            p = src[0][2] if src[0][0] == "ref" else src[0][1][1]
            r = p[0]
            if src[0][0] == "ref" and not p[1]:
                break
        if clean_ty(fn.locals[r][0]).lstrip().startswith("&") or len(fl.uses.get(r, [])) != 1:
            return set()
        fresh = {d[0] for d in fl.defs.get(r, [])}
        back, st = {nb}, [nb]
        while st:
            for q in fn.pred.get(st.pop(), []):
                if q not in back and q not in fresh:
                    back.add(q)
                    st.append(q)
        return set(fn.reach) - back - fresh
    return set()


def lost(fn, fl, start, used, i):
    """the line where a path from `start` returns, or comes to the next such value, without any of the blocks `used`"""
    again = {b for b, rv, line, proj in fl.defs.get(i, []) if not proj}
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b in seen or b in used or recorded(fn, b) or fails(fn, b):
            continue
        seen.add(b)
        t = fn.blocks[b]["t"]
        if t[0] == "return" or b in again:
            return tline(t) or fn.line
        st.extend(fn.succ.get(b, []))
    return None


def predicate(ctx, rep, fn, fl, i):
    """whenever the predicate is false, its argument is not an error"""
    from engine import Analysis, mk
    from cond import Cond, CondTooBig
    A = Analysis(ctx.F)
    r = mk("param", "item")
    A.run(fn, {k: (r if k == i else mk("param", f"p{k}")) for k in range(1, fn.nargs + 1)})
    try:
        d = Cond(A).returns(next(fr.id for fr in A.frames.values() if fr.parent is None), False)
    except CondTooBig:
        d = ()
    ok = all((mk("is", r, "R"), "Y") in c or any(a.op == "is" and a.a[0] is r and l == "Y" for a, l in c) for c in d)
    rep.check(ok, f"{fn.label()}: the predicate rejects an error", f"{fn.file}:{fn.line} in {fn.label()}: the predicate of an iterator adaptor is not true for an error, so the error is dropped or ends the iteration silently", f"{fn.label()}: errors pass the predicate")
