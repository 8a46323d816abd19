"""C38: how the RocksDB database is configured"""
import re
from core import prop
from facts import strip_generics
from absint import Stuck, TOP, TRUE, FALSE, UNIT, agg
from rules.compare import Compare
from rules.jsonval import pj
from values import sym

SO = (0, "options")
# what a setting does to stored data, whatever it is set to
ALWAYS = {
    "set_compaction_filter": "compactions drop what the filter drops", "set_compaction_filter_factory": "compactions drop what the filter drops",
    "set_fifo_compaction_options": "the oldest files are dropped", "set_comparator": "keys are not in the order of their bytes", "set_comparator_with_ts": "keys are not in the order of their bytes",
    "set_merge_operator": "values are merged", "set_merge_operator_associative": "values are merged", "add_merge_operator": "values are merged",
    "set_prefix_extractor": "scans past one prefix can miss keys", "set_plain_table_factory": "scans past one prefix can miss keys", "set_cuckoo_table_factory": "scans are not possible",
    "set_full_history_ts_low": "older values are dropped", "mem_env": "nothing reaches the disk",
    "set_iter_start_ts": "scans see other values", "set_timestamp": "reads see other values",
}
# settings that are harmful with this value only: name -> (harmless, harm)
FLAG = {
    "set_error_if_exists": (FALSE, "an existing database is refused"),
    "set_manual_wal_flush": (FALSE, "writes stay in memory until the log is flushed by hand"),
    "set_paranoid_checks": (TRUE, "corruption goes unnoticed"), "set_verify_checksums": (TRUE, "corruption goes unnoticed"),
    "set_unordered_write": (FALSE, "scans can see part of a batch"), "set_inplace_update_support": (FALSE, "scans see values change below them"),
    "disable_wal": (FALSE, "writes are lost in a crash"), "set_ignore_missing_column_families": (FALSE, "writes are dropped without an error"),
}
KIND = {
    "set_compaction_style": ({"Fifo"}, "the oldest files are dropped"),
    "set_wal_recovery_mode": ({"SkipAnyCorruptedRecord"}, "records are skipped when the log is replayed"),
    "set_checksum_type": ({"NoChecksum"}, "corruption goes unnoticed"),
    "set_read_tier": ({"BlockCache", "Memtable", "Persisted"}, "reads miss what is stored elsewhere"),
}
OPEN = {
    "write_without_wal": "writes are lost in a crash", "destroy": "the database is deleted", "drop_cf": "a table is deleted", "delete_file_in_range": "files are deleted", "delete_file_in_range_cf": "files are deleted",
    "set_options": None, "set_options_cf": None,
}
DESTROY = re.compile(r"fs::(remove_\w+|rename|write|copy|hard_link)$|File::(create|create_new|set_len)$|OpenOptions::open$")


def hidden(name):
    if "with_ttl" in name:
        return "what is older than the given time is dropped"
    if name.endswith(("read_only", "as_secondary")) and name.startswith("open"):
        return "changes are refused"
    return OPEN.get(name)


def const(o):
    """TRUE or FALSE of a constant operand"""
    if o[0] == "const":
        return {"1": TRUE, "0": FALSE}.get(str(o[1].get("int")), TOP)
    return TOP


class Options(Compare):
    def __init__(self, F):
        super().__init__(F)
        self.reached = set()
        self.set = []

    def intercept(self, fn, args, vs, env):
        self.reached.add(fn.id)
        return super().intercept(fn, args, vs, env)

    def special(self, path, name, short, args, vs, env, c):
        vs = [self.solidall(env, v) for v in vs]
        if name in ("default", "new") and not vs and ("rocksdb::Options" in str(c.get("self")) or str(c.get("rpath")).startswith("<rocksdb::Options")):
            return sym("opts")
        if vs and vs[0][0] == "sym" and vs[0][1] == "opts":
            if name in ("clone", "as_ref", "as_mut", "borrow", "borrow_mut", "deref", "deref_mut", "into", "to_owned"):
                return vs[0]
            if "rocksdb" in path:
                self.set.append((name, vs[1:]))
                return [(UNIT, self.upd(env, args[0], sym("opts", *vs[0][2], (name, tuple(vs[1:])))))]
        return super().special(path, name, short, args, vs, env, c)


def harm(name, args):
    if name in ALWAYS:
        return ALWAYS[name]
    if name in FLAG:
        good, what = FLAG[name]
        return None if args and args[0] == good else what
    if name in KIND:
        bad, what = KIND[name]
        v = args[0] if args else TOP
        return None if v[0] == "agg" and v[1] not in bad else what
    return None


@prop("C38")
def options(ctx, rep):
    """the default options, evaluated for a limit of open files and for none; every call that configures or opens RocksDB"""
    F = ctx.F
    f = F.one(name="get_options", crate="indradb")
    if f is None:
        rep.missing("RocksdbDatastore::get_options")
        return
    rep.analysed(f)
    reached = {f.id}
    n = sym("given", "limit")
    for what, arg, want in (("a limit", agg("Some", n), n), ("no limit", agg("None"), None)):
        A = Options(F)
        try:
            outs = [(A.solidall(e, v), e) for v, e in A.run(f, [arg], {})]
        except Stuck:
            outs = []
        rep.steps += A.steps
        reached |= A.reached
        if not outs:
            rep.missing(f"{f.label()} with {what}: not decided")
        for v, e in outs:
            if v[0] != "sym" or v[1] != "opts":
                rep.missing(f"{f.label()} with {what}: the options are {pj(v)[:80]}")
                continue
            last = {}
            for name, args in v[2]:
                last[name] = args
            made = last.get("create_if_missing", (FALSE,))[0]
            rep.check(made == TRUE, f"{f.file} get_options: create_if_missing", f"with {what}, get_options leaves create_if_missing at {pj(made)}: a new database cannot be opened; {f.file}", f"get_options with {what}: create_if_missing")
            got = last.get("set_max_open_files", (None,))[0]
            ok = got == want if want else got is None or got == ("i", -1)
            rep.check(ok, f"{f.file} get_options: open files with {what}", f"with {what}, get_options sets the limit of open files to {pj(got) if got else 'the default'}, it must be {'the one given' if want else 'the default'}; {f.file}", f"get_options with {what}: limit of open files")
            for name, args in last.items():
                rep.sites += 1
                h = harm(name, args)
                rep.check(h is None, f"{f.file} get_options: {name}", f"get_options: {name}({', '.join(pj(a)[:40] for a in args)}): {h}; {f.file}", f"get_options: {name}")
    # everything that configures or opens a database elsewhere
    for g in F.fns.values():
        if "/tests" in g.file or "bench" in g.file or not g.crate.startswith("indradb"):
            continue
        for b in g.blocks:
            t = b["t"]
            if t[0] != "call" or t[1][0] != "const" or "fn" not in t[1][1]:
                continue
            path = strip_generics(t[1][1]["fn"]["path"])
            if "/rdb/" in g.file and DESTROY.search(path):
                rep.check(False, f"{g.file}:{g.label()}: {path.split('::')[-1]}", f"{g.file}:{g.label()} calls {path}: files of the database are changed past RocksDB")
            if "rocksdb" not in path and "rocksdb" not in str(t[1][1].get("ty")).split("{")[-1]:
                continue
            name = path.split("::")[-1]
            rep.sites += 1
            at = f"{g.file}:{g.label()}"
            h = hidden(name)
            rep.check(h is None, f"{at}: {name}", f"{at} calls {name}: {h}", f"{at}: {name}")
            if g.id in reached:
                continue  # (evaluated above, with its values)
            args = t[2][1:] if len(t) > 2 and isinstance(t[2], list) else []
            if name in ALWAYS or name in FLAG:
                h = harm(name, [const(args[0])] if args else [])
                rep.check(h is None, f"{at}: {name}", f"{at} calls {name}: {h}", f"{at}: {name}")
            elif name in KIND:
                kinds = {s[2][3] for bb in g.blocks for s in bb.get("s", ()) if s[0] == "=" and s[2][0] == "agg" and len(s[2]) > 3}
                bad, what = KIND[name]
                rep.check(not (kinds & bad), f"{at}: {name}", f"{at} calls {name}: {what}", f"{at}: {name}")
