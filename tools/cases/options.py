"""RocksDB options (C38)"""
RDB, MGR = 'lib/src/rdb/datastore.rs', 'lib/src/rdb/managers.rs'
CASES = []


def bad(name, *edits):
    CASES.append((name, "bug", list(edits), ["C38"]))


def ok(name, *edits):
    CASES.append((name, "ok", list(edits), ["C38"]))


L = "        opts.set_compaction_style(DBCompactionStyle::Level);\n"
M = '''        if let Some(max_open_files) = max_open_files {
            opts.set_max_open_files(max_open_files);
        }
'''
bad("fifo", (RDB, "DBCompactionStyle::Level", "DBCompactionStyle::Fifo"))
ok("universal", (RDB, "DBCompactionStyle::Level", "DBCompactionStyle::Universal"))
bad("no create", (RDB, "opts.create_if_missing(true);", "opts.create_if_missing(false);"))
bad("no create call", (RDB, "        opts.create_if_missing(true);\n", ""))
bad("create if limited", (RDB, "opts.create_if_missing(true);", "opts.create_if_missing(max_open_files.is_some());"))
bad("limit dropped", (RDB, M, "        let _ = max_open_files;\n"))
bad("limit clamped", (RDB, "opts.set_max_open_files(max_open_files);", "opts.set_max_open_files(max_open_files.min(256));"))
bad("limit default", (RDB, M, "        opts.set_max_open_files(max_open_files.unwrap_or(512));\n"))
ok("limit unwrap_or", (RDB, M, "        opts.set_max_open_files(max_open_files.unwrap_or(-1));\n"))
ok("limit match", (RDB, M, '''        match max_open_files {
            Some(limit) => opts.set_max_open_files(limit),
            None => {}
        }
'''))
ok("limit first", (RDB, M, ""), (RDB, L, M + L))
bad("limit positive", (RDB, "        if let Some(max_open_files) = max_open_files {", "        if let Some(max_open_files) = max_open_files.filter(|n| *n > 0) {"))
bad("filter", (RDB, L, L + '        opts.set_compaction_filter("empty", |_, _, value| if value.is_empty() { rocksdb::CompactionDecision::Remove } else { rocksdb::CompactionDecision::Keep });\n'))
bad("prefix", (RDB, L, L + "        opts.set_prefix_extractor(rocksdb::SliceTransform::create_fixed_prefix(16));\n"))
bad("paranoid", (RDB, L, L + "        opts.set_paranoid_checks(false);\n"))
ok("paranoid on", (RDB, L, L + "        opts.set_paranoid_checks(true);\n"))
bad("recovery", (RDB, L, L + "        opts.set_wal_recovery_mode(rocksdb::DBRecoveryMode::SkipAnyCorruptedRecord);\n"))
ok("recovery absolute", (RDB, L, L + "        opts.set_wal_recovery_mode(rocksdb::DBRecoveryMode::AbsoluteConsistency);\n"))
bad("manual flush helper", (RDB, L, L + "        tune(&mut opts);\n"), (RDB, "/// A datastore that is backed by rocksdb.", '''fn tune(opts: &mut Options) {
    opts.set_manual_wal_flush(true);
}

/// A datastore that is backed by rocksdb.'''))
ok("tune helper", (RDB, L, "        set_compaction(&mut opts, DBCompactionStyle::Level);\n"), (RDB, "/// A datastore that is backed by rocksdb.", '''fn set_compaction(opts: &mut Options, style: DBCompactionStyle) {
    opts.set_compaction_style(style);
}

/// A datastore that is backed by rocksdb.'''))
bad("wal off", (RDB, '''            self.vertex_property_manager
                .delete(&mut batch, &indexed_properties, id, name)?;
        }

        self.db.write(batch)?;
''', '''            self.vertex_property_manager
                .delete(&mut batch, &indexed_properties, id, name)?;
        }

        let mut how = rocksdb::WriteOptions::default();
        how.disable_wal(true);
        self.db.write_opt(batch, &how)?;
'''))
ok("wal on", (RDB, '''            self.vertex_property_manager
                .delete(&mut batch, &indexed_properties, id, name)?;
        }

        self.db.write(batch)?;
''', '''            self.vertex_property_manager
                .delete(&mut batch, &indexed_properties, id, name)?;
        }

        let mut how = rocksdb::WriteOptions::default();
        how.set_sync(true);
        self.db.write_opt(batch, &how)?;
'''))
bad("ttl", (RDB, "DB::open_cf(opts, path, CF_NAMES)", "DB::open_cf_with_ttl(opts, path, CF_NAMES, std::time::Duration::from_secs(1 << 31))"))
ok("more options", (RDB, L, L + "        opts.set_max_background_jobs(4);\n        opts.increase_parallelism(4);\n        opts.set_bytes_per_sync(1 << 20);\n"))
bad("start over", (RDB, "let db = match DB::open_cf(opts, path, CF_NAMES) {", """let db = match DB::open_cf(opts, path, CF_NAMES) {
            Err(err) if err.kind() == rocksdb::ErrorKind::Corruption => {
                std::fs::remove_dir_all(path)?;
                return Self::new_db_with_options(path, opts);
            }"""))
