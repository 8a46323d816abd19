"""C22, C23, C30"""
U = "plugins/host/src/util.rs"
S = "proto/src/server.rs"
M = "server/src/main.rs"
C = "server/src/cli.rs"
D = "plugins/host/src/decl.rs"
N = "plugins/naive_vertex_count/src/lib.rs"
CASES = [
    # C23
    ("map no join", "bug", [(U, "    pool.join();\n", "")], ["C23"]),
    ("map last error", "bug", [(U, "                        if first_err.is_none() {\n                            *first_err = Some(err);\n                        }", "                        *first_err = Some(err);")], ["C23"]),
    ("map read error dropped", "bug", [(U, "                if first_err.is_none() {\n                    *first_err = Some(Error::IndraDB(err));\n                }", "                if first_err.is_none() {\n                    eprintln!(\"{err}\");\n                }\n                let _ = &mut first_err;")], ["C23"]),
    ("map break always", "bug", [(U, "if i % 1000 == 0 && first_err.lock().unwrap().is_some()", "if i % 1000 == 0 && first_err.lock().unwrap().is_none()")], ["C23"]),
    ("map skip every 1000th", "bug", [(U, "            // Break on error", "            continue;\n            // Break on error"), (U, "            break;\n", ""), (U, "if i % 1000 == 0 && first_err.lock().unwrap().is_some() {", "if i % 1000 == 0 && first_err.lock().unwrap().is_none() {")], ["C23"]),
    ("map panics ignored", "bug", [(U, "pool.panic_count() > 0", "pool.panic_count() > 1")], ["C23"]),
    ("map zero threads", "bug", [(U, "max(mapper.num_threads(), 1)", "max(mapper.num_threads(), 0)")], ["C23"]),
    ("map twice on error", "bug", [(U, "if let Err(err) = mapper.map(vertex) {", "if let Err(err) = mapper.map(vertex.clone()).or_else(|_| mapper.map(vertex)) {")], ["C23"]),
    ("map read error returns", "bug", [(U, "                if first_err.is_none() {\n                    *first_err = Some(Error::IndraDB(err));\n                }", "                if first_err.is_none() {\n                    return Err(Error::IndraDB(err));\n                }\n                *first_err = None;")], ["C23"]),
    ("map result by panic first", "bug", [(U, "    if first_err.is_some() {\n        Err", "    if first_err.is_some() && pool.panic_count() == 0 {\n        Err")], ["C23"]),
    ("naive count from 1", "bug", [(N, "AtomicU64::new(0)", "AtomicU64::new(1)")], ["C23"]),
    ("naive count error", "bug", [(N, "plugin::util::map(txn, mapper.clone())?;", "let _ = plugin::util::map(txn, mapper.clone());")], ["C23"]),
    ("map refactor helper", "ok", [(U, "/// Runs an operation on all", "fn note(slot: &Mutex<Option<Error>>, err: Error) {\n    let mut slot = slot.lock().unwrap();\n    slot.get_or_insert(err);\n}\n\n/// Runs an operation on all"),
        (U, "                        let mut first_err = first_err.lock().unwrap();\n                        if first_err.is_none() {\n                            *first_err = Some(err);\n                        }", "                        note(&first_err, err);"),
        (U, "                let mut first_err = first_err.lock().unwrap();\n                if first_err.is_none() {\n                    *first_err = Some(Error::IndraDB(err));\n                }", "                note(&first_err, err.into());")], ["C23"]),
    ("map refactor answer", "ok", [(U, "    let mut first_err = first_err.lock().unwrap();\n    if first_err.is_some() {\n        Err(first_err.take().unwrap())\n    } else if pool.panic_count() > 0 {\n        Err(Error::Other(\"the map operation panicked\".into()))\n    } else {\n        Ok(())\n    }",
        "    let err = first_err.lock().unwrap().take();\n    match err {\n        Some(err) => Err(err),\n        None if pool.panic_count() > 0 => Err(Error::Other(\"the map operation panicked\".into())),\n        None => Ok(()),\n    }")], ["C23"]),
    ("map refactor enumerate", "ok", [(U, "    let mut i = 0;\n", ""), (U, "    for vertex in unsafe { (*txn_ptr).all_vertices()? } {\n        i += 1;\n", "    let vertices = unsafe { (*txn_ptr).all_vertices()? };\n    for (i, vertex) in vertices.enumerate() {\n"), ], ["C23"]),
    ("map refactor while let", "ok", [(U, "    for vertex in unsafe { (*txn_ptr).all_vertices()? } {\n", "    let mut vertices = unsafe { (*txn_ptr).all_vertices()? };\n    while let Some(vertex) = vertices.next() {\n")], ["C23"]),
    ("map refactor if let", "ok", [(U, "pool.execute(move || {\n                    if let Err(err) = mapper.map(vertex) {", "pool.execute(move || {\n                    let outcome = mapper.map(vertex);\n                    if let Err(err) = outcome {")], ["C23"]),
    ("map refactor threads", "ok", [(U, "ThreadPool::new(max(mapper.num_threads(), 1))", "ThreadPool::new(mapper.num_threads().max(1))"), (U, "use std::cmp::max;\n", "")], ["C23"]),
    # C22
    ("load skip mismatch", "bug", [(S, "return Err(InitError::VersionMismatch {\n                    library_path,\n                    library_version_info: decl.version_info,\n                    indradb_version_info,\n                });", "eprintln!(\"skipping {}\", library_path.display());\n                continue;")], ["C22"]),
    ("load check interface only", "bug", [(S, "if decl.version_info != indradb_version_info", "if decl.version_info.plugin_interface != indradb_version_info.plugin_interface")], ["C22"]),
    ("load check lower", "bug", [(S, "if decl.version_info != indradb_version_info", "if decl.version_info.rustc != indradb_version_info.rustc || decl.version_info.plugin_interface > indradb_version_info.plugin_interface")], ["C22"]),
    ("load swap infos", "bug", [(S, "library_version_info: decl.version_info,\n                    indradb_version_info,", "library_version_info: indradb_version_info,\n                    indradb_version_info: decl.version_info,")], ["C22"]),
    ("load drop library", "bug", [(S, "            libraries.push(library);\n", "            if libraries.is_empty() {\n                libraries.push(library);\n            }\n")], ["C22"]),
    ("load replace entries", "bug", [(S, "plugin_entries.extend(decl.entries);", "plugin_entries = decl.entries;")], ["C22"]),
    ("load field order", "bug", [(S, "    entries: HashMap<String, Box<dyn indradb_plugin_host::Plugin>>,\n    // Kept to ensure libraries aren't dropped\n    _libraries: Vec<Library>,", "    // Kept to ensure libraries aren't dropped\n    _libraries: Vec<Library>,\n    entries: HashMap<String, Box<dyn indradb_plugin_host::Plugin>>,")], ["C22"]),
    ("load local order", "bug", [(S, "        let mut libraries = Vec::new();\n        let mut plugin_entries = HashMap::new();", "        let mut plugin_entries = HashMap::new();\n        let mut libraries = Vec::new();")], ["C22"]),
    ("load skip unloadable", "bug", [(S, "            let library = Library::new(&library_path)?;", "            let Ok(library) = Library::new(&library_path) else { continue };")], ["C22"]),
    ("glob skip unreadable", "bug", [(S, "        plugin_paths.push(entry?);", "        if let Ok(entry) = entry {\n            plugin_paths.push(entry);\n        }")], ["C22"]),
    ("glob first only", "bug", [(S, "        plugin_paths.push(entry?);", "        plugin_paths.push(entry?);\n        break;")], ["C22"]),
    ("run plugins plain server", "bug", [(S, "    let service = crate::indra_db_server::IndraDbServer::new(server);", "    let _ = server;\n    let service = crate::indra_db_server::IndraDbServer::new(Server::new(db2));"), (S, "    let server = Server::new_with_plugins(db, plugin_paths)?;", "    let db2 = db.clone();\n    let server = Server::new_with_plugins(db, plugin_paths)?;")], ["C22"]),
    ("version eq by hand", "bug", [(D, "#[derive(Debug, Eq, PartialEq)]\npub struct VersionInfo", "impl PartialEq for VersionInfo {\n    fn eq(&self, other: &Self) -> bool {\n        self.plugin_interface == other.plugin_interface\n    }\n}\n\nimpl Eq for VersionInfo {}\n\n#[derive(Debug)]\npub struct VersionInfo")], ["C22"]),
    ("load refactor insert", "ok", [(S, "plugin_entries.extend(decl.entries);", "for (name, plugin) in decl.entries {\n                plugin_entries.insert(name, plugin);\n            }")], ["C22"]),
    ("load refactor eq", "ok", [(S, "            if decl.version_info != indradb_version_info {\n                return Err(InitError::VersionMismatch {\n                    library_path,\n                    library_version_info: decl.version_info,\n                    indradb_version_info,\n                });\n            }\n\n            plugin_entries.extend(decl.entries);\n            libraries.push(library);",
        "            if decl.version_info == indradb_version_info {\n                plugin_entries.extend(decl.entries);\n                libraries.push(library);\n            } else {\n                return Err(InitError::VersionMismatch {\n                    library_path,\n                    library_version_info: decl.version_info,\n                    indradb_version_info,\n                });\n            }")], ["C22"]),
    ("load refactor helper", "ok", [(S, "impl<D: indradb::Datastore + Send + Sync + 'static> Server<D> {\n    /// Creates a new server.\n", "unsafe fn open(path: &PathBuf) -> Result<(Library, indradb_plugin_host::PluginDeclaration), InitError> {\n    let library = Library::new(path)?;\n    let decl = {\n        let func: libloading::Symbol<unsafe extern \"C\" fn() -> indradb_plugin_host::PluginDeclaration> =\n            library.get(b\"register\")?;\n        func()\n    };\n    Ok((library, decl))\n}\n\nimpl<D: indradb::Datastore + Send + Sync + 'static> Server<D> {\n    /// Creates a new server.\n"),
        (S, "            let library = Library::new(&library_path)?;\n\n            let func: libloading::Symbol<unsafe extern \"C\" fn() -> indradb_plugin_host::PluginDeclaration> =\n                library.get(b\"register\")?;\n            let decl = func();\n", "            let (library, decl) = open(&library_path)?;\n")], ["C22"]),
    ("load refactor local plugins", "ok", [(S, "        let mut libraries = Vec::new();\n        let mut plugin_entries = HashMap::new();\n", "        let mut plugins = Plugins::default();\n"), (S, "plugin_entries.extend(decl.entries);\n            libraries.push(library);", "plugins.entries.extend(decl.entries);\n            plugins._libraries.push(library);"), (S, "            plugins: Arc::new(Plugins {\n                _libraries: libraries,\n                entries: plugin_entries,\n            }),", "            plugins: Arc::new(plugins),")], ["C22"]),
    ("glob refactor collect", "ok", [(S, "    let mut plugin_paths = Vec::new();\n    for entry in glob::glob(plugin_path_pattern)? {\n        plugin_paths.push(entry?);\n    }\n", "    let plugin_paths = glob::glob(plugin_path_pattern)?.collect::<Result<Vec<_>, _>>()?;\n")], ["C22"]),
    ("run refactor shared", "ok", [(S, "    let service = crate::indra_db_server::IndraDbServer::new(Server::new(db));\n    let incoming = TcpListenerStream::new(listener);\n    TonicServer::builder()\n        .add_service(service)\n        .serve_with_incoming(incoming)\n        .await?;\n\n    Ok(())\n}", "    serve(Server::new(db), listener).await\n}\n\nasync fn serve<D>(server: Server<D>, listener: TcpListener) -> Result<(), TonicTransportError>\nwhere\n    D: indradb::Datastore + Send + Sync + 'static,\n{\n    let service = crate::indra_db_server::IndraDbServer::new(server);\n    let incoming = TcpListenerStream::new(listener);\n    TonicServer::builder()\n        .add_service(service)\n        .serve_with_incoming(incoming)\n        .await?;\n\n    Ok(())\n}")], ["C22", "C30"]),
    # C30
    ("start memory overwrites", "bug", [(M, "Some(path) if Path::new(path.as_os_str()).exists() => indradb::MemoryDatastore::read_msgpack_db(path)?,\n", "")], ["C30"]),
    ("start memory unreadable", "bug", [(M, "indradb::MemoryDatastore::read_msgpack_db(path)?,", "indradb::MemoryDatastore::read_msgpack_db(path.clone()).unwrap_or_else(|_| indradb::MemoryDatastore::create_msgpack_db(path)),")], ["C30"]),
    ("start memory inverted", "bug", [(M, "if Path::new(path.as_os_str()).exists()", "if !Path::new(path.as_os_str()).exists()")], ["C30"]),
    ("start no options", "bug", [(M, "                &path,\n                &indradb::RocksdbDatastore::get_options(Some(max_open_files)),\n            )", "                &path,\n                &indradb::RocksdbDatastore::get_options(None),\n            )")], ["C30"]),
    ("start repair then serve", "bug", [(M, "                println!(\"repair successful\");\n                return Ok(());\n", "                println!(\"repair successful\");\n")], ["C30"]),
    ("start repair ignored err", "bug", [(M, "                    .expect(\"Expected to be able to repair the RocksDB datastore\");", "                    .unwrap_or_else(|err| eprintln!(\"{err}\"));")], ["C30"]),
    ("start memory no plugins", "bug", [(M, "            };\n            run_server(datastore, listener, &args.plugin_path).await", "            };\n            run_server(datastore, listener, &None).await")], ["C30"]),
    ("start ignores serve error", "bug", [(M, "        proto::run_server(Arc::new(datastore), listener).await?;", "        let _ = proto::run_server(Arc::new(datastore), listener).await;")], ["C30"]),
    ("start other address", "bug", [(M, "    let addr = args.addr.to_socket_addrs()?.next().unwrap();\n    let listener = TcpListener::bind(addr).await?;", "    let addr = args.addr.to_socket_addrs()?.next().unwrap();\n    let listener = match TcpListener::bind(addr).await {\n        Ok(listener) => listener,\n        Err(_) => TcpListener::bind(\"127.0.0.1:0\").await?,\n    };")], ["C30"]),
    ("cli memory ignores path", "bug", [(C, "                CliDatastoreArgs::Memory {\n                    path: Some(path.to_os_string()),\n                }", "                CliDatastoreArgs::Memory {\n                    path: Some(path.to_os_string()).filter(|_| matches.is_present(ADDRESS)),\n                }")], ["C30"]),
    ("cli repair inverted", "bug", [(C, "repair: matches.is_present(ROCKSDB_REPAIR)", "repair: matches.is_present(ROCKSDB_MAX_OPEN_FILES)")], ["C30"]),
    ("cli default files", "bug", [(C, ".default_value(\"512\")", ".default_value(\"5\")")], ["C30"]),
    ("cli bad number", "bug", [(C, "value_t!(matches, ROCKSDB_MAX_OPEN_FILES, i32).unwrap_or_else(|e| e.exit())", "value_t!(matches, ROCKSDB_MAX_OPEN_FILES, i32).unwrap_or(-1)")], ["C30"]),
    ("cli plugins long", "bug", [(C, ".long(\"plugins\")", ".long(\"plugin\")")], ["C30"]),
    ("run drops result", "bug", [(S, "        .serve_with_incoming(incoming)\n        .await?;\n\n    Ok(())\n}\n\n/// Runs the IndraDB server with", "        .serve_with_incoming(incoming)\n        .await\n        .ok();\n\n    Ok(())\n}\n\n/// Runs the IndraDB server with")], ["C30"]),
    ("start refactor map", "ok", [(M, "            let datastore = match path {\n                None => indradb::MemoryDatastore::new_db(),\n                Some(path) if Path::new(path.as_os_str()).exists() => indradb::MemoryDatastore::read_msgpack_db(path)?,\n                Some(path) => indradb::MemoryDatastore::create_msgpack_db(path),\n            };", "            let datastore = if let Some(path) = path {\n                if Path::new(&path).exists() {\n                    indradb::MemoryDatastore::read_msgpack_db(path)?\n                } else {\n                    indradb::MemoryDatastore::create_msgpack_db(path)\n                }\n            } else {\n                indradb::MemoryDatastore::new_db()\n            };")], ["C30"]),
    ("start refactor options", "ok", [(M, "            if repair {", "            let options = indradb::RocksdbDatastore::get_options(Some(max_open_files));\n            if repair {"), (M, "&path, &indradb::RocksdbDatastore::get_options(Some(max_open_files)))\n", "&path, &options)\n"), (M, "                &path,\n                &indradb::RocksdbDatastore::get_options(Some(max_open_files)),\n            )\n            .expect(\"Expected to be able to create the RocksDB datastore\");", "                &path,\n                &options,\n            )?;")], ["C30"]),
    ("start refactor early", "ok", [(M, "    if let Some(plugin_path) = plugin_path {\n        unsafe {\n            proto::run_server_with_plugins(Arc::new(datastore), listener, plugin_path).await?;\n        }\n    } else {\n        proto::run_server(Arc::new(datastore), listener).await?;\n    }\n\n    Ok(())", "    let db = Arc::new(datastore);\n    match plugin_path.as_ref() {\n        None => proto::run_server(db, listener).await.map_err(|err| err.into()),\n        Some(pattern) => unsafe { Ok(proto::run_server_with_plugins(db, listener, pattern).await?) },\n    }")], ["C30"]),
    ("start refactor fn", "ok", [(M, "#[tokio::main]", "fn memory(path: Option<std::ffi::OsString>) -> Result<indradb::Database<indradb::MemoryDatastore>, Box<dyn Error>> {\n    match path {\n        None => Ok(indradb::MemoryDatastore::new_db()),\n        Some(path) if Path::new(&path).exists() => Ok(indradb::MemoryDatastore::read_msgpack_db(path)?),\n        Some(path) => Ok(indradb::MemoryDatastore::create_msgpack_db(path)),\n    }\n}\n\n#[tokio::main]"), (M, "            let datastore = match path {\n                None => indradb::MemoryDatastore::new_db(),\n                Some(path) if Path::new(path.as_os_str()).exists() => indradb::MemoryDatastore::read_msgpack_db(path)?,\n                Some(path) => indradb::MemoryDatastore::create_msgpack_db(path),\n            };\n", "            let datastore = memory(path)?;\n")], ["C30"]),
    ("cli refactor match", "ok", [(C, "            if let Some(path) = matches.value_of_os(MEMORY_PERSIST_PATH) {\n                CliDatastoreArgs::Memory {\n                    path: Some(path.to_os_string()),\n                }\n            } else {\n                CliDatastoreArgs::Memory { path: None }\n            }", "            CliDatastoreArgs::Memory {\n                path: matches.value_of_os(MEMORY_PERSIST_PATH).map(|path| path.to_os_string()),\n            }")], ["C30"]),
    ("cli refactor subcommand", "ok", [(C, "        datastore_args: if let Some(matches) = matches.subcommand_matches(\"memory\") {", "        datastore_args: if let (\"memory\", Some(matches)) = matches.subcommand() {")], ["C30"]),
    ("start refactor bind", "ok", [(M, "    let addr = args.addr.to_socket_addrs()?.next().unwrap();\n    let listener = TcpListener::bind(addr).await?;", "    let mut addrs = args.addr.to_socket_addrs()?;\n    let addr = addrs.next().ok_or(\"no address\")?;\n    let listener = TcpListener::bind(&addr).await?;")], ["C30"]),
]
