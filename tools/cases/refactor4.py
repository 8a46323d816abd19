"""More edits that keep the behaviour: wire, models, plugins, programs"""
SRV, CLI, CONV = 'proto/src/server.rs', 'proto/src/client.rs', 'proto/src/converters.rs'
UTIL, JSON, IDENT, QRY, ERR, PR = 'lib/src/util.rs', 'lib/src/models/json.rs', 'lib/src/models/identifiers.rs', 'lib/src/models/queries.rs', 'lib/src/errors.rs', 'lib/src/models/properties.rs'
MGR, RDB = 'lib/src/rdb/managers.rs', 'lib/src/rdb/datastore.rs'
CASES = []


def ok(name, *edits):
    CASES.append((name, "ok", list(edits), []))


ok("cli get while match", (CLI, '''        while let Some(res) = res.next().await {
            output.push(res?.try_into()?);
        }
        Ok(output)
''', '''        loop {
            let message = match res.next().await {
                Some(message) => message?,
                None => return Ok(output),
            };
            output.push(indradb::QueryOutputValue::try_from(message)?);
        }
'''), (CLI, "use std::convert::TryInto;", "use std::convert::{TryFrom, TryInto};"))
ok("cli set inline", (CLI, '''        let name: crate::Identifier = name.into();
        let value: crate::Json = value.clone().into();
        let req = Request::new(crate::SetPropertiesRequest {
            q: Some(q.into().into()),
            name: name.into(),
            value: value.clone().into(),
        });
        self.0.set_properties(req).await?;
''', '''        let q: indradb::Query = q.into();
        self.0
            .set_properties(crate::SetPropertiesRequest {
                q: Some(q.into()),
                name: Some(name.into()),
                value: Some(value.clone().into()),
            })
            .await?;
'''))
ok("cli bulk shared rename", (CLI, '''        let mut last_err = last_err.lock().unwrap();
        if last_err.is_some() {
            Err(last_err.take().unwrap())
        } else {
            Ok(())
        }
''', '''        let failure = last_err.lock().unwrap().take();
        match failure {
            None => Ok(()),
            Some(err) => Err(err),
        }
'''))
ok("cli bulk break", (CLI, '''                    if let Err(err) = tx.send(item.into()).await {
                        *last_err.lock().unwrap() = Some(err.into());
                        return;
                    }
''', '''                    let sent = tx.send(item.into()).await;
                    if let Err(err) = sent {
                        last_err.lock().unwrap().replace(err.into());
                        break;
                    }
'''))
ok("cli plugin map_or", (CLI, '''        match res.into_inner().value {
            Some(value) => Ok(value.try_into()?),
            None => Ok(indradb::Json::new(serde_json::Value::Null)),
        }
''', '''        let Some(value) = res.into_inner().value else {
            return Ok(indradb::Json::new(serde_json::Value::Null));
        };
        Ok(value.try_into()?)
'''))
ok("srv get if let", (SRV, '''        let handle = tokio::task::spawn_blocking(move || match map_indradb_result(db.get(q)) {
            Ok(output) => {
                for output in output.into_iter() {
                    send(&tx, Ok(output.into()));
                }
            }
            Err(err) => send(&tx, Err(err)),
        });
''', '''        let handle = tokio::task::spawn_blocking(move || {
            let result = map_indradb_result(db.get(q));
            if let Err(err) = result {
                send(&tx, Err(err));
                return;
            }
            for value in result.unwrap() {
                send(&tx, Ok(value.into()));
            }
        });
'''))
ok("srv get for_each", (SRV, '''            Ok(output) => {
                for output in output.into_iter() {
                    send(&tx, Ok(output.into()));
                }
            }
''', '''            Ok(output) => output
                .into_iter()
                .map(|value| Ok(value.into()))
                .for_each(|message| send(&tx, message)),
'''))
ok("srv bulk split", (SRV, '''                items.push(map_conversion_result(request?.try_into())?);
''', '''                let message = request?;
                let item: indradb::BulkInsertItem = map_conversion_result(message.try_into())?;
                items.push(item);
'''))
ok("srv plugin lookup", (SRV, '''            if let Some(plugin) = plugins.entries.get(&request.name) {
                let mut txn = db.datastore.transaction();
                plugin
                    .call(&mut txn, arg)
                    .map_err(|err| Status::internal(format!("{err}")))
            } else {
                Err(Status::not_found("unknown plugin"))
            }
''', '''            let plugin = plugins
                .entries
                .get(&request.name)
                .ok_or_else(|| Status::not_found("unknown plugin"))?;
            let mut txn = db.datastore.transaction();
            match plugin.call(&mut txn, arg) {
                Ok(value) => Ok(value),
                Err(err) => Err(Status::internal(err.to_string())),
            }
'''))
ok("srv arg match", (SRV, '''        let arg = if let Some(arg) = request.arg {
            map_conversion_result(arg.try_into())?
        } else {
            indradb::Json::new(serde_json::Value::Null)
        };
''', '''        let arg = match request.arg {
            None => indradb::Json::new(serde_json::Value::Null),
            Some(arg) => map_conversion_result(arg.try_into())?,
        };
'''))
ok("srv plugins via default", (SRV, '''        let mut libraries = Vec::new();
        let mut plugin_entries = HashMap::new();
''', '''        let mut plugins = Plugins::default();
'''), (SRV, '''            plugin_entries.extend(decl.entries);
            libraries.push(library);
''', '''            plugins._libraries.push(library);
            plugins.entries.extend(decl.entries);
'''), (SRV, '''            plugins: Arc::new(Plugins {
                _libraries: libraries,
                entries: plugin_entries,
            }),
''', '''            plugins: Arc::new(plugins),
'''))
ok("srv glob collect", (SRV, '''    let mut plugin_paths = Vec::new();
    for entry in glob::glob(plugin_path_pattern)? {
        plugin_paths.push(entry?);
    }

    let server''', '''    let plugin_paths = glob::glob(plugin_path_pattern)?.collect::<Result<Vec<PathBuf>, _>>()?;

    let server'''))
ok("srv delete direct", (SRV, '''        map_jh_indra_result(tokio::task::spawn_blocking(move || db.delete(q)).await)?;
        Ok(Response::new(()))
''', '''        let handle = tokio::task::spawn_blocking(move || db.delete(q));
        let outcome = handle.await;
        map_jh_indra_result(outcome).map(Response::new)
'''))
ok("srv create into", (SRV, '''        let res = map_jh_indra_result(tokio::task::spawn_blocking(move || db.create_edge(&edge)).await)?;
        Ok(Response::new(crate::CreateResponse { created: res }))
''', '''        let created = map_jh_indra_result(tokio::task::spawn_blocking(move || db.create_edge(&edge)).await)?;
        let response = crate::CreateResponse { created };
        Ok(response.into())
'''))
# models
ok("qry builder let self", (QRY, '''impl CountQuery {''', '''// (counts what the inner query yields)
impl CountQuery {'''))
ok("err kinds unify", (ERR, '''impl From<RmpEncodeError> for Error {
    fn from(err: RmpEncodeError) -> Self {
        Error::Datastore(Box::new(err))
''', '''impl From<RmpEncodeError> for Error {
    fn from(err: RmpEncodeError) -> Self {
        let boxed: Box<dyn StdError + Send + Sync> = Box::new(err);
        Self::Datastore(boxed)
'''))
ok("srv err display", (SRV, '''fn map_conversion_result<T>(res: Result<T, crate::ConversionError>) -> Result<T, Status> {
    res.map_err(|err| Status::invalid_argument(format!("{err}")))
''', '''fn map_conversion_result<T>(res: Result<T, crate::ConversionError>) -> Result<T, Status> {
    match res {
        Ok(value) => Ok(value),
        Err(err) => {
            let message = err.to_string();
            Err(Status::new(tonic::Code::InvalidArgument, message))
        }
    }
'''))
HOST, NAIVE, MAIN = 'plugins/host/src/util.rs', 'plugins/naive_vertex_count/src/lib.rs', 'server/src/main.rs'
ok("host take finish", (HOST, '''    let mut first_err = first_err.lock().unwrap();
    if first_err.is_some() {
        Err(first_err.take().unwrap())
    } else if pool.panic_count() > 0 {
        Err(Error::Other("the map operation panicked".into()))
    } else {
        Ok(())
    }
''', '''    if let Some(err) = first_err.lock().unwrap().take() {
        return Err(err);
    }
    match pool.panic_count() {
        0 => Ok(()),
        _ => Err(Error::Other("the map operation panicked".into())),
    }
'''))
ok("host if let ok", (HOST, '''        match vertex {
            Ok(vertex) => {
                let vertex: indradb::Vertex = vertex;
                let mapper = mapper.clone();
                let first_err = first_err.clone();
                pool.execute(move || {
                    if let Err(err) = mapper.map(vertex) {
                        let mut first_err = first_err.lock().unwrap();
                        if first_err.is_none() {
                            *first_err = Some(err);
                        }
                    }
                });
            }
            Err(err) => {
                let mut first_err = first_err.lock().unwrap();
                if first_err.is_none() {
                    *first_err = Some(Error::IndraDB(err));
                }
            }
        }
''', '''        let vertex: indradb::Vertex = match vertex {
            Ok(vertex) => vertex,
            Err(err) => {
                first_err.lock().unwrap().get_or_insert(Error::IndraDB(err));
                continue;
            }
        };
        let (mapper, first_err) = (mapper.clone(), Arc::clone(&first_err));
        pool.execute(move || {
            let result = mapper.map(vertex);
            if let Err(err) = result {
                first_err.lock().unwrap().get_or_insert(err);
            }
        });
'''))
ok("host enumerate", (HOST, '''    let mut i = 0;

    for vertex in unsafe { (*txn_ptr).all_vertices()? } {
        i += 1;
        if i % 1000 == 0 && first_err''', '''    for (i, vertex) in unsafe { (*txn_ptr).all_vertices()? }.enumerate() {
        if i % 1000 == 999 && first_err'''))
ok("mgr vertex get map", (MGR, '''        match self.db.get_cf(&self.cf, self.key(id))? {
            Some(value_bytes) => {
                let mut cursor = Cursor::new(value_bytes.deref());
                unsafe { Ok(Some(util::read_identifier(&mut cursor)?)) }
            }
            None => Ok(None),
        }
''', '''        let Some(value_bytes) = self.db.get_cf(&self.cf, self.key(id))? else {
            return Ok(None);
        };
        let mut cursor = Cursor::new(&value_bytes);
        let t = unsafe { util::read_identifier(&mut cursor) }?;
        Ok(Some(t))
'''), (MGR, "use std::ops::Deref;\n", "#[allow(unused_imports)]\nuse std::ops::Deref;\n"))
ok("mgr exists pinned match", (MGR, '''        Ok(self.db.get_cf(&self.cf, self.key(id))?.is_some())
    }

    pub fn get(&self, id: Uuid)''', '''        let found = self.db.get_pinned_cf(&self.cf, self.key(id))?;
        Ok(found.is_some())
    }

    pub fn get(&self, id: Uuid)'''))
ok("mgr vertex delete roots loop", (MGR, '''        {
            let edge_range_manager = EdgeRangeManager::new(self.db);
            for item in edge_range_manager.iterate_for_root(id, None)? {
                let edge = item?;
                debug_assert_eq!(edge.outbound_id, id);
                edge_manager.delete(batch, indexed_properties, &edge)?;
            }
        }

        {
            let reversed_edge_range_manager = EdgeRangeManager::new_reversed(self.db);
            for item in reversed_edge_range_manager.iterate_for_root(id, None)? {
                let edge = item?;
                debug_assert_eq!(edge.outbound_id, id);
                edge_manager.delete(batch, indexed_properties, &edge.reversed())?;
            }
        }
''', '''        for reversed in [false, true] {
            let ranges = if reversed {
                EdgeRangeManager::new_reversed(self.db)
            } else {
                EdgeRangeManager::new(self.db)
            };
            for item in ranges.iterate_for_root(id, None)? {
                let found = item?;
                let edge = if reversed { found.reversed() } else { found };
                edge_manager.delete(batch, indexed_properties, &edge)?;
            }
        }
'''))
ok("mgr edge set always", (MGR, '''        if edge_range_manager.contains(edge)? {
            edge_range_manager.delete(batch, edge)?;
            reversed_edge_range_manager.delete(batch, &reversed_edge)?;
        }

        edge_range_manager.set(batch, edge)?;
        reversed_edge_range_manager.set(batch, &reversed_edge)?;
        Ok(())
''', '''        let exists = edge_range_manager.contains(edge)?;
        for (manager, edge) in [(&edge_range_manager, edge), (&reversed_edge_range_manager, &reversed_edge)] {
            if exists {
                manager.delete(batch, edge)?;
            }
            manager.set(batch, edge)?;
        }
        Ok(())
'''))
ok("mgr iterate vertices struct", (MGR, '''        iter.map(|item| -> Result<models::Vertex> {
            let (k, v) = item?;

            let id = {
                debug_assert_eq!(k.len(), 16);
                let mut cursor = Cursor::new(k);
                util::read_uuid(&mut cursor)?
            };

            let mut cursor = Cursor::new(v);
            let t = unsafe { util::read_identifier(&mut cursor)? };
            Ok(models::Vertex::with_id(id, t))
        })
''', '''        iter.map(|item| {
            let (key, value) = item?;
            Ok(models::Vertex {
                id: util::read_uuid(&mut Cursor::new(key))?,
                t: unsafe { util::read_identifier(&mut Cursor::new(value))? },
            })
        })
'''))
ok("util build concat", (UTIL, '''    let len = components.iter().fold(0, |len, component| len + component.byte_len());
    let mut cursor: Cursor<Vec<u8>> = Cursor::new(Vec::with_capacity(len));
    for component in components {
        component
            .write(&mut cursor)
            .expect("failed to write bytes to in-memory buffer");
    }

    cursor.into_inner()
''', '''    let len: usize = components.iter().map(Component::byte_len).sum();
    let mut cursor = Cursor::new(Vec::with_capacity(len));
    components
        .iter()
        .try_for_each(|component| component.write(&mut cursor))
        .expect("failed to write bytes to in-memory buffer");
    cursor.into_inner()
'''))
ok("util read ident u8", (UTIL, '''    let t_len = {
        let mut buf: [u8; 1] = [0; 1];
        cursor.read_exact(&mut buf)?;
        buf[0] as usize
    };

    let mut buf = vec![0u8; t_len];
''', '''    let t_len = cursor.read_u8()?;
    let mut buf = vec![0u8; usize::from(t_len)];
'''))
ok("util read ident from bytes", (UTIL, '''    let s = str::from_utf8_unchecked(&buf).to_string();
    Ok(models::Identifier::new_unchecked(s))
''', '''    let s = String::from_utf8_unchecked(buf);
    Ok(models::Identifier::new_unchecked(s))
'''), (UTIL, "use std::str;\n", "#[allow(unused_imports)]\nuse std::str;\n"))
ok("util uuid bytes", (UTIL, '''    let uuid = Uuid::from_slice(&buf).unwrap();
    Ok(uuid)
''', '''    Ok(Uuid::from_bytes(buf))
'''))
ok("util component as_ref", (UTIL, '''            Component::Identifier(i) => {
                cursor.write_all(&[i.0.len() as u8])?;
                cursor.write_all(i.0.as_bytes())
            }
''', '''            Component::Identifier(i) => {
                let bytes = i.0.as_bytes();
                cursor.write_u8(bytes.len() as u8)?;
                cursor.write_all(bytes)
            }
'''))
