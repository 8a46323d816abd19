S = 'proto/src/server.rs'
P = ['C15', 'C17']


def sb(c):
    return f'tokio::task::spawn_blocking(move || {c}).await'


SYNC = f'map_jh_indra_result({sb("db.sync()")})?;'
CV = f'let res = map_jh_indra_result({sb("db.create_vertex(&vertex)")})?;'
CVT = f'let res = map_jh_indra_result({sb("db.create_vertex_from_type(t)")})?;'
CE = f'let res = map_jh_indra_result({sb("db.create_edge(&edge)")})?;'
DEL = f'map_jh_indra_result({sb("db.delete(q)")})?;'
SP = f'map_jh_indra_result({sb("db.set_properties(q, name, &value)")})?;'
BI = f'map_jh_indra_result({sb("db.bulk_insert(items)")})?;'
IP = f'map_jh_indra_result({sb("db.index_property(name)")})?;'
RES = 'Ok(Response::new(crate::CreateResponse { created: res }))'
LOOP = '''            while let Some(request) = stream.next().await {
                items.push(map_conversion_result(request?.try_into())?);
            }
'''
FOR = '''                for output in output.into_iter() {
                    send(&tx, Ok(output.into()));
                }
'''
ERRS = '            Err(err) => send(&tx, Err(err)),\n'
PANIC = '''            if let Err(err) = handle.await {
                let _ = panic_tx.send(Err(Status::internal(format!("{err}")))).await;
            }
'''
PLUG = '''            if let Some(plugin) = plugins.entries.get(&request.name) {
                let mut txn = db.datastore.transaction();
                plugin
                    .call(&mut txn, arg)
                    .map_err(|err| Status::internal(format!("{err}")))
            } else {
                Err(Status::not_found("unknown plugin"))
            }
'''
ARG = '''        let arg = if let Some(arg) = request.arg {
            map_conversion_result(arg.try_into())?
        } else {
            indradb::Json::new(serde_json::Value::Null)
        };
'''
JH = '''    let jh_res = res.map_err(|err| Status::internal(format!("{err}")))?;
    map_indradb_result(jh_res)
'''
CASES = [
 ('sync skipped', 'bug', [(S, SYNC, 'let _ = db;')], ['C15']),
 ('sync not awaited', 'bug', [(S, SYNC, 'drop(tokio::task::spawn_blocking(move || db.sync()));')], ['C15']),
 ('sync join swallowed', 'bug', [(S, SYNC, f'if let Ok(r) = {sb("db.sync()")} {{ map_indradb_result(r)?; }}')], ['C15']),
 ('sync error swallowed', 'bug', [(S, SYNC, f'let _ = map_jh_indra_result({sb("db.sync()")});')], ['C15']),
 ('delete error swallowed', 'bug', [(S, DEL, f'if let Err(e) = map_jh_indra_result({sb("db.delete(q)")}) {{ eprintln!("{{e}}"); }}')], ['C15']),
 ('delete inner ignored', 'bug', [(S, DEL, f'let _r = {sb("db.delete(q)")}.map_err(|err| Status::internal(format!("{{err}}")))?;')], ['C15']),
 ('created true', 'bug', [(S, CV + '\n        ' + RES, CV + '\n        Ok(Response::new(crate::CreateResponse { created: res || true }))')], ['C15']),
 ('created negated', 'bug', [(S, CE + '\n        ' + RES, CE + '\n        Ok(Response::new(crate::CreateResponse { created: !res }))')], ['C15']),
 ('create edge retried', 'bug', [(S, CE, CE.replace('db.create_edge(&edge)', 'db.create_edge(&edge).and_then(|c| if c { Ok(c) } else { db.create_edge(&edge) })'))], ['C15']),
 ('create edge reversed', 'bug', [(S, 'let edge = map_conversion_result(request.into_inner().try_into())?;', 'let edge: indradb::Edge = map_conversion_result(request.into_inner().try_into())?;\n        let edge = indradb::Edge::new(edge.inbound_id, edge.t, edge.outbound_id);')], ['C15']),
 ('false is error', 'bug', [(S, CE, CE + '\n        if !res { return Err(Status::not_found("edge endpoint")); }')], ['C15']),
 ('type new vertex', 'bug', [(S, CVT, CVT + '\n        let res = if res.is_nil() { indradb::util::generate_uuid_v1() } else { res };')], ['C15']),
 ('type via vertex', 'bug', [(S, CVT, 'let v = indradb::Vertex::new(t); let res = v.id;\n        map_jh_indra_result(tokio::task::spawn_blocking(move || db.create_vertex(&v)).await)?;')], ['C15']),
 ('delete counts first', 'bug', [(S, DEL, DEL.replace('db.delete(q)', 'if db.get(q.clone())?.is_empty() { Ok(()) } else { db.delete(q) }'))], ['C15']),
 ('delete of empty skipped', 'bug', [(S, DEL, f'if !matches!(q, indradb::Query::AllEdge) {{ {DEL} }}')], ['C15']),
 ('set null deletes', 'bug', [(S, SP, SP.replace('db.set_properties(q, name, &value)', 'if value.0.is_null() { db.delete(q) } else { db.set_properties(q, name, &value) }'))], ['C15']),
 ('set null skipped', 'bug', [(S, SP, SP.replace('db.set_properties(q, name, &value)', 'if value.0.is_null() { Ok(()) } else { db.set_properties(q, name, &value) }'))], ['C15']),
 ('set swallow not indexed', 'bug', [(S, SP, SP.replace('db.set_properties(q, name, &value)', 'match db.set_properties(q, name, &value) { Err(indradb::Error::NotIndexed) => Ok(()), r => r }'))], ['C15']),
 ('index wrong name', 'bug', [(S, IP, 'let name = indradb::Identifier::new(name.as_str().to_lowercase()).unwrap();\n        ' + IP)], ['C15']),
 ('index twice', 'bug', [(S, IP, IP.replace('db.index_property(name)', '{ db.index_property(name)?; db.index_property(name) }'))], ['C15']),
 ('index sync', 'bug', [(S, IP, IP.replace('db.index_property(name)', '{ db.index_property(name)?; db.sync() }'))], ['C15']),
 ('bulk first chunk', 'bug', [(S, BI, BI.replace('db.bulk_insert(items)', 'db.bulk_insert(items.into_iter().take(1 << 16).collect())'))], ['C15']),
 ('bulk chunks', 'bug', [(S, BI, BI.replace('db.bulk_insert(items)', '{ for c in items.chunks(1000) { db.bulk_insert(c.to_vec())?; } Ok::<(), indradb::Error>(()) }'))], ['C15']),
 ('bulk per item', 'bug', [(S, LOOP, '''            while let Some(request) = stream.next().await {
                let item = map_conversion_result(request?.try_into())?;
                let db = db.clone();
                map_jh_indra_result(tokio::task::spawn_blocking(move || db.bulk_insert(vec![item])).await)?;
            }
'''), (S, 'let mut items = Vec', 'let items = Vec'), (S, BI, 'let _: (Vec<_>, _) = (items, db);')], ['C15']),
 ('bulk stops at error', 'bug', [(S, LOOP, LOOP.replace('Some(request)', 'Some(Ok(request))').replace('request?', 'request'))], ['C15']),
 ('bulk skips malformed', 'bug', [(S, LOOP, LOOP.replace('items.push(map_conversion_result(request?.try_into())?);', 'if let Ok(i) = request?.try_into() { items.push(i); }'))], ['C15']),
 ('bulk skips stream errors', 'bug', [(S, LOOP, LOOP.replace('items.push(map_conversion_result(request?.try_into())?);', 'let Ok(request) = request else { continue };\n                items.push(map_conversion_result(request.try_into())?);'))], ['C15']),
 ('bulk reversed', 'bug', [(S, BI, 'let items: Vec<_> = items.into_iter().rev().collect();\n        ' + BI)], ['C15']),
 ('bulk bounded', 'bug', [(S, LOOP, LOOP.replace('request?.try_into())?);', 'request?.try_into())?);\n                if items.len() > 65536 { break; }'))], ['C15']),
 ('bulk empty skipped', 'bug', [(S, BI, 'if items.is_empty() { return Ok(Response::new(())); }\n        ' + BI)], ['C15']),
 ('get first', 'bug', [(S, FOR, FOR.replace('output.into_iter()', 'output.into_iter().take(1)'))], ['C15']),
 ('get reversed', 'bug', [(S, FOR, FOR.replace('output.into_iter()', 'output.into_iter().rev()'))], ['C15']),
 ('get skip empty', 'bug', [(S, FOR, FOR.replace('send(', 'if matches!(output, indradb::QueryOutputValue::Count(0)) { continue; }\n                    send('))], ['C15']),
 ('get try_send', 'bug', [(S, 'tx.blocking_send(result)', 'tx.try_send(result)')], ['C15']),
 ('get error not sent', 'bug', [(S, ERRS, '            Err(err) => eprintln!("{err}"),\n')], ['C15']),
 ('get error some', 'bug', [(S, ERRS, '            Err(err) if err.code() == tonic::Code::NotFound => {}\n' + ERRS)], ['C15']),
 ('get panic not sent', 'bug', [(S, PANIC, '            let _ = (handle.await, panic_tx);\n')], ['C15']),
 ('get panic cancelled only', 'bug', [(S, PANIC, PANIC.replace('let _ =', 'if err.is_cancelled() { return; }\n                let _ ='))], ['C15']),
 ('get breaks', 'bug', [(S, FOR, FOR.replace('send(&tx, Ok(output.into()));', 'send(&tx, Ok(output.into()));\n                    if tx.capacity() == 0 { break; }'))], ['C15']),
 ('get duplicate', 'bug', [(S, FOR, FOR.replace('send(&tx, Ok(output.into()));', 'send(&tx, Ok(output.clone().into()));\n                    if let indradb::QueryOutputValue::Count(_) = output { send(&tx, Ok(output.into())); }'))], ['C15']),
 ('plugin default name', 'bug', [(S, PLUG, PLUG.replace('plugins.entries.get(&request.name)', 'plugins.entries.get(&request.name).or_else(|| plugins.entries.values().next())'))], ['C15']),
 ('plugin case', 'bug', [(S, PLUG, PLUG.replace('&request.name', '&request.name.to_lowercase()'))], ['C15']),
 ('plugin unknown null', 'bug', [(S, PLUG, PLUG.replace('Err(Status::not_found("unknown plugin"))', 'Ok(arg)'))], ['C15']),
 ('plugin error null', 'bug', [(S, PLUG, PLUG.replace('.map_err(|err| Status::internal(format!("{err}")))', '.or_else(|err| Ok::<_, Status>(indradb::Json::new(serde_json::json!({"error": err.to_string()}))))'))], ['C15']),
 ('plugin retry', 'bug', [(S, PLUG, PLUG.replace('.call(&mut txn, arg)', '.call(&mut txn, arg.clone()).or_else(|_| plugin.call(&mut txn, arg))'))], ['C15']),
 ('plugin arg null bad', 'bug', [(S, ARG, ARG.replace('map_conversion_result(arg.try_into())?', 'arg.try_into().unwrap_or_else(|_| indradb::Json::new(serde_json::Value::Null))'))], ['C15']),
 ('plugin no arg object', 'bug', [(S, ARG, ARG.replace('serde_json::Value::Null', 'serde_json::json!({})'))], ['C15']),
 ('plugin response none', 'bug', [(S, 'value: Some(response.into()),', 'value: if response.0.is_null() { None } else { Some(response.into()) },')], ['C15']),
 # C17
 ('sync blocks', 'bug', [(S, SYNC, 'map_indradb_result(db.sync())?;')], ['C17']),
 ('create blocks', 'bug', [(S, CV, 'let res = map_indradb_result(db.create_vertex(&vertex))?;')], ['C17']),
 ('bulk blocks', 'bug', [(S, BI, 'map_jh_indra_result(tokio::spawn(async move { db.bulk_insert(items) }).await)?;')], ['C17']),
 ('get send blocks', 'bug', [(S, PANIC, '            if let Err(err) = handle.await {\n                send(&panic_tx, Err(Status::internal(format!("{err}"))));\n            }\n')], ['C17']),
 ('plugin blocks', 'bug', [(S, PLUG.join(('tokio::task::spawn_blocking(move || {\n', '        })\n        .await')), PLUG.join(('tokio::task::spawn(async move {\n', '        })\n        .await')))], ['C17']),
 ('plugin transaction outside', 'bug', [(S, ARG, ARG + '        drop(self.db.datastore.transaction());\n')], ['C15', 'C17']),
 # refactorings
 ('helper', 'ok', [(S, SYNC, 'blocking(move || db.sync()).await?;'), (S, DEL, 'blocking(move || db.delete(q)).await?;'), (S, CV, 'let res = blocking(move || db.create_vertex(&vertex)).await?;'), (S, 'const CHANNEL', '''async fn blocking<T: Send + 'static>(f: impl FnOnce() -> Result<T, indradb::Error> + Send + 'static) -> Result<T, Status> {
    map_jh_indra_result(tokio::task::spawn_blocking(f).await)
}

const CHANNEL''')], []),
 ('match', 'ok', [(S, SYNC + '\n        Ok(Response::new(()))', f'''match {sb("db.sync()")} {{
            Ok(Ok(())) => Ok(Response::new(())),
            Ok(Err(err)) => Err(Status::internal(err.to_string())),
            Err(err) => Err(Status::internal(err.to_string())),
        }}''')], []),
 ('map', 'ok', [(S, DEL + '\n        Ok(Response::new(()))', DEL.replace('?;', '.map(Response::new)'))], []),
 ('map created', 'ok', [(S, CE + '\n        ' + RES, CE.replace('let res = ', '').replace('?;', '.map(|created| Response::new(crate::CreateResponse { created }))'))], []),
 ('clone inside', 'ok', [(S, 'let vertex = map_conversion_result(request.into_inner().try_into())?;', 'let vertex: indradb::Vertex = map_conversion_result(request.into_inner().try_into())?;'), (S, CV, CV.replace('db.create_vertex(&vertex)', '{\n            let v = vertex.clone();\n            db.create_vertex(&v)\n        }'))], []),
 ('for each', 'ok', [(S, FOR, '                output.into_iter().for_each(|output| send(&tx, Ok(output.into())));\n')], []),
 ('send if let', 'ok', [(S, FOR, FOR.replace('send(&tx, Ok(output.into()));', 'if let Err(err) = tx.blocking_send(Ok(output.into())) {\n                        eprintln!("{err}");\n                        break;\n                    }'))], []),
 ('output error typed', 'ok', [(S, 'match map_indradb_result(db.get(q)) {', 'match db.get(q) {'), (S, ERRS, '            Err(err) => send(&tx, Err(Status::internal(format!("{err}")))),\n')], []),
 ('panic match', 'ok', [(S, PANIC, '''            match handle.await {
                Ok(()) => {}
                Err(err) => {
                    if panic_tx.send(Err(Status::internal(err.to_string()))).await.is_err() {
                        eprintln!("client went away");
                    }
                }
            }
''')], []),
 ('plugin match', 'ok', [(S, PLUG, '''            match plugins.entries.get(&request.name) {
                None => Err(Status::not_found("unknown plugin")),
                Some(plugin) => {
                    let mut txn = db.datastore.transaction();
                    let r = plugin.call(&mut txn, arg);
                    r.map_err(|err| Status::internal(err.to_string()))
                }
            }
''')], []),
 ('plugin ok_or', 'ok', [(S, PLUG, '''            let plugin = plugins.entries.get(&request.name).ok_or_else(|| Status::not_found("unknown plugin"))?;
            let mut txn = db.datastore.transaction();
            plugin.call(&mut txn, arg).map_err(|err| Status::internal(format!("{err}")))
''')], []),
 ('arg match', 'ok', [(S, ARG, '''        let arg: indradb::Json = match request.arg {
            None => indradb::Json::new(serde_json::Value::Null),
            Some(arg) => map_conversion_result(arg.try_into())?,
        };
''')], []),
 ('arg map transpose', 'ok', [(S, ARG, '''        let arg: indradb::Json = map_conversion_result(request.arg.map(|a| a.try_into()).transpose())?
            .unwrap_or_else(|| indradb::Json::new(serde_json::Value::Null));
''')], []),
 ('bulk match', 'ok', [(S, LOOP, '''            while let Some(request) = stream.next().await {
                match request {
                    Ok(request) => {
                        let item: indradb::BulkInsertItem = map_conversion_result(request.try_into())?;
                        items.push(item);
                    }
                    Err(err) => return Err(err),
                }
            }
''')], []),
 ('bulk message', 'ok', [(S, LOOP, LOOP.replace('Some(request) = stream.next().await', 'Some(request) = stream.message().await?').replace('request?', 'request'))], []),
 ('jh match', 'ok', [(S, JH, '''    match res {
        Ok(res) => map_indradb_result(res),
        Err(err) => Err(Status::internal(err.to_string())),
    }
''')], []),
 ('codes', 'ok', [(S, 'res.map_err(|err| Status::internal(format!("{err}")))\n', 'res.map_err(|err| match err {\n        indradb::Error::NotIndexed => Status::failed_precondition(err.to_string()),\n        err => Status::internal(err.to_string()),\n    })\n')], []),
 ('block_in_place', 'ok', [(S, IP, 'map_indradb_result(tokio::task::block_in_place(move || db.index_property(name)))?;')], []),
 ('db ref', 'ok', [(S, CE, CE.replace('db.create_edge', 'db.as_ref().create_edge'))], []),
 ('shadow request', 'ok', [(S, '        let t = map_conversion_result(request.into_inner().try_into())?;', '        let inner = request.into_inner();\n        let t: indradb::Identifier = map_conversion_result(indradb::Identifier::try_from(inner))?;')], []),
]
