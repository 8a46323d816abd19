"""Edits that keep the behaviour outside the stores, for all checks"""
SRV, CLI, CONV = 'proto/src/server.rs', 'proto/src/client.rs', 'proto/src/converters.rs'
UTIL, JSON, IDENT, QRY = 'lib/src/util.rs', 'lib/src/models/json.rs', 'lib/src/models/identifiers.rs', 'lib/src/models/queries.rs'
HOST, NAIVE, MAIN, CMAIN = 'plugins/host/src/util.rs', 'plugins/naive_vertex_count/src/lib.rs', 'server/src/main.rs', 'client/src/main.rs'
CASES = []


def ok(name, *edits):
    CASES.append((name, "ok", list(edits), []))


# server.rs
ok("srv blocking helper", (SRV, '''/// An error that occurred while initializing''', '''async fn blocking<T, F>(f: F) -> Result<T, Status>
where
    T: Send + 'static,
    F: FnOnce() -> Result<T, indradb::Error> + Send + 'static,
{
    map_jh_indra_result(tokio::task::spawn_blocking(f).await)
}

/// An error that occurred while initializing'''),
   (SRV, "map_jh_indra_result(tokio::task::spawn_blocking(move || db.sync()).await)?;", "blocking(move || db.sync()).await?;"),
   (SRV, "map_jh_indra_result(tokio::task::spawn_blocking(move || db.create_vertex(&vertex)).await)?;", "blocking(move || db.create_vertex(&vertex)).await?;"),
   (SRV, "map_jh_indra_result(tokio::task::spawn_blocking(move || db.delete(q)).await)?;", "blocking(move || db.delete(q)).await?;"),
   (SRV, "map_jh_indra_result(tokio::task::spawn_blocking(move || db.bulk_insert(items)).await)?;", "blocking(move || db.bulk_insert(items)).await?;"))
ok("srv method blocking", (SRV, '''#[tonic::async_trait]
impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server''', '''impl<D: indradb::Datastore + Send + Sync + 'static> Server<D> {
    async fn with_db<T, F>(&self, f: F) -> Result<T, Status>
    where
        T: Send + 'static,
        F: FnOnce(&indradb::Database<D>) -> Result<T, indradb::Error> + Send + 'static,
    {
        let db = self.db.clone();
        map_jh_indra_result(tokio::task::spawn_blocking(move || f(&db)).await)
    }
}

#[tonic::async_trait]
impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server'''),
   (SRV, '''        let db = self.db.clone();
        map_jh_indra_result(tokio::task::spawn_blocking(move || db.sync()).await)?;''', '''        self.with_db(|db| db.sync()).await?;'''),
   (SRV, '''        let db = self.db.clone();
        let edge = map_conversion_result(request.into_inner().try_into())?;
        let res = map_jh_indra_result(tokio::task::spawn_blocking(move || db.create_edge(&edge)).await)?;''', '''        let edge: indradb::Edge = map_conversion_result(request.into_inner().try_into())?;
        let res = self.with_db(move |db| db.create_edge(&edge)).await?;'''))
ok("srv decode helper", (SRV, '''fn map_jh_indra_result''', '''fn decode<T, U>(msg: T) -> Result<U, Status>
where
    T: TryInto<U, Error = crate::ConversionError>,
{
    map_conversion_result(msg.try_into())
}

fn map_jh_indra_result'''),
   (SRV, "let vertex = map_conversion_result(request.into_inner().try_into())?;", "let vertex = decode(request.into_inner())?;"),
   (SRV, "let (q, name, value) = map_conversion_result(request.into_inner().try_into())?;", "let (q, name, value) = decode(request.into_inner())?;"),
   (SRV, "items.push(map_conversion_result(request?.try_into())?);", "items.push(decode(request?)?);"),
   (SRV, "let name: indradb::Identifier = map_conversion_result(request.into_inner().try_into())?;", "let name: indradb::Identifier = decode(request.into_inner())?;"))
ok("srv from status fn", (SRV, '''    res.map_err(|err| Status::internal(format!("{err}")))
}

fn map_conv''', '''    match res {
        Ok(value) => Ok(value),
        Err(err) => Err(Status::internal(err.to_string())),
    }
}

fn map_conv'''))
ok("srv jh flatten", (SRV, '''    let jh_res = res.map_err(|err| Status::internal(format!("{err}")))?;
    map_indradb_result(jh_res)''', '''    match res {
        Ok(inner) => map_indradb_result(inner),
        Err(join_err) => Err(Status::internal(join_err.to_string())),
    }'''))
ok("srv get question", (SRV, '''        let handle = tokio::task::spawn_blocking(move || match map_indradb_result(db.get(q)) {
            Ok(output) => {
                for output in output.into_iter() {
                    send(&tx, Ok(output.into()));
                }
            }
            Err(err) => send(&tx, Err(err)),
        });''', '''        let handle = tokio::task::spawn_blocking(move || {
            let output = match map_indradb_result(db.get(q)) {
                Ok(output) => output,
                Err(err) => {
                    send(&tx, Err(err));
                    return;
                }
            };
            for value in output {
                send(&tx, Ok(value.into()));
            }
        });'''))
ok("srv get produce fn", (SRV, '''fn map_indradb_result<T>''', '''fn produce<D: indradb::Datastore>(db: &indradb::Database<D>, q: indradb::Query, tx: &mpsc::Sender<Result<crate::QueryOutputValue, Status>>) {
    match map_indradb_result(db.get(q)) {
        Ok(output) => output.into_iter().for_each(|value| send(tx, Ok(value.into()))),
        Err(err) => send(tx, Err(err)),
    }
}

fn map_indradb_result<T>'''), (SRV, '''move || match map_indradb_result(db.get(q)) {
            Ok(output) => {
                for output in output.into_iter() {
                    send(&tx, Ok(output.into()));
                }
            }
            Err(err) => send(&tx, Err(err)),
        });''', '''move || produce(&db, q, &tx));'''))
ok("srv capacity literal", (SRV, "mpsc::channel(CHANNEL_CAPACITY)", "mpsc::channel(64)"))
ok("srv bulk no hint", (SRV, '''            let (lower_bound_stream_size, _) = stream.size_hint();
            let mut items = Vec::<indradb::BulkInsertItem>::with_capacity(lower_bound_stream_size);
''', '''            let mut items: Vec<indradb::BulkInsertItem> = Vec::new();
'''))
ok("srv bulk collect fn", (SRV, '''fn map_jh_indra_result''', '''async fn collect_items(mut stream: Streaming<crate::BulkInsertItem>) -> Result<Vec<indradb::BulkInsertItem>, Status> {
    let mut items = Vec::new();
    while let Some(item) = stream.next().await {
        let item: indradb::BulkInsertItem = map_conversion_result(item?.try_into())?;
        items.push(item);
    }
    Ok(items)
}

fn map_jh_indra_result'''), (SRV, '''        let items = {
            let mut stream = request.into_inner();
            let (lower_bound_stream_size, _) = stream.size_hint();
            let mut items = Vec::<indradb::BulkInsertItem>::with_capacity(lower_bound_stream_size);
            while let Some(request) = stream.next().await {
                items.push(map_conversion_result(request?.try_into())?);
            }

            items
        };
''', '''        let items = collect_items(request.into_inner()).await?;
'''))
ok("srv plugin fn", (SRV, '''    async fn execute_plugin(
        &self,
        request: Request<crate::ExecutePluginRequest>,
    ) -> Result<Response<crate::ExecutePluginResponse>, Status> {
        let request = request.into_inner();
        let arg = if let Some(arg) = request.arg {
            map_conversion_result(arg.try_into())?
        } else {
            indradb::Json::new(serde_json::Value::Null)
        };
''', '''    async fn execute_plugin(
        &self,
        request: Request<crate::ExecutePluginRequest>,
    ) -> Result<Response<crate::ExecutePluginResponse>, Status> {
        let crate::ExecutePluginRequest { name, arg } = request.into_inner();
        let arg = match arg {
            None => indradb::Json::new(serde_json::Value::Null),
            Some(arg) => map_conversion_result(arg.try_into())?,
        };
'''), (SRV, "plugins.entries.get(&request.name)", "plugins.entries.get(name.as_str())"))
ok("srv plugin flat result", (SRV, '''        .await
        .map_err(|err| Status::internal(format!("{err}")))??;
        Ok(Response::new(''', '''        .await
        .unwrap_or_else(|err| Err(Status::internal(format!("{err}"))))?;
        Ok(Response::new('''))
ok("srv load map", (SRV, '''            plugin_entries.extend(decl.entries);
            libraries.push(library);''', '''            for (name, plugin) in decl.entries {
                plugin_entries.insert(name, plugin);
            }
            libraries.push(library);'''))
ok("srv serve fn", (SRV, '''/// Runs the IndraDB server.
///''', '''async fn serve<D>(server: Server<D>, listener: TcpListener) -> Result<(), TonicTransportError>
where
    D: indradb::Datastore + Send + Sync + 'static,
{
    TonicServer::builder()
        .add_service(crate::indra_db_server::IndraDbServer::new(server))
        .serve_with_incoming(TcpListenerStream::new(listener))
        .await
}

/// Runs the IndraDB server.
///'''), (SRV, '''    let service = crate::indra_db_server::IndraDbServer::new(Server::new(db));
    let incoming = TcpListenerStream::new(listener);
    TonicServer::builder()
        .add_service(service)
        .serve_with_incoming(incoming)
        .await?;

    Ok(())''', '''    serve(Server::new(db), listener).await'''), (SRV, '''    let service = crate::indra_db_server::IndraDbServer::new(server);
    let incoming = TcpListenerStream::new(listener);
    TonicServer::builder()
        .add_service(service)
        .serve_with_incoming(incoming)
        .await?;

    Ok(())''', '''    Ok(serve(server, listener).await?)'''))
ok("srv ping var", (SRV, '''        Ok(Response::new(()))
    }

    async fn sync''', '''        let response = Response::new(());
        Ok(response)
    }

    async fn sync'''))
# client.rs
ok("cli collect fn", (CLI, '''        let mut output = Vec::<indradb::QueryOutputValue>::new();
        let mut res = self.0.get(q).await?.into_inner();
        while let Some(res) = res.next().await {
            output.push(res?.try_into()?);
        }
        Ok(output)''', '''        let response = self.0.get(q).await?;
        collect(response.into_inner()).await'''), (CLI, '''/// A higher-level client''', '''async fn collect(
    mut stream: tonic::Streaming<crate::QueryOutputValue>,
) -> Result<Vec<indradb::QueryOutputValue>, ClientError> {
    let mut output = Vec::new();
    while let Some(value) = stream.next().await {
        let value: indradb::QueryOutputValue = value?.try_into()?;
        output.push(value);
    }
    Ok(output)
}

/// A higher-level client'''))
ok("cli loop match", (CLI, '''        while let Some(res) = res.next().await {
            output.push(res?.try_into()?);
        }
        Ok(output)''', '''        loop {
            match res.next().await {
                Some(value) => output.push(value?.try_into()?),
                None => return Ok(output),
            }
        }'''))
ok("cli vertex inline", (CLI, '''        let vertex: crate::Vertex = vertex.clone().into();
        let res = self.0.create_vertex(vertex).await?;
        Ok(res.into_inner().created)''', '''        let request = crate::Vertex::from(vertex.clone());
        let response = self.0.create_vertex(Request::new(request)).await?;
        let created = response.into_inner().created;
        Ok(created)'''))
ok("cli vertex fields", (CLI, '''        let vertex: crate::Vertex = vertex.clone().into();
''', '''        let vertex = crate::Vertex {
            id: Some(vertex.id.into()),
            t: Some(vertex.t.into()),
        };
'''))
ok("cli uuid typed", (CLI, '''        let res = self.0.create_vertex_from_type(t).await?;
        Ok(res.into_inner().try_into()?)''', '''        let res = self.0.create_vertex_from_type(t).await?.into_inner();
        let id: Uuid = res.try_into()?;
        Ok(id)'''))
ok("cli delete message", (CLI, '''        let q: crate::Query = q.into().into();
        self.0.delete(q).await?;
        Ok(())''', '''        let query: indradb::Query = q.into();
        self.0.delete(crate::Query::from(query)).await.map(|_| ()).map_err(ClientError::from)'''))
ok("cli set order", (CLI, '''        let name: crate::Identifier = name.into();
        let value: crate::Json = value.clone().into();
        let req = Request::new(crate::SetPropertiesRequest {
            q: Some(q.into().into()),
            name: name.into(),
            value: value.clone().into(),
        });''', '''        let q: indradb::Query = q.into();
        let req = Request::new(crate::SetPropertiesRequest {
            value: Some(value.clone().into()),
            name: Some(name.into()),
            q: Some(q.into()),
        });'''))
ok("cli bulk move producer", (CLI, '''        {
            let last_err = last_err.clone();
            tokio::spawn(async move {
                for item in items.into_iter() {
                    if let Err(err) = tx.send(item.into()).await {
                        *last_err.lock().unwrap() = Some(err.into());
                        return;
                    }
                }
            });
        }
''', '''        let producer_err = Arc::clone(&last_err);
        tokio::spawn(async move {
            for item in items {
                let message: crate::BulkInsertItem = item.into();
                match tx.send(message).await {
                    Ok(()) => {}
                    Err(err) => {
                        *producer_err.lock().unwrap() = Some(ClientError::from(err));
                        break;
                    }
                }
            }
        });
'''))
ok("cli bulk take", (CLI, '''        let mut last_err = last_err.lock().unwrap();
        if last_err.is_some() {
            Err(last_err.take().unwrap())
        } else {
            Ok(())
        }''', '''        let err = last_err.lock().unwrap().take();
        match err {
            Some(err) => Err(err),
            None => Ok(()),
        }'''))
ok("cli bulk map_or", (CLI, '''        let mut last_err = last_err.lock().unwrap();
        if last_err.is_some() {
            Err(last_err.take().unwrap())
        } else {
            Ok(())
        }''', '''        let err = last_err.lock().unwrap().take();
        err.map_or(Ok(()), Err)'''))
ok("cli plugin if let", (CLI, '''        match res.into_inner().value {
            Some(value) => Ok(value.try_into()?),
            None => Ok(indradb::Json::new(serde_json::Value::Null)),
        }''', '''        if let Some(value) = res.into_inner().value {
            return Ok(value.try_into()?);
        }
        Ok(indradb::Json::new(serde_json::Value::Null))'''))
ok("cli ping map", (CLI, '''        self.0.ping(()).await?;
        Ok(())''', '''        let request = Request::new(());
        self.0.ping(request).await?;
        Ok(())'''))
# converters.rs
ok("conv required match", (CONV, '''    value.ok_or_else(|| ConversionError::NoneField {
        name: field_name.to_string(),
    })''', '''    match value {
        Some(value) => Ok(value),
        None => Err(ConversionError::NoneField {
            name: field_name.to_owned(),
        }),
    }'''))
ok("conv uuid map_err", (CONV, '''        Ok(Uuid::from_slice(&self.value)?)''', '''        Uuid::from_slice(&self.value).map_err(ConversionError::from)'''))
ok("conv ident match", (CONV, '''        Ok(indradb::Identifier::new(self.value)?)''', '''        match indradb::Identifier::new(self.value) {
            Ok(t) => Ok(t),
            Err(inner) => Err(ConversionError::Validation { inner }),
        }'''))
ok("conv edge fields", (CONV, '''        Ok(indradb::Edge::new(
            required_field("outbound_id", self.outbound_id)?.try_into()?,
            required_field("t", self.t)?.try_into()?,
            required_field("inbound_id", self.inbound_id)?.try_into()?,
        ))''', '''        let outbound_id = required_field("outbound_id", self.outbound_id)?.try_into()?;
        let inbound_id = required_field("inbound_id", self.inbound_id)?.try_into()?;
        let t = required_field("t", self.t)?.try_into()?;
        Ok(indradb::Edge { outbound_id, t, inbound_id })'''))
ok("conv vertex let", (CONV, '''        Ok(indradb::Vertex::with_id(
            required_field("id", self.id)?.try_into()?,
            required_field("t", self.t)?.try_into()?,
        ))''', '''        let crate::Vertex { id, t } = self;
        let id: Uuid = required_field("id", id)?.try_into()?;
        let t: indradb::Identifier = required_field("t", t)?.try_into()?;
        Ok(indradb::Vertex { id, t })'''))
ok("conv ids loop", (CONV, '''                let ids: Result<Vec<Uuid>, ConversionError> = q.ids.into_iter().map(|id| id.try_into()).collect();
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids: ids? })''', '''                let mut ids: Vec<Uuid> = Vec::with_capacity(q.ids.len());
                for id in q.ids {
                    ids.push(id.try_into()?);
                }
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids })'''))
ok("conv ids turbofish", (CONV, '''                let ids: Result<Vec<Uuid>, ConversionError> = q.ids.into_iter().map(|id| id.try_into()).collect();
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids: ids? })''', '''                let ids = q
                    .ids
                    .into_iter()
                    .map(TryInto::<Uuid>::try_into)
                    .collect::<Result<Vec<_>, _>>()?;
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery::new(ids))'''))
ok("conv collect helper", (CONV, '''impl From<Uuid> for crate::Uuid {''', '''fn try_all<T, U>(items: Vec<T>) -> Result<Vec<U>, ConversionError>
where
    T: TryInto<U, Error = ConversionError>,
{
    items.into_iter().map(|item| item.try_into()).collect()
}

impl From<Uuid> for crate::Uuid {'''), (CONV, '''                let vertices: Result<Vec<indradb::Vertex>, ConversionError> =
                    vertices.vertices.into_iter().map(|v| v.try_into()).collect();
                indradb::QueryOutputValue::Vertices(vertices?)''', '''                indradb::QueryOutputValue::Vertices(try_all(vertices.vertices)?)'''),
   (CONV, '''                let edges: Result<Vec<indradb::Edge>, ConversionError> =
                    edges.edges.into_iter().map(|e| e.try_into()).collect();
                indradb::QueryOutputValue::Edges(edges?)''', '''                indradb::QueryOutputValue::Edges(try_all(edges.edges)?)'''))
ok("conv opt match", (CONV, '''                t: q.t.map(|t| t.try_into()).transpose()?,
                start_id: q.start_id.map(|start_id| start_id.try_into()).transpose()?,''', '''                t: match q.t {
                    Some(t) => Some(t.try_into()?),
                    None => None,
                },
                start_id: if let Some(start_id) = q.start_id {
                    Some(start_id.try_into()?)
                } else {
                    None
                },'''))
ok("conv opt helper", (CONV, '''impl From<Uuid> for crate::Uuid {''', '''fn optional<T, U>(value: Option<T>) -> Result<Option<U>, ConversionError>
where
    T: TryInto<U, Error = ConversionError>,
{
    value.map(|value| value.try_into()).transpose()
}

impl From<Uuid> for crate::Uuid {'''), (CONV, "t: q.t.map(|t| t.try_into()).transpose()?,", "t: optional(q.t)?,"),
   (CONV, "let t = q.t.map(|t| t.try_into()).transpose()?;", "let t = optional(q.t)?;"), (CONV, "let name = q.name.map(|n| n.try_into()).transpose()?;", "let name = optional(q.name)?;"))
ok("conv required helper", (CONV, '''impl From<Uuid> for crate::Uuid {''', '''fn required<T, U>(field_name: &str, value: Option<T>) -> Result<U, ConversionError>
where
    T: TryInto<U, Error = ConversionError>,
{
    required_field(field_name, value)?.try_into()
}

impl From<Uuid> for crate::Uuid {'''), (CONV, '''            required_field("outbound_id", self.outbound_id)?.try_into()?,
            required_field("t", self.t)?.try_into()?,
            required_field("inbound_id", self.inbound_id)?.try_into()?,''', '''            required("outbound_id", self.outbound_id)?,
            required("t", self.t)?,
            required("inbound_id", self.inbound_id)?,'''), (CONV, '''            required_field("id", self.id)?.try_into()?,
            required_field("t", self.t)?.try_into()?,''', '''            required("id", self.id)?,
            required("t", self.t)?,'''))
ok("conv pipe direct direction", (CONV, '''                    let mut proto_q = crate::PipeQuery {
                        inner: Some(Box::new((*q.inner).into())),
                        direction: 0,
                        limit: q.limit,
                        t: q.t.map(|t| t.into()),
                    };
                    proto_q.set_direction(q.direction.into());
                    crate::QueryVariant::Pipe(Box::new(proto_q))''', '''                    let direction: crate::EdgeDirection = q.direction.into();
                    crate::QueryVariant::Pipe(Box::new(crate::PipeQuery {
                        inner: Some(Box::new((*q.inner).into())),
                        direction: direction as i32,
                        limit: q.limit,
                        t: q.t.map(Into::into),
                    }))'''))
ok("conv out count let", (CONV, '''            indradb::QueryOutputValue::Count(count) => crate::QueryOutputValueVariant::Count(count),''', '''            indradb::QueryOutputValue::Count(n) => {
                let count: u64 = n;
                crate::QueryOutputValueVariant::Count(count)
            }'''))
ok("conv vertices loop", (CONV, '''                crate::QueryOutputValueVariant::Vertices(crate::QueryOutputVertices {
                    vertices: vertices.into_iter().map(|e| e.into()).collect(),
                })''', '''                let mut out = Vec::with_capacity(vertices.len());
                for vertex in vertices {
                    out.push(crate::Vertex::from(vertex));
                }
                crate::QueryOutputValueVariant::Vertices(crate::QueryOutputVertices { vertices: out })'''))
ok("conv json to_string", (CONV, '''            value: (*value).to_string(),''', '''            value: value.0.to_string(),'''))
ok("conv json parse", (CONV, '''        Ok(serde_json::from_str(&self.value)?)''', '''        let value: serde_json::Value = serde_json::from_str(&self.value)?;
        Ok(indradb::Json::new(value))'''))
# util.rs
ok("util extract match", (UTIL, '''    if let Some(models::QueryOutputValue::Vertices(vertices)) = output.pop() {
        Some(vertices)
    } else {
        None
    }''', '''    match output.pop() {
        Some(models::QueryOutputValue::Vertices(vertices)) => Some(vertices),
        _ => None,
    }'''))
ok("util extract let else", (UTIL, '''    if let Some(models::QueryOutputValue::Edges(edges)) = output.pop() {
        Some(edges)
    } else {
        None
    }''', '''    match output.pop()? {
        models::QueryOutputValue::Edges(edges) => Some(edges),
        _ => None,
    }'''))
ok("util extract last", (UTIL, '''    if let Some(models::QueryOutputValue::Count(count)) = output.pop() {
        Some(count)
    } else {
        None
    }''', '''    output.pop().and_then(|value| match value {
        models::QueryOutputValue::Count(count) => Some(count),
        _ => None,
    })'''))
ok("util byte_len sum", (UTIL, '''    let len = components.iter().fold(0, |len, component| len + component.byte_len());
''', '''    let len = components.iter().map(|component| component.byte_len()).sum();
'''))
ok("util build for_each", (UTIL, '''    for component in components {
        component
            .write(&mut cursor)
            .expect("failed to write bytes to in-memory buffer");
    }
''', '''    components.iter().for_each(|component| {
        component
            .write(&mut cursor)
            .expect("failed to write bytes to in-memory buffer")
    });
'''))
ok("util json hash fn", (UTIL, '''                let mut hasher = DefaultHasher::new();
                json.hash(&mut hasher);
                let hash = hasher.finish();
                cursor.write_u64::<BigEndian>(hash)''', '''                cursor.write_u64::<BigEndian>(hash_json(json))'''), (UTIL, '''impl Component<'_> {''', '''fn hash_json(json: &models::Json) -> u64 {
    let mut hasher = DefaultHasher::default();
    json.hash(&mut hasher);
    hasher.finish()
}

impl Component<'_> {'''))
ok("util ident vec", (UTIL, '''                cursor.write_all(&[i.0.len() as u8])?;
                cursor.write_all(i.0.as_bytes())''', '''                let bytes = i.0.as_bytes();
                cursor.write_u8(bytes.len() as u8)?;
                cursor.write_all(bytes)'''))
ok("util next overflowing", (UTIL, '''        if bytes[i] < 255 {
            bytes[i] += 1;
            return Ok(Uuid::from_slice(&bytes[..]).unwrap());
        } else {
            bytes[i] = 0;
        }''', '''        let (next, overflow) = bytes[i].overflowing_add(1);
        bytes[i] = next;
        if !overflow {
            return Ok(Uuid::from_bytes(bytes));
        }'''))
ok("util next checked", (UTIL, '''        if bytes[i] < 255 {
            bytes[i] += 1;
            return Ok(Uuid::from_slice(&bytes[..]).unwrap());
        } else {
            bytes[i] = 0;
        }''', '''        match bytes[i].checked_add(1) {
            Some(b) => {
                bytes[i] = b;
                return Ok(Uuid::from_bytes(bytes));
            }
            None => bytes[i] = 0,
        }'''))
# json.rs
ok("json eq fn", (JSON, '''        self.partial_cmp(other) == Some(Ordering::Equal)''', '''        matches!(self.partial_cmp(other), Some(Ordering::Equal))'''))
ok("json numbers fn", (JSON, '''fn hash<H: Hasher>(value''', '''fn hash_number<H: Hasher>(v: &serde_json::Number, state: &mut H) {
    if let Some(i) = v.as_i64() {
        i.hash(state)
    } else if let Some(u) = v.as_u64() {
        u.hash(state)
    } else {
        v.as_f64().unwrap().to_bits().hash(state)
    }
}

fn hash<H: Hasher>(value'''), (JSON, '''            if v.is_i64() {
                v.as_i64().unwrap().hash(state);
            } else if v.is_u64() {
                v.as_u64().unwrap().hash(state);
            } else {
                // Note that there are 16m different NaN values, and they won't hash the same here
                v.as_f64().unwrap().to_bits().hash(state);
            }''', '''            hash_number(v, state);'''))
ok("json object keys", (JSON, '''                let (v1_key, v1_value) = v1;
                let (v2_key, v2_value) = v2;
                match v1_key.partial_cmp(v2_key) {
                    Some(Ordering::Equal) => partial_cmp(v1_value, v2_value),
                    non_eq => non_eq,
                }''', '''                let by_key = v1.0.partial_cmp(v2.0);
                if by_key != Some(Ordering::Equal) {
                    return by_key;
                }
                partial_cmp(v1.1, v2.1)'''))
ok("json by match pair", (JSON, '''        let x = match first.next() {
            None => {
                if second.next().is_none() {
                    return Some(Ordering::Equal);
                } else {
                    return Some(Ordering::Less);
                }
            }
            Some(val) => val,
        };

        let y = match second.next() {
            None => return Some(Ordering::Greater),
            Some(val) => val,
        };
''', '''        let (x, y) = match (first.next(), second.next()) {
            (None, None) => return Some(Ordering::Equal),
            (None, Some(_)) => return Some(Ordering::Less),
            (Some(_), None) => return Some(Ordering::Greater),
            (Some(x), Some(y)) => (x, y),
        };
'''))
# identifiers.rs
ok("ident early", (IDENT, '''        if s.len() > 255 {
            Err(ValidationError::ValueTooLong)
        } else if !s.chars().all(|c| c == '-' || c == '_' || c.is_alphanumeric()) {
            Err(ValidationError::InvalidValue)
        } else {
            Ok(Self(Intern::new(s)))
        }''', '''        if s.len() >= 256 {
            return Err(ValidationError::ValueTooLong);
        }
        if s.chars().any(|c| !(c.is_alphanumeric() || matches!(c, '-' | '_'))) {
            return Err(ValidationError::InvalidValue);
        }
        Ok(Identifier(Intern::new(s)))'''))
ok("ident valid char fn", (IDENT, '''impl Identifier {''', '''fn is_valid(c: char) -> bool {
    c == '-' || c == '_' || c.is_alphanumeric()
}

impl Identifier {'''), (IDENT, "s.chars().all(|c| c == '-' || c == '_' || c.is_alphanumeric())", "s.chars().all(is_valid)"))
# queries.rs
ok("qry limit mut", (QRY, '''    pub fn limit(self, limit: u32) -> Self {
        Self {
            limit,
            t: self.t,
            start_id: self.start_id,
        }
    }''', '''    pub fn limit(mut self, limit: u32) -> Self {
        self.limit = limit;
        self
    }'''))
ok("qry t struct update", (QRY, '''        Self {
            limit: self.limit,
            t: Some(t),
            start_id: self.start_id,
        }''', '''        Self { t: Some(t), ..self }'''))
ok("qry single vec", (QRY, '''        Self { ids: vec![id] }''', '''        Self::new(vec![id])'''))
ok("qry from str if", (QRY, '''        match s {
            "outbound" => Ok(EdgeDirection::Outbound),
            "inbound" => Ok(EdgeDirection::Inbound),
            _ => Err(errors::ValidationError::InvalidValue),
        }''', '''        if s == "outbound" {
            Ok(EdgeDirection::Outbound)
        } else if s == "inbound" {
            Ok(EdgeDirection::Inbound)
        } else {
            Err(errors::ValidationError::InvalidValue)
        }'''))
ok("qry output_len merge", (QRY, '''            Query::Include(q) => 1 + q.inner.output_len(),''', '''            Query::Include(q) => {
                let inner = q.inner.output_len();
                inner + 1
            }'''))
# plugins
ok("host record fn", (HOST, '''/// Trait for running''', '''fn record(slot: &Mutex<Option<Error>>, err: Error) {
    let mut slot = slot.lock().unwrap();
    if slot.is_none() {
        *slot = Some(err);
    }
}

/// Trait for running'''), (HOST, '''                        let mut first_err = first_err.lock().unwrap();
                        if first_err.is_none() {
                            *first_err = Some(err);
                        }''', '''                        record(&first_err, err);'''), (HOST, '''                let mut first_err = first_err.lock().unwrap();
                if first_err.is_none() {
                    *first_err = Some(Error::IndraDB(err));
                }''', '''                record(&first_err, Error::IndraDB(err));'''))
ok("host get_or_insert", (HOST, '''                        let mut first_err = first_err.lock().unwrap();
                        if first_err.is_none() {
                            *first_err = Some(err);
                        }''', '''                        first_err.lock().unwrap().get_or_insert(err);'''))
ok("host take", (HOST, '''    let mut first_err = first_err.lock().unwrap();
    if first_err.is_some() {
        Err(first_err.take().unwrap())
    } else if pool.panic_count() > 0 {
        Err(Error::Other("the map operation panicked".into()))
    } else {
        Ok(())
    }''', '''    if let Some(err) = first_err.lock().unwrap().take() {
        return Err(err);
    }
    if pool.panic_count() != 0 {
        return Err(Error::Other("the map operation panicked".into()));
    }
    Ok(())'''))
ok("naive ordering", (NAIVE, "self.count.fetch_add(1, Ordering::Relaxed);", "self.count.fetch_add(1, Ordering::SeqCst);"),
   (NAIVE, "mapper.count.load(Ordering::Relaxed)", "mapper.count.load(Ordering::SeqCst)"))
ok("naive let", (NAIVE, "plugin::util::map(txn, mapper.clone())?;", "plugin::util::map(txn, Arc::clone(&mapper))?;"),
   (NAIVE, "Ok(indradb::Json::new(count.into()))", "Ok(serde_json::Value::from(count).into())"))
# server main
ok("main arc once", (MAIN, '''    if let Some(plugin_path) = plugin_path {
        unsafe {
            proto::run_server_with_plugins(Arc::new(datastore), listener, plugin_path).await?;
        }
    } else {
        proto::run_server(Arc::new(datastore), listener).await?;
    }
''', '''    let db = Arc::new(datastore);
    match plugin_path {
        None => proto::run_server(db, listener).await?,
        Some(plugin_path) => unsafe { proto::run_server_with_plugins(db, listener, plugin_path).await? },
    }
'''))
ok("main repair fn", (MAIN, '''            if repair {
                indradb::RocksdbDatastore::repair(&path, &indradb::RocksdbDatastore::get_options(Some(max_open_files)))
                    .expect("Expected to be able to repair the RocksDB datastore");
                println!("repair successful");
                return Ok(());
            }

            let datastore = indradb::RocksdbDatastore::new_db_with_options(
                &path,
                &indradb::RocksdbDatastore::get_options(Some(max_open_files)),
            )''', '''            let options = indradb::RocksdbDatastore::get_options(Some(max_open_files));
            if repair {
                indradb::RocksdbDatastore::repair(&path, &options)
                    .expect("Expected to be able to repair the RocksDB datastore");
                println!("repair successful");
                return Ok(());
            }

            let datastore = indradb::RocksdbDatastore::new_db_with_options(&path, &options)'''))
ok("main memory exists", (MAIN, '''            let datastore = match path {
                None => indradb::MemoryDatastore::new_db(),
                Some(path) if Path::new(path.as_os_str()).exists() => indradb::MemoryDatastore::read_msgpack_db(path)?,
                Some(path) => indradb::MemoryDatastore::create_msgpack_db(path),
            };''', '''            let datastore = if let Some(path) = path {
                if Path::new(&path).exists() {
                    indradb::MemoryDatastore::read_msgpack_db(path)?
                } else {
                    indradb::MemoryDatastore::create_msgpack_db(path)
                }
            } else {
                indradb::MemoryDatastore::new_db()
            };'''))
# client main
ok("cmain vertex fn", (CMAIN, '''            let vertex_type = Identifier::new(matches.value_of("type").unwrap())?;
            let uuid = match matches.value_of("id") {
                Some(id) => Uuid::parse_str(id)?,
                None => generate_uuid_v1(),
            };
            let vertex = Vertex::with_id(uuid, vertex_type);
''', '''            let vertex = build_vertex(matches)?;
'''), (CMAIN, '''fn build_edge(''', '''fn build_vertex(matches: &clap::ArgMatches) -> Result<Vertex, Box<dyn StdError>> {
    let t = Identifier::new(matches.value_of("type").unwrap())?;
    let id = if let Some(id) = matches.value_of("id") {
        Uuid::parse_str(id)?
    } else {
        generate_uuid_v1()
    };
    Ok(Vertex::with_id(id, t))
}

fn build_edge('''))
ok("cmain prop name fn", (CMAIN, '''            let property_name = Identifier::new(matches.value_of("name").unwrap())?;
            let property_value = Json::from_str(matches.value_of("value").unwrap())?;
            client
                .set_properties(vertex_query, property_name, &property_value)
                .await?;''', '''            let (property_name, property_value) = build_property(matches)?;
            client
                .set_properties(vertex_query, property_name, &property_value)
                .await?;'''), (CMAIN, '''fn build_edge(''', '''fn build_property(matches: &clap::ArgMatches) -> Result<(Identifier, Json), Box<dyn StdError>> {
    let name = Identifier::new(matches.value_of("name").unwrap())?;
    let value = matches.value_of("value").unwrap().parse::<Json>()?;
    Ok((name, value))
}

fn build_edge('''))
ok("cmain count fn", (CMAIN, '''            let output = client.get(AllVertexQuery.count()?).await?;
            println!("{}", extract_count(output).unwrap());''', '''            let query = AllVertexQuery.count()?;
            let output = client.get(query).await?;
            let count = extract_count(output).unwrap();
            println!("{count}");'''))
