"""More edits that keep the behaviour, for all checks"""
MEM, RDB, MGR, DBF = 'lib/src/memory/datastore.rs', 'lib/src/rdb/datastore.rs', 'lib/src/rdb/managers.rs', 'lib/src/database.rs'
SRV, CLI, CONV = 'proto/src/server.rs', 'proto/src/client.rs', 'proto/src/converters.rs'
UTIL, JSON, IDENT, QRY, ERR = 'lib/src/util.rs', 'lib/src/models/json.rs', 'lib/src/models/identifiers.rs', 'lib/src/models/queries.rs', 'lib/src/errors.rs'
CASES = []


def ok(name, *edits):
    CASES.append((name, "ok", list(edits), []))


# memory
ok("mem delete vertices phases", (MEM, '''        for vertex in vertices {
            self.internal.vertices.remove(&vertex.id);

''', '''        for vertex in &vertices {
            self.internal.vertices.remove(&vertex.id);
        }
        for vertex in vertices {
'''))
ok("mem unindex and_then", (MEM, '''                if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
                    if let Some(members) = property_container.get_mut(&property_value) {
                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
                    }
                }
''', '''                if let Some(members) = self
                    .internal
                    .property_values
                    .get_mut(&property_name)
                    .and_then(|container| container.get_mut(&property_value))
                {
                    members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
                }
'''))
ok("mem unindex continue", (MEM, '''            if let Some(property_value) = self.internal.edge_properties.remove(&prop) {
                let (property_edge, property_name) = prop;
                if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
                    if let Some(members) = property_container.get_mut(&property_value) {
                        members.remove(&IndexedPropertyMember::Edge(property_edge));
                    }
                }
            }
''', '''            let property_value = match self.internal.edge_properties.remove(&prop) {
                Some(property_value) => property_value,
                None => continue,
            };
            let (property_edge, property_name) = prop;
            let Some(property_container) = self.internal.property_values.get_mut(&property_name) else {
                continue;
            };
            let Some(members) = property_container.get_mut(&property_value) else {
                continue;
            };
            members.remove(&IndexedPropertyMember::Edge(property_edge));
'''))
ok("mem create vertex contains", (MEM, '''        let mut inserted = false;

        self.internal.vertices.entry(vertex.id).or_insert_with(|| {
            inserted = true;
            vertex.t
        });

        Ok(inserted)
''', '''        if self.internal.vertices.contains_key(&vertex.id) {
            return Ok(false);
        }
        self.internal.vertices.insert(vertex.id, vertex.t);
        Ok(true)
'''))
ok("mem create edge all", (MEM, '''        if !self.internal.vertices.contains_key(&edge.outbound_id)
            || !self.internal.vertices.contains_key(&edge.inbound_id)
        {
            return Ok(false);
        }

        self.internal.edges.insert(edge.clone());
        self.internal.reversed_edges.insert(edge.reversed());
        Ok(true)
''', '''        let both_exist = [edge.outbound_id, edge.inbound_id]
            .iter()
            .all(|id| self.internal.vertices.contains_key(id));
        if both_exist {
            self.internal.reversed_edges.insert(edge.reversed());
            self.internal.edges.insert(edge.clone());
        }
        Ok(both_exist)
'''))
ok("mem delete edges retain", (MEM, '''            let mut deletable_edges: Vec<Edge> = Vec::new();
            for edge in self.internal.edges.iter() {
                if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {
                    deletable_edges.push(edge.clone());
                }
            }
            self.delete_edges(deletable_edges)?;
''', '''            let deletable_edges = self
                .internal
                .edges
                .iter()
                .filter(|edge| [edge.outbound_id, edge.inbound_id].contains(&vertex.id))
                .cloned()
                .collect();
            self.delete_edges(deletable_edges)?;
'''))
ok("mem set vertex props one loop", (MEM, '''        for vertex_id in &vertex_ids {
            self.internal
                .vertex_properties
                .insert((*vertex_id, name), value.clone());
        }

        if let Some(property_container) = self.internal.property_values.get_mut(&name) {
            let property_container = property_container.entry(value.clone()).or_insert_with(HashSet::new);
            for vertex_id in vertex_ids.into_iter() {
                property_container.insert(IndexedPropertyMember::Vertex(vertex_id));
            }
        }
''', '''        for vertex_id in vertex_ids {
            self.internal.vertex_properties.insert((vertex_id, name), value.clone());
            if let Some(property_container) = self.internal.property_values.get_mut(&name) {
                property_container
                    .entry(value.clone())
                    .or_default()
                    .insert(IndexedPropertyMember::Vertex(vertex_id));
            }
        }
'''))
ok("mem set deletable map", (MEM, '''        let mut deletable_vertex_properties = Vec::new();
        for vertex_id in &vertex_ids {
            deletable_vertex_properties.push((*vertex_id, name));
        }
        self.delete_vertex_properties(deletable_vertex_properties)?;
''', '''        self.delete_vertex_properties(vertex_ids.iter().map(|id| (*id, name)).collect())?;
'''))
ok("mem index members extend", (MEM, '''            let existing_members = existing_property_container.entry(value).or_default();
            for member in members {
                existing_members.insert(member);
            }
''', '''            existing_property_container.entry(value).or_default().extend(members);
'''))
ok("mem property cloned", (MEM, '''        if let Some(value) = self.internal.edge_properties.get(&(edge.clone(), name)) {
            Ok(Some(value.clone()))
        } else {
            Ok(None)
        }
''', '''        Ok(self.internal.edge_properties.get(&(edge.clone(), name)).cloned())
'''))
ok("mem all props take_while", (MEM, '''        let mut edge_properties = Vec::new();
        let from = &(edge.clone(), Identifier::default());
        for ((prop_edge, prop_name), prop_value) in self.internal.edge_properties.range(from..) {
            if prop_edge != edge {
                break;
            }
            edge_properties.push((*prop_name, prop_value.clone()));
        }
        Ok(Box::new(edge_properties.into_iter().map(Ok)))
''', '''        let from = (edge.clone(), Identifier::default());
        let edge = edge.clone();
        let iter = self
            .internal
            .edge_properties
            .range(from..)
            .take_while(move |((prop_edge, _), _)| *prop_edge == edge)
            .map(|((_, name), value)| Ok((*name, value.clone())));
        Ok(Box::new(iter))
'''))
ok("mem edges with property flatten", (MEM, '''            let mut edges = HashSet::<Edge>::default();
            for sub_container in container.values() {
                for member in sub_container {
                    if let IndexedPropertyMember::Edge(edge) = member {
                        edges.insert(edge.clone());
                    }
                }
            }
            Ok(Some(Box::new(edges.into_iter().map(Ok))))
''', '''            let edges: HashSet<Edge> = container
                .values()
                .flatten()
                .filter_map(|member| match member {
                    IndexedPropertyMember::Edge(edge) => Some(edge.clone()),
                    IndexedPropertyMember::Vertex(_) => None,
                })
                .collect();
            Ok(Some(Box::new(edges.into_iter().map(Ok))))
'''))
ok("mem sync closure", (MEM, '''            let temp_path = NamedTempFile::new_in(dir).map_err(|err| Error::Datastore(Box::new(err)))?;
''', '''            let failed = |err: std::io::Error| Error::Datastore(Box::new(err));
            let temp_path = NamedTempFile::new_in(dir).map_err(failed)?;
'''), (MEM, '''                buf.flush().map_err(|err| Error::Datastore(Box::new(err)))?;
''', '''                buf.flush().map_err(failed)?;
'''), (MEM, '''            temp_path
                .as_file()
                .sync_all()
                .map_err(|err| Error::Datastore(Box::new(err)))?;
''', '''            temp_path.as_file().sync_all().map_err(failed)?;
'''))
ok("mem specific loop", (MEM, '''        let iter = edges
            .into_iter()
            .filter(move |edge| self.internal.edges.contains(edge))
            .map(Ok);
        Ok(Box::new(iter))
''', '''        let mut found = Vec::with_capacity(edges.len());
        for edge in edges {
            if self.internal.edges.contains(&edge) {
                found.push(Ok(edge));
            }
        }
        Ok(Box::new(found.into_iter()))
'''))
# rocksdb
ok("rdb exists then", (RDB, '''        iter.filter_map(|item| match item {
            Ok((_, _, id)) => match self.vertex_manager.exists(id) {
                Ok(true) => Some(Ok(id)),
                Ok(false) => None,
                Err(err) => Some(Err(err)),
            },
            Err(err) => Some(Err(err)),
        })
''', '''        iter.filter_map(|item| {
            let check = || -> Result<Option<Uuid>> {
                let (_, _, id) = item?;
                let exists = self.vertex_manager.exists(id)?;
                Ok(exists.then_some(id))
            };
            check().transpose()
        })
'''))
ok("rdb specific map", (RDB, '''        let iter = ids.into_iter().filter_map(move |id| match self.vertex_manager.get(id) {
            Ok(Some(t)) => Some(Ok(Vertex::with_id(id, t))),
            Ok(None) => None,
            Err(err) => Some(Err(err)),
        });
''', '''        let iter = ids.into_iter().filter_map(move |id| {
            let found = self.vertex_manager.get(id).transpose()?;
            Some(found.map(|t| Vertex::with_id(id, t)))
        });
'''))
ok("rdb edges map ok", (RDB, '''                .iterate_for_name(name)
                .map(|r| match r {
                    Ok((_, _, e)) => Ok(e),
                    Err(err) => Err(err),
                });
''', '''                .iterate_for_name(name)
                .map(|r| r.map(|(_, _, e)| e));
'''))
ok("rdb property direct", (RDB, '''        match self.vertex_property_manager.get(vertex.id, name)? {
            None => Ok(None),
            Some(value) => Ok(Some(value)),
        }
''', '''        self.vertex_property_manager.get(vertex.id, name)
'''))
ok("rdb lock late", (RDB, '''        let indexed_properties = self.indexed_properties.read().unwrap();
        let mut batch = WriteBatch::default();

        for edge in edges.into_iter() {
            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
        }

        self.db.write(batch)?;
        Ok(())
''', '''        let mut batch = WriteBatch::default();
        let indexed = self.indexed_properties.read().unwrap();
        edges
            .iter()
            .try_for_each(|edge| self.edge_manager.delete(&mut batch, &indexed, edge))?;
        Ok(self.db.write(batch)?)
'''))
ok("rdb sync grouped", (RDB, '''        self.vertex_manager.compact();
        self.edge_range_manager.compact();
        self.reversed_edge_range_manager.compact();
        self.vertex_property_manager.compact();
''', '''        for edges in [&self.edge_range_manager, &self.reversed_edge_range_manager] {
            edges.compact();
        }
        self.vertex_property_manager.compact();
        self.vertex_manager.compact();
'''))
ok("rdb bulk by value", (RDB, '''                BulkInsertItem::VertexProperty(id, ref name, ref value) => {
                    self.vertex_property_manager
                        .set(&mut batch, &indexed_properties, id, *name, value)?;
                }
                BulkInsertItem::EdgeProperty(ref edge, ref name, ref value) => {
                    self.edge_property_manager
                        .set(&mut batch, &indexed_properties, edge, *name, value)?;
                }
''', '''                BulkInsertItem::EdgeProperty(edge, name, value) => {
                    let manager = &self.edge_property_manager;
                    manager.set(&mut batch, &indexed_properties, &edge, name, &value)?
                }
                BulkInsertItem::VertexProperty(id, name, value) => {
                    let manager = &self.vertex_property_manager;
                    manager.set(&mut batch, &indexed_properties, id, name, &value)?
                }
'''))
ok("rdb create batch outside", (RDB, '''        if self.vertex_manager.exists(vertex.id)? {
            Ok(false)
        } else {
            let mut batch = WriteBatch::default();
            self.vertex_manager.create(&mut batch, vertex)?;
            self.db.write(batch)?;
            Ok(true)
        }
''', '''        let is_new = !self.vertex_manager.exists(vertex.id)?;
        if is_new {
            let mut batch = WriteBatch::default();
            self.vertex_manager.create(&mut batch, vertex)?;
            self.db.write(batch)?;
        }
        Ok(is_new)
'''))
ok("rdb lookup then", (RDB, '''        if self.indexed_properties.read().unwrap().contains(&name) {
            let iter = self.vertex_property_value_manager.iterate_for_value(name, value);
            let iter = self.vertex_ids_from_property_value_iterator(iter);
            Ok(Some(Box::new(iter)))
        } else {
            Ok(None)
        }
''', '''        let indexed = self.indexed_properties.read().unwrap().contains(&name);
        Ok(indexed.then(|| {
            let iter = self.vertex_property_value_manager.iterate_for_value(name, value);
            let iter: DynIter<'a, Uuid> = Box::new(self.vertex_ids_from_property_value_iterator(iter));
            iter
        }))
'''))
ok("rdb count fold", (RDB, '''        let iter = self.vertex_manager.iterate_for_range(Uuid::default());
        iter.count() as u64
''', '''        let mut count: u64 = 0;
        for _ in self.vertex_manager.iterate_for_range(Uuid::default()) {
            count += 1;
        }
        count
'''))
# database
ok("db from type match", (DBF, '''        if !self.create_vertex(&v)? {
            Err(Error::UuidTaken)
        } else {
            Ok(v.id)
        }
''', '''        match self.create_vertex(&v) {
            Ok(true) => Ok(v.id),
            Ok(false) => Err(Error::UuidTaken),
            Err(err) => Err(err),
        }
'''))
ok("db delete refuse first", (DBF, '''        match output.pop().unwrap() {
            QueryOutputValue::Vertices(vertices) => {
                txn.delete_vertices(vertices)?;
            }
            QueryOutputValue::Edges(edges) => {
                txn.delete_edges(edges)?;
            }
''', '''        let value = output.pop().unwrap();
        if let QueryOutputValue::Count(_) = value {
            return Err(Error::OperationOnQuery);
        }
        match value {
            QueryOutputValue::Vertices(vertices) => {
                txn.delete_vertices(vertices)?;
            }
            QueryOutputValue::Edges(edges) => {
                txn.delete_edges(edges)?;
            }
'''), )
ok("db delete flat loops", (DBF, '''                txn.delete_vertex_properties(
                    vertex_properties
                        .into_iter()
                        .flat_map(|vps| {
                            let iter = vps.props.iter().map(move |vp| (vps.vertex.id, vp.name));
                            iter.collect::<Vec<(Uuid, Identifier)>>()
                        })
                        .collect(),
                )?;
''', '''                let mut keys = Vec::new();
                for vps in &vertex_properties {
                    keys.extend(vps.props.iter().map(|vp| (vps.vertex.id, vp.name)));
                }
                txn.delete_vertex_properties(keys)?;
'''))
ok("db set tail", (DBF, '''            QueryOutputValue::Edges(edges) => {
                txn.set_edge_properties(edges, name, value)?;
            }
            _ => return Err(Error::OperationOnQuery),
        }
        Ok(())
''', '''            QueryOutputValue::Edges(edges) => txn.set_edge_properties(edges, name, value),
            QueryOutputValue::VertexProperties(_)
            | QueryOutputValue::EdgeProperties(_)
            | QueryOutputValue::Count(_) => Err(Error::OperationOnQuery),
        }
'''), (DBF, '''                txn.set_vertex_properties(vertices.into_iter().map(|v| v.id).collect(), name, value)?;
            }
''', '''                let ids = vertices.iter().map(|v| v.id).collect();
                txn.set_vertex_properties(ids, name, value)
            }
'''))
ok("db evaluate helper", (DBF, '''    /// Deletes values specified by a query.
''', '''    /// Evaluates a query in a transaction.
    fn evaluate(txn: &D::Transaction<'_>, q: &Query) -> Result<Vec<QueryOutputValue>> {
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(txn as *const D::Transaction<'_>, q, &mut output)?;
        }
        Ok(output)
    }

    /// Deletes values specified by a query.
'''), (DBF, '''        let txn = self.datastore.transaction();
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(&txn as *const D::Transaction<'_>, &q, &mut output)?;
        }
        Ok(output)
''', '''        let txn = self.datastore.transaction();
        Self::evaluate(&txn, &q)
'''))
ok("db range start", (DBF, '''            let mut iter: DynIter<Vertex> = if let Some(start_id) = q.start_id {
                (*txn).range_vertices(start_id)?
            } else {
                (*txn).all_vertices()?
            };
''', '''            let mut iter: DynIter<Vertex> = match q.start_id {
                None => (*txn).all_vertices()?,
                Some(start_id) => (*txn).range_vertices(start_id)?,
            };
'''))
ok("db pipe bound", (DBF, '''                        let lower_bound = match &q.t {
                            Some(t) => Edge::new(vertex.id, *t, Uuid::default()),
                            None => Edge::new(vertex.id, Identifier::default(), Uuid::default()),
                        };
''', '''                        let lower_bound = Edge::new(vertex.id, q.t.unwrap_or_default(), Uuid::default());
'''))
ok("db pipe remaining", (DBF, '''                    for vertex in piped_vertices {
                        let lower_bound''', '''                    let limit = q.limit as usize;
                    for vertex in piped_vertices {
                        let lower_bound'''), (DBF, '''                        iter = Box::new(iter.take((q.limit as usize) - edges.len()));

                        for result in iter {
                            edges.push(result?);
                        }

                        if edges.len() >= (q.limit as usize) {
                            break;
                        }
''', '''                        let remaining = limit.saturating_sub(edges.len());
                        for result in iter.take(remaining) {
                            let edge = result?;
                            edges.push(edge);
                        }

                        if edges.len() == limit {
                            break;
                        }
'''))
ok("db pipe filter flag", (DBF, '''                        if let Some(ref t) = q.t {
                            iter = Box::new(iter.filter(move |r| match r {
                                Ok(e) => &e.t == t,
                                Err(_) => true,
                            }));
                        }

                        if q.direction''', '''                        iter = Box::new(iter.filter(move |r| match (r, q.t) {
                            (Ok(e), Some(t)) => e.t == t,
                            _ => true,
                        }));

                        if q.direction'''))
# errors
ok("err source let", (ERR, '''        match *self {
            Error::Datastore(ref err) => Some(&**err),
            Error::Io(ref err) => Some(err),
            Error::Invalid(ref err) => Some(err),
            _ => None,
        }
''', '''        let source: &(dyn StdError + 'static) = match self {
            Error::Datastore(err) => err.as_ref(),
            Error::Io(err) => err,
            Error::Invalid(err) => err,
            Error::UuidTaken | Error::NotIndexed | Error::Unsupported | Error::OperationOnQuery => return None,
        };
        Some(source)
'''))
ok("err display strs", (ERR, '''            ValidationError::InvalidValue => write!(f, "invalid value"),
            ValidationError::ValueTooLong => write!(f, "value too long"),
''', '''            ValidationError::InvalidValue => f.write_str("invalid value"),
            ValidationError::ValueTooLong => f.write_str("value too long"),
'''))
ok("err boxed helper", (ERR, '''impl From<JsonError> for Error {
    fn from(err: JsonError) -> Self {
        Error::Datastore(Box::new(err))
''', '''impl Error {
    fn datastore<E: StdError + Send + Sync + 'static>(err: E) -> Self {
        Error::Datastore(Box::new(err))
    }
}

impl From<JsonError> for Error {
    fn from(err: JsonError) -> Self {
        Error::datastore(err)
'''))
ok("err boxed into", (ERR, '''    fn from(err: RmpEncodeError) -> Self {
        Error::Datastore(Box::new(err))
''', '''    fn from(err: RmpEncodeError) -> Self {
        Error::Datastore(err.into())
'''))
