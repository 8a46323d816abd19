"""Edits that keep the behaviour, for all checks"""
MEM, RDB, MGR, DBF = 'lib/src/memory/datastore.rs', 'lib/src/rdb/datastore.rs', 'lib/src/rdb/managers.rs', 'lib/src/database.rs'
CASES = []


def ok(name, *edits):
    CASES.append((name, "ok", list(edits), []))


# managers.rs
ok("mgr prefix struct", (MGR, '''fn take_with_prefix(iterator: DBIterator<'_>, prefix: Vec<u8>) -> impl Iterator<Item = RocksReadResult> + '_ {
    iterator.take_while(move |item| -> bool {
        if let Ok((ref k, _)) = *item {
            k.starts_with(&prefix)
        } else {
            true
        }
    })
}''', '''fn has_prefix(item: &RocksReadResult, prefix: &[u8]) -> bool {
    match item {
        Ok((k, _)) => k.starts_with(prefix),
        Err(_) => true,
    }
}

fn take_with_prefix(iterator: DBIterator<'_>, prefix: Vec<u8>) -> impl Iterator<Item = RocksReadResult> + '_ {
    iterator.take_while(move |item| has_prefix(item, &prefix))
}'''))
ok("mgr prefix slice compare", (MGR, "k.starts_with(&prefix)", "k.len() >= prefix.len() && k[..prefix.len()] == prefix[..]"))
ok("mgr prefix get", (MGR, "k.starts_with(&prefix)", "k.get(..prefix.len()) == Some(&prefix[..])"))
ok("mgr prefix scan helper", (MGR, '''pub(crate) struct VertexManager<'a> {''', '''fn scan<'a>(db: &'a DB, cf: &ColumnFamilyRef<'a>, prefix: Vec<u8>) -> impl Iterator<Item = RocksReadResult> + 'a {
    let iter = db.iterator_cf(cf, IteratorMode::From(&prefix, Direction::Forward));
    take_with_prefix(iter, prefix)
}

pub(crate) struct VertexManager<'a> {'''), (MGR, '''        let iterator = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));

        let filtered = take_with_prefix(iterator, prefix);

        Ok(filtered.map(''', '''        Ok(scan(self.db, &self.cf, prefix).map('''), (MGR, '''        let iterator = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));

        let filtered = take_with_prefix(iterator, prefix);
''', '''        let filtered = scan(self.db, &self.cf, prefix);
'''))
ok("mgr vertex delete helpers", (MGR, '''        let edge_manager = EdgeManager::new(self.db);

        {
            let edge_range_manager = EdgeRangeManager::new(self.db);
            for item in edge_range_manager.iterate_for_root(id, None)? {
                let edge = item?;
                debug_assert_eq!(edge.outbound_id, id);
                edge_manager.delete(batch, indexed_properties, &edge)?;
            }
        }

        {
            let reversed_edge_range_manager = EdgeRangeManager::new_reversed(self.db);
            for item in reversed_edge_range_manager.iterate_for_root(id, None)? {
                let edge = item?;
                debug_assert_eq!(edge.outbound_id, id);
                edge_manager.delete(batch, indexed_properties, &edge.reversed())?;
            }
        }

        Ok(())
    }
''', '''        self.delete_edges(batch, indexed_properties, EdgeRangeManager::new(self.db), id, false)?;
        self.delete_edges(batch, indexed_properties, EdgeRangeManager::new_reversed(self.db), id, true)
    }

    fn delete_edges(
        &self,
        batch: &mut WriteBatch,
        indexed_properties: &HashSet<models::Identifier>,
        range: EdgeRangeManager<'_>,
        id: Uuid,
        reversed: bool,
    ) -> Result<()> {
        let edge_manager = EdgeManager::new(self.db);
        for item in range.iterate_for_root(id, None)? {
            let edge = item?;
            let edge = if reversed { edge.reversed() } else { edge };
            edge_manager.delete(batch, indexed_properties, &edge)?;
        }
        Ok(())
    }
'''))
ok("mgr vertex delete order", (MGR, '''        batch.delete_cf(&self.cf, self.key(id));

        let vertex_property_manager''', '''        let vertex_property_manager'''), (MGR, '''                edge_manager.delete(batch, indexed_properties, &edge.reversed())?;
            }
        }

        Ok(())''', '''                edge_manager.delete(batch, indexed_properties, &edge.reversed())?;
            }
        }

        batch.delete_cf(&self.cf, self.key(id));
        Ok(())'''))
ok("mgr vertex delete chain", (MGR, '''        {
            let edge_range_manager = EdgeRangeManager::new(self.db);
            for item in edge_range_manager.iterate_for_root(id, None)? {
                let edge = item?;
                debug_assert_eq!(edge.outbound_id, id);
                edge_manager.delete(batch, indexed_properties, &edge)?;
            }
        }

        {
            let reversed_edge_range_manager = EdgeRangeManager::new_reversed(self.db);
            for item in reversed_edge_range_manager.iterate_for_root(id, None)? {
                let edge = item?;
                debug_assert_eq!(edge.outbound_id, id);
                edge_manager.delete(batch, indexed_properties, &edge.reversed())?;
            }
        }
''', '''        let edge_range_manager = EdgeRangeManager::new(self.db);
        let reversed_edge_range_manager = EdgeRangeManager::new_reversed(self.db);
        let outbound = edge_range_manager.iterate_for_root(id, None)?;
        let inbound = reversed_edge_range_manager
            .iterate_for_root(id, None)?
            .map(|item| item.map(|edge| edge.reversed()));
        for edge in outbound.chain(inbound) {
            edge_manager.delete(batch, indexed_properties, &edge?)?;
        }
'''))
ok("mgr edge delete order", (MGR, '''        let edge_range_manager = EdgeRangeManager::new(self.db);
        edge_range_manager.delete(batch, edge)?;

        let reversed_edge_range_manager = EdgeRangeManager::new_reversed(self.db);
        reversed_edge_range_manager.delete(batch, &edge.reversed())?;

        let edge_property_manager = EdgePropertyManager::new(self.db);
        for item in edge_property_manager.iterate_for_owner(edge)? {
            let (edge_property_edge, edge_property_name, _) = item?;
            edge_property_manager.delete(batch, indexed_properties, &edge_property_edge, edge_property_name)?;
        }

        Ok(())''', '''        let edge_property_manager = EdgePropertyManager::new(self.db);
        let properties: Vec<EdgePropertyItem> = edge_property_manager.iterate_for_owner(edge)?.collect::<Result<_>>()?;
        for (owner, name, _) in &properties {
            edge_property_manager.delete(batch, indexed_properties, owner, *name)?;
        }

        EdgeRangeManager::new(self.db).delete(batch, edge)?;
        EdgeRangeManager::new_reversed(self.db).delete(batch, &edge.reversed())'''))
ok("mgr edge set no contains", (MGR, '''        if edge_range_manager.contains(edge)? {
            edge_range_manager.delete(batch, edge)?;
            reversed_edge_range_manager.delete(batch, &reversed_edge)?;
        }

''', ""))
ok("mgr vp set reorder", (MGR, '''        let is_indexed = indexed_properties.contains(&name);
        let key = self.key(vertex_id, name);
        if is_indexed {
            self.delete(batch, indexed_properties, vertex_id, name)?;
        }
        let value_json = serde_json::to_vec(value)?;
        batch.put_cf(&self.cf, &key, &value_json);
        if is_indexed {
            let vertex_property_value_manager = VertexPropertyValueManager::new(self.db);
            vertex_property_value_manager.set(batch, vertex_id, name, value);
        }
        Ok(())''', '''        let value_json = serde_json::to_vec(value)?;
        if indexed_properties.contains(&name) {
            self.delete(batch, indexed_properties, vertex_id, name)?;
            VertexPropertyValueManager::new(self.db).set(batch, vertex_id, name, value);
        }
        batch.put_cf(&self.cf, self.key(vertex_id, name), value_json);
        Ok(())'''))
ok("mgr ep set unindex helper", (MGR, '''        if indexed_properties.contains(&name) {
            if let Some(value) = self.get(edge, name)? {
                let edge_property_value_manager = EdgePropertyValueManager::new(self.db);
                edge_property_value_manager.delete(batch, edge, name, &value);
            }
        }
        batch.delete_cf(&self.cf, self.key(edge, name));
        Ok(())
    }
''', '''        if indexed_properties.contains(&name) {
            self.unindex(batch, edge, name)?;
        }
        batch.delete_cf(&self.cf, self.key(edge, name));
        Ok(())
    }

    fn unindex(&self, batch: &mut WriteBatch, edge: &models::Edge, name: models::Identifier) -> Result<()> {
        let Some(value) = self.get(edge, name)? else {
            return Ok(());
        };
        EdgePropertyValueManager::new(self.db).delete(batch, edge, name, &value);
        Ok(())
    }
'''), (MGR, '''        if is_indexed {
            self.delete(batch, indexed_properties, edge, name)?;
        }
''', '''        if is_indexed {
            self.unindex(batch, edge, name)?;
        }
'''))
ok("mgr vp delete early", (MGR, '''        if indexed_properties.contains(&name) {
            if let Some(value) = self.get(vertex_id, name)? {
                let vertex_property_value_manager = VertexPropertyValueManager::new(self.db);
                vertex_property_value_manager.delete(batch, vertex_id, name, &value);
            }
        }
        batch.delete_cf(&self.cf, self.key(vertex_id, name));
        Ok(())''', '''        let key = self.key(vertex_id, name);
        batch.delete_cf(&self.cf, &key);
        if !indexed_properties.contains(&name) {
            return Ok(());
        }
        match self.get(vertex_id, name)? {
            Some(value) => {
                VertexPropertyValueManager::new(self.db).delete(batch, vertex_id, name, &value);
                Ok(())
            }
            None => Ok(()),
        }'''))
ok("mgr get and_then", (MGR, '''        match self.db.get_cf(&self.cf, self.key(vertex_id, name))? {
            Some(value_bytes) => Ok(Some(serde_json::from_slice(&value_bytes)?)),
            None => Ok(None),
        }''', '''        let bytes = self.db.get_cf(&self.cf, self.key(vertex_id, name))?;
        let value = bytes.map(|bytes| serde_json::from_slice(&bytes)).transpose()?;
        Ok(value)'''))
ok("mgr parse helper", (MGR, '''pub(crate) struct VertexManager<'a> {''', '''fn read_edge<T: AsRef<[u8]>>(cursor: &mut Cursor<T>) -> Result<models::Edge> {
    let outbound_id = util::read_uuid(cursor)?;
    let t = unsafe { util::read_identifier(cursor)? };
    let inbound_id = util::read_uuid(cursor)?;
    Ok(models::Edge {
        outbound_id,
        t,
        inbound_id,
    })
}

pub(crate) struct VertexManager<'a> {'''), (MGR, '''            let first_id = util::read_uuid(&mut cursor)?;
            let t = unsafe { util::read_identifier(&mut cursor)? };
            let second_id = util::read_uuid(&mut cursor)?;
            Ok(models::Edge::new(first_id, t, second_id))''', '''            read_edge(&mut cursor)'''), (MGR, '''            let out_id = util::read_uuid(&mut cursor)?;
            let t = unsafe { util::read_identifier(&mut cursor)? };
            let in_id = util::read_uuid(&mut cursor)?;
            Ok((name, value_hash, models::Edge::new(out_id, t, in_id)))''', '''            Ok((name, value_hash, read_edge(&mut cursor)?))'''))
ok("mgr key parts helper", (MGR, '''    fn key(&self, edge: &models::Edge, name: models::Identifier) -> Vec<u8> {
        util::build(&[
            util::Component::Uuid(edge.outbound_id),
            util::Component::Identifier(edge.t),
            util::Component::Uuid(edge.inbound_id),
            util::Component::FixedLengthString(&name.0),
        ])
    }
''', '''    fn prefix(edge: &models::Edge) -> Vec<u8> {
        util::build(&[
            util::Component::Uuid(edge.outbound_id),
            util::Component::Identifier(edge.t),
            util::Component::Uuid(edge.inbound_id),
        ])
    }

    fn key(&self, edge: &models::Edge, name: models::Identifier) -> Vec<u8> {
        let mut key = Self::prefix(edge);
        key.extend(util::build(&[util::Component::FixedLengthString(&name.0)]));
        key
    }
'''), (MGR, '''        let prefix = util::build(&[
            util::Component::Uuid(edge.outbound_id),
            util::Component::Identifier(edge.t),
            util::Component::Uuid(edge.inbound_id),
        ]);

        let iterator''', '''        let prefix = Self::prefix(edge);

        let iterator'''))
ok("mgr range key self", (MGR, '''        let low_key = util::build(&[
            util::Component::Uuid(first_id),
            util::Component::Identifier(t),
            util::Component::Uuid(second_id),
        ]);
        let iter = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&low_key, Direction::Forward));
        Ok(Box::new(self.iterate(iter)))''', '''        let low_key = self.key(&models::Edge::new(first_id, t, second_id));
        let mode = IteratorMode::From(&low_key, Direction::Forward);
        Ok(Box::new(self.iterate(self.db.iterator_cf(&self.cf, mode))))'''))
ok("mgr root components", (MGR, '''        let (prefix, iter) = match t {
            Some(t) => {
                let prefix = util::build(&[util::Component::Uuid(id), util::Component::Identifier(t)]);
                let low_key = util::build(&[util::Component::Uuid(id), util::Component::Identifier(t)]);
                let iter = self
                    .db
                    .iterator_cf(&self.cf, IteratorMode::From(&low_key, Direction::Forward));
                (prefix, iter)
            }
            None => {
                let prefix = util::build(&[util::Component::Uuid(id)]);
                let iter = self
                    .db
                    .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));
                (prefix, iter)
            }
        };
''', '''        let mut components = vec![util::Component::Uuid(id)];
        if let Some(t) = t {
            components.push(util::Component::Identifier(t));
        }
        let prefix = util::build(&components);
        let iter = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));
'''))
ok("mgr edge iterate loop", (MGR, '''    pub fn iterate_for_all(&'a self) -> impl Iterator<Item = Result<models::Edge>> + 'a {
        let iterator = self.db.iterator_cf(&self.cf, IteratorMode::Start);
        self.iterate(iterator)
    }''', '''    pub fn iterate_for_all(&'a self) -> impl Iterator<Item = Result<models::Edge>> + 'a {
        self.iterate(self.db.full_iterator_cf(&self.cf, IteratorMode::Start))
    }'''))
ok("mgr vertex from fn", (MGR, '''        iter.map(|item| -> Result<models::Vertex> {
            let (k, v) = item?;

            let id = {
                debug_assert_eq!(k.len(), 16);
                let mut cursor = Cursor::new(k);
                util::read_uuid(&mut cursor)?
            };

            let mut cursor = Cursor::new(v);
            let t = unsafe { util::read_identifier(&mut cursor)? };
            Ok(models::Vertex::with_id(id, t))
        })
    }
''', '''        iter.map(Self::parse)
    }

    fn parse(item: RocksReadResult) -> Result<models::Vertex> {
        let (key, value) = item?;
        let t = unsafe { util::read_identifier(&mut Cursor::new(value))? };
        let id = util::read_uuid(&mut Cursor::new(key))?;
        Ok(models::Vertex { id, t })
    }
'''))
ok("mgr exists via get", (MGR, '''        Ok(self.db.get_cf(&self.cf, self.key(id))?.is_some())
    }

    pub fn get(''', '''        let value = self.db.get_cf(&self.cf, self.key(id))?;
        Ok(matches!(value, Some(_)))
    }

    pub fn get('''))
ok("mgr get pinned", (MGR, '''        Ok(self.db.get_cf(&self.cf, self.key(edge))?.is_some())''', '''        self.db
            .get_pinned_cf(&self.cf, self.key(edge))
            .map(|value| value.is_some())
            .map_err(|err| err.into())'''))
ok("mgr metadata const", (MGR, '''        match self.db.get_cf(&self.cf, "indexed_properties")? {
            Some(value_bytes) => Ok(bincode::deserialize(&value_bytes)?),
            None => Ok(HashSet::default()),
        }''', '''        let value_bytes = match self.db.get_cf(&self.cf, INDEXED_PROPERTIES)? {
            Some(value_bytes) => value_bytes,
            None => return Ok(HashSet::new()),
        };
        let names = bincode::deserialize(&value_bytes)?;
        Ok(names)'''), (MGR, '''        batch.put_cf(&self.cf, "indexed_properties", &value_bytes);''', '''        batch.put_cf(&self.cf, INDEXED_PROPERTIES, value_bytes);'''), (MGR, "pub(crate) struct VertexManager", "const INDEXED_PROPERTIES: &str = \"indexed_properties\";\n\npub(crate) struct VertexManager"))
ok("mgr value iterate generic", (MGR, '''        let prefix = util::build(&[util::Component::Identifier(property_name)]);
        let iter = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));
        self.iterate(iter, prefix)''', '''        self.iterate_from(util::build(&[util::Component::Identifier(property_name)]))'''), (MGR, '''    pub fn iterate_for_name(
        &'a self,
        property_name: models::Identifier,
    ) -> impl Iterator<Item = Result<VertexPropertyValueKey>> + 'a {''', '''    fn iterate_from(&'a self, prefix: Vec<u8>) -> impl Iterator<Item = Result<VertexPropertyValueKey>> + 'a {
        let iter = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));
        self.iterate(iter, prefix)
    }

    pub fn iterate_for_name(
        &'a self,
        property_name: models::Identifier,
    ) -> impl Iterator<Item = Result<VertexPropertyValueKey>> + 'a {'''))
# rdb/datastore.rs
ok("rdb batch helper", (RDB, '''impl<'a> Transaction<'a> for RocksdbTransaction<'a> {''', '''impl<'a> RocksdbTransaction<'a> {
    fn in_batch<F>(&self, f: F) -> Result<()>
    where
        F: FnOnce(&Self, &mut WriteBatch, &HashSet<Identifier>) -> Result<()>,
    {
        let indexed_properties = self.indexed_properties.read().unwrap();
        let mut batch = WriteBatch::default();
        f(self, &mut batch, &indexed_properties)?;
        self.db.write(batch)?;
        Ok(())
    }
}

impl<'a> Transaction<'a> for RocksdbTransaction<'a> {'''), (RDB, '''        let indexed_properties = self.indexed_properties.read().unwrap();
        let mut batch = WriteBatch::default();

        for vertex in vertices.into_iter() {
            self.vertex_manager.delete(&mut batch, &indexed_properties, vertex.id)?;
        }

        self.db.write(batch)?;
        Ok(())''', '''        self.in_batch(|txn, batch, indexed_properties| {
            for vertex in &vertices {
                txn.vertex_manager.delete(batch, indexed_properties, vertex.id)?;
            }
            Ok(())
        })'''), (RDB, '''        let indexed_properties = self.indexed_properties.read().unwrap();
        let mut batch = WriteBatch::default();
        for id in vertices.into_iter() {
            self.vertex_property_manager
                .set(&mut batch, &indexed_properties, id, name, value)?;
        }
        self.db.write(batch)?;
        Ok(())''', '''        self.in_batch(|txn, batch, indexed| {
            vertices
                .iter()
                .try_for_each(|id| txn.vertex_property_manager.set(batch, indexed, *id, name, value))
        })'''))
ok("rdb commit helper", (RDB, '''impl<'a> Transaction<'a> for RocksdbTransaction<'a> {''', '''impl<'a> RocksdbTransaction<'a> {
    fn commit(&self, batch: WriteBatch) -> Result<()> {
        self.db.write(batch)?;
        Ok(())
    }
}

impl<'a> Transaction<'a> for RocksdbTransaction<'a> {'''), (RDB, '''            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
        }

        self.db.write(batch)?;
        Ok(())''', '''            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
        }

        self.commit(batch)'''), (RDB, '''            self.vertex_manager.create(&mut batch, vertex)?;
            self.db.write(batch)?;
            Ok(true)''', '''            self.vertex_manager.create(&mut batch, vertex)?;
            self.commit(batch)?;
            Ok(true)'''))
ok("rdb write map_err", (RDB, '''                .delete(&mut batch, &indexed_properties, &edge, name)?;
        }

        self.db.write(batch)?;
        Ok(())''', '''                .delete(&mut batch, &indexed_properties, &edge, name)?;
        }

        self.db.write(batch).map_err(|err| err.into())'''))
ok("rdb is indexed helper", (RDB, '''    fn vertex_ids_from_property_value_iterator(''', '''    fn is_indexed(&self, name: &Identifier) -> bool {
        let indexed_properties = self.indexed_properties.read().unwrap();
        indexed_properties.contains(name)
    }

    fn vertex_ids_from_property_value_iterator('''), (RDB, '''        if self.indexed_properties.read().unwrap().contains(&name) {
            let iter = self.vertex_property_value_manager.iterate_for_name(name);
            let iter = self.vertex_ids_from_property_value_iterator(iter);
            Ok(Some(Box::new(iter)))
        } else {
            Ok(None)
        }''', '''        if !self.is_indexed(&name) {
            return Ok(None);
        }
        let iter = self.vertex_property_value_manager.iterate_for_name(name);
        Ok(Some(Box::new(self.vertex_ids_from_property_value_iterator(iter))))'''), (RDB, '''        if self.indexed_properties.read().unwrap().contains(&name) {
            let iter = self
                .edge_property_value_manager
                .iterate_for_name(name)
                .map(|r| match r {
                    Ok((_, _, e)) => Ok(e),
                    Err(err) => Err(err),
                });
            Ok(Some(Box::new(iter)))
        } else {
            Ok(None)
        }''', '''        Ok(if self.is_indexed(&name) {
            let iter = self.edge_property_value_manager.iterate_for_name(name);
            Some(Box::new(iter.map(|r| r.map(|(_, _, e)| e))))
        } else {
            None
        })'''))
ok("rdb exists filter", (RDB, '''        iter.filter_map(|item| match item {
            Ok((_, _, id)) => match self.vertex_manager.exists(id) {
                Ok(true) => Some(Ok(id)),
                Ok(false) => None,
                Err(err) => Some(Err(err)),
            },
            Err(err) => Some(Err(err)),
        })''', '''        iter.filter_map(move |item| {
            let id = match item {
                Ok((_, _, id)) => id,
                Err(err) => return Some(Err(err)),
            };
            match self.vertex_manager.exists(id) {
                Ok(exists) => exists.then_some(Ok(id)),
                Err(err) => Some(Err(err)),
            }
        })'''))
ok("rdb specific transpose", (RDB, '''        let iter = ids.into_iter().filter_map(move |id| match self.vertex_manager.get(id) {
            Ok(Some(t)) => Some(Ok(Vertex::with_id(id, t))),
            Ok(None) => None,
            Err(err) => Some(Err(err)),
        });
''', '''        let iter = ids.into_iter().filter_map(move |id| {
            let vertex = self.vertex_manager.get(id).map(|t| t.map(|t| Vertex::with_id(id, t)));
            vertex.transpose()
        });
'''))
ok("rdb specific eager", (RDB, '''        let iter = edges
            .into_iter()
            .filter_map(move |e| match self.edge_range_manager.contains(&e) {
                Ok(true) => Some(Ok(e)),
                Ok(false) => None,
                Err(err) => Some(Err(err)),
            });

        Ok(Box::new(iter))''', '''        let mut found = Vec::with_capacity(edges.len());
        for edge in edges {
            if self.edge_range_manager.contains(&edge)? {
                found.push(edge);
            }
        }
        Ok(Box::new(found.into_iter().map(Ok)))'''))
ok("rdb create edge positive", (RDB, '''        if !self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)? {
            Ok(false)
        } else {
            let mut batch = WriteBatch::default();
            self.edge_manager.set(&mut batch, edge)?;
            self.db.write(batch)?;
            Ok(true)
        }''', '''        for id in [edge.outbound_id, edge.inbound_id] {
            if !self.vertex_manager.exists(id)? {
                return Ok(false);
            }
        }
        let mut batch = WriteBatch::default();
        self.edge_manager.set(&mut batch, edge)?;
        self.db.write(batch)?;
        Ok(true)'''))
ok("rdb create edge vars", (RDB, '''        if !self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)? {
            Ok(false)
        } else {
            let mut batch = WriteBatch::default();
            self.edge_manager.set(&mut batch, edge)?;
            self.db.write(batch)?;
            Ok(true)
        }''', '''        let inbound_exists = self.vertex_manager.exists(edge.inbound_id)?;
        let outbound_exists = self.vertex_manager.exists(edge.outbound_id)?;
        let creatable = outbound_exists && inbound_exists;
        if creatable {
            let mut batch = WriteBatch::default();
            self.edge_manager.set(&mut batch, edge)?;
            self.db.write(batch)?;
        }
        Ok(creatable)'''))
ok("rdb bulk insert helper", (RDB, '''        for item in items {
            match item {
                BulkInsertItem::Vertex(ref vertex) => {
                    self.vertex_manager.create(&mut batch, vertex)?;
                }
                BulkInsertItem::Edge(ref edge) => {
                    self.edge_manager.set(&mut batch, edge)?;
                }
                BulkInsertItem::VertexProperty(id, ref name, ref value) => {
                    self.vertex_property_manager
                        .set(&mut batch, &indexed_properties, id, *name, value)?;
                }
                BulkInsertItem::EdgeProperty(ref edge, ref name, ref value) => {
                    self.edge_property_manager
                        .set(&mut batch, &indexed_properties, edge, *name, value)?;
                }
            }
        }

        self.db.write(batch)?;
        Ok(())
    }
''', '''        for item in &items {
            self.insert_item(&mut batch, &indexed_properties, item)?;
        }

        self.db.write(batch)?;
        Ok(())
    }
'''), (RDB, '''    fn vertex_ids_from_property_value_iterator(''', '''    fn insert_item(
        &self,
        batch: &mut WriteBatch,
        indexed_properties: &HashSet<Identifier>,
        item: &BulkInsertItem,
    ) -> Result<()> {
        match item {
            BulkInsertItem::Vertex(vertex) => self.vertex_manager.create(batch, vertex),
            BulkInsertItem::Edge(edge) => self.edge_manager.set(batch, edge),
            BulkInsertItem::VertexProperty(id, name, value) => {
                self.vertex_property_manager
                    .set(batch, indexed_properties, *id, *name, value)
            }
            BulkInsertItem::EdgeProperty(edge, name, value) => {
                self.edge_property_manager
                    .set(batch, indexed_properties, edge, *name, value)
            }
        }
    }

    fn vertex_ids_from_property_value_iterator('''))
ok("rdb index helpers", (RDB, '''        for item in self.vertex_manager.iterate_for_range(Uuid::default()) {
            let vertex = item?;
            if let Some(property_value) = self.vertex_property_manager.get(vertex.id, name)? {
                self.vertex_property_value_manager
                    .set(&mut batch, vertex.id, name, &property_value);
            }
        }

        for item in self.edge_range_manager.iterate_for_all() {
            let edge = item?;
            if let Some(property_value) = self.edge_property_manager.get(&edge, name)? {
                self.edge_property_value_manager
                    .set(&mut batch, &edge, name, &property_value);
            }
        }

        self.db.write(batch)?;''', '''        self.index_edges(&mut batch, name)?;
        self.index_vertices(&mut batch, name)?;
        self.db.write(batch)?;'''), (RDB, '''    fn vertex_ids_from_property_value_iterator(''', '''    fn index_vertices(&self, batch: &mut WriteBatch, name: Identifier) -> Result<()> {
        for vertex in self.vertex_manager.iterate_for_range(Uuid::nil()) {
            let id = vertex?.id;
            let Some(value) = self.vertex_property_manager.get(id, name)? else {
                continue;
            };
            self.vertex_property_value_manager.set(batch, id, name, &value);
        }
        Ok(())
    }

    fn index_edges(&self, batch: &mut WriteBatch, name: Identifier) -> Result<()> {
        let mut edges = self.edge_range_manager.iterate_for_all();
        while let Some(edge) = edges.next().transpose()? {
            match self.edge_property_manager.get(&edge, name)? {
                Some(value) => self.edge_property_value_manager.set(batch, &edge, name, &value),
                None => continue,
            }
        }
        Ok(())
    }

    fn vertex_ids_from_property_value_iterator('''))
ok("rdb index insert after", (RDB, '''        let mut indexed_properties = self.indexed_properties.write().unwrap();
        if indexed_properties.contains(&name) {
            return Ok(());
        }

        // Only registered once the index is written, so that a failure does
        // not leave behind a property that merely claims to be indexed.
        let mut new_indexed_properties = indexed_properties.clone();
        new_indexed_properties.insert(name);
''', '''        let mut indexed_properties = self.indexed_properties.write().unwrap();
        let mut new_indexed_properties = indexed_properties.clone();
        if !new_indexed_properties.insert(name) {
            return Ok(());
        }
'''), (RDB, '''        *indexed_properties = new_indexed_properties;
''', '''        indexed_properties.insert(name);
'''))
ok("rdb open shared", (RDB, '''        let path = path.as_ref();

        let db = match DB::open_cf(&opts, path, CF_NAMES) {
            Ok(db) => db,
            Err(_) => {
                let mut db = DB::open(&opts, path)?;

                for cf_name in &CF_NAMES {
                    db.create_cf(cf_name, &opts)?;
                }

                db
            }
        };

        let metadata_manager = MetadataManager::new(&db);
        let indexed_properties = metadata_manager.get_indexed_properties()?;

        Ok(Database::new(RocksdbDatastore {
            db: Arc::new(db),
            indexed_properties: Arc::new(RwLock::new(indexed_properties)),
        }))
    }
''', '''        Self::from_db(Self::open(path.as_ref(), &opts)?)
    }

    fn open(path: &Path, opts: &Options) -> Result<DB> {
        if let Ok(db) = DB::open_cf(opts, path, CF_NAMES) {
            return Ok(db);
        }
        let mut db = DB::open(opts, path)?;
        CF_NAMES.iter().try_for_each(|cf_name| db.create_cf(cf_name, opts))?;
        Ok(db)
    }

    fn from_db(db: DB) -> Result<Database<RocksdbDatastore>> {
        let indexed_properties = MetadataManager::new(&db).get_indexed_properties()?;
        let datastore = RocksdbDatastore {
            db: Arc::new(db),
            indexed_properties: Arc::new(RwLock::new(indexed_properties)),
        };
        Ok(Database::new(datastore))
    }
'''))
ok("rdb all props loop", (RDB, '''        let iter = self.edge_property_manager.iterate_for_owner(edge)?;
        let props: Result<Vec<_>> = iter.collect();
        let iter = props?.into_iter().map(|(_, name, value)| Ok((name, value)));
        Ok(Box::new(iter))''', '''        let mut props = Vec::new();
        for item in self.edge_property_manager.iterate_for_owner(edge)? {
            let (_, name, value) = item?;
            props.push((name, value));
        }
        Ok(Box::new(props.into_iter().map(Ok)))'''))
ok("rdb txn struct", (RDB, '''        RocksdbTransaction {
            db: &self.db,
            indexed_properties: self.indexed_properties.clone(),
            vertex_manager: VertexManager::new(&self.db),
            edge_manager: EdgeManager::new(&self.db),''', '''        let db: &DB = &self.db;
        RocksdbTransaction {
            db,
            indexed_properties: Arc::clone(&self.indexed_properties),
            edge_manager: EdgeManager::new(db),
            vertex_manager: VertexManager::new(db),'''))
ok("rdb prop direct", (RDB, '''        match self.vertex_property_manager.get(vertex.id, name)? {
            None => Ok(None),
            Some(value) => Ok(Some(value)),
        }''', '''        self.vertex_property_manager.get(vertex.id, name)'''))
# memory/datastore.rs
ok("mem props owner helper", (MEM, '''            let mut deletable_vertex_properties: Vec<(Uuid, Identifier)> = Vec::new();
            for (property_key, _) in self
                .internal
                .vertex_properties
                .range((vertex.id, Identifier::default())..)
            {
                let (property_vertex_id, _) = property_key;

                if &vertex.id != property_vertex_id {
                    break;
                }

                deletable_vertex_properties.push(*property_key);
            }
            self.delete_vertex_properties(deletable_vertex_properties)?;
''', '''            let deletable_vertex_properties = self.internal.vertex_property_keys(vertex.id);
            self.delete_vertex_properties(deletable_vertex_properties)?;
'''), (MEM, '''pub struct MemoryTransaction<'a> {''', '''impl InternalMemory {
    fn vertex_property_keys(&self, id: Uuid) -> Vec<(Uuid, Identifier)> {
        self.vertex_properties
            .range((id, Identifier::default())..)
            .map(|(key, _)| *key)
            .take_while(|(owner, _)| *owner == id)
            .collect()
    }
}

pub struct MemoryTransaction<'a> {'''))
ok("mem touches helper", (MEM, '''            let mut deletable_edges: Vec<Edge> = Vec::new();
            for edge in self.internal.edges.iter() {
                if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {
                    deletable_edges.push(edge.clone());
                }
            }
            self.delete_edges(deletable_edges)?;''', '''            let touches = |edge: &&Edge| [edge.outbound_id, edge.inbound_id].contains(&vertex.id);
            let deletable_edges = self.internal.edges.iter().filter(touches).cloned().collect();
            self.delete_edges(deletable_edges)?;'''))
ok("mem delete order", (MEM, '''        for vertex in vertices {
            self.internal.vertices.remove(&vertex.id);

''', '''        for vertex in vertices {
'''), (MEM, '''            self.delete_edges(deletable_edges)?;
        }''', '''            self.delete_edges(deletable_edges)?;
            self.internal.vertices.remove(&vertex.id);
        }'''))
ok("mem unindex helper", (MEM, '''                let (property_vertex_id, property_name) = prop;
                if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
                    if let Some(members) = property_container.get_mut(&property_value) {
                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
                    }
                }''', '''                let (property_vertex_id, property_name) = prop;
                self.internal
                    .unindex(property_name, &property_value, &IndexedPropertyMember::Vertex(property_vertex_id));'''), (MEM, '''                let (property_edge, property_name) = prop;
                if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
                    if let Some(members) = property_container.get_mut(&property_value) {
                        members.remove(&IndexedPropertyMember::Edge(property_edge));
                    }
                }''', '''                let (property_edge, property_name) = prop;
                self.internal
                    .unindex(property_name, &property_value, &IndexedPropertyMember::Edge(property_edge));'''), (MEM, '''pub struct MemoryTransaction<'a> {''', '''impl InternalMemory {
    fn unindex(&mut self, name: Identifier, value: &Json, member: &IndexedPropertyMember) {
        let members = self.property_values.get_mut(&name).and_then(|values| values.get_mut(value));
        if let Some(members) = members {
            members.remove(member);
        }
    }
}

pub struct MemoryTransaction<'a> {'''))
ok("mem set props index helper", (MEM, '''        if let Some(property_container) = self.internal.property_values.get_mut(&name) {
            let property_container = property_container.entry(value.clone()).or_insert_with(HashSet::new);
            for vertex_id in vertex_ids.into_iter() {
                property_container.insert(IndexedPropertyMember::Vertex(vertex_id));
            }
        }

        Ok(())''', '''        self.internal
            .index(name, value, vertex_ids.into_iter().map(IndexedPropertyMember::Vertex));
        Ok(())'''), (MEM, '''        if let Some(property_container) = self.internal.property_values.get_mut(&name) {
            let property_container = property_container.entry(value.clone()).or_insert_with(HashSet::new);
            for edge in edges.into_iter() {
                property_container.insert(IndexedPropertyMember::Edge(edge));
            }
        }

        Ok(())''', '''        self.internal
            .index(name, value, edges.into_iter().map(IndexedPropertyMember::Edge));
        Ok(())'''), (MEM, '''pub struct MemoryTransaction<'a> {''', '''impl InternalMemory {
    fn index(&mut self, name: Identifier, value: &Json, members: impl Iterator<Item = IndexedPropertyMember>) {
        if let Some(values) = self.property_values.get_mut(&name) {
            values.entry(value.clone()).or_default().extend(members);
        }
    }
}

pub struct MemoryTransaction<'a> {'''))
ok("mem set props let else", (MEM, '''        if let Some(property_container) = self.internal.property_values.get_mut(&name) {
            let property_container = property_container.entry(value.clone()).or_insert_with(HashSet::new);
            for edge in edges.into_iter() {
                property_container.insert(IndexedPropertyMember::Edge(edge));
            }
        }

        Ok(())''', '''        let Some(values) = self.internal.property_values.get_mut(&name) else {
            return Ok(());
        };
        let members = values.entry(value.clone()).or_default();
        for edge in edges {
            members.insert(IndexedPropertyMember::Edge(edge));
        }
        Ok(())'''))
ok("mem index merge extend", (MEM, '''        let existing_property_container = self.internal.property_values.entry(name).or_default();
        for (value, members) in property_container.into_iter() {
            let existing_members = existing_property_container.entry(value).or_default();
            for member in members {
                existing_members.insert(member);
            }
        }
''', '''        let existing = self.internal.property_values.entry(name).or_default();
        for (value, members) in property_container {
            existing.entry(value).or_default().extend(members);
        }
'''))
ok("mem index edges first", (MEM, '''        for id in self.internal.vertices.keys() {
            if let Some(value) = self.internal.vertex_properties.get(&(*id, name)) {
                property_container
                    .entry(value.clone())
                    .or_default()
                    .insert(IndexedPropertyMember::Vertex(*id));
            }
        }
        for edge in self.internal.edges.iter() {
            if let Some(value) = self.internal.edge_properties.get(&(edge.clone(), name)) {
                property_container
                    .entry(value.clone())
                    .or_default()
                    .insert(IndexedPropertyMember::Edge(edge.clone()));
            }
        }
''', '''        for edge in &self.internal.edges {
            let Some(value) = self.internal.edge_properties.get(&(edge.clone(), name)) else {
                continue;
            };
            let members = property_container.entry(value.clone()).or_default();
            members.insert(IndexedPropertyMember::Edge(edge.clone()));
        }
        for (id, _) in &self.internal.vertices {
            if let Some(value) = self.internal.vertex_properties.get(&(*id, name)) {
                let members = property_container.entry(value.clone()).or_default();
                members.insert(IndexedPropertyMember::Vertex(*id));
            }
        }
'''))
ok("mem create vertex vacant", (MEM, '''        let mut inserted = false;

        self.internal.vertices.entry(vertex.id).or_insert_with(|| {
            inserted = true;
            vertex.t
        });

        Ok(inserted)''', '''        use std::collections::btree_map::Entry;
        if let Entry::Vacant(entry) = self.internal.vertices.entry(vertex.id) {
            entry.insert(vertex.t);
            Ok(true)
        } else {
            Ok(false)
        }'''))
ok("mem create edge has", (MEM, '''        if !self.internal.vertices.contains_key(&edge.outbound_id)
            || !self.internal.vertices.contains_key(&edge.inbound_id)
        {
            return Ok(false);
        }

        self.internal.edges.insert(edge.clone());
        self.internal.reversed_edges.insert(edge.reversed());
        Ok(true)''', '''        let endpoints = [&edge.outbound_id, &edge.inbound_id];
        if !endpoints.into_iter().all(|id| self.internal.vertices.contains_key(id)) {
            return Ok(false);
        }

        let reversed = edge.reversed();
        self.internal.reversed_edges.insert(reversed);
        self.internal.edges.insert(edge.clone());
        Ok(true)'''))
ok("mem insert edge helper", (MEM, '''        self.internal.edges.insert(edge.clone());
        self.internal.reversed_edges.insert(edge.reversed());
        Ok(true)''', '''        self.internal.insert_edge(edge);
        Ok(true)'''), (MEM, '''            self.internal.edges.remove(&edge);
            self.internal.reversed_edges.remove(&edge.reversed());
''', '''            self.internal.remove_edge(&edge);
'''), (MEM, '''pub struct MemoryTransaction<'a> {''', '''impl InternalMemory {
    fn insert_edge(&mut self, edge: &Edge) {
        self.edges.insert(edge.clone());
        self.reversed_edges.insert(edge.reversed());
    }

    fn remove_edge(&mut self, edge: &Edge) {
        self.edges.remove(edge);
        self.reversed_edges.remove(&edge.reversed());
    }
}

pub struct MemoryTransaction<'a> {'''))
ok("mem prop cloned map", (MEM, '''        if let Some(value) = self.internal.edge_properties.get(&(edge.clone(), name)) {
            Ok(Some(value.clone()))
        } else {
            Ok(None)
        }''', '''        let key = (edge.clone(), name);
        Ok(self.internal.edge_properties.get(&key).cloned())'''))
ok("mem lookup let else", (MEM, '''        if let Some(container) = self.internal.property_values.get(&name) {
            let mut vertex_ids = HashSet::<Uuid>::default();
            for sub_container in container.values() {
                for member in sub_container {
                    if let IndexedPropertyMember::Vertex(id) = member {
                        vertex_ids.insert(*id);
                    }
                }
            }
            Ok(Some(Box::new(vertex_ids.into_iter().map(Ok))))
        } else {
            Ok(None)
        }''', '''        let Some(container) = self.internal.property_values.get(&name) else {
            return Ok(None);
        };
        let vertex_ids: HashSet<Uuid> = container
            .values()
            .flatten()
            .filter_map(|member| match member {
                IndexedPropertyMember::Vertex(id) => Some(*id),
                IndexedPropertyMember::Edge(_) => None,
            })
            .collect();
        Ok(Some(Box::new(vertex_ids.into_iter().map(Ok))))'''))
ok("mem lookup value empty", (MEM, '''            if let Some(sub_container) = container.get(value) {
                let iter = Box::new(sub_container.iter().filter_map(move |member| match member {
                    IndexedPropertyMember::Vertex(id) => Some(Ok(*id)),
                    _ => None,
                }));
                Ok(Some(Box::new(iter)))
            } else {
                let iter = Vec::default().into_iter();
                Ok(Some(Box::new(iter)))
            }''', '''            let members = container.get(value).into_iter().flatten();
            let iter = members.filter_map(|member| match member {
                IndexedPropertyMember::Vertex(id) => Some(Ok(*id)),
                IndexedPropertyMember::Edge(_) => None,
            });
            Ok(Some(Box::new(iter)))'''))
ok("mem member methods", (MEM, '''                    IndexedPropertyMember::Edge(edge) if self.internal.edges.contains(edge) => Some(edge),
                    _ => None,
                }));
                Ok(Some(Box::new(iter.map(|e| Ok(e.clone())))))''', '''                    IndexedPropertyMember::Edge(edge) => self.internal.edges.get(edge).cloned().map(Ok),
                    IndexedPropertyMember::Vertex(_) => None,
                }));
                Ok(Some(iter))'''))
ok("mem range props collect", (MEM, '''        let mut edge_properties = Vec::new();
        let from = &(edge.clone(), Identifier::default());
        for ((prop_edge, prop_name), prop_value) in self.internal.edge_properties.range(from..) {
            if prop_edge != edge {
                break;
            }
            edge_properties.push((*prop_name, prop_value.clone()));
        }
        Ok(Box::new(edge_properties.into_iter().map(Ok)))''', '''        let owner = edge.clone();
        let from = (edge.clone(), Identifier::default());
        let iter = self
            .internal
            .edge_properties
            .range(from..)
            .take_while(move |((prop_edge, _), _)| *prop_edge == owner)
            .map(|((_, prop_name), prop_value)| Ok((*prop_name, prop_value.clone())));
        Ok(Box::new(iter))'''))
ok("mem sync helper", (MEM, '''            let temp_path = NamedTempFile::new_in(dir).map_err(|err| Error::Datastore(Box::new(err)))?;
            {
                let mut buf = BufWriter::new(temp_path.as_file());
                rmp_serde::encode::write(&mut buf, &*self.internal)?;
                // dropping the writer would ignore a failure to write the rest
                buf.flush().map_err(|err| Error::Datastore(Box::new(err)))?;
            }
''', '''            let temp_path = NamedTempFile::new_in(dir).map_err(|err| Error::Datastore(Box::new(err)))?;
            self.write_image(temp_path.as_file())?;
'''), (MEM, '''impl<'a> Transaction<'a> for MemoryTransaction<'a> {''', '''impl MemoryTransaction<'_> {
    fn write_image(&self, file: &File) -> Result<()> {
        let mut buf = BufWriter::new(file);
        rmp_serde::encode::write(&mut buf, &*self.internal)?;
        buf.flush().map_err(|err| Error::Datastore(Box::new(err)))
    }
}

impl<'a> Transaction<'a> for MemoryTransaction<'a> {'''))
ok("mem sync io error helper", (MEM, '''            temp_path
                .as_file()
                .sync_all()
                .map_err(|err| Error::Datastore(Box::new(err)))?;
            temp_path
                .persist(persist_path)
                .map_err(|err| Error::Datastore(Box::new(err)))?;''', '''            temp_path.as_file().sync_all().map_err(failed)?;
            temp_path.persist(persist_path).map_err(failed)?;'''), (MEM, '''pub struct MemoryTransaction<'a> {''', '''fn failed<E: std::error::Error + Send + Sync + 'static>(err: E) -> Error {
    Error::Datastore(Box::new(err))
}

pub struct MemoryTransaction<'a> {'''))
ok("mem sync let else", (MEM, '''        if let Some(ref persist_path) = self.path {
''', '''        let Some(persist_path) = &self.path else {
            return Ok(());
        };
        {
'''))
ok("mem new with", (MEM, '''        Database::new(MemoryDatastore {
            internal: Arc::new(Mutex::new(InternalMemory::default())),
            path: None,
        })''', '''        Self::with(InternalMemory::default(), None)'''), (MEM, '''        Ok(Database::new(MemoryDatastore {
            internal: Arc::new(Mutex::new(internal)),
            path: Some(path),
        }))''', '''        Ok(Self::with(internal, Some(path)))'''), (MEM, '''        Database::new(MemoryDatastore {
            internal: Arc::new(Mutex::new(InternalMemory::default())),
            path: Some(path.into()),
        })
    }''', '''        Self::with(InternalMemory::default(), Some(path.into()))
    }

    fn with(internal: InternalMemory, path: Option<PathBuf>) -> Database<MemoryDatastore> {
        let internal = Arc::new(Mutex::new(internal));
        Database::new(MemoryDatastore { internal, path })
    }'''))
# database.rs
ok("db last helper", (DBF, '''unsafe fn query<'a, T''', '''fn is_included(q: &Query) -> bool {
    matches!(q, Query::Include(_))
}

unsafe fn query<'a, T'''), *[(DBF, '''            if let Query::Include(_) = *q.inner {''', '''            if is_included(&q.inner) {''')] * 4)
ok("db export helper", (DBF, '''unsafe fn query<'a, T''', '''fn export(inner: &Query, value: QueryOutputValue, output: &mut Vec<QueryOutputValue>) {
    if let Query::Include(_) = inner {
        // keep the value exported
        output.push(value);
    }
}

unsafe fn query<'a, T'''), *[(DBF, '''            if let Query::Include(_) = *q.inner {
                // keep the value exported
                output.push(piped_values);
            }
''', '''            export(&q.inner, piped_values, output);
''')] * 4)
ok("db inner helper", (DBF, '''unsafe fn query<'a, T''', '''unsafe fn query_inner<'a, T: Transaction<'a> + 'a>(
    txn: *const T,
    q: &Query,
    output: &mut Vec<QueryOutputValue>,
) -> Result<QueryOutputValue> {
    query(txn, q, output)?;
    Ok(output.pop().unwrap())
}

unsafe fn query<'a, T'''), *[(DBF, '''            query(txn, &q.inner, output)?;
            let piped_values = output.pop().unwrap();
''', '''            let piped_values = query_inner(txn, &q.inner, output)?;
''')] * 4)
ok("db of_type generic", (DBF, '''                    if let Some(ref t) = q.t {
                        iter = Box::new(iter.filter(move |r| match r {
                            Ok(v) => &v.t == t,
                            Err(_) => true,
                        }));
                    }

                    iter = Box::new(iter.take(q.limit as usize));

                    QueryOutputValue::Vertices(iter.collect::<Result<Vec<Vertex>>>()?)''', '''                    let mut vertices = Vec::new();
                    while vertices.len() < q.limit as usize {
                        match iter.next() {
                            Some(Ok(v)) if q.t.map_or(true, |t| v.t == t) => vertices.push(v),
                            Some(Ok(_)) => {}
                            Some(Err(err)) => return Err(err),
                            None => break,
                        }
                    }

                    QueryOutputValue::Vertices(vertices)'''), (DBF, "let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;", "let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;"))
ok("db count len method", (DBF, '''                    let len = match piped_values {
                        QueryOutputValue::Vertices(ref v) => v.len(),
                        QueryOutputValue::Edges(ref e) => e.len(),
                        QueryOutputValue::VertexProperties(ref p) => p.len(),
                        QueryOutputValue::EdgeProperties(ref p) => p.len(),
                        _ => return Err(Error::OperationOnQuery),
                    };''', '''                    let len = count_of(&piped_values)?;'''), (DBF, '''unsafe fn query<'a, T''', '''fn count_of(value: &QueryOutputValue) -> Result<usize> {
    match value {
        QueryOutputValue::Vertices(v) => Ok(v.len()),
        QueryOutputValue::Edges(e) => Ok(e.len()),
        QueryOutputValue::VertexProperties(p) => Ok(p.len()),
        QueryOutputValue::EdgeProperties(p) => Ok(p.len()),
        QueryOutputValue::Count(_) => Err(Error::OperationOnQuery),
    }
}

unsafe fn query<'a, T'''))
ok("db props fn", (DBF, '''                        let mut props = Vec::new();
                        if let Some(name) = &q.name {
                            if let Some(value) = (*txn).vertex_property(vertex, *name)? {
                                props.push(NamedProperty::new(*name, value.clone()));
                            }
                        } else {
                            for result in (*txn).all_vertex_properties_for_vertex(vertex)? {
                                let (name, value) = result?;
                                props.push(NamedProperty::new(name, value.clone()));
                            }
                        }
                        if !props.is_empty() {''', '''                        let props: Vec<NamedProperty> = match q.name {
                            Some(name) => (*txn)
                                .vertex_property(vertex, name)?
                                .into_iter()
                                .map(|value| NamedProperty::new(name, value))
                                .collect(),
                            None => (*txn)
                                .all_vertex_properties_for_vertex(vertex)?
                                .map(|result| result.map(|(name, value)| NamedProperty::new(name, value)))
                                .collect::<Result<_>>()?,
                        };
                        if !props.is_empty() {'''))
ok("db pipe edges fn", (DBF, '''                        if let Some(ref t) = q.t {
                            iter = Box::new(iter.filter(move |r| match r {
                                Ok(e) => &e.t == t,
                                Err(_) => true,
                            }));
                        }

                        if q.direction == EdgeDirection::Inbound {
                            iter = Box::new(iter.map(move |r| Ok(r?.reversed())));
                        }

                        iter = Box::new(iter.take((q.limit as usize) - edges.len()));

                        for result in iter {
                            edges.push(result?);
                        }

                        if edges.len() >= (q.limit as usize) {
                            break;
                        }''', '''                        let remaining = (q.limit as usize) - edges.len();
                        let matching = iter.filter(|r| match (r, &q.t) {
                            (Ok(e), Some(t)) => e.t == *t,
                            _ => true,
                        });
                        for result in matching.take(remaining) {
                            let edge = result?;
                            edges.push(match q.direction {
                                EdgeDirection::Outbound => edge,
                                EdgeDirection::Inbound => edge.reversed(),
                            });
                        }

                        if edges.len() == q.limit as usize {
                            break;
                        }'''))
ok("db delete props vec", (DBF, '''                txn.delete_vertex_properties(
                    vertex_properties
                        .into_iter()
                        .flat_map(|vps| {
                            let iter = vps.props.iter().map(move |vp| (vps.vertex.id, vp.name));
                            iter.collect::<Vec<(Uuid, Identifier)>>()
                        })
                        .collect(),
                )?;''', '''                let mut props = Vec::new();
                for VertexProperties { vertex, props: named } in vertex_properties {
                    props.extend(named.into_iter().map(|prop| (vertex.id, prop.name)));
                }
                txn.delete_vertex_properties(props)?;'''))
ok("db prop flag xnor", *[(DBF, "(q.exists && contains) || (!q.exists && !contains)", "contains == q.exists")] * 2, *[(DBF, "(q.equal && contains) || (!q.equal && !contains)", "!(q.equal ^ contains)")] * 2)
ok("db direction match", (DBF, '''                        let mut iter = if q.direction == EdgeDirection::Outbound {
                            (*txn).range_edges(lower_bound)?
                        } else {
                            (*txn).range_reversed_edges(lower_bound)?
                        };''', '''                        let mut iter = match q.direction {
                            EdgeDirection::Outbound => (*txn).range_edges(lower_bound)?,
                            EdgeDirection::Inbound => (*txn).range_reversed_edges(lower_bound)?,
                        };'''), (DBF, '''                        let lower_bound = match &q.t {
                            Some(t) => Edge::new(vertex.id, *t, Uuid::default()),
                            None => Edge::new(vertex.id, Identifier::default(), Uuid::default()),
                        };''', '''                        let lower_bound = Edge::new(vertex.id, q.t.unwrap_or_default(), Uuid::nil());'''))
ok("db txn ref", (DBF, '''    let value = match q {
        Query::AllVertex => {
            let iter = (*txn).all_vertices()?;''', '''    let t = &*txn;
    let value = match q {
        Query::AllVertex => {
            let iter = t.all_vertices()?;'''))
ok("db split fn", (DBF, '''        Query::SpecificVertex(ref q) => {
            let iter = (*txn).specific_vertices(q.ids.clone())?;
            QueryOutputValue::Vertices(iter.collect::<Result<Vec<Vertex>>>()?)
        }''', '''        Query::SpecificVertex(ref q) => QueryOutputValue::Vertices(vertices_by_id(&*txn, q.ids.clone())?),'''), (DBF, '''                let iter = (*txn).specific_vertices(iter.collect::<Result<Vec<Uuid>>>()?)?;
                QueryOutputValue::Vertices(iter.collect::<Result<Vec<Vertex>>>()?)''', '''                let ids = iter.collect::<Result<Vec<Uuid>>>()?;
                QueryOutputValue::Vertices(vertices_by_id(&*txn, ids)?)'''), (DBF, '''unsafe fn query<'a, T''', '''fn vertices_by_id<'a, T: Transaction<'a> + 'a>(txn: &'a T, ids: Vec<Uuid>) -> Result<Vec<Vertex>> {
    txn.specific_vertices(ids)?.collect()
}

unsafe fn query<'a, T'''))
