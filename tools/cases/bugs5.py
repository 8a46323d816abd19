M = "lib/src/memory/datastore.rs"
R = "lib/src/rdb/datastore.rs"
G = "lib/src/rdb/managers.rs"
D = "lib/src/database.rs"
C = "proto/src/client.rs"
S = "proto/src/server.rs"
U = "lib/src/util.rs"
RU = "lib/src/rdb/mod.rs"
I = "lib/src/models/identifiers.rs"
CASES = [
    ("mem create_vertex replaces", "bug", [(M, """        self.internal.vertices.entry(vertex.id).or_insert_with(|| {
            inserted = true;
            vertex.t
        });
""", """        if self.internal.vertices.insert(vertex.id, vertex.t).is_none() {
            inserted = true;
        }
""")], []),
    ("mem create_vertex vacant", "ok", [(M, """        let mut inserted = false;

        self.internal.vertices.entry(vertex.id).or_insert_with(|| {
            inserted = true;
            vertex.t
        });

        Ok(inserted)""", """        use std::collections::btree_map::Entry;
        match self.internal.vertices.entry(vertex.id) {
            Entry::Vacant(e) => {
                e.insert(vertex.t);
                Ok(true)
            }
            Entry::Occupied(_) => Ok(false),
        }""")], []),
    ("mem delete vertices retain", "ok", [(M, """            let mut deletable_edges: Vec<Edge> = Vec::new();
            for edge in self.internal.edges.iter() {
                if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {
                    deletable_edges.push(edge.clone());
                }
            }
""", """            let touches = |edge: &&Edge| edge.outbound_id == vertex.id || edge.inbound_id == vertex.id;
            let deletable_edges: Vec<Edge> = self.internal.edges.iter().filter(touches).cloned().collect();
""")], []),
    ("mem delete edge helper", "ok", [(M, """            self.internal.edges.remove(&edge);
            self.internal.reversed_edges.remove(&edge.reversed());
""", """            let reversed = edge.reversed();
            self.internal.reversed_edges.remove(&reversed);
            self.internal.edges.remove(&edge);
""")], []),
    ("mem props keys take_while", "ok", [(M, """            let mut deletable_edge_properties: Vec<(Edge, Identifier)> = Vec::new();
            for (property_key, _) in self
                .internal
                .edge_properties
                .range((edge.clone(), Identifier::default())..)
            {
                let (property_edge, _) = property_key;

                if &edge != property_edge {
                    break;
                }

                deletable_edge_properties.push(property_key.clone());
            }
""", """            let deletable_edge_properties: Vec<(Edge, Identifier)> = self
                .internal
                .edge_properties
                .range((edge.clone(), Identifier::default())..)
                .map(|(key, _)| key)
                .take_while(|(property_edge, _)| property_edge == &edge)
                .cloned()
                .collect();
""")], []),
    ("mem props keys wrong start", "bug", [(M, """                .edge_properties
                .range((edge.clone(), Identifier::default())..)
            {
                let (property_edge, _) = property_key;
""", """                .edge_properties
                .range((edge.clone(), edge.t)..)
            {
                let (property_edge, _) = property_key;
""")], []),
    ("mem index deleted before the value is known", "bug", [(M, """            if let Some(property_value) = self.internal.edge_properties.remove(&prop) {
                let (property_edge, property_name) = prop;
""", """            if let Some(property_value) = self.internal.edge_properties.remove(&prop) {
                let (property_edge, property_name) = prop;
                if !self.internal.edges.contains(&property_edge) {
                    continue;
                }
""")], []),
    ("mem set in one loop", "ok", [(M, """        if let Some(property_container) = self.internal.property_values.get_mut(&name) {
            let property_container = property_container.entry(value.clone()).or_insert_with(HashSet::new);
            for edge in edges.into_iter() {
                property_container.insert(IndexedPropertyMember::Edge(edge));
            }
        }
""", """        if let Some(property_container) = self.internal.property_values.get_mut(&name) {
            property_container
                .entry(value.clone())
                .or_default()
                .extend(edges.into_iter().map(IndexedPropertyMember::Edge));
        }
""")], []),
    ("rdb create helper", "ok", [(R, """        if !self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)? {
            Ok(false)
        } else {
            let mut batch = WriteBatch::default();
            self.edge_manager.set(&mut batch, edge)?;
            self.db.write(batch)?;
            Ok(true)
        }
""", """        for id in [edge.outbound_id, edge.inbound_id] {
            if !self.vertex_manager.exists(id)? {
                return Ok(false);
            }
        }
        let mut batch = WriteBatch::default();
        self.edge_manager.set(&mut batch, edge)?;
        self.db.write(batch)?;
        Ok(true)
""")], []),
    ("rdb create helper and", "ok", [(R, """        if !self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)? {
            Ok(false)
        } else {
            let mut batch = WriteBatch::default();
            self.edge_manager.set(&mut batch, edge)?;
            self.db.write(batch)?;
            Ok(true)
        }
""", """        let ends_exist = self.vertex_manager.exists(edge.outbound_id)? && self.vertex_manager.exists(edge.inbound_id)?;
        if ends_exist {
            let mut batch = WriteBatch::default();
            self.edge_manager.set(&mut batch, edge)?;
            self.db.write(batch)?;
        }
        Ok(ends_exist)
""")], []),
    ("rdb lookup with map", "ok", [(R, """                .map(|r| match r {
                    Ok((_, _, e)) => Ok(e),
                    Err(err) => Err(err),
                });
            Ok(Some(Box::new(iter)))
        } else {
            Ok(None)
        }
    }

    fn edges_with_property_value""", """                .map(|r| r.map(|(_, _, e)| e));
            Ok(Some(Box::new(iter)))
        } else {
            Ok(None)
        }
    }

    fn edges_with_property_value""")], []),
    ("rdb lookup early return", "ok", [(R, """        if self.indexed_properties.read().unwrap().contains(&name) {
            let iter = self.vertex_property_value_manager.iterate_for_name(name);
            let iter = self.vertex_ids_from_property_value_iterator(iter);
            Ok(Some(Box::new(iter)))
        } else {
            Ok(None)
        }""", """        if !self.indexed_properties.read().unwrap().contains(&name) {
            return Ok(None);
        }
        let entries = self.vertex_property_value_manager.iterate_for_name(name);
        Ok(Some(Box::new(self.vertex_ids_from_property_value_iterator(entries))))""")], []),
    ("rdb commit helper", "ok", [(R, """            self.vertex_manager.delete(&mut batch, &indexed_properties, vertex.id)?;
        }

        self.db.write(batch)?;
        Ok(())""", """            self.vertex_manager.delete(&mut batch, &indexed_properties, vertex.id)?;
        }

        self.commit(batch)"""), (R, """    fn vertex_ids_from_property_value_iterator(""", """    fn commit(&self, batch: WriteBatch) -> Result<()> {
        self.db.write(batch).map_err(Into::into)
    }

    fn vertex_ids_from_property_value_iterator(""")], []),
    ("rdb indexed helper", "ok", [(R, """        if self.indexed_properties.read().unwrap().contains(&name) {
            let iter = self
                .edge_property_value_manager
                .iterate_for_value(name, value)""", """        if self.is_indexed(&name) {
            let iter = self
                .edge_property_value_manager
                .iterate_for_value(name, value)"""), (R, """    fn vertex_ids_from_property_value_iterator(""", """    fn is_indexed(&self, name: &Identifier) -> bool {
        let indexed = self.indexed_properties.read().unwrap();
        indexed.contains(name)
    }

    fn vertex_ids_from_property_value_iterator(""")], []),
    ("mgr compact helper", "ok", [(G, """    pub fn compact(&self) {
        self.db
            .compact_range_cf(&self.cf, Option::<&[u8]>::None, Option::<&[u8]>::None);
    }
}

pub(crate) struct EdgeManager""", """    pub fn compact(&self) {
        compact_all(self.db, &self.cf);
    }
}

fn compact_all(db: &DB, cf: &ColumnFamilyRef<'_>) {
    db.compact_range_cf(cf, None::<&[u8]>, None::<&[u8]>);
}

pub(crate) struct EdgeManager""")], []),
    ("mgr delete if present", "ok", [(G, """            let vertex_property_value_manager = VertexPropertyValueManager::new(self.db);
            vertex_property_value_manager.set(batch, vertex_id, name, value);
        }
        Ok(())""", """            VertexPropertyValueManager::new(self.db).set(batch, vertex_id, name, value);
        }
        Ok(())""")], []),
    ("db create from type match", "ok", [(D, """        if !self.create_vertex(&v)? {
            Err(Error::UuidTaken)
        } else {
            Ok(v.id)
        }""", """        match self.create_vertex(&v) {
            Ok(true) => Ok(v.id),
            Ok(false) => Err(Error::UuidTaken),
            Err(err) => Err(err),
        }""")], []),
    ("db create from type retries", "bug", [(D, """        if !self.create_vertex(&v)? {
            Err(Error::UuidTaken)
        } else {
            Ok(v.id)
        }""", """        if !self.create_vertex(&v)? {
            let w = Vertex::new(t);
            self.create_vertex(&w)?;
            Ok(v.id)
        } else {
            Ok(v.id)
        }""")], []),
    ("client get try_collect", "ok", [(C, """        let mut output = Vec::<indradb::QueryOutputValue>::new();
        let mut res = self.0.get(q).await?.into_inner();
        while let Some(res) = res.next().await {
            output.push(res?.try_into()?);
        }
        Ok(output)""", """        let mut stream = self.0.get(q).await?.into_inner();
        let mut output = Vec::new();
        while let Some(message) = stream.message().await? {
            let value: indradb::QueryOutputValue = message.try_into()?;
            output.push(value);
        }
        Ok(output)""")], []),
    ("server helper blocking", "ok", [(S, """        map_jh_indra_result(tokio::task::spawn_blocking(move || db.sync()).await)?;
        Ok(Response::new(()))""", """        let result = tokio::task::spawn_blocking(move || db.sync()).await;
        map_jh_indra_result(result).map(Response::new)""")], []),
]
