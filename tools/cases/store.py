MEM, RDB, MGR, DBF = 'lib/src/memory/datastore.rs', 'lib/src/rdb/datastore.rs', 'lib/src/rdb/managers.rs', 'lib/src/database.rs'
CASES = []
def bug(n, *e): CASES.append((n, 'bug', list(e), []))
def same(n, *e): CASES.append((n, 'same', list(e), []))

# ---- bugs
bug('mem break in delete_vertices', (MEM, '            self.delete_edges(deletable_edges)?;\n        }', '            if deletable_edges.is_empty() {\n                break;\n            }\n            self.delete_edges(deletable_edges)?;\n        }'))
bug('mem return in delete_edges', (MEM, '            self.internal.edges.remove(&edge);\n', '            if !self.internal.edges.remove(&edge) {\n                return Ok(());\n            }\n'))
bug('mem late break props', (MEM, '                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));\n                    }\n                }\n            }\n', '                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));\n                    }\n                }\n            } else {\n                break;\n            }\n'))
bug('rdb break', (RDB, '            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;\n', '            if edge.outbound_id == edge.inbound_id {\n                break;\n            }\n            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;\n'))
bug('rdb continue self loop', (RDB, '            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;\n', '            if edge.outbound_id == edge.inbound_id {\n                continue;\n            }\n            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;\n'))
bug('rdb index skips after first missing', (RDB, '            if let Some(property_value) = self.edge_property_manager.get(&edge, name)? {\n                self.edge_property_value_manager\n                    .set(&mut batch, &edge, name, &property_value);\n            }', '            match self.edge_property_manager.get(&edge, name)? {\n                Some(property_value) => self.edge_property_value_manager\n                    .set(&mut batch, &edge, name, &property_value),\n                None => break,\n            }'))
bug('rdb write early', (RDB, '            self.vertex_property_manager\n                .delete(&mut batch, &indexed_properties, id, name)?;\n        }\n', '            self.vertex_property_manager\n                .delete(&mut batch, &indexed_properties, id, name)?;\n            self.db.write(std::mem::take(&mut batch))?;\n        }\n'))
bug('rdb bulk break', (RDB, '                    self.edge_manager.set(&mut batch, edge)?;\n                }\n                BulkInsertItem::VertexProperty', '                    self.edge_manager.set(&mut batch, edge)?;\n                    if batch.len() > 10000 {\n                        break;\n                    }\n                }\n                BulkInsertItem::VertexProperty'))
bug('mgr rev not reversed on delete', (MGR, 'edge_manager.delete(batch, indexed_properties, &edge.reversed())?;', 'edge_manager.delete(batch, indexed_properties, &edge)?;'))
bug('mgr set old value lost', (MGR, '''        if is_indexed {
            self.delete(batch, indexed_properties, edge, name)?;
        }
''', ''))
bug('mgr set index only when changed wrong', (MGR, '''        if is_indexed {
            let edge_property_value_manager''', '''        if is_indexed && !value_json.is_empty() && edge.outbound_id != edge.inbound_id {
            let edge_property_value_manager'''))
bug('mem specific edges reversed', (MEM, '.filter(move |edge| self.internal.edges.contains(edge))', '.filter(move |edge| self.internal.reversed_edges.contains(edge))'))
bug('mem all_edge_props break cond', (MEM, '            if prop_edge != edge {\n                break;', '            if prop_edge.outbound_id != edge.outbound_id {\n                break;'))
bug('mem all_vertex_props break name', (MEM, '            if prop_vertex_id != &vertex.id {\n                break;', '            if prop_vertex_id != &vertex.id || prop_value.is_null() {\n                break;'))
bug('mem delete only outbound', (MEM, 'if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {', 'if edge.outbound_id == vertex.id {'))
bug('mem range edges outbound', (MEM, '''            for edge in self.internal.edges.iter() {
                if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {
                    deletable_edges.push(edge.clone());
                }
            }''', '''            for edge in self.internal.edges.range(Edge::new(vertex.id, Identifier::default(), Uuid::default())..) {
                if edge.outbound_id != vertex.id {
                    break;
                }
                deletable_edges.push(edge.clone());
            }'''))

# ---- same behaviour
same('mem delete via retain', (MEM, '''            let mut deletable_edges: Vec<Edge> = Vec::new();
            for edge in self.internal.edges.iter() {
                if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {
                    deletable_edges.push(edge.clone());
                }
            }
            self.delete_edges(deletable_edges)?;''', '''            let deletable_edges: Vec<Edge> = self
                .internal
                .edges
                .iter()
                .filter(|edge| edge.outbound_id == vertex.id || edge.inbound_id == vertex.id)
                .cloned()
                .collect();
            self.delete_edges(deletable_edges)?;'''))
same('mem delete two scans', (MEM, '''            let mut deletable_edges: Vec<Edge> = Vec::new();
            for edge in self.internal.edges.iter() {
                if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {
                    deletable_edges.push(edge.clone());
                }
            }''', '''            let from = Edge::new(vertex.id, Identifier::default(), Uuid::default());
            let mut deletable_edges: Vec<Edge> = Vec::new();
            for edge in self.internal.edges.range(from.clone()..) {
                if edge.outbound_id != vertex.id {
                    break;
                }
                deletable_edges.push(edge.clone());
            }
            for edge in self.internal.reversed_edges.range(from..) {
                if edge.outbound_id != vertex.id {
                    break;
                }
                deletable_edges.push(edge.reversed());
            }'''))
same('mem take_while props', (MEM, '''            let mut deletable_vertex_properties: Vec<(Uuid, Identifier)> = Vec::new();
            for (property_key, _) in self
                .internal
                .vertex_properties
                .range((vertex.id, Identifier::default())..)
            {
                let (property_vertex_id, _) = property_key;

                if &vertex.id != property_vertex_id {
                    break;
                }

                deletable_vertex_properties.push(*property_key);
            }
''', '''            let deletable_vertex_properties: Vec<(Uuid, Identifier)> = self
                .internal
                .vertex_properties
                .range((vertex.id, Identifier::default())..)
                .map(|(key, _)| *key)
                .take_while(|(id, _)| *id == vertex.id)
                .collect();
'''))
same('mem helper for members', (MEM, '''                if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
                    if let Some(members) = property_container.get_mut(&property_value) {
                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
                    }
                }
''', '''                self.internal.unindex(&property_name, &property_value, IndexedPropertyMember::Vertex(property_vertex_id));
'''), (MEM, '''pub struct MemoryTransaction<'a> {''', '''impl InternalMemory {
    fn unindex(&mut self, name: &Identifier, value: &Json, member: IndexedPropertyMember) {
        if let Some(container) = self.property_values.get_mut(name) {
            if let Some(members) = container.get_mut(value) {
                members.remove(&member);
            }
        }
    }
}

pub struct MemoryTransaction<'a> {'''))
same('mem prop cloned', (MEM, '''        if let Some(value) = self.internal.vertex_properties.get(&(vertex.id, name)) {
            Ok(Some(value.clone()))
        } else {
            Ok(None)
        }
''', '''        let key = (vertex.id, name);
        Ok(self.internal.vertex_properties.get(&key).cloned())
'''))
same('mem create_vertex entry match', (MEM, '''        let mut inserted = false;

        self.internal.vertices.entry(vertex.id).or_insert_with(|| {
            inserted = true;
            vertex.t
        });

        Ok(inserted)''', '''        match self.internal.vertices.entry(vertex.id) {
            std::collections::btree_map::Entry::Occupied(_) => Ok(false),
            std::collections::btree_map::Entry::Vacant(entry) => {
                entry.insert(vertex.t);
                Ok(true)
            }
        }'''))
same('mem create_vertex contains', (MEM, '''        let mut inserted = false;

        self.internal.vertices.entry(vertex.id).or_insert_with(|| {
            inserted = true;
            vertex.t
        });

        Ok(inserted)''', '''        if self.internal.vertices.contains_key(&vertex.id) {
            return Ok(false);
        }
        self.internal.vertices.insert(vertex.id, vertex.t);
        Ok(true)'''))
same('mem set props one loop', (MEM, '''        for vertex_id in &vertex_ids {
            self.internal
                .vertex_properties
                .insert((*vertex_id, name), value.clone());
        }

        if let Some(property_container) = self.internal.property_values.get_mut(&name) {
            let property_container = property_container.entry(value.clone()).or_insert_with(HashSet::new);
            for vertex_id in vertex_ids.into_iter() {
                property_container.insert(IndexedPropertyMember::Vertex(vertex_id));
            }
        }
''', '''        for vertex_id in vertex_ids {
            self.internal.vertex_properties.insert((vertex_id, name), value.clone());
            if let Some(container) = self.internal.property_values.get_mut(&name) {
                container
                    .entry(value.clone())
                    .or_default()
                    .insert(IndexedPropertyMember::Vertex(vertex_id));
            }
        }
'''))
same('mem set props map collect', (MEM, '''        let mut deletable_edge_properties = Vec::new();
        for edge in &edges {
            deletable_edge_properties.push((edge.clone(), name));
        }
        self.delete_edge_properties(deletable_edge_properties)?;
''', '''        self.delete_edge_properties(edges.iter().map(|edge| (edge.clone(), name)).collect())?;
'''))
same('mem index extend', (MEM, '''            for member in members {
                existing_members.insert(member);
            }
''', '''            existing_members.extend(members);
'''))
same('mem index direct', (MEM, '''        for (value, members) in property_container.into_iter() {
            let existing_members = existing_property_container.entry(value).or_default();
            for member in members {
                existing_members.insert(member);
            }
        }
''', '''        property_container.into_iter().for_each(|(value, members)| {
            existing_property_container.entry(value).or_default().extend(members);
        });
'''))
same('mem edge contains and', (MEM, '''        if !self.internal.vertices.contains_key(&edge.outbound_id)
            || !self.internal.vertices.contains_key(&edge.inbound_id)
        {
            return Ok(false);
        }

        self.internal.edges.insert(edge.clone());
        self.internal.reversed_edges.insert(edge.reversed());
        Ok(true)''', '''        let vertices = &self.internal.vertices;
        let both = vertices.contains_key(&edge.outbound_id) && vertices.contains_key(&edge.inbound_id);
        if both {
            self.internal.reversed_edges.insert(edge.reversed());
            self.internal.edges.insert(edge.clone());
        }
        Ok(both)'''))
same('rdb create_vertex early return', (RDB, '''        if self.vertex_manager.exists(vertex.id)? {
            Ok(false)
        } else {
            let mut batch = WriteBatch::default();
            self.vertex_manager.create(&mut batch, vertex)?;
            self.db.write(batch)?;
            Ok(true)
        }''', '''        let exists = self.vertex_manager.exists(vertex.id)?;
        if !exists {
            let mut batch = WriteBatch::default();
            self.vertex_manager.create(&mut batch, vertex)?;
            self.db.write(batch)?;
        }
        Ok(!exists)'''))
same('rdb try_for_each', (RDB, '''        for edge in edges.into_iter() {
            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
        }
''', '''        edges
            .iter()
            .try_for_each(|edge| self.edge_manager.delete(&mut batch, &indexed_properties, edge))?;
'''))
same('rdb while let', (RDB, '''        for vertex in vertices.into_iter() {
            self.vertex_manager.delete(&mut batch, &indexed_properties, vertex.id)?;
        }
''', '''        let mut vertices = vertices.into_iter();
        while let Some(vertex) = vertices.next() {
            self.vertex_manager.delete(&mut batch, &indexed_properties, vertex.id)?;
        }
'''))
same('rdb exists then get', (RDB, '''        let iter = ids.into_iter().filter_map(move |id| match self.vertex_manager.get(id) {
            Ok(Some(t)) => Some(Ok(Vertex::with_id(id, t))),
            Ok(None) => None,
            Err(err) => Some(Err(err)),
        });
''', '''        let iter = ids
            .into_iter()
            .filter_map(move |id| self.vertex_manager.get(id).transpose().map(|r| r.map(|t| Vertex::with_id(id, t))));
'''))
same('rdb map edge', (RDB, '''                .iterate_for_name(name)
                .map(|r| match r {
                    Ok((_, _, e)) => Ok(e),
                    Err(err) => Err(err),
                });''', '''                .iterate_for_name(name)
                .map(|r| r.map(|(_, _, e)| e));'''))
same('mgr contains eq', (MGR, '''        if edge_range_manager.contains(edge)? {
            edge_range_manager.delete(batch, edge)?;
            reversed_edge_range_manager.delete(batch, &reversed_edge)?;
        }

''', ''))
same('mgr helper both ranges', (MGR, '''        edge_range_manager.set(batch, edge)?;
        reversed_edge_range_manager.set(batch, &reversed_edge)?;
        Ok(())
    }
''', '''        self.put(batch, &reversed_edge_range_manager, &reversed_edge)?;
        self.put(batch, &edge_range_manager, edge)
    }

    fn put(&self, batch: &mut WriteBatch, range: &EdgeRangeManager<'_>, edge: &models::Edge) -> Result<()> {
        range.set(batch, edge)
    }
'''))
same('mgr get map transpose', (MGR, '''        match self.db.get_cf(&self.cf, self.key(vertex_id, name))? {
            Some(value_bytes) => Ok(Some(serde_json::from_slice(&value_bytes)?)),
            None => Ok(None),
        }''', '''        let bytes = self.db.get_cf(&self.cf, self.key(vertex_id, name))?;
        let value = match bytes {
            None => return Ok(None),
            Some(bytes) => serde_json::from_slice(&bytes)?,
        };
        Ok(Some(value))'''))
same('mgr delete inline key', (MGR, '''        if indexed_properties.contains(&name) {
            if let Some(value) = self.get(vertex_id, name)? {
                let vertex_property_value_manager = VertexPropertyValueManager::new(self.db);
                vertex_property_value_manager.delete(batch, vertex_id, name, &value);
            }
        }
        batch.delete_cf(&self.cf, self.key(vertex_id, name));
        Ok(())''', '''        let key = self.key(vertex_id, name);
        batch.delete_cf(&self.cf, &key);
        if !indexed_properties.contains(&name) {
            return Ok(());
        }
        let old = match self.get(vertex_id, name)? {
            Some(old) => old,
            None => return Ok(()),
        };
        VertexPropertyValueManager::new(self.db).delete(batch, vertex_id, name, &old);
        Ok(())'''))
same('mgr iterate_for_root simpler', (MGR, '''        let (prefix, iter) = match t {
            Some(t) => {
                let prefix = util::build(&[util::Component::Uuid(id), util::Component::Identifier(t)]);
                let low_key = util::build(&[util::Component::Uuid(id), util::Component::Identifier(t)]);
                let iter = self
                    .db
                    .iterator_cf(&self.cf, IteratorMode::From(&low_key, Direction::Forward));
                (prefix, iter)
            }
            None => {
                let prefix = util::build(&[util::Component::Uuid(id)]);
                let iter = self
                    .db
                    .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));
                (prefix, iter)
            }
        };
''', '''        let prefix = match t {
            Some(t) => util::build(&[util::Component::Uuid(id), util::Component::Identifier(t)]),
            None => util::build(&[util::Component::Uuid(id)]),
        };
        let iter = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));
'''))
same('mgr iterate_for_range from key', (MGR, '''        let low_key = util::build(&[
            util::Component::Uuid(first_id),
            util::Component::Identifier(t),
            util::Component::Uuid(second_id),
        ]);
        let iter''', '''        let low_key = self.key(&models::Edge::new(first_id, t, second_id));
        let iter'''))
same('mgr vertices iterate owner collect', (MGR, '''        for item in vertex_property_manager.iterate_for_owner(id)? {
            let (vertex_property_owner_id, vertex_property_name, _) = item?;
            vertex_property_manager.delete(
                batch,
                indexed_properties,
                vertex_property_owner_id,
                vertex_property_name,
            )?;
        }
''', '''        let items: Result<Vec<OwnedPropertyItem>> = vertex_property_manager.iterate_for_owner(id)?.collect();
        for (_, name, _) in items? {
            vertex_property_manager.delete(batch, indexed_properties, id, name)?;
        }
'''))
same('mgr take prefix manual', (MGR, '''    iterator.take_while(move |item| -> bool {
        if let Ok((ref k, _)) = *item {
            k.starts_with(&prefix)
        } else {
            true
        }
    })''', '''    iterator.take_while(move |item| match item {
        Ok((k, _)) => k.len() >= prefix.len() && k[..prefix.len()] == prefix[..],
        Err(_) => true,
    })'''))
same('rdb all_props no collect', (RDB, '''        let iter = self.vertex_property_manager.iterate_for_owner(vertex.id)?;
        let props: Result<Vec<_>> = iter.collect();
        let iter = props?.into_iter().map(|(_, name, value)| Ok((name, value)));
        Ok(Box::new(iter))''', '''        let mut props = Vec::new();
        for item in self.vertex_property_manager.iterate_for_owner(vertex.id)? {
            let (_, name, value) = item?;
            props.push(Ok((name, value)));
        }
        Ok(Box::new(props.into_iter()))'''))
same('rdb count loop', (RDB, '''        let iter = self.vertex_manager.iterate_for_range(Uuid::default());
        iter.count() as u64
    }

    fn all_vertices''', '''        let mut count: u64 = 0;
        for _ in self.vertex_manager.iterate_for_range(Uuid::default()) {
            count += 1;
        }
        count
    }

    fn all_vertices'''))
same('rdb count fold', (RDB, '''        let iter = self.edge_range_manager.iterate_for_all();
        iter.count() as u64''', '''        self.edge_range_manager.iterate_for_all().fold(0, |n, _| n + 1)'''))
same('mem range edges outbound only plus reversed helper', (MEM, '''    fn all_edges(&'a self) -> Result<DynIter<'a, Edge>> {
        let iter = self.internal.edges.iter().map(|e| Ok(e.clone()));
        Ok(Box::new(iter))''', '''    fn all_edges(&'a self) -> Result<DynIter<'a, Edge>> {
        Ok(Box::new(self.internal.edges.iter().cloned().map(Ok)))'''))
same('mem ids with property flat', (MEM, '''            let mut vertex_ids = HashSet::<Uuid>::default();
            for sub_container in container.values() {
                for member in sub_container {
                    if let IndexedPropertyMember::Vertex(id) = member {
                        vertex_ids.insert(*id);
                    }
                }
            }
            Ok(Some(Box::new(vertex_ids.into_iter().map(Ok))))''', '''            let vertex_ids: HashSet<Uuid> = container
                .values()
                .flatten()
                .filter_map(|member| match member {
                    IndexedPropertyMember::Vertex(id) => Some(*id),
                    IndexedPropertyMember::Edge(_) => None,
                })
                .collect();
            Ok(Some(Box::new(vertex_ids.into_iter().map(Ok))))'''))
same('mem props question mark', (MEM, '''        if let Some(container) = self.internal.property_values.get(&name) {
            if let Some(sub_container) = container.get(value) {
                let iter = Box::new(sub_container.iter().filter_map(move |member| match member {
                    IndexedPropertyMember::Vertex(id) => Some(Ok(*id)),
                    _ => None,
                }));
                Ok(Some(Box::new(iter)))
            } else {
                let iter = Vec::default().into_iter();
                Ok(Some(Box::new(iter)))
            }
        } else {
            Ok(None)
        }''', '''        let container = match self.internal.property_values.get(&name) {
            Some(container) => container,
            None => return Ok(None),
        };
        let members = container.get(value).into_iter().flatten();
        let iter = members.filter_map(|member| match member {
            IndexedPropertyMember::Vertex(id) => Some(Ok(*id)),
            _ => None,
        });
        Ok(Some(Box::new(iter)))'''))
