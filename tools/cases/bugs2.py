M = "lib/src/memory/datastore.rs"
R = "lib/src/rdb/datastore.rs"
G = "lib/src/rdb/managers.rs"
U = "lib/src/util.rs"
CASES = [
    # ---- rocksdb: keys, ranges and prefixes
    ("take_with_prefix by length", "bug", [(G, "k.starts_with(&prefix)", "k.len() >= prefix.len() && k[..prefix.len().min(16)] == prefix[..prefix.len().min(16)]")], []),
    ("value index key without value", "bug", [(G, """            util::Component::Identifier(property_name),
            util::Component::Json(property_value),
            util::Component::Uuid(edge.outbound_id),
            util::Component::Identifier(edge.t),""", """            util::Component::Identifier(property_name),
            util::Component::Json(property_value),
            util::Component::Uuid(edge.outbound_id),
            util::Component::Identifier(property_name),""")], []),
    ("index scan prefix for value ignores value", "bug", [(G, """        let prefix = util::build(&[
            util::Component::Identifier(property_name),
            util::Component::Json(property_value),
        ]);
        let iter = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));
        self.iterate(iter, prefix)
    }

    pub fn set(
        &self,
        batch: &mut WriteBatch,
        edge: &models::Edge,""", """        let prefix = util::build(&[
            util::Component::Identifier(property_name),
            util::Component::Json(property_value),
        ]);
        let iter = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));
        self.iterate(iter, util::build(&[util::Component::Identifier(property_name)]))
    }

    pub fn set(
        &self,
        batch: &mut WriteBatch,
        edge: &models::Edge,""")], []),
    ("edge set: stale reversed left", "bug", [(G, "        edge_range_manager.set(batch, edge)?;\n        reversed_edge_range_manager.set(batch, &reversed_edge)?;", "        edge_range_manager.set(batch, edge)?;\n        if edge.outbound_id != edge.inbound_id {\n            reversed_edge_range_manager.set(batch, &reversed_edge)?;\n        }")], []),
    ("edge set: delete after set", "bug", [(G, """        if edge_range_manager.contains(edge)? {
            edge_range_manager.delete(batch, edge)?;
            reversed_edge_range_manager.delete(batch, &reversed_edge)?;
        }

        edge_range_manager.set(batch, edge)?;
        reversed_edge_range_manager.set(batch, &reversed_edge)?;
        Ok(())""", """        edge_range_manager.set(batch, edge)?;
        reversed_edge_range_manager.set(batch, &reversed_edge)?;
        if edge_range_manager.contains(edge)? {
            reversed_edge_range_manager.delete(batch, &reversed_edge)?;
        }
        Ok(())""")], []),
    ("vertex delete in reversed uses edge unreversed", "bug", [(G, "edge_manager.delete(batch, indexed_properties, &edge.reversed())?;", "edge_manager.delete(batch, indexed_properties, &edge)?;")], []),
    ("vertex delete stops at typed edges", "bug", [(G, "for item in reversed_edge_range_manager.iterate_for_root(id, None)? {\n                let edge = item?;", "for item in reversed_edge_range_manager.iterate_for_root(id, None)? {\n                let edge = item?;\n                if edge.inbound_id == Uuid::default() {\n                    continue;\n                }")], []),
    ("vprop set indexed: delete old after put", "bug", [(G, """        if is_indexed {
            self.delete(batch, indexed_properties, vertex_id, name)?;
        }
        let value_json = serde_json::to_vec(value)?;
        batch.put_cf(&self.cf, &key, &value_json);
        if is_indexed {
            let vertex_property_value_manager""", """        let value_json = serde_json::to_vec(value)?;
        batch.put_cf(&self.cf, &key, &value_json);
        if is_indexed {
            self.delete(batch, indexed_properties, vertex_id, name)?;
            let vertex_property_value_manager""")], []),
    ("eprop set: skip unchanged type null", "bug", [(G, """        let value_json = serde_json::to_vec(value)?;
        batch.put_cf(&self.cf, &key, &value_json);
        if is_indexed {
            let edge_property_value_manager""", """        let value_json = serde_json::to_vec(value)?;
        if !value.is_null() {
            batch.put_cf(&self.cf, &key, &value_json);
        }
        if is_indexed {
            let edge_property_value_manager""")], []),
    ("eprop set: index only once", "bug", [(G, """        if is_indexed {
            self.delete(batch, indexed_properties, edge, name)?;
        }""", """        if is_indexed && self.get(edge, name)?.as_ref() != Some(value) {
            self.delete(batch, indexed_properties, edge, name)?;
        } else if is_indexed {
            return Ok(());
        }
        if self.get(edge, name)?.is_some() && !is_indexed {
            return Ok(());
        }""")], []),
    ("vprop delete: only when value present", "ok", [(G, """        if indexed_properties.contains(&name) {
            if let Some(value) = self.get(vertex_id, name)? {
                let vertex_property_value_manager = VertexPropertyValueManager::new(self.db);
                vertex_property_value_manager.delete(batch, vertex_id, name, &value);
            }
        }
        batch.delete_cf(&self.cf, self.key(vertex_id, name));
        Ok(())""", """        if indexed_properties.contains(&name) {
            let Some(value) = self.get(vertex_id, name)? else {
                return Ok(());
            };
            VertexPropertyValueManager::new(self.db).delete(batch, vertex_id, name, &value);
        }
        batch.delete_cf(&self.cf, self.key(vertex_id, name));
        Ok(())""")], []),
    ("rdb index_property skips edges", "bug", [(R, """        for item in self.edge_range_manager.iterate_for_all() {
            let edge = item?;
            if let Some(property_value) = self.edge_property_manager.get(&edge, name)? {""", """        for item in self.edge_range_manager.iterate_for_all() {
            let edge = item?;
            if edge.outbound_id == edge.inbound_id {
                continue;
            }
            if let Some(property_value) = self.edge_property_manager.get(&edge, name)? {""")], []),
    ("rdb index_property from reversed", "bug", [(R, "for item in self.edge_range_manager.iterate_for_all() {", "for item in self.reversed_edge_range_manager.iterate_for_all() {")], []),
    ("rdb index_property metadata old set", "bug", [(R, ".set_indexed_properties(&mut batch, &new_indexed_properties)?;", ".set_indexed_properties(&mut batch, &indexed_properties)?;")], []),
    ("rdb bulk insert vertex skips existing", "bug", [(R, "                BulkInsertItem::Edge(ref edge) => {\n                    self.edge_manager.set(&mut batch, edge)?;", "                BulkInsertItem::Edge(ref edge) => {\n                    if self.edge_range_manager.contains(&edge.reversed())? {\n                        continue;\n                    }\n                    self.edge_manager.set(&mut batch, edge)?;")], []),
    ("rdb bulk property stale indexed set", "bug", [(R, """    fn bulk_insert(&mut self, items: Vec<BulkInsertItem>) -> Result<()> {
        let indexed_properties = self.indexed_properties.read().unwrap();""", """    fn bulk_insert(&mut self, items: Vec<BulkInsertItem>) -> Result<()> {
        let indexed_properties = HashSet::<Identifier>::default();""")], []),
    ("rdb set props writes batch per chunk of one", "ok", [(R, """        for edge in edges.into_iter() {
            self.edge_property_manager
                .set(&mut batch, &indexed_properties, &edge, name, value)?;
        }""", """        for edge in edges.iter() {
            self.edge_property_manager
                .set(&mut batch, &indexed_properties, edge, name, value)?;
        }""")], []),
    ("rdb set vertex props dedups dropping last", "bug", [(R, "        for id in vertices.into_iter() {\n            self.vertex_property_manager\n                .set(", "        let n = vertices.len();\n        for id in vertices.into_iter().take(n.max(2) - 1) {\n            self.vertex_property_manager\n                .set(")], []),
    ("rdb delete_edges skip if absent", "bug", [(R, "        for edge in edges.into_iter() {\n            self.edge_manager.delete(", "        for edge in edges.into_iter() {\n            if edge.outbound_id > edge.inbound_id {\n                break;\n            }\n            self.edge_manager.delete(")], []),
    ("rdb specific_vertices first missing ends", "bug", [(R, """        let iter = ids.into_iter().filter_map(move |id| match self.vertex_manager.get(id) {
            Ok(Some(t)) => Some(Ok(Vertex::with_id(id, t))),
            Ok(None) => None,
            Err(err) => Some(Err(err)),
        });""", """        let iter = ids.into_iter().map_while(move |id| match self.vertex_manager.get(id) {
            Ok(Some(t)) => Some(Ok(Vertex::with_id(id, t))),
            Ok(None) => None,
            Err(err) => Some(Err(err)),
        });""")], []),
    ("rdb range_reversed on forward", "bug", [(R, "            self.reversed_edge_range_manager\n                .iterate_for_range(offset.outbound_id, offset.t, offset.inbound_id)?;", "            self.reversed_edge_range_manager\n                .iterate_for_range(offset.inbound_id, offset.t, offset.outbound_id)?;")], []),
    ("rdb vertex_count minus", "bug", [(R, "let iter = self.vertex_manager.iterate_for_range(Uuid::default());\n        iter.count() as u64", "let iter = self.vertex_manager.iterate_for_range(Uuid::default());\n        iter.skip_while(|v| v.as_ref().map_or(false, |v| v.id.is_nil())).count() as u64")], []),
    ("rdb edge_count distinct pairs", "bug", [(R, "let iter = self.edge_range_manager.iterate_for_all();\n        iter.count() as u64", "let iter = self.edge_range_manager.iterate_for_all();\n        let s: HashSet<(Uuid, Uuid)> = iter.filter_map(|e| e.ok()).map(|e| (e.outbound_id, e.inbound_id)).collect();\n        s.len() as u64")], []),
    ("rdb create edge exists check both same", "bug", [(R, "!self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)?", "!self.vertex_manager.exists(edge.outbound_id)? || (edge.outbound_id != edge.inbound_id && !self.vertex_manager.exists(edge.outbound_id)?)")], []),
    ("rdb create vertex swallow", "bug", [(R, "            self.vertex_manager.create(&mut batch, vertex)?;\n            self.db.write(batch)?;\n            Ok(true)", "            self.vertex_manager.create(&mut batch, vertex)?;\n            Ok(self.db.write(batch).is_ok())")], []),
    ("rdb write without wal", "bug", [(R, "            self.edge_manager.set(&mut batch, edge)?;\n            self.db.write(batch)?;", "            self.edge_manager.set(&mut batch, edge)?;\n            self.db.write_without_wal(batch)?;")], []),
    ("rdb delete vertices two batches", "bug", [(R, """        for vertex in vertices.into_iter() {
            self.vertex_manager.delete(&mut batch, &indexed_properties, vertex.id)?;
        }
""", """        for vertex in vertices.into_iter() {
            self.vertex_manager.delete(&mut batch, &indexed_properties, vertex.id)?;
            if batch.len() > 10_000 {
                self.db.write(std::mem::take(&mut batch))?;
            }
        }
""")], []),
    # ---- memory
    ("mem range_vertices excl", "bug", [(M, ".range(offset..)\n            .map(|(id, t)| Ok(Vertex::with_id(*id, *t)));", ".range((std::ops::Bound::Excluded(offset), std::ops::Bound::Unbounded))\n            .map(|(id, t)| Ok(Vertex::with_id(*id, *t)));")], []),
    ("mem range reversed on edges", "bug", [(M, "self.internal.reversed_edges.range(offset..)", "self.internal.reversed_edges.range(offset.reversed()..)")], []),
    ("mem prop values of other kind", "bug", [(M, "                let iter = Vec::default().into_iter();\n                Ok(Some(Box::new(iter)))\n            }\n        } else {\n            Ok(None)\n        }\n    }\n\n    fn edge_count", "                Ok(None)\n            }\n        } else {\n            Ok(None)\n        }\n    }\n\n    fn edge_count")], []),
    ("mem all_vertex_properties from last name", "bug", [(M, "if prop_vertex_id != &vertex.id {\n                break;\n            }\n            vertex_properties.push", "if prop_vertex_id != &vertex.id {\n                break;\n            }\n            if prop_value.is_null() {\n                continue;\n            }\n            vertex_properties.push")], []),
    ("mem delete vertices: break on first prop mismatch before", "bug", [(M, "                if &vertex.id != property_vertex_id {\n                    break;\n                }\n\n                deletable_vertex_properties.push(*property_key);", "                deletable_vertex_properties.push(*property_key);\n\n                if &vertex.id != property_vertex_id {\n                    break;\n                }")], []),
    ("mem delete vertices self loops", "bug", [(M, "if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {", "if (edge.outbound_id == vertex.id) ^ (edge.inbound_id == vertex.id) {")], []),
    ("mem delete vertices: edges of type", "bug", [(M, "if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {", "if edge.outbound_id > vertex.id && edge.inbound_id > vertex.id {\n                    break;\n                }\n                if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {")], []),
    ("mem delete props: index via container only if nonempty", "bug", [(M, "                        members.remove(&IndexedPropertyMember::Edge(property_edge));", "                        if members.len() > 1 {\n                            members.remove(&IndexedPropertyMember::Edge(property_edge));\n                        }")], []),
    ("mem delete edge only reversed on self", "bug", [(M, "self.internal.reversed_edges.remove(&edge.reversed());", "self.internal.reversed_edges.remove(&edge);")], []),
    ("mem index existing not merged", "bug", [(M, """        let existing_property_container = self.internal.property_values.entry(name).or_default();
        for (value, members) in property_container.into_iter() {
            let existing_members = existing_property_container.entry(value).or_default();
            for member in members {
                existing_members.insert(member);
            }
        }
""", """        self.internal.property_values.entry(name).or_insert_with(HashMap::new);
        if !property_container.is_empty() && property_container.len() < self.internal.vertices.len() {
            self.internal.property_values.insert(name, property_container);
        }
""")], []),
    ("mem index replaced", "bug", [(M, """        let existing_property_container = self.internal.property_values.entry(name).or_default();
        for (value, members) in property_container.into_iter() {
            let existing_members = existing_property_container.entry(value).or_default();
            for member in members {
                existing_members.insert(member);
            }
        }
""", """        self.internal.property_values.insert(name, property_container);
""")], []),
    ("mem index only if no entry", "bug", [(M, """                property_container
                    .entry(value.clone())
                    .or_default()
                    .insert(IndexedPropertyMember::Edge(edge.clone()));""", """                property_container
                    .entry(value.clone())
                    .or_insert_with(|| HashSet::from([IndexedPropertyMember::Edge(edge.clone())]));""")], []),
    ("mem set props: index uses first id", "bug", [(M, "for vertex_id in vertex_ids.into_iter() {\n                property_container.insert(IndexedPropertyMember::Vertex(vertex_id));", "for vertex_id in vertex_ids.iter().skip_while(|id| **id == vertex_ids[0]) {\n                property_container.insert(IndexedPropertyMember::Vertex(*vertex_id));")], []),
    ("mem set props: no delete when same count", "bug", [(M, """        for edge in &edges {
            deletable_edge_properties.push((edge.clone(), name));
        }
        self.delete_edge_properties(deletable_edge_properties)?;
""", """        for edge in &edges {
            deletable_edge_properties.push((edge.clone(), name));
        }
        if self.internal.property_values.len() == 1 {
            self.delete_edge_properties(deletable_edge_properties)?;
        }
""")], []),
    ("mem create edge checks one", "bug", [(M, "            || !self.internal.vertices.contains_key(&edge.inbound_id)", "            && !self.internal.vertices.contains_key(&edge.inbound_id)")], []),
    ("mem create edge false when exists", "bug", [(M, "        self.internal.edges.insert(edge.clone());\n        self.internal.reversed_edges.insert(edge.reversed());\n        Ok(true)", "        self.internal.reversed_edges.insert(edge.reversed());\n        Ok(self.internal.edges.insert(edge.clone()))")], []),
    ("mem create vertex overwrites type", "bug", [(M, """        self.internal.vertices.entry(vertex.id).or_insert_with(|| {
            inserted = true;
            vertex.t
        });
""", """        let t = self.internal.vertices.entry(vertex.id).or_insert_with(|| {
            inserted = true;
            vertex.t
        });
        *t = vertex.t;
""")], []),
    ("mem sync no flush of file", "bug", [(M, "            temp_path\n                .as_file()\n                .sync_all()\n                .map_err(|err| Error::Datastore(Box::new(err)))?;\n", "")], []),
    ("mem sync in tmp dir", "bug", [(M, "NamedTempFile::new_in(dir)", "NamedTempFile::new()")], []),
    ("mem specific_edges dedup", "bug", [(M, ".filter(move |edge| self.internal.edges.contains(edge))", ".filter(move |edge| self.internal.edges.contains(edge) || self.internal.reversed_edges.contains(edge))")], []),
    ("mem vertex_property default name", "bug", [(M, "self.internal.vertex_properties.get(&(vertex.id, name))", "self.internal.vertex_properties.get(&(vertex.id, name)).filter(|v| !v.is_null())")], []),
    ("mem edge index unfiltered", "ok", [(M, "IndexedPropertyMember::Edge(edge) if self.internal.edges.contains(edge) => Some(edge),", "IndexedPropertyMember::Edge(edge) => Some(edge),")], []),
]
