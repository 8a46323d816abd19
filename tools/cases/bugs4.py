M = "lib/src/memory/datastore.rs"
R = "lib/src/rdb/datastore.rs"
G = "lib/src/rdb/managers.rs"
D = "lib/src/database.rs"
C = "proto/src/client.rs"
S = "proto/src/server.rs"
V = "proto/src/converters.rs"
VDEL = "members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));\n"
CASES = [
    ("mem index dropped with its last value", "bug", [(M, """                    if let Some(members) = property_container.get_mut(&property_value) {
                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
                    }
""", """                    if let Some(members) = property_container.get_mut(&property_value) {
                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
                    }
                    if property_container.values().all(|m| m.is_empty()) {
                        self.internal.property_values.remove(&property_name);
                    }
""")], []),
    ("mem empty value sets are dropped", "ok", [(M, """                    if let Some(members) = property_container.get_mut(&property_value) {
                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
                    }
""", """                    if let Some(members) = property_container.get_mut(&property_value) {
                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
                        if members.is_empty() {
                            property_container.remove(&property_value);
                        }
                    }
""")], []),
    ("mem index early return", "ok", [(M, "        let mut property_container: HashMap<Json, HashSet<IndexedPropertyMember>> = HashMap::new();\n", """        if self.internal.property_values.contains_key(&name) {
            return Ok(());
        }
        let mut property_container: HashMap<Json, HashSet<IndexedPropertyMember>> = HashMap::new();
""")], []),
    ("mem create edge unless there", "ok", [(M, """        self.internal.edges.insert(edge.clone());
        self.internal.reversed_edges.insert(edge.reversed());
        Ok(true)""", """        if self.internal.edges.insert(edge.clone()) {
            self.internal.reversed_edges.insert(edge.reversed());
        }
        Ok(true)""")], []),
    ("rdb edge set unless there", "ok", [(G, """        if edge_range_manager.contains(edge)? {
            edge_range_manager.delete(batch, edge)?;
            reversed_edge_range_manager.delete(batch, &reversed_edge)?;
        }

""", "")], []),
    ("mem edge properties: type not compared", "bug", [(M, """            if prop_edge != edge {
                break;
            }
            edge_properties.push""", """            if prop_edge.outbound_id != edge.outbound_id || prop_edge.inbound_id != edge.inbound_id {
                break;
            }
            edge_properties.push""")], []),
    ("rdb edge properties: prefix without the end", "bug", [(G, """        let prefix = util::build(&[
            util::Component::Uuid(edge.outbound_id),
            util::Component::Identifier(edge.t),
            util::Component::Uuid(edge.inbound_id),
        ]);

        let iterator = self""", """        let prefix = util::build(&[
            util::Component::Uuid(edge.outbound_id),
            util::Component::Identifier(edge.t),
        ]);

        let iterator = self""")], []),
    ("rdb delete in chunks", "bug", [(R, """        let mut batch = WriteBatch::default();

        for vertex in vertices.into_iter() {
            self.vertex_manager.delete(&mut batch, &indexed_properties, vertex.id)?;
        }
""", """        let mut batch = WriteBatch::default();

        for vertex in vertices.into_iter() {
            self.vertex_manager.delete(&mut batch, &indexed_properties, vertex.id)?;
            if batch.size_in_bytes() > 1 << 20 {
                self.db.write(std::mem::take(&mut batch))?;
            }
        }
""")], []),
    ("rdb bulk in reverse", "bug", [(R, "        for item in items {\n            match item {\n                BulkInsertItem::Vertex(ref", "        for item in items.into_iter().rev() {\n            match item {\n                BulkInsertItem::Vertex(ref")], []),
    ("rdb lookup stops at a stale entry", "bug", [(R, """        iter.filter_map(|item| match item {
            Ok((_, _, id)) => match self.vertex_manager.exists(id) {
                Ok(true) => Some(Ok(id)),
                Ok(false) => None,""", """        iter.map_while(|item| match item {
            Ok((_, _, id)) => match self.vertex_manager.exists(id) {
                Ok(true) => Some(Ok(id)),
                Ok(false) => None,""")], []),
    ("limit of 16 bits", "bug", [(D, "            iter = Box::new(iter.take(q.limit as usize));", "            iter = Box::new(iter.take(q.limit as u16 as usize));")], []),
    ("client drops empty lists", "bug", [(C, "            output.push(res?.try_into()?);", """            let value: indradb::QueryOutputValue = res?.try_into()?;
            if let indradb::QueryOutputValue::Edges(ref e) = value {
                if e.is_empty() && !output.is_empty() {
                    continue;
                }
            }
            output.push(value);""")], []),
    ("client bulk: call error after send error", "ok", [(C, """        let mut last_err = last_err.lock().unwrap();
        if last_err.is_some() {
            Err(last_err.take().unwrap())
        } else {
            Ok(())
        }
    }

    pub async fn index""", """        match last_err.lock().unwrap().take() {
            Some(err) => Err(err),
            None => Ok(()),
        }
    }

    pub async fn index""")], []),
    ("client bulk: error of the last item only", "bug", [(C, """                for item in items.into_iter() {
                    if let Err(err) = tx.send(item.into()).await {
                        *last_err.lock().unwrap() = Some(err.into());
                        return;
                    }
                }""", """                let n = items.len();
                for (i, item) in items.into_iter().enumerate() {
                    if let Err(err) = tx.send(item.into()).await {
                        if i + 1 < n {
                            *last_err.lock().unwrap() = Some(err.into());
                        }
                        return;
                    }
                }""")], []),
    ("server bulk: nothing for an empty stream", "ok", [(S, "        map_jh_indra_result(tokio::task::spawn_blocking(move || db.bulk_insert(items)).await)?;\n", """        let job = tokio::task::spawn_blocking(move || db.bulk_insert(items));
        let res = job.await;
        map_jh_indra_result(res)?;
""")], []),
    ("server set swaps only for long names", "bug", [(S, "        let (q, name, value) = map_conversion_result(request.into_inner().try_into())?;\n", """        let (q, name, value): (indradb::Query, indradb::Identifier, indradb::Json) = map_conversion_result(request.into_inner().try_into())?;
        let q = if let indradb::Query::Include(inner) = q { *inner.inner } else { q };
""")], []),
    ("server drops plugins of one name", "bug", [(S, "            plugin_entries.extend(decl.entries);", """            for (name, plugin) in decl.entries {
                plugin_entries.entry(name).or_insert(plugin);
            }""")], None),
    ("server libs reversed", "bug", [(S, "            libraries.push(library);", "            if decl_count > 0 {\n                libraries.push(library);\n            }"), (S, "            let decl = func();\n", "            let decl = func();\n            let decl_count = decl.entries.len();\n")], None),
    ("edge get with wrong range start", "bug", [(D, "(*txn).range_reversed_edges(", "(*txn).range_edges(")], []),
    ("mem create_edge checks one end twice", "bug", [(M, "            || !self.internal.vertices.contains_key(&edge.inbound_id)", "            || !self.internal.vertices.contains_key(&edge.outbound_id)")], []),
    ("mem set: value indexed only if new", "bug", [(M, """            for vertex_id in vertex_ids.into_iter() {
                property_container.insert""", """            if !property_container.is_empty() {
                return Ok(());
            }
            for vertex_id in vertex_ids.into_iter() {
                property_container.insert""")], []),
    ("rdb index: edges skipped when no vertex", "bug", [(R, "        for item in self.edge_range_manager.iterate_for_all() {\n            let edge = item?;\n            if let", "        for item in self.edge_range_manager.iterate_for_all() {\n            let edge = item?;\n            if edge.outbound_id == edge.inbound_id {\n                continue;\n            }\n            if let")], []),
    ("delete swallows nothing yielded", "ok", [(D, "        match output.pop().unwrap() {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.delete_vertices(vertices)?;", "        let last = match output.pop() {\n            Some(last) => last,\n            None => unreachable!(),\n        };\n        match last {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.delete_vertices(vertices)?;")], []),
    ("delete the first output", "bug", [(D, "        match output.pop().unwrap() {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.delete_vertices(vertices)?;", "        match output.swap_remove(0) {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.delete_vertices(vertices)?;")], []),
]
CASES = [c for c in CASES if c[0] not in ("server libs reversed", "client bulk: call error after send error")] + [
    ("server plugins insert loop", "ok", [(S, "            plugin_entries.extend(decl.entries);", """            for (name, plugin) in decl.entries {
                plugin_entries.insert(name, plugin);
            }""")], []),
    ("rdb bulk sorted", "bug", [(R, "        for item in items {\n            match item {\n                BulkInsertItem::Vertex(ref", "        let mut items = items;\n        items.sort_by_key(|item| matches!(item, BulkInsertItem::Vertex(_)));\n        items.reverse();\n        for item in items {\n            match item {\n                BulkInsertItem::Vertex(ref")], ["C29"]),
    ("rdb bulk popped", "bug", [(R, "        for item in items {\n            match item {\n                BulkInsertItem::Vertex(ref", "        let mut items = items;\n        while let Some(item) = items.pop() {\n            match item {\n                BulkInsertItem::Vertex(ref")], ["C29"]),
    ("default bulk in reverse", "bug", [(D, "        for item in items {\n            match item {\n                BulkInsertItem::Vertex(vertex", "        for item in items.into_iter().rev() {\n            match item {\n                BulkInsertItem::Vertex(vertex")], []),
]
