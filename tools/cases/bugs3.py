D = "lib/src/database.rs"
KEEP = """            if let Query::Include(_) = *q.inner {
                // keep the value exported
                output.push(piped_values);
            }

            values
        }
"""
CASES = [
    # ---- bugs in queries
    ("range: limit before type filter", "bug", [(D, """            if let Some(ref t) = q.t {
                iter = Box::new(iter.filter(move |r| match r {
                    Ok(v) => &v.t == t,
                    Err(_) => true,
                }));
            }

            iter = Box::new(iter.take(q.limit as usize));
            QueryOutputValue::Vertices(iter.collect::<Result<Vec<Vertex>>>()?)
        }
        Query::SpecificVertex""", """            iter = Box::new(iter.take(q.limit as usize));

            if let Some(ref t) = q.t {
                iter = Box::new(iter.filter(move |r| match r {
                    Ok(v) => &v.t == t,
                    Err(_) => true,
                }));
            }

            QueryOutputValue::Vertices(iter.collect::<Result<Vec<Vertex>>>()?)
        }
        Query::SpecificVertex""")], []),
    ("range: take_while type", "bug", [(D, "iter = Box::new(iter.filter(move |r| match r {\n                    Ok(v) => &v.t == t,", "iter = Box::new(iter.take_while(move |r| match r {\n                    Ok(v) => &v.t == t,")], []),
    ("range: limit min 1", "bug", [(D, "iter = Box::new(iter.take(q.limit as usize));\n            QueryOutputValue::Vertices", "iter = Box::new(iter.take((q.limit as usize).max(1)));\n            QueryOutputValue::Vertices")], []),
    ("range: limit u16", "bug", [(D, "iter = Box::new(iter.take(q.limit as usize));\n            QueryOutputValue::Vertices", "iter = Box::new(iter.take(q.limit as u16 as usize));\n            QueryOutputValue::Vertices")], []),
    ("pipe edges: dedup endpoints", "bug", [(D, "let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;", "let ids: HashSet<Uuid> = iter.collect();\n                    let mut iter: DynIter<Vertex> = (*txn).specific_vertices(ids.into_iter().collect())?;")], []),
    ("pipe edges: dedup adjacent endpoints", "bug", [(D, "let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;", "let mut ids: Vec<Uuid> = iter.collect();\n                    ids.dedup();\n                    let mut iter: DynIter<Vertex> = (*txn).specific_vertices(ids)?;")], []),
    ("pipe edges: ids cut at limit", "bug", [(D, "let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;", "let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.take(q.limit as usize).collect())?;")], []),
    ("pipe: take per vertex", "bug", [(D, "iter = Box::new(iter.take((q.limit as usize) - edges.len()));", "iter = Box::new(iter.take(q.limit as usize));")], []),
    ("pipe: filter type after take", "bug", [(D, """                        if let Some(ref t) = q.t {
                            iter = Box::new(iter.filter(move |r| match r {
                                Ok(e) => &e.t == t,
                                Err(_) => true,
                            }));
                        }

                        if q.direction == EdgeDirection::Inbound {
                            iter = Box::new(iter.map(move |r| Ok(r?.reversed())));
                        }
""", """                        if q.direction == EdgeDirection::Inbound {
                            iter = Box::new(iter.map(move |r| Ok(r?.reversed())));
                        }
"""), (D, """                        for result in iter {
                            edges.push(result?);
                        }

                        if edges.len()""", """                        for result in iter {
                            let edge = result?;
                            if let Some(ref t) = q.t {
                                if &edge.t != t {
                                    continue;
                                }
                            }
                            edges.push(edge);
                        }

                        if edges.len()""")], []),
    ("pipe: type filter by continue", "ok", [(D, """                        if let Some(ref t) = q.t {
                            iter = Box::new(iter.filter(move |r| match r {
                                Ok(e) => &e.t == t,
                                Err(_) => true,
                            }));
                        }

                        if q.direction == EdgeDirection::Inbound {
                            iter = Box::new(iter.map(move |r| Ok(r?.reversed())));
                        }

                        iter = Box::new(iter.take((q.limit as usize) - edges.len()));

                        for result in iter {
                            edges.push(result?);
                        }

                        if edges.len() >= (q.limit as usize) {
                            break;
                        }
""", """                        for result in iter {
                            if edges.len() >= (q.limit as usize) {
                                break;
                            }
                            let edge = result?;
                            if let Some(ref t) = q.t {
                                if &edge.t != t {
                                    continue;
                                }
                            }
                            if q.direction == EdgeDirection::Inbound {
                                edges.push(edge.reversed());
                            } else {
                                edges.push(edge);
                            }
                        }

                        if edges.len() >= (q.limit as usize) {
                            break;
                        }
""")], []),
    ("pipe: lower bound without type", "ok", [(D, """                        let lower_bound = match &q.t {
                            Some(t) => Edge::new(vertex.id, *t, Uuid::default()),
                            None => Edge::new(vertex.id, Identifier::default(), Uuid::default()),
                        };
""", """                        let lower_bound = Edge::new(vertex.id, Identifier::default(), Uuid::default());
""")], []),
    ("pipe: lower bound inbound self", "bug", [(D, "Some(t) => Edge::new(vertex.id, *t, Uuid::default()),", "Some(t) => Edge::new(vertex.id, *t, vertex.id),")], []),
    ("pipe: both directions for inbound", "bug", [(D, "Ok(e) => e.outbound_id == vertex.id,", "Ok(e) => e.outbound_id == vertex.id || e.inbound_id == vertex.id,")], []),
    ("pipe: reversed only for non loops ok", "ok", [(D, "iter = Box::new(iter.map(move |r| Ok(r?.reversed())));", "iter = Box::new(iter.map(move |r| r.map(|e| Edge::new(e.inbound_id, e.t, e.outbound_id))));")], []),
    ("pipe: break when equal", "ok", [(D, "if edges.len() >= (q.limit as usize) {", "if edges.len() == (q.limit as usize) {")], []),
    ("pipe: no break", "ok", [(D, "                        if edges.len() >= (q.limit as usize) {\n                            break;\n                        }\n", "")], []),
    ("pipe: early break off by one", "bug", [(D, "if edges.len() >= (q.limit as usize) {", "if edges.len() + 1 >= (q.limit as usize) {")], []),
    ("pipe property: keep empties", "bug", [(D, "if !props.is_empty() {\n                            edge_properties.push", "if q.name.is_none() || !props.is_empty() {\n                            edge_properties.push")], []),
    ("pipe property: null dropped", "bug", [(D, "if let Some(value) = (*txn).vertex_property(vertex, *name)? {\n", "if let Some(value) = (*txn).vertex_property(vertex, *name)?.filter(|v| !v.is_null()) {\n")], []),
    ("pipe property: props across vertices", "bug", [(D, """                    for vertex in piped_vertices {
                        let mut props = Vec::new();
                        if let Some(name) = &q.name {
                            if let Some(value) = (*txn).vertex_property(vertex, *name)? {
                                props.push(NamedProperty::new(*name, value.clone()));
                            }
                        }""", """                    let mut props = Vec::new();
                    for vertex in piped_vertices {
                        if let Some(name) = &q.name {
                            if let Some(value) = (*txn).vertex_property(vertex, *name)? {
                                props.clear();
                                props.push(NamedProperty::new(*name, value.clone()));
                            }
                        }"""), (D, "vertex_properties.push(VertexProperties::new(vertex.clone(), props));", "vertex_properties.push(VertexProperties::new(vertex.clone(), props.clone()));")], []),
    ("presence: not exists on value", "bug", [(D, "(q.exists && contains) || (!q.exists && !contains)\n                    });\n                    QueryOutputValue::Vertices", "q.exists || !contains\n                    });\n                    QueryOutputValue::Vertices")], []),
    ("value: equal xor", "ok", [(D, "(q.equal && contains) || (!q.equal && !contains)", "q.equal == contains")], []),
    ("value: not equal requires presence", "bug", [(D, """                    let vertex_ids = match (*txn).vertex_ids_with_property_value(q.name, &q.value)? {
                        Some(iter) => iter.collect::<Result<HashSet<Uuid>>>()?,
                        None => return Err(Error::NotIndexed),
                    };
                    let iter = piped_vertices.iter().filter(move |v| {
                        let contains = vertex_ids.contains(&v.id);
                        (q.equal && contains) || (!q.equal && !contains)""", """                    let vertex_ids = match (*txn).vertex_ids_with_property_value(q.name, &q.value)? {
                        Some(iter) => iter.collect::<Result<HashSet<Uuid>>>()?,
                        None => return Err(Error::NotIndexed),
                    };
                    let having = match (*txn).vertex_ids_with_property(q.name)? {
                        Some(iter) => iter.collect::<Result<HashSet<Uuid>>>()?,
                        None => return Err(Error::NotIndexed),
                    };
                    let iter = piped_vertices.iter().filter(move |v| {
                        let contains = vertex_ids.contains(&v.id);
                        (q.equal && contains) || (!q.equal && !contains && having.contains(&v.id))""")], []),
    ("presence: not indexed means none", "bug", [(D, """                    let edges_with_property = match (*txn).edges_with_property(q.name)? {
                        Some(iter) => iter.collect::<Result<HashSet<Edge>>>()?,
                        None => return Err(Error::NotIndexed),""", """                    let edges_with_property = match (*txn).edges_with_property(q.name)? {
                        Some(iter) => iter.collect::<Result<HashSet<Edge>>>()?,
                        None if piped_edges.is_empty() => HashSet::new(),
                        None => return Err(Error::NotIndexed),""")], []),
    ("edge value: no re-check", "bug", [(D, """            if let Some(iter) = (*txn).edges_with_property_value(q.name, &q.value)? {
                let iter = (*txn).specific_edges(iter.collect::<Result<Vec<Edge>>>()?)?;
                QueryOutputValue""", """            if let Some(iter) = (*txn).edges_with_property_value(q.name, &q.value)? {
                QueryOutputValue""")], []),
    ("include: pushes copy", "bug", [(D, "        Query::Include(ref q) => {\n            query(txn, &q.inner, output)?;\n            output.pop().unwrap()", "        Query::Include(ref q) => {\n            query(txn, &q.inner, output)?;\n            if output.len() > 1 {\n                output.remove(0);\n            }\n            output.pop().unwrap()")], []),
    ("count: counts props", "bug", [(D, "QueryOutputValue::VertexProperties(ref p) => p.len(),", "QueryOutputValue::VertexProperties(ref p) => p.iter().map(|p| p.props.len()).sum(),")], []),
    ("count: range all optimised", "bug", [(D, "                Query::AllEdge => (*txn).edge_count(),", "                Query::AllEdge => (*txn).edge_count(),\n                Query::RangeVertex(r) if r.t.is_none() && r.start_id.is_none() => (*txn).vertex_count(),")], []),
    ("count: range all optimised ok", "ok", [(D, "                Query::AllEdge => (*txn).edge_count(),", "                Query::AllEdge => (*txn).edge_count(),\n                Query::RangeVertex(r) if r.t.is_none() && r.start_id.is_none() => (*txn).vertex_count().min(r.limit as u64),")], []),
    ("count: include not kept", "bug", [(D, "                    if let Query::Include(_) = q {\n                        // keep the value exported\n                        output.push(piped_values);\n                    }\n                    len as u64", "                    len as u64")], []),
    ("count u32", "bug", [(D, "len as u64\n", "len as u32 as u64\n")], []),
    ("delete: output first", "bug", [(D, "match output.pop().unwrap() {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.delete_vertices", "match output.swap_remove(0) {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.delete_vertices")], []),
    ("delete: only first prop", "bug", [(D, "let iter = eps.props.iter().map(move |ep| (eps.edge.clone(), ep.name));", "let iter = eps.props.iter().take(1).map(move |ep| (eps.edge.clone(), ep.name));")], []),
    ("delete: included too", "bug", [(D, "        match output.pop().unwrap() {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.delete_vertices(vertices)?;\n            }", "        match output.pop().unwrap() {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.delete_vertices(vertices)?;\n                while let Some(QueryOutputValue::Edges(edges)) = output.pop() {\n                    txn.delete_edges(edges)?;\n                }\n            }")], []),
    ("delete: count silently", "bug", [(D, "QueryOutputValue::Count(_) => return Err(Error::OperationOnQuery),\n        }\n        Ok(())", "QueryOutputValue::Count(n) if n > 0 => return Err(Error::OperationOnQuery),\n            QueryOutputValue::Count(_) => {}\n        }\n        Ok(())")], []),
    ("set props: skip on empty ok", "ok", [(D, "            QueryOutputValue::Edges(edges) => {\n                txn.set_edge_properties(edges, name, value)?;", "            QueryOutputValue::Edges(edges) => {\n                if edges.is_empty() {\n                    return Ok(());\n                }\n                txn.set_edge_properties(edges, name, value)?;")], []),
    ("set props: second txn", "bug", [(D, """            QueryOutputValue::Edges(edges) => {
                txn.set_edge_properties(edges, name, value)?;
            }
            _ =>""", """            QueryOutputValue::Edges(edges) => {
                drop(txn);
                let mut txn = self.datastore.transaction();
                txn.set_edge_properties(edges, name, value)?;
            }
            _ =>""")], []),
    ("default bulk: ignores false edge", "ok", [(D, "                BulkInsertItem::Edge(edge) => {\n                    self.create_edge(&edge)?;", "                BulkInsertItem::Edge(edge) => {\n                    let _created = self.create_edge(&edge)?;")], []),
    ("default bulk: swallow", "bug", [(D, "                BulkInsertItem::VertexProperty(id, name, value) => {\n                    self.set_vertex_properties(vec![id], name, &value)?;", "                BulkInsertItem::VertexProperty(id, name, value) => {\n                    self.set_vertex_properties(vec![id], name, &value).ok();")], []),
    ("create from type retry", "ok", [(D, """        if !self.create_vertex(&v)? {
            Err(Error::UuidTaken)
        } else {
            Ok(v.id)
        }""", """        match self.create_vertex(&v) {
            Ok(true) => Ok(v.id),
            Ok(false) => Err(Error::UuidTaken),
            Err(err) => Err(err),
        }""")], []),
    ("create from type id new", "bug", [(D, "            Ok(v.id)\n", "            Ok(Vertex::new(v.t).id)\n")], []),
    # ---- refactorings
    ("refactor: keep helper", "ok", [(D, "unsafe fn query<'a,", """fn keep_included(inner: &Query, values: QueryOutputValue, output: &mut Vec<QueryOutputValue>) {
    if matches!(inner, Query::Include(_)) {
        output.push(values);
    }
}

unsafe fn query<'a,""")] + [(D, KEEP, "            keep_included(&q.inner, piped_values, output);\n            values\n        }\n")] * 4, []),
    ("refactor: filter type helper", "ok", [(D, "unsafe fn query<'a,", """fn of_type<'a>(iter: DynIter<'a, Vertex>, t: &'a Option<Identifier>) -> DynIter<'a, Vertex> {
    match t {
        None => iter,
        Some(t) => Box::new(iter.filter(move |r| r.as_ref().map_or(true, |v| v.t == *t))),
    }
}

unsafe fn query<'a,"""), (D, """            if let Some(ref t) = q.t {
                iter = Box::new(iter.filter(move |r| match r {
                    Ok(v) => &v.t == t,
                    Err(_) => true,
                }));
            }

            iter = Box::new(iter.take""", "            iter = of_type(iter, &q.t);\n            iter = Box::new(iter.take"), (D, """                    if let Some(ref t) = q.t {
                        iter = Box::new(iter.filter(move |r| match r {
                            Ok(v) => &v.t == t,
                            Err(_) => true,
                        }));
                    }
""", "                    iter = of_type(iter, &q.t);\n")], []),
    ("refactor: indexed helper", "ok", [(D, "unsafe fn query<'a,", """fn indexed<T>(iter: Option<DynIter<'_, T>>) -> Result<DynIter<'_, T>> {
    iter.ok_or(Error::NotIndexed)
}

unsafe fn query<'a,"""), (D, """            if let Some(iter) = (*txn).vertex_ids_with_property(q.name)? {
                let iter = (*txn).specific_vertices(iter.collect::<Result<Vec<Uuid>>>()?)?;
                QueryOutputValue::Vertices(iter.collect::<Result<Vec<Vertex>>>()?)
            } else {
                return Err(Error::NotIndexed);
            }
""", """            let ids = indexed((*txn).vertex_ids_with_property(q.name)?)?.collect::<Result<Vec<Uuid>>>()?;
            let iter = (*txn).specific_vertices(ids)?;
            QueryOutputValue::Vertices(iter.collect::<Result<Vec<Vertex>>>()?)
"""), (D, """                    let edges = match (*txn).edges_with_property_value(q.name, &q.value)? {
                        Some(iter) => iter.collect::<Result<HashSet<Edge>>>()?,
                        None => return Err(Error::NotIndexed),
                    };
""", "                    let edges: HashSet<Edge> = indexed((*txn).edges_with_property_value(q.name, &q.value)?)?.collect::<Result<_>>()?;\n")], []),
    ("refactor: props by functional", "ok", [(D, """                        let mut props = Vec::new();
                        if let Some(name) = &q.name {
                            if let Some(value) = (*txn).edge_property(edge, *name)? {
                                props.push(NamedProperty::new(*name, value.clone()));
                            }
                        } else {
                            for result in (*txn).all_edge_properties_for_edge(edge)? {
                                let (name, value) = result?;
                                props.push(NamedProperty::new(name, value.clone()));
                            }
                        }
""", """                        let props: Vec<NamedProperty> = match q.name {
                            Some(name) => (*txn)
                                .edge_property(edge, name)?
                                .into_iter()
                                .map(|value| NamedProperty::new(name, value))
                                .collect(),
                            None => (*txn)
                                .all_edge_properties_for_edge(edge)?
                                .map(|r| r.map(|(name, value)| NamedProperty::new(name, value)))
                                .collect::<Result<Vec<_>>>()?,
                        };
""")], []),
    ("refactor: run helper in Database", "ok", [(D, "    /// Gets values specified by a query.\n", """    fn run(txn: &D::Transaction<'_>, q: &Query) -> Result<Vec<QueryOutputValue>> {
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(txn as *const D::Transaction<'_>, q, &mut output)?;
        }
        Ok(output)
    }

    /// Gets values specified by a query.
"""), (D, """        let txn = self.datastore.transaction();
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(&txn as *const D::Transaction<'_>, &q, &mut output)?;
        }
        Ok(output)
    }

    /// Deletes""", """        let txn = self.datastore.transaction();
        Self::run(&txn, &q)
    }

    /// Deletes"""), (D, """        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(&txn as *const D::Transaction<'_>, &q, &mut output)?;
        }
        match output""", """        let mut output = Self::run(&txn, &q)?;
        match output""")], []),
    ("refactor: delete loops", "ok", [(D, """                txn.delete_vertex_properties(
                    vertex_properties
                        .into_iter()
                        .flat_map(|vps| {
                            let iter = vps.props.iter().map(move |vp| (vps.vertex.id, vp.name));
                            iter.collect::<Vec<(Uuid, Identifier)>>()
                        })
                        .collect(),
                )?;""", """                let mut deletable = Vec::new();
                for VertexProperties { vertex, props } in vertex_properties {
                    deletable.extend(props.into_iter().map(|prop| (vertex.id, prop.name)));
                }
                txn.delete_vertex_properties(deletable)?;""")], []),
    ("refactor: count by match", "ok", [(D, """                    let len = match piped_values {
                        QueryOutputValue::Vertices(ref v) => v.len(),
                        QueryOutputValue::Edges(ref e) => e.len(),
                        QueryOutputValue::VertexProperties(ref p) => p.len(),
                        QueryOutputValue::EdgeProperties(ref p) => p.len(),
                        _ => return Err(Error::OperationOnQuery),
                    };
                    if let Query::Include(_) = q {
                        // keep the value exported
                        output.push(piped_values);
                    }
                    len as u64""", """                    let len = match &piped_values {
                        QueryOutputValue::Vertices(v) => v.len() as u64,
                        QueryOutputValue::Edges(e) => e.len() as u64,
                        QueryOutputValue::VertexProperties(p) => p.len() as u64,
                        QueryOutputValue::EdgeProperties(p) => p.len() as u64,
                        QueryOutputValue::Count(_) => return Err(Error::OperationOnQuery),
                    };
                    if matches!(q, Query::Include(_)) {
                        output.push(piped_values);
                    }
                    len""")], []),
    ("refactor: split query pipe fn", "ok", [(D, "unsafe fn query<'a,", """unsafe fn piped_edges<'a, T: Transaction<'a> + 'a>(
    txn: *const T,
    q: &crate::models::PipeQuery,
    vertices: &[Vertex],
) -> Result<Vec<Edge>> {
    let limit = q.limit as usize;
    let mut edges = Vec::new();
    for vertex in vertices {
        if edges.len() >= limit {
            break;
        }
        let from = Edge::new(vertex.id, q.t.unwrap_or_default(), Uuid::default());
        let iter = match q.direction {
            EdgeDirection::Outbound => (*txn).range_edges(from)?,
            EdgeDirection::Inbound => (*txn).range_reversed_edges(from)?,
        };
        for result in iter {
            let edge = result?;
            if edge.outbound_id != vertex.id || edges.len() >= limit {
                break;
            }
            if q.t.map_or(false, |t| t != edge.t) {
                continue;
            }
            edges.push(match q.direction {
                EdgeDirection::Outbound => edge,
                EdgeDirection::Inbound => edge.reversed(),
            });
        }
    }
    Ok(edges)
}

unsafe fn query<'a,"""), (D, """                    let mut edges = Vec::new();

                    for vertex in piped_vertices {
                        let lower_bound = match &q.t {
                            Some(t) => Edge::new(vertex.id, *t, Uuid::default()),
                            None => Edge::new(vertex.id, Identifier::default(), Uuid::default()),
                        };

                        let mut iter = if q.direction == EdgeDirection::Outbound {
                            (*txn).range_edges(lower_bound)?
                        } else {
                            (*txn).range_reversed_edges(lower_bound)?
                        };

                        iter = Box::new(iter.take_while(move |r| match r {
                            Ok(e) => e.outbound_id == vertex.id,
                            Err(_) => true,
                        }));

                        if let Some(ref t) = q.t {
                            iter = Box::new(iter.filter(move |r| match r {
                                Ok(e) => &e.t == t,
                                Err(_) => true,
                            }));
                        }

                        if q.direction == EdgeDirection::Inbound {
                            iter = Box::new(iter.map(move |r| Ok(r?.reversed())));
                        }

                        iter = Box::new(iter.take((q.limit as usize) - edges.len()));

                        for result in iter {
                            edges.push(result?);
                        }

                        if edges.len() >= (q.limit as usize) {
                            break;
                        }
                    }

                    QueryOutputValue::Edges(edges)""", """                    QueryOutputValue::Edges(self::piped_edges(txn, q, piped_vertices)?)""")], []),
]
