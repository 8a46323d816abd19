DBF = 'lib/src/database.rs'
P = ['C12', 'C28', 'C31', 'C32', 'C06']
RV_FILTER = '''            if let Some(ref t) = q.t {
                iter = Box::new(iter.filter(move |r| match r {
                    Ok(v) => &v.t == t,
                    Err(_) => true,
                }));
            }

            iter = Box::new(iter.take(q.limit as usize));
            QueryOutputValue::Vertices(iter.collect::<Result<Vec<Vertex>>>()?)
'''
PE = '''                    let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;

                    if let Some(ref t) = q.t {
                        iter = Box::new(iter.filter(move |r| match r {
                            Ok(v) => &v.t == t,
                            Err(_) => true,
                        }));
                    }

                    iter = Box::new(iter.take(q.limit as usize));
'''
PV_FILTER = '''                        if let Some(ref t) = q.t {
                            iter = Box::new(iter.filter(move |r| match r {
                                Ok(e) => &e.t == t,
                                Err(_) => true,
                            }));
                        }
'''
PV_TW = '''                        iter = Box::new(iter.take_while(move |r| match r {
                            Ok(e) => e.outbound_id == vertex.id,
                            Err(_) => true,
                        }));
'''
PV_TAKE = '''                        iter = Box::new(iter.take((q.limit as usize) - edges.len()));

                        for result in iter {
                            edges.push(result?);
                        }

                        if edges.len() >= (q.limit as usize) {
                            break;
                        }
'''
EXP = '''            if let Query::Include(_) = *q.inner {
                // keep the value exported
                output.push(piped_values);
            }
'''
DIRS = '''                        EdgeDirection::Outbound => Box::new(piped_edges.iter().map(|e| e.outbound_id)),
                        EdgeDirection::Inbound => Box::new(piped_edges.iter().map(|e| e.inbound_id)),
'''
LOW = '''                        let lower_bound = match &q.t {
                            Some(t) => Edge::new(vertex.id, *t, Uuid::default()),
                            None => Edge::new(vertex.id, Identifier::default(), Uuid::default()),
                        };
'''
RANGE = '''                        let mut iter = if q.direction == EdgeDirection::Outbound {
                            (*txn).range_edges(lower_bound)?
                        } else {
                            (*txn).range_reversed_edges(lower_bound)?
                        };
'''
REV = '''                        if q.direction == EdgeDirection::Inbound {
                            iter = Box::new(iter.map(move |r| Ok(r?.reversed())));
                        }
'''
EPF = '''                        let contains = edges_with_property.contains(e);
                        (q.exists && contains) || (!q.exists && !contains)
'''
HEAD = 'unsafe fn query<'
CASES = [
 # ---- bugs
 ('rv limit before type', 'bug', [(DBF, RV_FILTER, RV_FILTER.replace('            iter = Box::new(iter.take(q.limit as usize));\n', '').replace('            if let Some(ref t)', '            iter = Box::new(iter.take(q.limit as usize));\n            if let Some(ref t)', 1))], ['C12']),
 ('rv no limit', 'bug', [(DBF, RV_FILTER, RV_FILTER.replace('            iter = Box::new(iter.take(q.limit as usize));\n', ''))], ['C12']),
 ('rv start ignored under type', 'bug', [(DBF, 'if let Some(start_id) = q.start_id {', 'if let (Some(start_id), None) = (q.start_id, q.t) {')], ['C12']),
 ('pe limit before type', 'bug', [(DBF, PE, PE.replace('                    iter = Box::new(iter.take(q.limit as usize));\n', '').replace('                    if let Some(ref t)', '                    iter = Box::new(iter.take(q.limit as usize));\n                    if let Some(ref t)', 1))], ['C12']),
 ('pe limit on ids', 'bug', [(DBF, '(*txn).specific_vertices(iter.collect())?', '(*txn).specific_vertices(iter.take(q.limit as usize).collect())?')], ['C12']),
 ('pe direction swapped', 'bug', [(DBF, DIRS, DIRS.replace('e.outbound_id', 'X').replace('e.inbound_id', 'e.outbound_id').replace('X', 'e.inbound_id'))], ['C12']),
 ('pe type ignored', 'bug', [(DBF, PE, PE.replace('&v.t == t', '&v.t == t || q.limit == u32::MAX'))], ['C12']),
 ('pv no filter', 'bug', [(DBF, PV_FILTER, '')], ['C12']),
 ('pv filter after take', 'bug', [(DBF, PV_FILTER, ''), (DBF, '''                        for result in iter {
                            edges.push(result?);
                        }
''', PV_FILTER + '''                        for result in iter {
                            edges.push(result?);
                        }
''')], ['C12']),
 ('pv limit per vertex', 'bug', [(DBF, 'iter.take((q.limit as usize) - edges.len())', 'iter.take(q.limit as usize)')], ['C12']),
 ('pv limit on vertices', 'bug', [(DBF, 'for vertex in piped_vertices {\n                        let lower', 'for vertex in piped_vertices.iter().take(q.limit as usize) {\n                        let lower')], ['C12']),
 ('pv break too early', 'bug', [(DBF, 'if edges.len() >= (q.limit as usize) {', 'if edges.len() + 1 >= (q.limit as usize) {')], ['C12']),
 ('pv break on first', 'bug', [(DBF, 'if edges.len() >= (q.limit as usize) {', 'if edges.is_empty() {')], ['C12']),
 ('pv no take_while', 'bug', [(DBF, PV_TW, '')], ['C12']),
 ('pv take_while type', 'bug', [(DBF, PV_TW, PV_TW.replace('e.outbound_id == vertex.id', 'e.outbound_id == vertex.id && q.t.map_or(true, |t| e.t == t)')), (DBF, LOW, LOW.replace('Some(t) => Edge::new(vertex.id, *t,', 'Some(_) => Edge::new(vertex.id, Identifier::default(),'))], ['C12']),
 ('pv not reversed', 'bug', [(DBF, REV, '')], ['C12']),
 ('pv reversed under type only', 'bug', [(DBF, REV, REV.replace('if q.direction == EdgeDirection::Inbound {', 'if q.direction == EdgeDirection::Inbound && q.t.is_none() {'))], ['C12']),
 ('pv tables swapped', 'bug', [(DBF, 'q.direction == EdgeDirection::Outbound {', 'q.direction != EdgeDirection::Outbound {')], ['C12']),
 ('pv lower bound nonzero', 'bug', [(DBF, 'Some(t) => Edge::new(vertex.id, *t, Uuid::default())', 'Some(t) => Edge::new(vertex.id, *t, vertex.id)')], ['C12']),
 ('pipe of count empty', 'bug', [(DBF, '''                    QueryOutputValue::Edges(edges)
                }
                _ => {
                    return Err(Error::OperationOnQuery);''', '''                    QueryOutputValue::Edges(edges)
                }
                QueryOutputValue::Count(_) => QueryOutputValue::Count(0),
                _ => {
                    return Err(Error::OperationOnQuery);''')], ['C12']),
 ('export missing in pipe', 'bug', [(DBF, EXP, '')], ['C12']),
 ('export after', 'bug', [(DBF, EXP, EXP.replace('output.push(piped_values);', 'output.push(values);\n                output.push(piped_values);\n                return Ok(());'))], ['C12']),
 ('specific dedup', 'bug', [(DBF, '(*txn).specific_vertices(q.ids.clone())?', '(*txn).specific_vertices(q.ids.iter().skip(1).cloned().collect())?')], ['C12']),
 ('props default name', 'bug', [(DBF, '''                        if let Some(name) = &q.name {
                            if let Some(value) = (*txn).edge_property(edge, *name)? {''', '''                        if let Some(name) = &q.name {
                            if let Some(value) = (*txn).edge_property(&edge.clone().reversed(), *name)? {''')], ['C31']),
 ('props empty kept', 'bug', [(DBF, '''                        if !props.is_empty() {
                            edge_properties.push''', '''                        if !props.is_empty() || q.name.is_none() {
                            edge_properties.push''')], ['C31']),
 ('props only one', 'bug', [(DBF, '''                                props.push(NamedProperty::new(name, value.clone()));
                            }
                        }
                        if !props.is_empty() {
                            vertex''', '''                                props.push(NamedProperty::new(name, value.clone()));
                                if props.len() > 7 { break; }
                            }
                        }
                        if !props.is_empty() {
                            vertex''')], ['C31']),
 ('props owner reversed', 'bug', [(DBF, 'EdgeProperties::new(edge.clone(), props)', 'EdgeProperties::new(edge.clone().reversed(), props)')], ['C31']),
 ('props null dropped', 'bug', [(DBF, '''                            if let Some(value) = (*txn).vertex_property(vertex, *name)? {
                                props.push''', '''                            if let Some(value) = (*txn).vertex_property(vertex, *name)?.filter(|v| !v.is_null()) {
                                props.push''')], ['C31']),
 ('exists ignored edges', 'bug', [(DBF, EPF, EPF.replace('(q.exists && contains) || (!q.exists && !contains)', 'contains'))], ['C28']),
 ('unindexed empty', 'bug', [(DBF, '''                    let edges_with_property = match (*txn).edges_with_property(q.name)? {
                        Some(iter) => iter.collect::<Result<HashSet<Edge>>>()?,
                        None => return Err(Error::NotIndexed),
                    };''', '''                    let edges_with_property = match (*txn).edges_with_property(q.name)? {
                        Some(iter) => iter.collect::<Result<HashSet<Edge>>>()?,
                        None if !q.exists => HashSet::new(),
                        None => return Err(Error::NotIndexed),
                    };''')], ['C28']),
 ('unindexed when nothing piped', 'bug', [(DBF, 'let edges = match (*txn).edges_with_property_value(q.name, &q.value)? {\n                        Some(iter) => iter.collect::<Result<HashSet<Edge>>>()?,', 'let edges = match (*txn).edges_with_property_value(q.name, &q.value)? {\n                        None if piped_edges.is_empty() => HashSet::new(),\n                        Some(iter) => iter.collect::<Result<HashSet<Edge>>>()?,')], ['C28']),
 ('value by presence', 'bug', [(DBF, 'let vertex_ids = match (*txn).vertex_ids_with_property_value(q.name, &q.value)? {', 'let vertex_ids = match (*txn).vertex_ids_with_property(q.name)? {')], ['C28']),
 ('index not resolved', 'bug', [(DBF, '''                let iter = (*txn).specific_edges(iter.collect::<Result<Vec<Edge>>>()?)?;
                QueryOutputValue::Edges(iter.collect::<Result<Vec<Edge>>>()?)
            } else {
                return Err(Error::NotIndexed);
            }
        }
        Query::EdgeWithPropertyValue''', '''                QueryOutputValue::Edges(iter.collect::<Result<Vec<Edge>>>()?)
            } else {
                return Err(Error::NotIndexed);
            }
        }
        Query::EdgeWithPropertyValue''')], ['C28']),
 ('presence distinct', 'bug', [(DBF, 'QueryOutputValue::Edges(iter.cloned().collect())', 'QueryOutputValue::Edges(iter.take(1 << 20).cloned().collect())')], ['C28']),
 # ---- same behaviour
 ('rv match', 'same', [(DBF, '''            let mut iter: DynIter<Vertex> = if let Some(start_id) = q.start_id {
                (*txn).range_vertices(start_id)?
            } else {
                (*txn).all_vertices()?
            };
''', '''            let mut iter: DynIter<Vertex> = match q.start_id {
                None => (*txn).all_vertices()?,
                Some(start_id) => (*txn).range_vertices(start_id)?,
            };
''')], P),
 ('rv unwrap_or_default', 'same', [(DBF, '''            let mut iter: DynIter<Vertex> = if let Some(start_id) = q.start_id {
                (*txn).range_vertices(start_id)?
            } else {
                (*txn).all_vertices()?
            };
''', '''            let mut iter: DynIter<Vertex> = (*txn).range_vertices(q.start_id.unwrap_or_default())?;
''')], P),
 ('rv loop', 'same', [(DBF, RV_FILTER, '''            let mut vertices = Vec::new();
            while vertices.len() < q.limit as usize {
                let v = match iter.next() {
                    Some(r) => r?,
                    None => break,
                };
                if q.t.is_some() && q.t != Some(v.t) {
                    continue;
                }
                vertices.push(v);
            }
            QueryOutputValue::Vertices(vertices)
''')], P),
 ('rv for loop', 'same', [(DBF, RV_FILTER, '''            let limit = q.limit as usize;
            let mut vertices = Vec::new();
            for r in &mut iter {
                if vertices.len() >= limit {
                    break;
                }
                let v = r?;
                if let Some(t) = q.t {
                    if v.t != t {
                        continue;
                    }
                }
                vertices.push(v);
            }
            QueryOutputValue::Vertices(vertices)
''')], P),
 ('rv one filter', 'same', [(DBF, RV_FILTER, '''            let t = q.t;
            let vertices = iter
                .filter(move |r| match (r, t) {
                    (Ok(v), Some(t)) => v.t == t,
                    _ => true,
                })
                .take(q.limit as usize)
                .collect::<Result<Vec<Vertex>>>()?;
            iter = Box::new(std::iter::empty());
            drop(iter);
            QueryOutputValue::Vertices(vertices)
''')], P),
 ('rv map_or filter', 'same', [(DBF, '''                iter = Box::new(iter.filter(move |r| match r {
                    Ok(v) => &v.t == t,
                    Err(_) => true,
                }));
            }

            iter = Box::new(iter.take(q.limit as usize));
            QueryOutputValue::Vertices(iter.collect''', '''                iter = Box::new(iter.filter(move |r| r.as_ref().map_or(true, |v| v.t == *t)));
            }

            iter = Box::new(iter.take(q.limit as usize));
            QueryOutputValue::Vertices(iter.collect''')], P),
 ('rv matches', 'same', [(DBF, '''                iter = Box::new(iter.filter(move |r| match r {
                    Ok(v) => &v.t == t,
                    Err(_) => true,
                }));
            }

            iter = Box::new(iter.take(q.limit as usize));
            QueryOutputValue::Vertices(iter.collect''', '''                iter = Box::new(iter.filter(move |r| !matches!(r, Ok(v) if v.t != *t)));
            }

            iter = Box::new(iter.take(q.limit as usize));
            QueryOutputValue::Vertices(iter.collect''')], P),
 ('helper filter by type', 'same', [(DBF, RV_FILTER, '''            if let Some(t) = q.t {
                iter = of_type(iter, t);
            }

            iter = Box::new(iter.take(q.limit as usize));
            QueryOutputValue::Vertices(iter.collect::<Result<Vec<Vertex>>>()?)
'''), (DBF, PE, PE.replace('''                        iter = Box::new(iter.filter(move |r| match r {
                            Ok(v) => &v.t == t,
                            Err(_) => true,
                        }));
''', '''                        iter = of_type(iter, *t);
''')), (DBF, HEAD, '''fn of_type<'a>(iter: DynIter<'a, Vertex>, t: Identifier) -> DynIter<'a, Vertex> {
    Box::new(iter.filter(move |r| match r {
        Ok(v) => v.t == t,
        Err(_) => true,
    }))
}

''' + HEAD)], P),
 ('helper vertices', 'same', [(DBF, RV_FILTER, '''            QueryOutputValue::Vertices(limited(iter, q.t, q.limit)?)
'''), (DBF, PE + '''
                    QueryOutputValue::Vertices(iter.collect::<Result<Vec<Vertex>>>()?)
''', '''                    let iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;
                    QueryOutputValue::Vertices(limited(iter, q.t, q.limit)?)
'''), (DBF, 'let mut iter: DynIter<Vertex> = if let Some(start_id)', 'let iter: DynIter<Vertex> = if let Some(start_id)'), (DBF, HEAD, '''fn limited(iter: DynIter<Vertex>, t: Option<Identifier>, limit: u32) -> Result<Vec<Vertex>> {
    let mut found = Vec::new();
    for r in iter {
        if found.len() == limit as usize {
            break;
        }
        let v = r?;
        if t.is_none() || t == Some(v.t) {
            found.push(v);
        }
    }
    Ok(found)
}

''' + HEAD)], P),
 ('pe ids helper', 'same', [(DBF, '''                    let iter: Box<dyn Iterator<Item = Uuid>> = match q.direction {
''' + DIRS + '''                    };

                    let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;
''', '''                    let ids: Vec<Uuid> = piped_edges
                        .iter()
                        .map(|e| {
                            if q.direction == EdgeDirection::Outbound {
                                e.outbound_id
                            } else {
                                e.inbound_id
                            }
                        })
                        .collect();

                    let mut iter: DynIter<Vertex> = (*txn).specific_vertices(ids)?;
''')], P),
 ('pv t unwrap_or', 'same', [(DBF, LOW, '''                        let lower_bound = Edge::new(vertex.id, q.t.unwrap_or_default(), Uuid::nil());
''')], P),
 ('pv match direction', 'same', [(DBF, RANGE, '''                        let mut iter = match q.direction {
                            EdgeDirection::Inbound => (*txn).range_reversed_edges(lower_bound)?,
                            EdgeDirection::Outbound => (*txn).range_edges(lower_bound)?,
                        };
'''), (DBF, REV, '''                        if let EdgeDirection::Inbound = q.direction {
                            iter = Box::new(iter.map(|r| r.map(|e| e.reversed())));
                        }
''')], P),
 ('pv take_while typed', 'same', [(DBF, PV_TW + '\n' + PV_FILTER, '''                        iter = match q.t {
                            Some(t) => Box::new(iter.take_while(move |r| match r {
                                Ok(e) => e.outbound_id == vertex.id && e.t == t,
                                Err(_) => true,
                            })),
                            None => Box::new(iter.take_while(move |r| match r {
                                Ok(e) => e.outbound_id == vertex.id,
                                Err(_) => true,
                            })),
                        };
''')], P),
 ('pv loop', 'same', [(DBF, PV_TW + '\n' + PV_FILTER + '\n' + REV + '\n' + PV_TAKE, '''                        for result in &mut iter {
                            if edges.len() >= q.limit as usize {
                                break;
                            }
                            let edge = result?;
                            if edge.outbound_id != vertex.id {
                                break;
                            }
                            if let Some(t) = q.t {
                                if edge.t != t {
                                    continue;
                                }
                            }
                            edges.push(if q.direction == EdgeDirection::Inbound { edge.reversed() } else { edge });
                        }
''')], P),
 ('pv helper edges_of', 'same', [(DBF, RANGE, '''                        let mut iter = edges_of(txn, q.direction, lower_bound)?;
'''), (DBF, HEAD, '''unsafe fn edges_of<'a, T: Transaction<'a> + 'a>(txn: *const T, direction: EdgeDirection, from: Edge) -> Result<DynIter<'a, Edge>> {
    match direction {
        EdgeDirection::Outbound => (*txn).range_edges(from),
        EdgeDirection::Inbound => (*txn).range_reversed_edges(from),
    }
}

''' + HEAD), (DBF, 'q.direction == EdgeDirection::Inbound {', 'q.direction == EdgeDirection::Inbound {')], P),
 ('pv break first', 'same', [(DBF, PV_TAKE, '''                        let remaining = (q.limit as usize) - edges.len();
                        for result in iter.take(remaining) {
                            let edge = result?;
                            edges.push(edge);
                        }
                        if edges.len() == q.limit as usize {
                            break;
                        }
''')], P),
 ('pv no break', 'same', [(DBF, '''
                        if edges.len() >= (q.limit as usize) {
                            break;
                        }
''', '')], P),
 ('pv reverse at push', 'same', [(DBF, REV + '\n', ''), (DBF, '                            edges.push(result?);', '''                            let e = result?;
                            edges.push(match q.direction { EdgeDirection::Inbound => e.reversed(), EdgeDirection::Outbound => e });''')], P),
 ('pv collect extend', 'same', [(DBF, '''                        for result in iter {
                            edges.push(result?);
                        }
''', '''                        edges.extend(iter.collect::<Result<Vec<Edge>>>()?);
''')], P),
 ('export let else', 'same', [(DBF, EXP, '''            if matches!(*q.inner, Query::Include(_)) {
                output.push(piped_values);
            }
''')], P),
 ('export helper', 'same', [(DBF, EXP, '''            export(&q.inner, piped_values, output);
'''), (DBF, EXP, '''            export(&q.inner, piped_values, output);
'''), (DBF, EXP, '''            export(&q.inner, piped_values, output);
'''), (DBF, EXP, '''            export(&q.inner, piped_values, output);
'''), (DBF, HEAD, '''/// Keeps an included value exported.
fn export(inner: &Query, value: QueryOutputValue, output: &mut Vec<QueryOutputValue>) {
    if let Query::Include(_) = inner {
        output.push(value);
    }
}

''' + HEAD)], P),
 ('inner helper', 'same', [(DBF, '''            query(txn, &q.inner, output)?;
            let piped_values = output.pop().unwrap();
''', '''            let piped_values = inner_value(txn, &q.inner, output)?;
'''), (DBF, '''            query(txn, &q.inner, output)?;
            let piped_values = output.pop().unwrap();
''', '''            let piped_values = inner_value(txn, &q.inner, output)?;
'''), (DBF, HEAD, '''unsafe fn inner_value<'a, T: Transaction<'a> + 'a>(txn: *const T, inner: &Query, output: &mut Vec<QueryOutputValue>) -> Result<QueryOutputValue> {
    query(txn, inner, output)?;
    Ok(output.pop().unwrap())
}

''' + HEAD)], P),
 ('prop flags eq', 'same', [(DBF, EPF, '''                        edges_with_property.contains(e) == q.exists
''')], P),
 ('prop flags xor', 'same', [(DBF, EPF, '''                        let contains = edges_with_property.contains(e);
                        !(contains ^ q.exists)
''')], P),
 ('prop flags if', 'same', [(DBF, EPF, '''                        if q.exists {
                            edges_with_property.contains(e)
                        } else {
                            !edges_with_property.contains(e)
                        }
''')], P),
 ('prop loop', 'same', [(DBF, '''                    let iter = piped_edges.iter().filter(move |e| {
''' + EPF + '''                    });
                    QueryOutputValue::Edges(iter.cloned().collect())
''', '''                    let mut kept = Vec::new();
                    for e in piped_edges {
                        if edges_with_property.contains(e) == q.exists {
                            kept.push(e.clone());
                        }
                    }
                    QueryOutputValue::Edges(kept)
''')], P),
 ('unindexed ok_or', 'same', [(DBF, '''                    let edges_with_property = match (*txn).edges_with_property(q.name)? {
                        Some(iter) => iter.collect::<Result<HashSet<Edge>>>()?,
                        None => return Err(Error::NotIndexed),
                    };''', '''                    let edges_with_property = (*txn)
                        .edges_with_property(q.name)?
                        .ok_or(Error::NotIndexed)?
                        .collect::<Result<HashSet<Edge>>>()?;''')], P),
 ('unindexed let else', 'same', [(DBF, '''            if let Some(iter) = (*txn).vertex_ids_with_property(q.name)? {
                let iter = (*txn).specific_vertices(iter.collect::<Result<Vec<Uuid>>>()?)?;
                QueryOutputValue::Vertices(iter.collect::<Result<Vec<Vertex>>>()?)
            } else {
                return Err(Error::NotIndexed);
            }
''', '''            let Some(ids) = (*txn).vertex_ids_with_property(q.name)? else {
                return Err(Error::NotIndexed);
            };
            let ids: Vec<Uuid> = ids.collect::<Result<_>>()?;
            let vertices: Result<Vec<Vertex>> = (*txn).specific_vertices(ids)?.collect();
            QueryOutputValue::Vertices(vertices?)
''')], P),
 ('by value helper', 'same', [(DBF, '''            if let Some(iter) = (*txn).edges_with_property_value(q.name, &q.value)? {
                let iter = (*txn).specific_edges(iter.collect::<Result<Vec<Edge>>>()?)?;
                QueryOutputValue::Edges(iter.collect::<Result<Vec<Edge>>>()?)
            } else {
                return Err(Error::NotIndexed);
            }
''', '''            existing_edges(txn, (*txn).edges_with_property_value(q.name, &q.value)?)?
'''), (DBF, '''            if let Some(iter) = (*txn).edges_with_property(q.name)? {
                let iter = (*txn).specific_edges(iter.collect::<Result<Vec<Edge>>>()?)?;
                QueryOutputValue::Edges(iter.collect::<Result<Vec<Edge>>>()?)
            } else {
                return Err(Error::NotIndexed);
            }
''', '''            existing_edges(txn, (*txn).edges_with_property(q.name)?)?
'''), (DBF, HEAD, '''unsafe fn existing_edges<'a, T: Transaction<'a> + 'a>(txn: *const T, found: Option<DynIter<'a, Edge>>) -> Result<QueryOutputValue> {
    match found {
        Some(iter) => {
            let edges = iter.collect::<Result<Vec<Edge>>>()?;
            let edges = (*txn).specific_edges(edges)?.collect::<Result<Vec<Edge>>>()?;
            Ok(QueryOutputValue::Edges(edges))
        }
        None => Err(Error::NotIndexed),
    }
}

''' + HEAD)], P),
 ('props collect', 'same', [(DBF, '''                        let mut props = Vec::new();
                        if let Some(name) = &q.name {
                            if let Some(value) = (*txn).edge_property(edge, *name)? {
                                props.push(NamedProperty::new(*name, value.clone()));
                            }
                        } else {
                            for result in (*txn).all_edge_properties_for_edge(edge)? {
                                let (name, value) = result?;
                                props.push(NamedProperty::new(name, value.clone()));
                            }
                        }
                        if !props.is_empty() {
                            edge_properties.push(EdgeProperties::new(edge.clone(), props));
                        }
''', '''                        let props = match q.name {
                            Some(name) => match (*txn).edge_property(edge, name)? {
                                Some(value) => vec![NamedProperty::new(name, value)],
                                None => continue,
                            },
                            None => (*txn)
                                .all_edge_properties_for_edge(edge)?
                                .map(|r| r.map(|(name, value)| NamedProperty::new(name, value)))
                                .collect::<Result<Vec<NamedProperty>>>()?,
                        };
                        if props.is_empty() {
                            continue;
                        }
                        edge_properties.push(EdgeProperties { edge: edge.clone(), props });
''')], P),
 ('props helper', 'same', [(DBF, '''                        let mut props = Vec::new();
                        if let Some(name) = &q.name {
                            if let Some(value) = (*txn).vertex_property(vertex, *name)? {
                                props.push(NamedProperty::new(*name, value.clone()));
                            }
                        } else {
                            for result in (*txn).all_vertex_properties_for_vertex(vertex)? {
                                let (name, value) = result?;
                                props.push(NamedProperty::new(name, value.clone()));
                            }
                        }
''', '''                        let props = vertex_props(txn, vertex, q.name)?;
'''), (DBF, HEAD, '''unsafe fn vertex_props<'a, T: Transaction<'a> + 'a>(txn: *const T, vertex: &Vertex, name: Option<Identifier>) -> Result<Vec<NamedProperty>> {
    let mut props = Vec::new();
    match name {
        Some(name) => {
            if let Some(value) = (*txn).vertex_property(vertex, name)? {
                props.push(NamedProperty::new(name, value));
            }
        }
        None => {
            for result in (*txn).all_vertex_properties_for_vertex(vertex)? {
                let (name, value) = result?;
                props.push(NamedProperty::new(name, value));
            }
        }
    }
    Ok(props)
}

''' + HEAD)], P),
 ('props filter_map', 'same', [(DBF, 'let mut vertex_properties = Vec::with_capacity(piped_vertices.len());', 'let mut vertex_properties: Vec<VertexProperties> = vec![];')], P),
]
