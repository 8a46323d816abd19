DBF, Q = 'lib/src/database.rs', 'lib/src/models/queries.rs'
P = ['C11', 'C13', 'C33', 'C06']
RUN = '''        let mut txn = self.datastore.transaction();
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(&txn as *const D::Transaction<'_>, &q, &mut output)?;
        }
'''
DVP = '''                txn.delete_vertex_properties(
                    vertex_properties
                        .into_iter()
                        .flat_map(|vps| {
                            let iter = vps.props.iter().map(move |vp| (vps.vertex.id, vp.name));
                            iter.collect::<Vec<(Uuid, Identifier)>>()
                        })
                        .collect(),
                )?;
'''
DEP = '''                            let iter = eps.props.iter().map(move |ep| (eps.edge.clone(), ep.name));
'''
CFT = '''        let v = Vertex::new(t);

        if !self.create_vertex(&v)? {
            Err(Error::UuidTaken)
        } else {
            Ok(v.id)
        }
'''
CE = '''        let mut txn = self.datastore.transaction();
        txn.create_edge(edge)
'''
SETV = 'txn.set_vertex_properties(vertices.into_iter().map(|v| v.id).collect(), name, value)?;'
CASES = [
 ('delete two txns', 'bug', [(DBF, '''        match output.pop().unwrap() {
            QueryOutputValue::Vertices(vertices) => {
                txn.delete_vertices''', '''        drop(txn);
        let mut txn = self.datastore.transaction();
        match output.pop().unwrap() {
            QueryOutputValue::Vertices(vertices) => {
                txn.delete_vertices''')], ['C11', 'C13']),
 ('delete none when many', 'bug', [(DBF, 'txn.delete_edges(edges)?;', 'if edges.len() < 1 << 16 { txn.delete_edges(edges)?; }')], ['C13']),
 ('delete edges truncated', 'bug', [(DBF, 'txn.delete_edges(edges)?;', 'let mut edges = edges; edges.truncate(u16::MAX as usize); txn.delete_edges(edges)?;')], ['C13']),
 ('delete first prop only', 'bug', [(DBF, DVP, DVP.replace('vps.props.iter().map', 'vps.props.iter().take(1).map'))], ['C13']),
 ('delete reversed edge prop', 'bug', [(DBF, DEP, DEP.replace('eps.edge.clone()', 'eps.edge.reversed()'))], ['C13']),
 ('delete count ok', 'bug', [(DBF, 'QueryOutputValue::Count(_) => return Err(Error::OperationOnQuery),', 'QueryOutputValue::Count(0) => {}\n            QueryOutputValue::Count(_) => return Err(Error::OperationOnQuery),')], ['C13']),
 ('set on props', 'bug', [(DBF, '''                txn.set_edge_properties(edges, name, value)?;
            }
            _ =>''', '''                txn.set_edge_properties(edges, name, value)?;
            }
            QueryOutputValue::EdgeProperties(eps) => {
                txn.set_edge_properties(eps.into_iter().map(|e| e.edge).collect(), name, value)?;
            }
            _ =>''')], ['C13']),
 ('set filter', 'bug', [(DBF, SETV, SETV.replace('.into_iter().map', '.into_iter().filter(|v| v.t != name).map'))], ['C13']),
 ('first output', 'bug', [(DBF, '        match output.pop().unwrap() {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.set', '        match output.swap_remove(0) {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.set')], ['C13']),
 ('get dedup', 'bug', [(DBF, '        Ok(output)\n', '        output.truncate(8);\n        Ok(output)\n')], ['C11']),
 ('get retry', 'bug', [(DBF, CE, '''        let mut txn = self.datastore.transaction();
        let ok = txn.create_edge(edge)?;
        Ok(ok || txn.create_edge(edge)?)
''')], ['C11']),
 ('create edge reversed', 'bug', [(DBF, CE, CE.replace('(edge)', '(&edge.reversed())'))], ['C11']),
 ('self loop skipped', 'bug', [(DBF, CE, '''        if edge.outbound_id == edge.inbound_id {
            return Ok(false);
        }
''' + CE)], ['C11']),
 ('outcome ignored', 'bug', [(DBF, CE, CE.replace('txn.create_edge(edge)', 'txn.create_edge(edge)?;\n        Ok(true)'))], ['C11']),
 ('sync ignored', 'bug', [(DBF, '        txn.sync()\n', '        match txn.sync() {\n            Err(Error::Unsupported) => Ok(()),\n            r => r,\n        }\n')], ['C11']),
 ('uuid other', 'bug', [(DBF, '            Ok(v.id)', '            Ok(crate::util::generate_uuid_v1())')], ['C11']),
 ('uuid taken ok', 'bug', [(DBF, CFT, '        let v = Vertex::new(t);\n        self.create_vertex(&v)?;\n        Ok(v.id)\n')], ['C11']),
 ('default bulk order', 'bug', [(DBF, 'self.set_edge_properties(vec![edge], name, &value)?;', 'self.set_edge_properties(vec![edge.reversed()], name, &value)?;')], ['C11']),
 ('default bulk skip', 'bug', [(DBF, '                BulkInsertItem::Edge(edge) => {\n', '                BulkInsertItem::Edge(edge) if edge.outbound_id == edge.inbound_id => {}\n                BulkInsertItem::Edge(edge) => {\n')], ['C11']),
 ('builder inbound', 'bug', [(Q, '''    fn inbound(self) -> errors::ValidationResult<PipeQuery> {
        PipeQuery::new(Box::new(self.into()), EdgeDirection::Inbound)''', '''    fn inbound(self) -> errors::ValidationResult<PipeQuery> {
        PipeQuery::new(Box::new(self.into()), EdgeDirection::Outbound)''')], ['C33']),
 ('builder limit drops t', 'bug', [(Q, '''            direction: self.direction,
            limit,
            t: self.t,''', '''            direction: self.direction,
            limit,
            t: None,''')], ['C33']),
 ('builder t drops limit', 'bug', [(Q, '''            limit: self.limit,
            t: Some(t),
            start_id: self.start_id,''', '''            limit: u32::MAX,
            t: Some(t),
            start_id: self.start_id,''')], ['C33']),
 ('builder limit default', 'bug', [(Q, '''            direction,
            limit: u32::MAX,''', '''            direction,
            limit: u16::MAX as u32,''')], ['C33']),
 ('builder not validated', 'bug', [(Q, '''        match inner.output_type()? {
            QueryOutputValue::Vertices(_) | QueryOutputValue::Edges(_) => {}
            _ => return Err(errors::ValidationError::InnerQuery),
        }
        Ok(Self { inner, name: None })''', '''        match inner.output_type()? {
            QueryOutputValue::Count(_) => return Err(errors::ValidationError::InnerQuery),
            _ => {}
        }
        Ok(Self { inner, name: None })''')], ['C33']),
 ('output type include', 'bug', [(Q, '            Query::Include(q) => q.inner.output_type(),', '            Query::Include(_) => Ok(QueryOutputValue::Vertices(Vec::default())),')], ['C33']),
 # same
 ('run helper', 'same', [(DBF, '''        let q = q.into();
''' + RUN + '''        match output.pop().unwrap() {
            QueryOutputValue::Vertices(vertices) => {
                txn.delete''', '''        let mut txn = self.datastore.transaction();
        match self.run(&txn, q.into())?.pop().unwrap() {
            QueryOutputValue::Vertices(vertices) => {
                txn.delete'''), (DBF, '''        let q = q.into();
''' + RUN + '''
        match output.pop().unwrap() {''', '''        let mut txn = self.datastore.transaction();
        match self.run(&txn, q.into())?.pop().unwrap() {'''), (DBF, '''        let q = q.into();
        let txn = self.datastore.transaction();
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(&txn as *const D::Transaction<'_>, &q, &mut output)?;
        }
        Ok(output)
    }
''', '''        let txn = self.datastore.transaction();
        self.run(&txn, q.into())
    }

    fn run(&self, txn: &D::Transaction<'_>, q: Query) -> Result<Vec<QueryOutputValue>> {
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(txn as *const D::Transaction<'_>, &q, &mut output)?;
        }
        Ok(output)
    }
''')], P),
 ('last helper', 'same', [(DBF, '        match output.pop().unwrap() {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.set', '        let last = match output.pop() {\n            Some(value) => value,\n            None => unreachable!("queries always have an output"),\n        };\n        match last {\n            QueryOutputValue::Vertices(vertices) => {\n                txn.set')], P),
 ('delete props loop', 'same', [(DBF, DVP, '''                let mut props = Vec::new();
                for vps in vertex_properties {
                    for vp in &vps.props {
                        props.push((vps.vertex.id, vp.name));
                    }
                }
                txn.delete_vertex_properties(props)?;
''')], P),
 ('delete props into_iter', 'same', [(DBF, DEP, DEP.replace('eps.props.iter().map(move |ep| (eps.edge.clone(), ep.name))', 'eps.props.into_iter().map(move |NamedProperty { name, .. }| (eps.edge.clone(), name))'))], P),
 ('delete return', 'same', [(DBF, 'txn.delete_edges(edges)?;', 'return txn.delete_edges(edges);')], P),
 ('set ids loop', 'same', [(DBF, SETV, '''let mut ids = Vec::with_capacity(vertices.len());
                for vertex in &vertices {
                    ids.push(vertex.id);
                }
                txn.set_vertex_properties(ids, name, value)?;''')], P),
 ('set guard first', 'same', [(DBF, '            _ => return Err(Error::OperationOnQuery),\n        }\n        Ok(())', '            QueryOutputValue::Count(_) | QueryOutputValue::VertexProperties(_) | QueryOutputValue::EdgeProperties(_) => {\n                return Err(Error::OperationOnQuery)\n            }\n        }\n        Ok(())')], P),
 ('cft if', 'same', [(DBF, CFT, '''        let vertex = Vertex::new(t);
        let created = self.create_vertex(&vertex)?;
        if created {
            return Ok(vertex.id);
        }
        Err(Error::UuidTaken)
''')], P),
 ('cft match', 'same', [(DBF, CFT, '''        let v = Vertex::with_id(crate::util::generate_uuid_v1(), t);
        match self.datastore.transaction().create_vertex(&v)? {
            true => Ok(v.id),
            false => Err(Error::UuidTaken),
        }
''')], P),
 ('cft then_some', 'same', [(DBF, CFT, '''        let v = Vertex::new(t);
        self.create_vertex(&v)?.then_some(v.id).ok_or(Error::UuidTaken)
''')], P),
 ('ce chained', 'same', [(DBF, CE, '        self.datastore.transaction().create_edge(edge)\n')], P),
 ('ce bound', 'same', [(DBF, CE, '        let mut txn = self.datastore.transaction();\n        let created = txn.create_edge(edge)?;\n        Ok(created)\n')], P),
 ('builder update syntax', 'same', [(Q, '''        Self {
            inner: self.inner,
            direction: self.direction,
            limit,
            t: self.t,
        }''', '''        Self { limit, ..self }''')], P),
 ('builder mutate', 'same', [(Q, '''        Self {
            limit: self.limit,
            t: Some(t),
            start_id: self.start_id,
        }''', '''        let mut q = self;
        q.t = Some(t);
        q''')], P),
 ('builder validate helper', 'same', [(Q, '''        match inner.output_type()? {
            QueryOutputValue::Vertices(_) | QueryOutputValue::Edges(_) => {}
            _ => return Err(errors::ValidationError::InnerQuery),
        }
        Ok(Self { inner, name: None })''', '''        check_inner(&inner)?;
        Ok(Self { inner, name: None })'''), (Q, '''/// Gets all vertices.
#[derive(Eq, PartialEq, Clone, Debug)]
pub struct AllVertexQuery;''', '''fn check_inner(q: &Query) -> errors::ValidationResult<()> {
    if matches!(q.output_type()?, QueryOutputValue::Vertices(_) | QueryOutputValue::Edges(_)) {
        Ok(())
    } else {
        Err(errors::ValidationError::InnerQuery)
    }
}

/// Gets all vertices.
#[derive(Eq, PartialEq, Clone, Debug)]
pub struct AllVertexQuery;''')], P),
 ('output type true', 'same', [(Q, '            Query::Pipe(q) => q.inner.output_type(),', '''            Query::Pipe(q) => match q.inner.output_type()? {
                QueryOutputValue::Vertices(_) => Ok(QueryOutputValue::Edges(Vec::default())),
                QueryOutputValue::Edges(_) => Ok(QueryOutputValue::Vertices(Vec::default())),
                _ => Err(errors::ValidationError::InnerQuery),
            },''')], P),
]
