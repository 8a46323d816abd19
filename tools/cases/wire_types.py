C = 'proto/src/converters.rs'
P = ['C14']
EDGE_DEC = '''        Ok(indradb::Edge::new(
            required_field("outbound_id", self.outbound_id)?.try_into()?,
            required_field("t", self.t)?.try_into()?,
            required_field("inbound_id", self.inbound_id)?.try_into()?,
        ))
'''
PIPE_DEC = '''                let direction = q.direction().into();
                let limit = q.limit;
                let t = q.t.map(|t| t.try_into()).transpose()?;
                let inner = required_field("inner", q.inner)?;
'''
SV_DEC = '''                let ids: Result<Vec<Uuid>, ConversionError> = q.ids.into_iter().map(|id| id.try_into()).collect();
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids: ids? })
'''
CASES = [
 ('edge enc swapped', 'bug', [(C, 'outbound_id: Some(edge.outbound_id.into()),', 'outbound_id: Some(edge.inbound_id.into()),')], P),
 ('edge dec swapped', 'bug', [(C, 'required_field("outbound_id", self.outbound_id)?.try_into()?', 'required_field("outbound_id", self.inbound_id.clone())?.try_into()?')], P),
 ('uuid nil on empty', 'bug', [(C, 'Ok(Uuid::from_slice(&self.value)?)', 'if self.value.is_empty() { return Ok(Uuid::nil()); }\n        Ok(Uuid::from_slice(&self.value)?)')], P),
 ('uuid le', 'bug', [(C, 'Ok(Uuid::from_slice(&self.value)?)', 'Ok(Uuid::from_slice_le(&self.value)?)')], P),
 ('uuid le both', 'same', [(C, 'Ok(Uuid::from_slice(&self.value)?)', 'Ok(Uuid::from_slice_le(&self.value)?)'), (C, 'uuid.as_bytes().to_vec()', 'uuid.to_bytes_le().to_vec()')], P),
 ('uuid into_bytes', 'same', [(C, 'uuid.as_bytes().to_vec()', 'uuid.into_bytes().to_vec()')], P),
 ('uuid truncated', 'bug', [(C, 'Ok(Uuid::from_slice(&self.value)?)', 'let mut v = self.value; v.truncate(16);\n        Ok(Uuid::from_slice(&v)?)')], P),
 ('uuid lenient', 'bug', [(C, 'Ok(Uuid::from_slice(&self.value)?)', 'Ok(Uuid::from_slice(&self.value).unwrap_or_default())')], P),
 ('identifier unchecked trim', 'bug', [(C, 'Ok(indradb::Identifier::new(self.value)?)', 'Ok(indradb::Identifier::new(self.value.trim())?)')], P),
 ('identifier lower', 'bug', [(C, 'Ok(indradb::Identifier::new(self.value)?)', 'Ok(indradb::Identifier::new(self.value.to_lowercase())?)')], P),
 ('identifier default', 'bug', [(C, 'Ok(indradb::Identifier::new(self.value)?)', 'Ok(indradb::Identifier::new(self.value).unwrap_or_default())')], P),
 ('identifier as_str', 'same', [(C, 'crate::Identifier { value: t.to_string() }', 'crate::Identifier { value: t.as_str().to_string() }')], P),
 ('identifier upper', 'bug', [(C, 'crate::Identifier { value: t.to_string() }', 'crate::Identifier { value: t.to_string().to_uppercase() }')], P),
 ('json null on empty', 'bug', [(C, 'Ok(serde_json::from_str(&self.value)?)', 'if self.value.is_empty() { return Ok(indradb::Json::new(serde_json::Value::Null)); }\n        Ok(serde_json::from_str(&self.value)?)')], P),
 ('json err as string', 'bug', [(C, 'Ok(serde_json::from_str(&self.value)?)', 'Ok(serde_json::from_str(&self.value).unwrap_or_else(|_| indradb::Json::new(serde_json::Value::String(self.value.clone()))))')], P),
 ('json value then new', 'same', [(C, 'Ok(serde_json::from_str(&self.value)?)', 'let v: serde_json::Value = serde_json::from_str(&self.value)?;\n        Ok(indradb::Json::new(v))')], P),
 ('json to_string', 'same', [(C, 'value: (*value).to_string(),', 'value: value.to_string(),')], P),
 ('query swap variants enc', 'bug', [(C, 'indradb::Query::AllEdge => crate::QueryVariant::AllEdge(()),', 'indradb::Query::AllEdge => crate::QueryVariant::AllVertex(()),')], P),
 ('query limit lost', 'bug', [(C, '                    limit: q.limit,\n                    t: q.t.map(|t| t.into()),\n                    start_id', '                    limit: q.limit.min(i32::MAX as u32),\n                    t: q.t.map(|t| t.into()),\n                    start_id')], P),
 ('query t lost dec', 'bug', [(C, 't: q.t.map(|t| t.try_into()).transpose()?,\n                start_id', 't: q.t.and_then(|t| t.try_into().ok()),\n                start_id')], P),
 ('query start_id lost enc', 'bug', [(C, 'start_id: q.start_id.map(|start_id| start_id.into()),', 'start_id: None,')], P),
 ('query start_id nil dropped', 'bug', [(C, 'start_id: q.start_id.map(|start_id| start_id.into()),', 'start_id: q.start_id.filter(|i| !i.is_nil()).map(|start_id| start_id.into()),')], P),
 ('direction swapped enc', 'bug', [(C, 'indradb::EdgeDirection::Outbound => crate::EdgeDirection::Outbound,', 'indradb::EdgeDirection::Outbound => crate::EdgeDirection::Inbound,')], P),
 ('direction both swapped', 'bug', [(C, '            indradb::EdgeDirection::Outbound => crate::EdgeDirection::Outbound,\n            indradb::EdgeDirection::Inbound => crate::EdgeDirection::Inbound,', '            indradb::EdgeDirection::Outbound => crate::EdgeDirection::Inbound,\n            indradb::EdgeDirection::Inbound => crate::EdgeDirection::Outbound,')], P),
 ('direction not set', 'bug', [(C, '                    proto_q.set_direction(q.direction.into());\n', '                    let _: crate::EdgeDirection = q.direction.into();\n'), (C, 'let mut proto_q = crate::PipeQuery {', 'let proto_q = crate::PipeQuery {')], P),
 ('direction field', 'same', [(C, '                    proto_q.set_direction(q.direction.into());\n', ''), (C, 'let mut proto_q = crate::PipeQuery {', 'let direction: crate::EdgeDirection = q.direction.into();\n                    let proto_q = crate::PipeQuery {'), (C, 'direction: 0,', 'direction: direction as i32,')], P),
 ('exists dropped', 'bug', [(C, 'name: name.try_into()?,\n                    exists: q.exists,', 'name: name.try_into()?,\n                    exists: true,')], P),
 ('equal negated both', 'bug', [(C, 'equal: q.equal,\n                    };', 'equal: !q.equal,\n                    };'), (C, 'equal: q.equal,\n                })', 'equal: !q.equal,\n                })')], P),
 ('presence/value swapped', 'bug', [(C, '''                    crate::QueryVariant::EdgeWithPropertyPresence(crate::EdgeWithPropertyPresenceQuery {
                        name: Some(q.name.into()),
                    })''', '''                    crate::QueryVariant::VertexWithPropertyPresence(crate::VertexWithPropertyPresenceQuery {
                        name: Some(q.name.into()),
                    })''')], P),
 ('count becomes inner', 'bug', [(C, '''                indradb::Query::Count(indradb::CountQuery {
                    inner: Box::new((*inner).try_into()?),
                })''', '''                indradb::Query::Include(indradb::IncludeQuery {
                    inner: Box::new((*inner).try_into()?),
                })''')], P),
 ('ids dedup', 'bug', [(C, SV_DEC, SV_DEC.replace('indradb::Query::Spec', 'let mut ids = ids?;\n                ids.dedup();\n                indradb::Query::Spec').replace('ids: ids? }', 'ids }'))], P),
 ('ids filter_map', 'bug', [(C, SV_DEC, '''                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids: q.ids.into_iter().filter_map(|id| id.try_into().ok()).collect() })
''')], P),
 ('ids flatten', 'bug', [(C, SV_DEC, '''                let ids: Vec<Result<Uuid, ConversionError>> = q.ids.into_iter().map(|id| id.try_into()).collect();
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids: ids.into_iter().flatten().collect() })
''')], P),
 ('ids rev', 'bug', [(C, 'ids: q.ids.into_iter().map(|id| id.into()).collect(),', 'ids: q.ids.into_iter().rev().map(|id| id.into()).collect(),')], P),
 ('ids loop', 'same', [(C, SV_DEC, '''                let mut ids = Vec::with_capacity(q.ids.len());
                for id in q.ids {
                    ids.push(id.try_into()?);
                }
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids })
''')], P),
 ('ids loop skip nil', 'bug', [(C, SV_DEC, '''                let mut ids: Vec<Uuid> = Vec::with_capacity(q.ids.len());
                for id in q.ids {
                    let id: Uuid = id.try_into()?;
                    if !id.is_nil() { ids.push(id); }
                }
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids })
''')], P),
 ('ids loop rev', 'bug', [(C, SV_DEC, '''                let mut ids = Vec::with_capacity(q.ids.len());
                for id in q.ids.into_iter().rev() {
                    ids.push(id.try_into()?);
                }
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids })
''')], P),
 ('ids loop break', 'bug', [(C, SV_DEC, '''                let mut ids = Vec::with_capacity(q.ids.len());
                for id in q.ids {
                    if let Ok(id) = id.try_into() { ids.push(id); } else { break; }
                }
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids })
''')], P),
 ('pipe helper', 'same', [(C, PIPE_DEC, '''                let direction = q.direction().into();
                let limit = q.limit;
                let t = match q.t { Some(t) => Some(t.try_into()?), None => None };
                let inner = match q.inner { Some(i) => i, None => return Err(ConversionError::NoneField { name: "inner".to_string() }) };
''')], P),
 ('list helper fn', 'same', [(C, SV_DEC, '                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids: decode_all(q.ids)? })\n'), (C, 'impl From<Uuid> for crate::Uuid {', '''fn decode_all<A, B>(l: Vec<A>) -> Result<Vec<B>, ConversionError>
where
    A: TryInto<B, Error = ConversionError>,
{
    l.into_iter().map(|x| x.try_into()).collect()
}

impl From<Uuid> for crate::Uuid {''')], P),
 ('required unwrap_or_default', 'bug', [(C, EDGE_DEC, EDGE_DEC.replace('required_field("t", self.t)?', 'self.t.unwrap_or_default()'))], P),
 ('edge dec struct', 'same', [(C, EDGE_DEC, '''        let t = required_field("t", self.t)?;
        let outbound_id = required_field("outbound_id", self.outbound_id)?;
        let inbound_id = required_field("inbound_id", self.inbound_id)?;
        Ok(indradb::Edge { outbound_id: outbound_id.try_into()?, t: t.try_into()?, inbound_id: inbound_id.try_into()? })
''')], P),
 ('inner missing -> all', 'bug', [(C, '''                let inner = required_field("inner", q.inner)?;
                indradb::Query::Count(indradb::CountQuery {
                    inner: Box::new((*inner).try_into()?),
                })''', '''                let inner = match q.inner {
                    Some(inner) => (*inner).try_into()?,
                    None => indradb::Query::AllVertex,
                };
                indradb::Query::Count(indradb::CountQuery {
                    inner: Box::new(inner),
                })''')], P),
 ('limit refused', 'bug', [(C, '                let limit = q.limit;\n', '                let limit = q.limit;\n                if limit > 1_000_000 { return Err(ConversionError::UnexpectedResponseType); }\n')], P),
 ('limit zero as max', 'bug', [(C, '                let limit = q.limit;\n', '                let limit = if q.limit == 0 { u32::MAX } else { q.limit };\n')], P),
 ('bulk vprop as eprop', 'bug', [(C, '''            crate::BulkInsertItemVariant::VertexProperty(item) => indradb::BulkInsertItem::VertexProperty(
                required_field("id", item.id)?.try_into()?,
                required_field("name", item.name)?.try_into()?,
                required_field("value", item.value)?.try_into()?,''', '''            crate::BulkInsertItemVariant::VertexProperty(item) => indradb::BulkInsertItem::VertexProperty(
                required_field("id", item.id)?.try_into()?,
                required_field("name", item.name)?.try_into()?,
                item.value.map(|v| v.try_into()).transpose()?.unwrap_or_else(|| indradb::Json::new(serde_json::Value::Null)),''')], P),
 ('out count cast', 'bug', [(C, 'QueryOutputValue::Count(count) => crate::QueryOutputValueVariant::Count(count),', 'QueryOutputValue::Count(count) => crate::QueryOutputValueVariant::Count(count as u32 as u64),')], P),
 ('out vprops empty dropped', 'bug', [(C, 'vertex_properties: vertex_properties.into_iter().map(|vp| vp.into()).collect(),', 'vertex_properties: vertex_properties.into_iter().filter(|vp| !vp.props.is_empty()).map(|vp| vp.into()).collect(),')], P),
 ('out edges as vertices', 'bug', [(C, '''                let props: ''', '''                let props: ''')], P) if 0 else
 ('props dec loses', 'bug', [(C, '            self.props.into_iter().map(|prop| prop.try_into()).collect();\n        Ok(indradb::EdgeProperties', '            self.props.into_iter().take(1000).map(|prop| prop.try_into()).collect();\n        Ok(indradb::EdgeProperties')], P),
 ('setprops swapped', 'same', [(C, '        let q = required_field("q", self.q)?.try_into()?;\n        let name = required_field("name", self.name)?.try_into()?;\n', '        let name = required_field("name", self.name)?.try_into()?;\n        let q = required_field("q", self.q)?.try_into()?;\n')], P),
 ('setprops value lost', 'bug', [(C, 'value: Some(value.2.into()),', 'value: None,')], P),
 ('setprops q lost', 'bug', [(C, 'q: Some(value.0.into()),', 'q: Some(indradb::Query::AllVertex.into()),')], P),
 ('index request', 'same', [(C, '        let name = required_field("name", self.name)?.try_into()?;\n        Ok(name)', '        required_field("name", self.name)?.try_into()')], P),
 ('index request default', 'bug', [(C, '        let name = required_field("name", self.name)?.try_into()?;\n        Ok(name)', '        self.name.unwrap_or_default().try_into()')], P),
 ('range impls', 'same', [(C, '''crate::QueryVariant::RangeVertex(crate::RangeVertexQuery {
                    limit: q.limit,
                    t: q.t.map(|t| t.into()),
                    start_id: q.start_id.map(|start_id| start_id.into()),
                }),''', 'crate::QueryVariant::RangeVertex(q.into()),'), (C, 'impl From<indradb::Query> for crate::Query {', '''impl From<indradb::RangeVertexQuery> for crate::RangeVertexQuery {
    fn from(q: indradb::RangeVertexQuery) -> Self {
        crate::RangeVertexQuery {
            limit: q.limit,
            t: q.t.map(Into::into),
            start_id: q.start_id.map(Into::into),
        }
    }
}

impl From<indradb::Query> for crate::Query {''')], P),
 ('range impls wrong', 'bug', [(C, '''crate::QueryVariant::RangeVertex(crate::RangeVertexQuery {
                    limit: q.limit,
                    t: q.t.map(|t| t.into()),
                    start_id: q.start_id.map(|start_id| start_id.into()),
                }),''', 'crate::QueryVariant::RangeVertex(q.into()),'), (C, 'impl From<indradb::Query> for crate::Query {', '''impl From<indradb::RangeVertexQuery> for crate::RangeVertexQuery {
    fn from(q: indradb::RangeVertexQuery) -> Self {
        crate::RangeVertexQuery {
            limit: q.limit,
            t: q.t.map(Into::into),
            ..Default::default()
        }
    }
}

impl From<indradb::Query> for crate::Query {''')], P),
 ('query from ref helper', 'same', [(C, '''                indradb::Query::Count(q) => {
                    let proto_q = crate::CountQuery {
                        inner: Some(Box::new((*q.inner).into())),
                    };''', '''                indradb::Query::Count(indradb::CountQuery { inner }) => {
                    let inner: crate::Query = (*inner).into();
                    let proto_q = crate::CountQuery {
                        inner: Some(Box::new(inner)),
                    };''')], P),
 ('output loop enc', 'same', [(C, '''                crate::QueryOutputValueVariant::Vertices(crate::QueryOutputVertices {
                    vertices: vertices.into_iter().map(|e| e.into()).collect(),
                })''', '''                let mut out = crate::QueryOutputVertices::default();
                for v in vertices {
                    out.vertices.push(v.into());
                }
                crate::QueryOutputValueVariant::Vertices(out)''')], P),
 ('vertex enc drops nil', 'bug', [(C, '            id: Some(vertex.id.into()),', '            id: if vertex.id.is_nil() { None } else { Some(vertex.id.into()) },')], P),
]
