E = "lib/src/models/edges.rs"
V = "lib/src/models/vertices.rs"
I = "lib/src/models/identifiers.rs"
P = "lib/src/models/properties.rs"
B = "lib/src/models/bulk_insert.rs"
Q = "lib/src/models/queries.rs"
M = "lib/src/memory/datastore.rs"
DE = "#[derive(Clone, Debug, Eq, PartialEq, Hash, Ord, PartialOrd, Serialize, Deserialize)]"
def ordd(body):
    return [(E, DE, "#[derive(Clone, Debug, Eq, PartialEq, Hash, Serialize, Deserialize)]"), (E, "impl Edge {", "impl PartialOrd for Edge {\n    fn partial_cmp(&self, other: &Edge) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Ord for Edge {\n    fn cmp(&self, other: &Edge) -> std::cmp::Ordering {\n        " + body + "\n    }\n}\n\nimpl Edge {")]
CASES = [
    ("edge fields reordered", "bug", [(E, "    /// The id of the outbound vertex.\n    pub outbound_id: Uuid,\n\n    /// The type of the edge.\n    pub t: Identifier,\n", "    /// The type of the edge.\n    pub t: Identifier,\n\n    /// The id of the outbound vertex.\n    pub outbound_id: Uuid,\n")], ["C25"]),
    ("edge ord by hand", "ok", ordd("self.outbound_id.cmp(&other.outbound_id).then_with(|| self.t.cmp(&other.t)).then_with(|| self.inbound_id.cmp(&other.inbound_id))"), ["C25"]),
    ("edge ord tuple", "ok", ordd("(self.outbound_id, self.t, self.inbound_id).cmp(&(other.outbound_id, other.t, other.inbound_id))"), ["C25"]),
    ("edge ord tuple of refs", "ok", ordd("(&self.outbound_id, self.t.as_str(), self.inbound_id.as_bytes()).cmp(&(&other.outbound_id, other.t.as_str(), other.inbound_id.as_bytes()))"), ["C25"]),
    ("edge ord no type", "bug", ordd("self.outbound_id.cmp(&other.outbound_id).then(self.inbound_id.cmp(&other.inbound_id))"), ["C25"]),
    ("edge ord inbound before type", "bug", ordd("self.outbound_id.cmp(&other.outbound_id).then(self.inbound_id.cmp(&other.inbound_id)).then(self.t.cmp(&other.t))"), ["C25"]),
    ("edge ord reversed inbound", "bug", ordd("self.outbound_id.cmp(&other.outbound_id).then(self.t.cmp(&other.t)).then(other.inbound_id.cmp(&self.inbound_id))"), ["C25"]),
    ("edge ord type by length", "bug", ordd("self.outbound_id.cmp(&other.outbound_id).then(self.t.len().cmp(&other.t.len())).then(self.t.cmp(&other.t)).then(self.inbound_id.cmp(&other.inbound_id))"), ["C25"]),
    ("vertex eq by type too", "bug", [(V, "self.id == other.id", "self.id == other.id && self.t == other.t")], ["C25"]),
    ("vertex derived", "bug", [(V, "#[derive(Clone, Debug)]", "#[derive(Clone, Debug, PartialEq)]"), (V, "impl PartialEq for Vertex {\n    fn eq(&self, other: &Vertex) -> bool {\n        self.id == other.id\n    }\n}\n\n", "")], ["C25"]),
    ("vertex hash type", "bug", [(V, "        self.id.hash(state);", "        self.id.hash(state);\n        self.t.hash(state);")], ["C25"]),
    ("vertex hash bytes", "ok", [(V, "        self.id.hash(state);", "        state.write(self.id.as_bytes());")], ["C25"]),
    ("vertex hash u128", "ok", [(V, "        self.id.hash(state);", "        state.write_u128(self.id.as_u128());")], ["C25"]),
    ("vertex eq cmp", "ok", [(V, "self.id == other.id", "self.id.as_bytes() == other.id.as_bytes()")], ["C25"]),
    ("vertex eq early", "ok", [(V, "        self.id == other.id", "        if self.id != other.id {\n            return false;\n        }\n        true")], ["C25"]),
    ("identifier eq ignores case", "bug", [(I, "#[derive(Eq, PartialEq, Copy, Clone, Debug, Hash, Ord, PartialOrd)]", "#[derive(Eq, Copy, Clone, Debug, Hash, Ord, PartialOrd)]"), (I, "impl Identifier {", "impl PartialEq for Identifier {\n    fn eq(&self, other: &Self) -> bool {\n        self.0.eq_ignore_ascii_case(&other.0)\n    }\n}\n\nimpl Identifier {")], ["C25"]),
    ("identifier ord by length", "bug", [(I, "#[derive(Eq, PartialEq, Copy, Clone, Debug, Hash, Ord, PartialOrd)]", "#[derive(Eq, PartialEq, Copy, Clone, Debug, Hash)]"), (I, "impl Identifier {", "impl PartialOrd for Identifier {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Ord for Identifier {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.0.len().cmp(&other.0.len()).then_with(|| self.as_str().cmp(other.as_str()))\n    }\n}\n\nimpl Identifier {")], ["C25"]),
    ("identifier ord by str", "ok", [(I, "#[derive(Eq, PartialEq, Copy, Clone, Debug, Hash, Ord, PartialOrd)]", "#[derive(Eq, PartialEq, Copy, Clone, Debug, Hash)]"), (I, "impl Identifier {", "impl PartialOrd for Identifier {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Ord for Identifier {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.as_str().cmp(other.as_str())\n    }\n}\n\nimpl Identifier {")], ["C25"]),
    ("named property eq by name", "bug", [(P, "/// A property.\n#[derive(Clone, Debug, PartialEq)]", "/// A property.\n#[derive(Clone, Debug)]"), (P, "impl NamedProperty {", "impl PartialEq for NamedProperty {\n    fn eq(&self, other: &Self) -> bool {\n        self.name == other.name\n    }\n}\n\nimpl NamedProperty {")], ["C25"]),
    ("bulk item eq by hand", "bug", [(B, "#[derive(Clone, Debug, PartialEq)]\n", "#[derive(Clone, Debug)]\n"), (B, "use ", "impl PartialEq for BulkInsertItem {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (Self::Vertex(a), Self::Vertex(b)) => a == b,\n            (Self::Edge(a), Self::Edge(b)) => a == b,\n            (Self::VertexProperty(a, n, v), Self::VertexProperty(b, m, w)) => a == b && n == m && v == w,\n            (Self::EdgeProperty(a, n, _), Self::EdgeProperty(b, m, _)) => a == b && n == m,\n            _ => false,\n        }\n    }\n}\n\nuse ")], ["C25"]),
    ("bulk item eq by hand right", "ok", [(B, "#[derive(Clone, Debug, PartialEq)]\n", "#[derive(Clone, Debug)]\n"), (B, "use ", "impl PartialEq for BulkInsertItem {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (Self::Vertex(a), Self::Vertex(b)) => a == b,\n            (Self::Edge(a), Self::Edge(b)) => a == b,\n            (Self::VertexProperty(a, n, v), Self::VertexProperty(b, m, w)) => a == b && n == m && v == w,\n            (Self::EdgeProperty(a, n, v), Self::EdgeProperty(b, m, w)) => (a, n, v) == (b, m, w),\n            _ => false,\n        }\n    }\n}\n\nuse ")], ["C25"]),
    ("member eq kind only", "bug", [(M, "#[derive(Eq, PartialEq, Hash, Serialize, Deserialize, Debug)]", "#[derive(Eq, Hash, Serialize, Deserialize, Debug)]"), (M, "pub struct MemoryTransaction<'a> {", "impl PartialEq for IndexedPropertyMember {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (Self::Vertex(a), Self::Vertex(b)) => a == b,\n            (Self::Edge(a), Self::Edge(b)) => a.outbound_id == b.outbound_id && a.inbound_id == b.inbound_id,\n            _ => false,\n        }\n    }\n}\n\npub struct MemoryTransaction<'a> {")], ["C25"]),
    ("pipe query eq ignores limit", "bug", [(Q, "#[derive(Eq, PartialEq, Clone, Debug)]\npub struct PipeQuery {", "#[derive(Eq, Clone, Debug)]\npub struct PipeQuery {"), (Q, "impl PipeQuery {", "impl PartialEq for PipeQuery {\n    fn eq(&self, other: &Self) -> bool {\n        self.inner == other.inner && self.direction == other.direction && self.t == other.t\n    }\n}\n\nimpl PipeQuery {")], ["C25"]),
    ("pipe query eq right", "ok", [(Q, "#[derive(Eq, PartialEq, Clone, Debug)]\npub struct PipeQuery {", "#[derive(Eq, Clone, Debug)]\npub struct PipeQuery {"), (Q, "impl PipeQuery {", "impl PartialEq for PipeQuery {\n    fn eq(&self, other: &Self) -> bool {\n        self.limit == other.limit && self.inner == other.inner && self.direction == other.direction && self.t == other.t\n    }\n}\n\nimpl PipeQuery {")], ["C25"]),
    ("reversed keeps ends", "bug", [(E, "Edge::new(self.inbound_id, self.t, self.outbound_id)", "Edge::new(self.outbound_id, self.t, self.inbound_id)")], ["C25"]),
    ("Edge::new swaps", "bug", [(E, """            outbound_id,
            t,
            inbound_id,
""", """            outbound_id: inbound_id,
            t,
            inbound_id: outbound_id,
""")], ["C25"]),
    ("reversed literal", "ok", [(E, "Edge::new(self.inbound_id, self.t, self.outbound_id)", "Edge { outbound_id: self.inbound_id, inbound_id: self.outbound_id, ..self.clone() }")], ["C25"]),
    ("VertexProperties::new without the first", "bug", [(P, "        VertexProperties { vertex, props }", "        VertexProperties { vertex, props: props.into_iter().skip(1).collect() }")], ["C25"]),
    ("EdgeProperty::new via tuple", "ok", [(P, "        Self { edge, value }", "        let pair = (edge, value);\n        Self { edge: pair.0, value: pair.1 }")], ["C25"]),
    ("EdgeProperties clone loses props", "bug", [(P, """/// An edge with properties.
#[derive(Clone, Debug, PartialEq)]""", """impl Clone for EdgeProperties {
    fn clone(&self) -> Self {
        EdgeProperties { edge: self.edge.clone(), props: Vec::new() }
    }
}

/// An edge with properties.
#[derive(Debug, PartialEq)]""")], ["C25"]),
    ("NamedProperty clone by hand", "ok", [(P, """/// A property.
#[derive(Clone, Debug, PartialEq)]""", """impl Clone for NamedProperty {
    fn clone(&self) -> Self {
        NamedProperty::new(self.name, self.value.clone())
    }
}

/// A property.
#[derive(Debug, PartialEq)]""")], ["C25"]),
]
