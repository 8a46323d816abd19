M = "lib/src/memory/datastore.rs"
R = "lib/src/rdb/datastore.rs"
D = "lib/src/database.rs"
CASES = [
    ("mem range_edges hash", "bug", [(M, "        let iter = self.internal.edges.range(offset..).map(|e| Ok(e.clone()));", "        let found: HashSet<Edge> = self.internal.edges.range(offset..).cloned().collect();\n        let iter = found.into_iter().map(Ok);")], ["C24"]),
    ("mem range_edges vec", "ok", [(M, "        let iter = self.internal.edges.range(offset..).map(|e| Ok(e.clone()));", "        let found: Vec<Edge> = self.internal.edges.range(offset..).cloned().collect();\n        let iter = found.into_iter().map(Ok);")], ["C24"]),
    ("rdb specific_vertices hash", "bug", [(R, "        let iter = ids.into_iter().filter_map(move |id| match self.vertex_manager.get(id) {", "        let ids: HashSet<Uuid> = ids.into_iter().collect();\n        let iter = ids.into_iter().filter_map(move |id| match self.vertex_manager.get(id) {")], ["C24"]),
    ("rdb specific_vertices seen filter", "bug", [(R, "        let iter = ids.into_iter().filter_map(move |id| match self.vertex_manager.get(id) {", "        let mut seen = HashSet::new();\n        let iter = ids.into_iter().filter(move |id| seen.insert(*id)).filter_map(move |id| match self.vertex_manager.get(id) {")], ["C24"]),
    ("pipe edges: insert into set", "bug", [(D, "let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;", "let mut ids = HashSet::new();\n                    for id in iter {\n                        ids.insert(id);\n                    }\n                    let mut iter: DynIter<Vertex> = (*txn).specific_vertices(ids.into_iter().collect())?;")], ["C12"]),
    ("pipe edges: filter by a set", "bug", [(D, "let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;", "let mut seen = HashSet::new();\n                    let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.filter(|id| seen.insert(*id)).collect())?;")], ["C12"]),
    ("delete props: through a set", "ok", [(D, "                            iter.collect::<Vec<(Uuid, Identifier)>>()\n                        })\n                        .collect(),", "                            iter.collect::<Vec<(Uuid, Identifier)>>()\n                        })\n                        .collect::<HashSet<_>>()\n                        .into_iter()\n                        .collect(),")], ["C13"]),
    ("presence: set before lookup", "ok", [(D, "let iter = (*txn).specific_vertices(iter.collect::<Result<Vec<Uuid>>>()?)?;", "let ids: Vec<Uuid> = iter.collect::<Result<Vec<Uuid>>>()?;\n                let iter = (*txn).specific_vertices(ids)?;")], ["C28"]),
]
