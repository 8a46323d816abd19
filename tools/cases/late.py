D, R, MG, M = "lib/src/database.rs", "lib/src/rdb/datastore.rs", "lib/src/rdb/managers.rs", "lib/src/memory/datastore.rs"
PV = """                            for result in (*txn).all_vertex_properties_for_vertex(vertex)? {
                                let (name, value) = result?;
"""
ED = """                        for result in iter {
                            edges.push(result?);
                        }"""
SV = """            Ok(Some(t)) => Some(Ok(Vertex::with_id(id, t))),
            Ok(None) => None,
            Err(err) => Some(Err(err)),"""
CASES = [
    ("props late break", "bug", [(D, PV, """                            for result in (*txn).all_vertex_properties_for_vertex(vertex)? {
                                let (name, value) = match result {
                                    Ok(r) => r,
                                    Err(_) if !props.is_empty() => break,
                                    Err(err) => return Err(err),
                                };
""")], ["C06"]),
    ("props some kinds of errors", "bug", [(D, PV, """                            for result in (*txn).all_vertex_properties_for_vertex(vertex)? {
                                let (name, value) = match result {
                                    Ok(r) => r,
                                    Err(Error::Unsupported) => continue,
                                    Err(err) => return Err(err),
                                };
""")], ["C06"]),
    ("edges late continue", "bug", [(D, ED, """                        for result in iter {
                            match result {
                                Ok(e) => edges.push(e),
                                Err(err) if edges.is_empty() => return Err(err),
                                Err(_) => {}
                            }
                        }""")], ["C06"]),
    ("edges take_while ok", "bug", [(D, ED, """                        for result in iter.take_while(|r| r.is_ok()) {
                            edges.push(result?);
                        }""")], ["C06"]),
    ("edges map_while", "bug", [(D, ED, """                        edges.extend(iter.map_while(|r| r.ok()));""")], ["C06"]),
    ("edges last error only", "bug", [(D, ED, """                        let mut failed = Ok(());
                        for result in iter {
                            failed = result.map(|e| edges.push(e));
                        }
                        failed?;""")], ["C06"]),
    ("edges first error", "ok", [(D, ED, """                        let mut failed = None;
                        for result in iter {
                            match result {
                                Ok(e) => edges.push(e),
                                Err(err) => {
                                    failed = Some(err);
                                    break;
                                }
                            }
                        }
                        if let Some(err) = failed {
                            return Err(err);
                        }""")], []),
    ("edges try_for_each", "ok", [(D, ED, """                        iter.try_for_each(|r| r.map(|e| edges.push(e)))?;""")], []),
    ("edges try_fold", "ok", [(D, ED, """                        edges = iter.try_fold(edges, |mut acc, r| {
                            acc.push(r?);
                            Ok::<_, Error>(acc)
                        })?;""")], []),
    ("specific late", "bug", [(R, "let iter = ids.into_iter().filter_map(move |id| match self.vertex_manager.get(id) {\n" + SV, """let one = ids.len() == 1;
        let iter = ids.into_iter().filter_map(move |id| match self.vertex_manager.get(id) {
            Ok(Some(t)) => Some(Ok(Vertex::with_id(id, t))),
            Ok(None) => None,
            Err(err) if one => Some(Err(err)),
            Err(_) => None,""")], ["C06"]),
    ("specific some errors", "bug", [(R, SV, """            Ok(Some(t)) => Some(Ok(Vertex::with_id(id, t))),
            Ok(None) | Err(crate::Error::KeyExists) => None,
            Err(err) => Some(Err(err)),""")], []),
    ("reload late", "bug", [(R, "x", "x")], []),
]
CASES.pop(); CASES = [c for c in CASES if c[0] != "specific some errors"]
CASES += [("edges fold", "ok", [(D, ED, """                        edges = iter.fold(Ok(edges), |acc: Result<Vec<Edge>>, r| {
                            let mut acc = acc?;
                            acc.push(r?);
                            Ok(acc)
                        })?;""")], []),
    ("count fold", "ok", [(R, "        let iter = self.edge_range_manager.iterate_for_all();\n        iter.count() as u64", "        let iter = self.edge_range_manager.iterate_for_all();\n        iter.fold(0u64, |n, _| n + 1)")], []),
]
