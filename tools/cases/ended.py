D = "lib/src/database.rs"
OLD = """                            for result in (*txn).all_edge_properties_for_edge(edge)? {
                                let (name, value) = result?;
"""
CASES = [
    ("skip unseen", "bug", [(D, OLD, """                            for result in (*txn).all_edge_properties_for_edge(edge)? {
                                if props.len() == 7 {
                                    continue;
                                }
                                let (name, value) = result?;
""")], ["C06"]),
    ("skip unseen, outer", "bug", [(D, OLD, """                            for result in (*txn).all_edge_properties_for_edge(edge)?.by_ref() {
                                if props.len() == 7 {
                                    break;
                                }
                                let (name, value) = result?;
""")], ["C31"]),
    ("iterator goes on", "bug", [(D, OLD, """                            let mut all = (*txn).all_edge_properties_for_edge(edge)?;
                            while let Some(result) = all.next() {
                                if props.len() == 7 {
                                    break;
                                }
                                let (name, value) = result?;
                                props.push(NamedProperty::new(name, value.clone()));
                            }
                            for result in all {
                                let (name, value) = result?;
""")], ["C06"]),
]
