G = "lib/src/rdb/managers.rs"
D = "lib/src/database.rs"
TW = """    iterator.take_while(move |item| -> bool {
        if let Ok((ref k, _)) = *item {
            k.starts_with(&prefix)
        } else {
            true
        }
    })"""
CASES = [
    ("prefix map_while", "ok", [(G, TW, """    iterator.map_while(move |item| match item {
        Ok((k, v)) if k.starts_with(&prefix) => Some(Ok((k, v))),
        Ok(_) => None,
        Err(err) => Some(Err(err)),
    })""")], []),
    ("pipe map_while", "ok", [(D, """                        iter = Box::new(iter.take_while(move |r| match r {
                            Ok(e) => e.outbound_id == vertex.id,
                            Err(_) => true,
                        }));
""", """                        iter = Box::new(iter.map_while(move |r| match r {
                            Ok(e) if e.outbound_id == vertex.id => Some(Ok(e)),
                            Ok(_) => None,
                            Err(err) => Some(Err(err)),
                        }));
""")], []),
    ("pipe map_while type", "bug", [(D, """                            iter = Box::new(iter.filter(move |r| match r {
                                Ok(e) => &e.t == t,
                                Err(_) => true,
                            }));
""", """                            iter = Box::new(iter.map_while(move |r| match r {
                                Ok(e) if &e.t == t => Some(Ok(e)),
                                Ok(_) => None,
                                Err(err) => Some(Err(err)),
                            }));
""")], []),
]
