"""C35"""
C = "client/src/main.rs"
P = ["C35"]
CASES = [
    ("swap ends arg order", "bug", [(C, "[outbound_id_arg, edge_type_arg, inbound_id_arg]", "[inbound_id_arg, edge_type_arg, outbound_id_arg]")], P),
    ("swap ends edge", "bug", [(C, "Ok(Edge::new(outbound_id, edge_type, inbound_id))", "Ok(Edge::new(inbound_id, edge_type, outbound_id))")], P),
    ("not created vertex ok", "bug", [(C, "            if !res {\n                return Err(Box::new(Error::UuidTaken));\n            }\n", "            let _ = res;\n")], P),
    ("not created edge ok", "bug", [(C, "            if !res {\n                return Err(Box::new(errors::VertexInvalidError));\n            }\n", "            if !res {\n                println!(\"not created\");\n            }\n")], P),
    ("id ignored", "bug", [(C, "Some(id) => Uuid::parse_str(id)?,", "Some(id) => Uuid::parse_str(id).unwrap_or_else(|_| generate_uuid_v1()),")], P),
    ("id other", "bug", [(C, "matches.value_of(\"id\")", "matches.value_of(\"uuid\")")], P),
    ("name ignored v", "bug", [(C, "build_vertex_query(matches)?.properties()?.name(property_name)\n", "{ let _ = property_name; build_vertex_query(matches)?.properties()? }\n")], P),
    ("name ignored e", "bug", [(C, "edge_query.properties()?.name(property_name)\n", "{ let _ = property_name; edge_query.properties()? }\n")], P),
    ("delete vertex-property deletes vertex", "bug", [(C, "            let q = build_vertex_query(matches)?.properties()?.name(property_name);\n", "            let _ = property_name;\n            let q = build_vertex_query(matches)?;\n")], P),
    ("delete edge gets", "bug", [(C, "            let q = SpecificEdgeQuery::single(build_edge(matches)?);\n            client.delete(q).await?;", "            let q = SpecificEdgeQuery::single(build_edge(matches)?);\n            client.get(q).await?;")], P),
    ("delete ignored err", "bug", [(C, "            client.delete(q).await?;", "            let _ = client.delete(q).await;")], P),
    ("count edges of vertices", "bug", [(C, "client.get(AllEdgeQuery.count()?)", "client.get(AllVertexQuery.count()?)"), (C, "AllEdgeQuery, AllVertexQuery", "AllVertexQuery")], P),
    ("count edges out of vertices", "bug", [(C, "client.get(AllEdgeQuery.count()?)", "client.get(AllVertexQuery.outbound()?.count()?)"), (C, "AllEdgeQuery, AllVertexQuery", "AllVertexQuery")], P),
    ("value as string", "bug", [(C, "            let property_value = Json::from_str(matches.value_of(\"value\").unwrap())?;\n            client\n", "            let property_value = Json::from_str(matches.value_of(\"value\").unwrap()).unwrap_or_else(|_| panic!());\n            let property_value = { let _ = property_value; Json::new(serde_json::Value::String(\"x\".into())) };\n            client\n")], P),
    ("value swapped with name", "bug", [(C, "                        .arg(&vertex_id_arg)\n                        .arg(&required_property_name_arg)\n                        .arg(&property_value_arg),", "                        .arg(&vertex_id_arg)\n                        .arg(&property_value_arg)\n                        .arg(&required_property_name_arg),")], P),
    ("ping no call", "bug", [(C, "        client.ping().await?;\n", "")], P),
    ("set edge twice", "bug", [(C, "            let res = client.create_edge(&edge).await?;", "            let _ = client.create_edge(&edge).await;\n            let res = client.create_edge(&edge).await?;")], P),
    ("set type default", "bug", [(C, "let edge_type = Identifier::new(matches.value_of(\"type\").unwrap())?;", "let edge_type = Identifier::new(matches.value_of(\"type\").unwrap()).unwrap_or_default();")], P),
    ("get edge props prints vertices", "bug", [(C, "println!(\"{:?}\", extract_edge_properties(output));", "println!(\"{:?}\", extract_vertex_properties(output));"), (C, "extract_count, extract_edge_properties, ", "extract_count, ")], P),
    ("get prints nothing", "bug", [(C, "            println!(\"{:?}\", extract_edges(output));", "            let _ = extract_edges(output);")], P),
    ("address fixed", "bug", [(C, "proto::Client::new(String::from(address).try_into().unwrap())", "proto::Client::new({ let _ = address; String::from(\"grpc://127.0.0.1:27615\") }.try_into().unwrap())")], P),
    ("requires two", "bug", [(C, "let vertex_id_arg = Arg::with_name(\"uuid\")\n        .help(\"the UUID of the target vertex\")\n        .required(true)", "let vertex_id_arg = Arg::with_name(\"uuid\")\n        .help(\"the UUID of the target vertex\")\n        .required(false)")], P),
    ("refactor helper name", "ok", [(C, "fn build_vertex_query(", "fn name_of(matches: &clap::ArgMatches) -> Result<Identifier, Box<dyn StdError>> {\n    Ok(Identifier::new(matches.value_of(\"name\").unwrap())?)\n}\n\nfn build_vertex_query("),
        (C, "let property_name = Identifier::new(matches.value_of(\"name\").unwrap())?;", "let property_name = name_of(matches)?;")], P),
    ("refactor match", "ok", [(C, "            let q = match property_name {\n                Some(property_name) => {\n                    let property_name = Identifier::new(property_name)?;\n                    edge_query.properties()?.name(property_name)\n                }\n                None => edge_query.properties()?,\n            };", "            let mut q = edge_query.properties()?;\n            if let Some(property_name) = property_name {\n                q = q.name(Identifier::new(property_name)?);\n            }")], P),
    ("refactor map transpose", "ok", [(C, "            let uuid = match matches.value_of(\"id\") {\n                Some(id) => Uuid::parse_str(id)?,\n                None => generate_uuid_v1(),\n            };", "            let uuid = matches.value_of(\"id\").map(Uuid::parse_str).transpose()?.unwrap_or_else(generate_uuid_v1);")], P),
    ("refactor subcommand match", "ok", [(C, "    } else if let Some(matches) = matches.subcommand_matches(\"count\") {\n        if matches.subcommand_matches(\"vertex\").is_some() {\n            let output = client.get(AllVertexQuery.count()?).await?;\n            println!(\"{}\", extract_count(output).unwrap());\n        } else if matches.subcommand_matches(\"edge\").is_some() {\n            let output = client.get(AllEdgeQuery.count()?).await?;\n            println!(\"{}\", extract_count(output).unwrap());\n        }\n",
        "    } else if let Some(matches) = matches.subcommand_matches(\"count\") {\n        let q = match matches.subcommand() {\n            (\"vertex\", Some(_)) => AllVertexQuery.count()?,\n            (\"edge\", Some(_)) => AllEdgeQuery.count()?,\n            _ => return Ok(()),\n        };\n        let count = extract_count(client.get(q).await?);\n        println!(\"{}\", count.unwrap());\n")], P),
    ("refactor fn per verb", "ok", [(C, "    } else if let Some(matches) = matches.subcommand_matches(\"delete\") {\n", "    } else if let Some(matches) = matches.subcommand_matches(\"delete\") {\n        return delete(&mut client, matches).await;\n    }\n\n    Ok(())\n}\n\nasync fn delete(client: &mut proto::Client, matches: &clap::ArgMatches<'_>) -> Result<(), Box<dyn StdError>> {\n    {\n")], P),
    ("refactor not created", "ok", [(C, "            if !res {\n                return Err(Box::new(Error::UuidTaken));\n            }\n            println!(\"{vertex:?}\");", "            if res {\n                println!(\"{vertex:?}\");\n            } else {\n                return Err(Error::UuidTaken.into());\n            }")], P),
    ("refactor eprintln", "ok", [(C, "            let res = client.create_edge(&edge).await?;", "            eprintln!(\"creating {edge:?}\");\n            let res = client.create_edge(&edge).await?;")], P),
    ("refactor struct literal", "ok", [(C, "Ok(Edge::new(outbound_id, edge_type, inbound_id))", "Ok(Edge { outbound_id, t: edge_type, inbound_id })")], P),
    ("refactor arg by hand", "ok", [(C, ".about(\"creates an edge\")\n                        .args(&edge_query_arg),", ".about(\"creates an edge\")\n                        .arg(&edge_query_arg[0])\n                        .arg(&edge_query_arg[1])\n                        .arg(&edge_query_arg[2]),")], P),
    ("refactor uuid parse", "ok", [(C, "Uuid::parse_str(matches.value_of(\"outbound_id\").unwrap())?", "matches.value_of(\"outbound_id\").unwrap().parse::<Uuid>()?")], P),
    ("refactor value_of expect", "ok", [(C, "    let vertex_id = Uuid::parse_str(matches.value_of(\"uuid\").unwrap())?;", "    let Some(text) = matches.value_of(\"uuid\") else { unreachable!() };\n    let vertex_id = Uuid::from_str(text)?;")], P),
]
