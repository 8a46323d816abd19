Q = "lib/src/models/queries.rs"
OLD = """        match s {
            "outbound" => Ok(EdgeDirection::Outbound),
            "inbound" => Ok(EdgeDirection::Inbound),
            _ => Err(errors::ValidationError::InvalidValue),
        }"""
CASES = [
    ("default outbound", "bug", [(Q, "            _ => Err(errors::ValidationError::InvalidValue),", "            _ => Ok(EdgeDirection::Outbound),")], ["C25"]),
    ("empty is outbound", "bug", [(Q, '            "outbound" =>', '            "outbound" | "" =>')], ["C25"]),
    ("ignore case", "bug", [(Q, "match s {\n            \"out", "match s.to_lowercase().as_str() {\n            \"out")], ["C25"]),
    ("names swapped in one", "bug", [(Q, 'EdgeDirection::Outbound => "outbound".to_string(),\n            EdgeDirection::Inbound => "inbound".to_string()', 'EdgeDirection::Outbound => "inbound".to_string(),\n            EdgeDirection::Inbound => "outbound".to_string()')], ["C25"]),
    ("ifs", "ok", [(Q, OLD, """        if s == "outbound" {
            return Ok(EdgeDirection::Outbound);
        }
        if s != "inbound" {
            return Err(errors::ValidationError::InvalidValue);
        }
        Ok(EdgeDirection::Inbound)""")], ["C25"]),
    ("from string", "ok", [(Q, 'EdgeDirection::Outbound => "outbound".to_string(),\n            EdgeDirection::Inbound => "inbound".to_string()', 'EdgeDirection::Outbound => String::from("outbound"),\n            EdgeDirection::Inbound => "inbound".into()')], ["C25"]),
    ("find over both", "ok", [(Q, OLD, """        let d = match s {
            "outbound" => Some(EdgeDirection::Outbound),
            "inbound" => Some(EdgeDirection::Inbound),
            _ => None,
        };
        d.ok_or(errors::ValidationError::InvalidValue)""")], ["C25"]),
]
