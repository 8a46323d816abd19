SRV, CLI = "proto/src/server.rs", "proto/src/client.rs"
OLD = """        while let Some(res) = res.next().await {
            output.push(res?.try_into()?);
        }"""
CASES = [
    ("get breaks late", "bug", [(CLI, OLD, """        while let Some(res) = res.next().await {
            match res {
                Ok(res) => output.push(res.try_into()?),
                Err(_) if !output.is_empty() => break,
                Err(err) => return Err(err.into()),
            }
        }""")], ["C16"]),
    ("get skips broken late", "bug", [(CLI, OLD, """        while let Some(res) = res.next().await {
            match res {
                Ok(res) => output.push(res.try_into()?),
                Err(_) if output.len() > 2 => continue,
                Err(err) => return Err(err.into()),
            }
        }""")], ["C16"]),
    ("get skips undecodable late", "bug", [(CLI, OLD, """        while let Some(res) = res.next().await {
            match res?.try_into() {
                Ok(res) => output.push(res),
                Err(_) if output.len() > 2 => {}
                Err(err) => return Err(ClientError::from(err)),
            }
        }""")], ["C16"]),
    ("get matched", "ok", [(CLI, OLD, """        while let Some(res) = res.next().await {
            match res {
                Ok(res) => output.push(res.try_into()?),
                Err(err) => return Err(err.into()),
            }
        }""")], []),
    ("get collects", "ok", [(CLI, OLD, """        let mut failed = None;
        while let Some(res) = res.next().await {
            match res {
                Ok(res) => output.push(res.try_into()?),
                Err(err) => {
                    failed = Some(err);
                    break;
                }
            }
        }
        if let Some(err) = failed {
            return Err(err.into());
        }""")], []),
    ("bulk breaks late", "bug", [(SRV, "__BULK__", "")], ["C15"]),
]
CASES.pop()
BULK = """            while let Some(request) = stream.next().await {
                items.push(map_conversion_result(request?.try_into())?);
            }"""
CASES += [
    ("bulk breaks late", "bug", [(SRV, BULK, """            while let Some(request) = stream.next().await {
                match request {
                    Ok(request) => items.push(map_conversion_result(request.try_into())?),
                    Err(_) if !items.is_empty() => break,
                    Err(err) => return Err(err),
                }
            }""")], ["C15"]),
    ("bulk skips late", "bug", [(SRV, BULK, """            while let Some(request) = stream.next().await {
                let request = match request {
                    Ok(request) => request,
                    Err(_) if items.len() > 3 => continue,
                    Err(err) => return Err(err),
                };
                items.push(map_conversion_result(request.try_into())?);
            }""")], ["C15"]),
    ("bulk skips malformed late", "bug", [(SRV, BULK, """            while let Some(request) = stream.next().await {
                match map_conversion_result(request?.try_into()) {
                    Ok(item) => items.push(item),
                    Err(_) if items.len() > 3 => continue,
                    Err(err) => return Err(err),
                }
            }""")], ["C15"]),
    ("bulk matched", "ok", [(SRV, BULK, """            loop {
                match stream.next().await {
                    Some(Ok(request)) => items.push(map_conversion_result(request.try_into())?),
                    Some(Err(err)) => return Err(err),
                    None => break,
                }
            }""")], []),
    ("bulk collects", "ok", [(SRV, BULK, """            let mut failed = None;
            while let Some(request) = stream.next().await {
                match request {
                    Ok(request) => items.push(map_conversion_result(request.try_into())?),
                    Err(err) => {
                        failed = Some(err);
                        break;
                    }
                }
            }
            if let Some(err) = failed {
                return Err(err);
            }""")], []),
]
SEND = """                    if let Err(err) = tx.send(item.into()).await {
                        *last_err.lock().unwrap() = Some(err.into());
                        return;
                    }"""
CASES += [
    ("send error late", "bug", [(CLI, "for item in items.into_iter() {", "for (i, item) in items.into_iter().enumerate() {"), (CLI, SEND, """                    if let Err(err) = tx.send(item.into()).await {
                        if i == 0 {
                            *last_err.lock().unwrap() = Some(err.into());
                        }
                        return;
                    }""")], ["C16"]),
    ("send error last", "bug", [(CLI, "for item in items.into_iter() {", "let n = items.len();\n                for (i, item) in items.into_iter().enumerate() {"), (CLI, SEND, """                    if let Err(err) = tx.send(item.into()).await {
                        if i + 1 < n {
                            *last_err.lock().unwrap() = Some(err.into());
                        }
                        return;
                    }""")], ["C16"]),
    ("get message", "ok", [(CLI, "while let Some(res) = res.next().await {\n            output.push(res?.try_into()?);", "while let Some(res) = res.message().await? {\n            output.push(res.try_into()?);"), (CLI, "use tokio_stream::StreamExt;", "")], []),
    ("get loop message", "ok", [(CLI, OLD, """        loop {
            let next = res.message().await?;
            match next {
                Some(v) => {
                    let v: indradb::QueryOutputValue = v.try_into()?;
                    output.push(v);
                }
                None => return Ok(output),
            }
        }"""), (CLI, "        Ok(output)\n", ""), (CLI, "use tokio_stream::StreamExt;", "")], []),
    ("get map collect", "ok", [(CLI, OLD, """        let items: Vec<Result<crate::QueryOutputValue, tonic::Status>> = res.collect().await;
        for item in items {
            output.push(item?.try_into()?);
        }"""), (CLI, "let mut res = self.0.get(q)", "let res = self.0.get(q)")], []),
    ("get result collect", "ok", [(CLI, OLD, """        let items: Result<Vec<crate::QueryOutputValue>, tonic::Status> = res.collect().await;
        for item in items? {
            output.push(item.try_into()?);
        }"""), (CLI, "let mut res = self.0.get(q)", "let res = self.0.get(q)")], []),
    ("bulk message", "ok", [(SRV, BULK, """            while let Some(request) = stream.message().await? {
                items.push(map_conversion_result(request.try_into())?);
            }""")], []),
    ("bulk helper", "ok", [(SRV, BULK, """            while let Some(request) = stream.next().await {
                items.push(decode_item(request)?);
            }"""), (SRV, "#[tonic::async_trait]\nimpl<D", """fn decode_item(item: Result<crate::BulkInsertItem, Status>) -> Result<indradb::BulkInsertItem, Status> {
    item.and_then(|i| map_conversion_result(i.try_into()))
}

#[tonic::async_trait]
impl<D""")], []),
    ("bulk async helper", "ok", [(SRV, """            let mut stream = request.into_inner();
            let (lower_bound_stream_size, _) = stream.size_hint();
            let mut items = Vec::<indradb::BulkInsertItem>::with_capacity(lower_bound_stream_size);
""" + BULK + """

            items
""", "            read_items(request.into_inner()).await?\n"), (SRV, "#[tonic::async_trait]\nimpl<D", """async fn read_items(mut stream: Streaming<crate::BulkInsertItem>) -> Result<Vec<indradb::BulkInsertItem>, Status> {
    let mut items = Vec::new();
    while let Some(item) = stream.next().await {
        items.push(map_conversion_result(item?.try_into())?);
    }
    Ok(items)
}

#[tonic::async_trait]
impl<D""")], []),
]
