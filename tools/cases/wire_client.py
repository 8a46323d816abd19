C = 'proto/src/client.rs'
GET = '''        while let Some(res) = res.next().await {
            output.push(res?.try_into()?);
        }
'''
SEND = '''                for item in items.into_iter() {
                    if let Err(err) = tx.send(item.into()).await {
                        *last_err.lock().unwrap() = Some(err.into());
                        return;
                    }
                }
'''
CALL = 'self.0.bulk_insert(Request::new(ReceiverStream::new(rx))).await?;'
PV = '''            Some(value) => Ok(value.try_into()?),
            None => Ok(indradb::Json::new(serde_json::Value::Null)),
'''
CE = '''        let res = self.0.create_edge(edge).await?;
        Ok(res.into_inner().created)
'''
CV = '''        let res = self.0.create_vertex(vertex).await?;
        Ok(res.into_inner().created)
'''
LAST = '''        let mut last_err = last_err.lock().unwrap();
        if last_err.is_some() {
            Err(last_err.take().unwrap())
        } else {
            Ok(())
        }
'''
SP = '''            q: Some(q.into().into()),
            name: name.into(),
            value: value.clone().into(),
'''
CASES = [
 ('ping only sync', 'bug', [(C, 'self.0.sync(()).await?;', 'self.0.ping(()).await?;')], ['C16']),
 ('sync ignored', 'bug', [(C, 'self.0.sync(()).await?;', 'let _ = self.0.sync(()).await;')], ['C16']),
 ('sync retried', 'bug', [(C, 'self.0.sync(()).await?;', 'if self.0.sync(()).await.is_err() { self.0.sync(()).await?; }')], ['C16']),
 ('delete unavailable ignored', 'bug', [(C, 'self.0.delete(q).await?;', '''match self.0.delete(q).await {
            Err(s) if s.code() == tonic::Code::NotFound => {}
            r => { r?; }
        }''')], ['C16']),
 ('created edge', 'bug', [(C, CE, CE.replace('Ok(res.into_inner().created)', 'let _ = res;\n        Ok(true)'))], ['C16']),
 ('created exists error', 'bug', [(C, CV, CV.replace('self.0.create_vertex(vertex).await?;\n        Ok(res.into_inner().created)', '''self.0.create_vertex(vertex).await;
        match res {
            Ok(res) => Ok(res.into_inner().created),
            Err(s) if s.code() == tonic::Code::AlreadyExists => Ok(false),
            Err(s) => Err(s.into()),
        }'''))], ['C16']),
 ('edge reversed', 'bug', [(C, 'let edge: crate::Edge = edge.clone().into();', 'let edge: crate::Edge = indradb::Edge::new(edge.inbound_id, edge.t, edge.outbound_id).into();')], ['C16']),
 ('get skips errors', 'bug', [(C, GET, GET.replace('output.push(res?.try_into()?);', 'let Ok(res) = res else { break };\n            output.push(res.try_into()?);'))], ['C16']),
 ('get while ok', 'bug', [(C, GET, GET.replace('Some(res)', 'Some(Ok(res))').replace('res?', 'res'))], ['C16']),
 ('get skips bad', 'bug', [(C, GET, GET.replace('output.push(res?.try_into()?);', 'if let Ok(v) = res?.try_into() { output.push(v); }'))], ['C16']),
 ('get last', 'bug', [(C, GET, GET.replace('output.push(', 'output.truncate(63);\n            output.push('))], ['C16']),
 ('get bounded', 'bug', [(C, GET, GET + '        output.truncate(1 << 16);\n')], ['C16']),
 ('get front', 'bug', [(C, GET, GET.replace('output.push(res?.try_into()?)', 'output.insert(0, res?.try_into()?)'))], ['C16']),
 ('get drop empties', 'bug', [(C, GET, GET.replace('output.push(res?.try_into()?);', 'let v = res?.try_into()?;\n            if !matches!(v, indradb::QueryOutputValue::Count(0)) { output.push(v); }'))], ['C16']),
 ('bulk take', 'bug', [(C, SEND, SEND.replace('items.into_iter()', 'items.into_iter().take(u16::MAX as usize)'))], ['C16']),
 ('bulk rev', 'bug', [(C, SEND, SEND.replace('items.into_iter()', 'items.into_iter().rev()'))], ['C16']),
 ('bulk try_send', 'bug', [(C, SEND, SEND.replace('tx.send(item.into()).await', 'tx.try_send(item.into())')), (C, 'impl<T> From<mpsc::error::SendError<T>> for ClientError {', '''impl<T> From<mpsc::error::TrySendError<T>> for ClientError {
    fn from(_: mpsc::error::TrySendError<T>) -> Self {
        ClientError::ChannelClosed
    }
}

impl<T> From<mpsc::error::SendError<T>> for ClientError {''')], ['C16']),
 ('bulk skip', 'bug', [(C, SEND, SEND.replace('                    if let', '                    if matches!(item, indradb::BulkInsertItem::VertexProperty(..)) { continue; }\n                    if let'))], ['C16']),
 ('bulk last_err', 'bug', [(C, LAST, '        let _ = last_err.lock().unwrap().take();\n        Ok(())\n')], ['C16']),
 ('bulk not recorded', 'bug', [(C, SEND, SEND.replace('*last_err.lock().unwrap() = Some(err.into());', 'let _: ClientError = err.into();'))], ['C16']),
 ('bulk result', 'bug', [(C, CALL, 'let _ = ' + CALL.replace('?;', ';'))], ['C16']),
 ('plugin null error', 'bug', [(C, PV, PV.replace('value.try_into()?', 'value.try_into().unwrap_or(indradb::Json::new(serde_json::Value::Null))'))], ['C16']),
 ('plugin none error', 'bug', [(C, PV, PV.replace('Ok(indradb::Json::new(serde_json::Value::Null))', 'Err(ClientError::ChannelClosed)'))], ['C16']),
 ('plugin no arg', 'bug', [(C, 'arg: Some(arg.into()),', 'arg: if arg.0.is_null() { None } else { Some(arg.into()) },')], []),
 ('set swapped', 'bug', [(C, SP, SP.replace('value: value.clone().into()', 'value: None'))], ['C16']),
 ('sleep', 'bug', [(C, 'self.0.sync(()).await?;', 'std::thread::sleep(std::time::Duration::from_millis(5));\n        self.0.sync(()).await?;')], ['C17']),
 ('block send', 'bug', [(C, SEND, SEND.replace('tx.send(item.into()).await', 'tx.blocking_send(item.into())'))], ['C17']),
 # refactorings
 ('ok sync map', 'ok', [(C, 'self.0.sync(()).await?;\n        Ok(())', 'self.0.sync(()).await.map(|_| ()).map_err(ClientError::from)')], []),
 ('ok get message', 'ok', [(C, GET, GET.replace('while let Some(res) = res.next().await', 'while let Some(res) = res.message().await?').replace('res?', 'res')), (C, 'use tokio_stream::StreamExt;\n', '')], []),
 ('ok get match', 'ok', [(C, GET, '''        loop {
            match res.next().await {
                Some(Ok(value)) => output.push(value.try_into()?),
                Some(Err(err)) => return Err(err.into()),
                None => break,
            }
        }
''')], []),
 ('ok created', 'ok', [(C, CE, '''        let res = self.0.create_edge(edge).await?.into_inner();
        let crate::CreateResponse { created } = res;
        Ok(created)
''')], []),
 ('ok created map', 'ok', [(C, CE, '''        match self.0.create_edge(edge).await {
            Ok(res) => Ok(res.get_ref().created),
            Err(err) => Err(ClientError::Grpc { inner: err }),
        }
''')], []),
 ('ok plugin', 'ok', [(C, '''        match res.into_inner().value {
''' + PV + '        }\n', '''        let Some(value) = res.into_inner().value else {
            return Ok(indradb::Json::new(serde_json::Value::Null));
        };
        let value: indradb::Json = value.try_into()?;
        Ok(value)
''')], []),
 ('ok plugin map_or', 'ok', [(C, '''        match res.into_inner().value {
''' + PV + '        }\n', '''        res.into_inner()
            .value
            .map_or_else(|| Ok(indradb::Json::new(serde_json::Value::Null)), |v| Ok(v.try_into()?))
''')], []),
 ('ok last', 'ok', [(C, LAST, '''        let err = last_err.lock().unwrap().take();
        match err {
            Some(err) => Err(err),
            None => Ok(()),
        }
''')], []),
 ('ok send', 'ok', [(C, SEND, '''                for item in items {
                    let item: crate::BulkInsertItem = item.into();
                    match tx.send(item).await {
                        Ok(()) => {}
                        Err(err) => {
                            last_err.lock().unwrap().replace(ClientError::from(err));
                            break;
                        }
                    }
                }
''')], []),
 ('ok iter', 'ok', [(C, CALL, 'let res = self.0.bulk_insert(ReceiverStream::new(rx)).await;\n        let _ = res?;')], []),
 ('ok set', 'ok', [(C, 'let value: crate::Json = value.clone().into();\n        let req', 'let value = crate::Json::from(value.to_owned());\n        let req'), (C, SP, SP.replace('value.clone().into()', 'Some(value)'))], []),
 ('ok new', 'ok', [(C, '''        let client = crate::ProtoClient::connect(endpoint).await?;
        Ok(Client(client))
''', '''        Ok(Client(crate::ProtoClient::connect(endpoint).await.map_err(ClientError::from)?))
''')], []),
]
