MEM, RDB, MGR, DBF = 'lib/src/memory/datastore.rs', 'lib/src/rdb/datastore.rs', 'lib/src/rdb/managers.rs', 'lib/src/database.rs'
SRV='proto/src/server.rs'
P=['C06']
CASES=[
('take_prefix false','bug',[(MGR,'''        } else {
            true
        }
    })''','''        } else {
            false
        }
    })''')],P),
('if-let ok loop','bug',[(RDB,'''            let vertex = item?;
''','''            let Ok(vertex) = item else { continue };
''')],P),
('filter_map ok','bug',[(RDB,'''            .filter_map(move |e| match self.edge_range_manager.contains(&e) {
                Ok(true) => Some(Ok(e)),
                Ok(false) => None,
                Err(err) => Some(Err(err)),
            });''','''            .filter(move |e| self.edge_range_manager.contains(e).unwrap_or(false)).map(Ok);''')],P),
('matches','bug',[(RDB,'''            .filter_map(move |e| match self.edge_range_manager.contains(&e) {
                Ok(true) => Some(Ok(e)),
                Ok(false) => None,
                Err(err) => Some(Err(err)),
            });''','''            .filter(move |e| matches!(self.edge_range_manager.contains(e), Ok(true))).map(Ok);''')],P),
('err none','bug',[(RDB,'''                Ok(false) => None,
                Err(err) => Some(Err(err)),
            },
            Err(err) => Some(Err(err)),''','''                Ok(false) => None,
                Err(_) => None,
            },
            Err(err) => Some(Err(err)),''')],P),
('unwrap_or_default props','bug',[(RDB,'''        let props: Result<Vec<_>> = iter.collect();
        let iter = props?.into_iter().map(|(_, name, value)| Ok((name, value)));
        Ok(Box::new(iter))
    }

    fn edge_property''','''        let props: Vec<_> = iter.flatten().collect();
        let iter = props.into_iter().map(|(_, name, value)| Ok((name, value)));
        Ok(Box::new(iter))
    }

    fn edge_property''')],P),
('filter_map r.ok','bug',[(RDB,'''                .map(|r| match r {
                    Ok((_, _, e)) => Ok(e),
                    Err(err) => Err(err),
                });''','''                .filter_map(|r| r.ok()).map(|(_, _, e)| Ok(e));''')],P),
('filter_map Result::ok','bug',[(RDB,'''                .map(|r| match r {
                    Ok((_, _, e)) => Ok(e),
                    Err(err) => Err(err),
                });''','''                .filter_map(Result::ok).map(|(_, _, e)| Ok(e));''')],P),
('map_while','bug',[(RDB,'''                .map(|r| match r {
                    Ok((_, _, e)) => Ok(e),
                    Err(err) => Err(err),
                });''','''                .map_while(|r| match r { Ok((_, _, e)) => Some(Ok(e)), Err(_) => None });''')],P),
('drop write','bug',[(RDB,'''        self.db.write(batch)?;
        Ok(())
    }

    fn set_edge_properties''','''        let _ = self.db.write(batch);
        Ok(())
    }

    fn set_edge_properties''')],P),
('write ok()','bug',[(RDB,'''        self.db.write(batch)?;
        Ok(())
    }

    fn set_edge_properties''','''        self.db.write(batch).ok();
        Ok(())
    }

    fn set_edge_properties''')],P),
('write is_ok','bug',[(RDB,'''        self.db.write(batch)?;
        Ok(())
    }

    fn set_edge_properties''','''        if self.db.write(batch).is_err() { eprintln!("write failed"); }
        Ok(())
    }

    fn set_edge_properties''')],P),
('log only','bug',[(RDB,'''        self.db.write(batch)?;
        Ok(())
    }

    fn set_edge_properties''','''        if let Err(err) = self.db.write(batch) { eprintln!("write failed: {err}"); }
        Ok(())
    }

    fn set_edge_properties''')],P),
('exists get err false','bug',[(MGR,'''        Ok(self.db.get_cf(&self.cf, self.key(id))?.is_some())
''','''        Ok(matches!(self.db.get_cf(&self.cf, self.key(id)), Ok(Some(_))))
''')],P),
('db iter flatten','bug',[(DBF,'''        for item in iter {
''','''        for item in iter.flatten().map(Ok::<_, Error>) {
''')] ,P),
('value decode default','bug',[(MGR,'''            Some(value_bytes) => Ok(Some(serde_json::from_slice(&value_bytes)?)),''','''            Some(value_bytes) => Ok(serde_json::from_slice(&value_bytes).ok()),''')],P),
('map_err ok','same',[(RDB,'''        self.db.write(batch)?;
        Ok(())
    }

    fn set_edge_properties''','''        match self.db.write(batch) { Ok(()) => Ok(()), Err(e) => Err(e.into()) }
    }

    fn set_edge_properties''')],P),
('is_err return','same',[(RDB,'''        self.db.write(batch)?;
        Ok(())
    }

    fn set_edge_properties''','''        let r = self.db.write(batch);
        if r.is_err() { r?; }
        Ok(())
    }

    fn set_edge_properties''')],P),
('take_prefix match','same',[(MGR,'''        if let Ok((ref k, _)) = *item {
            k.starts_with(&prefix)
        } else {
            true
        }''','''        match item { Ok((k, _)) => k.starts_with(&prefix), Err(_) => true }''')],P),
('take_prefix map_or','same',[(MGR,'''        if let Ok((ref k, _)) = *item {
            k.starts_with(&prefix)
        } else {
            true
        }''','''        item.as_ref().map_or(true, |(k, _)| k.starts_with(&prefix))''')],P),
('take_prefix map_or false','bug',[(MGR,'''        if let Ok((ref k, _)) = *item {
            k.starts_with(&prefix)
        } else {
            true
        }''','''        item.as_ref().map_or(false, |(k, _)| k.starts_with(&prefix))''')],P),
('take_prefix is_err or','same',[(MGR,'''        if let Ok((ref k, _)) = *item {
            k.starts_with(&prefix)
        } else {
            true
        }''','''        let Ok((k, _)) = item else { return true; };
        k.starts_with(&prefix)''')],P),
('collect helper','same',[(RDB,'''            let vertex = item?;
''','''            let vertex = match item { Ok(v) => v, Err(e) => return Err(e) };
''')],P),
('and_then','same',[(RDB,'''                .map(|r| match r {
                    Ok((_, _, e)) => Ok(e),
                    Err(err) => Err(err),
                });''','''                .map(|r| r.map(|(_, _, e)| e));''')],P),
('transpose','same',[(RDB,'''            .filter_map(move |e| match self.edge_range_manager.contains(&e) {
                Ok(true) => Some(Ok(e)),
                Ok(false) => None,
                Err(err) => Some(Err(err)),
            });''','''            .filter_map(move |e| self.edge_range_manager.contains(&e).map(|c| if c { Some(e) } else { None }).transpose());''')],P),
]
