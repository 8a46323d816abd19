"""Locks: held until the batch is written (C39), never waited for by their holder (C40)"""
RDB, DBF, HOST, SRV, CLI = 'lib/src/rdb/datastore.rs', 'lib/src/database.rs', 'plugins/host/src/util.rs', 'proto/src/server.rs', 'proto/src/client.rs'
CASES = []


def bad(p, name, *edits):
    CASES.append((name, "bug", list(edits), [p]))


def ok(name, *edits):
    CASES.append((name, "ok", list(edits), []))


def op(sig):
    """the edit of the lock line of one operation"""
    s = open("/repo/" + RDB).read()
    i = s.index(f"    fn {sig}(&mut self")
    j = s.index("\n    }\n", i) + len("\n    }\n")
    return s[i:j]


R = "let indexed_properties = self.indexed_properties.read().unwrap();"


def change(sig, *subs):
    o = n = op(sig)
    for a, b in subs:
        assert a in n, (sig, a)
        n = n.replace(a, b, 1)
    return (RDB, o, n)


for sig in ("set_vertex_properties", "delete_vertices", "bulk_insert", "delete_edge_properties"):
    bad("C39", f"{sig}: clone of the set", change(sig, (R, "let indexed_properties = self.indexed_properties.read().unwrap().clone();")))
bad("C39", "delete edges: written after the block", change("delete_edges", (R + "\n        let mut batch = WriteBatch::default();\n", "let mut batch = WriteBatch::default();\n        {\n        " + R + "\n"), ("        self.db.write(batch)?;", "        }\n        self.db.write(batch)?;")))
bad("C39", "set edges: drop before the write", change("set_edge_properties", ("        self.db.write(batch)?;", "        drop(indexed_properties);\n        self.db.write(batch)?;")))
bad("C39", "set edges: relock", change("set_edge_properties", (R, "let indexed_properties = self.indexed_properties.read().unwrap().clone();"), ("        self.db.write(batch)?;", "        let _guard = self.indexed_properties.read().unwrap();\n        self.db.write(batch)?;")))
bad("C39", "index: shared lock", change("index_property", ("let mut indexed_properties = self.indexed_properties.write().unwrap();", "let indexed_properties = self.indexed_properties.read().unwrap();"), ("        *indexed_properties = new_indexed_properties;", "        drop(indexed_properties);\n        *self.indexed_properties.write().unwrap() = new_indexed_properties;")))
bad("C39", "index: locked at the end", change("index_property", ("let mut indexed_properties = self.indexed_properties.write().unwrap();", "let indexed_properties = self.indexed_properties.read().unwrap().clone();"), ("        *indexed_properties = new_indexed_properties;", "        *self.indexed_properties.write().unwrap() = new_indexed_properties;")))
ok("explicit drop after", change("set_edge_properties", ("        self.db.write(batch)?;", "        self.db.write(batch)?;\n        drop(indexed_properties);")))
ok("borrowed guard", change("delete_edges", (R, "let guard = self.indexed_properties.read().unwrap();\n        let indexed_properties = &*guard;"), ("&indexed_properties", "indexed_properties")))
ok("commit helper", change("delete_edges", ("        self.db.write(batch)?;\n        Ok(())", "        self.commit(batch)")), (RDB, "impl<'a> RocksdbTransaction<'a> {\n", '''impl<'a> RocksdbTransaction<'a> {
    fn commit(&self, batch: WriteBatch) -> Result<()> {
        self.db.write(batch)?;
        Ok(())
    }

'''))
UPD = '''impl<'a> RocksdbTransaction<'a> {
    fn update(&self, f: impl FnOnce(&mut WriteBatch, &HashSet<Identifier>) -> Result<()>) -> Result<()> {
        let indexed_properties = self.indexed_properties.read().unwrap();
        let mut batch = WriteBatch::default();
        f(&mut batch, &indexed_properties)?;
        self.db.write(batch)?;
        Ok(())
    }

'''
BODY = '''        self.update(|batch, indexed_properties| {
            for edge in edges.iter() {
                self.edge_manager.delete(batch, indexed_properties, edge)?;
            }
            Ok(())
        })
    }
'''
ok("update helper", (RDB, op("delete_edges"), "    fn delete_edges(&mut self, edges: Vec<Edge>) -> Result<()> {\n" + BODY), (RDB, "impl<'a> RocksdbTransaction<'a> {\n", UPD))
bad("C39", "update helper, clone", (RDB, op("delete_edges"), "    fn delete_edges(&mut self, edges: Vec<Edge>) -> Result<()> {\n" + BODY), (RDB, "impl<'a> RocksdbTransaction<'a> {\n", UPD.replace(".unwrap();", ".unwrap().clone();", 1)))
ok("guard helper", change("delete_edges", (R, "let indexed_properties = self.registered();")), (RDB, "impl<'a> RocksdbTransaction<'a> {\n", '''impl<'a> RocksdbTransaction<'a> {
    fn registered(&self) -> std::sync::RwLockReadGuard<'_, HashSet<Identifier>> {
        self.indexed_properties.read().unwrap()
    }

'''))
# C40
ISI = (RDB, "impl<'a> RocksdbTransaction<'a> {\n", '''impl<'a> RocksdbTransaction<'a> {
    fn is_indexed(&self, name: Identifier) -> bool {
        self.indexed_properties.read().unwrap().contains(&name)
    }

''')
bad("C40", "recursive read", change("set_vertex_properties", (R, R + "\n        let _indexed = self.is_indexed(name);")), ISI)
ok("is indexed helper", (RDB, '''    fn edges_with_property(&'a self, name: Identifier) -> Result<Option<DynIter<'a, Edge>>> {
        if self.indexed_properties.read().unwrap().contains(&name) {''', '''    fn edges_with_property(&'a self, name: Identifier) -> Result<Option<DynIter<'a, Edge>>> {
        if self.is_indexed(name) {'''), ISI)
bad("C40", "guard in the scrutinee", (RDB, '''    fn edges_with_property(&'a self, name: Identifier) -> Result<Option<DynIter<'a, Edge>>> {
        if self.indexed_properties.read().unwrap().contains(&name) {''', '''    fn edges_with_property(&'a self, name: Identifier) -> Result<Option<DynIter<'a, Edge>>> {
        if let Some(name) = self.indexed_properties.read().unwrap().get(&name).copied().filter(|n| self.is_indexed(*n)) {'''), ISI)
bad("C40", "host: join under the lock", (HOST, '''    pool.join();

    let mut first_err = first_err.lock().unwrap();
''', '''    let mut first_err = first_err.lock().unwrap();
    pool.join();

'''))
ok("host: lock released before the join", (HOST, '''    pool.join();

''', '''    let failed = first_err.lock().unwrap().is_some();
    let _ = failed;
    pool.join();

'''))
bad("C40", "client: await under the lock", (CLI, '''        self.0.bulk_insert(Request::new(ReceiverStream::new(rx))).await?;

        let mut last_err = last_err.lock().unwrap();
''', '''        let mut last_err = last_err.lock().unwrap();
        self.0.bulk_insert(Request::new(ReceiverStream::new(rx))).await?;

'''))
bad("C40", "server: sync in the transaction", (SRV, '''                plugin
                    .call(&mut txn, arg)
                    .map_err(|err| Status::internal(format!("{err}")))
''', '''                let result = plugin.call(&mut txn, arg);
                if result.is_err() {
                    let _ = db.sync();
                }
                result.map_err(|err| Status::internal(format!("{err}")))
'''))
bad("C40", "database: nested transaction", (DBF, '''            QueryOutputValue::Count(_) => return Err(Error::OperationOnQuery),
        }
        Ok(())
''', '''            QueryOutputValue::Count(n) if n == u64::MAX => self.sync()?,
            QueryOutputValue::Count(_) => return Err(Error::OperationOnQuery),
        }
        Ok(())
'''))
