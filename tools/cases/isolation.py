M, D = "lib/src/memory/datastore.rs", "lib/src/database.rs"
CASES = [
    ("delete via get", "bug", [(D, """    pub fn delete<Q: Into<Query>>(&self, q: Q) -> Result<()> {
        let q = q.into();
        let mut txn = self.datastore.transaction();
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(&txn as *const D::Transaction<'_>, &q, &mut output)?;
        }
""", """    pub fn delete<Q: Into<Query>>(&self, q: Q) -> Result<()> {
        let mut output = self.get(q)?;
        let mut txn = self.datastore.transaction();
""")], ["C36", "C13"]),
    ("set via get", "bug", [(D, """        let q = q.into();
        let mut txn = self.datastore.transaction();
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(&txn as *const D::Transaction<'_>, &q, &mut output)?;
        }

        match output.pop().unwrap() {
            QueryOutputValue::Vertices(vertices) => {
                txn.set""", """        let mut output = self.get(q)?;
        let mut txn = self.datastore.transaction();

        match output.pop().unwrap() {
            QueryOutputValue::Vertices(vertices) => {
                txn.set""")], ["C36"]),
    ("clone copies", "bug", [(M, "#[derive(Debug, Clone)]\npub struct MemoryDatastore", "#[derive(Debug)]\npub struct MemoryDatastore"),
        (M, "#[derive(Eq, PartialEq, Hash, Ser", "#[derive(Clone, Eq, PartialEq, Hash, Ser"), (M, "#[derive(Debug, Default, Serialize", "#[derive(Debug, Default, Clone, Serialize"),
        (M, "impl Datastore for MemoryDatastore {", """impl Clone for MemoryDatastore {
    fn clone(&self) -> Self {
        MemoryDatastore { internal: Arc::new(Mutex::new(self.internal.lock().unwrap().clone())), path: self.path.clone() }
    }
}
impl Datastore for MemoryDatastore {""")], ["C36"]),
    ("clone helper copies", "bug", [(M, "#[derive(Debug, Clone)]\npub struct MemoryDatastore", "#[derive(Debug)]\npub struct MemoryDatastore"),
        (M, "#[derive(Eq, PartialEq, Hash, Ser", "#[derive(Clone, Eq, PartialEq, Hash, Ser"), (M, "#[derive(Debug, Default, Serialize", "#[derive(Debug, Default, Clone, Serialize"),
        (M, "impl Datastore for MemoryDatastore {", """fn wrap(m: InternalMemory) -> Arc<Mutex<InternalMemory>> {
    Arc::new(Mutex::new(m))
}
impl Clone for MemoryDatastore {
    fn clone(&self) -> Self {
        MemoryDatastore { internal: wrap(self.internal.lock().unwrap().clone()), path: self.path.clone() }
    }
}
impl Datastore for MemoryDatastore {""")], ["C36"]),
    ("clone by hand", "ok", [(M, "#[derive(Debug, Clone)]\npub struct MemoryDatastore", "#[derive(Debug)]\npub struct MemoryDatastore"),
        (M, "impl Datastore for MemoryDatastore {", """impl Clone for MemoryDatastore {
    fn clone(&self) -> Self {
        MemoryDatastore { internal: Arc::clone(&self.internal), path: self.path.clone() }
    }
}
impl Datastore for MemoryDatastore {""")], []),
    ("new helper", "ok", [(M, """        Database::new(MemoryDatastore {
            internal: Arc::new(Mutex::new(InternalMemory::default())),
            path: None,
        })""", """        Self::with_state(InternalMemory::default(), None)"""),
        (M, """        Ok(Database::new(MemoryDatastore {
            internal: Arc::new(Mutex::new(internal)),
            path: Some(path),
        }))
    }
""", """        Ok(Self::with_state(internal, Some(path)))
    }

    fn with_state(state: InternalMemory, path: Option<PathBuf>) -> Database<MemoryDatastore> {
        Database::new(MemoryDatastore { internal: Arc::new(Mutex::new(state)), path })
    }
""")], []),
    ("rwlock", "ok", [(M, "use std::sync::{Arc, Mutex, MutexGuard};", "use std::sync::{Arc, RwLock, RwLockWriteGuard};"), (M, "MutexGuard<'a, InternalMemory>", "RwLockWriteGuard<'a, InternalMemory>"),
        (M, "Arc<Mutex<InternalMemory>>", "Arc<RwLock<InternalMemory>>"), (M, "Arc::new(Mutex::new(InternalMemory", "Arc::new(RwLock::new(InternalMemory"), (M, "Arc::new(Mutex::new(InternalMemory", "Arc::new(RwLock::new(InternalMemory"),
        (M, "Arc::new(Mutex::new(internal", "Arc::new(RwLock::new(internal"), (M, "self.internal.lock().unwrap()", "self.internal.write().unwrap()")], []),
    ("lock helper", "ok", [(M, "internal: self.internal.lock().unwrap(),", "internal: self.state(),"), (M, """        Database::new(MemoryDatastore {
            internal: Arc::new(Mutex::new(InternalMemory::default())),
            path: None,
        })
    }
""", """        Database::new(MemoryDatastore {
            internal: Arc::new(Mutex::new(InternalMemory::default())),
            path: None,
        })
    }

    fn state(&self) -> MutexGuard<'_, InternalMemory> {
        self.internal.lock().unwrap()
    }
""")], []),
    ("with_txn", "ok", [(D, """        let mut txn = self.datastore.transaction();
        txn.create_edge(edge)
    }
""", """        self.with(|txn| txn.create_edge(edge))
    }

    fn with<'a, T>(&'a self, f: impl FnOnce(&mut D::Transaction<'a>) -> T) -> T {
        let mut txn = self.datastore.transaction();
        f(&mut txn)
    }
""")], []),
]
