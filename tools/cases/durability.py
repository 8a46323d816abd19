MEM, RDB, MGR, DBF = 'lib/src/memory/datastore.rs', 'lib/src/rdb/datastore.rs', 'lib/src/rdb/managers.rs', 'lib/src/database.rs'
P=['C07','C08','C09','C20','C27']
SYNC='''            temp_path
                .as_file()
                .sync_all()
                .map_err(|err| Error::Datastore(Box::new(err)))?;
'''
FL='''                buf.flush().map_err(|err| Error::Datastore(Box::new(err)))?;
'''
CREATE='''                for cf_name in &CF_NAMES {
                    db.create_cf(cf_name, &opts)?;
                }
'''
CASES=[
('no sync','bug',[(MEM,SYNC,'')],P),
('sync before write','bug',[(MEM,SYNC,''),(MEM,'''            {
                let mut buf''',SYNC+'''            {
                let mut buf''')],P),
('no flush','bug',[(MEM,FL,'')],P),
('temp new','bug',[(MEM,'NamedTempFile::new_in(dir)','NamedTempFile::new()')],P),
('noclobber','bug',[(MEM,'.persist(persist_path)','.persist_noclobber(persist_path)')],P),
('remove first','bug',[(MEM,SYNC,SYNC+'''            if persist_path.exists() { std::fs::remove_file(persist_path).map_err(|err| Error::Datastore(Box::new(err)))?; }
''')],P),
('cond persist','bug',[(MEM,SYNC,SYNC+'''            if self.internal.vertices.is_empty() { return Ok(()); }
''')],P),
('in place','bug',[(MEM,'''            temp_path
                .persist(persist_path)
                .map_err(|err| Error::Datastore(Box::new(err)))?;
''','''            std::fs::copy(temp_path.path(), persist_path).map_err(|err| Error::Datastore(Box::new(err)))?;
''')],P),
('part of state','bug',[(MEM,'rmp_serde::encode::write(&mut buf, &*self.internal)?','rmp_serde::encode::write(&mut buf, &self.internal.vertices)?')],P),
('skip field','bug',[(MEM,'''    vertex_properties: BTreeMap<(Uuid''','''    #[serde(skip)]
    vertex_properties: BTreeMap<(Uuid''')],P),
('skip if','bug',[(MEM,'''    edge_properties: BTreeMap<(Edge''','''    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    edge_properties: BTreeMap<(Edge''')],P),
('skip des','bug',[(MEM,'''    reversed_edges: BTreeSet<Edge''','''    #[serde(skip_deserializing)]
    reversed_edges: BTreeSet<Edge''')],P),
('path dropped','bug',[(MEM,'path: Some(path),','path: None,')],P),
('read default','bug',[(MEM,'let internal: InternalMemory = rmp_serde::from_read(buf)?;','let mut internal: InternalMemory = rmp_serde::from_read(buf)?; internal.property_values.clear();')],P),
('compact partial','bug',[(RDB,'''        self.edge_property_manager.compact();
        self.vertex_property_value''','''        self.vertex_property_value''')],P),
('compact range','bug',[(MGR,'''compact_range_cf(&self.cf, Option::<&[u8]>::None, Option::<&[u8]>::None)''','''compact_range_cf(&self.cf, Option::<&[u8]>::None, Some(&[0xffu8; 4][..]))''')],P),
('names missing','bug',[(RDB,'''    "metadata:v2",
];''','''];'''),(RDB,'[&str; 8]','[&str; 7]')],P),
('options: other names','bug',[(RDB,'''        let db = match DB::open_cf(opts, path, CF_NAMES) {''','''        let db = match DB::open_cf(opts, path, &CF_NAMES[..7]) {''')],P),
('options: not all created','bug',[(RDB,'''                for cf_name in &CF_NAMES {
                    db.create_cf(cf_name, opts)?;
                }''','''                for cf_name in CF_NAMES.iter().skip(1) {
                    db.create_cf(cf_name, opts)?;
                }''')],P),
('same cf twice','bug',[(RDB,'ReversedEdgeRangeManager','X')] if 0 else [(MGR,'''"reversed_edge_ranges:v2"''','''"edge_ranges:v2"''')],P),
('no registration options','bug',[(RDB,'''        let metadata_manager = MetadataManager::new(&db);
        let indexed_properties = metadata_manager.get_indexed_properties()?;

        Ok(Database::new(RocksdbDatastore {
            db: Arc::new(db),
            indexed_properties: Arc::new(RwLock::new(indexed_properties)),
        }))
    }

    /// Runs''','''        Ok(Database::new(RocksdbDatastore {
            db: Arc::new(db),
            indexed_properties: Arc::new(RwLock::new(HashSet::new())),
        }))
    }

    /// Runs''')],P),
# behaviour preserving
('fs rename','same',[(MEM,'''            let temp_path = NamedTempFile::new_in(dir).map_err(|err| Error::Datastore(Box::new(err)))?;
''','''            let _ = dir;
            let tmp = persist_path.with_extension("tmp");
            let file = File::create(&tmp).map_err(|err| Error::Datastore(Box::new(err)))?;
'''),(MEM,'BufWriter::new(temp_path.as_file())','BufWriter::new(&file)'),(MEM,SYNC,'''            file.sync_all().map_err(|err| Error::Datastore(Box::new(err)))?;
'''),(MEM,'''            temp_path
                .persist(persist_path)
                .map_err(|err| Error::Datastore(Box::new(err)))?;
''','''            std::fs::rename(&tmp, persist_path).map_err(|err| Error::Datastore(Box::new(err)))?;
''')],[]),
('to_vec','same',[(MEM,'''                rmp_serde::encode::write(&mut buf, &*self.internal)?;
''','''                let bytes = rmp_serde::to_vec(&*self.internal)?;
                buf.write_all(&bytes).map_err(|err| Error::Datastore(Box::new(err)))?;
''')],[]),
('into_inner','same',[(MEM,FL,'''                buf.into_inner().map_err(|err| Error::Datastore(Box::new(err.into_error())))?;
''')],[]),
('helper','same',[(MEM,SYNC,'''            sync_file(temp_path.as_file())?;
'''),(MEM,'''pub struct MemoryTransaction''','''fn sync_file(f: &File) -> Result<()> {
    f.sync_all().map_err(|err| Error::Datastore(Box::new(err)))
}

pub struct MemoryTransaction''')],[]),
('early return','same',[(MEM,'''        if let Some(ref persist_path) = self.path {
            // The''','''        let persist_path = match &self.path {
            None => return Ok(()),
            Some(p) => p,
        };
        {
            // The''')],[]),
('dir map','same',[(MEM,'''            let dir = match persist_path.parent() {
                Some(dir) if !dir.as_os_str().is_empty() => dir,
                _ => Path::new("."),
            };
''','''            let dir = persist_path
                .parent()
                .filter(|dir| !dir.as_os_str().is_empty())
                .unwrap_or_else(|| Path::new("."));
''')],[]),
('open slice','same',[(RDB,'''        let db = match DB::open_cf(opts, path, CF_NAMES) {''','''        let db = match DB::open_cf(opts, path, CF_NAMES.iter()) {''')],[]),
('open helper','same',[(RDB,'''        let db = match DB::open_cf(opts, path, CF_NAMES) {
            Ok(db) => db,
            Err(_) => {
                let mut db = DB::open(opts, path)?;

                for cf_name in &CF_NAMES {
                    db.create_cf(cf_name, opts)?;
                }

                db
            }
        };
''','''        let db = open_or_create(opts, path)?;
'''),(RDB,'''impl RocksdbDatastore {''','''fn open_or_create(opts: &Options, path: &Path) -> Result<DB> {
    if let Ok(db) = DB::open_cf(opts, path, CF_NAMES) {
        return Ok(db);
    }
    let mut db = DB::open(opts, path)?;
    for i in 0..CF_NAMES.len() {
        db.create_cf(CF_NAMES[i], opts)?;
    }
    Ok(db)
}

impl RocksdbDatastore {''')],[]),
('new_db via options','same',[(RDB,'''        let opts = RocksdbDatastore::get_options(None);
        let path = path.as_ref();

        let db = match DB::open_cf(&opts, path, CF_NAMES) {
            Ok(db) => db,
            Err(_) => {
                let mut db = DB::open(&opts, path)?;

                for cf_name in &CF_NAMES {
                    db.create_cf(cf_name, &opts)?;
                }

                db
            }
        };

        let metadata_manager = MetadataManager::new(&db);
        let indexed_properties = metadata_manager.get_indexed_properties()?;

        Ok(Database::new(RocksdbDatastore {
            db: Arc::new(db),
            indexed_properties: Arc::new(RwLock::new(indexed_properties)),
        }))
''','''        Self::new_db_with_options(path, &Self::get_options(None))
''')],[]),
('sync loop','same',[(RDB,'''        self.vertex_manager.compact();
        self.edge_range_manager.compact();
        self.reversed_edge_range_manager.compact();
        self.vertex_property_manager.compact();
        self.edge_property_manager.compact();
        self.vertex_property_value_manager.compact();
        self.edge_property_value_manager.compact();
        self.metadata_manager.compact();
''','''        for name in CF_NAMES {
            let cf = self.db.cf_handle(name).unwrap();
            self.db.compact_range_cf(cf, Option::<&[u8]>::None, Option::<&[u8]>::None);
        }
''')],[]),
('cf consts','same',[(MGR,'''"reversed_edge_ranges:v2"''','''REV_CF'''),(MGR,'''pub type OwnedPropertyItem''','''const REV_CF: &str = "reversed_edge_ranges:v2";
pub type OwnedPropertyItem''')],[]),
('read file via fs::read','same',[(MEM,'''        let f = File::open(&path).map_err(RmpDecodeError::InvalidDataRead)?;
        let buf = BufReader::new(f);
        let internal: InternalMemory = rmp_serde::from_read(buf)?;
''','''        let bytes = std::fs::read(&path).map_err(RmpDecodeError::InvalidDataRead)?;
        let internal: InternalMemory = rmp_serde::from_slice(&bytes)?;
''')],[]),
]
