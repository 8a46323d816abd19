U = 'lib/src/util.rs'
M = 'lib/src/rdb/managers.rs'
IDW = '''                cursor.write_all(&[i.0.len() as u8])?;
                cursor.write_all(i.0.as_bytes())
'''
JW = '''                let mut hasher = DefaultHasher::new();
                json.hash(&mut hasher);
                let hash = hasher.finish();
                cursor.write_u64::<BigEndian>(hash)
'''
BUILD = '''    let len = components.iter().fold(0, |len, component| len + component.byte_len());
    let mut cursor: Cursor<Vec<u8>> = Cursor::new(Vec::with_capacity(len));
    for component in components {
        component
            .write(&mut cursor)
            .expect("failed to write bytes to in-memory buffer");
    }

    cursor.into_inner()
'''
RI = '''    let t_len = {
        let mut buf: [u8; 1] = [0; 1];
        cursor.read_exact(&mut buf)?;
        buf[0] as usize
    };

    let mut buf = vec![0u8; t_len];
    cursor.read_exact(&mut buf)?;
    let s = str::from_utf8_unchecked(&buf).to_string();
    Ok(models::Identifier::new_unchecked(s))
'''
RU = '''    let mut buf: [u8; 16] = [0; 16];
    cursor.read_exact(&mut buf)?;
    let uuid = Uuid::from_slice(&buf).unwrap();
    Ok(uuid)
'''
RF = '''    let mut buf = String::new();
    cursor.read_to_string(&mut buf)?;
    Ok(buf)
'''
CASES = [
    ('len wraps', 'bug', [(U, 'i.0.len() as u8', 'i.0.chars().count() as u8')]),
    ('len 7 bit', 'bug', [(U, 'i.0.len() as u8', '(i.0.len() & 127) as u8'), (U, 'buf[0] as usize', 'buf[0] as usize')]),
    ('len plus', 'bug', [(U, 'i.0.len() as u8', 'i.0.len() as u8 + 1')]),
    ('little endian', 'bug', [(U, 'cursor.write_u64::<BigEndian>(hash)', 'cursor.write_u64::<byteorder::LittleEndian>(hash)')]),
    ('both little', 'bug', [(U, 'cursor.write_u64::<BigEndian>(hash)', 'cursor.write_u64::<byteorder::LittleEndian>(hash)'), (U, 'cursor.read_u64::<BigEndian>()', 'cursor.read_u64::<byteorder::LittleEndian>()')]),
    ('random state', 'bug', [(U, 'let mut hasher = DefaultHasher::new();', 'use std::hash::BuildHasher;\n                static S: Lazy<std::collections::hash_map::RandomState> = Lazy::new(Default::default);\n                let mut hasher = S.build_hasher();')]),
    ('hash text', 'bug', [(U, 'json.hash(&mut hasher);', 'json.to_string().hash(&mut hasher);')]),
    ('hash twice', 'bug', [(U, 'json.hash(&mut hasher);', 'json.hash(&mut hasher);\n                json.hash(&mut hasher);')]),
    ('hash 32', 'bug', [(U, 'let hash = hasher.finish();', 'let hash = hasher.finish() as u32 as u64;')]),
    ('uuid le', 'bug', [(U, 'cursor.write_all(uuid.as_bytes())', 'cursor.write_all(&uuid.to_bytes_le())'), (U, 'Uuid::from_slice(&buf).unwrap()', 'Uuid::from_bytes_le(buf)')]),
    ('read uuid le', 'bug', [(U, 'Uuid::from_slice(&buf).unwrap()', 'Uuid::from_bytes_le(buf)')]),
    ('read not exact', 'bug', [(U, RU, RU.replace('cursor.read_exact(&mut buf)?', 'let _ = cursor.read(&mut buf)?'))]),
    ('read uuid 15', 'bug', [(U, RU, RU.replace('read_exact(&mut buf)', 'read_exact(&mut buf[..15])'))]),
    ('ident lossy', 'bug', [(U, 'let s = str::from_utf8_unchecked(&buf).to_string();', 'let s = str::from_utf8_unchecked(&buf).trim().to_string();')]),
    ('string lower', 'bug', [(U, '    cursor.read_to_string(&mut buf)?;\n    Ok(buf)', '    cursor.read_to_string(&mut buf)?;\n    Ok(buf.to_lowercase())')]),
    ('build rev', 'bug', [(U, 'for component in components {\n        component', 'for component in components.iter().rev() {\n        component')]),
    ('build skip last', 'bug', [(U, 'for component in components {\n        component', 'for component in components.iter().take(3) {\n        component')]),
    ('build skip empty', 'bug', [(U, 'for component in components {\n        component', 'for component in components.iter().filter(|c| c.byte_len() > 1) {\n        component')]),
    ('byte_len ident', 'bug', [(U, 't.0.len() + 1', 't.0.len()')]),
    ('write fixed partial', 'bug', [(U, 'cursor.write_all(s.as_bytes())', 'cursor.write_all(&s.as_bytes()[..s.len().min(64)])')]),
    ('string not last', 'bug', [(M, '''        util::build(&[
            util::Component::Uuid(vertex_id),
            util::Component::FixedLengthString(&name.0),
        ])''', '''        util::build(&[
            util::Component::FixedLengthString(&name.0),
            util::Component::Uuid(vertex_id),
        ])''')]),
    ('ident two writes', 'ok', [(U, IDW, '''                let s = i.as_str();
                cursor.write_u8(s.len() as u8)?;
                cursor.write_all(s.as_bytes())
''')]),
    ('ident checked len', 'ok', [(U, IDW, '''                let bytes = i.0.as_bytes();
                let len = u8::try_from(bytes.len()).expect("identifiers are short");
                cursor.write_all(&[len])?;
                cursor.write_all(bytes)?;
                Ok(())
''')]),
    ('json be bytes', 'ok', [(U, JW, '''                let mut hasher = DefaultHasher::default();
                json.hash(&mut hasher);
                cursor.write_all(&hasher.finish().to_be_bytes())
''')]),
    ('json helper', 'ok', [(U, JW, '                cursor.write_u64::<BigEndian>(json_hash(json))\n'), (U, '// Serializes component(s)', '''fn json_hash(json: &models::Json) -> u64 {
    let mut hasher = DefaultHasher::new();
    Hash::hash(json, &mut hasher);
    hasher.finish()
}

// Serializes component(s)''')]),
    ('build vec', 'ok', [(U, BUILD, '''    let len = components.iter().map(Component::byte_len).sum();
    let mut cursor = Cursor::new(Vec::with_capacity(len));
    components
        .iter()
        .try_for_each(|component| component.write(&mut cursor))
        .expect("failed to write bytes to in-memory buffer");
    cursor.into_inner()
''')]),
    ('build while', 'ok', [(U, BUILD, '''    let mut len = 0;
    for component in components.iter() {
        len += component.byte_len();
    }
    let mut cursor = Cursor::new(Vec::with_capacity(len));
    let mut i = 0;
    while i < components.len() {
        if let Err(err) = components[i].write(&mut cursor) {
            panic!("failed to write bytes to in-memory buffer: {err}");
        }
        i += 1;
    }
    cursor.into_inner()
''')]),
    ('match ref self', 'ok', [(U, '''        match *self {
            Component::Uuid(uuid) => cursor''', '''        match self {
            Component::Uuid(uuid) => cursor''')]),
    ('read ident u8', 'ok', [(U, RI, '''    let len = usize::from(cursor.read_u8()?);
    let mut bytes = vec![0; len];
    cursor.read_exact(&mut bytes[..])?;
    Ok(models::Identifier::new_unchecked(String::from_utf8_unchecked(bytes)))
''')]),
    ('read ident checked', 'ok', [(U, RI, RI.replace('str::from_utf8_unchecked(&buf).to_string()', "str::from_utf8(&buf).expect(\"utf-8\").to_owned()"))]),
    ('read uuid bytes', 'ok', [(U, RU, '''    let mut buf = [0u8; 16];
    cursor.read_exact(&mut buf)?;
    Ok(Uuid::from_bytes(buf))
''')]),
    ('read fixed io', 'ok', [(U, RF, '''    let mut buf = Vec::new();
    cursor.read_to_end(&mut buf)?;
    Ok(String::from_utf8(buf).expect("names are UTF-8"))
''')]),
    ('read u64 direct', 'ok', [(U, '''    let i = cursor.read_u64::<BigEndian>()?;
    Ok(i)
''', '''    let mut buf = [0; 8];
    cursor.read_exact(&mut buf)?;
    Ok(u64::from_be_bytes(buf))
''')]),
    ('read u64 map', 'ok', [(U, '''    let i = cursor.read_u64::<BigEndian>()?;
    Ok(i)
''', '''    cursor.read_u64::<BigEndian>().map_err(Into::into)
''')]),
]
CASES = [(a, b, c, ['C19']) for a, b, c in CASES]
