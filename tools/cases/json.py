J = 'lib/src/models/json.rs'
OBJ = '''                match v1_key.partial_cmp(v2_key) {
                    Some(Ordering::Equal) => partial_cmp(v1_value, v2_value),
                    non_eq => non_eq,
                }
'''
HOBJ = '''            for (sk, sv) in v {
                sk.hash(state);
                hash(sv, state);
            }
'''
HARR = '''            for sv in v {
                hash(sv, state);
            }
'''
HNUM = '''            if v.is_i64() {
                v.as_i64().unwrap().hash(state);
            } else if v.is_u64() {
                v.as_u64().unwrap().hash(state);
            } else {
                // Note that there are 16m different NaN values, and they won't hash the same here
                v.as_f64().unwrap().to_bits().hash(state);
            }
'''
UI = '''                    match u64::try_from(v2.as_i64().unwrap()) {
                        Ok(v2) => v1.partial_cmp(&v2),
                        Err(_) => Some(Ordering::Greater),
                    }
'''
BY = '''    loop {
        let x = match first.next() {
            None => {
                if second.next().is_none() {
                    return Some(Ordering::Equal);
                } else {
                    return Some(Ordering::Less);
                }
            }
            Some(val) => val,
        };

        let y = match second.next() {
            None => return Some(Ordering::Greater),
            Some(val) => val,
        };

        match f(x, y) {
            Some(Ordering::Equal) => (),
            non_eq => return non_eq,
        }
    }
'''
CASES = [
    ('big less', 'bug', [(J, 'Err(_) => Some(Ordering::Less)', 'Err(_) => Some(Ordering::Greater)')]),
    ('u64 as i64', 'bug', [(J, UI, '                    (v1 as i64).partial_cmp(&v2.as_i64().unwrap())\n')]),
    ('floats as ints', 'bug', [(J, '(v1 as f64).partial_cmp(&v2.as_f64().unwrap())', 'v1.partial_cmp(&(v2.as_f64().unwrap() as i64))')]),
    ('total order', 'bug', [(J, '                    v1.partial_cmp(&v2.as_f64().unwrap())\n                }\n            }\n        }', '                    Some(v1.total_cmp(&v2.as_f64().unwrap()))\n                }\n            }\n        }')]),
    ('object keys ignored', 'bug', [(J, OBJ, '                let _ = (v1_key, v2_key);\n                partial_cmp(v1_value, v2_value)\n')]),
    ('object values first', 'bug', [(J, OBJ, '''                match partial_cmp(v1_value, v2_value) {
                    Some(Ordering::Equal) => v1_key.partial_cmp(v2_key),
                    non_eq => non_eq,
                }
''')]),
    ('incomparable equal', 'bug', [(J, OBJ, OBJ.replace('partial_cmp(v1_value, v2_value),', 'partial_cmp(v1_value, v2_value).or(Some(Ordering::Equal)),'))]),
    ('prefix equal', 'bug', [(J, BY, BY.replace('None => return Some(Ordering::Greater)', 'None => return Some(Ordering::Equal)'))]),
    ('prefix not less', 'bug', [(J, BY, BY.replace('return Some(Ordering::Less)', 'return Some(Ordering::Equal)'))]),
    ('kinds ordered', 'bug', [(J, '        _ => None,\n    }\n}\n\nfn partial_cmp_by', '        (serde_json::Value::Null, _) => Some(Ordering::Less),\n        _ => None,\n    }\n}\n\nfn partial_cmp_by')]),
    ('null equals empty', 'bug', [(J, '        _ => None,\n    }\n}\n\nfn partial_cmp_by', '        (serde_json::Value::Null, serde_json::Value::Array(v)) if v.is_empty() => Some(Ordering::Equal),\n        _ => None,\n    }\n}\n\nfn partial_cmp_by')]),
    ('hash tag shared', 'bug', [(J, 'state.write_u8(5);', 'state.write_u8(4);')]),
    ('hash no key', 'bug', [(J, HOBJ, HOBJ.replace('sk.hash(state);', 'let _ = sk;'))]),
    ('hash first only', 'bug', [(J, HARR, '            if let Some(sv) = v.first() {\n                hash(sv, state);\n            }\n')]),
    ('hash one not empty', 'bug', [(J, HARR, '            if v.len() < 2 {\n                return;\n            }\n' + HARR)]),
    ('hash as f64', 'bug', [(J, 'v.as_i64().unwrap().hash(state);', 'v.as_f64().unwrap().to_bits().hash(state);')]),
    ('hash text', 'bug', [(J, 'v.as_u64().unwrap().hash(state);', 'v.to_string().hash(state);')]),
    ('hash len', 'bug', [(J, 'state.write_u8(4);', 'state.write_u8(4);\n            state.write_usize(v.len());')]),
    ('hash bool tag', 'bug', [(J, '            v.hash(state);\n        }\n        serde_json::Value::Number', '            let _ = v;\n        }\n        serde_json::Value::Number')]),
    ('eq by value', 'bug', [(J, 'self.partial_cmp(other) == Some(Ordering::Equal)', '*self.0 == *other.0')]),
    ('eq not less', 'bug', [(J, 'self.partial_cmp(other) == Some(Ordering::Equal)', '!matches!(self.partial_cmp(other), Some(Ordering::Less | Ordering::Greater))')]),
    ('new null', 'bug', [(J, '''    pub fn new(value: serde_json::Value) -> Self {
        Self(''', '''    pub fn new(value: serde_json::Value) -> Self {
        let value = if value.is_f64() { serde_json::Value::Null } else { value };
        Self(''')]),
    ('cmp match', 'ok', [(J, 'self.partial_cmp(other) == Some(Ordering::Equal)', 'matches!(self.partial_cmp(other), Some(Ordering::Equal))')]),
    ('cmp is_some_and', 'ok', [(J, 'self.partial_cmp(other) == Some(Ordering::Equal)', 'self.partial_cmp(other).is_some_and(|o| o.is_eq())')]),
    ('by while', 'ok', [(J, BY, '''    loop {
        match (first.next(), second.next()) {
            (None, None) => return Some(Ordering::Equal),
            (None, Some(_)) => return Some(Ordering::Less),
            (Some(_), None) => return Some(Ordering::Greater),
            (Some(x), Some(y)) => {
                let order = f(x, y);
                if order != Some(Ordering::Equal) {
                    return order;
                }
            }
        }
    }
''')]),
    ('by if let', 'ok', [(J, BY, '''    while let Some(x) = first.next() {
        let Some(y) = second.next() else {
            return Some(Ordering::Greater);
        };
        let order = f(x, y)?;
        if order.is_ne() {
            return Some(order);
        }
    }
    Some(if second.next().is_some() { Ordering::Less } else { Ordering::Equal })
''')]),
    ('object then', 'ok', [(J, OBJ, '''                let order = v1_key.cmp(v2_key);
                if order != Ordering::Equal {
                    Some(order)
                } else {
                    partial_cmp(v1_value, v2_value)
                }
''')]),
    ('object tuple pattern', 'ok', [(J, '''|v1, v2| {
                let (v1_key, v1_value) = v1;
                let (v2_key, v2_value) = v2;
''', '|(v1_key, v1_value), (v2_key, v2_value)| {\n')]),
    ('number i128', 'ok', [(J, UI, '                    i128::from(v1).partial_cmp(&i128::from(v2.as_i64().unwrap()))\n')]),
    ('number helper', 'ok', [(J, '''                if v2.is_i64() {
                    v1.partial_cmp(&v2.as_i64().unwrap())
                } else if v2.is_u64() {
                    match i64::try_from(v2.as_u64().unwrap()) {
                        Ok(v2) => v1.partial_cmp(&v2),
                        Err(_) => Some(Ordering::Less),
                    }
                } else {
''', '''                if let Some(v2) = v2.as_i64() {
                    Some(v1.cmp(&v2))
                } else if v2.is_u64() {
                    Some(Ordering::Less)
                } else {
''')]),
    ('hash if let', 'ok', [(J, HNUM, '''            if let Some(v) = v.as_i64() {
                v.hash(state);
            } else if let Some(v) = v.as_u64() {
                v.hash(state);
            } else {
                state.write_u64(v.as_f64().unwrap().to_bits());
            }
''')]),
    ('hash for_each', 'ok', [(J, HARR, '            v.iter().for_each(|sv| hash(sv, state));\n')]),
    ('hash while', 'ok', [(J, HARR, '            let mut i = 0;\n            while i < v.len() {\n                hash(&v[i], state);\n                i += 1;\n            }\n')]),
    ('hash map', 'ok', [(J, HOBJ, '            for entry in v.iter() {\n                entry.0.hash(state);\n                hash(entry.1, state);\n            }\n')]),
    ('hash bool u8', 'ok', [(J, '            v.hash(state);\n        }\n        serde_json::Value::Number', '            state.write_u8(u8::from(*v));\n        }\n        serde_json::Value::Number')]),
    ('hash tag var', 'ok', [(J, '            state.write_u8(3);\n            v.hash(state);', '            3u8.hash(state);\n            v.as_str().hash(state);')]),
    ('from new', 'ok', [(J, '''    fn from(value: serde_json::Value) -> Self {
        Self(Arc::new(value))
''', '''    fn from(value: serde_json::Value) -> Self {
        Arc::new(value).into()
''')]),
]
CASES = [(a, b, c, ['C21']) for a, b, c in CASES]
