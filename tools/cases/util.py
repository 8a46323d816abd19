U = 'lib/src/util.rs'
NX = '''    let mut bytes = *uuid.as_bytes();

    for i in (0..16).rev() {
        if bytes[i] < 255 {
            bytes[i] += 1;
            return Ok(Uuid::from_slice(&bytes[..]).unwrap());
        } else {
            bytes[i] = 0;
        }
    }

    Err(ValidationError::CannotIncrementUuid)
'''
EV = '''    if let Some(models::QueryOutputValue::Vertices(vertices)) = output.pop() {
        Some(vertices)
    } else {
        None
    }
'''
CASES = [
    ('not reset', 'bug', [(U, NX, NX.replace('bytes[i] = 0;', '{}'))]),
    ('254', 'bug', [(U, NX, NX.replace('< 255', '< 254'))]),
    ('range 1', 'bug', [(U, NX, NX.replace('(0..16)', '(1..16)'))]),
    ('forward', 'bug', [(U, NX, NX.replace('(0..16).rev()', '0..16'))]),
    ('low half', 'bug', [(U, NX, NX.replace('(0..16).rev()', '(8..16).rev().chain((0..8).rev().skip(1))'))]),
    ('wraps', 'bug', [(U, NX, NX.replace('Err(ValidationError::CannotIncrementUuid)', 'Ok(Uuid::nil())'))]),
    ('first', 'bug', [(U, EV, EV.replace('output.pop()', 'output.into_iter().next()').replace('(mut output', '(output')), (U, 'pub fn extract_vertices(mut output', 'pub fn extract_vertices(output')]),
    ('find', 'bug', [(U, EV, '''    while let Some(value) = output.pop() {
        if let models::QueryOutputValue::Vertices(vertices) = value {
            return Some(vertices);
        }
    }
    None
''')]),
    ('only one', 'bug', [(U, EV, '    if output.len() > 1 {\n        return None;\n    }\n' + EV)]),
    ('u128', 'ok', [(U, NX, '''    match uuid.as_u128().checked_add(1) {
        Some(next) => Ok(Uuid::from_u128(next)),
        None => Err(ValidationError::CannotIncrementUuid),
    }
''')]),
    ('u128 ok_or', 'ok', [(U, NX, '''    uuid.as_u128()
        .checked_add(1)
        .map(Uuid::from_u128)
        .ok_or(ValidationError::CannotIncrementUuid)
''')]),
    ('iter_mut', 'ok', [(U, NX, '''    let mut bytes = uuid.into_bytes();
    for byte in bytes.iter_mut().rev() {
        let (next, overflow) = byte.overflowing_add(1);
        *byte = next;
        if !overflow {
            return Ok(Uuid::from_bytes(bytes));
        }
    }
    Err(ValidationError::CannotIncrementUuid)
''')]),
    ('rposition', 'ok', [(U, NX, '''    let mut bytes = *uuid.as_bytes();
    let Some(i) = bytes.iter().rposition(|&b| b != u8::MAX) else {
        return Err(ValidationError::CannotIncrementUuid);
    };
    bytes[i] += 1;
    for b in &mut bytes[i + 1..] {
        *b = 0;
    }
    Ok(Uuid::from_bytes(bytes))
''')]),
    ('while', 'ok', [(U, NX, '''    let mut bytes = *uuid.as_bytes();
    let mut i = bytes.len();
    while i > 0 {
        i -= 1;
        if bytes[i] == 255 {
            bytes[i] = 0;
            continue;
        }
        bytes[i] += 1;
        return Ok(Uuid::from_bytes(bytes));
    }
    Err(ValidationError::CannotIncrementUuid)
''')]),
    ('match', 'ok', [(U, EV, '''    match output.pop()? {
        models::QueryOutputValue::Vertices(vertices) => Some(vertices),
        _ => None,
    }
''')]),
    ('last', 'ok', [(U, EV, '''    output.into_iter().last().and_then(|value| match value {
        models::QueryOutputValue::Vertices(vertices) => Some(vertices),
        _ => None,
    })
'''), (U, 'pub fn extract_vertices(mut output', 'pub fn extract_vertices(output')]),
]
CASES = [(a, b, c, ['C34']) for a, b, c in CASES]
