I = 'lib/src/models/identifiers.rs'
NEW = '''        if s.len() > 255 {
            Err(ValidationError::ValueTooLong)
        } else if !s.chars().all(|c| c == '-' || c == '_' || c.is_alphanumeric()) {
            Err(ValidationError::InvalidValue)
        } else {
            Ok(Self(Intern::new(s)))
        }
'''
LEN = 'if s.len() > 255'
ALL = "!s.chars().all(|c| c == '-' || c == '_' || c.is_alphanumeric())"
DE = 'Identifier::new(v).map_err(serde::de::Error::custom)'
CONV = 'Ok(indradb::Identifier::new(self.value)?)'
CASES = [
    ('chars count', 'bug', [(I, LEN, 'if s.chars().count() > 255')]),
    ('limit 256', 'bug', [(I, LEN, 'if s.len() > 256')]),
    ('limit 254', 'bug', [(I, LEN, 'if s.len() >= 255')]),
    ('no limit', 'bug', [(I, LEN, 'if s.len() > 65535')]),
    ('len before trim', 'bug', [(I, 'let s = s.into();', 'let s: String = s.into();\n        let s = s.trim().to_string();')]),
    ('lowercase', 'bug', [(I, 'let s = s.into();', 'let s: String = s.into();\n        let s = s.to_lowercase();')]),
    ('ascii only', 'bug', [(I, 'c.is_alphanumeric()', 'c.is_ascii_alphanumeric()')]),
    ('alphabetic or ascii digit', 'bug', [(I, 'c.is_alphanumeric()', 'c.is_alphabetic() || c.is_ascii_digit()')]),
    ('dots allowed', 'bug', [(I, "c == '_' ||", "c == '_' || c == '.' ||")]),
    ('no dash', 'bug', [(I, "c == '-' || c == '_' ||", "c == '_' ||")]),
    ('any', 'bug', [(I, ALL, "!s.is_empty() && !s.chars().any(|c| c == '-' || c == '_' || c.is_alphanumeric())")]),
    ('first only', 'bug', [(I, ALL, "!s.chars().take(1).all(|c| c == '-' || c == '_' || c.is_alphanumeric())")]),
    ('skip first', 'bug', [(I, ALL, "!s.chars().skip(1).all(|c| c == '-' || c == '_' || c.is_alphanumeric())")]),
    ('not control', 'bug', [(I, ALL, "s.chars().any(|c| c.is_control() || c.is_ascii_punctuation() && c != '-' && c != '_')")]),
    ('refuse empty', 'bug', [(I, LEN, 'if s.is_empty() {\n            Err(ValidationError::InvalidValue)\n        } else if s.len() > 255')]),
    ('deserialize unchecked', 'bug', [(I, DE, 'Ok(unsafe { Identifier::new_unchecked(v) })')]),
    ('deserialize trims', 'bug', [(I, DE, 'Identifier::new(v.trim()).map_err(serde::de::Error::custom)')]),
    ('from_str lower', 'bug', [(I, 'Self::new(s.to_string())', 'Self::new(s.to_lowercase())')]),
    ('as_ref impl unchecked', 'bug', [(I, 'impl Deref for Identifier {', 'impl From<&Identifier> for Identifier {\n    fn from(i: &Identifier) -> Self {\n        Self(Intern::new(i.0.replace("-", ".")))\n    }\n}\n\nimpl Deref for Identifier {')]),
    ('converter unchecked', 'bug', [('proto/src/converters.rs', CONV, 'Ok(unsafe { indradb::Identifier::new_unchecked(self.value) })')]),
    ('server unchecked', 'bug', [('proto/src/converters.rs', CONV, 'if self.value.len() > 255 { return Ok(indradb::Identifier::new(self.value)?); }\n        Ok(unsafe { indradb::Identifier::new_unchecked(self.value) })')]),
    ('early returns', 'ok', [(I, NEW, '''        if s.len() >= 256 {
            return Err(ValidationError::ValueTooLong);
        }
        if s.chars().any(|c| !(c == '-' || c == '_' || c.is_alphanumeric())) {
            return Err(ValidationError::InvalidValue);
        }
        Ok(Self(Intern::new(s)))
''')]),
    ('loop', 'ok', [(I, NEW, '''        if s.as_bytes().len() > 255 {
            return Err(ValidationError::ValueTooLong);
        }
        for c in s.chars() {
            if !matches!(c, '-' | '_') && !c.is_alphanumeric() {
                return Err(ValidationError::InvalidValue);
            }
        }
        Ok(Identifier(Intern::from(s)))
''')]),
    ('helper', 'ok', [(I, "impl Default for Identifier", '''fn allowed(c: char) -> bool {
    match c {
        '-' | '_' => true,
        c => c.is_alphabetic() || c.is_numeric(),
    }
}

const MAX: usize = 255;

impl Default for Identifier'''), (I, ALL, '!s.chars().all(allowed)'), (I, LEN, 'if MAX < s.len()')]),
    ('find', 'ok', [(I, NEW, '''        match s.len() {
            0..=255 => match s.chars().find(|&c| c != '-' && c != '_' && !c.is_alphanumeric()) {
                Some(_) => Err(ValidationError::InvalidValue),
                None => Ok(Self(Intern::new(s))),
            },
            _ => Err(ValidationError::ValueTooLong),
        }
''')]),
    ('str contains', 'ok', [(I, ALL, "s.contains(|c: char| c != '-' && c != '_' && !c.is_alphanumeric())")]),
    ('unchecked after', 'ok', [(I, 'Ok(Self(Intern::new(s)))\n        }\n', 'Ok(unsafe { Self::new_unchecked(s) })\n        }\n')]),
    ('validate fn', 'ok', [(I, NEW, '''        Self::validate(&s)?;
        Ok(Self(Intern::new(s)))
'''), (I, 'impl Default for Identifier', '''impl Identifier {
    fn validate(s: &str) -> ValidationResult<()> {
        if s.len() > 255 {
            Err(ValidationError::ValueTooLong)
        } else if !s.chars().all(|c| c == '-' || c == '_' || c.is_alphanumeric()) {
            Err(ValidationError::InvalidValue)
        } else {
            Ok(())
        }
    }
}

impl Default for Identifier''')]),
    ('position', 'ok', [(I, ALL, "s.chars().position(|c| !(c == '-' || c == '_' || c.is_alphanumeric())).is_some()")]),
    ('filter count', 'ok', [(I, ALL, "s.chars().filter(|c| !(*c == '-' || *c == '_' || c.is_alphanumeric())).count() > 0")]),
    ('deserialize parse', 'ok', [(I, DE, 'v.parse().map_err(serde::de::Error::custom)')]),
    ('deserialize match', 'ok', [(I, DE, 'match Identifier::try_from(v) {\n            Ok(i) => Ok(i),\n            Err(e) => Err(serde::de::Error::custom(e)),\n        }')]),
    ('serialize str', 'ok', [(I, '(*self.0).serialize(serializer)', 'serializer.serialize_str(&self.0)')]),
    ('serialize as_str', 'ok', [(I, '(*self.0).serialize(serializer)', 'self.as_str().serialize(serializer)')]),
    ('converter try_from', 'ok', [('proto/src/converters.rs', CONV, 'let value = self.value;\n        let id = value.parse::<indradb::Identifier>()?;\n        Ok(id)')]),
]
CASES = [(a, b, c, ['C18']) for a, b, c in CASES]
