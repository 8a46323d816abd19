L = "lib/src/errors.rs"
C = "proto/src/client.rs"
V = "proto/src/converters.rs"
S = "proto/src/server.rs"
H = "plugins/host/src/errors.rs"
CASES = [
    ("source of Io none", "bug", [(L, "            Error::Io(ref err) => Some(err),\n", "")], ["C37"]),
    ("Io as Datastore", "bug", [(L, "        Error::Io(err)\n", "        Error::Datastore(Box::new(err))\n")], ["C37"]),
    ("json as text", "bug", [(L, "impl From<JsonError> for Error {\n    fn from(err: JsonError) -> Self {\n        Error::Datastore(Box::new(err))", "impl From<JsonError> for Error {\n    fn from(err: JsonError) -> Self {\n        Error::Datastore(err.to_string().into())")], ["C37"]),
    ("rocksdb as unsupported", "bug", [(L, "impl From<RocksDbError> for Error {\n    fn from(err: RocksDbError) -> Self {\n        Error::Datastore(Box::new(err))", "impl From<RocksDbError> for Error {\n    fn from(err: RocksDbError) -> Self {\n        if err.kind() == rocksdb::ErrorKind::NotSupported {\n            return Error::Unsupported;\n        }\n        Error::Datastore(Box::new(err))")], ["C37"]),
    ("message without cause", "bug", [(L, 'write!(f, "error in the underlying datastore: {err}")', '{\n                let _ = err;\n                write!(f, "error in the underlying datastore")\n            }')], ["C37"]),
    ("two messages the same", "bug", [(L, '"value too long"', '"invalid value"')], ["C37"]),
    ("other wording", "ok", [(L, '"value too long"', '"the value is too long"')], ["C37"]),
    ("write_str", "ok", [(L, 'write!(f, "UUID already taken")', 'f.write_str("UUID already taken")')], ["C37"]),
    ("two writes", "ok", [(L, 'write!(f, "I/O error: {err}")', '{\n                write!(f, "I/O error: ")?;\n                write!(f, "{err}")\n            }')], ["C37"]),
    ("fmt of inner", "ok", [(L, 'Error::Invalid(ref err) => write!(f, "{err}")', 'Error::Invalid(ref err) => err.fmt(f)')], ["C37"]),
    ("match self", "ok", [(L, """        match *self {
            Error::Datastore(ref err) => Some(&**err),
            Error::Io(ref err) => Some(err),
            Error::Invalid(ref err) => Some(err),
            _ => None,
        }""", """        match self {
            Error::Datastore(err) => Some(err.as_ref()),
            Error::Io(err) => Some(err),
            Error::Invalid(err) => Some(err),
            Error::UuidTaken | Error::NotIndexed | Error::Unsupported | Error::OperationOnQuery => None,
        }""")], ["C37"]),
    ("into box", "ok", [(L, "impl From<JsonError> for Error {\n    fn from(err: JsonError) -> Self {\n        Error::Datastore(Box::new(err))", "impl From<JsonError> for Error {\n    fn from(err: JsonError) -> Self {\n        Error::Datastore(err.into())")], ["C37"]),
    ("helper", "ok", [(L, "impl From<JsonError> for Error {\n    fn from(err: JsonError) -> Self {\n        Error::Datastore(Box::new(err))", "fn store<E: StdError + Send + Sync + 'static>(err: E) -> Error {\n    Error::Datastore(Box::new(err))\n}\n\nimpl From<JsonError> for Error {\n    fn from(err: JsonError) -> Self {\n        store(err)")], ["C37"]),
    ("client grpc as closed", "bug", [(C, "        ClientError::Grpc { inner: err }", "        if err.code() == tonic::Code::Unavailable {\n            return ClientError::ChannelClosed;\n        }\n        ClientError::Grpc { inner: err }")], ["C37"]),
    ("client source skips a level", "bug", [(C, "            ClientError::Conversion { ref inner } => Some(inner),", "            ClientError::Conversion { ref inner } => inner.source(),")], ["C37"]),
    ("conversion name", "bug", [(V, "\"proto field '{name}' should not be none\"", "\"proto field '{}' should not be none\", name.len()")], ["C37"]),
    ("init mismatch", "bug", [(S, """                    library_path.to_string_lossy(),
                    library_version_info,
                    indradb_version_info""", """                    library_path.to_string_lossy(),
                    library_version_info,
                    library_version_info""")], ["C37"]),
    ("init display path", "ok", [(S, "library_path.to_string_lossy(),", "library_path.display(),")], ["C37"]),
    ("plugin other", "bug", [(H, "        Error::Other(err)", "        Error::InvalidArgument(err.to_string())")], ["C37"]),
    ("plugin inner source", "bug", [(H, "            Error::Other(ref err) => Some(&**err),", "            Error::Other(ref err) => err.source(),")], ["C37"]),
]
