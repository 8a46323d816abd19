FX = "effect extraction: interprocedural provenance dataflow over MIR, path conditions per write, compared with a specification of rows"
p("C01", "Deleting vertices or edges removes exactly what depends on them",
  "After deleting a set of vertices from either datastore, exactly those vertices, their properties, every edge that starts or ends at one of them, those edges' properties and all index entries of these properties are gone. Deleting edges removes exactly those edges in both directions, their properties and index entries. Nothing else changes, whatever was in the datastore before.",
  ["inputs", "histories"], "every content of the datastore and every set of vertices or edges to delete", "The tests delete from graphs of a few vertices and look at a few listings; an orphaned property, reversed edge or index entry only shows with particular shapes (self loops, missing endpoints, several types).",
  [MEM, RDB, MGR], [("cascade of delete_vertices", MEM), ("cascade of the managers' delete functions", MGR)], FX, state=STATE)
p("C02", "Forward and reverse adjacency always agree",
  "In both datastores an edge is in the listing by outbound vertex if and only if it is in the listing by inbound vertex, after any sequence of operations.",
  ["inputs", "histories"], "every sequence of creations, deletions and bulk insertions", "The tests check the two listings after a handful of insertions; a write path that updates only one direction under some condition is not reached.",
  [MEM, RDB, MGR], [("paired updates of edges and reversed edges", MEM), ("EdgeManager / EdgeRangeManager pairs", MGR)], FX + "; pairing of the two tables per condition", state=STATE)
p("C03", "Secondary indexes stay in step with property values",
  "For an indexed property name, the index has an entry for an item and value if and only if that item currently has that value: setting a property replaces the old entry by the new one, and deleting the property or its owner removes the entry, in both datastores.",
  ["inputs", "histories"], "every history of property writes, deletions, cascades and bulk insertions on indexed names", "The tests overwrite and delete a few indexed values; a stale entry appears only on the paths (overwrite, cascade, bulk) and names they do not combine.",
  [MEM, RDB, MGR], [("index maintenance of the property writes", MEM), ("VertexPropertyManager / EdgePropertyManager set and delete", MGR)], FX + "; obligation that each property write carries the index write under the same condition", state=STATE)
p("C04", "Creation has the documented preconditions and reports success truthfully",
  "Creating a vertex stores it and returns true exactly when no vertex has that id, and otherwise changes nothing and returns false. Creating an edge stores it and returns true exactly when both its endpoints exist, and otherwise changes nothing and returns false.",
  ["inputs", "histories"], "every content of the datastore and every vertex or edge", "The tests create one missing-endpoint edge and one duplicate vertex; the other combinations and the second datastore's check may differ.",
  [MEM, RDB, MGR], [("create_vertex / create_edge", MEM), ("create_vertex / create_edge", RDB)], FX + "; return-value conditions", state=STATE)
p("C05", "Each RocksDB change is one atomic write batch",
  "Every mutating operation on the RocksDB datastore puts all its changes into one write batch that is committed once, with the write-ahead log, after the last change was added, so that a crash or error at any point leaves either all or none of the operation in the database.",
  ["crash_points", "fault_sequences"], "every crash or error point within a mutating operation", "No test interrupts an operation, so a write outside of the batch, a second commit or a commit per item goes unnoticed.",
  [RDB, MGR], [("WriteBatch committed by each transaction method", RDB)], FX + "; typestate of the write batch (filled, then committed exactly once)")
p("C09", "Indexing a property is persistent, complete and registered only when written",
  "Indexing a property name adds index entries for every existing vertex and edge that has that property, persists the registration with them, and makes the name count as indexed only once that is written. Opening a RocksDB database again registers every persisted indexed name.",
  ["histories", "crash_points"], "every content of the datastore when the index is created, every failure of the write, and reopening", "The tests index a name over one or two items and never reopen or fail the write.",
  [MEM, RDB, MGR], [("index_property", RDB), ("index_property", MEM), ("MetadataManager", MGR)], FX + "; order of registration and commit")
p("C10", "A lookup by property is refused exactly when the property is not indexed",
  "Listing vertices or edges by property name or by property value reports that the property is not indexed if and only if the name was never indexed; it never yields a partial or empty answer in place of that, in both datastores.",
  ["inputs", "histories"], "every name, value and history of index creations", "The tests query one indexed and one unindexed name.",
  [MEM, RDB], [("indexed_properties test of the lookups", RDB), ("property index lookups", MEM)], FX + "; return-value conditions")
p("C24", "Reads return exactly the stored items asked for, in storage order",
  "Each read of a datastore (all or specific items, ranges from an offset, counts, properties of an item, index lookups) returns exactly the items that are stored under the requested key, prefix, offset or index entry, without dropping, cutting or reordering them, and changes nothing.",
  ["inputs", "histories"], "every content of the datastore and every key, offset and direction", "The tests read from small graphs; boundary offsets, type prefixes and greatest ids are not sampled.",
  [MEM, RDB, MGR], [("read methods of the transactions", MEM), ("iterate_for_* and get functions of the managers", MGR)], FX + "; rows of the returned iterators compared with a specification, both datastores", state=STATE)
p("C26", "Property writes and deletions affect exactly the named properties",
  "Setting a property stores the given value under the given name for exactly the given vertices or edges; deleting properties removes exactly the given (item, name) pairs. All other properties and items stay as they were, in both datastores.",
  ["inputs", "histories"], "every content of the datastore, every list of items, name and value", "The tests set one property on one or two items and read it back.",
  [MEM, RDB, MGR], [("set_*_properties / delete_*_properties", MEM), ("property managers", MGR)], FX, state=STATE)
p("C29", "Bulk insertion stores every item of the batch",
  "Bulk insertion stores every vertex, every edge in both directions, and every vertex and edge property of the batch, with index entries for indexed names, and changes nothing else, in both datastores. Items are applied in the order given, so that the later of two values of a property stays.",
  ["inputs", "histories"], "every batch of items and every content of the datastore", "The tests insert one small batch.",
  [MEM, RDB, MGR], [("bulk_insert", MEM), ("bulk_insert", RDB)], FX, state=STATE)
DM = "provenance of every file or database call, with path conditions and order"
p("C06", "No storage error is swallowed",
  "An error that a storage, file, serialization, transport or task call reports is passed to the caller of the public operation (as an error or an error item of the returned iterator); it is never turned into an empty or shortened result, a false, a default or a silent success, anywhere in the library, server, client and plugin host.",
  ["fault_sequences", "inputs"], "every call that can fail and every failure of it", "The tests never make RocksDB, the file system or the transport fail, so every error path is unexecuted.",
  [RDB, MGR, MEM, DBF, "proto/src/server.rs", "proto/src/client.rs"], [("error items of the iterators", RDB), ("take_with_prefix and the managers' iterators", MGR)],
  "per-function flow analysis of every Result with a storage error type: each must reach the return value, a `?`, a channel, or a match that keeps the error")
p("C07", "The memory datastore's image file is replaced atomically and completely",
  "Syncing a memory datastore that has a path writes the whole state to a temporary file in the image's directory, flushes and syncs that file, and then renames it over the image, in this order and unconditionally. At every crash or error point the image is therefore either the previous complete one or the new complete one.",
  ["crash_points", "fault_sequences"], "every crash or error point during sync and every state", "The tests sync without crash and read back; an unflushed, unsynced or in-place write passes them.",
  [MEM], [("MemoryTransaction::sync", MEM)], DM)
p("C08", "Syncing a RocksDB datastore forces every table to disk",
  "When sync of the RocksDB datastore returns success, the contents of every column family were forced to disk in full, whatever was written before.",
  ["histories", "crash_points"], "every history before the sync and a crash after it", "The tests call sync and look at nothing that only durability decides.",
  [RDB, MGR], [("RocksdbTransaction::sync", RDB), ("compact of the managers", MGR)], DM + "; compared with the set of tables a transaction uses")
p("C20", "Opening a RocksDB database provides every table, each with one role",
  "However a RocksDB database is opened (new or existing, default or user-given options), every column family that transactions use exists afterwards, and no two roles share a column family.",
  ["histories", "configurations"], "new and existing databases, both constructors", "The tests open through one constructor and never reopen with the other.",
  [RDB, MGR], [("CF_NAMES", RDB), ("new_db / new_db_with_options", RDB), ("cf_handle in the managers", MGR)], DM + "; constant propagation of column family names")
p("C27", "The memory datastore's image restores exactly what was written",
  "Every field of every type in the memory datastore's image is written as it is, unconditionally, and is restored from the place it was written to. Reading a database decodes the file at the given path, uses the decoded state unchanged, and later syncs go to that same path.",
  ["inputs", "histories"], "every state of the memory datastore and every path", "The tests reload one small graph; a skipped field or index, or a lost path, is not looked at.",
  [MEM, MODELS + "edges.rs", MODELS + "identifiers.rs", MODELS + "json.rs"], [("InternalMemory", MEM), ("read_msgpack_db / create_msgpack_db", MEM)],
  "field-by-field agreement of the generated serializer and deserializer code (provenance of every serialize_field and next_element)")
QE = "symbolic rows of the query evaluator per query kind, option and piped value kind (interprocedural provenance dataflow over MIR with assumptions), compared with the expected rows, filters, direction, limit and stop conditions"
p("C12", "Traversals yield exactly the matching items, limited only after filtering",
  "Range, specific and all-item queries yield exactly the datastore's items they name. A pipe from vertices yields exactly the edges that leave (outbound) or enter (inbound) each piped vertex, in their true direction, and a pipe from edges yields the vertices at the requested end; a type option restricts both to that type. A limit bounds the whole result and applies only after every filter; anything else piped is refused with OperationOnQuery.",
  ["inputs", "histories"], "every query, option combination, piped value and datastore content", "The tests use small graphs, large limits and few combinations; a limit applied before the type filter, or per vertex, or a scan that stops early gives the same results there.",
  [DBF], [("query: RangeVertex, SpecificVertex, Pipe, AllEdge, SpecificEdge", DBF)], QE)
p("C31", "Property queries yield exactly the requested properties of each piped item",
  "A property pipe yields, for each piped vertex or edge, in order, its properties (all of them, or just the named one), attributed to that item with their own names and values; items that have no such property are left out. It is refused with OperationOnQuery for anything other than vertices and edges.",
  ["inputs", "histories"], "every piped value, name option and datastore content", "The tests read properties of one or two items.",
  [DBF], [("query: PipeProperty", DBF)], QE)
p("C28", "Queries by property keep exactly the items the index names",
  "A query for vertices or edges with a property (or property value) yields exactly the existing items the index lists for that name (and value). A pipe by property keeps, in order, exactly the piped items that are listed (or with exists/equal false, that are not). Each is refused with NotIndexed when the name is not indexed, whatever is piped, and pipes of other values with OperationOnQuery.",
  ["inputs", "histories"], "every name, value, flag, piped value and datastore content", "The tests query few items; the negated forms on edges and unindexed names in pipes are hardly combined.",
  [DBF], [("query: *WithPropertyPresence / *WithPropertyValue", DBF)], QE)
p("C32", "Included values are exported once, in order; counts count the inner result",
  "A query yields its own result last; an included inner query's value is exported exactly once, before the result of the query that uses it, and a value that is not included is not. A count yields the number of items of its inner query's result, or the datastore's count for all vertices or all edges, and refuses a count of a count with OperationOnQuery.",
  ["inputs", "histories"], "every nesting of queries and include, and every datastore content", "The tests include one inner query in one kind of pipe and count small listings.",
  [DBF], [("query: Include, Count and the exports of the pipes", DBF)], QE)
p("C11", "Each database operation is one operation of the datastore, in one transaction",
  "Each operation of Database opens one transaction, performs the operation of the same name on it exactly once with exactly the given arguments, and reports exactly its outcome; get returns exactly the values the query evaluates to and changes nothing. create_vertex_from_type returns the id of the vertex it created, or UuidTaken if none was created. The default bulk insertion performs exactly the matching single operation for each item, in order.",
  ["inputs", "histories"], "every argument and every datastore", "The tests call each operation with a few ordinary arguments on the two built-in datastores; a special case, a second transaction or an ignored outcome is not sampled.",
  [DBF], [("impl Database", DBF), ("Transaction default methods", DBF)], "provenance of each call's receiver and arguments and of the returned value, on an opaque datastore")
p("C13", "Delete and set_properties by query affect exactly what the query yields",
  "Database::delete deletes exactly the vertices, edges or properties its query yields, and set_properties sets the property on exactly the vertices or edges its query yields. A query that yields a count (or, for set_properties, properties) is refused with OperationOnQuery and nothing is changed.",
  ["inputs", "histories"], "every query, result and datastore content", "The tests delete and set by a few small queries; large results, several properties per item and refused kinds are hardly sampled.",
  [DBF], [("Database::delete", DBF), ("Database::set_properties", DBF)], "provenance of the items passed on, per kind of query result")
p("C33", "Query builders build the query they name and refuse invalid inner queries",
  "Each query constructor and builder method builds exactly the query it names with the given arguments, without limit, type or offset unless set; each setter changes its own field only. Traversals and property pipes over an inner query that does not yield vertices or edges, and counts over an inner query that yields a count, are refused with InnerQuery; all others are accepted.",
  ["inputs"], "every query, argument and nesting", "The tests build some queries and check their results on small graphs; the combinations of setters and the refused nestings are hardly sampled.",
  ["lib/src/models/queries.rs"], [("QueryExt, CountQueryExt and the query types", "lib/src/models/queries.rs")], "provenance of each field of the built query; constructors evaluated for each kind of inner result")
SRV, CLI, CONV = "proto/src/server.rs", "proto/src/client.rs", "proto/src/converters.rs"
WT = "term-level interpretation of each conversion over MIR under assumptions about its input (per variant, per absent or invalid part): provenance of every field, and the failures"
p("C14", "Conversions to and from wire messages keep every value, or fail",
  "Every conversion from a library value to its message and back carries each part to the part of the same meaning, unchanged: ids, types, names, JSON values, directions, limits, offsets, nested queries, and all elements of lists in order. Decoding a message with a missing required part, an invalid identifier, id or JSON text fails with an error instead of a made-up value; an absent optional part stays absent.",
  ["inputs"], "every value of every message type, nested to any depth", "The tests send small graphs through a server; extreme limits, empty lists, absent parts, nested pipes and malformed messages are hardly sampled.",
  [CONV], [("impl From / TryInto", CONV)], WT)
AH = "interprocedural provenance dataflow over the MIR of each asynchronous function, its future driven to the end, under assumptions (call succeeds, fails, task panics, request malformed)"
p("C15", "Each server handler performs exactly its operation and answers its outcome",
  "Each gRPC handler decodes its request and performs exactly the database operation of the same name, once, on the server's database with the decoded arguments, and answers its outcome; bulk_insert passes all items, in order, in one operation; get streams every value of the result in order. A failed or panicked operation, a malformed request or a broken request stream is answered with an error (on get's stream: sent as an error), and a malformed request performs nothing. execute_plugin calls the plugin registered under the requested name once, on a transaction of the server's datastore, with the given argument or null, answers its result, and refuses unknown plugins.",
  ["inputs", "schedules", "faults"], "every request, stream and outcome of the operation, including panics", "The tests call the handlers with good requests on a working datastore; failures, panics, malformed items late in a stream and closed channels are not sampled.",
  [SRV], [("impl IndraDb for Server", SRV)], AH)
p("C16", "Each client method makes exactly its call and reports its outcome",
  "Each method of Client makes exactly one gRPC call of the same name on its connection with its arguments encoded, and returns the decoded answer: get returns all streamed values in order, bulk_insert streams all its items in order, execute_plugin returns null when the answer has no value. A failed call, a broken stream of answers, an answer that cannot be decoded or an item that could not be sent is returned as an error.",
  ["inputs", "faults"], "every argument, answer and failure", "The tests use a working server; failures, broken streams and undecodable answers are not sampled.",
  [CLI], [("impl Client", CLI)], AH)
p("C17", "No handler or client method blocks the asynchronous runtime",
  "No request handler and no client method calls the datastore, runs a plugin, waits for a channel synchronously, sleeps or does file or network input or output on a thread of the asynchronous runtime: each such call is inside a blocking task.",
  ["inputs", "schedules"], "every path through every handler and client method", "The tests run few requests at a time with quick operations, so a blocked runtime thread is not noticed.",
  [SRV, CLI], [("impl IndraDb for Server", SRV), ("impl Client", CLI)], "effect analysis: every blocking call in the call graph of each asynchronous function must have a spawn_blocking (or block_in_place or thread) frame inside the innermost coroutine")
IDF = "lib/src/models/identifiers.rs"
p("C18", "Every identifier is a valid one and holds exactly the string given",
  "Identifier::new accepts a string exactly when it is at most 255 bytes long and every character is a letter or number (of any script), a dash or an underscore, and the identifier holds exactly that string; parsing, TryFrom, deserialization and decoding of a message accept and hold exactly the same. Nothing else makes an identifier without this check, except decoding the keys a RocksDB database has stored; as_str, deref and serialization give back the string.",
  ["inputs"], "every string, of any length and script", "The tests try one good, one long and one malformed string; other lengths, positions and scripts, and ways around the check, are not sampled.",
  [IDF, "lib/src/util.rs", MGR, CONV], [("Identifier::new and the other constructors", IDF)], "abstract interpretation of the check over MIR on a finite partition of lengths (at the constants compared with) and character classes; scan of all MIR for makers of identifiers, with provenance of the unchecked ones")
UT = "lib/src/util.rs"
p("C19", "RocksDB keys are built and read back part by part without loss",
  "Each component of a key is written as exactly its bytes in the format of existing databases (16 bytes of a UUID; length byte and bytes of an identifier; bytes of a string; the DefaultHasher hash of a JSON value as 8 bytes, big-endian), build writes all components in order and nothing else, and byte_len is the number of bytes written. read_uuid, read_identifier, read_u64 and read_fixed_length_string read exactly what was written, leave the rest, and fail on a key that ends early; no key has a string without length before its end.",
  ["inputs"], "every UUID, string, identifier and JSON value, every key of up to six components", "The tests store a few short ASCII names; long or non-ASCII names, hashes with zero bytes and cut keys are not sampled, and no test opens a database written by another process.",
  [UT, MGR], [("Component, build and the readers", UT)], "abstract interpretation over MIR, byte strings as sequences of symbolic parts: what each writer appends, what each reader consumes")
p("C21", "JSON values compare and hash as property indexes need it",
  "Json values compare within one kind by content (numbers by value, strings and booleans as such, arrays and objects element by element, then by length) and not across kinds, and are equal exactly if they compare as equal. Hashing feeds each kind its own tag and all its content in the format existing RocksDB indexes have, so that equal values hash the same and different values differently.",
  ["inputs", "histories"], "every pair of JSON values, nested to any depth", "The tests compare some pairs of small values; mixed signed, unsigned and floating point numbers, common prefixes, nesting and ambiguous hashes are hardly sampled.",
  ["lib/src/models/json.rs"], [("Hash, PartialEq and PartialOrd of Json", "lib/src/models/json.rs")], "abstract interpretation over MIR per pair of kinds and per outcome of the comparisons of the parts (induction on nesting); the sequence of values fed to the hasher per kind")
p("C34", "next_uuid and the extract functions are exact",
  "next_uuid gives the id that follows the given one as a 128-bit big-endian number, and CannotIncrementUuid only for the largest. extract_vertices, extract_edges, extract_count, extract_vertex_properties and extract_edge_properties give the content of the last output exactly if it is of their kind, and None otherwise.",
  ["inputs"], "every id and every list of outputs", "The tests increment one id and the largest, and extract from an empty list; carries over several bytes and outputs of several kinds are not sampled.",
  [UT], [("next_uuid, extract_*", UT)], "abstract interpretation over MIR on a partition by the last byte below 255 and by the kinds of the outputs")
AI = "abstract interpretation over MIR (through the coroutine state machines)"
p("C22", "Plugins are loaded only from matching libraries, which stay loaded",
  "A server with plugins offers the plugins of every library given, exactly if each loads, has the register function and was built with the same compiler and plugin interface version; otherwise creating the server fails with that library's error and paths. A library is never unloaded while plugins of it are alive. run_with_plugins loads every file that matches the pattern, fails if the pattern, a file or a library is bad, and serves that server on the listener.",
  ["inputs", "faults"], "every list of libraries, and every failure to read, load or match one", "The tests load one good set of plugins; mismatching versions, unreadable files, missing functions and the order of unloading are not sampled.",
  [SRV, "plugins/host/src/decl.rs"], [("Server::new_with_plugins, run, run_with_plugins", SRV), ("VersionInfo", "plugins/host/src/decl.rs")], AI + " over lists of up to two libraries and all outcomes of each step; drop order of values and fields")
PU = "plugins/host/src/util.rs"
p("C23", "A plugin's parallel map covers every vertex and reports the first failure",
  "util::map calls the mapper's map exactly once for each vertex of the datastore unless an error was seen, answers only when all started operations have finished, and answers an error if a vertex could not be read or an operation failed or panicked: the first error that occurred, if there was one. It answers Ok only if every vertex was mapped without error, for every number of threads the mapper asks for, including none. The naive vertex count plugin answers the number of vertices.",
  ["inputs", "schedules", "faults"], "every number of vertices, failure and order of the jobs", "The tests count the vertices of one small graph; errors, panics, many vertices and other schedules are not sampled.",
  [PU, "plugins/naive_vertex_count/src/lib.rs"], [("map", PU), ("NaiveVertexCountPlugin", "plugins/naive_vertex_count/src/lib.rs")], AI.split(" (")[0] + " with a model of the thread pool, on lists of up to three vertices with every outcome of each, for jobs run at once and as late as possible")
SM, SC = "server/src/main.rs", "server/src/cli.rs"
p("C30", "The server serves the datastore that its command line asks for",
  "The server listens on the address of --address (grpc 127.0.0.1:27615 by default) and serves exactly the datastore asked for: an in-memory one without path, with a path the one read from that file if it exists and a new one for it otherwise; with rocksdb the one at the path with the given limit of open files (512 by default), or only a repair of it with --repair, after which it ends. With --plugins it serves with the plugins of that pattern, otherwise without. It ends with an error if the address, file, database or repair is bad or serving fails, and never replaces or ignores a file or database that it could not read.",
  ["inputs", "faults"], "every command line and every outcome of opening, reading, repairing and serving", "The tests do not run the server's command line at all.",
  [SM, SC, SRV], [("main, run_server", SM), ("CliArgs", SC), ("run", SRV)], AI + " for every combination of arguments and outcome of each step; the command line parser as the sequence of its declarations")
CM = "client/src/main.rs"
p("C35", "Each client command makes exactly its call and reports its outcome",
  "Each command of the command line client connects to the address given and makes exactly one call, of what its arguments say: ping; set creates the vertex or edge or sets the property; count, get and delete act on the vertices, the edge or the (named) properties given. It ends with an error if an argument is malformed, the connection or call fails, or the vertex or edge was not created, and otherwise prints what it created, counted or got.",
  ["inputs", "faults"], "every command, combination of options, and outcome of parsing and of the call", "The tests do not run the client at all.",
  [CM], [("run, build_edge, build_vertex_query", CM)], AI + " for every command with every outcome of each step; the command line parser as the sequence of its declarations")
MO = "lib/src/models/"
p("C25", "Models compare, sort and hash by exactly what identifies them",
  "Two vertices are equal exactly if their ids are, edges exactly if outbound id, type and inbound id are, identifiers exactly if their strings are; properties, queries, query outputs and bulk insert items exactly if they are of one kind and all their parts are equal. Edges sort by outbound id, then type, then inbound id, identifiers by their strings, and equal values hash alike. Constructors and clones hold exactly the parts given, a reversed edge is the edge with its two ends swapped, and a direction is parsed from exactly the name it is written as.",
  ["inputs"], "every pair of values of each model", "The tests compare values that are equal, or that differ in everything; a comparison, hash or clone that leaves out one part or takes it twice, or an order by the parts in another sequence, shows only between values that differ in just that.",
  [MO + "edges.rs", MO + "vertices.rs", MO + "properties.rs", MO + "queries.rs", MO + "identifiers.rs", MO + "bulk_insert.rs"],
  [("Edge, Vertex: equality, order, hash, constructors", MO + "edges.rs"), ("property models", MO + "properties.rs"), ("queries and their outputs", MO + "queries.rs")],
  "abstract interpretation over MIR (derived and handwritten code alike) of every comparison, hash, clone and constructor, per pair of kinds and per outcome of the comparisons of their parts, compared with the lexicographic order of the identifying parts")
p("C36", "Operations and in-memory transactions exclude each other",
  "Each Database operation does all its reads and writes within one transaction, the same for all of them. Transactions on one in-memory datastore, its clones included, exclude each other from their start until they are dropped, and work on the datastore's one state, which nothing else can reach in between.",
  ["schedules"], "every interleaving of operations by any number of threads on one datastore", "The tests use each datastore from one thread, so an operation split over two transactions, a lock given up early or a clone with a state of its own passes them.",
  [MEM, "lib/src/database.rs"], [("MemoryDatastore, MemoryTransaction", MEM), ("Database's operations", "lib/src/database.rs")], "ownership of the lock guard by type (from the type-checked program), call graph over the makers and takers of the lock, and provenance of the transaction of each operation")
p("C37", "Errors keep what caused them, in their kind, source and message",
  "Each error that the library, its protocol client and server, or the plugin host make from another one holds the error given, as the kind that is meant for errors of its type (a channel that was closed has a kind without one). source() returns exactly the error held, or none where there is none. The message contains the messages of all parts held, and kinds that hold nothing have different messages.",
  ["faults"], "every kind of error and every error that each is made from", "The tests look at a few messages; which kind an underlying error ends in, and whether its cause and text survive, is sampled for hardly any.",
  ["lib/src/errors.rs", "proto/src/client.rs", "proto/src/converters.rs", SRV, "plugins/host/src/errors.rs", "client/src/errors.rs"],
  [("Error, ValidationError", "lib/src/errors.rs"), ("ClientError", "proto/src/client.rs"), ("ConversionError", "proto/src/converters.rs"), ("InitError", SRV), ("plugin Error", "plugins/host/src/errors.rs")],
  "abstract interpretation over MIR of every From, source and Display of the error types, kind by kind, with symbolic parts traced into what is returned and written")
p("C38", "RocksDB is configured so that it keeps, shows and orders all data",
  "The default options create a missing database and set the limit of open files to exactly the one given, or leave RocksDB's default when none is given. Nothing in the code configures, opens or writes a RocksDB database in a way that drops, hides or reorders stored data: no FIFO compaction, TTL, compaction filter or merge operator, no other order of keys or prefix extractor, no write without the log, no lenient recovery, disabled check of checksums or refusal of existing databases, no read-only opening and no deletion of tables or files.",
  ["crash_points", "inputs", "histories"], "every limit, database and history, through compactions, crashes and corruption", "The tests open small databases that are never compacted by age or size, damaged or recovered from their log, so such a setting changes nothing they see.",
  [RDB, MGR], [("RocksdbDatastore::get_options", RDB), ("opening and writing the database", RDB)],
  "abstract interpretation over MIR of the default options for a limit and for none, settings tracked with their values through helpers; query over every call into the rocksdb crate for settings and calls that affect content")
p("C39", "RocksDB writes that depend on the indexes happen under the indexes' lock",
  "In the RocksDB datastore, each operation that sets or deletes properties (deletions of vertices and edges, and bulk insertion, included) takes the lock on the registered indexes once and holds it from reading them until its batch is written; index_property holds it exclusively from its check to its registration. So no property written while an index is being created is missing from the index, whatever the interleaving.",
  ["schedules"], "every interleaving of writes with the creation of indexes by any number of threads", "The tests use each datastore from one thread, so a lock given up before the batch is written passes them all.",
  [RDB], [("indexed_properties, its guards and DB::write", RDB)],
  "flow-sensitive dataflow of owned lock guards over MIR (taken, moved, dropped), with summaries of helpers and closures, checked at each write of a batch")
p("C40", "No thread waits for a lock that it holds, or for one that needs it",
  "No code takes a lock, or opens another transaction of a datastore, while it holds a guard of the same one (also shared: a writer in between would block both); none joins threads while it holds a lock that they take, and none awaits, or waits for a message, while it holds one. So no operation, handler, client call or plugin map can block itself for good.",
  ["schedules", "faults"], "every interleaving, and the error paths on which locks are rarely taken", "A recursive shared lock only blocks when a writer comes in between, and a join under a lock only when an error is reported: no test does either.",
  [RDB, MEM, SRV, "lib/src/database.rs", "proto/src/client.rs", "plugins/host/src/util.rs"], [("lock guards and transactions", RDB), ("util::map", "plugins/host/src/util.rs"), ("Client::bulk_insert", "proto/src/client.rs")],
  "flow-sensitive dataflow of owned lock guards over MIR, and the locks and waits reachable from each call through the call graph (closures and implementations of traits included)")
p("C41", "Plugin libraries register their plugins by name, with their own version",
  "The register function of each plugin library is exported, declares the version info of the plugin host it was built with, and offers exactly its plugins, each under its name (hello_world, naive_vertex_count), in every case. The version info holds the full version of the compiler that built it, and its text shows both parts. The hello_world plugin answers the string of \"hello, \" and the JSON text of its argument, whatever that is, and does nothing to the datastore.",
  ["inputs", "config"], "every argument, and every compiler that the libraries are built with", "One test calls hello_world with a string, and only where the libraries were built and found; a version that is only partly compared or declared shows with libraries of another compiler only.",
  ["plugins/host/src/decl.rs", "plugins/hello_world/src/lib.rs", "plugins/naive_vertex_count/src/lib.rs"], [("register_plugins!, VersionInfo", "plugins/host/src/decl.rs"), ("HelloWorldPlugin::call", "plugins/hello_world/src/lib.rs")],
  "abstract interpretation of the expanded register functions and of the answer's text, over an unknown argument")
# ------------------------------------------------------------------ outside of what static analysis decides here
na("N01", "Concurrent RocksDB operations are serializable",
  "Concurrent operations on one RocksDB datastore have the effect of some order of them one after the other: no edge is created towards a vertex deleted meanwhile, and no index entry survives a concurrent overwrite.",
  ["schedules"], "every interleaving of operations by several threads", "The tests use each datastore from one thread.", [RDB, MGR], [("reads and write batch of RocksdbTransaction", RDB)],
  "RocksdbTransaction reads without snapshot or lock and writes one batch, so check-then-write operations can interleave by design (the guarantees offered are atomicity, C05, and those of C36 for the in-memory store). Which interleavings have a visible effect depends on the values read at run time: deciding that needs exploration of schedules, not a flow argument; an alarm on every unlocked read-then-write would be one permanent alarm.")
na("N02", "Generated vertex ids are unique and increase",
  "Ids from generate_uuid_v1 never repeat within a process and across processes and increase in time.",
  ["schedules", "inputs"], "every number of threads, processes and clock readings", "The tests create a few vertices.", [UT], [("generate_uuid_v1", UT)],
  "Uniqueness rests on the wall clock, the node id and the uuid crate's context counter, all runtime quantities outside of this repository's source; nothing in the repository's flow determines it.")
na("N03", "Both datastores give equal answers to equal histories",
  "After the same history of operations, the in-memory and the RocksDB datastore answer every query with the same items in the same order.",
  ["histories"], "every history and query", "The same tests run on both datastores, on small graphs.", [MEM, RDB], [("Transaction implementations", "lib/src/database.rs")],
  "Both are compared with the same specification of rows (C01-C04, C10, C24, C26, C29), which decides equal content and the storage order of each table. Equality of whole answers would also need the order of hash-indexed lookups (by the 64-bit hash of the value in RocksDB, by value in memory), which differ by design, and an argument about histories of runtime values.")
na("N04", "A RocksDB index lookup yields only items with exactly that value",
  "Looking up a property value in RocksDB never yields an item with another value.",
  ["inputs"], "every pair of JSON values", "The tests look up a few values.", [RDB, MGR, UT], [("json_value component of index keys", UT)],
  "The index key holds a 64-bit hash of the value and the lookup does not compare values, so it holds only up to collisions of SipHash: a probabilistic claim about runtime values. What is decidable, that different values feed different sequences to the hasher, is part of C21 (with its known findings).")
na("N05", "RocksDB recovers committed batches after a crash",
  "After a crash at any point, reopening a RocksDB datastore shows all batches synced before the crash, and of each other batch all or nothing.",
  ["crash_points"], "every crash point within RocksDB and the file system", "No test crashes.", [RDB], [("DB::write_opt, flush_cf_opt", RDB)],
  "The recovery is RocksDB's C++ code and the file system's, outside of the repository. The repository's part (one batch with the write-ahead log, a flush of all column families, options on reopening) is decided by C05, C08, C09 and C20.")
