#!/usr/bin/env python3
"""Writes properties.jsonl (source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

DB="lib/src/database.rs"; MEM="lib/src/memory/datastore.rs"; RDB="lib/src/rdb/datastore.rs"; MAN="lib/src/rdb/managers.rs"
Q="lib/src/models/queries.rs"; UT="lib/src/util.rs"; JS="lib/src/models/json.rs"; ID="lib/src/models/identifiers.rs"
CV="proto/src/converters.rs"; SV="proto/src/server.rs"; CL="proto/src/client.rs"

p("C01","Query results are exactly what the stored graph says",
  "For every history of writes and every well-formed query (all, range, specific, by property presence or value, pipes in both directions between vertices and edges, property pipes, presence/value filters, included intermediate results, counts, nested to any depth), each bundled datastore returns exactly the vertices, edges, properties and counts that evaluating the query over the abstract graph (the live vertices with their types, edges, and JSON properties) gives, with the number and order of outputs determined by the query alone. A pipe from vertices yields, vertex by vertex, precisely the edges leaving (outbound) or entering (inbound) it, reported in their true direction; a pipe from edges yields the corresponding endpoint per edge; a property pipe reports every piped element that has at least one matching property with all its matching properties, and a filter keeps precisely the piped elements that satisfy it. The query constructors and extension methods build exactly the query they describe, in whatever order its options are set, and refuse those that do not compose; the extract_* helpers return the last output if it is of their kind and nothing otherwise; a direction is written as text and read back as itself.",
  ["inputs","histories"],"every reachable graph state of each bundled datastore and every query tree the public query types can express",
  "the tests run a few dozen fixed query shapes, mostly one or two hops over small random graphs with fresh ids; combinations of filters, directions, includes, self-loops, parallel edges, prefix-sharing types and boundary ids are never sampled",
  [DB,MEM,RDB,MAN,Q],[("recursive query evaluator",DB+" query()"),("ordered scans of vertices, edges and reversed edges",MEM+", "+MAN)],
  [("vertices, edges, reversed edges, properties","the stored graph",MEM+" InternalMemory; "+RDB+" column families")],["Database::get"])
p("C02","Limits, ranges, type filters, paging and counts are consistent",
  "For every query with a limit, the limited result has min(limit, size) elements and is a prefix of the same query's unlimited result whenever that result's order is fixed (in any case it is part of it), a type filter selects by type before the limit counts, and limit 0 yields nothing. A vertex range returns vertices in ascending id order starting at the first id not below the given start, so paging through with any page size visits every vertex exactly once, including the smallest and largest possible ids. A count over any query equals the number of elements that query returns.",
  ["inputs","histories"],"every graph state, start id, limit, type filter and page size",
  "the tests use limits 1 and u32::MAX on tiny graphs and never page, never combine a limit with several piped vertices and a type filter, and count only whole collections or one hop",
  [DB,MEM,RDB,MAN],[("take/filter/take_while chain over ordered scans",DB+" query()"),("vertex and edge counts",MEM+" vertex_count/edge_count, "+RDB)],[],["Database::get"])
p("C03","Deleting a vertex removes everything attached to it, nothing else",
  "After vertices are deleted, by whatever query selected them, no query of any kind, and no count, returns them, any edge that started or ended at them, or any property of those vertices or edges, and everything else in the graph is unchanged. In graphs built with validated operations every edge ever returned, from either direction, has both of its endpoint vertices present. Re-creating a deleted vertex or edge with the same id yields one with no properties, edges or index entries left over.",
  ["histories","inputs"],"every history of creates, bulk inserts, property writes, indexing and deletes, and every selecting query, on each bundled datastore",
  "the tests delete one vertex with one or two edges and look at counts from one side; they never re-create an id, never delete the inbound side's neighbour with indexed properties, and never delete several connected vertices at once",
  [DB,MEM,RDB,MAN],[("cascade through forward and reversed edge ranges",MAN+" VertexManager::delete, EdgeManager::delete"),("cascade over edges and properties",MEM+" delete_vertices/delete_edges")],
  [("reversed edges","second copy of each edge keyed by its inbound end",MEM+"; "+MAN)],["Database::delete","Database::get"])
p("C04","Property indexes always agree with the stored properties",
  "For every history, once a property name is indexed, queries by presence and by value (at the start of a query or as a filter, positive or negated) return exactly the live vertices or edges that currently hold that property, respectively hold it with an equal value: never a stale, missing, duplicated or foreign element. This does not depend on whether indexing was enabled before or after the data was written, how often it was enabled, how values were overwritten, deleted or bulk-inserted, or whether the database was reloaded. Indexing a name never changes any other query's result, and querying a name that is not indexed is reported as an error.",
  ["histories","inputs"],"every interleaving of index creation, property set/overwrite/delete, element deletion/re-creation, bulk insertion and reload, on each bundled datastore",
  "the tests index one property and read it back after one or two updates; they do not overwrite with colliding or repeated values, do not share names between vertices and edges, do not delete and re-create indexed elements, and never run without debug assertions",
  [MEM,RDB,MAN,DB],[("in-memory value-to-members map kept by set/delete",MEM+" property_values"),("value-hash keyed index column families kept in the same write batch",MAN+" VertexPropertyValueManager/EdgePropertyValueManager"),("index backfill",MEM+" index_property, "+RDB+" index_property")],
  [("index","property name and value to members",MEM+"; "+MAN)],["Database::index_property","Database::get"])
p("C05","Each write has exactly its documented effect",
  "Creating a vertex whose id exists changes nothing and returns false, otherwise it returns true and adds exactly that vertex; creating an edge returns false and changes nothing if an endpoint is missing, otherwise returns true, adds it once however often it is repeated, and keeps an existing edge's properties. Setting a property through a query writes that value to exactly the vertices or edges the query returns last, replacing any previous value; deleting through a query removes exactly the vertices, edges, or named properties the query returns last. Everything not selected keeps its identity, type, edges and properties, and generated vertex ids are new.",
  ["histories","inputs"],"every history of create, set and delete operations, every selecting query and every value, on each bundled datastore",
  "tests check the touched element after one write and almost never check that the rest of the graph is untouched, nor repeat creates over elements with properties, nor write through multi-hop or include queries",
  [DB,MEM,RDB,MAN],[("query-then-apply in one transaction",DB+" delete/set_properties"),("existence checks",MEM+" create_vertex/create_edge, "+RDB)],[],["Database::create_vertex","Database::create_edge","Database::set_properties","Database::delete"])
p("C06","The memory and RocksDB datastores behave identically",
  "Fed the same history of operations, the in-memory and the RocksDB datastores return the same success, boolean and error outcome for every operation and the same results for every query, up to the order of edges and properties and the leniency documented for bulk insertion. This holds whatever ids, types, property names and values are used, and across syncs.",
  ["histories","inputs"],"every history of public operations applied in lockstep to both datastores",
  "the shared test suite runs each datastore separately on fixed scenarios; the repository's own differential fuzzer draws fresh random ids and names, so its operations hardly ever touch the same element twice",
  [DB,MEM,RDB,MAN,"lib/fuzz/fuzz_targets/compare.rs"],[("two implementations of one transaction interface",MEM+", "+RDB)],[],["Database API on both datastores"])
p("C07","Bad requests are refused cleanly and leave the database untouched",
  "Every operation that cannot be carried out (querying an unindexed property, deleting through a count, setting properties through a query that outputs properties or a count, nesting queries that do not compose) is refused with the documented error, changes nothing, and never panics or leaves the database unusable. No sequence of public operations with any ids (including the smallest and largest), names, values, limits, empty lists, duplicate items, or bulk items that refer to missing elements makes an operation panic, or makes later valid operations fail.",
  ["inputs","histories"],"every public operation with arbitrary well-typed arguments, valid or not, in any order, with and without debug assertions",
  "the tests try one unindexed query and one count deletion and never go on to use the database afterwards; boundary ids, empty and dangling inputs are not tried",
  [DB,Q,MEM,RDB,MAN,"lib/src/errors.rs"],[("query validation at construction",Q+" output_type and constructors"),("OperationOnQuery / NotIndexed errors",DB),("boundary handling of ids",MEM+" all_vertex_properties_for_vertex, "+UT+" next_uuid")],[],["Database API"])
p("C08","Bulk insertion equals inserting the items one by one",
  "For every list of items whose references are satisfied by the database or by earlier items of the list, bulk insertion leaves the same vertices, edges, properties and index contents as creating and setting the items one at a time in that order, on every datastore, however items repeat or overwrite each other within or across batches. Indexed properties written in bulk are immediately and exactly findable by presence and value. Items that refer to vertices that do not exist do not keep any other item of the list from being inserted.",
  ["inputs","histories"],"every pre-existing graph, set of indexed properties and item list, including repeated vertices, edges and properties inside one list",
  "the tests bulk-insert one fixed list of distinct items into an empty database",
  [DB,RDB,MAN,MEM],[("default per-item bulk insertion",DB+" Transaction::bulk_insert"),("batched bulk insertion",RDB+" bulk_insert")],[],["Database::bulk_insert"])
p("C09","A RocksDB database survives close, reopen, sync and repair unchanged",
  "For every history of operations on a RocksDB database, closing and reopening it at any points, syncing, running the repair operation on the closed database, or opening it with different tuning options leaves all vertices, edges, properties, the set of indexed properties, and every query's answer exactly as they were, and further operations continue as if it had never been closed.",
  ["histories","configurations","inputs"],"every history interleaved with reopen, sync, repair and option changes",
  "the tests open each RocksDB database once in a temporary directory and never reopen it",
  [RDB,MAN,UT],[("persisted indexed-property set",MAN+" MetadataManager"),("open/create of column families",RDB+" new_db, new_db_with_options"),("binary key codec",UT)],[("indexed properties","names whose index is maintained",RDB)],["RocksdbDatastore::new_db","RocksdbDatastore::repair","Database::sync"])
p("C10","A crash never tears a RocksDB operation or loses an acknowledged one",
  "If the process is killed at any moment, the reopened RocksDB database contains every operation that had returned, and if its log is cut at any byte (the tail lost in a crash), the reopened database equals the state after some prefix of the history: every operation, including a vertex deletion with its edges, properties and index entries, an index build and a bulk insertion, is either wholly there or wholly absent. A crash while the database is first being created never leaves a directory that cannot be opened any more.",
  ["crash_points","histories"],"every history and every crash point: a kill at any time, or the write-ahead log truncated at every byte",
  "no existing test crashes or reopens a database",
  [RDB,MAN],[("one write batch per operation",RDB+" Transaction methods"),("creation of column families",RDB+" new_db")],[],["RocksdbDatastore::new_db after a crash"])
p("C11","A synced memory image reloads to the same database",
  "For every history on an in-memory database with an image path, reading the image written by the last sync gives a database in which every query, including by indexed property and index errors, answers as it did at that sync, and which then evolves exactly like the original. Operations after the last sync do not appear in the image, and a database without an image path accepts sync without writing anything.",
  ["histories","inputs"],"every history of operations with any number of syncs and reloads",
  "the single sync test syncs an empty database and reloads nothing",
  [MEM],[("msgpack image of the whole store",MEM+" sync/read_msgpack_db")],[("whole in-memory store","vertices, edges, properties and index",MEM+" InternalMemory")],["MemoryDatastore::create_msgpack_db","MemoryDatastore::read_msgpack_db","Database::sync"])
p("C12","A failed or interrupted sync never damages the previous memory image",
  "At every moment the image path holds either the complete image of the last successful sync or (once sync succeeds) the complete new one: if writing fails at any point, sync reports an error and the old image stays readable and unchanged, and killing the process at any point leaves the old or the new image. Sync works wherever the image file lies, including on another file system than the temporary directory, and reading a truncated or corrupted image gives an error or a usable database, never a crash.",
  ["crash_points","fault_sequences","inputs"],"every write failure offset during sync, every kill point, every truncation and corruption of an image",
  "no existing test injects a write failure, kills a process during sync or reads a damaged image",
  [MEM],[("write to a temporary file, then rename over the image",MEM+" sync"),("decoder of images",MEM+" read_msgpack_db")],[],["Database::sync","MemoryDatastore::read_msgpack_db"])
p("C13","JSON values are stored exactly and compared consistently",
  "Every JSON value written as a property (any nesting, unicode or empty strings and keys, signed, unsigned and floating numbers at their limits) is read back identical from every datastore, after reload, and through value queries: a value query finds an element for the value it holds and for no other JSON value. Equality of JSON values is reflexive, symmetric and transitive, equal values have equal hashes, and the ordering agrees with equality, is antisymmetric, transitive where defined, and numeric for numbers.",
  ["inputs"],"every JSON value, and every pair and triple of JSON values",
  "the tests compare about twenty fixed pairs and store short strings, numbers and small objects",
  [JS,MAN,MEM,UT],[("custom hash and comparison",JS),("JSON text storage and hash-keyed index",MAN),("hashed value map",MEM)],[],["Json trait implementations","Database::set_properties","Database::get"])
p("C14","Identifiers are validated everywhere and keys never alias",
  "A type or property name is accepted if and only if it is at most 255 bytes long and consists only of letters and digits of any script, dashes and underscores, by every constructor that checks (new, parsing, string conversion) and at every request boundary, and it is then preserved and compared exactly. Distinct ids, types and names never alias: data stored under one key is never returned for another, even if one is a prefix of another, empty, of maximal length, or multi-byte, and encoding key parts to bytes and reading them back is the identity and preserves id order.",
  ["inputs"],"every string as identifier, every pair of distinct identifiers, every sequence of key parts",
  "tests use 'foo', '$' and one over-long ASCII string, and short distinct names",
  [ID,UT,MAN,CV],[("length and character checks",ID+" Identifier::new"),("length-prefixed key components",UT+" Component, build, read_*")],[],["Identifier::new","util::build","Database API"])
p("C15","Generated ids are unique and id successors are exact",
  "Ids generated for new vertices are pairwise distinct however many are generated from however many threads, so creating a vertex from just a type never reports a taken id and never collides. The successor of an id is the numerically next 128-bit value, an error for the largest one, and there is never an id strictly between an id and its successor.",
  ["inputs","schedules"],"every id, and every number of threads generating ids concurrently",
  "the tests generate two ids and increment two of them",
  [UT,"lib/src/models/vertices.rs",DB],[("shared clock-sequence context",UT+" generate_uuid_v1"),("byte-wise carry",UT+" next_uuid")],[],["util::generate_uuid_v1","util::next_uuid","Database::create_vertex_from_type"])
p("C16","Protocol conversion is lossless and rejects every malformed message",
  "Every native value that can cross the wire (ids, identifiers, JSON, vertices, edges, every query tree, every query output, bulk items, property sets, request tuples) survives conversion to its protobuf message, encoding to bytes, decoding and conversion back unchanged. A message with a missing required field, wrong-length id, invalid name or invalid JSON anywhere inside it is rejected with an error, and no bytes or message can make conversion panic or yield a value that breaks an invariant of the native type.",
  ["inputs"],"every native value and every protobuf message, including arbitrarily malformed ones",
  "the proto tests exercise conversions only through the scenarios of the datastore suite, whose messages are always valid",
  [CV,"proto/indradb.proto"],[("From/TryInto pairs",CV),("required_field",CV)],[],["proto conversions"])
p("C17","Through gRPC the database behaves exactly as when embedded",
  "For every history of requests within the transport's size limits, a client talking to a server over any datastore obtains for each request the same success, booleans, query outputs (all of them, in order) and failure as calling the embedded database directly, and the data ends up the same. Invalid requests are answered with invalid-argument errors and leave the data unchanged, failures (and panics) of the database come back as errors, and no request stops the server from serving later ones; a bulk insertion containing an invalid item inserts nothing. The client sends exactly the request it was asked to make, and reports an answer that is an error, is malformed or breaks off as an error, never as data.",
  ["histories","inputs"],"every history of client calls and every well- or ill-formed request message",
  "the proto tests run the fixed datastore scenarios through a client and never send a malformed or failing request and continue",
  [SV,CL,CV],[("request handlers",SV),("client wrapper",CL)],[],["indradb_proto::Client","raw gRPC messages"])
p("C18","Concurrent operations behave as if executed one at a time",
  "When several threads or clients work on one in-memory database concurrently, the outcome of every operation and the final state are those of some sequential order of the operations that respects real time; no operation observes or leaves a half-applied other operation. On RocksDB each write (a bulk insertion, a bulk deletion, a bulk property change) is applied atomically, operations on a single element behave as if executed one at a time, and once concurrent validated operations have finished no edge lacks an endpoint, no property belongs to a missing element, indexes agree with the stored properties, and no write is lost.",
  ["schedules","histories"],"every interleaving of operations issued by several threads or clients",
  "all existing tests are single-threaded",
  [MEM,RDB,DB,SV],[("one mutex held for the whole operation",MEM+" transaction()"),("write batches",RDB)],[],["Database API from several threads"])
p("C19","Plugins see the whole graph and fail cleanly",
  "A vertex mapper run by a plugin is called exactly once for every vertex in the database (at most once if some call fails), with its right id and type, for any number of vertices and worker threads, has finished every call when the map returns, and the map returns an error exactly if some call failed or panicked or the vertices could not all be read. Through its transaction a plugin reads and writes the same graph, including types, names and indexes, as any other user. Executing a plugin returns its result for the given argument (null if none is given), an unknown name and a failing plugin are reported as errors without affecting the server or the data, and a library built for another interface or compiler version is refused.",
  ["inputs","schedules"],"every graph size, thread count and set of failing vertices, every plugin name and argument",
  "one integration test counts 11 vertices with the default thread count and never fails a mapper or a lookup",
  ["plugins/host/src/util.rs","plugins/host/src/decl.rs","plugins/naive_vertex_count/src/lib.rs","plugins/hello_world/src/lib.rs",SV],[("thread-pooled map with first-error capture","plugins/host/src/util.rs map"),("plugin lookup and version check",SV)],[],["plugin map","Client::execute_plugin"])
p("C20","The server and command line preserve data across restarts",
  "Data written through the command-line client or a gRPC client is served back by the server started on the chosen datastore and address, and after the server is stopped, killed or repaired and started again on the same path a RocksDB server serves every acknowledged write and a memory server with a persist path serves exactly the state of the last sync. A server that cannot read its image or its database ends with a failure at its start and leaves what is stored untouched, so that once the damage is undone everything is served again. Each client command performs exactly the operation it names on exactly the element named and prints its result, and exits with failure if the request is invalid or refused.",
  ["histories","configurations","crash_points"],"every sequence of client commands, server restarts and kills, for each datastore configuration",
  "one integration test starts a memory server once; the client binary has no tests at all",
  ["server/src/main.rs","server/src/cli.rs","client/src/main.rs",MEM,RDB],[("argument handling and datastore selection","server/src/cli.rs, server/src/main.rs"),("command dispatch","client/src/main.rs")],[],["indradb-server","indradb-client"])

p("C21","A failure of the storage is reported, never answered wrongly",
  "If the storage under a request fails to deliver at any point (a custom datastore's call or any item it iterates over returns an error, a RocksDB table or an image file cannot be read or delivers damaged data), the request reports an error or still gives the exact answer: a query never returns a shortened, empty or otherwise wrong result as if it had succeeded, and nothing panics. A write that fails this way changes nothing (an item-by-item bulk insertion leaves exactly its leading items), and once the storage works again all data is intact and every later request is carried out exactly. This also holds for opening a database, reading an image, and over gRPC, where the failure arrives as an error status and the server goes on serving.",
  ["fault_sequences","histories"],"every history, every request, and every call, item or file read at which the storage may fail while it is carried out",
  "no existing test makes any read fail",
  [DB,RDB,"lib/src/rdb/managers.rs",MEM,SV],[("errors among iterated items passed on",DB+" query()"),("errors of column family reads and iterators passed on","lib/src/rdb/managers.rs, "+RDB),("database errors to statuses",SV)],[],["Datastore and Transaction traits","RocksdbDatastore","MemoryDatastore::read_msgpack_db","Client"])

p("C22","Stored databases and images keep their format",
  "A RocksDB database or memory image stored by the pinned build opens and answers every query, including by indexed property and value, exactly as its stored content says, and goes on to work like any other database; and what is stored, for every history, is what that build would read as the same content: the same column families and key and value encodings (ids, length-prefixed identifiers, value hashes, JSON texts, the list of indexed properties), the same members of the image. So databases and images can be exchanged in both directions between builds, and no upgrade loses, hides or changes data.",
  ["inputs","histories"],"every graph, set of indexed properties and history, written by one build and read by another, in both directions",
  "every test writes and reads with the same build, so a change of the format that is symmetric between writing and reading goes unnoticed",
  [MAN,RDB,MEM,UT,JS],[("column families and key encodings",MAN+", "+UT+" Component"),("value hash","lib/src/models/json.rs hash()"),("image members",MEM+" InternalMemory")],
  [("column families *:v2","the stored database","lib/src/rdb/datastore.rs CF_NAMES"),("image","MessagePack of InternalMemory",MEM)],["RocksdbDatastore::new_db","MemoryDatastore::read_msgpack_db","files"])

p("C23","What was synced survives a power failure",
  "If the machine loses power at any moment (all that was written but not yet forced to the disk may be lost, file by file, in whole or in part), the RocksDB database opens again and holds the state after some prefix of the history that includes at least everything up to the last sync that returned, indexes and both directions of edges included; the image of a memory database is, complete and readable, that of the last sync that returned or of one that was in progress. This holds however often the power fails, and everything goes on from there as usual.",
  ["crash_points","histories"],"every history with any number of syncs, every moment of the failure, and every choice of what of the unforced data is lost",
  "no test can lose power; on a running system unforced data is read back as if it were on the disk",
  [RDB,MEM,MAN],[("flush and compaction of the column families",RDB+" sync()"),("image written to a temporary file, forced to the disk and renamed",MEM+" sync()")],[],["RocksdbDatastore::new_db","MemoryDatastore::read_msgpack_db"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
