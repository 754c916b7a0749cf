"""Writes /verif/properties.jsonl (kept as a script only to make the text easy to edit)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=None, hook=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe_at,
    }
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    anchors["hook_needed"] = hook
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": f"{text} ({SCOPE[id]})" if id in SCOPE else text},
        "why_tests_cant": why, "anchors": anchors,
    })

B = "pysqlsync/base.py"
OT = "pysqlsync/formation/object_types.py"
MU = "pysqlsync/formation/mutation.py"
P2S = "pysqlsync/formation/py_to_sql.py"
S2P = "pysqlsync/formation/sql_to_py.py"
DI = "pysqlsync/formation/discovery.py"
FDT = "pysqlsync/formation/data_types.py"
DT = "pysqlsync/model/data_types.py"
ID = "pysqlsync/model/id_types.py"
D = "pysqlsync/dialect"

# what is left out of (or spelt out for) the quantifier of a property
SCOPE = {
    "C01": "executed on PostgreSQL, MySQL, Microsoft SQL Server and Oracle; the text for the other dialects is covered by C02",
    "C02": "without NUL characters, names of more than the length allowed by the server, double underscores in names for dialects that use prefixes in place of schemas, and quotes and dollar signs in names for Oracle; MySQL keeps the first line of a description",
    "C05": "a new nullable column with a default leaves NULL in existing rows on Microsoft SQL Server",
    "C07": "keys new and distinct; values supplied for an identity column are refused outside PostgreSQL",
    "C08": "a value of a unique column is never supplied for another key; columns left out are nullable or have a default",
    "C09": "without keys backed by a lookup table",
    "C11": "an object and a record give the same database value for types that can be stored both ways; fields of unrestricted JSON type are left out",
    "C15": "an empty option, user or password counts as absent",
    "C16": "PostgreSQL and MySQL, the dialects with transport-security modes",
    "C17": "inserting and upserting rows raises the error of the driver itself; explorers probe for optional server features and take an error there for their absence",
    "C18": "names that are Python identifiers, column types with an exact Python counterpart, enumeration and structure classes given; check constraints, constraint names and the wrapping of documentation lines are not part of equivalence",
    "C19": "references are values of the key type, which need not exist",
    "C23": "for Oracle, whose schemas are prefixes of table names, dropping schemas, tables and objects only, as the library offers neither creating a schema nor asking about tables",
    "C21": "without texts in which servers count bytes rather than characters; unions of string types only are refused",
}

prop("C01", "Creation scripts run on an empty database and build what was declared",
  "For every supported set of entity classes and every combination of enumeration, array and structure mode a dialect accepts, the generated creation script executes on an empty database of that dialect, statement by statement, without an error. Afterwards the database holds exactly the declared tables, columns (data type wide enough for the declared type, nullability, declared default - or, with auto_default, the empty default of its type for a mandatory column - and identity) in declared order, primary keys, unique, foreign-key and check constraints, enumeration and composite types, lookup values and comments. The matching drop script then removes exactly those objects again without an error.",
  ["inputs", "configurations"],
  "all entity modules (any mix of field types, optionality, defaults, keys, references across tables and modules, collections, enumerations, structures, comments) x all dialects x all mode combinations the dialect accepts",
  "The tests compare the text for some twenty fixed single-table classes with an expected string; nothing executes it, and cross-table ordering, multi-module creation and most mode combinations are never generated.",
  [P2S, OT, B, D + "/postgresql/generator.py", D + "/mysql/generator.py", D + "/mssql/generator.py", D + "/oracle/generator.py"],
  [("class to table conversion", P2S + ":DataclassConverter"), ("statement rendering and ordering", OT + ":Catalog.create_stmt/Namespace/Table"), ("topological sort of namespaces, tables, structs", P2S + ", " + OT)],
  ["statements reaching the database driver", "catalog of the simulated server after execution"])

prop("C02", "Names and text always reach the server as single, exact tokens",
  "Whatever characters appear in a schema, table, column, constraint, type or enumeration-member name, or in a comment, default value, enumeration value or lookup text, the generated SQL contains it as exactly one identifier or string-literal token that the target dialect decodes back to the original characters. Such content can therefore never end a literal early, open a comment, or add, remove or change a statement. A pattern search built from a name matches only objects with that literal name prefix.",
  ["inputs"],
  "all Unicode strings including quotes, doubled quotes, backslashes, percent signs, semicolons, comment markers, newlines and control characters, in every position where the library embeds a caller-supplied string, in every dialect",
  "Tests use plain identifiers and one apostrophe in one comment; quoting must hold for every string and position.",
  [ID, DT, D + "/postgresql/object_types.py", D + "/mysql/object_types.py", D + "/mssql/object_types.py", D + "/oracle/connection.py", DI],
  [("identifier quoting", ID + ":LocalId/QualifiedId/PrefixedId.quoted_id"), ("literal quoting", DT + ":quote/constant/escape_like"), ("comment quoting", D + "/postgresql/object_types.py:sql_quoted_string")],
  ["SQL text at the driver boundary, tokenised with the dialect's own lexical rules"])

prop("C03", "Synchronizing any earlier schema converges to the declared schema",
  "Starting from a database created from any declared set of entity classes, synchronizing it to any other declared set either is refused with a formation error before a single statement runs, or issues statements that all succeed on the server in the order issued. After a successful run the database schema is equivalent (same tables, columns, types, nullability, defaults, keys, constraints, enumeration values, composite types, comments) to one created from scratch for the target. Nothing outside the managed schemas is touched.",
  ["inputs", "histories"],
  "all pairs and longer histories of entity modules that differ by added, removed or changed tables, columns, types, nullability, defaults, keys, constraints, comments, enumeration values, composite types, or whole modules, with dropping permitted",
  "One unit test compares the mutation text of two hand-edited catalogs; the order and admissibility of statements against a server's dependency rules is never checked.",
  [MU, B, OT, D + "/postgresql/mutation.py", D + "/mysql/mutation.py", D + "/mssql/mutation.py", D + "/oracle/mutation.py"],
  [("catalog, namespace, table, column mutation", MU + ":Mutator"), ("synchronize", B + ":Explorer.synchronize")],
  ["statements executed by the simulated server; server catalog before and after"],
  state=[("generator state", "the schema the library believes the database has", B + ":BaseGenerator.state")])

prop("C04", "Discovery reads back what exists; synchronizing twice changes nothing",
  "Exploring a database that the library itself created reproduces the declared model: same schemas, tables, columns with data type, nullability, default and identity, primary key, unique and foreign-key constraints, enumeration and composite types. Consequently synchronizing an already synchronized database, from the same or from a new session, sends no statement that modifies the database. Objects in other schemas or with similar names are never mistaken for managed ones.",
  ["inputs", "configurations", "histories"],
  "all entity modules and modes the dialect supports, discovered from a new connection, with unrelated schemas and tables of similar names present",
  "All discovery and synchronization tests need a live server and are skipped; the discovery queries and their interpretation are not executed by any reliable test.",
  [DI, FDT, D + "/postgresql/discovery.py", D + "/mysql/discovery.py", D + "/mssql/discovery.py", D + "/oracle/discovery.py", B],
  [("catalog queries", D + "/*/discovery.py"), ("data type recognition", FDT + ":SqlDiscovery"), ("constraint assembly", "pysqlsync/formation/constraints.py")],
  ["queries and statements at the driver boundary", "equality of discovered and declared model"])

prop("C05", "Schema synchronization preserves the data of everything retained",
  "When a synchronization keeps a table and a column, every row of that table survives with the value of that column unchanged, and added columns take their default or NULL. When the representation of an enumeration changes to a lookup table, every row's value keeps denoting the same enumeration member, and NULL stays NULL. Only tables, columns and schemas absent from the target lose data.",
  ["inputs", "histories"],
  "all populated databases and all schema evolutions between declared states, including switching enumeration representation",
  "No reliable test applies a migration to stored rows.",
  [MU, D + "/postgresql/mutation.py", D + "/mysql/mutation.py", OT],
  [("soft drop, migrate, hard drop", MU + ":Mutator.mutate_table_stmt"), ("column data migration", D + "/*/mutation.py:migrate_column_stmt")],
  ["rows held by the simulated server before and after"])

prop("C06", "Drop permissions are honoured and refused changes leave the schema alone",
  "With dropping of tables, schemas, enumeration types or composite types disallowed, synchronization never removes an object of that kind nor any data or constraint within it, whatever the target omits, and still performs every permitted change (when a schema may be dropped, what it holds may go with it). A change the library reports as impossible (removing enumeration values, redefining a constraint under the same name, toggling an identity property where unsupported, conflicting definitions) is raised before anything is executed.",
  ["inputs", "configurations"],
  "all combinations of the four permissions x all schema evolutions",
  "One example with all four permissions off is compared textually; combinations and multi-schema cases are not.",
  [MU, B],
  [("permission checks", MU + ":Mutator.mutate_namespace_stmt/mutate_catalog_stmt"), ("refusals", MU + ":FormationError raising sites")],
  ["objects and rows present on the simulated server after synchronization"])

prop("C07", "Inserting stores every record exactly once with each value in its own column",
  "Inserting a collection of entity objects or of record tuples adds exactly one row per record, in every dialect, for any number of records relative to the batch size, for synchronous and asynchronous sources, and whatever the physical column order of the table. Every supplied value is stored in the column of its field, whatever the order in which fields are supplied; columns that are not supplied (omitted, skipped, or generated by the database) take their default, generated or NULL value. An empty collection stores nothing and raises nothing.",
  ["inputs", "configurations", "histories"],
  "all entity types, all field subsets and permutations, all record counts around batch boundaries, all source kinds, tables freshly created, discovered, or previously synchronized",
  "Insert tests need a server and are skipped; reliable tests only look at one upsert statement and one record tuple.",
  [B, D + "/postgresql/connection.py", D + "/mysql/connection.py", D + "/mssql/connection.py", D + "/oracle/connection.py", D + "/redshift/connection.py"],
  [("record extraction", B + ":BaseGenerator.get_dataclass_as_record_functions"), ("row transformation", B + ":BaseContext._generate_records"), ("statement column list", B + ":get_table_insert_stmt")],
  ["bound parameters and COPY payloads at the driver boundary", "rows of the simulated server"])

prop("C08", "Upserting updates matching rows, adds new ones, and is idempotent",
  "After upserting a collection, each key in the collection identifies exactly one row carrying the last supplied values, rows with other keys are untouched, and no row is duplicated. Columns for which no value was supplied keep their stored value in rows that already existed. Repeating the same upsert leaves the table exactly as it was.",
  ["inputs", "histories"],
  "all sequences of insert, upsert and delete over overlapping key sets, all field subsets and orders, in all dialects that support upsert",
  "Reliable tests compare the statement text for two tables; effects on stored rows over histories are never observed.",
  [B, D + "/postgresql/generator.py", D + "/mysql/generator.py", D + "/mssql/generator.py", D + "/oracle/generator.py"],
  [("upsert statement", D + "/*/generator.py:get_table_upsert_stmt"), ("record functions", B)],
  ["rows of the simulated server against an executable key-value model"])

prop("C09", "Deleting by key removes exactly the rows with those keys",
  "Deleting by a collection of primary keys, given as keys of the entity or of the table, removes every row whose key is in the collection and no other row, for every supported key type and any number of keys relative to the batch size. Keys that match no row are ignored, and an empty collection deletes nothing.",
  ["inputs", "histories"],
  "all key types (integer, string, UUID, date-time, enumeration-backed), all key multisets, all batch boundaries, after any history of inserts and upserts",
  "Delete is only exercised by skipped server tests.",
  [B, D + "/mssql/connection.py", D + "/oracle/connection.py"],
  [("delete statement", B + ":get_table_delete_stmt"), ("key transformation", B + ":delete_data/delete_rows")],
  ["rows of the simulated server"])

prop("C10", "Enumeration lookup tables stay a stable one-to-one mapping",
  "When values are stored through a lookup table, every distinct value has exactly one row in the lookup table, an identifier once assigned to a value never changes or is reused for another value, and every stored reference resolves to the value that was supplied for that row. New values are added exactly once across batches, fields and repeated operations, and an absent (NULL) value stays NULL instead of becoming a lookup entry. For lists of values the order, repetitions and emptiness of each list are preserved.",
  ["inputs", "histories"],
  "all sequences of row inserts and upserts with overlapping value sets split over any batches and over several columns sharing one lookup table, including NULLs, case variants and long or unusual text",
  "The only tests of lookup merging need a server; the mapping is stateful across batches and operations.",
  [B, D + "/postgresql/generator.py", D + "/mysql/generator.py", D + "/mssql/generator.py", D + "/oracle/generator.py"],
  [("lookup merge", B + ":BaseContext._merge_lookup_table"), ("enum transformers", B + ":EnumTransformer/EnumListTransformer"), ("merge statement", D + "/*/generator.py:get_table_merge_stmt")],
  ["lookup and data rows of the simulated server joined back to supplied values"],
  state=[("lookup map", "value to identifier map held by a transformer", B + ":EnumTransformer")])

prop("C11", "Every value survives conversion to its database representation",
  "For every supported field type and dialect, distinct Python values convert to distinct database values of the kind the target column and driver accept, from which the original value can be recovered: booleans, integers, floats, decimals, text, bytes, dates, times, timestamps, UUIDs, network addresses, enumerations, lists and nested structures. None converts to NULL and nothing else does, for nullable fields of every type. Storing from an entity object and storing the same value as a record tuple give the same database value.",
  ["inputs", "configurations"],
  "all values of all supported types, optional and mandatory, in all dialects and modes",
  "Tests convert a handful of fixed objects; optional variants, nesting and most dialect-specific conversions have no example.",
  [B, D + "/mysql/generator.py", D + "/oracle/generator.py", D + "/mssql/generator.py", D + "/postgresql/generator.py", DT],
  [("field extractors", B + ":get_field_extractor and overrides"), ("value transformers", B + ":get_value_transformer and overrides"), ("SQL constants for defaults", DT + ":constant")],
  ["values bound at the driver boundary"])

prop("C12", "Data sources deliver each record once, in order, in bounded batches",
  "Whatever kind of source supplies records (list, one-shot generator, asynchronous generator, column selection, transformation, combinations), each record is delivered exactly once and in source order, with exactly the selected fields in the selected order, transformed exactly once by the function for its field. No batch is empty or exceeds the configured size, the concatenation of batches equals the sequence, and a source is never read further ahead than the batch in progress. An exception from the source or a transformation propagates instead of truncating the data silently.",
  ["inputs", "schedules", "fault_sequences"],
  "all source kinds and compositions, all lengths around multiples of the batch size, all selections, failures at any record",
  "No reliable test covers data sources or batching; the production batch size of 100000 is never crossed.",
  [B],
  [("data sources", B + ":IterableDataSource/AsyncIterableDataSource/SelectorDataSource/TransformerDataSource"), ("batching", B + ":batches")],
  ["pull and delivery events of instrumented sources"])

prop("C13", "Tabular files round-trip records without loss",
  "Writing entity objects to the tab-separated exchange format and reading them back, synchronously or asynchronously, returns the same records in the same order, for every field type supported, every value (tabs, newlines, backslashes, empty strings, NULL, Unicode), any column order and renamed columns. Reported column names and types correspond to the columns of the file. A malformed file raises an error; it never yields fewer or shifted values silently.",
  ["inputs"],
  "all entity types with supported scalar fields, all values, all column permutations and mappings, record-by-record and bulk reading",
  "Three fixed rows of three plain fields are tested.",
  ["pysqlsync/data/exchange.py", "pysqlsync/model/properties.py"],
  [("writer", "pysqlsync/data/exchange.py:TextWriter"), ("reader", "pysqlsync/data/exchange.py:TextReader/AsyncTextReader")],
  ["objects written versus records read"])

prop("C14", "Query results map to the requested shape without mixing columns",
  "A query result requested as a scalar, tuple, or data-class returns one item per row, in row order, with every value placed by column position for scalars and tuples and by column name for data-classes, regardless of the column order delivered by the driver. Requesting a single record returns the first row of the result and raises an error when there is none. NULLs, empty results and single-column tuples keep their shape.",
  ["inputs"],
  "all result-set shapes, types requested, column orders and row counts in each dialect's driver format",
  "Result mapping is only exercised against live servers in skipped tests.",
  ["pysqlsync/resultset.py", B, D + "/postgresql/connection.py", D + "/mysql/connection.py", D + "/mssql/connection.py", D + "/oracle/connection.py"],
  [("unwrap functions", "pysqlsync/resultset.py"), ("query_one/query_all", B + ":BaseContext")],
  ["driver result rows versus returned objects"])

prop("C15", "Connection parameters round-trip and secrets stay out of text output",
  "Parsing a connection URL yields exactly the host, port, user, password, database and transport-security option encoded in it, for any characters in the components. Those values, and no others, are handed to the database driver on connecting. The textual form of connection parameters and everything logged or printed by the library never contains the password.",
  ["inputs", "configurations"],
  "all component values including reserved and percent-encoded characters and absent components, all dialects",
  "Two URLs are tested; no test observes what the driver receives.",
  ["pysqlsync/connection.py", "pysqlsync/factory.py", D + "/postgresql/connection.py", D + "/mysql/connection.py", D + "/mssql/connection.py", D + "/oracle/connection.py"],
  [("URL parsing", "pysqlsync/factory.py:get_parameters"), ("textual form", "pysqlsync/connection.py:ConnectionParameters")],
  ["arguments of the driver's connect call", "captured log records"])

prop("C16", "Transport security is never weaker than requested",
  "A connection requested with encryption required is never established over plain text, one requested with certificate or host-name verification always verifies them, and one requested without encryption does not use it. Only the 'prefer' and 'allow' modes fall back to the other transport, only after a first attempt of their preferred kind failed, and at most once. A failure in any other mode surfaces as an error.",
  ["configurations", "fault_sequences"],
  "all transport-security modes x all sequences of connect outcomes (refused, TLS rejected, plain rejected, accepted) x dialects with transport-security support",
  "No reliable test opens a connection.",
  ["pysqlsync/connection.py", D + "/mysql/connection.py", D + "/postgresql/connection.py", D + "/redshift/connection.py"],
  [("TLS context", "pysqlsync/connection.py:create_context"), ("mode dispatch", D + "/*/connection.py:open")],
  ["sequence of driver connect calls and the TLS context each carries"])

prop("C17", "Failures surface, connections close, and no operation is half-reported",
  "When the server or driver rejects a statement, the caller receives an error carrying the cause, for statements, batches, queries and commands alike; it is never swallowed or reported as success. The native connection is closed exactly once when the connection scope ends, normally or by exception, and after a failed synchronization the library does not believe that the target schema is in place. An error raised inside the scope by the caller is not replaced or suppressed.",
  ["fault_sequences", "crash_points"],
  "a fault injected at every driver call of every workload, in every dialect",
  "Tests never observe a failing driver.",
  [B, D + "/postgresql/connection.py", D + "/mysql/connection.py", D + "/mssql/connection.py", D + "/oracle/connection.py", "pysqlsync/util/dispatch.py"],
  [("error wrapping", B + ":BaseContext.execute/execute_all/query_one/query_all"), ("scope handling", B + ":BaseConnection.__aenter__/__aexit__"), ("state update", B + ":Explorer.synchronize")],
  ["driver faults versus exceptions seen by the caller; open/close events"])

prop("C18", "Generated Python code and reverse-engineered classes are faithful",
  "Turning a discovered or declared schema into Python classes and converting those classes back yields an equivalent schema: tables, column types, nullability, defaults, identity, descriptions, primary keys, unique columns and references. Source code generated for a module, data-class or enumeration is valid Python that, when executed, defines classes with the same fields in the same order, types, defaults, documentation and enumeration members.",
  ["inputs"],
  "all schemas and classes expressible in the supported type system, including text with quotes and newlines in documentation and enumeration values",
  "The only schema-to-class test is skipped; code generation is compared for two classes.",
  [S2P, "pysqlsync/python_types.py", "pysqlsync/util/dataclasses.py", "pysqlsync/model/entity_types.py"],
  [("table to class", S2P + ":table_to_dataclass/SqlConverter"), ("code rendering", "pysqlsync/python_types.py")],
  ["schema and class equality across the round trip; executed generated source"])

prop("C19", "Random test data conforms to the declared entity type",
  "Generated random objects have, for every field, a value of the declared type that satisfies its constraints (length, precision, width, enumeration membership, optionality), as many objects as requested are produced, and values of primary-key and unique fields do not repeat within one generated set. They can therefore be stored in the generated table without constraint violations.",
  ["inputs"],
  "all entity types with supported field types, all counts and random seeds",
  "Only used as a helper in skipped server tests.",
  ["pysqlsync/data/generator.py"],
  [("generators by type", "pysqlsync/data/generator.py")],
  ["generated objects checked against the declared types and the simulated table"])

prop("C20", "Schema model operations behave as value-faithful set operations",
  "Comparing, merging, differencing, intersecting, sorting and copying schema models never loses, duplicates or alters an object: merging is idempotent and the union of both operands (conflicting definitions are refused), differences and intersections partition the operands, and sorting only permutes, placing every referenced schema or type before its users. Merging or synchronizing never changes the operand it reads from. What a table says about its columns (primary, unique, references to which table, values) follows from its own key and constraints, in whatever order these are listed.",
  ["inputs", "histories"],
  "all pairs of schema models and sequences of operations on them",
  "No test exercises these operations beyond one mutation example.",
  [OT, "pysqlsync/formation/object_dict.py"],
  [("ordered collection", "pysqlsync/formation/object_dict.py:ObjectDict"), ("merge and sort", OT + ":Namespace.merge/Catalog.merge/Catalog.sort")],
  ["model contents before and after each operation"])

prop("C21", "A common column type can hold every value of the types it joins",
  "The common type computed for two column types is independent of their order, equals the type when both are the same, and can represent every value of each of them; if there is no such type, an error is raised. Rendering a type to SQL and recognising it from the server's catalogue description yields the same type in every dialect.",
  ["inputs"],
  "all pairs and triples of supported SQL data types with any length, precision, scale, width and time-zone attributes",
  "No reliable test covers type joining or type recognition.",
  [DT, FDT],
  [("type join", DT + ":compatible_type"), ("type recognition", FDT + ":SqlDiscovery.sql_data_type_from_spec")],
  ["returned types evaluated on value ranges"])

prop("C22", "Blocking drivers run off the event loop without mixing up results",
  "While a dialect with a blocking driver executes a command, the event loop keeps running other tasks, and each awaiting caller receives the result or the exception of its own call. No call is lost, executed twice or started before it was issued, under any interleaving of concurrent sessions.",
  ["schedules", "fault_sequences"],
  "all interleavings of concurrent sessions, with injected delays and failures in driver calls",
  "No test runs concurrent sessions or delays a driver.",
  ["pysqlsync/util/dispatch.py", D + "/mssql/connection.py", D + "/oracle/connection.py", D + "/redshift/connection.py"],
  [("thread dispatch", "pysqlsync/util/dispatch.py:thread_dispatch")],
  ["call and return events per session with thread identity"])

prop("C23", "Session operations on schemas and tables affect exactly what they name",
  "Creating a schema makes that schema and nothing else, and does no harm where it exists already. Dropping a schema removes that schema with all tables in it, those that refer to each other included, and nothing outside; dropping a table if it exists removes that table or nothing. Dropping the objects of a session removes everything that the session created and leaves tables of others, with their rows, as they were. At any time the list of tables, and the answers whether a table or a column exists, agree with the database. This holds in any order of operations, and with schemas and tables whose names are similar, contain one another or contain characters with a meaning in patterns.",
  ["inputs", "histories"],
  "all histories of schema and table operations over schemas with similar names, tables that refer to each other within a schema, and tables of others",
  "No reliable test runs these operations against a database, and their errors show only with neighbours of similar names or after particular histories.",
  [B, D + "/postgresql/object_types.py", D + "/mysql/connection.py", D + "/mssql/connection.py", D + "/oracle/connection.py", DI],
  [("schema and table operations", B + ":BaseContext.drop_schema"), ("existence of tables and columns", D + "/*/discovery.py:has_table")],
  ["catalogue and rows before and after each operation", "answers of the explorer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
