"""What decides each property."""
VARINT_T = "sqlite3PutVarint/sqlite3GetVarint32 satisfy the contracts PutVarint/GetVarint32 (proved in C01 by CBMC on the real header for all inputs)"
BASE = ["clang 18 AST of the current sources; the verification condition generator in /verif/cppvc (C++ subset semantics)", "z3, cvc5"]
REBASE_T = ["RebaseMapping::dump and DatabaseRebaseInfo::dump only log", "ChangesetWriter::open and close (assumed contracts over a ghost file system)"]
REBASE_A = ["keys inserted by the other user are below 2^30 (known finding otherwise)", "changesets shorter than 512 MB", "output stream writes succeed",
            "the composition in rebase() itself (open, rewind, the order of the three steps) is covered by the bounded run"]
NOT_APPLICABLE = {}
PROPS = {
    "C01": dict(lemmas=[("varint", "prove", "noprog")], harness=("p_fmt", "c01"), level="proof", technique="CBMC function contracts (goto-instrument --dfcc) enforced on the real header",
                trusted=["CBMC 6.11 (goto-cc, goto-instrument --dfcc, MiniSat) and its C semantics; the header is compiled as C"],
                note="All 2^64 values and all varints: every function of changesetvarint.h and both macros are checked against their contract, callers against the callee's contract; loops unwound with unwinding assertions (complete)."),
    "C02": dict(units=[("writer",)], harness=("p_fmt", "c02"), level="proof", trusted=[VARINT_T] + BASE,
                assumptions=["output stream writes succeed", "texts and blobs shorter than 2 GB, fewer than 2^31 columns (stated as preconditions)"],
                note="Every function of ChangesetWriter except open() is verified against the documented encoding for all inputs; trusts the assumed contracts on std::ofstream/vector/string and the varint contracts proved in C01."),
    "C03": dict(units=[("reader",)], harness=("p_fmt", "c03"), level="proof", trusted=[VARINT_T] + BASE,
                note="The reader's functions are verified against the decoding function of the documented format for every byte string."),
    "C05": dict(units=[("jsons", ["invertChangeset"]), ("reader", ["nextEntry"]), ("writer", ["writeEntry", "beginTable", "writeRowValues"])], lemmas=[("lemmas", "ext_rowenc", "noprog"), ("lemmas", "short_texts", "noprog"), ("lemmas", "double_inverse", "noprog")],
                harness=("p_fmt", "c05"), level="proof", trusted=[VARINT_T] + BASE, assumptions=["output stream writes succeed", "changesets shorter than 2 GB"],
                note="invertChangeset is proved for every byte string: what it writes is the encoding of the inverse of every change that the reader returns, in order, with a table record at every change of table; inverting twice is the identity by a lemma on columns."),
    "C06": dict(units=[("jsons", ["escapeJSONString", "valueToJSON", "changesetEntryToJSON", "changesetToJSON", "conflictToJSON", "conflictsToJSON"]), ("util", ["replace", "base64_encode"]), ("reader", ["nextEntry"])],
                lemmas=[("lemmas", "escape_chain", "noprog"), ("lemmas", "short_texts", "noprog")], harness=("p_fmt", "c06"), level="proof", trusted=[VARINT_T] + BASE,
                assumptions=["std::to_string gives the decimal form (assumed contract); doubles are printed with six decimals", "texts and names are valid UTF-8 (for the listing to be valid JSON)", "changesets shorter than 2 GB"],
                note="Every JSON function is proved to produce exactly the specified text for all changes and conflicts; that this text is valid JSON with these members follows from the specification functions and is also checked by a strict parser in the bounded run."),
    "C07": dict(units=[("jsons", ["changesetToJSONSummary", "GEODIFF_changesCount", "GEODIFF_hasChanges", "open", "isEmpty"]), ("reader", ["nextEntry"])], harness=("p_fmt", "c07"), level="proof", trusted=[VARINT_T] + BASE + ["Buffer::read (assumed contract over a ghost file system)"],
                assumptions=["a std::map is enumerated with every key exactly once"],
                note="Summary counts are proved exact for every table name (loop invariant: counts so far + counts of the rest = counts of the changeset); changes count and has-changes are proved over a ghost file system."),
    "C16": dict(units=[("util", ["bin2hex", "hex2bin", "base64_encode"])], harness=("p_misc", "c16"), level="proof", trusted=BASE,
                bounded=["base64_decode: compared with an independent decoder on all one-byte strings, corner cases and random strings of up to 1000 bytes"],
                assumptions=["base64_decode is checked by bounded comparison only", "inputs shorter than 2^39 bytes (hex), 2 GB (base64)"],
                note="bin2hex, hex2bin and base64_encode are proved for every byte string; base64_decode is a bounded stand-in."),
    "C18": dict(units=[("value",)], harness=("p_misc", "c18"), level="proof", trusted=BASE + ["std::string's copy constructor and operator== (assumed contracts)"],
                assumptions=["doubles are compared by the == of C++ (so NaN differs from itself)", "new never fails"],
                note="Every method of Value is verified on the real tagged union with owned strings: class invariant, ghost set of live strings (no leak of ownership, no double free, no use after free), separation of copies."),
    "C19": dict(units=[("schema", ["tableSchemaSqliteToPostgres", "tableSchemaPostgresToSqlite", "tableSchemaConvert", "lowercaseString"])], harness=("p_misc", "c19"), level="proof", trusted=BASE,
                assumptions=["the log call for unknown types has no other effect (C20)", "std::to_string(int) gives the decimal form (assumed contract)"],
                note="The three conversion functions are proved for every schema: a loop invariant says that the columns before the index have the specified type and everything else is unchanged."),
    "C20": dict(units=[("logger",)], harness=("p_misc", "c20"), level="proof", trusted=BASE + ["Logger::instance() returns the one static Logger"],
                note="Every Logger method and the two C functions are proved against a ghost log of the calls made through the callback pointer."),
    "C22": dict(units=[("util", ["startsWith", "lowercaseString", "isLayerTable", "indexOf", "concatNames", "replace"])], harness=("p_misc", "c22"), level="proof", trusted=BASE,
                note="All six helpers are proved for all arguments (texts shorter than 2^40 bytes)."),
    "C04": dict(units=[("reader",)], harness=("p_fmt", "c04"), level="proof", trusted=[VARINT_T] + BASE,
                note="Memory safety, termination measures and error reporting of the reader's functions are discharged for every byte string shorter than 2 GB."),
    "C08": dict(units=[("rebase", ["get_primary_key", "_get_primary_key", "_parse_old_changeset", "addPkeyMapping", "hasOldPkey", "getNewPkey", "_find_mapping_for_new_changeset", "_handle_insert"])], lemmas=[("lemmas", "pkcount_mono", "noprog"), ("lemmas", "rebase_keys", "noprog")],
                harness=("p_rebase", "c08"), level="proof", trusted=[VARINT_T] + BASE + REBASE_T, assumptions=REBASE_A,
                note="The key mapping is proved for every pair of changesets, for an arbitrary table and arbitrary keys (folds over the changes); the new row is proved value by value; a lemma derives that final keys are distinct and not among theirs."),
    "C09": dict(units=[("rebase", ["get_primary_key", "_get_primary_key", "_handle_insert", "_handle_delete", "_handle_update", "_prepare_new_changeset"]), ("reader", ["nextEntry"]), ("writer", ["writeEntry", "beginTable", "writeRowValues"])],
                lemmas=[("lemmas", "ext_lists"), ("lemmas", "ext_rowenc", "noprog"), ("lemmas", "short_texts", "noprog"), ("lemmas", "pkcount_mono", "noprog")],
                harness=("p_rebase", "c09"), level="proof", trusted=[VARINT_T] + BASE + REBASE_T, assumptions=REBASE_A,
                note="_prepare_new_changeset is proved for every changeset, table and key mapping: the records collected for a table are exactly the adjusted surviving changes in order, and the file has each table's header and records; the adjustment of one change is proved value by value."),
    "C10": dict(units=[("rebase", ["get_primary_key", "_get_primary_key", "_parse_old_changeset", "_handle_update", "_prepare_new_changeset"]), ("reader", ["nextEntry"])],
                lemmas=[("lemmas", "pkcount_mono", "noprog"), ("lemmas", "short_texts", "noprog"), ("lemmas", "ext_lists")],
                harness=("p_rebase", "c10"), level="proof", trusted=[VARINT_T] + BASE + REBASE_T, assumptions=REBASE_A,
                note="_handle_update is proved to append exactly one conflict with exactly the columns changed on both sides; _prepare_new_changeset is proved to report the fold of these over all changes."),
    "C11": dict(harness=("p_api", "c11"), level="exploration", note="Bounded."),
    "C12": dict(harness=("p_sqlite", "c12"), level="exploration", note="Bounded."),
    "C13": dict(units=[("liteapply",), ("sqltext", ["LiteInsert", "LiteUpdate", "LiteDelete"]), ("reader", ["nextEntry"])], lemmas=[("lemmas", "update_params", "noprog"), ("lemmas", "short_texts", "noprog")],
                harness=("p_sqlite", "c13"), level="proof",
                trusted=[VARINT_T] + BASE + ["SQLite (assumed contracts): prepare, bind, step, changes, reset, clear_bindings, finalize, get_autocommit, SAVEPOINT/ROLLBACK TO/RELEASE, sqlite3_mprintf's %w and %d",
                                             "sqliteTriggers and SqliteDriver::tableSchema (assumed contracts: read only)"],
                assumptions=["SQLite executes a prepared statement with its bindings as documented, and what the statement text means (checked by the bounded run)", "changesets shorter than 2 GB"],
                note="applyChangeset is proved against a typestate of the connection and its statements for every changeset: all triggers dropped first and created again last, then for each change exactly the statement of its kind with exactly its values bound, executed once, in order, inside the savepoint and on a table with the same columns and keys; released only if every statement succeeded and hit a row, rolled back otherwise. The statement texts are proved column by column."),
    "C14": dict(units=[("schema", ["operator==", "operator!=", "hasPrimaryKey", "columnFromName", "geometryColumn"])], harness=[("p_sqlite", "c14"), ("p_misc", "c14_schema")], level="exploration", trusted=BASE, note="Bounded."),
    "C15": dict(harness=[("p_api", "c15"), ("p_pg", "c21")], level="exploration", note="Bounded."),
    "C17": dict(units=[("sqltext",)], harness=("p_pg", "c17"), level="proof", trusted=BASE + ["sqlite3_mprintf's %w, %q, %s, %d as documented (assumed contract of sqlitePrintf)", "std::string::replace loop (proved in C22)"],
                assumptions=["column and table names contain no NUL byte (a C string ends there)", "the composition of the texts in dumpData, createTables and the queries of the drivers is covered by the bounded run"],
                note="The text of every generated statement is proved to be the specified one, column by column, for all names, schemas and values: each name inside double quotes with quotes doubled, each text value inside single quotes with quotes (and backslashes) doubled."),
    "C21": dict(units=[("pgapply",), ("sqltext", ["quotedIdentifier", "quotedString", "valueToSql", "PgInsert", "PgUpdate", "PgDelete"]), ("reader", ["nextEntry"])], harness=("p_pg", "c21"), level="proof",
                trusted=[VARINT_T] + BASE + ["libpq (assumed contracts): PQexec, PQresultStatus, PQcmdTuples, PQclear", "execSql, tableSchema, getSequenceObjectName, updateSequenceObject of the PostgreSQL driver (assumed contracts)"],
                assumptions=["PostgreSQL executes a statement that reports one affected row as written, and COMMIT/ROLLBACK as documented", "changesets shorter than 2 GB"],
                note="applyChangeset is proved against a typestate of the connection for every changeset: exactly the statement of each change, in order, inside one transaction, on a table with the same columns and keys; commit only if all were executed with one row each, rollback otherwise. The statement texts are proved column by column."),
}
