"""writes properties.jsonl (the statements live here so that they are easy to edit)"""
import json
S = "geodiff/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=S + b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Variable-length integers are encoded canonically and decode to themselves",
  "Every 32-bit and 64-bit unsigned number is written in the variable-length form documented in docs/changeset-format.md (big-endian groups of 7 bits with continuation flags, 9th byte with 8 bits, shortest form), and the reported length is the number of bytes written. Decoding those bytes, followed by anything, returns the same number and the same length (32-bit decoding saturates to 0xffffffff for larger numbers), and decoding never looks past the last byte of the encoding.",
  ["inputs"], "all 2^64 values and all byte sequences of up to 9 bytes",
  "tests read a handful of recorded changesets whose varints are all one byte long",
  ["changesetvarint.h"], [("sqlite3PutVarint/putVarint64, putVarint32 macro", "changesetvarint.h"), ("sqlite3GetVarint, sqlite3GetVarint32, getVarint32 macro", "changesetvarint.h")])
p("C02", "The changeset writer produces exactly the documented binary format",
  "For any sequence of table definitions and well-formed changes, the bytes written are exactly the documented encoding: 'T', column count, one primary-key byte (0/1) per column, NUL-terminated name; then per change the operation byte, a zero indirect byte, the old record for update/delete and the new record for update/insert, every value as type byte plus big-endian 8-byte number or length-prefixed bytes. A change with an unknown operation, or whose number of values differs from the table's column count, is rejected with an error.",
  ["inputs", "histories"], "every table, every list of values (64-bit integers, doubles, texts and blobs of any content and length, NULL, undefined) and every call order",
  "the stable tests write only a few fixed entries with one table and never look at the bytes",
  ["changesetwriter.cpp", "changesetwriter.h"], [("beginTable, writeEntry", "changesetwriter.cpp"), ("writeRowValues, writeVarint, writeNullTerminatedString, writeByte", "changesetwriter.cpp")])
p("C03", "Reading a written changeset gives back the same tables and changes",
  "For every changeset, reading it returns its changes in file order, each with the operation, the old values (update, delete) and new values (insert, update), the table name and the primary-key flags that the documented format assigns to those bytes, and then reports the end; reading again after a rewind returns the same sequence. In particular everything written by the changeset writer is read back unchanged.",
  ["inputs", "histories"], "every well-formed changeset file and every number of reads and rewinds",
  "tests read three one-entry files; multi-table files, long strings, negative numbers, blobs, undefined values are not covered",
  ["changesetreader.cpp", "changesetreader.h", "changeset.h"], [("nextEntry, rewind, isEmpty", "changesetreader.cpp"), ("readRowValues, readTableRecord, readVarint, readNullTerminatedString, readByte", "changesetreader.cpp")],
  [("mOffset", "position of the next unread byte", S + "changesetreader.h"), ("mCurrentTable", "table the following changes belong to", S + "changesetreader.h")])
p("C04", "Arbitrary or truncated changeset bytes never crash or hang the reader",
  "For any file content whatsoever, reading changes ends after finitely many steps with either the end of the changeset or a reported error; no byte outside the file content is ever accessed and no other kind of failure occurs. A change is only returned if its whole encoding is present; a truncated value, name or header, an over-long length or an unknown value type is reported as an error.",
  ["inputs"], "all byte strings (below 2 GiB), including every truncation and corruption of valid changesets",
  "no test feeds malformed input; the space of inputs is unbounded",
  ["changesetreader.cpp", "geodiffutils.cpp", "changesetvarint.h"], [("bounds checks before every read", "changesetreader.cpp"), ("Buffer::read / size / c_buf", "geodiffutils.cpp")])
p("C05", "Inverting a changeset gives its exact inverse",
  "The inverted changeset has the same number of changes in the same order for the same tables with the same primary-key flags: an insert becomes a delete of the same row, a delete becomes an insert of the same row, and an update has old and new values exchanged except that an unchanged primary-key value stays on the old side. Inverting twice gives a changeset with the same content as the original.",
  ["inputs"], "every well-formed changeset: any number of tables (any names, composite keys), any interleaving, any values",
  "three tests invert one single-entry changeset each",
  ["changesetutils.cpp", "geodiff.cpp"], [("invertChangeset", "changesetutils.cpp"), ("GEODIFF_invertChangeset", "geodiff.cpp")])
p("C06", "JSON listings of changesets and conflicts are valid JSON and complete",
  "The JSON produced for a changeset (and for a list of conflicts) parses as JSON for every content (names and texts being valid UTF-8), and has one object per change in order, naming its table and operation (insert/update/delete), with exactly the columns whose old or new value is defined, in column order, each with the stored old and new values: integers as numbers, doubles as numbers with six decimals, text as the same text, blobs as base64 of their bytes, NULL as null, undefined omitted. Conflict objects name table, row id, and per column the base, theirs (old) and ours (new) values.",
  ["inputs"], "every changeset and conflict list, including names and texts with quotes, backslashes and control characters",
  "one recorded JSON comparison over one-entry changesets with plain text",
  ["changesetutils.cpp"], [("changesetToJSON, changesetEntryToJSON, valueToJSON, escapeJSONString", "changesetutils.cpp"), ("conflictToJSON, conflictsToJSON", "changesetutils.cpp")])
p("C07", "Change summary, change count and has-changes are exact",
  "The summary has exactly one object per table that has at least one change, with the exact numbers of inserts, updates and deletes of that table and valid JSON; the change count equals the number of changes in the changeset; has-changes answers 1 for a changeset file with any bytes in it, 0 for an empty one and -1 on error.",
  ["inputs"], "every well-formed changeset with any number of tables and changes",
  "one summary test with two entries",
  ["changesetutils.cpp", "geodiff.cpp"], [("changesetToJSONSummary", "changesetutils.cpp"), ("GEODIFF_changesCount, GEODIFF_hasChanges, GEODIFF_listChangesSummary", "geodiff.cpp")])
p("C08", "Rebase gives conflicting inserts fresh, distinct primary keys",
  "When two users inserted rows with the same integer primary key, the rebased insert gets a new key different from every key the other user inserted into that table and from the key of every other rebased insert of that table, and inserts that collide with nothing keep their key. All other columns of the inserted row are unchanged.",
  ["inputs"], "all pairs of changesets with integer keys (every set of inserted ids on both sides, every order)",
  "rebase is not reached by any stable test",
  ["geodiffrebase.cpp", "geodiffutils.cpp"], [("_find_mapping_for_new_changeset", "geodiffrebase.cpp"), ("RebaseMapping::addPkeyMapping/hasOldPkey/getNewPkey", "geodiffrebase.cpp"), ("_handle_insert", "geodiffrebase.cpp"), ("get_primary_key", "geodiffutils.cpp")])
p("C09", "Rebase keeps exactly our surviving changes, adjusted to their version",
  "The rebased changeset contains, per table and in order, each of our changes exactly once, except updates and deletes of rows the other user deleted, which are dropped; nothing else is added. Operations, new values and row identity of updates and deletes are kept, and the old value of each non-key column becomes the other user's new value where they changed that column, and stays ours otherwise.",
  ["inputs"], "all pairs of base-to-theirs and base-to-mine changesets over any tables with single integer keys",
  "rebase is not reached by any stable test",
  ["geodiffrebase.cpp"], [("_parse_old_changeset", "geodiffrebase.cpp"), ("_handle_update, _handle_delete, _handle_insert", "geodiffrebase.cpp"), ("_prepare_new_changeset", "geodiffrebase.cpp")],
  [("TableRebaseInfo", "keys inserted/deleted and new values updated by the other user", S + "geodiffrebase.cpp")])
p("C10", "Rebase reports a conflict exactly for columns changed on both sides",
  "Rebasing reports one conflict per row that both sides updated and in which both changed at least one common column, listing exactly those columns with the base value, their value and our value, the table name and the row's key; the last-change timestamp column of gpkg_contents is never reported. Rows changed on one side only are never reported.",
  ["inputs"], "all pairs of changesets with updates of any subsets of rows and columns",
  "rebase is not reached by any stable test",
  ["geodiffrebase.cpp", "geodiffutils.cpp"], [("_handle_update, _addConflictItem", "geodiffrebase.cpp"), ("ConflictFeature, ConflictItem", "geodiffutils.cpp")])
p("C11", "Trivial rebases and file operations leave inputs intact and outputs complete",
  "Rebasing when the other side has no changes yields our changeset unchanged, and when we have no changes yields an empty changeset; rebase, invert and concatenation never modify or remove their input files; copying a file makes the destination byte-identical to the source and leaves the source alone; temporary files are removed when their guard goes out of scope, also on errors.",
  ["inputs", "fault_sequences"], "all file contents, empty or not, and every error exit of the operations",
  "no stable test touches rebase or file helpers",
  ["geodiffrebase.cpp", "geodiffutils.cpp", "geodiff.cpp"], [("rebase", "geodiffrebase.cpp"), ("filecopy, fileremove, flushString, TmpFile, Buffer::read/write", "geodiffutils.cpp"), ("GEODIFF_createRebasedChangesetEx, GEODIFF_rebaseEx", "geodiff.cpp")])
p("C12", "A SQLite diff records exactly the row differences of the two databases",
  "The changeset created between two SQLite databases with equal schemas contains, for each such table with a primary key, exactly one insert per row only in the modified database, one delete per row only in the base, and one update per row present in both that differs, with old values for key and changed columns and new values for changed columns only, undefined elsewhere; equal databases give an empty changeset. The derived contents tables (gpkg_ogr_contents*), R-tree tables (rtree_*) and sqlite_sequence never appear, and every other table is reported under its own name with its own key flags.",
  ["inputs"], "all pairs of databases: any number of tables, names needing quotes, single and composite keys, NULLs, integers, reals, texts and blobs",
  "no stable test opens a database",
  ["drivers/sqlitedriver.cpp", "drivers/sqliteutils.cpp", "geodiffutils.cpp"], [("SqliteDriver::createChangeset, handleInserted, handleUpdated", "drivers/sqlitedriver.cpp"), ("sqlFindInserted, sqlFindModified", "drivers/sqlitedriver.cpp"), ("changesetValue, valuesEqual", "drivers/sqlitedriver.cpp"), ("isLayerTable", "geodiffutils.cpp")])
p("C13", "Applying a changeset to SQLite is exact and all-or-nothing",
  "Applying a changeset either succeeds, and then every insert, update and delete of it has been made exactly once on the row whose key and old values (for an update: of the changed columns) match and nothing else changed, or it fails with an error and the database content is what it was before. A change whose row is missing, whose old values differ, or which violates a constraint makes the application fail as a conflict; triggers that were dropped while applying exist again afterwards with the same definition.",
  ["inputs", "fault_sequences", "histories"], "all databases and changesets, and failure of any statement at any point of the application",
  "no stable test opens a database; failures in the middle are never produced",
  ["drivers/sqlitedriver.cpp", "drivers/sqliteutils.cpp"], [("SqliteDriver::applyChangeset, Sqlite3SavepointTransaction", "drivers/sqlitedriver.cpp"), ("sqlForInsert, sqlForUpdate, sqlForDelete, bindValue", "drivers/sqlitedriver.cpp"), ("sqliteTriggers", "drivers/sqliteutils.cpp")])
p("C14", "Incompatible schemas are refused instead of producing wrong data",
  "Creating a changeset between databases whose table lists differ, or where a table's columns, types, key or geometry definitions differ, fails with an error and never returns success; applying a changeset that refers to a missing table, or to a table with a different number of columns or different key columns, fails with an error and changes nothing. Schema comparison is an equivalence: equal exactly when all compared attributes are equal.",
  ["inputs"], "all pairs of schemas and all changesets",
  "no stable test opens a database or compares schemas",
  ["drivers/sqlitedriver.cpp", "tableschema.h", "tableschema.cpp", "drivers/postgresdriver.cpp"], [("SqliteDriver::createChangeset, applyChangeset", "drivers/sqlitedriver.cpp"), ("TableSchema/TableColumnInfo/CrsDefinition operator==, !=", "tableschema.h")])
p("C15", "The C API reports every failure by return code and never lets exceptions out",
  "Every public C function returns success only if the requested operation succeeded and otherwise an error (or conflict) code: any exception raised by drivers, readers or writers is caught and mapped, a null pointer for a required argument yields an error without being dereferenced, and an operation that failed is never reported as success.",
  ["inputs", "fault_sequences"], "all combinations of null and non-null arguments and any failure raised by any layer below",
  "stable tests never call the C API with failing inputs",
  ["geodiff.cpp", "geodiff.h"], [("GEODIFF_* functions: null checks, try/catch, status mapping", "geodiff.cpp")])
p("C16", "Hexadecimal and base64 codecs are exact inverses on all byte strings",
  "Hex encoding yields two upper-case hex digits per byte in order, and hex decoding (upper or lower case) of it returns the original bytes; base64 encoding yields the standard padded encoding and base64 decoding of it returns the original bytes.",
  ["inputs"], "all byte strings of any length, including zero bytes and bytes above 127",
  "two short strings are tested",
  ["changesetutils.cpp", "3rdparty/base64utils.cpp"], [("bin2hex, hex2bin, num2hex, hex2num", "changesetutils.cpp"), ("base64_encode, base64_decode", "3rdparty/base64utils.cpp")])
p("C17", "Generated SQL quotes every identifier and string so that it means itself",
  "For any table, schema or column name and any text value, the SQL generated for diffing and applying refers to exactly that name or value: a quoted PostgreSQL identifier or string literal denotes exactly the given characters, and every name in generated SQLite statements is quoted with embedded quotes doubled; the statements select, match and change exactly the intended columns in table order.",
  ["inputs"], "all names and texts (quotes, backslashes, spaces, semicolons, empty strings) and all column lists",
  "no stable test generates SQL",
  ["drivers/postgresutils.cpp", "drivers/sqlitedriver.cpp", "drivers/postgresdriver.cpp", "drivers/sqliteutils.cpp"], [("quotedIdentifier, quotedString", "drivers/postgresutils.cpp"), ("sqlForInsert/Update/Delete, sqlFindInserted/Modified, sqlitePrintf", "drivers/sqlitedriver.cpp")])
p("C18", "Values behave as values: exact storage, deep copies, exact equality",
  "A value returns exactly what was last stored in it (type, 64-bit integer, double, every byte of text or blob, NULL, undefined); copies are independent of the original and survive its destruction or change, including self-assignment; two values are equal exactly when they have the same type and the same content, for every pair of types.",
  ["inputs", "histories"], "all pairs of values and all sequences of set, copy, assign and destroy operations",
  "tests compare a few values of the same type and never NULL with NULL",
  ["changeset.h"], [("Value::operator=, operator==, set*/get*, reset", "changeset.h")])
p("C19", "Table schema conversion between SQLite and PostgreSQL types is total and exact",
  "Converting a table schema between database kinds maps each SQLite type name (in any letter case) to its documented PostgreSQL type (integer, double precision, boolean, text, bytea, timestamp, geometry with Z/M flags and SRS, serial for auto-increment integers, text for anything unknown) and each PostgreSQL geometry type back to its geometry type name, leaves all other attributes, columns and their order unchanged, does nothing between equal kinds, and fails for unknown kinds.",
  ["inputs"], "all table schemas: any number of columns, any type names, any driver names",
  "no stable test converts schemas",
  ["tableschema.cpp", "geodiffutils.cpp"], [("tableSchemaConvert, tableSchemaSqliteToPostgres, tableSchemaPostgresToSqlite", "tableschema.cpp"), ("lowercaseString", "geodiffutils.cpp")])
p("C20", "Log messages reach the callback exactly when the level allows it",
  "A message logged as error, warning, information or debug is delivered to the registered callback exactly once with its text and level when that level does not exceed the maximum level, and not at all otherwise or when no callback is set; changing the callback or level affects all later messages.",
  ["inputs", "histories"], "all messages, levels, callbacks and sequences of reconfiguration",
  "no stable test looks at logging",
  ["geodifflogger.cpp", "geodiff.cpp"], [("Logger::log, error, warn, info, debug, setCallback, setMaxLogLevel", "geodifflogger.cpp")])
p("C21", "Applying a changeset to PostgreSQL is all-or-nothing with exact statements",
  "Applying a changeset to PostgreSQL runs inside one transaction that is committed only if every statement succeeded and affected exactly one row, and is rolled back otherwise, including when any statement fails; each statement inserts, updates or deletes exactly the row of its change, matching key and old values (NULL by IS NULL) and setting exactly the defined new values. Changes of GeoPackage metadata tables (gpkg_*) are skipped.",
  ["inputs", "fault_sequences"], "all changesets and a failure of any statement at any point",
  "no PostgreSQL server is available to the tests",
  ["drivers/postgresdriver.cpp", "drivers/postgresutils.h"], [("PostgresDriver::applyChangeset, PostgresTransaction", "drivers/postgresdriver.cpp"), ("sqlForInsert, sqlForUpdate, sqlForDelete, valueToSql", "drivers/postgresdriver.cpp")])
p("C22", "Small text and list helpers compute what their names say",
  "Substring replacement replaces every non-overlapping occurrence from left to right and nothing else; prefix test, list search and list joining give the mathematically expected result; a table is a user layer table exactly when its name does not begin with gpkg_ or rtree_ and is not sqlite_sequence; lower-casing changes only ASCII letters and keeps the length.",
  ["inputs"], "all strings and lists",
  "none of these helpers is called directly by a stable test",
  ["geodiffutils.cpp"], [("replace, startsWith, indexOf, concatNames, isLayerTable, lowercaseString", "geodiffutils.cpp")])
open("properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
