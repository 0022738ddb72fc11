#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A table behaves as a map from primary key to row",
  "After any sequence of insert, update, upsert and delete calls, each carrying any number of rows including several for one primary key, every point read, multi-point read, existence test and full scan returns exactly what a map from primary key to the last accepted row holds. Insert is refused when a key already exists or occurs twice in the call, update is refused when a key is missing, and rows repeated in one update or upsert call take effect in the order given (upsert folding the conflict function over them). This holds for every serializer shipped with bond and any field content, with or without a filter attached, for calls larger than the internal chunk size, and across reopen, flush and compaction.",
  ["inputs","histories","configurations"], "every sequence of table operations, row contents, duplicate patterns, serializer, call size and reopen/flush/compact interleaving",
  "Existing tests run a few fixed rows through each call once; they never compare a long random history (with repeated keys, multi-thousand-row calls, sparse serializers) with a reference map.",
  ["table.go","table_unsafe.go","serializers/*.go"],
  [("Insert/Update/Upsert/Delete/Get/GetPoint/Exist/Scan","table.go"),("batched / sortKeys / keyDuplicate","table.go"),("SerializerAnyWrapper","serializer.go")],
  [("data key space","[table][0][0 0 0 0][0 0 0 0][pk] -> serialized row","pebble")],
  ["public Table API results","raw key space through DB.Backend()"])
p("C02", "Every secondary index holds exactly the entries of the live rows",
  "Whenever no write is in progress, each secondary index of a table contains exactly one entry for every live row that the index's filter accepts, under the index key and order computed from the row as stored, and no other entry. This holds after any sequence of inserts, updates, upserts (with repeated rows and conflict functions), deletes given the stored rows, unsafe inserts of new rows and unsafe updates given the stored old rows, made directly or through committed batches, and after refused calls. Consequently an index lookup and a scan of the whole table always agree on which rows match.",
  ["inputs","histories"], "every history of write calls over rows that move between index keys, orders and in and out of index filters",
  "Tests check index contents after one call with two or three rows; stale or missing entries need histories with reuse, duplicates in a call, chunking and optional fields.",
  ["index.go","table.go","table_unsafe.go"],
  [("Index.OnInsert/OnUpdate/OnDelete","index.go"),("encodeIndexKey","index.go"),("old row deserialization in Update/Upsert","table.go")],
  [("index key space","[table][index][len][index key][len][order][pk] -> empty","pebble")],
  ["raw index key space", "ScanIndex/Query results"])
p("C03", "A table write call takes effect completely or not at all",
  "A table write call made without a caller's batch that returns an error - a refused row, a serializer failure, a panicking or failing user function, a context cancelled part-way, a failing storage write - leaves every row and every index entry exactly as before, whichever row the error occurs at and however many rows the call carries. A call that returns success has applied all of its rows and all of their index entries. A concurrent reader never sees part of one call.",
  ["inputs","fault_sequences","histories"], "every write call, every row position at which it can fail, every kind of failure",
  "Tests inject no failures and check at most that an error was returned, on calls of two or three rows, never at a chosen position of a multi-thousand-row call.",
  ["table.go","table_unsafe.go","batch.go"],
  [("internal batch committed once at the end","table.go"),("ctx.Done() checks per row","table.go")],
  [], ["raw key space before/after","onConflict, serializer and context call-backs"])
p("C04", "Acknowledged writes survive a crash and interrupted ones are all or nothing",
  "If the process or machine stops at any point, reopening the database succeeds and yields the state after a prefix of the write calls, in which every call and synced batch commit that had returned success is present. The call in flight is either entirely present, rows and index entries alike, or entirely absent. Rows and secondary indexes agree after every such recovery (an index whose rebuild was cut short agrees once rebuilt again), and the recovered database accepts further work.",
  ["crash_points","histories"], "every crash point between storage operations of a workload of table writes, batch commits, reindexing, flushes, and repeated crashes",
  "No existing test crashes or reopens after an unclean stop; unsynced data being dropped is invisible to a test that closes cleanly.",
  ["table.go","batch.go","bond.go","table_unsafe.go"],
  [("batch.Commit(Sync)","table.go"),("pebbleWriteOptions","bond.go"),("initVersion","version.go")],
  [("WAL and sstables","durable state in the file system","pebble vfs")],
  ["in-memory strict file system dropping unsynced data"])
p("C05", "Batches isolate, overlay and commit exactly their own writes",
  "Writes made through a batch are invisible to every reader not given that batch until it is committed, after which they are visible together and the database equals the one obtained by issuing the same calls directly. Through a read-write batch, every read - get, multi-get, existence test, scan, index scan, iterator, query, intersection - sees the committed database overlaid with that batch's writes so far, and reading through a write-only batch reports an error instead of a partial answer (existence tests excepted, which have no error result). Closing or resetting a batch discards it, and applying one batch onto another adds the applied batch's writes and nothing else.",
  ["programs","histories"], "every interleaving of several open batches of both kinds with direct operations, commits, resets, closes and applies",
  "Tests exercise one batch with one table call; isolation and overlay quantify over every read path crossed with every pending write and over several batches at once.",
  ["batch.go","table.go","query.go","index.go","iter.go","bond.go"],
  [("optBatch argument plumbing","table.go"),("_batch.Apply/Commit/Reset","batch.go"),("executeIntersect","query.go")],
  [], ["public reads with and without the batch"])
p("C06", "A query returns exactly the rows its clauses describe, in order",
  "For any table content and any combination of index, selector, filter, order, reverse, after, offset and limit, a query returns exactly what the following yields: the rows the selector selects in index order (backwards when reversed), only those following the after row (for selectors whose parts do not overlap), those the filter accepts, sorted by the order function when given (rows it does not tell apart in any order), without the first offset rows, cut to limit rows when a limit is set. Any offset and limit, however large, is honoured, the result does not depend on the internal prefetch size, and building one query from another never changes the original.",
  ["inputs","configurations"], "every table content, query clause combination, parameter value and prefetch size",
  "Tests cover a handful of clause combinations over a few rows; the combinatorics of clauses, boundaries and prefetch sizes are not sampled.",
  ["query.go","table.go","index.go"],
  [("executeQuery","query.go"),("selectorWithAfter","query.go"),("scanForEachSecondaryIndex prefetch","table.go")],
  [], ["Query.Execute results"])
p("C07", "Selectors and scans yield exactly the selected rows in index order",
  "A scan, index scan, ranged get or iterator given a point, points, range or ranges selector yields exactly the rows whose index position lies in the selected part, each once per selected part, ascending in index order (index key, then order, then primary key) within a part and in the given sequence of parts, and exactly the reverse when reversed. On a secondary index a point selects the rows with its index key from its order and primary key onwards; on the primary index the rows from its key onwards (each given key exactly, for points); a range is inclusive at both ends. This holds for all field values including extremes of every width and for any prefetch size.",
  ["inputs","configurations"], "every fixed-width index key, order and primary key value, selector shape, direction and prefetch size",
  "Tests use small mid-range values; errors at byte boundaries, extreme values, empty parts and prefetch boundaries need systematic boundary values.",
  ["index.go","iter.go","selector.go","table.go","keys.go"],
  [("Index.Iter bounds","index.go"),("keySuccessor","table.go"),("_iteratorMulti","iter.go")],
  [], ["ScanIndex/ScanIndexForEach/Iter/Get results"])
p("C08", "Key encoding is order preserving, injective, stable and decodable",
  "For every field type, encoded fixed-width fields compare bytewise exactly as the values compare (fields of a composite key in sequence), distinct values encode differently, and a variable-length field placed last keeps lexicographic order. Splitting an encoded key gives back the table, index, index key, order and primary key it was built from, conversion of an index key to its row key gives the row's key, and encoding is the same whatever buffer it is built in. The byte layout equals the documented one, so existing databases stay readable.",
  ["inputs"], "every value of every field type (all 16-bit values exhaustively), big integers of every supported width, every composition, every buffer",
  "Tests compare a few pairs; ordering and injectivity are statements about all pairs of values.",
  ["keys.go"],
  [("KeyBuilder.Add*","keys.go"),("KeyEncode/KeyEncodeRaw/KeyDecode","keys.go"),("KeyBytes","keys.go")],
  [], ["encoded bytes"])
p("C09", "Index order clauses sort ascending or descending over all values",
  "For every supported order field type and every pair of values, including the extremes of the type, an index ordered ascending lists rows by ascending value and one ordered descending lists them by descending value, with ties broken by later order fields and then by primary key. Computing an index order never modifies the row it is computed from. Updating a row moves it to the place of its new value.",
  ["inputs"], "every pair of values of every order type in both directions, alone and combined",
  "Tests check a few positive values per direction; extremes and repeated evaluation over the same row are not covered.",
  ["index.go","keys.go"],
  [("IndexOrder.Order*","index.go")],
  [], ["ScanIndex order","row bytes before/after"])
p("C10", "Intersecting queries returns the rows in every selected set",
  "A query intersected with others returns exactly the rows that its own selector and every intersected query's selector select, each once, in primary key order (reversed when asked) or sorted by the order function, then treated by filter, after, offset and limit as for a plain query. Pending writes of a given batch are honoured throughout. Clauses that an intersected query does not support are refused with an error and never silently ignored.",
  ["inputs","configurations"], "every combination of index selectors, table contents, clauses and batches",
  "Tests use a few fixed intersections without batches, paging or reverse.",
  ["query.go","index.go"],
  [("executeIntersect","query.go"),("Index.Intersect","index.go"),("checkIntersectQueries","query.go")],
  [], ["Query.Execute results"])
p("C11", "Paging visits every row exactly once",
  "Walking a query page by page, each page limited to n rows and started after the last row of the previous page (or at the accumulated offset), yields exactly the sequence of the unpaged query, for every page size, index, selector (its parts not overlapping), filter, direction and sort with a total order. The walk terminates after the last page. When rows are written or deleted between pages, including the very row the next page starts after, every row that exists unchanged throughout is still visited exactly once in a walk over an unsorted query.",
  ["inputs","histories"], "every content, page size, selector, direction, and interleaving of writes between pages",
  "Tests page once or twice over ten rows in one direction; completeness of the walk is a property of the whole sequence of pages under mutation.",
  ["query.go","iter.go","index.go"],
  [("selectorWithAfter","query.go"),("after-row skip in executeQuery","query.go")],
  [], ["sequence of Query.Execute results"])
p("C12", "Adding and rebuilding indexes yields exact indexes and touches nothing else",
  "Rebuilding any subset of a table's indexes leaves each of them with exactly the entries of the live rows, whatever stale, foreign or missing entries they held before, for every index number and table number and any table size, and it stays exact across flush, compaction and reopen, with no writer active during the rebuild. Rows, the other indexes and the other tables are unchanged. Adding an index whose number is already used is refused and leaves the table as usable as before. Rebuilding never loses a row, even when the primary index is among those named.",
  ["inputs","configurations","histories"], "every index and table number, table size around batch limits, prior index contents, subset of indexes",
  "Tests rebuild one index on an empty or tiny table with middle-of-range numbers.",
  ["table.go","index.go"],
  [("AddIndex/ReIndex","table.go"),("DeleteRange of the index key space","table.go")],
  [], ["raw key space","ScanIndex"])
p("C13", "A filter never hides a row",
  "With a bloom filter attached to a table, every operation returns what it would return without one: a row that was inserted or upserted is never reported absent, never inserted twice, and always found by get, multi-get, existence test, upsert, update and index reads. This holds with any filter size, bucket count and false positive rate, with adds and lookups from many goroutines at once, through batches, and before, during and after lazy initialization.",
  ["inputs","schedules","configurations"], "every key set, filter configuration and interleaving of adds and lookups, through direct calls and batches",
  "Tests add a few keys sequentially; losing a bit needs concurrent adds to one bucket or unusual configurations.",
  ["bloom/bloom_filter.go","filter.go","table.go"],
  [("BloomFilter.Add/MayContain","bloom/bloom_filter.go"),("FilterInitializable","filter.go"),("exist/get/Get filter short-cuts","table.go")],
  [], ["table API with and without filter","race detector"])
p("C14", "A persisted filter is reloaded faithfully or rebuilt completely",
  "Initializing a filter, from whatever the store holds - nothing, a complete save, a partial or damaged save, a save made with another configuration, or one older than the data because the process stopped without saving - yields a filter that may contain every row of the scanned tables. Saving and loading loses no key, whether the store is the database or the file system storer (one filter per store or key prefix), and a save after further adds includes them. Clearing a filter's storage removes its own entries and nothing that belongs to anything else in the store.",
  ["histories","fault_sequences","configurations"], "every history of add, save, load, clear, restart and store fault, for every storer and key prefix",
  "Tests save and load once without restarts, faults, foreign entries or configuration changes.",
  ["bloom/bloom_filter.go","filter.go","filters/filter_fs_storer.go"],
  [("Load/Save/Clear","bloom/bloom_filter.go"),("FilterInitialize","filter.go"),("FilterFSStorer","filters/filter_fs_storer.go")],
  [], ["MayContain over all rows","store contents"])
p("C15", "Dump and restore reproduce exactly the chosen tables",
  "Restoring a dump into an empty database, through the API or the command line tool, gives each requested table exactly the rows it had at the moment of the dump and, when indexes are dumped and requested, exactly its index entries; tables not requested receive nothing. This holds for every table and index number, table size (including files that are split) and directory name, and a dump taken while writers are active is a single consistent snapshot of rows and indexes. A failing dump or restore reports an error (a non-zero exit of the tool) and the dumped database is not changed.",
  ["inputs","configurations","schedules"], "every table/index numbering, selection, content size, directory name and concurrent writer schedule",
  "Tests dump two small tables to a fixed directory name with an idle database.",
  ["bond.go","cmd/bond-cli/dump.go","cmd/bond-cli/restore.go","cmd/bond-cli/bond-cli.go"],
  [("Dump/Restore/iteratorToSST/getIndexIDS","bond.go"),("DumpCommand/RestoreCommand","cmd/bond-cli")],
  [], ["raw key space of source and target","exit status"])
p("C16", "Concurrent use is race free and every read sees one moment",
  "Any number of goroutines may use one database, its tables, indexes, batches of their own, queries and filters at once without data races, deadlocks, panics or corrupted results. With writers working on disjoint sets of rows, every read made without a batch returns, for the rows it covers, the state at a single moment between its call and its return that respects the completion order of write calls, each multi-row call being seen whole or not at all. In particular index scans, queries and intersections never fail or mix versions because of a concurrent write.",
  ["schedules","histories"], "every interleaving of concurrent readers and writers, index changes and filter use",
  "The suite is sequential and is not run under a race detector.",
  ["table.go","index.go","query.go","bond.go","iter.go","utils/sync.go","batch.go"],
  [("table mutex around the index map","table.go"),("scanForEachSecondaryIndex","table.go"),("PreAllocatedPool","utils/sync.go")],
  [], ["Go race detector","recorded call/return histories"])
p("C17", "Tables, indexes and user keys never affect one another",
  "An operation on one table, one index or one application-defined key changes and reads nothing that belongs to another table, index, user key or to bond's own records, for every table number from 1 to 255, index number from 1 to 255 and user key. Rebuilding, deleting, scanning in either direction, dumping one, or clearing a filter kept in the database leaves all others byte for byte as they were. User keys round-trip under distinct names.",
  ["inputs","configurations"], "every pair of table/index numbers including neighbours and extremes, and every user key",
  "Tests use one or two tables with neighbouring mid-range numbers and never diff the whole key space.",
  ["keys.go","table.go","index.go","bond.go","bloom/bloom_filter.go","version.go"],
  [("key prefix layout","keys.go"),("keySuccessor","table.go"),("NewUserKey","keys.go")],
  [], ["full key space diff through DB.Backend()"])
p("C18", "Storage read failures are reported, never taken for absence",
  "When the storage fails a read at any point, the operation needing it returns an error that is not the not-found error, or its correct result; it never returns a missing row, a shortened result or success. A write call that must read first then changes nothing, in particular it never overwrites an existing row as if absent. Once the fault is gone the database answers correctly.",
  ["fault_sequences"], "every position of a failing read within every reading operation",
  "No test injects a fault; the error branches are never executed.",
  ["table.go","index.go","iter.go","query.go","bond.go"],
  [("Get/get/exist","table.go"),("errIterator, _iteratorMulti","iter.go"),("Intersect","index.go"),("ReIndex","table.go")],
  [], ["results under an error-injecting file system"])
p("C19", "A cancelled context stops work without a wrong answer",
  "When the context given to an insert, update, upsert, delete, unsafe insert or update, scan, index scan, query or intersection over at least one row is cancelled before the call or at any row during it, the call stops with an error that identifies the context's error and hands no further row to the caller, or has already completed correctly. A cancelled read never passes off a partial result as complete, and a cancelled write has no effect. Resources of the cancelled call are released and the table stays usable.",
  ["inputs","fault_sequences"], "every operation and every row position of cancellation",
  "Tests cancel nothing except one pre-cancelled call per operation.",
  ["table.go","table_unsafe.go","query.go","index.go"],
  [("ctx.Done() selects","table.go"),("Intersect ctx checks","index.go")],
  [], ["returned errors, call-back counts, raw key space"])
p("C20", "Serializers round-trip every row and never mix rows",
  "For each serializer bond ships, reading back what it wrote gives an equal row for every content, through every way of serializing it offers (plain, buffer-backed, pooled with release), and a row read never carries over anything from a row previously read or written with the same serializer, buffer or table. Bytes obtained from one call stay valid and unchanged until they are released. Concurrent use gives each caller its own result and a value the serializer cannot handle yields an error.",
  ["inputs","schedules"], "every row content, call sequence, serializer configuration and concurrent use",
  "Tests round-trip one or two rows once; reuse and concurrency effects need sequences.",
  ["serializers/*.go","serializer.go","utils/reflect.go"],
  [("SerializeFuncWithBuffer","serializers/cbor.go"),("SerializerWithCloseable, buffer pool","serializers/msgp.go"),("Deserialize via reflection","serializers/msgp_gen.go")],
  [], ["row equality","race detector"])
p("C21", "Generated identifiers are unique and increasing",
  "A number sequence shared by any number of goroutines never hands out the same number twice and hands out increasing numbers as long as the clock does not go back; each number carries the time it was generated at and a counter within it that can be read back. When a second's numbers are exhausted it reports an error and recovers in the next second. Batch identifiers are unique, also after reset, and generated UUIDs never repeat.",
  ["schedules","histories"], "every interleaving of callers and rollover of the time unit",
  "Tests draw from one goroutine within one second.",
  ["helpers.go","batch.go"],
  [("NumberSequence.Next","helpers.go"),("newBatch/Reset","batch.go")],
  [], ["identifiers drawn concurrently"])
p("C22", "Batch and database call-backs fire exactly when they should",
  "For every batch: the commit call-backs run before a non-empty commit and any error from one prevents it; the committed call-backs run exactly once, after the data is visible, if and only if the commit succeeded; the error call-backs run when an attempted commit or apply fails, and only then; the close call-backs run exactly once, on close. Call-backs run in registration order with that batch, a reset forgets them, applying a batch onto another notifies the applied one by the same rules, and closing the database runs its close call-backs once before it is closed.",
  ["programs","fault_sequences"], "every sequence of batch life-cycle calls with succeeding and failing call-backs and commits",
  "Tests register one call-back of two kinds on one successful commit.",
  ["batch.go","bond.go"],
  [("notifyOn*","batch.go"),("DB.OnClose","bond.go")],
  [], ["event log of call-backs"])
p("C23", "Open accepts exactly compatible databases and preserves them",
  "Opening a database written by bond, with the same storage format, gives back its contents unchanged, however often it is reopened, including databases written by earlier builds of this version. Opening one recorded with another storage format or another data version is refused with an error, changes nothing and leaves it openable by a matching configuration. Migrating to a newer storage format keeps all data, and afterwards the recorded format is the new one, which is what opening then requires.",
  ["configurations","histories"], "every format version, data version record, prior content and sequence of open, refuse, migrate and close",
  "Tests open a fresh directory and migrate it once.",
  ["bond.go","version.go","options.go"],
  [("Open format file check","bond.go"),("Version/initVersion","version.go"),("MigratePebbleFormatVersion","bond.go")],
  [], ["errors from Open, directory and key space contents"])
p("C24", "Inspection answers what the direct query would, locally and remotely",
  "For any tables and content, the inspection interface lists exactly the tables, indexes and entry fields defined and its query returns exactly the rows the equivalent direct query returns for that index, selector, filter, limit and after row, whatever the field types. The HTTP handler and remote client, and the command line built on them, give the same answer as the local interface up to JSON encoding (numbers as JSON numbers, scalar values in requests). An unknown table, index or field or a value that does not fit the field gives an error, not a crash or a wrong row. Requests made at the same time do not affect one another.",
  ["inputs","configurations"], "every table definition, content, and request, well-formed or not, alone or at the same time as others, through each transport",
  "Tests query three rows of one pointer-type table with matching value types.",
  ["inspect/inspect.go","inspect/inspect_handler.go","inspect/inspect_handler_client.go","inspect/inspect_cli.go"],
  [("Query via reflection","inspect/inspect.go"),("setFields","inspect/inspect.go"),("handlers and client","inspect")],
  [], ["results through local, HTTP and CLI"])
p("C25", "Filter conditions mean what their names say",
  "For every record and values, the conditions equal, greater, greater-or-equal, less, less-or-equal, and, or, not and function evaluate to exactly the truth value of the corresponding comparison or logical combination, for every ordered type including strings, extremes, infinities and NaN; equal compares pointers, slices, maps, arrays and structs by their content. Conditions can be nested arbitrarily, reused and evaluated concurrently, and evaluating one changes neither it nor the record. Used as a query filter a condition selects exactly the rows for which it evaluates to true.",
  ["inputs"], "every comparable value pair of every ordered type and every nesting of conditions",
  "Tests evaluate each operator on one or two pairs.",
  ["cond/cond.go"],
  [("Eval implementations","cond/cond.go")],
  [], ["Eval and Query results"])
p("C26", "Callers' and pooled memory is never shared behind their back",
  "Rows and byte slices handed to the caller keep their value whatever operations follow (the key given to a scan call-back until it returns), and values the caller passes in (rows, keys, bounds, selectors) are not modified and may be reused as soon as the call returns. Internally recycled buffers serve one operation at a time: none is returned twice, used after it was returned, or reachable from two operations. This holds for keys and values longer than the recycled buffers and for failing, cancelled and early-stopped operations.",
  ["histories","schedules","inputs"], "every history of overlapping operations, key and value sizes, and early exits",
  "Tests compare results immediately after the call, before any later operation could overwrite them.",
  ["utils/sync.go","utils/unsafe.go","table.go","index.go","bond.go","iter.go"],
  [("PreAllocatedPool","utils/sync.go"),("releaseBufferOnClose","iter.go"),("getKeyArray/putKeyArray","bond.go"),("StringToBytes/BytesToString","utils/unsafe.go")],
  [("pooled buffers","recycled key/value buffers","utils.PreAllocatedPool")],
  ["pool monitor hook","race detector with pointer checks"], "pool Get/Put monitor under the verif build tag")
p("C27", "A synchronized batch serializes its users",
  "Functions given to one synchronized batch, from any number of goroutines, never overlap; each sees everything the earlier ones wrote, and after commit the database holds the combined effect of all. A function's error is returned to its own caller unchanged, and neither an error nor a panic in one prevents the others from running. A batch or synchronized batch put in a context is what is retrieved from it and from contexts derived from it, and from no other.",
  ["schedules","programs"], "every number of goroutines, failing and panicking functions and context nesting",
  "Tests run two or three functions that neither fail nor panic.",
  ["sync.go","context.go"],
  [("SyncBatch.WithSync","sync.go"),("ContextWith*/ContextRetrieve*","context.go")],
  [], ["overlap monitor, race detector, final content"])
p("C28", "Scan call-backs see each entry once and control the scan",
  "A for-each scan calls its function once per selected entry with that entry's key, in order, whatever the function does with the lazy row: fetching it never, once, several times or only for some entries always gives the row of the current entry. Returning false stops the scan at once without error, and returning an error stops it and returns that error unchanged. The same holds through the type-erased scanner (given typed or type-erased selectors), with and without a batch, for every prefetch size and direction.",
  ["programs","configurations"], "every pattern of fetches and stops over every entry, prefetch size and direction",
  "Tests fetch every row exactly once.",
  ["table.go","table_utils.go","lazy.go"],
  [("scanForEachPrimaryIndex/scanForEachSecondaryIndex","table.go"),("TableAnyScanner","table_utils.go")],
  [], ["call-back log"])
p("C29", "No operation leaks resources",
  "After any sequence of operations - successful, refused, failing, cancelled, stopped early - once the caller has closed the batches and iterators it obtained, closing the database succeeds without reporting leaked iterators, and leaves no goroutine, open file or lock behind, so the directory can be opened again at once. Internally recycled buffers are all returned when no operation is running. Failing to open or migrate releases everything too.",
  ["histories","fault_sequences"], "every history of operations and error exits",
  "Tests ignore the result of Close and finish the process.",
  ["table.go","query.go","index.go","iter.go","bond.go","bloom/bloom_filter.go","batch.go"],
  [("iter.Close on all paths","table.go"),("Open error paths","bond.go"),("closers in Load","bloom/bloom_filter.go")],
  [], ["DB.Close error, goroutine and descriptor census, pool census"], "pool Get/Put monitor under the verif build tag")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
