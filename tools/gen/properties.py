#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the lines stay uniform).
import json, os
out = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    out.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Acknowledged writes survive crashes; rows and their index entries stay whole",
 "After a crash at any point and a reopen, every write acknowledged with Sync (and everything committed before it) is there, writes not acknowledged are there entirely or not at all, and the surviving state is a prefix of what each writer did that respects real-time order. In that state every index holds exactly the entries of the surviving rows. The database always opens again.",
 ["crash_points", "histories", "schedules", "configurations"],
 "for every history of write calls and batches by one to three concurrent writers, every crash point at a file-system call (losing any subset of unsynced data and directory entries, with torn tails), repeated over several process lives",
 "the tests never crash a process; they close the database cleanly and at most reopen it once",
 ["table.go", "table_unsafe.go", "batch.go", "bond.go"],
 [("all keys of a write call go into one storage batch", "table.go (Insert/Update/Upsert/Delete)"), ("commit with Sync when the call owns its batch", "batch.go Commit; table.go"), ("batch commit hands over one storage batch", "batch.go Commit, bond.go Apply")],
 ["DB.Batch/Commit", "Table.Insert/Update/Upsert/Delete", "bond.Open", "Table.Scan", "Table.ScanIndex"])

prop("C02", "A write that fails changes nothing or everything, and never wedges the database",
 "When the disk fails a write, a sync, a file creation or runs full during a write call or a batch commit, the call returns an error or completes; what a later process finds is the whole effect or none of it. A nil error means the effect is complete and durable as promised. Reads and the next open keep working on what was acknowledged before.",
 ["fault_sequences", "crash_points", "histories"],
 "for every sequence of I/O errors, short writes and disk-full conditions on any kind of file, transient or permanent, in any position of a write workload, with and without a crash at the failing call",
 "no test injects an I/O error into a write",
 ["table.go", "table_unsafe.go", "batch.go", "bond.go"],
 [("errors of batch Set/Delete/Commit are returned", "table.go, batch.go"), ("OnError callbacks and no OnCommitted on failure", "batch.go Commit")],
 ["write calls", "Batch.Commit", "bond.Open after the failure"])

prop("C03", "Every index holds exactly the entries of the current rows",
 "After any sequence of inserts, updates, upserts, deletes, unsafe writes and batches on a table with any set of secondary, partial and ordered indexes, a scan of each index returns exactly the rows its filter admits, once each, in the order its key and order functions define, and each with the row's current content. A refused or rolled-back write leaves every index as it was.",
 ["histories", "inputs", "configurations", "crash_points"],
 "for every write history over colliding keys and boundary values (0xff carries, sign changes, empty strings, names that are prefixes of each other), every index set, record type and key type, inside and outside batches, across restarts",
 "the tests check hand-written examples of one or two operations on one index",
 ["table.go", "table_unsafe.go", "index.go", "keys.go", "selector.go"],
 [("old entries removed by the stored row", "table.go Update/Upsert/Delete"), ("entries written with the row", "table.go, index.go OnInsert/OnUpdate/OnDelete"), ("order and filter functions", "index.go")],
 ["Table.ScanIndex over the whole index, both directions", "Query.With"])

prop("C04", "Reads return exactly what a sequential model of the table returns",
 "Get, Exist, scans in both directions, lazy scans that skip or stop, and queries with any combination of index, selector, filter, order, intersection, offset and limit return exactly the rows and the order that a plain model of the table defines. Reads through a read-write batch also see that batch's own writes, and nothing else does. Storage layout (memtables, flushed files, compactions, block and prefetch sizes) never shows.",
 ["inputs", "histories", "configurations"],
 "for every reachable table content, every selector and query, with flushes and compactions at any point and any block, cache, memtable and prefetch size",
 "the tests check a few queries on tables that fit one memtable, with fixed options",
 ["query.go", "table.go", "index.go", "iter.go", "selector.go", "lazy.go", "keys.go", "cond/cond.go"],
 [("selector to key bounds", "index.go Iter, keys.go"), ("prefetch batches of index scans", "table.go ScanIndexForEach, iter.go"), ("query pipeline", "query.go Execute")],
 ["Table.Get/GetPoint/Exist/Scan*/Query"])

prop("C05", "A failing disk read surfaces as an error, never as missing or wrong rows",
 "When reads of the underlying files fail during any read or write call, the call returns an error or the exact result; it never reports a row as absent, cuts a scan short, or returns a partial or stale result with a nil error, and it never decides a write on such an answer. When the fault is over the same call succeeds.",
 ["fault_sequences", "inputs", "histories"],
 "for every position and length of a run of failing reads or opens, in every read and write call and every stage of it (index walk, record fetch, existence check, prefetch)",
 "no test injects a read error",
 ["table.go", "query.go", "iter.go", "index.go", "batch.go", "bond.go"],
 [("iterator errors checked after the loop", "table.go, query.go, iter.go"), ("not-found told apart from read errors", "bond.go, batch.go Get; table.go exist")],
 ["error and result of each call"])

prop("C06", "Concurrent readers see one committed state per call, in real-time order",
 "Every Get, scan and query that runs while others write returns the rows of one single moment between its start and its end: whole write calls and whole batches or nothing of them, for index scans and intersections too. A read that starts after a write was acknowledged sees it, and later reads never see an older state than earlier ones.",
 ["schedules", "histories"],
 "for every interleaving of two to four tasks writing and reading the same tables, preempted at any statement of the library and at any lock, channel or file operation",
 "the tests' concurrent cases check only that counts add up, under whatever schedule happens",
 ["table.go", "query.go", "iter.go", "batch.go", "bond.go"],
 [("one snapshot for the index walk and the record fetches", "table.go, query.go"), ("a write call commits one batch", "table.go, batch.go")],
 ["recorded call intervals and results, checked against the commit history"])

prop("C07", "A batch is private until its commit, which is atomic; reset and close discard it",
 "Writes made with a batch are invisible to everyone else until the batch commits and then appear all at once, over any number of tables; a batch that is reset, closed or never committed leaves no trace. A read-write batch reads its own writes over the committed rows, duplicate and missing-row checks included. Applying one batch to another merges exactly its changes.",
 ["histories", "schedules", "inputs"],
 "for every history of up to three open batches per task, of both kinds, over several tables, with vetoed commits, resets, applies and concurrent tasks",
 "the tests commit or drop one batch at a time",
 ["batch.go", "bond.go", "table.go"],
 [("batch wraps one indexed or write-only storage batch", "batch.go"), ("reads go to the batch that is passed", "table.go, bond.go Get/Iter")],
 ["reads with and without the batch", "state after commit, reset, close"])

prop("C08", "Batch and database callbacks run exactly once, at the right moment",
 "OnCommit callbacks run once before a commit or apply takes effect, and an error from one of them stops it without any change; OnCommitted callbacks run once after the rows are visible and only if they are; OnError callbacks run once with the error of a failed commit; OnClose callbacks of batches and of the database run once on close. Callbacks run in the order they were registered, and a reset forgets them.",
 ["histories", "fault_sequences", "schedules"],
 "for every history of commits, applies, vetoes, resets, closes and I/O failures, with any number of callbacks of each kind",
 "the tests register one callback and let every commit succeed",
 ["batch.go", "bond.go"],
 [("notify functions", "batch.go notifyOnCommit/OnCommitted/OnError/OnClose"), ("close callbacks", "bond.go Close, OnClose")],
 ["callback log against the outcome of each call"])

prop("C09", "A table filter never changes any answer",
 "A table with a bloom filter answers every read and write exactly as the same table without one: a key that exists is never filtered out, also after updates of the filter in a running process, after saving and loading it, after crashes at any point, and after failed or interrupted saves. A saved copy that does not cover every row is never used.",
 ["histories", "crash_points", "fault_sequences", "schedules", "configurations"],
 "for every write history with saves, clean closes, crashes and I/O errors in any order over several process lives, for both stores (database, file) and every filter size",
 "the tests save and load once, without a crash and without writes after the save",
 ["filter.go", "filters/filter_fs_storer.go", "bloom/bloom_filter.go", "table.go"],
 [("saved copy is removed before the filter changes", "filter.go, bloom/bloom_filter.go"), ("load or rebuild by a scan", "filter.go Initialize"), ("keys added before rows are visible", "table.go")],
 ["answers of all reads and existence checks on filtered tables"])

prop("C10", "Dump and Restore move exactly the chosen tables, completely or not at all",
 "Dump writes one consistent moment of the chosen tables also while others write, and Restore of all or some of them brings exactly those tables' rows and, if asked, index entries. A Restore that fails or crashes leaves the target openable with nothing or with everything it was to bring, and the backup intact for another try; one that returned nil is durable. Tables that were not asked for are never touched or brought.",
 ["histories", "schedules", "fault_sequences", "crash_points", "configurations"],
 "for every table content and layout, every subset of tables, with and without indexes, under concurrent writers, I/O errors and crashes in either call",
 "the tests dump and restore once, quietly, and compare counts",
 ["bond.go"],
 [("a snapshot feeds the exported files", "bond.go Dump"), ("all files are ingested in one step from staged copies", "bond.go Restore")],
 ["content of the restored database", "state of the backup directory"])

prop("C11", "Every call returns, nothing leaks, and Close ends everything",
 "No mix of calls, concurrent use, cancelled contexts and injected errors makes a call block for ever; once faults stop, every call completes within a bounded number of steps. After the database is closed no goroutine of it runs and no file it opened stays open. Close returns nil when nothing failed.",
 ["schedules", "fault_sequences", "histories"],
 "for every schedule of up to four tasks and every fault sequence of the other properties, judged by the deadlock and progress detector of the simulator and by counting goroutines and file handles at the end",
 "the tests never count handles or goroutines and reach only the error paths of invalid arguments",
 ["table.go", "query.go", "iter.go", "batch.go", "bond.go", "utils/sync.go"],
 [("iterators, snapshots and batches closed on every path", "table.go, query.go, iter.go"), ("the table lock around index changes", "table.go AddIndex")],
 ["open handles of the simulated disk", "goroutine list after Close", "progress deadline"])

prop("C12", "A cancelled context stops the call with its error and without effect",
 "A write call whose context is cancelled before or during the call either completes with its full effect and a nil error, or returns the context's error and changes nothing; a read returns the context's error or the exact result. A context that was cancelled before the call gives the error to every write, scan and query that handles at least one row (a read of one row by its key may answer, exactly). Nothing that was acquired for the call stays behind.",
 ["schedules", "histories", "inputs"],
 "for every position of the cancellation within every read, write, index-building and restore call",
 "the tests cancel a context before a few calls only",
 ["table.go", "query.go", "iter.go", "bond.go", "context.go"],
 [("context polled in every loop", "table.go, query.go"), ("own batches are committed at the end only", "table.go")],
 ["error and effect of each call"])

prop("C13", "Sequence numbers are unique and increasing, whatever the clock does",
 "The numbers handed out by a sequence generator are pairwise distinct and grow in real-time order for any number of concurrent callers. They do so also when the wall clock stands still, jumps backward or forward. The UUIDs handed out are pairwise distinct, random ones (version 4), and when no entropy can be read the call returns the error.",
 ["schedules", "fault_sequences"],
 "for every interleaving of up to six callers and every sequence of clock steps and jumps in both directions and every pattern of short and failing reads of entropy",
 "the existing test runs one process on a well-behaved clock",
 ["helpers.go"],
 [("compare with the last number under a lock", "helpers.go NumberSequence")],
 ["numbers returned with their call intervals"])

prop("C14", "Building an index over existing rows is complete and can be repeated",
 "Adding an index with re-indexing, or re-indexing one, makes its content exactly what the rows say, whatever stale or partial entries were there, and leaves other indexes and the rows alone. When it is interrupted by an error, a cancellation or a crash, doing it again gives the same result. Other tables can be used meanwhile, and an identifier in use is refused.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "for every table content, every interruption point of the build, repeated over process lives, followed by any further writes",
 "the tests re-index once without interruption",
 ["table.go"],
 [("old entries are deleted by range, new ones written in chunks", "table.go reindex"), ("index set swapped under the table lock", "table.go AddIndex")],
 ["content of every index after the build", "errors of AddIndex/ReIndex"])

prop("C15", "The storage-format version is checked, and a migration survives crashes",
 "A database opens only with the format version it was created or migrated with, and always with that one: the version file and the storage never disagree in a way that prevents or wrongly permits opening. A migration interrupted by a crash or an error can be repeated or left, losing nothing. First creation is equally safe.",
 ["crash_points", "fault_sequences", "histories"],
 "for every crash point and I/O error during the first open, later opens and migrations, in any order over several process lives",
 "the tests migrate once, without interruption",
 ["bond.go", "version.go"],
 [("the version file is written atomically and synced", "version.go"), ("version compared on open", "bond.go Open")],
 ["bond.Open", "PebbleFormatVersion", "MigratePebbleFormatVersion"])

prop("C16", "Inspecting a database shows what its tables hold, locally and remotely",
 "The inspection interface lists exactly the tables, indexes and columns that were registered, and its queries return exactly the rows that the same typed query returns: one point of an index, equality filter, limit and paging included. The remote client returns the same as the local one as far as JSON carries it (integers exactly, byte strings as base64), reports errors as errors, obeys its context, and survives dropped, delayed or broken connections by an error, not by a wrong answer. The command line tool prints what the interface returns, as JSON, or fails.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "for every table content and query through the local, handler and network client paths, with writers running and with network faults",
 "the tests run a handful of queries on a quiet local server",
 ["inspect/inspect.go", "inspect/inspect_handler.go", "inspect/inspect_handler_client.go", "inspect/inspect_cli.go"],
 [("reflection over table infos", "inspect/inspect.go"), ("JSON over HTTP", "inspect/inspect_handler*.go")],
 ["results of Tables/Indexes/EntryFields/Query on all three paths"])

prop("C17", "Shared batches are used by one caller at a time",
 "Functions that run through a synchronised batch never overlap, for any number of concurrent callers, and each gets the same batch with everything earlier callers put into it. An error or panic in one of them does not block the others.",
 ["schedules", "histories"],
 "for every interleaving of up to six callers, some of which fail or panic, on one shared batch that is committed at the end",
 "the existing test uses one schedule and no failing caller",
 ["sync.go"],
 [("mutex around the function", "sync.go WithSync")],
 ["intervals of the functions", "content after the commit"])

prop("C18", "Pages joined together are the whole result",
 "Walking a query page by page, by the last row seen or by offset, returns every row of the unpaged result exactly once and in order, and ends. With a cursor on a plain index walk this holds also when the rows already seen are deleted or changed meanwhile. It holds for both directions, every selector, filters and reads through a batch.",
 ["inputs", "histories", "configurations"],
 "for every table content, query and page size, with the cursor row deleted between pages where the walk is by key",
 "the tests page through one table with one query",
 ["query.go", "index.go", "keys.go"],
 [("cursor turned into a key bound", "query.go After"), ("offset and limit after filter and order", "query.go Execute")],
 ["concatenated pages against the unpaged result"])

prop("C19", "Write calls do what their names promise, for many rows at once",
 "Insert refuses rows that exist, Update refuses rows that do not, Upsert applies the conflict function to the stored row, Delete ignores what is absent; duplicates within one call follow call order. A refused call changes nothing at all, also when it was refused after thousands of rows. Callers' records are never modified, and the outcome does not depend on the number of rows or on how they are batched.",
 ["inputs", "histories", "configurations"],
 "for every list of rows, from none to several internal chunks, with duplicates and collisions in any position, with every conflict function, record type and kind of batch",
 "the tests use a few rows and rarely duplicates or more than one internal chunk",
 ["table.go", "table_unsafe.go"],
 [("sorted existence checks in chunks", "table.go"), ("row-level effects in one batch", "table.go")],
 ["error and state after each call, against the model"])

prop("C20", "Key encoding preserves order and is reversible",
 "Encoded keys compare like the tuples they encode, field by field and in the chosen direction, and decode to what was encoded.",
 ["inputs"],
 "for every tuple of field values",
 "the tests compare a few hand-picked values",
 ["keys.go"], [("big-endian, sign-flipped and complemented fields", "keys.go")], ["KeyBuilder", "KeyEncode/KeyDecode"])

prop("C21", "Serializers return what was stored",
 "A record written through any of the serializers reads back equal.",
 ["inputs"],
 "for every record value",
 "the tests serialise one record per serializer",
 ["serializer.go", "serializers"], [("wrappers of msgpack, cbor and json", "serializers")], ["Serialize/Deserialize"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../properties.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o, ensure_ascii=False) + "\n")
