HOOKS = None
I, H, S, F, C = "inputs", "histories", "schedules", "fault_sequences", "configurations"
PROPS = [
 dict(id="C01", title="Storage keys round-trip and never collide",
  stmt="Encoding a storage key (table, index, index value, order value, primary key) and decoding it returns the same five parts, so two keys with different parts never encode to the same bytes. Extracting table, index, index value or the row's own key from encoded bytes agrees with the parts that were encoded. The split point used by the storage engine is always the end of the index value.",
  over=[I], q="every table id, index id and every byte string for index value, order value and primary key (any length, any content), every supplied scratch buffer",
  why="Tests encode a few short keys; collisions and mis-splits need particular lengths and byte values out of an unbounded space.",
  mech=[("KeyEncode", "keys.go:KeyEncode"), ("KeyEncodeRaw", "keys.go:KeyEncodeRaw"), ("KeyDecode", "keys.go:KeyDecode"), ("data key derivation", "keys.go:KeyBytes.ToDataKeyBytes"), ("split", "keys.go:_KeyPrefixSplitIndex")]),
 dict(id="C02", title="Field encodings preserve order and are injective",
  stmt="For every field type, the encoded fields compare byte-wise exactly as the values compare, equal only for equal values. In a list of fields the first differing field decides the order of the whole key. Adding a field never changes the bytes already in the key or the value passed in.",
  over=[I], q="every pair of values of every field type (64/32/16-bit signed and unsigned, byte, string, bytes, big integers of every width), every list of preceding and following fields",
  why="Tests compare a handful of values; an order violation can sit on a single sign, carry or width boundary out of 2^64 values.",
  mech=[("signed fields", "keys.go:KeyBuilder.AddInt64Field"), ("big integer fields", "keys.go:KeyBuilder.AddBigIntField"), ("field numbers", "keys.go:KeyBuilder.putFieldID")]),
 dict(id="C03", title="Index order columns sort ascending or descending as asked",
  stmt="Index order values sort byte-wise exactly as the values do for ascending order and exactly opposite for descending order, for every value of every supported type. Adding an order value leaves the bytes already written and the caller's argument unchanged.",
  over=[I], q="every pair of values of every supported type, both directions, every prefix already written",
  why="Tests order a few small rows; extreme values such as the smallest integer and aliasing of the caller's buffer are not sampled.",
  mech=[("order columns", "index.go:IndexOrder.OrderInt64"), ("descending bytes", "index.go:IndexOrder.OrderBytes")]),
 dict(id="C04", title="Index scans cover exactly the selected key range",
  stmt="A scan visits exactly the keys of its table and index that the selection stands for, whatever bytes they hold (including 0xFF) and however long they are. A point stands for the keys with the index value of its row, from the row's own position (order value, primary key) on; in a set of points on the primary index, for the row itself. A range stands for the keys from the key of its lower row up to the key of its upper row, keys that extend the upper row's key included.",
  over=[I], q="every table id, index id, index value, order value and primary key, all four kinds of selection, every number of points and ranges",
  why="Tests use small numeric keys; the successor computation goes wrong only for particular trailing bytes and lengths.",
  mech=[("successor", "table.go:keySuccessor"), ("bounds", "index.go:Index.Iter"), ("index keys", "index.go:encodeIndexKey")]),
 dict(id="C05", title="Each row change emits exactly the index changes it implies",
  stmt="For one row change, an index gets an entry if and only if the new row passes the index's filter, under the row's index value, order value and primary key. An update removes the old entry exactly when the old row had one that differs from the new one, and a deletion removes the entry a row had. Nothing else is written.",
  over=[I], q="every old and new row, every combination of filter outcomes, every index, order and primary-key function",
  why="Tests exercise a few filter transitions with particular rows; all four old/new filter combinations with equal or different keys need enumeration over unbounded values.",
  mech=[("insert", "index.go:Index.OnInsert"), ("update", "index.go:Index.OnUpdate"), ("delete", "index.go:Index.OnDelete")]),
 dict(id="C06", title="Tables and their indexes stay consistent",
  stmt="After any successful write operation, an index entry exists if and only if the stored row exists, passes the index's filter, and has that index value, order value and primary key. This holds for insert, update, upsert, delete and their unsafe variants, with repeated keys in the input and any number of indexes.",
  over=[I, H], q="every prior consistent database state, every list of rows, every set of secondary indexes and filters, with and without a caller-supplied batch",
  why="Tests check a few rows after a few operations; stale entries need specific old/new row pairs, duplicates and chunk positions.",
  na="the four writing loops keep per-chunk maps, sorted key arrays and key sub-ranges whose contents must be related to the database state before and after; the single-row step is proved (C05) and so are their resources and commit (C08, C15, C16), but the invariant relating a whole chunk to the set of index entries was not brought within the verifier's reach: no obligation decides the property",
  mech=[("insert", "table.go:_table.Insert"), ("update", "table.go:_table.Update"), ("upsert", "table.go:_table.Upsert"), ("delete", "table.go:_table.Delete")]),
 dict(id="C07", title="Inserts never overwrite and updates never create rows",
  stmt="Insert fails without effect if any given row's key is already stored or repeated in the input; update fails without effect if any given row's key is not stored; upsert stores every given row, combining it with the stored row by the conflict function when there is one. Rows whose keys are not in the input are never changed.",
  over=[I, H], q="every prior database state, every list of rows including repeated keys, every conflict function",
  why="Tests cover single conflicts; repeated keys, chunk boundaries and mixtures need unbounded inputs.",
  na='as C06: which rows the chunk loops store is a statement about the whole map of rows and was not brought under contract; defects found by reading were repaired (see DESIGN.md) but no discharged obligation covers the property',
  mech=[("insert", "table.go:_table.Insert"), ("update", "table.go:_table.Update"), ("upsert", "table.go:_table.Upsert")]),
 dict(id="C08", title="Write operations are all-or-nothing and synced on success",
  stmt="A write operation without a caller's batch applies all its changes in exactly one synced commit and reports success only if that commit succeeded; on any error or cancellation nothing is applied. With a caller's batch, nothing is committed and the caller's batch is left open.",
  over=[I, F], q="every point at which a storage call, (de)serialisation or context check can fail, every input",
  why="Tests have no fault injection: every early return with a half-filled batch is a separate path.",
  mech=[("batch handling", "table.go:_table.Insert"), ("commit", "batch.go:_batch.Commit")]),
 dict(id="C09", title="Point reads return exactly the stored rows",
  stmt="Reading by key returns the stored row or not-found, existence checks agree with reads, and multi-key reads return for every position the row stored under that position's key. A storage failure is reported as an error and never as a missing row.",
  over=[I, H, F], q="every database state, every list of requested keys in any order with repetitions, with and without a batch",
  why="Tests read a few rows in order; order, repetition and failures multiply.",
  mech=[("get", "table.go:_table.Get"), ("exist", "table.go:_table.Exist")]),
 dict(id="C10", title="Multi-range iteration is the concatenation of its ranges",
  stmt="Iterating over several ranges visits all keys of the first range, then all of the second, and so on, forwards or backwards, each exactly once, and reports the first failure. Every underlying iterator is closed exactly once, and the buffers of every range are handed back exactly once.",
  over=[I, F], q="every number of ranges (including empty ones) and every number of keys in each",
  why="Tests chain two or three ranges; empty ranges in particular positions and backward movement are unsampled.",
  mech=[("multi iterator", "iter.go:_iteratorMulti")]),
 dict(id="C11", title="Queries apply filter, order, offset and limit exactly",
  stmt="A query's result is the sequence of selected rows that pass the filter, sorted as asked, without the first offset rows, cut to the limit. With a cursor row the result starts right after that row. The result does not depend on how the rows are fetched.",
  over=[I, C], q="every set of rows, filter, ordering, offset, limit, and cursor",
  why="Tests combine a few options over a few rows; combinations and boundary values are unbounded.",
  na='Query.executeQuery works on generic row slices through sort.Slice, closures and cursor state; contracts for sorted permutations cut by offset and limit were not completed',
  mech=[("execution", "query.go:Query.executeQuery"), ("results", "query.go:Query.Execute")]),
 dict(id="C12", title="Scans visit each selected row once, in order, and surface errors",
  stmt="A scan hands the callback every selected row exactly once, in index order (or reverse), and stops as soon as the callback says so or fails. A storage failure, an undecodable row or cancellation ends the scan with that error and is never reported as a complete scan. Every iterator opened is closed.",
  over=[I, F], q="every number of rows, every callback outcome at every row, every failure point",
  why="Tests scan small tables without failures; lazy fetching in batches and early stops at every position are unsampled.",
  na='scans hand rows to callbacks from prefetched arrays refilled at every step; which rows are handed out was not brought under contract (that everything opened is closed, and that a cancelled scan fails, is decided in C16 and C08)',
  mech=[("primary scan", "table.go:_table.ScanForEach"), ("secondary scan", "table.go:_table.ScanIndexForEach")]),
 dict(id="C13", title="Intersection returns exactly the common rows",
  stmt="Intersecting several index selections returns the rows that are in all of them, each once. Offset, limit, filter and ordering then apply as for any query.",
  over=[I], q="every number of selections and every overlap between them",
  why="Tests intersect two small selections.",
  na='Intersect builds key sets in goroutine-free but map-based loops over every selection; a contract equating the result with the set intersection was not completed (its resources are decided in C16)',
  mech=[("intersect", "query.go:Query.executeIntersect"), ("index intersect", "index.go:Index.Intersect")]),
 dict(id="C14", title="The key filter never hides an existing key",
  stmt="Once a key has been added to the key filter, the filter never answers that the key is absent, in memory, after saving and loading, and after a rebuild from the stored data. The filter is reused after restart only when it was saved for the same data.",
  over=[I, H], q="every sequence of additions and lookups, every bucket count, every key",
  why="Tests add a few keys; a false negative needs a particular hash, bucket and state.",
  mech=[("bloom filter", "bloom/bloom_filter.go:BloomFilter"), ("initialisation", "filter.go:FilterInitialize")]),
 dict(id="C15", title="Table operations release every lock they take",
  stmt="Every table operation releases each lock it acquired before it returns, on every path including errors. Shared state guarded by a lock is only touched while that lock is held, exclusively for writes.",
  over=[I, F, S], q="every path through every operation, including every failure, and hence every interleaving of operations",
  why="Tests cannot enumerate error paths, and a leaked lock only shows as a hang later.",
  mech=[("index registration", "table.go:_table.AddIndex"), ("writes", "table.go:_table.Insert")]),
 dict(id="C16", title="Every batch and iterator opened is closed exactly once",
  stmt="Each operation closes every batch and iterator it opened itself exactly once, on every path including errors, and never closes one supplied by the caller. Values handed out stay valid for as long as documented.",
  over=[I, F], q="every path through every operation, including every failure point",
  why="Tests have no fault injection, so leaks and double closes on error paths are never reached.",
  mech=[("writes", "table.go:_table.Insert"), ("scans", "table.go:_table.ScanForEach"), ("re-index", "table.go:_table.ReIndex")]),
 dict(id="C17", title="Dump and restore copy exactly the selected tables",
  stmt="A dump writes every key of each selected table and index into the file of that table and index and nothing else. Restore ingests exactly the files of the selected tables. A failure is reported and never yields a silently incomplete copy.",
  over=[I, F], q="every set of table ids, every layout of stored keys and files, every failure point",
  why="Tests dump one or two tables with small ids; ids that are prefixes of each other and read failures are unsampled.",
  na="Dump runs one goroutine per index with a semaphore and an error channel and Restore drives pebble's SST ingestion and the file system: goroutines and files are outside the verifier's reach",
  mech=[("dump", "bond.go:_db.Dump"), ("restore", "bond.go:_db.Restore")]),
 dict(id="C18", title="Batch lifecycle callbacks fire exactly when they should",
  stmt="Commit callbacks run before a commit in registration order and any failure prevents the commit. Committed callbacks run once each, after and only after the changes were applied; error callbacks run only on failure; close callbacks run when the batch is closed.",
  over=[I, F], q="every number of registered callbacks, every callback outcome, every failure of the underlying commit",
  why="Tests register one callback on the success path only.",
  mech=[("lifecycle", "batch.go:_batch.Commit"), ("apply", "batch.go:_batch.Apply"), ("close", "batch.go:_batch.Close")]),
 dict(id="C19", title="Generated identifiers are unique and increasing",
  stmt="Identifiers drawn from one generator are pairwise different and strictly increasing, for every behaviour of the clock and any number of concurrent callers.",
  over=[S, H, I], q="every sequence of calls, every clock reading including repeated and backward ones",
  why="Tests draw a few identifiers with a monotonic clock; repeated and backward readings are never produced.",
  mech=[("sequence", "utils/sync.go:NumberSequence")]),
 dict(id="C20", title="Pooled objects belong to one holder at a time",
  stmt="The pool hands an object to at most one holder until it is returned, always hands out a usable object, and never blocks or loses the caller's object on return.",
  over=[S, H], q="every interleaving of gets and puts, every pool capacity",
  why="Tests take and return a few objects in sequence.",
  mech=[("pool", "utils/sync.go:PreAllocatedPool")]),
 dict(id="C21", title="Condition combinators compute their logical meaning",
  stmt="Equality and ordering conditions accept exactly the rows whose value compares so, and the conjunction, disjunction and negation of conditions accept exactly the rows that all, any or none of the parts accept. Evaluating a condition changes nothing.",
  over=[I], q="every value, every nesting and number of parts including none",
  why="Tests evaluate a few literals; the number of parts and values is unbounded.",
  mech=[("combinators", "cond/cond.go:And")]),
 dict(id="C22", title="Databases with another data version are refused untouched",
  stmt="Opening a database succeeds only if it was created by a compatible data version, and a new database is stamped with the current one. A refused or failed open leaves no open resources and no changed data.",
  over=[I, F], q="every stored version content including malformed ones, every failure point",
  why="Tests open fresh databases only.",
  mech=[("open", "bond.go:Open"), ("version", "bond.go:_db.Version")]),
 dict(id="C23", title="Serialised rows are independent of reused buffers",
  stmt="Serialising with a supplied buffer yields exactly the bytes of serialising without one, and deserialising what was serialised yields the row. Reusing or releasing buffers never changes bytes or rows already handed to someone else.",
  over=[I, H], q="every row and every sequence of serialise, release and deserialise operations",
  why="Tests serialise one row at a time with fresh buffers.",
  na='the codecs are reflection-based third-party libraries (CBOR, msgpack, JSON): their encoding cannot be specified here, and what remains is sync.Pool bookkeeping',
  mech=[("msgpack", "serializers/msgp.go:MsgpackSerializer"), ("json", "serializers/json.go:JsonSerializer")]),
 dict(id="C24", title="Re-indexing rebuilds exactly the entries of existing rows",
  stmt="After re-indexing, the re-indexed indexes hold exactly one entry for every stored row that passes the filter and no other entry. Rows and other indexes are unchanged.",
  over=[I, H, F], q="every number of rows and indexes (including the highest index id), every prior index content",
  why="Tests re-index a small table with low index ids.",
  na='the rebuilt index content depends on ranged deletions followed by batched insertions over all stored rows; the state relation was not brought under contract (that ReIndex closes what it opens is decided in C16)',
  mech=[("re-index", "table.go:_table.ReIndex")]),
]
