# Store properties. P(id, title, statement, over, quantifier text, why tests can't, files, state, mechanism, observe)
from props_lib import P
S = ["store/gtreap/writer.go", "store/boltdb/writer.go", "store/goleveldb/writer.go", "store/badger/writer.go", "store/batch.go"]
R = ["store/gtreap/reader.go", "store/boltdb/reader.go", "store/goleveldb/reader.go", "store/badger/reader.go"]
I = ["store/gtreap/iterator.go", "store/boltdb/iterator.go", "store/goleveldb/iterator.go", "store/badger/prefix_iterator.go", "store/badger/range_iterator.go"]
WHY = "Existing tests run one fixed list of keys per backend (store/test); "

P("C01", "Batches apply in order; the last operation on a key wins",
  "After a batch is executed, every key reads back as the last plain operation of the history on it: the last value set, or absent if it was deleted last or never written. Keys the batch does not name are unchanged, and a scan of the whole store shows the same contents as point reads.",
  ["inputs", "histories"], "every sequence of sets and deletes with any keys and values, in one or several batches, on every backend",
  WHY + "they never repeat a key inside a batch with different kinds of operations, nor use neighbouring or prefix-related keys.",
  S, [("pending operations of a batch", "ordered effects not yet visible", "store/batch.go")],
  [("ordered replay of a batch in one engine transaction", "store/*/writer.go ExecuteBatch"), ("emulated batch", "store/batch.go")],
  ["KVReader.Get", "KVReader.PrefixIterator"])

P("C02", "Single and multi-key reads agree with contents, and results are the caller's",
  "A read of a key returns its current value, and distinguishes an empty value from an absent key; a multi-key read returns one result per requested key, in order, equal to the single reads. Values returned belong to the caller: changing them changes neither the store nor other results, and they outlive the reader.",
  ["inputs", "histories"], "every contents, every list of requested keys including repeated and absent ones",
  WHY + "multi-key reads are never called and empty values are never stored.",
  R + ["store/multiget.go"], [], [("copies made by reads", "store/*/reader.go Get"), ("multi-key read built on single reads", "store/multiget.go")],
  ["KVReader.Get", "KVReader.MultiGet"])

P("C03", "A prefix scan visits exactly the live keys with the prefix, in order",
  "An iterator obtained for a prefix visits every live key that starts with it, once, in ascending byte order, with its current value, and visits nothing else; an empty or missing prefix visits everything. Validity, key, value and combined access agree at every position.",
  ["inputs", "histories"], "every contents and prefix, including prefixes ending in 0xff, prefixes that are themselves keys and deleted keys",
  WHY + "with five fixed ASCII keys; no 0xff bytes, no deletions, no key equal to the prefix boundary.",
  R + I, [], [("prefix bounds", "store/*/iterator.go, store/badger/prefix_iterator.go")], ["KVReader.PrefixIterator", "KVIterator"])

P("C04", "A range scan visits exactly the live keys between its bounds, in order",
  "An iterator obtained for a range visits every live key not below its start and below its end, once, in ascending byte order, with its current value; a missing end means no upper limit. It visits nothing outside the bounds, also when the bounds are reversed or equal.",
  ["inputs", "histories"], "every contents and pair of bounds, including equal, reversed and prefix-related bounds",
  WHY + "with bounds that are existing keys in the right order.",
  R + I, [], [("range bounds", "store/*/iterator.go, store/badger/range_iterator.go")], ["KVReader.RangeIterator", "KVIterator"])

P("C05", "Seeking moves to the next entry without leaving the iterator's bounds",
  "Seeking an iterator to a key positions it on the first live entry that is inside the iterator's bounds and not below that key, or makes it invalid if there is none, whatever the position before. Stepping on from there visits the rest of the bounds in order.",
  ["inputs", "histories"], "every contents, bounds, and sequence of seeks and steps, seeks below, inside and beyond the bounds",
  WHY + "with a few seeks of fixed keys; never a second seek after leaving the bounds.",
  I, [("position", "current entry or end", "store/*/iterator.go")], [("clamping of the sought key to the bounds", "store/*/iterator.go Seek")], ["KVIterator.Seek", "KVIterator.Next"])

P("C06", "A reader sees the store as it was when the reader was created",
  "Everything read through one reader, by point reads or by iterators created early or late, reflects the contents at the creation of the reader; batches executed later are invisible to it and visible to every reader created after them.",
  ["inputs", "histories"], "every initial contents and every later batch of sets and deletes, iterators created before and after it",
  WHY + "with one later insertion and one overwrite of fixed keys; iterators are always created before the write.",
  R + ["store/gtreap/store.go", "store/boltdb/store.go", "store/goleveldb/store.go", "store/badger/store.go"],
  [("snapshot", "immutable view held by a reader", "store/*/reader.go")], [("engine snapshot or transaction per reader", "store/*/store.go Reader")], ["KVReader"])

P("C07", "A batch takes effect completely or not at all, and failures are reported",
  "A batch that cannot be executed - an invalid key, a failing merge operator, a batch of another store, a failure of the storage engine at any step - returns an error and leaves the contents as they were; a batch that returns success is complete. After a failed batch the store accepts and serves further batches.",
  ["inputs", "histories", "fault_sequences"], "every batch of plain operations and merges with any keys, and every single engine failure at any step",
  "No test executes a failing batch or injects an engine failure.",
  S, [("transaction of a batch", "open until committed or discarded", "store/*/writer.go")], [("transaction with rollback on error", "store/*/writer.go ExecuteBatch")],
  ["KVWriter.ExecuteBatch", "KVReader"])

P("C08", "Merges apply all operands in order on top of the stored value",
  "Merging operands into a key leaves the value the merge operator computes from the stored value and all operands in the order they were added, whether or not the operator can combine operands beforehand, and whether in one batch or several. When the key is absent the operator is told there is no existing value.",
  ["inputs", "histories"], "every stored or absent or deleted key, every sequence of merges on one or several keys in one or several batches",
  WHY + "with one commutative counter on one key, so order, absence and several keys do not matter.",
  S + ["store/merge.go"], [("pending operands per key", "in order of arrival", "store/merge.go")], [("accumulation of operands", "store/merge.go"), ("read-modify-write of the batch", "store/*/writer.go ExecuteBatch")], ["KVBatch.Merge", "KVReader.Get"])

P("C09", "Buffers passed to a batch may be reused as soon as the call returns",
  "The keys, values and operands a batch carries are those at the time of each call; overwriting the passed buffers between calls, before execution or after execution changes nothing that is stored. A batch obtained together with a byte array gives an array of the requested size.",
  ["inputs", "histories"], "every content of a shared buffer and every mix of sets, merges and deletes taken from it",
  "Tests reuse buffers only for sets of fixed keys (CommonTestWriterOwnsBytes), never for merges.",
  S + ["store/goleveldb/batch.go", "store/badger/writer.go"], [], [("copies made by batches", "store/batch.go, store/goleveldb/batch.go")], ["KVBatch"])

P("C10", "A reset batch is empty and can be reused",
  "After a reset, with or without an execution before it, a batch carries none of its earlier operations or merges; executing it applies exactly what was added since, and what it committed before stays as committed.",
  ["inputs", "histories"], "every batch of sets, deletes and merges before and after the reset, executed or not",
  "No test reuses a batch that contained merges, or resets an unexecuted batch.",
  S + ["store/goleveldb/batch.go"], [("pending operations", "cleared by a reset", "store/batch.go")], [("reset of operations and merges", "store/batch.go Reset")], ["KVBatch.Reset"])

P("C11", "Compaction removes only the dead dictionary entries, all of them",
  "Compacting a store, with any batch size of at least one, removes exactly the entries whose key starts with the letter d and whose value is the single byte zero, and changes no other entry. If the storage engine fails meanwhile the failure is reported, only such entries may be gone, and the store can be written and compacted again.",
  ["inputs", "histories", "fault_sequences"], "every contents and batch size, and every single engine failure during compaction",
  "No test calls compaction.",
  ["store/boltdb/store.go", "store/goleveldb/store.go"], [], [("batched removal", "store/boltdb/store.go CompactWithBatchSize, store/goleveldb/store.go CompactWithBatchSize")], ["Compact", "CompactWithBatchSize", "KVReader"])

P("C12", "Completed batches survive restarts; an interrupted batch is atomic",
  "Everything a completed batch wrote is there after the store is closed and opened again, and also after the process died or the machine lost power at any point after the batch returned. A batch interrupted by such an event is afterwards there completely or not at all, and the store opens normally.",
  ["crash_points", "histories", "inputs"], "every history of two batches, with merges, every process death or power loss between two engine calls, and every reopening",
  "No test reopens a store or interrupts one.",
  S + ["store/boltdb/store.go", "store/goleveldb/store.go", "store/badger/store.go"], [], [("synchronous writes", "store/goleveldb/store.go New, store/boltdb/store.go New"), ("one engine transaction per batch", "store/*/writer.go")], ["New", "KVReader"])

P("C13", "Concurrent batches and readers of the in-memory store are serialisable",
  "When several writers execute batches on the in-memory store at the same time, the result is that of executing them one after the other, no merge is lost and a failed batch leaves nothing; every reader sees the contents between two whole batches, and a later reader never sees an older state.",
  ["schedules"], "every interleaving, at statement granularity and with a bounded number of preemptions, of two writers and a reader",
  "No test runs two goroutines on a store.",
  ["store/gtreap/writer.go", "store/gtreap/store.go"], [("current tree", "replaced as a whole by a batch", "store/gtreap/store.go")], [("lock around a batch, immutable tree", "store/gtreap/writer.go ExecuteBatch")], ["KVWriter.ExecuteBatch", "KVStore.Reader"])

P("C14", "A read that fails is reported, never answered with an absent key",
  "When the storage engine cannot perform a read, single and multi-key reads return an error; when obtaining a reader fails, that is reported. Reads that succeed return the contents, and the store keeps working afterwards.",
  ["fault_sequences", "inputs"], "every single engine failure while obtaining a reader or reading any key",
  "No test injects an engine failure.",
  R + ["store/multiget.go", "store/goleveldb/store.go", "store/boltdb/store.go"], [], [("error propagation", "store/*/reader.go Get"), ("error propagation", "store/multiget.go")], ["KVStore.Reader", "KVReader.Get", "KVReader.MultiGet"])

P("C15", "The null store accepts everything and holds nothing",
  "Every operation of the null store succeeds; every key is absent from single and multi-key reads, which return one result per requested key; every iterator is empty wherever it is moved.",
  ["inputs", "histories"], "every batch, key list and iterator bound",
  "The null store test runs one fixed sequence.",
  ["store/null/null.go"], [], [("empty implementations", "store/null/null.go")], ["KVStore"])

P("C16", "Stores open exactly as configured and refuse bad configurations cleanly",
  "A configuration without a usable path is refused; creation, exclusivity and read-only options decide whether a store opens and whether writes are accepted, buckets are separate name spaces, and tuning options reach the storage engine as given and never change contents. An opening that fails reports it, keeps nothing open or locked, and can be tried again.",
  ["configurations", "fault_sequences", "histories"], "every combination of the documented options over two generations of a store, and every single engine failure while opening",
  "Tests open every backend with one configuration.",
  ["store/boltdb/store.go", "store/goleveldb/store.go", "store/goleveldb/config.go", "store/badger/store.go", "store/gtreap/store.go"], [],
  [("configuration", "store/*/store.go New, store/goleveldb/config.go")], ["New"])

P("C17", "Everything taken from the storage engine is given back",
  "When a batch has been executed, successfully or not, and when a reader and its iterators have been closed, no transaction, snapshot, iterator or lock of the storage engine remains open, so that later writers are not blocked and closing the store succeeds; and no goroutine keeps working for an iterator that has been closed.",
  ["histories", "fault_sequences"], "every batch with plain operations and merges that succeed or fail, every reader with iterators, every single engine failure",
  "No test looks at open engine resources or makes an operation fail.",
  S + R + I, [("open engine resources", "transactions, snapshots, iterators", "store/*/")], [("close and rollback", "store/*/reader.go Close, store/*/iterator.go Close, store/*/writer.go")], ["KVStore.Close", "KVReader.Close", "KVIterator.Close"])
