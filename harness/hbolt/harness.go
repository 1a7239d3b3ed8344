// Code generated by gen.py. DO NOT EDIT.

package hbolt

import "oureaverif/hs"

// BatchHistory: two batches through two writers, then every key reads back the last operation on it.
// Bounds: 2 batches of 2 and 1 operations (thorough: 2 and 2), keys of 1 byte, values of at most 1 byte.
//
//verif:harness props=C01 budget=150/900 
func H_C01a_bolt() { hs.BatchHistory(eng) }

// BatchOrder: one batch with repeated operations on keys of different lengths.
// Bounds: 1 batch of 3 operations (thorough: 4), keys of 1 to 2 bytes, values of at most 1 byte.
//
//verif:harness props=C01 budget=150/900 
func H_C01b_bolt() { hs.BatchOrder(eng) }

// Reads: Get, MultiGet agree with each other and with the contents; results belong to the caller.
// Bounds: 2 stored keys of 1 to 2 bytes, values of at most 1 byte (thorough: 2), at most 2 keys read (thorough: 3).
//
//verif:harness props=C02 budget=150/900 
func H_C02_bolt() { hs.Reads(eng) }

// PrefixScan: a prefix iterator yields exactly the live keys with the prefix, in order.
// Bounds: 2 stored keys of 1 to 2 bytes (thorough: 3) and at most 1 deletion, prefixes of at most 2 bytes.
//
//verif:harness props=C03 budget=150/900 
func H_C03_bolt() { hs.PrefixScan(eng) }

// RangeScan: a range iterator yields exactly the live keys in [start,end).
// Bounds: 2 stored keys of 1 to 2 bytes (thorough: 3), start of at most 1 byte (thorough: 2), end of at most 2 bytes or none.
//
//verif:harness props=C04 budget=150/900 
func H_C04_bolt() { hs.RangeScan(eng) }

// SeekPrefix: seeking moves to the first entry at or above the key without leaving the prefix.
// Bounds: 2 stored keys of 1 to 2 bytes, prefixes of at most 1 byte, 2 seeks of at most 2 bytes with steps between.
//
//verif:harness props=C05 budget=150/900 
func H_C05a_bolt() { hs.SeekPrefix(eng) }

// SeekRange: the same for range iterators.
// Bounds: 2 stored keys of 1 byte (thorough: 2), bounds of at most 1 byte, 2 seeks of at most 2 bytes.
//
//verif:harness props=C05 budget=150/900 
func H_C05b_bolt() { hs.SeekRange(eng) }

// Isolation: a reader keeps seeing the contents as of its creation.
// Bounds: 2 insertions before the reader, 1 operation after it (thorough: 2), keys of 1 byte.
//
//verif:harness props=C06 budget=150/900 
func H_C06_bolt() { hs.Isolation(eng) }

// FailedBatch: a batch that fails (an invalid key, a failing merge operator, a foreign batch) leaves no trace and does not wedge the store; a batch that succeeds is complete.
// Bounds: 1 batch: 2 plain operations with keys of at most 1 byte (thorough: 3), or 2 merges and an insertion, or a batch of another store.
//
//verif:harness props=C07 budget=150/900 
func H_C07a_bolt() { hs.FailedBatch(eng) }

// EngineFailure: when the storage engine fails any one operation of a batch, the caller is told, the contents are unchanged and the next batch works.
// Bounds: 1 batch of at most 1 merge and 2 operations, 1 failing engine call at any place.
//
//verif:harness props=C07 budget=150/900 native=model
func H_C07b_bolt() { hs.EngineFailure(eng) }

// Merge: operands are applied in the order they were added, on top of the stored value, and the operator learns when there is none.
// Bounds: 1 to 2 batches, 3 merges in all, keys and operands of 1 byte, at most 1 stored and 1 deleted entry.
//
//verif:harness props=C08 budget=150/900 
func H_C08_bolt() { hs.Merge(eng) }

// Ownership: buffers handed to a batch may be reused right after the call.
// Bounds: 1 batch of an insertion, 2 merges and at most 1 deletion sharing one buffer of 6 bytes.
//
//verif:harness props=C09 budget=150/900 
func H_C09_bolt() { hs.Ownership(eng) }

// Reset: a reset batch carries nothing over, and reusing it does not disturb what it committed.
// Bounds: 1 reset between 2 uses of a batch of at most 4 operations, keys of 1 byte, or 2 resets with a third use of 1 operation.
//
//verif:harness props=C10 budget=150/900 
func H_C10_bolt() { hs.Reset(eng) }

// Compaction removes exactly the entries under "d" whose value is the single byte 0.
// Bounds: 3 entries (thorough: 4), keys of 1 to 2 bytes, values of at most 2 bytes, batch sizes 1 to 3 and the default.
//
//verif:harness props=C11 budget=150/900 
func H_C11a_bolt() { hs.Compaction(eng) }

// CompactionFailure: a compaction interrupted by an engine failure reports it, loses only dead entries and leaves the store usable.
// Bounds: 3 entries below d, 1 failing engine call at any place, batch sizes 1 to 3.
//
//verif:harness props=C11 budget=150/900 native=model
func H_C11b_bolt() { hs.CompactionFailure(eng) }

// Durability: whatever a completed batch wrote survives process death and power loss at any later point; a batch interrupted by it is there completely or not at all.
// Bounds: 2 batches of 1 and 2 operations (thorough: 2 and 2), 5 configurations, an optional merge, 1 process death at any engine boundary, with and without loss of unsynced data.
//
//verif:harness props=C12 budget=150/900 native=model
func H_C12a_bolt() { hs.Durability(eng) }

// Reopen: contents survive Close and Open, also through a second generation of writes.
// Bounds: 2 generations of 2 and 1 operations, 3 openings.
//
//verif:harness props=C12 budget=150/900 
func H_C12b_bolt() { hs.Reopen(eng) }

// ReadFailure: a read the engine could not perform is reported, never answered with "absent".
// Bounds: 2 stored keys, 1 failing engine call at any place of a single or multi-key read.
//
//verif:harness props=C14 budget=150/900 native=model
func H_C14_bolt() { hs.ReadFailure(eng) }

// BadConfig: a configuration without a usable path is refused.
// Bounds: no path, a path of another type, nil, an unusable path.
//
//verif:harness props=C16 budget=150/900 
func H_C16a_bolt() { hs.BadConfig(eng) }

// OpenFailure: opening that fails says so, holds on to nothing, and can be tried again.
// Bounds: fresh and existing stores, 1 failing engine call at any place of opening.
//
//verif:harness props=C16 budget=150/900 native=model
func H_C16b_bolt() { hs.OpenFailure(eng) }

// BoltConfig: buckets are separate, tuning options do not change contents, read-only stores serve reads and refuse writes.
// Bounds: 2 generations, 5 bucket settings each, 4 tunings, 3 read-only settings, 1 operation each.
//
//verif:harness props=C16 budget=150/900 
func H_C16c_bolt() { hs.BoltConfig(eng) }

// BoltTuning: the same for bolt.
// Bounds: 2 tuning options, absent, given or of another type.
//
//verif:harness props=C16 budget=150/900 native=model
func H_C16f_bolt() { hs.BoltTuning(eng) }

// Resources: everything obtained from the engine is given back when the reader, iterator or batch is done, on success and on failure.
// Bounds: 1 batch of an insertion and at most 1 merge, 1 reader, 2 iterators, 1 failing engine call at any place.
//
//verif:harness props=C17 budget=150/900 native=model
func H_C17_bolt() { hs.Resources(eng) }

// Goroutines: no goroutine outlives the iterators it works for, wherever these are left.
// Bounds: 4 fixed entries, 1 iterator (thorough: 2) of every kind with bounds of at most 1 byte, up to 2 moves, beside another one.
//
//verif:harness props=C17 budget=150/900 native=model
func H_C17g_bolt() { hs.Goroutines(eng) }

// LongReads: keys and values far longer than those of the other checks read back in full, by single and multi-key reads.
// Bounds: 3 operations, keys of 31 to 601 bytes (thorough: 15 to 4096) that differ in their last byte, values of 72, 302 and 5002 bytes that differ in their first and last.
//
//verif:harness props=C01,C02 budget=150/900 
func H_L01_bolt() { hs.LongReads(eng) }

// LongScan: iterators over long keys keep to long bounds, seek, and stop where they should.
// Bounds: 4 stored keys, 2 of them of 31 to 601 bytes (thorough: 15 to 4096), bounds and sought keys that differ from them in the last bytes.
//
//verif:harness props=C03,C04,C05 budget=150/900 
func H_L02_bolt() { hs.LongScan(eng) }

// LongMerge: merges into long keys, with long operands and long stored values.
// Bounds: 1 stored value of 201 bytes, 6 operands of 90 bytes (thorough: 20), keys of 41 and 301 bytes.
//
//verif:harness props=C08,C09 budget=150/900 
func H_L03_bolt() { hs.LongMerge(eng) }

// BigBatch: a batch of many operations, the last of which may be invalid, or during which the engine may fail, takes effect completely or not at all.
// Bounds: batches of 80 to 2200 operations (thorough: 66 to 4200) with fixed keys and 1 symbolic value, 1 failing engine call at the 1st to 3rd place or a symbolic last key.
//
//verif:harness props=C01,C02,C03,C07 budget=150/900 native=model
func H_L04_bolt() { hs.BigBatch(eng) }

// BadKeys: keys an engine refuses (none, reserved ones, too long ones) fail their batch as a whole; keys it accepts are stored whole.
// Bounds: 1 batch of 3 operations, one key of 0, 8, 9, 32768, 32769, 65001, 65535 or 65536 bytes of which the last is symbolic, or any key of 9 bytes.
//
//verif:harness props=C07 budget=150/900 
func H_L05_bolt() { hs.BadKeys(eng) }

// BigDurability: a batch of many operations survives a restart completely or not at all.
// Bounds: 1 batch of 40 to 1100 operations (thorough: 33 to 2100) with fixed keys, 1 process death at any engine boundary, with and without loss of unsynced data.
//
//verif:harness props=C12 budget=150/900 native=model
func H_L06_bolt() { hs.BigDurability(eng) }

// LongOwnership: long keys, values and operands come from buffers, with and without room behind them, that are overwritten as soon as the call returns; the store holds what they contained.
// Bounds: 2 insertions and at most 1 deletion or merge, keys of 31 to 601 bytes (thorough: 15 to 4096), values and operands of 64 to 5002 bytes, symbolic in their first and last byte, buffers with and without room behind them.
//
//verif:harness props=C09 budget=150/900 
func H_L09_bolt() { hs.LongOwnership(eng) }

// Session: every short history of insertions, deletions and merges through fresh and reused batches, snapshots taken and given up, failed batches and reopenings, in any order.
// Bounds: 4 steps (thorough: 5) of 7 kinds, 2 keys of 1 and 2 bytes, values of 1 byte.
//
//verif:harness props=C01,C06,C07,C08,C10 budget=150/900 
func H_L08_bolt() { hs.Session(eng) }

// BigCompaction: more dead entries than one compaction batch holds, live ones among them, and long keys.
// Bounds: 92 and 262 entries (thorough: twice that) with fixed keys and 2 symbolic values, batch sizes 1, 64, 1000 and the default.
//
//verif:harness props=C11 budget=150/900 
func H_L07_bolt() { hs.BigCompaction(eng) }
