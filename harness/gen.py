#!/usr/bin/env python3
"""Writes h<engine>/harness.go: one entry point per store property and backend."""
import os, re
ALL = ["gtreap", "bolt", "level", "badger"]
DISK = ["bolt", "level", "badger"]
MODEL = "environment: contract models of bolt 1.3.1, goleveldb 1.0.0 and badger 1.6.0 (/verif/models)"
T = [
 # name, property, function, directives, engines, bounds
 ("C01a", "C01", "BatchHistory", "", ALL, "2 batches of 2 and 1 operations (thorough: 2 and 2), keys of 1 byte, values of at most 1 byte"),
 ("C01b", "C01", "BatchOrder", "", ALL, "1 batch of 3 operations (thorough: 4), keys of 1 to 2 bytes, values of at most 1 byte"),
 ("C02", "C02", "Reads", "", ALL, "2 stored keys of 1 to 2 bytes, values of at most 1 byte (thorough: 2), at most 2 keys read (thorough: 3)"),
 ("C03", "C03", "PrefixScan", "", ALL, "2 stored keys of 1 to 2 bytes (thorough: 3) and at most 1 deletion, prefixes of at most 2 bytes"),
 ("C04", "C04", "RangeScan", "", ALL, "2 stored keys of 1 to 2 bytes (thorough: 3), start of at most 1 byte (thorough: 2), end of at most 2 bytes or none"),
 ("C05a", "C05", "SeekPrefix", "", ALL, "2 stored keys of 1 to 2 bytes, prefixes of at most 1 byte, 2 seeks of at most 2 bytes with steps between"),
 ("C05b", "C05", "SeekRange", "", ALL, "2 stored keys of 1 byte (thorough: 2), bounds of at most 1 byte, 2 seeks of at most 2 bytes"),
 ("C06", "C06", "Isolation", "", ALL, "2 insertions before the reader, 1 operation after it (thorough: 2), keys of 1 byte"),
 ("C07a", "C07", "FailedBatch", "", ALL, "1 batch: 2 plain operations with keys of at most 1 byte (thorough: 3), or 2 merges and an insertion, or a batch of another store"),
 ("C07b", "C07", "EngineFailure", "native=model", DISK, "1 batch of at most 1 merge and 2 operations, 1 failing engine call at any place"),
 ("C08", "C08", "Merge", "", ALL, "1 to 2 batches, 3 merges in all, keys and operands of 1 byte, at most 1 stored and 1 deleted entry"),
 ("C09", "C09", "Ownership", "", ALL, "1 batch of an insertion, 2 merges and at most 1 deletion sharing one buffer of 6 bytes"),
 ("C10", "C10", "Reset", "", ALL, "1 reset between 2 uses of a batch of at most 4 operations, keys of 1 byte, or 2 resets with a third use of 1 operation"),
 ("C11a", "C11", "Compaction", "", ["bolt", "level"], "3 entries (thorough: 4), keys of 1 to 2 bytes, values of at most 2 bytes, batch sizes 1 to 3 and the default"),
 ("C11b", "C11", "CompactionFailure", "native=model", ["bolt", "level"], "3 entries below d, 1 failing engine call at any place, batch sizes 1 to 3"),
 ("C12a", "C12", "Durability", "native=model", DISK, "2 batches of 1 and 2 operations (thorough: 2 and 2), 5 configurations, an optional merge, 1 process death at any engine boundary, with and without loss of unsynced data"),
 ("C12b", "C12", "Reopen", "", DISK, "2 generations of 2 and 1 operations, 3 openings"),
 ("C14", "C14", "ReadFailure", "native=model", DISK, "2 stored keys, 1 failing engine call at any place of a single or multi-key read"),
 ("C15", "C15", "NullStore", "", ["null"], "1 batch of 3 operations, keys of at most 2 bytes, at most 3 keys read, batch buffers of 0 to 70000 bytes"),
 ("C16a", "C16", "BadConfig", "", ALL, "no path, a path of another type, nil, an unusable path"),
 ("C16b", "C16", "OpenFailure", "native=model", DISK, "fresh and existing stores, 1 failing engine call at any place of opening"),
 ("C16c", "C16", "BoltConfig", "", ["bolt"], "2 generations, 5 bucket settings each, 4 tunings, 3 read-only settings, 1 operation each"),
 ("C16d", "C16", "LevelConfig", "", ["level"], "fresh and existing stores, every combination of create_if_missing, error_if_exists, read_only and tuning, 1 operation each"),
 ("C16e", "C16", "LevelTuning", "native=model", ["level"], "5 tuning options, each absent, given or of another type"),
 ("C16f", "C16", "BoltTuning", "native=model", ["bolt"], "2 tuning options, absent, given or of another type"),
 ("C17", "C17", "Resources", "native=model", DISK, "1 batch of an insertion and at most 1 merge, 1 reader, 2 iterators, 1 failing engine call at any place"),
 ("C17g", "C17", "Goroutines", "native=model", ALL, "4 fixed entries, 1 iterator (thorough: 2) of every kind with bounds of at most 1 byte, up to 2 moves, beside another one"),
 ("C13", "C13", "Concurrent", "instr=gtreap sched=1 steps=200000 preempt=2/3", ["gtreapc"], "2 writers of 1 batch each (thorough: 2), 1 reader of 2 snapshots, every statement of the backend a scheduling point"),
 ("L01", "C01,C02", "LongReads", "", ALL, "3 operations, keys of 31 to 601 bytes (thorough: 15 to 4096) that differ in their last byte, values of 72, 302 and 5002 bytes that differ in their first and last"),
 ("L02", "C03,C04,C05", "LongScan", "", ALL, "4 stored keys, 2 of them of 31 to 601 bytes (thorough: 15 to 4096), bounds and sought keys that differ from them in the last bytes"),
 ("L03", "C08,C09", "LongMerge", "", ALL, "1 stored value of 201 bytes, 6 operands of 90 bytes (thorough: 20), keys of 41 and 301 bytes"),
 ("L04", "C01,C02,C03,C07", "BigBatch", "native=model", ALL, "batches of 80 to 2200 operations (thorough: 66 to 4200) with fixed keys and 1 symbolic value, 1 failing engine call at the 1st to 3rd place or a symbolic last key"),
 ("L05", "C07", "BadKeys", "", ALL, "1 batch of 3 operations, one key of 0, 8, 9, 32768, 32769, 65001, 65535 or 65536 bytes of which the last is symbolic, or any key of 9 bytes"),
 ("L06", "C12", "BigDurability", "native=model", DISK, "1 batch of 40 to 1100 operations (thorough: 33 to 2100) with fixed keys, 1 process death at any engine boundary, with and without loss of unsynced data"),
 ("L09", "C09", "LongOwnership", "", ALL, "2 insertions and at most 1 deletion or merge, keys of 31 to 601 bytes (thorough: 15 to 4096), values and operands of 64 to 5002 bytes, symbolic in their first and last byte, buffers with and without room behind them"),
 ("L08", "C01,C06,C07,C08,C10", "Session", "", ALL, "4 steps (thorough: 5) of 7 kinds, 2 keys of 1 and 2 bytes, values of 1 byte"),
 ("L07", "C11", "BigCompaction", "", ["bolt", "level"], "92 and 262 entries (thorough: twice that) with fixed keys and 2 symbolic values, batch sizes 1, 64, 1000 and the default"),
]
here = os.path.dirname(os.path.abspath(__file__))
src = "".join(open(os.path.join(here, "hs", f)).read() for f in ["props.go", "props2.go", "props3.go", "props4.go"])
def doc(fn):
    m = re.search(r"((?://[^\n]*\n)+)func %s\(" % fn, src)
    t = " ".join(l.strip("/ ") for l in m.group(1).strip().split("\n"))
    return t
for e in ALL + ["null", "gtreapc"]:
    out = ["// Code generated by gen.py. DO NOT EDIT.\n\npackage h%s\n\nimport \"oureaverif/hs\"\n" % e]
    for (n, props, fn, d, engs, bounds) in T:
        if e not in engs:
            continue
        out.append("// %s\n// Bounds: %s.\n//\n//verif:harness props=%s budget=150/900 %s\nfunc H_%s_%s() { hs.%s(eng) }\n" % (doc(fn), bounds, props, d, n, e, fn))
    with open(os.path.join(here, "h" + e, "harness.go"), "w") as f:
        f.write("\n".join(out))
