// Code generated by gen.py. DO NOT EDIT.

package hgtreapc

import "oureaverif/hs"

// Concurrent: batches of concurrent writers take effect one after the other, each at one instant, and readers see the store between two batches.
// Bounds: 2 writers of 1 batch each (thorough: 2), 1 reader of 2 snapshots, every statement of the backend a scheduling point.
//
//verif:harness props=C13 budget=150/900 instr=gtreap sched=1 steps=200000 preempt=2/3
func H_C13_gtreapc() { hs.Concurrent(eng) }
