// Code generated by gen.py. DO NOT EDIT.

package hnull

import "oureaverif/hs"

// NullStore: the null backend accepts everything and holds nothing.
// Bounds: 1 batch of 3 operations, keys of at most 2 bytes, at most 3 keys read, batch buffers of 0 to 70000 bytes.
//
//verif:harness props=C15 budget=150/900 
func H_C15_null() { hs.NullStore(eng) }
