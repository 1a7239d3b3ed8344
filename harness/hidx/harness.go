package hidx

// Two objects (points or lines) indexed, one cell looked up.
//
// Bounds: 2 objects of up to 2 cells each, levels 30, 13 and 0, prefixes of 0 to 1 bytes, ids of 1 to 2 bytes
// (thorough: 3 objects, levels 29 and 1 as well).
//
//verif:harness props=I01 instr=s2 budget=150/600
func H_I01() { FlatLookup() }

// Bounds: 3 points, cells of the levels 30, 12 and 0, prefixes of 0 to 1 bytes, ids of 1 to 2 bytes (thorough: 4
// points, cells of every level).
//
//verif:harness props=I02 instr=s2 budget=150/600
func H_I02() { PointLookup() }

// Bounds: 2 objects of 1 cell each, every instant within int64 nanoseconds, levels 30, 13 and 0, ids of 1 to 2
// bytes (thorough: 3 objects of up to 2 cells, levels 29 and 1 as well).
//
//verif:harness props=I03 instr=s2 budget=150/600
func H_I03() { TimeLookup() }

// Bounds: 1 point indexed, every cell of another level, alone and in a list of 2.
//
//verif:harness props=I01,I03,I04 instr=s2 budget=100/300
func H_Level() { OtherLevel() }

// Bounds: 2 ids at up to 3 places, lists of up to 2 cells, ids of 1 byte (thorough: 3 cells, ids of 1 to 2 bytes).
//
//verif:harness props=I04 instr=s2 budget=250/600
func H_I04() { Many() }

// Bounds: 2 points, coverings of up to 2 cells, radii of 1 km and 150 km (thorough: 3 points, 25 m as well).
//
//verif:harness props=I05 instr=s2 budget=150/600
func H_I05() { Region() }

// Bounds: 2 points with coverings of up to 2 cells, 3 with 1 cell, radii of 1 km and 150 km (thorough: 3 points, 25 m
// as well).
//
//verif:harness props=I06 instr=s2 budget=150/600
func H_I06() { PointRegion() }

// Bounds: 2 indexes of any kinds with prefixes of 1 to 2 bytes beside each other in one array, one point each.
//
//verif:harness props=I07 instr=s2 budget=150/600
func H_I07() { Isolation() }

// Bounds: 1 object of up to 520 cells (thorough: 1100), one failing call of the store.
//
//verif:harness props=I08 instr=s2 budget=150/600
func H_I08() { Atomic() }

// Bounds: 1 point, 1 foreign key, every query, one failing call of the store.
//
//verif:harness props=I09 instr=s2 budget=150/600
func H_I09() { Release() }

// Bounds: 2 points, ids of 1 to 2 bytes, prefixes of 0 to 1 bytes.
//
//verif:harness props=I10 instr=s2 budget=150/600
func H_I10() { PointKeys() }

// Bounds: 20 and 300 objects (thorough: 1100 as well) with fixed ids of 3 bytes, one with an arbitrary id and one of
// 300 bytes, at one arbitrary place and time; one cell, 41 cells or a region of one cell asked for.
//
//verif:harness props=I01,I02,I03,I04,I05,I06 instr=s2 budget=100/600
func H_Crowd() { Crowd() }

// Bounds: 1 point, 1 entry of the index's prefix and 0 to 7 arbitrary bytes, or of a cell and as many; every lookup.
//
//verif:harness props=I07 instr=s2 budget=100/300
func H_Stray() { Stray() }
