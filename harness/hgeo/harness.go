package hgeo

// Bounds: 1 point, least levels 0, 13, 30, 31, 100 and -1.
//
//verif:harness props=G01 instr=s2 budget=60/120
func H_G01p() { CoverPoint() }

// Bounds: lines of 1 to 3 positions (thorough: 5), 3 coverers, coverings of up to 2 cells.
//
//verif:harness props=G01 instr=s2 budget=60/300
func H_G01l() { CoverLine() }

// Bounds: outlines of 3 to 4 vertices (thorough: 5), open and closed, 3 coverers, coverings of up to 2 cells.
//
//verif:harness props=G02 instr=s2 budget=100/300
func H_G02() { CoverPolygon() }

// Bounds: up to 2 polygons of 3 and 4 vertices, coverings of up to 1 cell.
//
//verif:harness props=G02 instr=s2 budget=100/300
func H_G02m() { CoverMulti() }

// Bounds: up to 8 coordinates, every type, 6 functions.
//
//verif:harness props=G03 instr=s2 budget=100/300
func H_G03() { Malformed() }

// Bounds: lines of 1 to 3 positions, outlines of 3 to 4 vertices (thorough: 5).
//
//verif:harness props=G04 instr=s2 budget=60/300
func H_G04() { Bounds() }

// Bounds: layouts XY, XYZ, XYM and XYZM, up to 4 positions and one inner ring.
//
//verif:harness props=G05 instr=s2 budget=60/300
func H_G05() { Convert() }

// Bounds: 2 properties of every type, beside up to 2 existing ones.
//
//verif:harness props=G06 instr=s2 budget=60/300
func H_G06() { Properties() }

// Bounds: up to 2 geometries (thorough: 3), multipolygons of up to 2 polygons.
//
//verif:harness props=G07 instr=s2 budget=60/300
func H_G07() { Export() }

// Bounds: up to 3 points (thorough: 4).
//
//verif:harness props=G07 instr=s2 budget=60/300
func H_G07l() { ExportLine() }
