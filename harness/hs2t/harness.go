package hs2t

// Bounds: up to 2 cells in the first and 1 in each of 2 others (thorough: 2).
//
//verif:harness props=T01 instr=s2 budget=60/300
func H_T01() { Union() }

// Bounds: up to 3 cells in each (thorough: 4 and 3).
//
//verif:harness props=T02 instr=s2 budget=100/600
func H_T02() { Missing() }

// Bounds: every path of up to 33 arbitrary children.
//
//verif:harness props=T03 instr=s2 budget=100/300
func H_T03p() { Path() }

// Bounds: every string of up to 4 bytes (thorough: 6).
//
//verif:harness props=T03 instr=s2 budget=100/600
func H_T03s() { AnyString() }

// Bounds: tokens of 1, 2, 5 and 16 digits, the first and last two hexadecimal.
//
//verif:harness props=T03 instr=s2 budget=100/300
func H_T03t() { Token() }

// Bounds: strings of 17 to 20 characters: digits up to the last one, which is arbitrary, the first and the last 3 arbitrary (thorough: 5).
//
//verif:harness props=T03 instr=s2 budget=100/600
func H_T03d() { Decimal() }

// Bounds: up to 2 cells of levels 0, 3, 12 and 30 (thorough: every level), with up to 7 of their bits symbolic.
//
//verif:harness props=T04 instr=s2 budget=100/600
func H_T04() { Display() }

// Bounds: tokens of up to 2 cells of the same levels, with up to 11 of their bits symbolic (thorough: 17).
//
//verif:harness props=T04 instr=s2 budget=60/300
func H_T04t() { Tokens() }

// Bounds: requests for one cell by a token of 0 to 2 arbitrary letters or digits, or two by tokens of up to 1 (thorough: 2).
//
//verif:harness props=T05 instr=s2 budget=100/600
func H_T05q() { QueryCells() }

// Bounds: parameters of 0 to 2 arbitrary characters, up to 2 features of every type, coverings of up to 2 cells.
//
//verif:harness props=T05 instr=s2 budget=100/600
func H_T05c() { CoverBody() }

// Bounds: outlines of 1 to 3 positions of any coordinates, with and without a hole, coverings of up to 2 cells; levels 1 to 12, at most 3 cells.
//
//verif:harness props=T05 instr=s2 budget=100/600
func H_T05p() { CoverShape() }
