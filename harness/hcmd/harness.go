package hcmd

import "oureaverif/sym"

// Bounds: /api/geojson/a/b/c, one of a, b, c any 0..2 (thorough 3) bytes of ASCII other than / and ., the others fixed digits; POST and GET.
//
//verif:harness props=X02 instr=cmd budget=100/300
func H_X02a() { Segments(2 + sym.Tier()) }

// Bounds: the two paths, the second with one segment (thorough: two) replaced by any of 13 texts, under 8 methods.
//
//verif:harness props=X02 instr=cmd budget=60/120
func H_X02b() { Methods() }

// Bounds: a served path with one byte replaced by any other ASCII byte but / and ., any prefix of it, or one ASCII byte more; POST and GET.
//
//verif:harness props=X02 instr=cmd budget=100/200
func H_X02c() { Near() }

// Bounds: a slash and any 3 bytes of ASCII without . and //; POST and GET.
//
//verif:harness props=X02 instr=cmd budget=60/200
func H_X02d() { Short(3) }
