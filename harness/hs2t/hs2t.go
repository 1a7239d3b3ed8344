// Package hs2t holds the properties of the cell tools.
package hs2t

import (
	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"

	"oureaverif/env"
	"oureaverif/geow"
	"oureaverif/sym"
)

func quick(q, t int) int {
	if sym.Tier() > 0 {
		return t
	}
	return q
}

func union(name string, max int) s2.CellUnion {
	var cu s2.CellUnion
	for n := sym.Choice(name+".n", max+1); n > 0; n-- {
		cu = append(cu, s2.CellID(sym.Uint64(name)))
	}
	return cu
}

func has(cu s2.CellUnion, c s2.CellID) bool {
	in := false
	for _, x := range cu {
		in = sym.Or(in, x == c)
	}
	return in
}

func clone(cu s2.CellUnion) s2.CellUnion { return append(s2.CellUnion(nil), cu...) }

func equal(a, b s2.CellUnion) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, a[i] == b[i])
	}
	return ok
}

// Union: the union of cell unions has every cell of them once, in order, and nothing else.
func Union() {
	src := union("src", quick(2, 2))
	var others []s2.CellUnion
	all := clone(src)
	for n := sym.Choice("others", 3); n > 0; n-- {
		cu := union("other", quick(1, 2))
		others = append(others, cu)
		all = append(all, cu...)
	}
	keep := clone(all)
	got := s2tools.CellUnionUnion(src, others...)
	ok := true
	for _, c := range all {
		ok = sym.And(ok, has(got, c))
	}
	sym.Assert(ok, "every cell is in the union")
	ok = true
	for _, c := range got {
		ok = sym.And(ok, has(all, c))
	}
	sym.Assert(ok, "nothing else is in the union")
	ok = true
	for i := 1; i < len(got); i++ {
		ok = sym.And(ok, uint64(got[i-1]) < uint64(got[i]))
	}
	sym.Assert(ok, "the union is in order, without duplicates")
	now := clone(src)
	for _, o := range others {
		now = append(now, o...)
	}
	sym.Assert(equal(now, keep), "the cell unions are left as they are")
	sym.Reach("end")
}

// Missing: the cells of one union that are missing in the other, in order.
func Missing() {
	from, to := union("from", quick(3, 4)), union("to", quick(3, 3))
	keepFrom, keepTo := clone(from), clone(to)
	got := s2tools.CellUnionMissing(from, to)
	// the i-th occurrence of a cell is missing if the other has it less often
	var want []uint64
	var kept s2.CellUnion
	for i, c := range from {
		var n, m uint64
		for _, d := range from[:i+1] {
			n += sym.Ite(c == d, 1, 0)
		}
		for _, d := range to {
			m += sym.Ite(c == d, 1, 0)
		}
		if n > m {
			kept = append(kept, c)
		}
		want = append(want, n, m)
	}
	sym.Assert(len(got) == len(kept), "a cell is missing as often as one union has it more than the other")
	// which of several equal cells is taken makes no difference but to the order
	ok := true
	for _, c := range kept {
		var n, m uint64
		for i := range kept {
			n += sym.Ite(kept[i] == c, 1, 0)
			m += sym.Ite(got[i] == c, 1, 0)
		}
		ok = sym.And(ok, n == m)
	}
	sym.Assert(ok, "exactly the cells one union has more than the other are missing")
	at, order := make([]bool, len(from)+1), false
	// got is a subsequence of from
	at[0] = true
	for _, g := range got {
		next := make([]bool, len(from)+1)
		for i, c := range from {
			reach := false
			for j := 0; j <= i; j++ {
				reach = sym.Or(reach, at[j])
			}
			next[i+1] = sym.And(reach, c == g)
		}
		at = next
	}
	for _, a := range at {
		order = sym.Or(order, a)
	}
	sym.Assert(order, "missing cells keep their order")
	sym.Assert(sym.And(equal(from, keepFrom), equal(to, keepTo)), "the cell unions are left as they are")
	sym.Reach("end")
}

// Path: the path of a cell is parsed as that cell.
func Path() {
	face := sym.Byte("face")
	sym.Assume(face < 6)
	n := sym.Choice("depth", 34)
	s := []byte{'0' + face, '/'}
	c := uint64(face & 7)
	for i := 0; i < n; i++ {
		k := sym.Byte("child") & 3
		s = append(s, '0'|k)
		if i < 30 {
			c = c<<2 | uint64(k)
		}
	}
	c = (c<<1 | 1) << uint(60-2*min(n, 30))
	got := s2tools.ParseCellID(string(s))
	if n > 30 {
		sym.Assert(got == nil, "there is nothing below a leaf cell")
		sym.Reach("deep")
		return
	}
	sym.Assert(got != nil, "the path of a cell is parsed")
	sym.Assert(uint64(*got) == c, "the path of a cell is parsed as that cell")
	sym.Reach("end")
}

func digit(b byte) bool { return sym.And(b >= '0', b <= '9') }

// AnyString: what is no cell is refused, whatever the string.
func AnyString() {
	s := sym.BytesUpTo("s", quick(4, 6))
	var got *s2.CellID
	panicked, _ := sym.Catch(func() { got = s2tools.ParseCellID(string(s)) })
	sym.Assert(!panicked, "no string makes parsing panic")
	slash, hex, dec := false, len(s) > 0, len(s) > 0
	var v, d uint64
	for _, b := range s {
		slash = sym.Or(slash, b == '/')
		low := sym.And(b >= 'a', b <= 'f')
		up := sym.And(b >= 'A', b <= 'F')
		hex = sym.And(hex, sym.Or(digit(b), low, up))
		dec = sym.And(dec, digit(b))
		v = v<<4 | sym.Ite(digit(b), uint64(b-'0'), sym.Ite(low, uint64(b-'a'+10), uint64(b-'A'+10)))
		d = d*10 + uint64(b-'0')
	}
	v <<= uint(4 * (16 - len(s)))
	path := len(s) >= 2 && sym.And(s[0] >= '0', s[0] <= '5', s[1] == '/')
	c := uint64(0)
	if len(s) >= 2 {
		c = uint64(s[0]-'0')<<61 | 1<<60
		for i, b := range s[2:] {
			path = sym.And(path, b >= '0', b <= '3')
			lsb := uint64(1) << uint(2*(30-i))
			c = c - lsb + (2*uint64(b-'0')+1)*(lsb>>2)
		}
	}
	tok := sym.And(!slash, hex, v != 0)
	num := sym.And(!slash, dec)
	sym.Assert(sym.Implies(!sym.Or(path, tok, num), got == nil), "what is no cell is refused")
	if got != nil {
		sym.Assert(sym.Implies(path, uint64(*got) == c), "a path is parsed as its cell")
		sym.Assert(sym.Implies(tok, uint64(*got) == v), "a token is parsed as its cell")
	} else {
		sym.Assert(!sym.Or(path, tok), "paths and tokens are parsed")
	}
	sym.Reach("end")
}

// Token: tokens of every length are parsed.
func Token() {
	n := []int{1, 2, 5, 16}[sym.Choice("n", 4)]
	// the first and the last digits are arbitrary, the others of one kind
	s := make([]byte, n)
	var v uint64
	for i := range s {
		if i < 2 || i >= n-2 {
			k := sym.Byte("digit")
			sym.Assume(k < 16)
			s[i] = byte(sym.Ite(k < 10, uint64('0'+k), uint64('a'+k-10)))
			v = v<<4 | uint64(k)
		} else {
			k := sym.Byte("digit")
			sym.Assume(k < 10)
			s[i] = '0' + k
			v = v<<4 | uint64(k)
		}
	}
	v <<= uint(4 * (16 - n))
	sym.Assume(v != 0)
	got := s2tools.ParseCellID(string(s))
	sym.Assert(got != nil, "a token is parsed")
	sym.Assert(uint64(*got) == v, "a token is parsed as its cell")
	sym.Reach("end")
}

// Decimal: ids of 17 digits and more are parsed as numbers, if they are numbers that ids have.
func Decimal() {
	n := 17 + sym.Choice("n", 4)
	s := []byte("18446744073709551615")[:n]
	free := quick(3, 5)
	ok, v := true, uint64(0)
	var tail, most uint64 // the arbitrary end of 20 digits, and the largest that fits
	for i := range s {
		if i < 1 && n < 20 || i >= n-free {
			most = most*10 + uint64(s[i]-'0')
			s[i] = sym.Byte("digit")
			tail = tail*10 + uint64(s[i]-'0')
			if i < n-1 {
				sym.Assume(digit(s[i]))
			}
		}
		ok = sym.And(ok, digit(s[i]))
		v = v*10 + uint64(s[i]-'0')
	}
	if n == 20 {
		ok = sym.And(ok, tail <= most)
	}
	got := s2tools.ParseCellID(string(s))
	if got == nil {
		sym.Assert(!ok, "the number of a cell is parsed")
		sym.Reach("refused")
		return
	}
	sym.Assert(ok, "what is no number of a cell is refused")
	sym.Assert(uint64(*got) == v, "the number of a cell is parsed as that cell")
	sym.Reach("end")
}

func start() {
	env.Reset()
	geow.Install()
}
