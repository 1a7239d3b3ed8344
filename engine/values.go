package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value interface{}

type structure []value
type array []value
type tuple []value
type slice []value // nil slice: slice(nil)

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
	nat func(m *Machine, g *gor, args []value) value
}

type symStr struct{ b []*Term }

type mapVal struct {
	keys  []value // nil entry = deleted
	vals  []value
	idx   map[string]int // concrete keys -> position
	n     int
	nsym  int // number of live entries with symbolic keys
	kt    types.Type
	order int
}

type chanVal struct {
	cap    int
	buf    []value
	closed bool
	sendq  []*pendSend
	recvq  []*pendRecv
	elem   types.Type
}
type pendSend struct {
	v    value
	done bool
}
type pendRecv struct {
	v    value
	ok   bool
	done bool
}

type unsafePtr struct {
	v value // underlying *value pointer
}

type mapIter struct {
	m    *mapVal
	left []int
}
type strIter struct {
	b []*Term
	i int
}

func under(t types.Type) types.Type { return t.Underlying() }

func basicInfo(t types.Type) (*types.Basic, bool) {
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

func isString(t types.Type) bool {
	b, ok := basicInfo(t)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := basicInfo(t)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := basicInfo(t)
	return ok && b.Info()&types.IsInteger != 0
}
func isSigned(t types.Type) bool {
	b, ok := basicInfo(t)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isBool(t types.Type) bool {
	b, ok := basicInfo(t)
	return ok && b.Info()&types.IsBoolean != 0
}

func widthOf(t types.Type) int32 {
	b, ok := basicInfo(t)
	if !ok {
		panic(unsupported("widthOf " + t.String()))
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat, types.UnsafePointer:
		return 64
	case types.UntypedRune:
		return 32
	case types.Bool, types.UntypedBool:
		return 0
	}
	panic(unsupported("widthOf " + t.String()))
}

// unsupported ends the current path as "not encoded".
type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

// zero returns the zero value of t.
func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return unsafePtr{}
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsBoolean != 0:
			return tFalse
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&(types.IsInteger|types.IsFloat) != 0:
			return mkConst(widthOf(t), 0)
		case t.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return slice(nil)
	case *types.Map:
		return (*mapVal)(nil)
	case *types.Chan:
		return (*chanVal)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*closure)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(unsupported("type param"))
	}
	panic(unsupported("zero " + t.String()))
}

// copyVal copies aggregate values.
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case array:
		n := make(array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

func strBytes(v value) []*Term {
	switch v := v.(type) {
	case string:
		b := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = small8[v[i]]
		}
		return b
	case *symStr:
		return v.b
	}
	panic(engineErr(fmt.Sprintf("strBytes %T", v)))
}

func strLen(v value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *symStr:
		return len(v.b)
	}
	panic(engineErr(fmt.Sprintf("strLen %T", v)))
}

func mkStr(b []*Term) value {
	for _, t := range b {
		if t.op != OConst {
			return &symStr{append([]*Term(nil), b...)}
		}
	}
	s := make([]byte, len(b))
	for i, t := range b {
		s[i] = byte(t.val)
	}
	return string(s)
}

func sliceBytes(s slice) []*Term {
	b := make([]*Term, len(s))
	for i, v := range s {
		b[i] = v.(*Term)
	}
	return b
}

func bytesSlice(b []*Term) slice {
	s := make(slice, len(b))
	for i, t := range b {
		s[i] = t
	}
	return s
}

func goString(s string) slice {
	r := make(slice, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = small8[s[i]]
	}
	return r
}

func intv(i int) *Term { return mkConst(64, uint64(i)) }

// concKey returns a canonical string of a fully concrete comparable value.
func concKey(v value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if v.op != OConst {
			return "", false
		}
		return fmt.Sprintf("i%d", v.val), true
	case string:
		return "s" + v, true
	case *symStr:
		return "", false
	case iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := concKey(v.v)
		return "I" + v.t.String() + ":" + k, ok
	case *value, *mapVal, *chanVal:
		return fmt.Sprintf("p%p", v), true
	case structure:
		var sb strings.Builder
		for _, x := range v {
			k, ok := concKey(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "{%d:%s}", len(k), k)
		}
		return sb.String(), true
	case array:
		return concKey(structure(v))
	case unsafePtr:
		return concKey(v.v)
	case nil:
		return "nil", true
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}
