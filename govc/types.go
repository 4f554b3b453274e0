package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Every Go type is flattened into a list of scalar "leaves".
//   integer, bool, float            1 leaf
//   string                          (chars array, offset, length)
//   pointer/map/chan/func           1 leaf: reference number (0 = nil)
//   slice                           (ref, off, len, cap)
//   interface                       (type tag, reference)
//   struct                          concatenation
//   [N]T                            each leaf of T as an SMT array

type Leaf struct {
	Name   string
	Sort   *Sort
	lo, hi *big.Int
	Role   string // "int","bool","real","sarr","soff","slen","ptr","ref","off","len","cap","tag","ident","map","func","chan"
	Depth  int    // array nesting
	T      types.Type
}

var maxLen = new(big.Int).Lsh(bi(1), 46)
var maxRef = new(big.Int).Lsh(bi(1), 60)

func intInfo(b *types.Basic) (bits uint, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func intRange(bits uint, signed bool) (*big.Int, *big.Int) {
	if signed {
		h := pow2(bits - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bi(1))
	}
	return bi(0), new(big.Int).Sub(pow2(bits), bi(1))
}

func basicInt(t types.Type) (bits uint, signed bool, ok bool) {
	if b, isb := t.Underlying().(*types.Basic); isb {
		return intInfo(b)
	}
	return 0, false, false
}

type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return "unsupported: " + u.Msg }
func unsupported(f string, a ...any) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

var leafMemo = map[types.Type][]Leaf{}

// opaque library struct types with ghost layouts
var ghostLayouts = map[string][]Leaf{
	"os.File":        {{Name: "fid", Sort: IntS, Role: "int", lo: bi(0), hi: maxRef}, {Name: "pos", Sort: IntS, Role: "int", lo: bi(0), hi: maxLen}},
	"bufio.Writer":   {{Name: "file", Sort: IntS, Role: "int", lo: bi(0), hi: maxRef}, {Name: "buf", Sort: nil, Role: "bytes"}, {Name: "n", Sort: IntS, Role: "int", lo: bi(0), hi: maxLen}},
	"bytes.Buffer":   {{Name: "data", Sort: nil, Role: "bytes"}, {Name: "len", Sort: IntS, Role: "int", lo: bi(0), hi: maxLen}, {Name: "rpos", Sort: IntS, Role: "int", lo: bi(0), hi: maxLen}},
	"bytes.Reader":   {{Name: "data", Sort: nil, Role: "bytes"}, {Name: "len", Sort: IntS, Role: "int", lo: bi(0), hi: maxLen}, {Name: "rpos", Sort: IntS, Role: "int", lo: bi(0), hi: maxLen}},
	"sync.Mutex":     {},
	"sync.RWMutex":   {},
	"sync.WaitGroup": {},
	"time.Time":      {{Name: "t", Sort: IntS, Role: "int"}},
	"math/big.Int":   {{Name: "v", Sort: IntS, Role: "int"}},
}

func typeKey(t types.Type) string {
	switch u := t.(type) {
	case *types.Named:
		if _, ok := u.Underlying().(*types.Struct); ok {
			return types.TypeString(t, nil)
		}
		return typeKey(u.Underlying())
	case *types.Alias:
		return typeKey(types.Unalias(t))
	case *types.Basic:
		if b, s, ok := intInfo(u); ok {
			if s {
				return fmt.Sprintf("int%d", b)
			}
			return fmt.Sprintf("uint%d", b)
		}
		return u.Name()
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeKey(u.Elem()))
	case *types.Interface:
		return "iface"
	}
	return types.TypeString(t, nil)
}

func leavesOf(t types.Type) []Leaf {
	if l, ok := leafMemo[t]; ok {
		return l
	}
	l := computeLeaves(t)
	leafMemo[t] = l
	return l
}

func computeLeaves(t types.Type) []Leaf {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		k := types.TypeString(n, nil)
		if g, ok := ghostLayouts[k]; ok {
			out := make([]Leaf, len(g))
			for i, l := range g {
				if l.Role == "bytes" {
					l.Sort = ArrS(IntS)
					l.lo, l.hi = bi(0), bi(255)
					l.Role = "int"
					l.Depth = 1
				}
				l.T = t
				out[i] = l
			}
			return out
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if bits, s, ok := intInfo(u); ok {
			lo, hi := intRange(bits, s)
			return []Leaf{{Sort: IntS, lo: lo, hi: hi, Role: "int", T: t}}
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return []Leaf{{Sort: BoolS, Role: "bool", T: t}}
		case types.String, types.UntypedString:
			return []Leaf{
				{Name: "chars", Sort: ArrS(IntS), lo: bi(0), hi: bi(255), Role: "sarr", T: t},
				{Name: "soff", Sort: IntS, lo: bi(0), hi: maxLen, Role: "soff", T: t},
				{Name: "slen", Sort: IntS, lo: bi(0), hi: maxLen, Role: "slen", T: t},
			}
		case types.Float64, types.Float32, types.UntypedFloat:
			return []Leaf{{Sort: RealS, Role: "real", T: t}}
		case types.UnsafePointer:
			return []Leaf{{Sort: IntS, Role: "ptr", T: t}}
		case types.UntypedNil:
			return []Leaf{{Sort: IntS, lo: bi(0), hi: bi(0), Role: "ptr", T: t}}
		}
	case *types.Pointer:
		return []Leaf{{Sort: IntS, lo: bi(0), hi: maxRef, Role: "ptr", T: t}}
	case *types.Map:
		return []Leaf{{Sort: IntS, lo: bi(0), hi: maxRef, Role: "map", T: t}}
	case *types.Chan:
		return []Leaf{{Sort: IntS, lo: bi(0), hi: maxRef, Role: "chan", T: t}}
	case *types.Signature:
		return []Leaf{{Sort: IntS, lo: bi(0), hi: maxRef, Role: "func", T: t}}
	case *types.Slice:
		return []Leaf{
			{Name: "ref", Sort: IntS, lo: bi(0), hi: maxRef, Role: "ref", T: t},
			{Name: "off", Sort: IntS, lo: bi(0), hi: maxLen, Role: "off", T: t},
			{Name: "len", Sort: IntS, lo: bi(0), hi: maxLen, Role: "len", T: t},
			{Name: "cap", Sort: IntS, lo: bi(0), hi: maxLen, Role: "cap", T: t},
		}
	case *types.Interface:
		return []Leaf{
			{Name: "tag", Sort: IntS, lo: bi(0), hi: maxRef, Role: "tag", T: t},
			{Name: "ident", Sort: IntS, lo: bi(0), hi: maxRef, Role: "ident", T: t},
		}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				if l.Name == "" {
					l.Name = u.Field(i).Name()
				} else {
					l.Name = u.Field(i).Name() + "." + l.Name
				}
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range leavesOf(u.Elem()) {
			l.Sort = ArrS(l.Sort)
			l.Depth++
			out = append(out, l)
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, leavesOf(u.At(i).Type())...)
		}
		return out
	}
	unsupported("type %s", t)
	return nil
}

func nLeaves(t types.Type) int { return len(leavesOf(t)) }

// fieldOff gives leaf offset of field i in struct type.
func fieldOff(st *types.Struct, i int) int {
	n := 0
	for k := 0; k < i; k++ {
		n += nLeaves(st.Field(k).Type())
	}
	return n
}
func tupleOff(tp *types.Tuple, i int) int {
	n := 0
	for k := 0; k < i; k++ {
		n += nLeaves(tp.At(k).Type())
	}
	return n
}

func defaultTerm(s *Sort) *Term {
	switch {
	case s == IntS:
		return Num(0)
	case s == BoolS:
		return False
	case s == RealS:
		return mk(OReal, RealS, nil, nil, nil, "0")
	}
	return ConstArr(s, defaultTerm(s.Elem))
}

func zeroVal(t types.Type) Val {
	ls := leavesOf(t)
	out := make(Val, len(ls))
	for i, l := range ls {
		out[i] = defaultTerm(l.Sort)
	}
	return out
}

func freshVal(name string, t types.Type) Val {
	ls := leavesOf(t)
	out := make(Val, len(ls))
	for i, l := range ls {
		n := name
		if l.Name != "" {
			n += "." + l.Name
		}
		out[i] = Fresh(n, l.Sort, l.lo, l.hi)
	}
	return out
}

type Val []*Term

// kinds of heap objects: "T:<type>" structs and scalars, "A:<elem>" arrays, "L<n>" local cells, "M:<k>:<v>" maps.
func ptrKind(elem types.Type) string {
	if a, ok := elem.Underlying().(*types.Array); ok {
		return "A:" + typeKey(a.Elem())
	}
	return "T:" + typeKey(elem)
}
func sliceKind(elem types.Type) string { return "A:" + typeKey(elem) }

func shortType(s string) string {
	return strings.ReplaceAll(s, "github.com/KitchenMishap/pudding-shed/", "")
}
