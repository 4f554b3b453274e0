package main

// Terms: hash-consed SMT terms over Int/Bool/Real/arrays with a simplifier.
// Integers are mathematical; machine arithmetic is expressed by explicit wrap
// terms (mod 2^w) unless interval reasoning shows that no wrap can happen.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort struct {
	Name string
	Elem *Sort
	Idx  *Sort
}

var (
	IntS  = &Sort{Name: "Int"}
	BoolS = &Sort{Name: "Bool"}
	RealS = &Sort{Name: "Real"}
)
var arrSorts = map[string]*Sort{}

func ArrS(e *Sort) *Sort {
	n := "(Array Int " + e.Name + ")"
	if s, ok := arrSorts[n]; ok {
		return s
	}
	s := &Sort{Name: n, Elem: e, Idx: IntS}
	arrSorts[n] = s
	return s
}

type Op int

const (
	OInt Op = iota
	OTrue
	OFalse
	OVar
	OBound
	OAdd // sum Coefs[i]*Args[i] + Val
	OMul // nonlinear product of 2 args
	ODiv // floor division (SMT div), divisor arg1
	OMod
	OIte
	OEq
	OGe0 // Args[0] >= 0
	ONot
	OAnd
	OOr
	OSelect
	OStore
	OConstArr
	OApp
	OForall
	OExists
	ORAdd
	ORMul
	ORLe
	OReal
	OToReal
	OToInt
)

type Term struct {
	Op    Op
	ID    int
	Sort  *Sort
	Args  []*Term
	Coefs []*big.Int
	Val   *big.Int
	Rat   *big.Rat
	Name  string
	lo    *big.Int
	hi    *big.Int
	tz    uint
	bound bool // contains free bound variables
	quant bool // contains a quantifier
}

var (
	internTab = map[string]*Term{}
	nextID    = 1
	internMu  sync.Mutex
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bi(1), n) }

func key(op Op, sort *Sort, args []*Term, coefs []*big.Int, val *big.Int, name string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%s|", op, sort.Name, name)
	if val != nil {
		sb.WriteString(val.Text(62))
	}
	for i, a := range args {
		fmt.Fprintf(&sb, ",%d", a.ID)
		if coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(coefs[i].Text(62))
		}
	}
	return sb.String()
}

func mk(op Op, sort *Sort, args []*Term, coefs []*big.Int, val *big.Int, name string) *Term {
	k := key(op, sort, args, coefs, val, name)
	internMu.Lock()
	defer internMu.Unlock()
	if t, ok := internTab[k]; ok {
		return t
	}
	t := &Term{Op: op, Sort: sort, Args: args, Coefs: coefs, Val: val, Name: name, ID: nextID}
	nextID++
	if op == OForall || op == OExists {
		t.quant = true
		// bound-ness: bound unless the only free bound var is ours
		t.bound = hasOtherBound(args[1], args[0])
	} else {
		for _, a := range args {
			if a.bound {
				t.bound = true
			}
			if a.quant {
				t.quant = true
			}
		}
		if op == OBound {
			t.bound = true
		}
	}
	t.computeRange()
	internTab[k] = t
	return t
}

func hasOtherBound(t, v *Term) bool {
	if !t.bound {
		return false
	}
	seen := map[int]bool{}
	var rec func(t *Term, bs map[*Term]bool) bool
	rec = func(t *Term, bs map[*Term]bool) bool {
		if !t.bound {
			return false
		}
		if t.Op == OBound {
			return !bs[t]
		}
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		if t.Op == OForall || t.Op == OExists {
			nb := map[*Term]bool{}
			for k := range bs {
				nb[k] = true
			}
			nb[t.Args[0]] = true
			return rec(t.Args[1], nb)
		}
		for _, a := range t.Args {
			if rec(a, bs) {
				return true
			}
		}
		return false
	}
	return rec(t, map[*Term]bool{v: true})
}

func trailing(v *big.Int) uint {
	if v.Sign() == 0 {
		return 4096
	}
	return v.TrailingZeroBits()
}

type Itv struct{ lo, hi *big.Int }

func (t *Term) computeRange() {
	switch t.Op {
	case OInt:
		t.lo, t.hi = t.Val, t.Val
		t.tz = trailing(t.Val)
	case OAdd:
		it := addItv(t, func(a *Term) Itv { return Itv{a.lo, a.hi} })
		t.lo, t.hi = it.lo, it.hi
		tz := trailing(t.Val)
		for i, a := range t.Args {
			z := trailing(t.Coefs[i]) + a.tz
			if z < tz {
				tz = z
			}
		}
		t.tz = tz
	default:
		it := rngOf(t, func(a *Term) Itv { return Itv{a.lo, a.hi} })
		t.lo, t.hi = it.lo, it.hi
		if t.Op == OIte && t.Sort == IntS {
			t.tz = min(t.Args[1].tz, t.Args[2].tz)
		}
		if t.Op == OMul {
			t.tz = t.Args[0].tz + t.Args[1].tz
		}
		if t.Op == OMod && t.Args[1].Op == OInt {
			t.tz = min(t.Args[0].tz, t.Args[1].tz)
		}
	}
}

func addItv(t *Term, f func(*Term) Itv) Itv {
	lo, hi := new(big.Int).Set(t.Val), new(big.Int).Set(t.Val)
	for i, a := range t.Args {
		r := f(a)
		c := t.Coefs[i]
		al, ah := r.lo, r.hi
		if c.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(c, al))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(c, ah))
			}
		}
		if lo == nil && hi == nil {
			break
		}
	}
	return Itv{lo, hi}
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	if b.Sign() < 0 && m.Sign() != 0 {
		// Euclidean equals SMT-LIB semantics; fine
	}
	return q
}
func euMod(a, b *big.Int) *big.Int {
	return new(big.Int).Mod(a, b)
}

// rngOf computes the interval of a non-OAdd term given intervals of its arguments.
func rngOf(t *Term, f func(*Term) Itv) Itv {
	switch t.Op {
	case OInt:
		return Itv{t.Val, t.Val}
	case OAdd:
		return addItv(t, f)
	case OMul:
		a, b := f(t.Args[0]), f(t.Args[1])
		if a.lo == nil || a.hi == nil || b.lo == nil || b.hi == nil {
			if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
				return Itv{new(big.Int).Mul(a.lo, b.lo), nil}
			}
			return Itv{}
		}
		var lo, hi *big.Int
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		return Itv{lo, hi}
	case ODiv:
		a, b := f(t.Args[0]), f(t.Args[1])
		if b.lo != nil && b.lo.Sign() > 0 {
			var lo, hi *big.Int
			if a.lo != nil {
				if a.lo.Sign() >= 0 {
					if b.hi != nil {
						lo = floorDiv(a.lo, b.hi)
					} else {
						lo = bi(0)
					}
				} else {
					lo = floorDiv(a.lo, b.lo)
				}
			}
			if a.hi != nil {
				if a.hi.Sign() >= 0 {
					hi = floorDiv(a.hi, b.lo)
				} else if b.hi != nil {
					hi = floorDiv(a.hi, b.hi)
				} else {
					hi = bi(-1)
				}
			}
			return Itv{lo, hi}
		}
	case OMod:
		b := f(t.Args[1])
		if b.lo != nil && b.lo.Sign() > 0 {
			var hi *big.Int
			if b.hi != nil {
				hi = new(big.Int).Sub(b.hi, bi(1))
			}
			a := f(t.Args[0])
			if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && (hi == nil || a.hi.Cmp(hi) < 0) {
				hi = a.hi
			}
			return Itv{bi(0), hi}
		}
	case OIte:
		if t.Sort == BoolS {
			return Itv{}
		}
		a, b := f(t.Args[1]), f(t.Args[2])
		var r Itv
		if a.lo != nil && b.lo != nil {
			r.lo = minB(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			r.hi = maxB(a.hi, b.hi)
		}
		return r
	case OSelect:
		return f(t.Args[0])
	case OStore:
		a, b := f(t.Args[0]), f(t.Args[2])
		var r Itv
		if a.lo != nil && b.lo != nil {
			r.lo = minB(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			r.hi = maxB(a.hi, b.hi)
		}
		return r
	case OConstArr:
		return f(t.Args[0])
	case OVar, OApp, OBound:
		return Itv{t.lo, t.hi}
	}
	return Itv{}
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

var True, False *Term

func init() {
	True = mk(OTrue, BoolS, nil, nil, nil, "")
	False = mk(OFalse, BoolS, nil, nil, nil, "")
}

func Num(n int64) *Term      { return mk(OInt, IntS, nil, nil, bi(n), "") }
func NumB(n *big.Int) *Term  { return mk(OInt, IntS, nil, nil, n, "") }
func (t *Term) IsInt() bool  { return t.Op == OInt }
func (t *Term) IsTrue() bool { return t == True }
func (t *Term) IsFalse() bool {
	return t == False
}

// Var returns a constant with the given static range (nil = unbounded).
func Var(name string, s *Sort, lo, hi *big.Int) *Term {
	t := mk(OVar, s, nil, nil, nil, name)
	if lo != nil || hi != nil {
		t.lo, t.hi = lo, hi
	}
	return t
}

var freshN = map[string]int{}

func Fresh(name string, s *Sort, lo, hi *big.Int) *Term {
	freshN[name]++
	return Var(fmt.Sprintf("%s!%d", name, freshN[name]), s, lo, hi)
}

var boundN int

func BoundVar(name string) *Term {
	boundN++
	return mk(OBound, IntS, nil, nil, nil, fmt.Sprintf("%s?%d", name, boundN))
}

func App(name string, s *Sort, lo, hi *big.Int, args ...*Term) *Term {
	t := mk(OApp, s, args, nil, nil, name)
	if lo != nil || hi != nil {
		t.lo, t.hi = lo, hi
	}
	return t
}

// ---- linear arithmetic ----

type lin struct {
	c  *big.Int
	ts map[int]*Term
	cs map[int]*big.Int
}

func newLin() *lin { return &lin{c: new(big.Int), ts: map[int]*Term{}, cs: map[int]*big.Int{}} }
func (l *lin) addTerm(t *Term, k *big.Int) {
	switch t.Op {
	case OInt:
		l.c.Add(l.c, new(big.Int).Mul(t.Val, k))
	case OAdd:
		l.c.Add(l.c, new(big.Int).Mul(t.Val, k))
		for i, a := range t.Args {
			l.addAtom(a, new(big.Int).Mul(t.Coefs[i], k))
		}
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) addAtom(t *Term, k *big.Int) {
	if k.Sign() == 0 {
		return
	}
	if c, ok := l.cs[t.ID]; ok {
		n := new(big.Int).Add(c, k)
		if n.Sign() == 0 {
			delete(l.cs, t.ID)
			delete(l.ts, t.ID)
		} else {
			l.cs[t.ID] = n
		}
	} else {
		l.cs[t.ID] = k
		l.ts[t.ID] = t
	}
}

// baseDiv views a term as  div(x, d)  (d=1 for anything else)
func baseDiv(t *Term) (*Term, *big.Int) {
	if t.Op == ODiv && t.Args[1].Op == OInt {
		return t.Args[0], t.Args[1].Val
	}
	return t, bi(1)
}

// recombine c*mod(div(x,d),m) + c*m*{mod(div(x,d*m),m2) | div(x,d*m)}
func (l *lin) recombine() {
	changed := true
	for changed {
		changed = false
		ids := make([]int, 0, len(l.ts))
		for id := range l.ts {
			ids = append(ids, id)
		}
		sort.Ints(ids)
	outer:
		for _, id := range ids {
			t := l.ts[id]
			if t == nil || t.Op != OMod || t.Args[1].Op != OInt {
				continue
			}
			m := t.Args[1].Val
			c := l.cs[id]
			x, d := baseDiv(t.Args[0])
			dm := new(big.Int).Mul(d, m)
			cm := new(big.Int).Mul(c, m)
			up := Div(x, NumB(dm)) // simplified form of the next digit group
			for _, id2 := range ids {
				t2 := l.ts[id2]
				if t2 == nil || id2 == id || l.cs[id2].Cmp(cm) != 0 {
					continue
				}
				if t2 == up {
					// c*mod(y,m)+c*m*div(y,m) = c*y
					y := t.Args[0]
					delete(l.ts, id)
					delete(l.cs, id)
					delete(l.ts, id2)
					delete(l.cs, id2)
					l.addTerm(y, c)
					changed = true
					break outer
				}
				if t2.Op == OMod && t2.Args[1].Op == OInt && t2.Args[0] == up {
					m2 := t2.Args[1].Val
					y := Mod(t.Args[0], NumB(new(big.Int).Mul(m, m2)))
					delete(l.ts, id)
					delete(l.cs, id)
					delete(l.ts, id2)
					delete(l.cs, id2)
					l.addTerm(y, c)
					changed = true
					break outer
				}
			}
		}
	}
}

func (l *lin) term() *Term {
	if len(l.ts) > 1 {
		l.recombine()
	}
	if len(l.ts) == 0 {
		return NumB(l.c)
	}
	ids := make([]int, 0, len(l.ts))
	for id := range l.ts {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if len(ids) == 1 && l.c.Sign() == 0 && l.cs[ids[0]].Cmp(bi(1)) == 0 {
		return l.ts[ids[0]]
	}
	var args []*Term
	var cs []*big.Int
	for _, id := range ids {
		args = append(args, l.ts[id])
		cs = append(cs, l.cs[id])
	}
	return mk(OAdd, IntS, args, cs, l.c, "")
}

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.addTerm(t, bi(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	l.addTerm(a, bi(1))
	l.addTerm(b, bi(-1))
	return l.term()
}
func Neg(a *Term) *Term { return MulC(a, bi(-1)) }
func MulC(a *Term, c *big.Int) *Term {
	l := newLin()
	l.addTerm(a, c)
	return l.term()
}
func Mul(a, b *Term) *Term {
	if a.Op == OInt {
		return MulC(b, a.Val)
	}
	if b.Op == OInt {
		return MulC(a, b.Val)
	}
	// distribute over sums
	if a.Op == OAdd {
		l := newLin()
		l.addTerm(b, a.Val)
		for i, x := range a.Args {
			l.addTerm(Mul(x, b), a.Coefs[i])
		}
		return l.term()
	}
	if b.Op == OAdd {
		return Mul(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OMul, IntS, []*Term{a, b}, nil, nil, "")
}

func Div(a, b *Term) *Term {
	if b.Op == OInt && b.Val.Sign() > 0 {
		d := b.Val
		if a.Op == OInt {
			return NumB(floorDiv(a.Val, d))
		}
		if d.Cmp(bi(1)) == 0 {
			return a
		}
		if a.lo != nil && a.hi != nil {
			ql, qh := floorDiv(a.lo, d), floorDiv(a.hi, d)
			if ql.Cmp(qh) == 0 {
				return NumB(ql)
			}
		}
		if a.Op == ODiv && a.Args[1].Op == OInt && a.Args[1].Val.Sign() > 0 {
			return Div(a.Args[0], NumB(new(big.Int).Mul(a.Args[1].Val, d)))
		}
		if a.Op == OMod && a.Args[1].Op == OInt {
			m := a.Args[1].Val
			q, r := new(big.Int).QuoRem(m, d, new(big.Int))
			if r.Sign() == 0 && q.Sign() > 0 {
				return Mod(Div(a.Args[0], b), NumB(q))
			}
		}
		if a.Op == OAdd {
			// split off multiples of d
			out, rest := newLin(), newLin()
			q, r := new(big.Int).DivMod(a.Val, d, new(big.Int))
			out.c.Set(q)
			rest.c.Set(r)
			any := q.Sign() != 0
			for i, x := range a.Args {
				q, r := new(big.Int).DivMod(a.Coefs[i], d, new(big.Int))
				if r.Sign() == 0 {
					out.addTerm(x, q)
					any = true
				} else {
					rest.addTerm(x, a.Coefs[i])
				}
			}
			if any {
				return Add(out.term(), Div(rest.term(), b))
			}
			// common factor
			g := new(big.Int).Set(d)
			for _, c := range a.Coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if g.Cmp(bi(1)) > 0 {
				l := newLin()
				l.c.Set(floorDiv(a.Val, g))
				for i, x := range a.Args {
					l.addTerm(x, new(big.Int).Quo(a.Coefs[i], g))
				}
				return Div(l.term(), NumB(new(big.Int).Quo(d, g)))
			}
		}
	}
	return mk(ODiv, IntS, []*Term{a, b}, nil, nil, "")
}

func Mod(a, b *Term) *Term {
	if b.Op == OInt && b.Val.Sign() > 0 {
		m := b.Val
		if a.Op == OInt {
			return NumB(euMod(a.Val, m))
		}
		if m.Cmp(bi(1)) == 0 {
			return Num(0)
		}
		if a.lo != nil && a.hi != nil && floorDiv(a.lo, m).Cmp(floorDiv(a.hi, m)) == 0 {
			return Sub(a, NumB(new(big.Int).Mul(m, floorDiv(a.lo, m))))
		}
		if a.Op == OMod && a.Args[1].Op == OInt && euMod(a.Args[1].Val, m).Sign() == 0 {
			return Mod(a.Args[0], b)
		}
		if a.Op == OAdd {
			l := newLin()
			l.c.Set(euMod(a.Val, m))
			changed := l.c.Cmp(a.Val) != 0
			for i, x := range a.Args {
				c := euMod(a.Coefs[i], m)
				// keep small negative coefficients as they are
				if c.Sign() != 0 {
					nc := new(big.Int).Sub(c, m)
					if new(big.Int).Abs(nc).Cmp(c) < 0 {
						c = nc
					}
				}
				if c.Cmp(a.Coefs[i]) != 0 {
					changed = true
				}
				if c.Sign() == 0 {
					continue
				}
				if x.Op == OMod && x.Args[1].Op == OInt && euMod(new(big.Int).Mul(c, x.Args[1].Val), m).Sign() == 0 {
					l.addTerm(x.Args[0], c)
					changed = true
					continue
				}
				l.addTerm(x, c)
			}
			if changed {
				return Mod(l.term(), b)
			}
		}
	}
	return mk(OMod, IntS, []*Term{a, b}, nil, nil, "")
}

// ---- booleans ----

func Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.Args[0]
	case OGe0:
		return Ge0(Sub(Num(-1), a.Args[0]))
	case OForall:
		return mk(OExists, BoolS, append([]*Term{a.Args[0], Not(a.Args[1])}, a.Args[2:]...), nil, nil, "")
	case OExists:
		return mk(OForall, BoolS, append([]*Term{a.Args[0], Not(a.Args[1])}, a.Args[2:]...), nil, nil, "")
	case OAnd:
		xs := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			xs[i] = Not(x)
		}
		return Or(xs...)
	case OOr:
		xs := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			xs[i] = Not(x)
		}
		return And(xs...)
	}
	return mk(ONot, BoolS, []*Term{a}, nil, nil, "")
}

func And(ts ...*Term) *Term { return nary(OAnd, True, False, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, False, True, ts) }
func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.ID] {
			return true
		}
		if (t.Op == ONot || t.Op == OGe0 || t.Op == OEq) && seen[Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	for _, t := range out {
		if seen[Not(t).ID] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, BoolS, out, nil, nil, "")
}
func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ge0(d *Term) *Term {
	if d.Op == OInt {
		if d.Val.Sign() >= 0 {
			return True
		}
		return False
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return True
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return False
	}
	if d.Op == OAdd {
		g := new(big.Int)
		for _, c := range d.Coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bi(1)) > 0 {
			l := newLin()
			l.c.Set(floorDiv(d.Val, g))
			for i, x := range d.Args {
				l.addTerm(x, new(big.Int).Quo(d.Coefs[i], g))
			}
			return Ge0(l.term())
		}
	}
	return mk(OGe0, BoolS, []*Term{d}, nil, nil, "")
}
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Ge0(Sub(Sub(b, a), Num(1))) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %v %v", a.Sort.Name, b.Sort.Name, a, b))
	}
	if a.Sort == BoolS {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return Not(b)
		}
		if b.IsFalse() {
			return Not(a)
		}
		if Not(a) == b {
			return False
		}
	}
	if a.Sort == IntS {
		d := Sub(a, b)
		if d.Op == OInt {
			if d.Val.Sign() == 0 {
				return True
			}
			return False
		}
		if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
			return False
		}
		if d.Op == OAdd {
			g := new(big.Int)
			for _, c := range d.Coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if euMod(d.Val, g).Sign() != 0 {
				return False
			}
			l, r := newLin(), newLin()
			if d.Val.Sign() >= 0 {
				l.c.Quo(d.Val, g)
			} else {
				r.c.Quo(new(big.Int).Neg(d.Val), g)
			}
			for i, x := range d.Args {
				c := new(big.Int).Quo(d.Coefs[i], g)
				if c.Sign() > 0 {
					l.addAtom(x, c)
				} else {
					r.addAtom(x, new(big.Int).Neg(c))
				}
			}
			// no recombination here (would loop); build directly
			a, b = l.raw(), r.raw()
		}
		// ite with constant branches against constant
		for k := 0; k < 2; k++ {
			x, y := a, b
			if k == 1 {
				x, y = b, a
			}
			if x.Op == OIte && y.Op == OInt && (x.Args[1].Op == OInt || x.Args[2].Op == OInt) {
				return Ite(x.Args[0], Eq(x.Args[1], y), Eq(x.Args[2], y))
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OEq, BoolS, []*Term{a, b}, nil, nil, "")
}
func (l *lin) raw() *Term {
	if len(l.ts) == 0 {
		return NumB(l.c)
	}
	ids := make([]int, 0, len(l.ts))
	for id := range l.ts {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if len(ids) == 1 && l.c.Sign() == 0 && l.cs[ids[0]].Cmp(bi(1)) == 0 {
		return l.ts[ids[0]]
	}
	var args []*Term
	var cs []*big.Int
	for _, id := range ids {
		args = append(args, l.ts[id])
		cs = append(cs, l.cs[id])
	}
	return mk(OAdd, IntS, args, cs, l.c, "")
}

func Ite(c, a, b *Term) *Term {
	if c.IsTrue() || a == b {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a.Sort == BoolS {
		if a.IsTrue() {
			return Or(c, b)
		}
		if a.IsFalse() {
			return And(Not(c), b)
		}
		if b.IsTrue() {
			return Or(Not(c), a)
		}
		if b.IsFalse() {
			return And(c, a)
		}
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	return mk(OIte, a.Sort, []*Term{c, a, b}, nil, nil, "")
}

// ---- arrays ----

// boundRange holds the range of a bounded quantifier's variable, used only to simplify its guarded body.
var boundRange = map[int][2]*Term{}

func disjointIdx(i, j *Term) bool {
	if Eq(i, j).IsFalse() {
		return true
	}
	for k := 0; k < 2; k++ {
		if r, ok := boundRange[i.ID]; ok && i.Op == OBound {
			if d := Sub(j, r[1]); d.lo != nil && d.lo.Sign() >= 0 {
				return true
			}
			if d := Sub(r[0], j); d.lo != nil && d.lo.Sign() > 0 {
				return true
			}
		}
		i, j = j, i
	}
	return false
}

func Select(a, i *Term) *Term {
	if a.Sort.Elem == nil {
		panic("select on non-array " + a.String())
	}
	for {
		switch a.Op {
		case OStore:
			if a.Args[1] == i {
				return a.Args[2]
			}
			if disjointIdx(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		case OConstArr:
			return a.Args[0]
		case OIte:
			x, y := Select(a.Args[1], i), Select(a.Args[2], i)
			if x.Op != OSelect || y.Op != OSelect {
				return Ite(a.Args[0], x, y)
			}
		}
		break
	}
	return mk(OSelect, a.Sort.Elem, []*Term{a, i}, nil, nil, "")
}

func Store(a, i, v *Term) *Term {
	if a.Sort.Elem != v.Sort {
		panic(fmt.Sprintf("store sort mismatch: %s <- %s", a.Sort.Name, v.Sort.Name))
	}
	if a.Op == OStore && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == OSelect && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	// canonical order for constant indices: replace in place
	if i.Op == OInt && a.Op == OStore && a.Args[1].Op == OInt {
		x := a
		var chain []*Term
		for x.Op == OStore && x.Args[1].Op == OInt && x.Args[1] != i {
			chain = append(chain, x)
			x = x.Args[0]
		}
		if x.Op == OStore && x.Args[1] == i {
			r := Store(x.Args[0], i, v)
			for k := len(chain) - 1; k >= 0; k-- {
				r = mk(OStore, r.Sort, []*Term{r, chain[k].Args[1], chain[k].Args[2]}, nil, nil, "")
			}
			return r
		}
	}
	return mk(OStore, a.Sort, []*Term{a, i, v}, nil, nil, "")
}
func ConstArr(s *Sort, v *Term) *Term { return mk(OConstArr, s, []*Term{v}, nil, nil, "") }

// ---- quantifiers ----

// Forall has an optional trigger term for the instantiation by the solvers.
func Forall(v, body *Term, trig ...*Term) *Term {
	if body.IsTrue() || body.IsFalse() {
		return body
	}
	if !occurs(body, v) {
		return body
	}
	if body.Op == OAnd {
		var xs []*Term
		for _, b := range body.Args {
			xs = append(xs, Forall(v, b, trig...))
		}
		return And(xs...)
	}
	if len(trig) > 0 && !occurs(trig[0], v) {
		trig = nil
	}
	return mk(OForall, BoolS, append([]*Term{v, body}, trig...), nil, nil, "")
}

// InjApp is an injective tuple: an uninterpreted function whose projections are axiomatised in the SMT script.
func InjApp(as []*Term) *Term { return App(fmt.Sprintf("inj!%d", len(as)), IntS, nil, nil, as...) }

func Exists(v, body *Term) *Term { return Not(Forall(v, Not(body))) }

func occurs(t, v *Term) bool {
	seen := map[int]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if len(t.Args) == 0 || seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces terms (usually variables) simultaneously.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	return substM(t, m, memo)
}
func substM(t *Term, m map[*Term]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t.ID]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substM(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t.ID] = r
	return r
}
func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OAdd:
		l := newLin()
		l.c.Set(t.Val)
		for i, x := range a {
			l.addTerm(x, t.Coefs[i])
		}
		return l.term()
	case OMul:
		return Mul(a[0], a[1])
	case ODiv:
		return Div(a[0], a[1])
	case OMod:
		return Mod(a[0], a[1])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OGe0:
		return Ge0(a[0])
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OConstArr:
		return ConstArr(t.Sort, a[0])
	case OForall:
		return Forall(a[0], a[1], a[2:]...)
	case OExists:
		return Not(Forall(a[0], Not(a[1]), a[2:]...))
	case OApp:
		return App(t.Name, t.Sort, t.lo, t.hi, a...)
	}
	return mk(t.Op, t.Sort, a, t.Coefs, t.Val, t.Name)
}

// ---- reals (used only for float relaxations) ----

func RealV(r *big.Rat) *Term { return mk(OReal, RealS, nil, nil, nil, r.RatString()) }
func RAdd(a, b *Term) *Term  { return mk(ORAdd, RealS, []*Term{a, b}, nil, nil, "") }
func RMul(a, b *Term) *Term  { return mk(ORMul, RealS, []*Term{a, b}, nil, nil, "") }
func RLe(a, b *Term) *Term   { return mk(ORLe, BoolS, []*Term{a, b}, nil, nil, "") }
func ToReal(a *Term) *Term   { return mk(OToReal, RealS, []*Term{a}, nil, nil, "") }
func ToIntT(a *Term) *Term   { return mk(OToInt, IntS, []*Term{a}, nil, nil, "") }

// ---- printing ----

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}
func sym(n string) string { return "|" + strings.ReplaceAll(n, "|", "!") + "|" }

func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

func printTerm(t *Term, names map[int]string) string {
	var sb strings.Builder
	var rec func(t *Term)
	rec = func(t *Term) {
		if names != nil {
			if n, ok := names[t.ID]; ok {
				sb.WriteString(n)
				return
			}
		}
		printNode(&sb, t, rec)
	}
	rec(t)
	return sb.String()
}

func printNode(sb *strings.Builder, t *Term, rec func(*Term)) {
	f := func(name string, args ...*Term) {
		sb.WriteString("(" + name)
		for _, a := range args {
			sb.WriteByte(' ')
			rec(a)
		}
		sb.WriteByte(')')
	}
	switch t.Op {
	case OInt:
		sb.WriteString(smtInt(t.Val))
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case OVar, OBound:
		sb.WriteString(sym(t.Name))
	case OAdd:
		n := len(t.Args)
		if t.Val.Sign() != 0 {
			n++
		}
		if n > 1 {
			sb.WriteString("(+")
		}
		for i, a := range t.Args {
			if n > 1 {
				sb.WriteByte(' ')
			}
			if t.Coefs[i].Cmp(bi(1)) == 0 {
				rec(a)
			} else {
				sb.WriteString("(* " + smtInt(t.Coefs[i]) + " ")
				rec(a)
				sb.WriteByte(')')
			}
		}
		if t.Val.Sign() != 0 {
			sb.WriteString(" " + smtInt(t.Val))
		}
		if n > 1 {
			sb.WriteByte(')')
		}
	case OMul:
		f("*", t.Args...)
	case ODiv:
		f("div", t.Args...)
	case OMod:
		f("mod", t.Args...)
	case OIte:
		f("ite", t.Args...)
	case OEq:
		f("=", t.Args...)
	case OGe0:
		d := t.Args[0]
		if d.Op == OAdd {
			l, r := newLin(), newLin()
			if d.Val.Sign() >= 0 {
				l.c.Set(d.Val)
			} else {
				r.c.Neg(d.Val)
			}
			for i, x := range d.Args {
				if d.Coefs[i].Sign() > 0 {
					l.addAtom(x, d.Coefs[i])
				} else {
					r.addAtom(x, new(big.Int).Neg(d.Coefs[i]))
				}
			}
			sb.WriteString("(<= ")
			printLin(sb, r, rec)
			sb.WriteByte(' ')
			printLin(sb, l, rec)
			sb.WriteByte(')')
		} else {
			sb.WriteString("(<= 0 ")
			rec(d)
			sb.WriteByte(')')
		}
	case ONot:
		f("not", t.Args...)
	case OAnd:
		f("and", t.Args...)
	case OOr:
		f("or", t.Args...)
	case OSelect:
		f("select", t.Args...)
	case OStore:
		f("store", t.Args...)
	case OConstArr:
		sb.WriteString("((as const " + t.Sort.Name + ") ")
		rec(t.Args[0])
		sb.WriteByte(')')
	case OApp:
		if len(t.Args) == 0 {
			sb.WriteString(sym(t.Name))
		} else {
			f(sym(t.Name), t.Args...)
		}
	case OForall, OExists:
		q := "forall"
		if t.Op == OExists {
			q = "exists"
		}
		sb.WriteString("(" + q + " ((" + sym(t.Args[0].Name) + " Int)) ")
		if len(t.Args) > 2 {
			sb.WriteString("(! ")
		}
		rec(t.Args[1])
		if len(t.Args) > 2 {
			sb.WriteString(" :pattern (")
			rec(t.Args[2])
			sb.WriteString("))")
		}
		sb.WriteByte(')')
	case ORAdd:
		f("+", t.Args...)
	case ORMul:
		f("*", t.Args...)
	case ORLe:
		f("<=", t.Args...)
	case OReal:
		r, _ := new(big.Rat).SetString(t.Name)
		n := r.Num()
		s := new(big.Int).Abs(n).String() + ".0"
		if !r.IsInt() {
			s = "(/ " + new(big.Int).Abs(n).String() + ".0 " + r.Denom().String() + ".0)"
		}
		if n.Sign() < 0 {
			s = "(- " + s + ")"
		}
		sb.WriteString(s)
	case OToReal:
		f("to_real", t.Args...)
	case OToInt:
		f("to_int", t.Args...)
	default:
		panic("print")
	}
}
func printLin(sb *strings.Builder, l *lin, rec func(*Term)) {
	ids := make([]int, 0, len(l.ts))
	for id := range l.ts {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	n := len(ids)
	if l.c.Sign() != 0 || n == 0 {
		n++
	}
	if n > 1 {
		sb.WriteString("(+")
	}
	for _, id := range ids {
		if n > 1 {
			sb.WriteByte(' ')
		}
		if l.cs[id].Cmp(bi(1)) == 0 {
			rec(l.ts[id])
		} else {
			sb.WriteString("(* " + smtInt(l.cs[id]) + " ")
			rec(l.ts[id])
			sb.WriteByte(')')
		}
	}
	if l.c.Sign() != 0 || len(ids) == 0 {
		if n > 1 {
			sb.WriteByte(' ')
		}
		sb.WriteString(smtInt(l.c))
	}
	if n > 1 {
		sb.WriteByte(')')
	}
}

// resetTerms drops all terms so that every function is verified from the same initial state.
func resetTerms() {
	internTab = map[string]*Term{}
	nextID = 1
	freshN = map[string]int{}
	boundN = 0
	tagNums = map[string]int64{}
	tagTypes = map[int64]types.Type{}
	True = mk(OTrue, BoolS, nil, nil, nil, "")
	False = mk(OFalse, BoolS, nil, nil, nil, "")
}
