package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loc designates a memory location of type Typ inside a root heap object.
type Loc struct {
	Kind string
	Ref  *Term // nil for local cells and globals
	Lo   int   // first leaf within the root
	Typ  types.Type
	Idx  []*Term
	Root types.Type // type whose leaves the root object has
}

type Exotic struct {
	Loc  *Loc
	Fn   *ssa.Function
	Bind []Val
	BoxT types.Type
	Box  Val
	Name string
}

const exoticBase = int64(1) << 50
const freshBase = int64(1000000)

type frameEnv struct {
	id     int
	regs   map[ssa.Value]Val
	defers []deferred
	loops  map[*ssa.BasicBlock]*loopCut
}
type deferred struct {
	call *ssa.CallCommon
	args []Val
	fnv  Val
	pos  ssa.Instruction
}

type State struct {
	t      *Task
	heap   map[string]*Term
	pc     []*Term
	pcSet  map[int]bool
	bounds map[int]Itv
	frames []*frameEnv
	trace  []string
	ghost  map[string]*Term
}

func (st *State) clone() *State {
	n := &State{t: st.t, heap: make(map[string]*Term, len(st.heap)), pc: st.pc[:len(st.pc):len(st.pc)],
		pcSet: make(map[int]bool, len(st.pcSet)), bounds: make(map[int]Itv, len(st.bounds)), trace: st.trace[:len(st.trace):len(st.trace)],
		ghost: make(map[string]*Term, len(st.ghost))}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	for k := range st.pcSet {
		n.pcSet[k] = true
	}
	for k, v := range st.bounds {
		n.bounds[k] = v
	}
	for _, f := range st.frames {
		nf := &frameEnv{id: f.id, regs: make(map[ssa.Value]Val, len(f.regs)), defers: f.defers[:len(f.defers):len(f.defers)], loops: map[*ssa.BasicBlock]*loopCut{}}
		for k, v := range f.regs {
			nf.regs[k] = v
		}
		for k, v := range f.loops {
			nf.loops[k] = v
		}
		n.frames = append(n.frames, nf)
	}
	return n
}

// ---- assumptions and intervals ----

func (st *State) assume(t *Term) {
	if t.IsTrue() {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if st.pcSet[t.ID] {
		return
	}
	st.pcSet[t.ID] = true
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], t)
	st.refine(t)
}

func (st *State) refine(t *Term) {
	switch t.Op {
	case OGe0:
		st.refineGe(t.Args[0])
	case OEq:
		if t.Args[0].Sort == IntS {
			d := Sub(t.Args[0], t.Args[1])
			st.refineGe(d)
			st.refineGe(Neg(d))
		}
	}
}

// d >= 0: tighten each atom
func (st *State) refineGe(d *Term) {
	if d.bound {
		return
	}
	var args []*Term
	var cs []*big.Int
	c0 := bi(0)
	if d.Op == OAdd {
		args, cs, c0 = d.Args, d.Coefs, d.Val
	} else {
		args, cs = []*Term{d}, []*big.Int{bi(1)}
	}
	for i, a := range args {
		// cs[i]*a >= -(c0 + sum_{j!=i} cs[j] a_j)  ; upper bound of the rest
		hi := new(big.Int).Set(c0)
		ok := true
		for j, b := range args {
			if j == i {
				continue
			}
			r := st.Rng(b)
			var m *big.Int
			if cs[j].Sign() > 0 {
				m = r.hi
			} else {
				m = r.lo
			}
			if m == nil {
				ok = false
				break
			}
			hi.Add(hi, new(big.Int).Mul(cs[j], m))
		}
		if !ok {
			continue
		}
		// cs[i]*a >= -hi
		nb := new(big.Int).Neg(hi)
		cur := st.Rng(a)
		if cs[i].Sign() > 0 {
			// a >= ceil(nb/c)
			v := ceilDiv(nb, cs[i])
			if cur.lo == nil || v.Cmp(cur.lo) > 0 {
				st.bounds[a.ID] = Itv{v, cur.hi}
			}
		} else {
			// a <= floor(nb / c) with c negative: a <= floor(hi/|c|)
			v := floorDiv(hi, new(big.Int).Neg(cs[i]))
			if cur.hi == nil || v.Cmp(cur.hi) < 0 {
				st.bounds[a.ID] = Itv{cur.lo, v}
			}
		}
	}
}
func ceilDiv(a, b *big.Int) *big.Int {
	return new(big.Int).Neg(floorDiv(new(big.Int).Neg(a), b))
}

func (st *State) Rng(t *Term) Itv {
	memo := map[int]Itv{}
	var rec func(t *Term) Itv
	rec = func(t *Term) Itv {
		if r, ok := memo[t.ID]; ok {
			return r
		}
		var r Itv
		if t.Op == OInt {
			return Itv{t.Val, t.Val}
		}
		if t.Sort == IntS || (t.Sort.Elem != nil) {
			if t.Op == OSelect && t.Args[0].Op != OStore {
				r = Itv{t.lo, t.hi}
			} else {
				r = rngOf(t, rec)
			}
		}
		if b, ok := st.bounds[t.ID]; ok {
			r = meet(r, b)
		}
		r = meet(r, Itv{t.lo, t.hi})
		memo[t.ID] = r
		return r
	}
	return rec(t)
}
func meet(a, b Itv) Itv {
	r := a
	if r.lo == nil || (b.lo != nil && b.lo.Cmp(r.lo) > 0) {
		r.lo = b.lo
	}
	if r.hi == nil || (b.hi != nil && b.hi.Cmp(r.hi) < 0) {
		r.hi = b.hi
	}
	return r
}

// decide tries to evaluate a boolean under the path condition without a solver.
func (st *State) decide(t *Term) *Term {
	switch t.Op {
	case OTrue, OFalse:
		return t
	}
	if st.pcSet[t.ID] {
		return True
	}
	if st.pcSet[Not(t).ID] {
		return False
	}
	switch t.Op {
	case OGe0:
		r := st.Rng(t.Args[0])
		if r.lo != nil && r.lo.Sign() >= 0 {
			return True
		}
		if r.hi != nil && r.hi.Sign() < 0 {
			return False
		}
	case OEq:
		if t.Args[0].Sort == IntS {
			r := st.Rng(Sub(t.Args[0], t.Args[1]))
			if (r.lo != nil && r.lo.Sign() > 0) || (r.hi != nil && r.hi.Sign() < 0) {
				return False
			}
			if r.lo != nil && r.hi != nil && r.lo.Sign() == 0 && r.hi.Sign() == 0 {
				return True
			}
		}
	case ONot:
		return Not(st.decide(t.Args[0]))
	case OAnd, OOr:
		out := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			d := st.decide(a)
			if d.IsTrue() || d.IsFalse() {
				out[i] = d
			} else {
				out[i] = a
			}
		}
		if t.Op == OAnd {
			return And(out...)
		}
		return Or(out...)
	}
	return t
}

// ---- heap ----

func hk(kind string, j int) string { return fmt.Sprintf("%s#%d", kind, j) }

func (st *State) hget(kind string, j int, root types.Type, local bool) *Term {
	k := hk(kind, j)
	if t, ok := st.heap[k]; ok {
		return t
	}
	ls := leavesOf(root)
	l := ls[j]
	s := l.Sort
	if !local {
		s = ArrS(s)
	}
	lo, hi := l.lo, l.hi
	switch l.Role {
	case "ptr", "ref", "map", "ident", "tag", "chan", "func":
		hi = bi(freshBase - 1)
		if l.Role == "tag" {
			hi = l.hi
		}
	}
	t := Var("H0:"+shortType(kind)+"#"+fmt.Sprint(j), s, lo, hi)
	st.heap[k] = t
	if st.t.initHeap[k] == nil {
		st.t.initHeap[k] = t
	}
	// all states must agree on the initial heap; the old state too
	return t
}

func (st *State) loadRaw(l *Loc) Val {
	n := nLeaves(l.Typ)
	out := make(Val, n)
	for j := 0; j < n; j++ {
		t := st.hget(l.Kind, l.Lo+j, l.Root, l.Ref == nil)
		if l.Ref != nil {
			t = Select(t, l.Ref)
		}
		for _, i := range l.Idx {
			t = Select(t, i)
		}
		out[j] = t
	}
	return out
}

func (st *State) storeRaw(l *Loc, v Val) {
	st.putRaw(l, v)
	st.t.logWrite(st, l, nLeaves(l.Typ))
}

func (st *State) putRaw(l *Loc, v Val) {
	n := nLeaves(l.Typ)
	if len(v) != n {
		panic(fmt.Sprintf("store arity %d vs %d for %s", len(v), n, l.Typ))
	}
	for j := 0; j < n; j++ {
		k := hk(l.Kind, l.Lo+j)
		h := st.hget(l.Kind, l.Lo+j, l.Root, l.Ref == nil)
		var path []*Term
		if l.Ref != nil {
			path = append(path, l.Ref)
		}
		path = append(path, l.Idx...)
		st.heap[k] = storePath(h, path, v[j])
	}
}

func storePath(a *Term, path []*Term, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	return Store(a, path[0], storePath(Select(a, path[0]), path[1:], v))
}

// groundPath reports whether t is a chain of selects with numeral indices over a variable.
func groundPath(t *Term) bool {
	for t.Op == OSelect {
		if t.Args[1].Op != OInt {
			return false
		}
		t = t.Args[0]
	}
	return t.Op == OVar && (strings.HasPrefix(t.Name, "H0:") || strings.HasPrefix(t.Name, "p:") || strings.HasPrefix(t.Name, "R:"))
}

// resolveRef maps a symbolic reference term of the initial (or havocked) heap to a
// numeral, assuming that distinct paths denote distinct objects (separation).
func (t *Task) resolveRef(st *State, r *Term, role string) *Term {
	if r.Op == OInt {
		return r
	}
	if t.nilable[r.ID] {
		return r
	}
	if n, ok := t.mat[r.ID]; ok {
		return Num(n)
	}
	if !groundPath(r) {
		return r
	}
	n := t.newMat()
	t.mat[r.ID] = n
	t.facts = append(t.facts, Eq(r, Num(n)))
	return Num(n)
}

func (t *Task) newMat() int64 {
	t.nextMat++
	return t.nextMat
}
func (t *Task) newRef() int64 {
	t.nextRef++
	return t.nextRef
}

// norm post-processes a loaded or fresh value: references become numerals where possible,
// slice well-formedness facts are recorded.
func (st *State) norm(v Val, typ types.Type) Val {
	ls := leavesOf(typ)
	var out Val
	set := func(i int, t *Term) {
		if out == nil {
			out = append(Val{}, v...)
		}
		out[i] = t
	}
	for i, l := range ls {
		if l.Depth > 0 || i >= len(v) {
			continue
		}
		x := v[i]
		if x.Op == OInt {
			continue
		}
		switch l.Role {
		case "ptr", "map", "chan", "func":
			if r := st.t.resolveRef(st, x, l.Role); r != x {
				set(i, r)
			}
		case "ref":
			if r := st.t.resolveRef(st, x, l.Role); r != x {
				set(i, r)
			}
			if !x.bound && i+3 < len(v) {
				off, ln, cp := v[i+1], v[i+2], v[i+3]
				if groundPath(off) {
					// a slice reached from the initial state starts at offset 0 of its own array
					if _, done := st.t.offZero[off.ID]; !done {
						st.t.offZero[off.ID] = true
						st.t.facts = append(st.t.facts, Eq(off, Num(0)))
					}
					set(i+1, Num(0))
				}
				st.assume(Le(ln, cp))
			}
		case "ident":
			if r := st.t.resolveRef(st, x, l.Role); r != x {
				set(i, r)
			}
		case "tag":
			if groundPath(x) && !st.t.nilable[x.ID] && !isErrorType(l.T) {
				st.assume(Not(Eq(x, Num(0))))
			}
		case "soff":
			if groundPath(x) {
				if _, done := st.t.offZero[x.ID]; !done {
					st.t.offZero[x.ID] = true
					st.t.facts = append(st.t.facts, Eq(x, Num(0)))
				}
				set(i, Num(0))
			}
		}
	}
	if out == nil {
		return v
	}
	return out
}

func isErrorType(t types.Type) bool {
	return t.String() == "error"
}

func (st *State) load(l *Loc) Val { return st.norm(st.loadRaw(l), l.Typ) }

// deref turns a pointer value into a Loc.
func (st *State) deref(p *Term, elem types.Type) *Loc {
	if p.Op == OInt {
		if ex, ok := st.t.exotics[p.Val.Int64()]; ok && ex.Loc != nil {
			l := *ex.Loc
			return &l
		}
	} else if st.t.nilable[p.ID] {
		// known non-nil here: map to its object
		n, ok := st.t.mat[p.ID]
		if !ok {
			n = st.t.newMat()
			st.t.mat[p.ID] = n
			st.t.facts = append(st.t.facts, Or(Eq(p, Num(0)), Eq(p, Num(n))))
		}
		p = Num(n)
	}
	return rootLoc(p, elem)
}
func rootLoc(p *Term, elem types.Type) *Loc {
	if a, ok := elem.Underlying().(*types.Array); ok {
		return &Loc{Kind: ptrKind(elem), Ref: p, Typ: elem, Root: arrRoot(a.Elem())}
	}
	return &Loc{Kind: ptrKind(elem), Ref: p, Typ: elem, Root: elem}
}

var arrRoots = map[string]types.Type{}

func arrRoot(elem types.Type) types.Type {
	k := typeKey(elem)
	if t, ok := arrRoots[k]; ok {
		return t
	}
	t := types.NewArray(elem, 0)
	arrRoots[k] = t
	return t
}

// arrLoc gives the location of the backing array of a slice.
func (st *State) arrLoc(ref *Term, elem types.Type) *Loc {
	if ref.Op == OInt {
		if ex, ok := st.t.exotics[ref.Val.Int64()]; ok && ex.Loc != nil {
			l := *ex.Loc
			return &l
		}
	}
	return &Loc{Kind: sliceKind(elem), Ref: ref, Typ: arrRoot(elem), Root: arrRoot(elem)}
}

func (l *Loc) elem(i *Term, et types.Type) *Loc {
	n := *l
	n.Idx = append(append([]*Term{}, l.Idx...), i)
	n.Typ = et
	return &n
}
func (l *Loc) field(st *types.Struct, i int) *Loc {
	n := *l
	n.Lo = l.Lo + fieldOff(st, i)
	n.Typ = st.Field(i).Type()
	return &n
}

// ptrTo encodes a Loc as a pointer value.
func (t *Task) ptrTo(l *Loc) *Term {
	if l.Ref != nil && l.Lo == 0 && len(l.Idx) == 0 && l.Kind == ptrKind(l.Typ) {
		return l.Ref
	}
	if l.Ref != nil && l.Kind == sliceKindOfRoot(l) && len(l.Idx) == 0 && l.Lo == 0 {
		return l.Ref
	}
	return t.exotic(&Exotic{Loc: l})
}
func sliceKindOfRoot(l *Loc) string {
	if a, ok := l.Typ.Underlying().(*types.Array); ok {
		return "A:" + typeKey(a.Elem())
	}
	return ""
}

func (l *Loc) keyStr() string {
	var sb strings.Builder
	sb.WriteString(l.Kind)
	if l.Ref != nil {
		fmt.Fprintf(&sb, "@%d", l.Ref.ID)
	}
	fmt.Fprintf(&sb, "+%d:%s", l.Lo, typeKey(l.Typ))
	for _, i := range l.Idx {
		fmt.Fprintf(&sb, "[%d]", i.ID)
	}
	return sb.String()
}

func (t *Task) exotic(e *Exotic) *Term {
	var k string
	if e.Loc != nil {
		k = "loc:" + e.Loc.keyStr()
	} else if e.Fn != nil {
		k = "fn:" + e.Fn.String()
		for _, b := range e.Bind {
			for _, x := range b {
				k += fmt.Sprintf(",%d", x.ID)
			}
		}
	} else if e.BoxT != nil {
		k = "box:" + typeKey(e.BoxT) + types.TypeString(e.BoxT, nil)
		for _, x := range e.Box {
			k += fmt.Sprintf(",%d", x.ID)
		}
	} else {
		k = "name:" + e.Name
	}
	if n, ok := t.exoticKey[k]; ok {
		return Num(n)
	}
	n := exoticBase + int64(len(t.exoticKey))
	t.exoticKey[k] = n
	t.exotics[n] = e
	return Num(n)
}

// ---- tags for dynamic interface types ----

var tagNums = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func tagOf(t types.Type) *Term {
	k := types.TypeString(t, nil)
	n, ok := tagNums[k]
	if !ok {
		n = int64(len(tagNums) + 100)
		tagNums[k] = n
		tagTypes[n] = t
	}
	return Num(n)
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
