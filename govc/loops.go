package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}
type loopInfo struct {
	byHead map[*ssa.BasicBlock]*loop
	list   []*loop
}

type loopCut struct {
	lp       *loop
	unroll   bool
	allowSym bool
	count    int
	back     func(ex *fexec, st *State)
}

type needInvariant struct {
	lp  *loop
	why string
}

func (t *Task) maxUnroll() int {
	if t.con != nil && t.con.Unroll > 0 {
		return t.con.Unroll
	}
	return 70
}

// loopPos is the first source position in a loop.
func loopPos(lp *loop) int {
	p := 1 << 60
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Alloc); ok {
				continue
			}
			if q := int(in.Pos()); q > 0 && q < p {
				p = q
			}
		}
	}
	return p
}

func findLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{byHead: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := li.byHead[s]
				if lp == nil {
					lp = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHead[s] = lp
					li.list = append(li.list, lp)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.blocks[x] {
						continue
					}
					lp.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	pos := loopPos
	sort.SliceStable(li.list, func(i, j int) bool {
		a, b := li.list[i], li.list[j]
		if a.blocks[b.head] && a != b {
			return true
		}
		if b.blocks[a.head] && a != b {
			return false
		}
		return pos(a) < pos(b)
	})
	for i, lp := range li.list {
		lp.ord = i + 1
	}
	return li
}

// loopSpec finds the invariants for a loop: those of the function's own contract, or (when a
// loop has moved into an inlined helper without contract) those of the verified function that
// none of its own loops consumed.
func (ex *fexec) loopSpec(lp *loop) *LoopSpec {
	t := ex.t
	if con := t.con; con != nil && (ex.fn == t.fn || t.eng.specs.Contracts[fnKey(ex.fn)] == nil) {
		// loops have moved between the function and new helpers: number them all in source order
		if r := t.eng.nameRec(t.fn); r != nil && r.Loops != len(t.eng.loopInfo(t.fn).list) {
			if fl := t.eng.flatLoops(t.fn, 0); len(fl) == r.Loops {
				for i, x := range fl {
					if x == lp {
						return con.Loops[i+1]
					}
				}
			}
		}
	}
	if con := t.eng.specs.Contracts[fnKey(ex.fn)]; con != nil {
		if s := con.Loops[lp.ord]; s != nil {
			return s
		}
		return nil
	}
	if con := t.con; con != nil && ex.fn != t.fn && strings.HasPrefix(pkgOf(ex.fn).Path(), modPath) {
		// order of first encounter of loops in helpers without contract
		own := len(t.eng.loopInfo(t.fn).list)
		k := fmt.Sprintf("%s:%d", ex.fn, lp.ord)
		if _, ok := t.loopSeq[k]; !ok {
			t.loopSeq[k] = own + len(t.loopSeq) + 1
		}
		if s := con.Loops[t.loopSeq[k]]; s != nil {
			return s
		}
	}
	return nil
}

func (ex *fexec) inUnroll(st *State, b *ssa.BasicBlock) bool { return ex.unrollLoop(st, b) != nil }
func (ex *fexec) unrollLoop(st *State, b *ssa.BasicBlock) *loop {
	var best *loop
	for _, lp := range ex.li.list {
		if lp.blocks[b] {
			if c := st.frame().loops[lp.head]; c != nil && c.unroll {
				best = lp
			}
		}
	}
	return best
}
func (ex *fexec) isExit(st *State, b *ssa.BasicBlock) bool {
	for _, lp := range ex.li.list {
		if lp.blocks[b] {
			for _, s := range b.Succs {
				if !lp.blocks[s] {
					return true
				}
			}
		}
	}
	return false
}
func (ex *fexec) headExit(lp *loop, b *ssa.BasicBlock) bool {
	if b != lp.head {
		return false
	}
	for _, s := range b.Succs {
		if !lp.blocks[s] {
			return true
		}
	}
	return false
}

func (ex *fexec) enterLoop(st *State, lp *loop, b, pred *ssa.BasicBlock) {
	t := ex.t
	spec := ex.loopSpec(lp)
	if spec == nil || spec.Unroll > 0 {
		// try unrolling
		ok := func() (ok bool) {
			nv, no := len(t.vcs), len(ex.out)
			saveNames := map[string]int{}
			for k, v := range t.vcNames {
				saveNames[k] = v
			}
			s2 := st.clone()
			depth, wl, q := t.depth, len(t.writeLogs), t.quiet
			defer func() {
				if r := recover(); r != nil {
					ni, is := r.(needInvariant)
					if !is || ni.lp != lp {
						panic(r)
					}
					t.vcs = t.vcs[:nv]
					ex.out = ex.out[:no]
					t.vcNames = saveNames
					t.depth = depth
					t.writeLogs = t.writeLogs[:wl]
					t.quiet = q
					ok = false
				}
			}()
			s2.frame().loops[b] = &loopCut{lp: lp, unroll: true, allowSym: spec != nil}
			ex.phis(s2, b, pred)
			ex.block(s2, b, 0)
			return true
		}()
		if ok {
			return
		}
		spec = nil
	}
	ex.cutLoop(st, lp, b, pred, spec)
}

type headVar struct {
	key   string // heap key
	rec   writeRec
	entry *Term // value before the loop
	head  *Term // fresh variable at the head (dry run)
	final *Term // term used at the head in the real run
}

func (ex *fexec) localsCtx(st *State, iter *Term) *SpecCtx {
	t := ex.t
	c := &SpecCtx{t: t, st: st, old: t.entry, env: t.params, pkg: pkgOf(ex.fn), fr: st.frame(), frFn: ex.fn, iter: iter}
	// names: locals first, then entry parameters
	c.env = map[string]SV{}
	for k, v := range t.lets {
		c.env[k] = v
	}
	for i := len(t.frameFns) - 2; i >= 0 && i < len(st.frames)-1; i-- {
		c.outer = append(c.outer, localFrame{st.frames[i], t.frameFns[i]})
	}
	ec := &SpecCtx{t: t, st: t.entry, old: t.entry, env: t.params, pkg: pkgOf(t.fn)}
	c.entryCtx = ec
	return c
}

func (ex *fexec) cutLoop(st0 *State, lp *loop, b, pred *ssa.BasicBlock, spec *LoopSpec) {
	t := ex.t
	entry := st0
	ex.phis(entry, b, pred)
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			if _, isP := p.Type().Underlying().(*types.Pointer); !isP {
				unsupported("phi at cut loop head")
			}
		}
	}
	nextRef0 := t.nextRef
	t.nextRef += 1000000
	iterV := Fresh("iter", IntS, bi(0), maxLen)

	vars := map[string]*headVar{}
	var order []string
	var cands []*Term // candidate invariants over head vars (auto)
	var guards []*Term

	mkHead := func(real bool) *State {
		h := entry.clone()
		for _, k := range order {
			v := vars[k]
			val := v.head
			if real {
				val = v.final
			}
			ex.setRec(h, v, val)
		}
		h.assume(Ge0(iterV))
		return h
	}
	var invErr error
	invs := func(st *State, iter *Term) []*Term {
		if spec == nil {
			return nil
		}
		var out []*Term
		c := ex.localsCtx(st, iter)
		c.lp = lp
		for _, cl := range spec.Invs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if se, ok := r.(specErr); ok {
							invErr = se
							out = append(out, nil)
							return
						}
						panic(r)
					}
				}()
				out = append(out, c.Bool(cl))
			}()
		}
		return out
	}

	// ---- fixpoint dry runs to find the write set ----
	var backs []*State
	for round := 0; ; round++ {
		if round > 12 {
			unsupported("loop write set does not stabilise in %s", ex.fn)
		}
		h := mkHead(false)
		for _, v := range invs(h, iterV) {
			if v != nil {
				h.assume(v)
			}
		}
		log := &writeLog{writes: map[string]writeRec{}}
		t.writeLogs = append(t.writeLogs, log)
		t.quiet++
		t.dryArith++
		backs = nil
		guards = nil
		saveOut := ex.out
		saveDry := ex.dry
		saveSteps := t.steps
		depth := t.depth
		ex.dry = &dryRun{lp: lp, onGuard: func(c *Term, taken bool) {
			if len(guards) < 6 && !c.bound {
				guards = append(guards, c)
			}
		}}
		h.frame().loops[b] = &loopCut{lp: lp, back: func(_ *fexec, s *State) { backs = append(backs, s) }}
		func() {
			defer func() {
				t.depth = depth
				t.writeLogs = t.writeLogs[:len(t.writeLogs)-1]
				t.quiet--
				t.dryArith--
				ex.out = saveOut
				ex.dry = saveDry
				t.steps = saveSteps
			}()
			ex.block(h, b, 0)
		}()
		grew := false
		for _, wk := range sortedKeys(log.writes) {
			w := log.writes[wk]
			if !w.local && w.ref.Op == OInt {
				n := w.ref.Val.Int64()
				if n > nextRef0 && n < exoticBase {
					continue // object allocated inside the loop
				}
			}
			if w.local && strings.HasPrefix(w.kind, "L:") && !ex.cellExists(entry, w) {
				continue // cell created inside the loop (or a callee frame)
			}
			if _, ok := vars[wk]; ok {
				continue
			}
			grew = true
			hv := &headVar{key: hk(w.kind, w.leaf), rec: w}
			hv.entry = ex.getRec(entry, w)
			s := hv.entry.Sort
			l := leavesOf(w.root)[w.leaf]
			lo, hi := l.lo, l.hi
			hv.head = Fresh("h:"+shortType(w.kind)+"#"+fmt.Sprint(w.leaf), s, lo, hi)
			hv.final = hv.head
			vars[wk] = hv
			order = append(order, wk)
		}
		if !grew {
			break
		}
	}
	sort.Strings(order)

	// ---- affine / unchanged / owned-reference inference ----
	sub := func(s *State, extra map[*Term]*Term) map[*Term]*Term {
		m := map[*Term]*Term{}
		for _, k := range order {
			m[vars[k].head] = ex.getRec(s, vars[k].rec)
		}
		for a, b := range extra {
			m[a] = b
		}
		return m
	}
	type affine struct {
		hv *headVar
		d  *Term
	}
	var affs []affine
	headSub := map[*Term]*Term{}
	peel := false // the first iteration runs from the entry state itself; later ones see only reallocated arrays
	for _, k := range order {
		hv := vars[k]
		same, aff := true, true
		var d *Term
		for _, s := range backs {
			nv := ex.getRec(s, hv.rec)
			if nv != hv.head {
				same = false
			}
			if hv.head.Sort != IntS {
				aff = false
				continue
			}
			x := Sub(nv, hv.head)
			if x.Op != OInt || (d != nil && d != x) {
				aff = false
			}
			d = x
		}
		role := leavesOf(hv.rec.root)[hv.rec.leaf].Role
		isRef := role == "ref" || role == "ptr" || role == "map" || role == "ident"
		switch {
		case same || len(backs) == 0:
			hv.final = hv.entry
			headSub[hv.head] = hv.entry
		case isRef && hv.head.Sort == IntS:
			// a reference that changes: if every version is freshly allocated (or the same
			// as at the head) treat it as one owned object
			owned := ownRef(hv.entry)
			for _, s := range backs {
				nv := ex.getRec(s, hv.rec)
				if nv != hv.head && !ownRef(nv) {
					owned = false
				}
			}
			if !ownRef(hv.entry) && role == "ref" {
				all := true
				for _, s := range backs {
					nv := ex.getRec(s, hv.rec)
					if nv != hv.head && !ownRef(nv) {
						all = false
					}
				}
				if all {
					owned, peel = true, true
				}
			}
			if owned && (role == "ref" || role == "map") {
				hv.final = Num(t.newRef())
				headSub[hv.head] = hv.final
			} else {
				hv.head.hi = bi(t.nextRef)
			}
		case aff:
			hv.final = Add(hv.entry, Mul(d, iterV))
			headSub[hv.head] = hv.final
			affs = append(affs, affine{hv, d})
		}
	}

	// ---- guard candidate ----
	for _, g := range guards {
		for k := 0; k < 2; k++ {
			if g.Op == OGe0 {
				cands = append(cands, Ge0(Add(g.Args[0], Num(1))))
			}
			if g.Op == OAnd {
				for _, x := range g.Args {
					if x.Op == OGe0 {
						cands = append(cands, Ge0(Add(x.Args[0], Num(1))))
					}
				}
			}
			g = Not(g)
		}
	}
	for _, k := range order {
		hv := vars[k]
		if headSub[hv.head] == nil && hv.head.Sort.Elem == nil {
			// still the constant it was before the loop (a flag that is only set when leaving)
			switch role := leavesOf(hv.rec.root)[hv.rec.leaf].Role; {
			case role == "bool" && (hv.entry == True || hv.entry == False):
				cands = append(cands, Eq(hv.head, hv.entry))
			case (role == "tag" || role == "ident") && hv.entry.Op == OInt:
				cands = append(cands, Eq(hv.head, hv.entry))
			}
		}
		if hv.head.Sort == IntS && headSub[hv.head] == nil {
			role := leavesOf(hv.rec.root)[hv.rec.leaf].Role
			switch role {
			case "int", "len", "cap", "off":
				cands = append(cands, Le(hv.entry, hv.head), Le(hv.head, hv.entry), Ge0(hv.head))
			}
		}
	}
	// len <= cap for slice headers modified together
	for _, k := range order {
		hv := vars[k]
		l := leavesOf(hv.rec.root)[hv.rec.leaf]
		if l.Role == "len" && hv.head.Sort == IntS {
			r2 := hv.rec
			r2.leaf++
			kk := hk(r2.kind, r2.leaf)
			for _, k2 := range order {
				if vars[k2].key == kk && sameRef(vars[k2].rec, hv.rec) {
					cands = append(cands, Le(hv.head, vars[k2].head))
				}
			}
		}
	}
	// validate candidates (Houdini): entry and every back edge
	entrySub := map[*Term]*Term{iterV: Num(0)}
	for _, k := range order {
		entrySub[vars[k].head] = vars[k].entry
	}
	var good []*Term
	for _, c := range cands {
		if t.quickDecide(entry, Subst(c, entrySub)) == 1 {
			good = append(good, c)
		}
	}
	affFacts := func(s *State) {
		for _, k := range order {
			hv := vars[k]
			if r := headSub[hv.head]; r != nil && hv.head.Sort == IntS {
				s.assume(Eq(hv.head, r))
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(good); i++ {
			okc := true
			for _, s := range backs {
				s2 := s.clone()
				affFacts(s2)
				for _, g := range good {
					s2.assume(g)
				}
				if t.quickDecide(s2, Subst(good[i], sub(s, map[*Term]*Term{iterV: Add(iterV, Num(1))}))) != 1 {
					okc = false
					break
				}
			}
			if !okc {
				good = append(good[:i:i], good[i+1:]...)
				changed = true
				break
			}
		}
	}
	if t.dryArith == 0 {
		// owned refs need the freshness of the allocated array content: fresh contents below
	}

	// ---- real run ----
	lname := fmt.Sprintf("%s:loop%d", fnShort(ex.fn), lp.ord)
	chk := entry.clone()
	var entryInvs []*Term
	skipped := map[int]bool{} // not applicable at the entry: neither assumed nor checked
	for i, v := range invs(entry, Num(0)) {
		if v == nil {
			skipped[i] = true
			t.warn("%s: invariant not applicable: %v", lname, invErr)
			continue
		}
		t.emit(chk, fmt.Sprintf("%s:inv[%s]:entry", lname, spec.Invs[i].Label), "invariant", b.Instrs[0].Pos(), v)
		chk.assume(v) // later invariants may use the earlier ones
		entryInvs = append(entryInvs, v)
	}
	// a variable that an invariant equates with an expression takes that expression's value,
	// so that terms over it are identical to the ones the invariants speak about
	for n := 0; n < 16 && spec != nil && spec.Pin; n++ {
		var conj []*Term
		for i, v := range invs(mkHead(true), iterV) {
			if v == nil || skipped[i] {
				continue
			}
			if v.Op == OAnd {
				conj = append(conj, v.Args...)
			} else {
				conj = append(conj, v)
			}
		}
		found := false
		for _, c := range conj {
			if c.Op != OEq || c.Args[0].Sort != IntS || found {
				continue
			}
			d := Sub(c.Args[0], c.Args[1])
			for _, k := range order {
				hv := vars[k]
				role := leavesOf(hv.rec.root)[hv.rec.leaf].Role
				if headSub[hv.head] != nil || hv.head.Sort != IntS || (role != "int" && role != "len") {
					continue
				}
				e := Sub(hv.head, d)
				if occurs(e, hv.head) {
					e = Add(hv.head, d)
				}
				if occurs(e, hv.head) || e.Op == OInt {
					continue
				}
				hv.final = e
				for a, b := range headSub {
					headSub[a] = Subst(b, map[*Term]*Term{hv.head: e})
				}
				for _, k2 := range order {
					vars[k2].final = Subst(vars[k2].final, map[*Term]*Term{hv.head: e})
				}
				hv.final = e
				headSub[hv.head] = e
				found = true
				break
			}
		}
		if !found {
			break
		}
	}
	h := mkHead(true)
	for _, k := range order {
		hv := vars[k]
		if hv.final.Op == OInt && hv.final.Val.Int64() > nextRef0 && headSub[hv.head] == hv.final && (leavesOf(hv.rec.root)[hv.rec.leaf].Role == "ref") {
			// fresh owned array: give it arbitrary contents
			st := leavesOf(hv.rec.root)[hv.rec.leaf].T.Underlying().(*types.Slice)
			l := h.arrLoc(hv.final, st.Elem())
			v := freshVal("own", l.Typ)
			q := t.writeLogs
			t.writeLogs = nil
			h.storeRaw(l, v)
			t.writeLogs = q
		}
	}
	for _, g := range good {
		h.assume(Subst(g, headSub))
	}
	for _, k := range order {
		hv := vars[k]
		if r := headSub[hv.head]; r != nil && hv.head.Sort == IntS && r.Op != OInt {
			l := leavesOf(hv.rec.root)[hv.rec.leaf]
			if l.lo != nil && l.hi != nil {
				h.assume(And(Le(NumB(l.lo), r), Le(r, NumB(l.hi))))
			}
		}
	}
	assumed := map[int]bool{}
	for i, v := range invs(h, iterV) {
		if v != nil && !skipped[i] {
			h.assume(v)
			assumed[i] = true
		}
	}
	backTo := func(next *Term) func(_ *fexec, s *State) {
		return func(_ *fexec, s *State) {
			for _, a := range affs {
				want := Add(a.hv.entry, Mul(a.d, next))
				t.emit(s, fmt.Sprintf("%s:induction-variable", lname), "invariant", b.Instrs[0].Pos(), Eq(ex.getRec(s, a.hv.rec), want))
			}
			s = s.clone()
			for i, v := range invs(s, next) {
				if !assumed[i] && (v == nil || skipped[i]) {
					continue
				}
				if v == nil {
					t.warn("%s: invariant not applicable at the end of the body: %v", lname, invErr)
					v = False
				}
				t.emit(s, fmt.Sprintf("%s:inv[%s]:preserved", lname, spec.Invs[i].Label), "invariant", b.Instrs[0].Pos(), v)
				s.assume(v)
			}
			// writes outside the inferred write set are impossible by construction (fixpoint)
		}
	}
	h.frame().loops[b] = &loopCut{lp: lp, back: backTo(Add(iterV, Num(1)))}
	if peel {
		h.assume(Le(Num(1), iterV))
		e0 := entry.clone()
		for _, v := range entryInvs {
			e0.assume(v)
		}
		e0.frame().loops[b] = &loopCut{lp: lp, back: backTo(Num(1))}
		ex.block(e0, b, 0)
	}
	if ex.dry != nil && !t.trackNested {
		// nested loop inside a dry run of the outer loop: continue normally
	}
	ex.block(h, b, 0)
}

func sameRef(a, b writeRec) bool { return a.ref == b.ref && a.kind == b.kind }

func ownRef(r *Term) bool {
	if r.Op != OInt {
		return false
	}
	n := r.Val.Int64()
	return n == 0 || (n >= freshBase && n < exoticBase)
}

type dryRun struct {
	lp      *loop
	onGuard func(c *Term, taken bool)
}

func (ex *fexec) cellExists(st *State, w writeRec) bool {
	_, ok := st.heap[hk(w.kind, w.leaf)]
	return ok
}

func (ex *fexec) getRec(st *State, w writeRec) *Term {
	h := st.hget(w.kind, w.leaf, w.root, w.local)
	if w.local {
		return h
	}
	return Select(h, w.ref)
}
func (ex *fexec) setRec(st *State, v *headVar, val *Term) {
	w := v.rec
	k := hk(w.kind, w.leaf)
	h := st.hget(w.kind, w.leaf, w.root, w.local)
	if w.local {
		st.heap[k] = val
	} else {
		st.heap[k] = Store(h, w.ref, val)
	}
	l := &Loc{Kind: w.kind, Ref: w.ref, Lo: w.leaf, Root: w.root}
	if w.local {
		l.Ref = nil
	}
	st.t.logWrite(st, l, 1)
}
