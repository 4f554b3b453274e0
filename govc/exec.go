package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Task struct {
	caseVal       int64
	caseTerm      *Term // the term split over, when it is a ghost function's
	caseCheck     bool
	eng           *Engine
	fn            *ssa.Function
	con           *Contract
	vcs           []*VC
	facts         []*Term
	mat           map[int]int64
	nilable       map[int]bool
	offZero       map[int]bool
	nextMat       int64
	nextRef       int64
	exotics       map[int64]*Exotic
	exoticKey     map[string]int64
	initHeap      map[string]*Term
	frameN        int
	writeLogs     []*writeLog
	entry         *State
	params        map[string]SV
	modset        []modLoc
	modAll        bool
	inBody        int // >0 while executing the body (frame checks on)
	vcNames       map[string]int
	loopSeq       map[string]int
	steps         int
	usedContracts map[string]bool
	inlined       map[string]bool
	trusted       map[string]bool
	warnings      []string
	quiet         int // >0: suppress VC emission (dry runs)
	depth         int
	usedInvs      map[string]bool
	globals       map[string]bool
	lensOf        map[string]bool
	frameFns      []*ssa.Function
	lets          map[string]SV
	noQuickWrap   bool
	dryArith      int
	pruneOn       bool
	trackNested   bool
	qmemo         map[string]int
	injKeys       map[string][]injRec
}

type writeLog struct {
	writes map[string]writeRec
}
type writeRec struct {
	kind  string
	leaf  int
	ref   *Term
	local bool
	root  types.Type
}

func (t *Task) logWrite(st *State, l *Loc, n int) {
	for _, w := range t.writeLogs {
		for j := 0; j < n; j++ {
			k := hk(l.Kind, l.Lo+j)
			if l.Ref != nil {
				k += fmt.Sprintf("@%d", l.Ref.ID)
			}
			w.writes[k] = writeRec{l.Kind, l.Lo + j, l.Ref, l.Ref == nil, l.Root}
		}
	}
}

type Outcome struct {
	st  *State
	res Val
}

func (t *Task) emit(st *State, name, kind string, pos token.Pos, goal *Term) {
	if t.quiet > 0 {
		return
	}
	g := st.decide(goal)
	t.vcNames[name]++
	nm := name
	if n := t.vcNames[name]; n > 1 {
		nm = fmt.Sprintf("%s~%d", name, n)
	}
	vc := &VC{Func: t.name(), Name: nm, Kind: kind, Pos: t.eng.posStr(pos), Assume: st.pc, Goal: g}
	if t.con != nil {
		vc.Slow = t.con.Timeout * 1000
	}
	t.vcs = append(t.vcs, vc)
}

func (t *Task) name() string { return fnKey(t.fn) }

// check emits an obligation and then assumes it.
func (t *Task) check(st *State, name, kind string, pos token.Pos, goal *Term) {
	if goal.IsTrue() {
		return
	}
	g := st.decide(goal)
	if g.IsTrue() {
		return
	}
	if kind == "panic" {
		if t.con != nil && t.con.MayPanic {
			st.assume(goal)
			return
		}
		if t.con != nil && len(t.con.PanicsIf) > 0 {
			g = Or(g, t.panicCond())
		}
	}
	t.emit(st, name, kind, pos, g)
	st.assume(goal)
}

func (t *Task) panicCond() *Term {
	var cs []*Term
	for _, c := range t.con.PanicsIf {
		cs = append(cs, t.evalEntry(c))
	}
	return Or(cs...)
}

func (st *State) frame() *frameEnv { return st.frames[len(st.frames)-1] }

func (t *Task) operand(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return t.constVal(x)
	case *ssa.Function:
		return Val{t.exotic(&Exotic{Fn: x})}
	case *ssa.Global:
		return Val{t.globalPtr(x)}
	case *ssa.Builtin:
		return Val{Num(0)}
	}
	r, ok := st.frame().regs[v]
	if !ok {
		unsupported("undefined ssa value %s in %s", v.Name(), v.Parent())
	}
	return r
}

func (t *Task) globalPtr(g *ssa.Global) *Term {
	et := g.Type().(*types.Pointer).Elem()
	return t.exotic(&Exotic{Loc: &Loc{Kind: "G:" + g.String(), Typ: et, Root: et}})
}

func strVal(s string) Val {
	a := ConstArr(ArrS(IntS), Num(0))
	for i := 0; i < len(s); i++ {
		a = Store(a, Num(int64(i)), Num(int64(s[i])))
	}
	return Val{a, Num(0), Num(int64(len(s)))}
}

func (t *Task) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	return constToVal(c.Value, c.Type())
}
func constToVal(v constant.Value, typ types.Type) Val {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if constant.BoolVal(v) {
				return Val{True}
			}
			return Val{False}
		case u.Info()&types.IsInteger != 0:
			iv := constant.ToInt(v)
			b, ok := new(big.Int).SetString(iv.ExactString(), 10)
			if !ok {
				unsupported("const %s", v)
			}
			return Val{NumB(b)}
		case u.Info()&types.IsString != 0:
			return strVal(constant.StringVal(v))
		case u.Info()&types.IsFloat != 0:
			r, ok := new(big.Rat).SetString(constant.ToFloat(v).ExactString())
			if !ok {
				f, _ := constant.Float64Val(v)
				r = new(big.Rat).SetFloat64(f)
			}
			return Val{RealV(r)}
		}
	}
	unsupported("constant of type %s", typ)
	return nil
}

// execFunc runs fn symbolically on args; returns all normal outcomes.
func (t *Task) execFunc(st *State, fn *ssa.Function, args []Val, bind []Val) []Outcome {
	if fn.Blocks == nil {
		unsupported("call of function without body: %s", fn)
	}
	t.depth++
	if t.depth > 25 {
		unsupported("inlining too deep at %s", fn)
	}
	defer func() { t.depth-- }()
	t.frameN++
	fr := &frameEnv{id: t.frameN, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCut{}}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.regs[f] = bind[i]
	}
	st.frames = append(st.frames, fr)
	ex := &fexec{t: t, fn: fn, frameDepth: len(st.frames), li: t.eng.loopInfo(fn)}
	ex.run(st, fn.Blocks[0], nil)
	for i := range ex.out {
		s := ex.out[i].st
		s.frames = s.frames[:len(s.frames)-1]
	}
	return ex.out
}

type fexec struct {
	t          *Task
	fn         *ssa.Function
	out        []Outcome
	frameDepth int
	li         *loopInfo
	dry        *dryRun
}

func (ex *fexec) run(st *State, b *ssa.BasicBlock, pred *ssa.BasicBlock) {
	t := ex.t
	if ex.dry != nil && !ex.dry.lp.blocks[b] {
		return
	}
	t.steps++
	if t.steps > 20000 {
		unsupported("path explosion in %s", ex.fn)
	}
	if lp := ex.li.byHead[b]; lp != nil {
		if pred != nil && lp.blocks[pred] {
			// back edge
			if cut := st.frame().loops[b]; cut != nil {
				if cut.unroll {
					cut2 := *cut
					cut2.count++
					st.frame().loops[b] = &cut2
					if cut2.count > t.maxUnroll() {
						panic(needInvariant{lp, "unrolling limit"})
					}
				} else {
					ex.phis(st, b, pred)
					cut.back(ex, st)
					return
				}
			}
		} else {
			ex.enterLoop(st, lp, b, pred)
			return
		}
	}
	ex.phis(st, b, pred)
	ex.block(st, b, 0)
}

func (ex *fexec) phis(st *State, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, ex.t.operand(st, p.Edges[idx]))
	}
	for i, p := range phis {
		st.frame().regs[p] = vals[i]
	}
}

// block executes instructions from index i on; forks recurse.
func (ex *fexec) block(st *State, b *ssa.BasicBlock, i int) {
	t := ex.t
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			ex.run(st, b.Succs[0], b)
			return
		case *ssa.If:
			c := t.operand(st, x.Cond)[0]
			ex.branch(st, c, b)
			return
		case *ssa.Return:
			var res Val
			for _, r := range x.Results {
				res = append(res, t.operand(st, r)...)
			}
			ex.out = append(ex.out, Outcome{st, res})
			return
		case *ssa.Panic:
			t.check(st, "nopanic:explicit", "panic", x.Pos(), False)
			return
		case *ssa.Call:
			outs := t.call(st, &x.Call, x, nil)
			if len(outs) == 1 {
				st = outs[0].st
				st.frame().regs[x] = outs[0].res
				continue
			}
			for _, o := range outs {
				o.st.frame().regs[x] = o.res
				ex.block(o.st, b, i+1)
			}
			return
		case *ssa.Defer:
			d := deferred{call: &x.Call, pos: x}
			if x.Call.IsInvoke() {
				d.fnv = t.operand(st, x.Call.Value)
			} else if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				d.fnv = t.operand(st, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, t.operand(st, a))
			}
			fr := st.frame()
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
			continue
		case *ssa.RunDefers:
			states := []*State{st}
			for {
				var next []*State
				progressed := false
				for _, s := range states {
					fr := s.frame()
					if len(fr.defers) == 0 {
						next = append(next, s)
						continue
					}
					progressed = true
					d := fr.defers[len(fr.defers)-1]
					fr.defers = fr.defers[:len(fr.defers)-1]
					for _, o := range t.callDeferred(s, d) {
						next = append(next, o.st)
					}
				}
				states = next
				if !progressed {
					break
				}
			}
			for k, s := range states {
				if k == len(states)-1 {
					st = s
				} else {
					ex.block(s, b, i+1)
				}
			}
			continue
		default:
			sts := ex.instr(st, in)
			if sts == nil {
				if x, ok := in.(*ssa.Store); ok {
					ex.asserts(st, x)
				}
				continue // single state, updated in place
			}
			for k, s := range sts {
				if k == len(sts)-1 {
					st = s
				} else {
					ex.block(s, b, i+1)
				}
			}
			if len(sts) == 0 {
				return
			}
		}
	}
}

// asserts proves the intermediate assertions attached to the local variable just assigned, and keeps them as facts.
func (ex *fexec) asserts(st *State, x *ssa.Store) {
	t := ex.t
	if t.con == nil || len(t.con.Asserts) == 0 || ex.fn != t.fn || len(st.frames) != 1 {
		return
	}
	a, ok := x.Addr.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, as := range t.con.Asserts {
		if as.Var != a.Comment && t.eng.aliases(ex.fn)[as.Var] != a.Comment {
			continue
		}
		v := func() (v *Term) {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(specErr); !ok || !strings.Contains(e.msg, "unknown name") {
						panic(r)
					}
				}
			}()
			return ex.localsCtx(st, nil).Bool(as.Clause)
		}()
		if v == nil {
			continue // an assignment at which not all the locals exist yet
		}
		t.emit(st, "assert["+as.Clause.Label+"]", "assert", x.Pos(), v)
		st.assume(v)
	}
}

func (ex *fexec) branch(st *State, c *Term, b *ssa.BasicBlock) {
	t := ex.t
	if ex.dry != nil && ex.dry.onGuard != nil {
		lp := ex.dry.lp
		if b == lp.head || lp.blocks[b] && (!lp.blocks[b.Succs[0]] || !lp.blocks[b.Succs[1]] || b.Succs[0] == lp.head || b.Succs[1] == lp.head) {
			ex.dry.onGuard(c, true)
		}
	}
	c = st.decide(c)
	if !c.IsTrue() && !c.IsFalse() {
		// ask the solver inside unrolled loops to keep the unrolling finite
		if ex.inUnroll(st, b) && ex.isExit(st, b) {
			switch t.quickDecide(st, c) {
			case 1:
				st.assume(c)
				c = True
			case -1:
				st.assume(Not(c))
				c = False
			default:
				if lp := ex.unrollLoop(st, b); lp != nil && ex.headExit(lp, b) {
					cut := st.frame().loops[lp.head]
					if !cut.allowSym {
						panic(needInvariant{lp, "condition not decided"})
					}
				}
			}
		}
	}
	if c.IsTrue() {
		ex.run(st, b.Succs[0], b)
		return
	}
	if c.IsFalse() {
		ex.run(st, b.Succs[1], b)
		return
	}
	if t.pruneOn {
		switch t.quickDecide(st, c) {
		case 1:
			st.assume(c)
			ex.run(st, b.Succs[0], b)
			return
		case -1:
			st.assume(Not(c))
			ex.run(st, b.Succs[1], b)
			return
		}
	}
	s2 := st.clone()
	if pathCheck {
		ln := t.eng.posStr(b.Instrs[len(b.Instrs)-1].Pos())
		for k := len(b.Instrs) - 1; k >= 0 && ln == ""; k-- {
			ln = t.eng.posStr(b.Instrs[k].Pos())
		}
		st.trace = append(st.trace, "+"+ln)
		s2.trace = append(s2.trace, "-"+ln)
	}
	st.assume(c)
	s2.assume(Not(c))
	ex.run(st, b.Succs[0], b)
	ex.run(s2, b.Succs[1], b)
}

func (ex *fexec) instr(st *State, in ssa.Instruction) []*State {
	t := ex.t
	set := func(v ssa.Value, x Val) { st.frame().regs[v] = x }
	switch x := in.(type) {
	case *ssa.Alloc:
		set(x, Val{t.alloc(st, x, ex)})
	case *ssa.BinOp:
		set(x, t.binop(st, x))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := t.operand(st, x.X)[0]
			et := x.X.Type().Underlying().(*types.Pointer).Elem()
			t.nilCheck(st, p, x.Pos())
			set(x, st.load(st.derefT(t, p, et)))
		case token.NOT:
			set(x, Val{Not(t.operand(st, x.X)[0])})
		case token.SUB:
			v := t.operand(st, x.X)[0]
			if v.Sort == RealS {
				set(x, Val{RMul(RealV(big.NewRat(-1, 1)), v)})
			} else {
				set(x, Val{t.wrap(st, Neg(v), x.Type())})
			}
		case token.XOR:
			v := t.operand(st, x.X)[0]
			bits, s, _ := basicInt(x.Type())
			if s {
				set(x, Val{Sub(Num(-1), v)})
			} else {
				set(x, Val{Sub(NumB(new(big.Int).Sub(pow2(bits), bi(1))), v)})
			}
		case token.ARROW:
			set(x, t.chanRecv(st, x))
		default:
			unsupported("unop %s", x.Op)
		}
	case *ssa.Store:
		p := t.operand(st, x.Addr)[0]
		et := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		t.nilCheck(st, p, x.Pos())
		l := st.derefT(t, p, et)
		t.frameCheck(st, l, x.Pos())
		st.storeRaw(l, t.operand(st, x.Val))
	case *ssa.FieldAddr:
		p := t.operand(st, x.X)[0]
		et := x.X.Type().Underlying().(*types.Pointer).Elem()
		t.nilCheck(st, p, x.Pos())
		l := st.derefT(t, p, et).field(et.Underlying().(*types.Struct), x.Field)
		set(x, Val{t.exotic(&Exotic{Loc: l})})
	case *ssa.Field:
		v := t.operand(st, x.X)
		s := x.X.Type().Underlying().(*types.Struct)
		o := fieldOff(s, x.Field)
		set(x, v[o:o+nLeaves(s.Field(x.Field).Type())])
	case *ssa.IndexAddr:
		i := t.operand(st, x.Index)[0]
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := t.operand(st, x.X)
			t.boundsCheck(st, i, s[2], x.Pos())
			l := st.arrLoc(s[0], u.Elem()).elem(Add(s[1], i), u.Elem())
			set(x, Val{t.exotic(&Exotic{Loc: l})})
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			p := t.operand(st, x.X)[0]
			t.nilCheck(st, p, x.Pos())
			t.boundsCheck(st, i, Num(a.Len()), x.Pos())
			l := st.derefT(t, p, u.Elem()).elem(i, a.Elem())
			set(x, Val{t.exotic(&Exotic{Loc: l})})
		default:
			unsupported("indexaddr %s", x.X.Type())
		}
	case *ssa.Index:
		v := t.operand(st, x.X)
		i := t.operand(st, x.Index)[0]
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			t.boundsCheck(st, i, Num(u.Len()), x.Pos())
			out := make(Val, len(v))
			for k := range v {
				out[k] = Select(v[k], i)
			}
			set(x, st.norm(out, u.Elem()))
		case *types.Basic: // string
			t.boundsCheck(st, i, v[2], x.Pos())
			set(x, Val{Select(v[0], Add(v[1], i))})
		default:
			unsupported("index %s", x.X.Type())
		}
	case *ssa.Slice:
		set(x, t.sliceOp(st, x))
	case *ssa.Convert:
		return t.convert(st, x, set)
	case *ssa.ChangeType:
		set(x, t.operand(st, x.X))
	case *ssa.ChangeInterface:
		set(x, t.operand(st, x.X))
	case *ssa.MakeInterface:
		set(x, t.makeIface(t.operand(st, x.X), x.X.Type()))
	case *ssa.TypeAssert:
		set(x, t.typeAssert(st, x))
	case *ssa.Extract:
		v := t.operand(st, x.Tuple)
		tp := x.Tuple.Type().(*types.Tuple)
		o := tupleOff(tp, x.Index)
		set(x, v[o:o+nLeaves(tp.At(x.Index).Type())])
	case *ssa.MakeSlice:
		n := t.operand(st, x.Len)[0]
		c := t.operand(st, x.Cap)[0]
		t.check(st, "nopanic:makeslice", "panic", x.Pos(), And(Ge0(n), Le(n, c)))
		st.assume(Le(c, NumB(maxLen)))
		et := x.Type().Underlying().(*types.Slice).Elem()
		ref := t.allocArray(st, et)
		set(x, Val{ref, Num(0), n, c})
	case *ssa.MakeMap:
		set(x, Val{t.allocMap(st, x.Type().Underlying().(*types.Map))})
	case *ssa.MapUpdate:
		t.mapUpdate(st, x)
	case *ssa.Lookup:
		set(x, t.lookup(st, x))
	case *ssa.MakeClosure:
		var bind []Val
		for _, b := range x.Bindings {
			bind = append(bind, t.operand(st, b))
		}
		set(x, Val{t.exotic(&Exotic{Fn: x.Fn.(*ssa.Function), Bind: bind})})
	case *ssa.SliceToArrayPointer:
		s := t.operand(st, x.X)
		a := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		t.check(st, "nopanic:slice2array", "panic", x.Pos(), Le(Num(a.Len()), s[2]))
		l := st.arrLoc(s[0], a.Elem())
		if s[1].Op == OInt && s[1].Val.Sign() == 0 {
			l2 := *l
			l2.Typ = x.Type().Underlying().(*types.Pointer).Elem()
			set(x, Val{t.exotic(&Exotic{Loc: &l2})})
		} else if onlyRead(x) {
			// a conversion to an array value: a copy
			at := x.Type().Underlying().(*types.Pointer).Elem()
			cp := &Loc{Kind: fmt.Sprintf("L:%d:%s:%d", st.frame().id, x.Name(), t.newRef()), Typ: at, Root: at}
			st.storeRaw(cp, zeroVal(at))
			p := t.exotic(&Exotic{Loc: cp})
			old := st.loadRaw(l)
			t.blockStore(st, Val{p, Num(0), Num(a.Len()), Num(a.Len())}, a.Elem(), Num(a.Len()), func(i *Term) Val {
				out := make(Val, len(old))
				for k := range old {
					out[k] = Select(old[k], Add(s[1], i))
				}
				return out
			}, x.Pos())
			set(x, Val{p})
		} else {
			unsupported("slice to array pointer with offset")
		}
	case *ssa.Send:
		t.chanSend(st, x)
	case *ssa.MakeChan:
		set(x, Val{Num(t.newRef())})
	case *ssa.Range, *ssa.Next, *ssa.Go, *ssa.Select:
		unsupported("instruction %T in %s", in, ex.fn)
	default:
		unsupported("instruction %T", in)
	}
	return nil
}

// onlyRead says whether the pointer is dereferenced at once and used for nothing else.
func onlyRead(x *ssa.SliceToArrayPointer) bool {
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL || u.Block() != x.Block() {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (st *State) derefT(t *Task, p *Term, et types.Type) *Loc {
	l := st.deref(p, et)
	if l.Ref == nil && strings.HasPrefix(l.Kind, "G:") {
		t.initGlobal(st, l)
	}
	// view at the accessed type: pointer conversions keep leaves
	if nLeaves(l.Typ) != nLeaves(et) {
		unsupported("pointer view mismatch %s vs %s", l.Typ, et)
	}
	l2 := *l
	l2.Typ = et
	return &l2
}

// package-level variables: error sentinels are distinct constants; others are unknown but fixed.
func (t *Task) initGlobal(st *State, l *Loc) {
	k := hk(l.Kind, 0)
	if _, ok := st.heap[k]; ok {
		return
	}
	if isErrorType(l.Typ) {
		st.heap[k] = tagOf(types.Universe.Lookup("error").Type())
		st.heap[hk(l.Kind, 1)] = t.exotic(&Exotic{Name: l.Kind})
	}
}

func (t *Task) nilCheck(st *State, p *Term, pos token.Pos) {
	if p.Op == OInt && p.Val.Sign() != 0 {
		return
	}
	t.check(st, "nopanic:nil", "panic", pos, Not(Eq(p, Num(0))))
}
func (t *Task) boundsCheck(st *State, i, n *Term, pos token.Pos) {
	t.check(st, "nopanic:index", "panic", pos, And(Ge0(i), Lt(i, n)))
}

func (t *Task) alloc(st *State, x *ssa.Alloc, ex *fexec) *Term {
	et := x.Type().Underlying().(*types.Pointer).Elem()
	if x.Heap {
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			ref := Num(t.newRef())
			l := rootLoc(ref, et)
			z := zeroVal(et)
			st.storeRaw(l, z)
			return ref
		}
	}
	// local cell, one per (frame, alloc) unless heap (then one per execution)
	name := fmt.Sprintf("L:%d:%s", st.frame().id, canonAlloc(x).Name())
	if x.Heap {
		name += fmt.Sprintf(":%d", t.newRef())
	}
	l := &Loc{Kind: name, Typ: et, Root: et}
	if canonAlloc(x) == x {
		st.storeRaw(l, zeroVal(et))
	}
	return t.exotic(&Exotic{Loc: l})
}

// go1.22 loop variables: the per-iteration copies of a variable that does not escape share a cell.
func canonAlloc(x *ssa.Alloc) *ssa.Alloc {
	if x.Heap {
		return x
	}
	for _, r := range *x.Referrers() {
		if p, ok := r.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				if a, ok := e.(*ssa.Alloc); ok && !a.Heap && p.Comment == a.Comment {
					return a // first edge
				}
			}
		}
	}
	return x
}

func (t *Task) allocArray(st *State, et types.Type) *Term {
	ref := Num(t.newRef())
	root := arrRoot(et)
	l := &Loc{Kind: sliceKind(et), Ref: ref, Typ: root, Root: root}
	st.storeRaw(l, zeroVal(root))
	return ref
}

// ---- integer operations ----

func (t *Task) wrap(st *State, v *Term, typ types.Type) *Term {
	bits, signed, ok := basicInt(typ)
	if !ok {
		return v
	}
	return t.wrapBits(st, v, bits, signed)
}
func (t *Task) wrapBits(st *State, v *Term, bits uint, signed bool) *Term {
	lo, hi := intRange(bits, signed)
	r := st.Rng(v)
	if r.lo != nil && r.hi != nil && r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 {
		return v
	}
	if t.dryArith > 0 {
		return v
	}
	if !v.bound && !t.noQuickWrap {
		in := And(Le(NumB(lo), v), Le(v, NumB(hi)))
		if in.IsTrue() || t.quickDecide(st, in) == 1 {
			st.assume(in)
			return v
		}
	}
	m := NumB(pow2(bits))
	if !signed {
		return Mod(v, m)
	}
	h := NumB(pow2(bits - 1))
	w := Mod(Add(v, h), m)
	return Sub(w, h)
}

func maskAnd(x *Term, c *big.Int) *Term {
	// x & c for c >= 0: sum over runs of ones
	res := Num(0)
	n := c.BitLen()
	for i := 0; i < n; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		part := Mod(Div(x, NumB(pow2(uint(i)))), NumB(pow2(uint(j-i))))
		res = Add(res, MulC(part, pow2(uint(i))))
		i = j
	}
	return res
}

func (t *Task) disjointOr(st *State, a, b *Term) *Term {
	for k := 0; k < 2; k++ {
		r := st.Rng(b)
		ra := st.Rng(a)
		if r.lo != nil && r.lo.Sign() >= 0 && r.hi != nil && ra.lo != nil && ra.lo.Sign() >= 0 {
			if uint(r.hi.BitLen()) <= a.tz {
				return Add(a, b)
			}
		}
		a, b = b, a
	}
	return nil
}

func (t *Task) intBin(st *State, op token.Token, a, b *Term, typ types.Type, pos token.Pos, btyp types.Type) *Term {
	bits, signed, _ := basicInt(typ)
	if op == token.AND || op == token.OR || op == token.XOR {
		if r := t.pow2Cases(st, op, a, b, typ, pos, btyp); r != nil {
			return r
		}
	}
	switch op {
	case token.ADD:
		return t.wrap(st, Add(a, b), typ)
	case token.SUB:
		return t.wrap(st, Sub(a, b), typ)
	case token.MUL:
		return t.wrap(st, Mul(a, b), typ)
	case token.QUO, token.REM:
		t.check(st, "nopanic:div0", "panic", pos, Not(Eq(b, Num(0))))
		ra, rb := st.Rng(a), st.Rng(b)
		nonneg := ra.lo != nil && ra.lo.Sign() >= 0
		if !nonneg && t.quickDecide(st, Ge0(a)) == 1 {
			nonneg = true
			st.assume(Ge0(a))
		}
		bpos := rb.lo != nil && rb.lo.Sign() > 0
		if !bpos && t.quickDecide(st, Lt(Num(0), b)) == 1 {
			bpos = true
			st.assume(Lt(Num(0), b))
		}
		if nonneg && bpos {
			if op == token.QUO {
				return Div(a, b)
			}
			return Mod(a, b)
		}
		if bpos {
			q := Ite(Ge0(a), Div(a, b), Neg(Div(Neg(a), b)))
			if op == token.QUO {
				return q
			}
			return Ite(Ge0(a), Mod(a, b), Neg(Mod(Neg(a), b)))
		}
		unsupported("division by possibly negative value")
	case token.SHL:
		if b.Op == OInt {
			if b.Val.Cmp(bi(int64(bits))) >= 0 {
				return Num(0)
			}
			return t.wrap(st, MulC(a, pow2(uint(b.Val.Int64()))), typ)
		}
		return t.symShift(st, op, a, b, typ, pos)
	case token.SHR:
		if b.Op == OInt {
			if b.Val.Cmp(bi(int64(bits))) >= 0 {
				if signed {
					return Ite(Ge0(a), Num(0), Num(-1))
				}
				return Num(0)
			}
			return Div(a, NumB(pow2(uint(b.Val.Int64()))))
		}
		return t.symShift(st, op, a, b, typ, pos)
	case token.AND:
		if a.Op == OInt {
			a, b = b, a
		}
		if b.Op == OInt {
			c := b.Val
			if c.Sign() < 0 {
				c = new(big.Int).Add(c, pow2(bits))
				return t.wrapBits(st, maskAnd(a, c), bits, signed)
			}
			return maskAnd(a, c)
		}
		if a == b {
			return a
		}
		// x & (2^k - 1) with symbolic power
		for k := 0; k < 2; k++ {
			if q := Add(b, Num(1)); t.pow2Of(st, q) {
				// x and x wrapped to 64 bits agree modulo any power up to 2^64
				if e := st.Rng(q.Args[0]); e.lo != nil && e.lo.Sign() >= 0 && e.hi != nil && e.hi.Cmp(bi(64)) <= 0 &&
					a.Op == OAdd && len(a.Args) == 1 && a.Coefs[0].Cmp(bi(1)) == 0 && a.Args[0].Op == OMod &&
					a.Args[0].Args[1].Op == OInt && a.Args[0].Args[1].Val.Cmp(pow2(64)) == 0 {
					a = Add(a.Args[0].Args[0], NumB(a.Val))
				}
				return Mod(a, q)
			}
			a, b = b, a
		}
		// x & 2^k, one bit
		for k := 0; k < 2; k++ {
			if t.pow2Of(st, b) && !signed {
				return Mul(Mod(Div(a, b), Num(2)), b)
			}
			a, b = b, a
		}
		return t.bitUF(st, "and", a, b, bits, signed)
	case token.OR:
		if r := t.disjointOr(st, a, b); r != nil {
			return r
		}
		if a.Op == OInt && a.Val.Sign() == 0 {
			return b
		}
		if b.Op == OInt && b.Val.Sign() == 0 {
			return a
		}
		if a.Op == OInt {
			a, b = b, a
		}
		if b.Op == OInt && b.Val.Sign() > 0 {
			// a | c = a - (a & c) + c
			return Add(Sub(a, maskAnd(a, b.Val)), b)
		}
		for k := 0; k < 2; k++ {
			if t.pow2Of(st, b) && !signed {
				return Add(a, Ite(Eq(Mod(Div(a, b), Num(2)), Num(0)), b, Num(0)))
			}
			a, b = b, a
		}
		return t.bitUF(st, "or", a, b, bits, signed)
	case token.AND_NOT:
		if b.Op == OInt && b.Val.Sign() >= 0 {
			return Sub(a, maskAnd(a, b.Val))
		}
		return t.bitUF(st, "andnot", a, b, bits, signed)
	case token.XOR:
		if a.Op == OInt {
			a, b = b, a
		}
		if b.Op == OInt && b.Val.Sign() >= 0 {
			m := maskAnd(a, b.Val)
			return Add(Sub(a, m), Sub(b, m))
		}
		for k := 0; k < 2; k++ {
			if t.pow2Of(st, b) && !signed {
				return Ite(Eq(Mod(Div(a, b), Num(2)), Num(0)), Add(a, b), Sub(a, b))
			}
			a, b = b, a
		}
		return t.bitUF(st, "xor", a, b, bits, signed)
	}
	unsupported("int op %s", op)
	return nil
}

// pow2Cases splits an operation whose one operand is 2^n, with n in a small range, over the values of n.
func (t *Task) pow2Cases(st *State, op token.Token, a, b *Term, typ types.Type, pos token.Pos, yt types.Type) *Term {
	for k := 0; k < 2; k++ {
		if t.pow2Of(st, b) && a.Op != OInt {
			n := b.Args[0]
			r := st.Rng(n)
			if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(bi(8)) < 0 {
				var out *Term
				for v := r.hi.Int64(); v >= r.lo.Int64(); v-- {
					x := t.intBin(st, op, a, NumB(pow2(uint(v))), typ, pos, yt)
					if out == nil {
						out = x
					} else {
						out = Ite(Eq(n, Num(v)), x, out)
					}
				}
				return out
			}
		}
		a, b = b, a
	}
	return nil
}

func (t *Task) bitUF(st *State, op string, a, b *Term, bits uint, signed bool) *Term {
	lo, hi := intRange(bits, signed)
	if op != "andnot" && a.ID > b.ID {
		a, b = b, a
	}
	r := App(fmt.Sprintf("bit_%s_%d", op, bits), IntS, lo, hi, a, b)
	ra, rb := st.Rng(a), st.Rng(b)
	if ra.lo != nil && ra.lo.Sign() >= 0 && rb.lo != nil && rb.lo.Sign() >= 0 {
		switch op {
		case "and":
			st.assume(And(Ge0(r), Le(r, a), Le(r, b)))
		case "or":
			st.assume(And(Le(a, r), Le(b, r), Le(r, Add(a, b))))
		case "xor":
			st.assume(And(Ge0(r), Le(r, Add(a, b))))
		case "andnot":
			st.assume(And(Ge0(r), Le(r, a)))
		}
	}
	return r
}

// Pow2 is the uninterpreted function 2^n with ground facts added on use.
func Pow2T(n *Term) *Term {
	if n.Op == OInt && n.Val.Sign() >= 0 && n.Val.IsInt64() && n.Val.Int64() < 4096 {
		return NumB(pow2(uint(n.Val.Int64())))
	}
	return App("pow2", IntS, bi(1), nil, n)
}
func (t *Task) pow2Of(st *State, x *Term) bool {
	return x.Op == OApp && x.Name == "pow2"
}
func (t *Task) pow2Facts(st *State, n *Term) {
	r := st.Rng(n)
	if r.lo == nil || r.hi == nil || r.lo.Sign() < 0 {
		return
	}
	p := Pow2T(n)
	if p.Op == OInt {
		return
	}
	d := new(big.Int).Sub(r.hi, r.lo)
	if d.IsInt64() && d.Int64() <= 64 {
		for k := r.lo.Int64(); k <= r.hi.Int64(); k++ {
			st.assume(Imp(Eq(n, Num(k)), Eq(p, NumB(pow2(uint(k))))))
		}
		st.assume(Le(NumB(pow2(uint(r.lo.Int64()))), p))
		st.assume(Le(p, NumB(pow2(uint(r.hi.Int64())))))
	}
}

func (t *Task) symShift(st *State, op token.Token, a, b *Term, typ types.Type, pos token.Pos) *Term {
	bits, signed, _ := basicInt(typ)
	r := st.Rng(b)
	if r.lo == nil || r.lo.Sign() < 0 {
		t.check(st, "nopanic:shift", "panic", pos, Ge0(b))
		r = st.Rng(b)
	}
	t.pow2Facts(st, b)
	p := Pow2T(b)
	small := r.hi != nil && r.hi.Cmp(bi(int64(bits))) < 0
	if op == token.SHL {
		res := Mul(a, p)
		top := int64(bits)
		if signed {
			top--
		}
		if a.Op == OInt && a.Val.Cmp(bi(1)) == 0 && r.hi != nil && r.hi.Cmp(bi(top)) < 0 {
			return p
		}
		if small {
			return t.wrap(st, res, typ)
		}
		return Ite(Lt(b, Num(int64(bits))), t.wrap(st, res, typ), Num(0))
	}
	res := Div(a, p)
	if small {
		return res
	}
	over := Num(0)
	if signed {
		over = Ite(Ge0(a), Num(0), Num(-1))
	}
	return Ite(Lt(b, Num(int64(bits))), res, over)
}

func (t *Task) binop(st *State, x *ssa.BinOp) Val {
	a, b := t.operand(st, x.X), t.operand(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		e := t.equal(st, a, b, x.X.Type(), x.Y.Type())
		if x.Op == token.NEQ {
			e = Not(e)
		}
		return Val{e}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(x.X.Type()) {
			lt := t.strLess
			switch x.Op {
			case token.LSS:
				return Val{lt(st, a, b)}
			case token.GTR:
				return Val{lt(st, b, a)}
			case token.LEQ:
				return Val{Not(lt(st, b, a))}
			default:
				return Val{Not(lt(st, a, b))}
			}
		}
		p, q := a[0], b[0]
		if p.Sort == RealS {
			switch x.Op {
			case token.LSS:
				return Val{Not(RLe(q, p))}
			case token.LEQ:
				return Val{RLe(p, q)}
			case token.GTR:
				return Val{Not(RLe(p, q))}
			default:
				return Val{RLe(q, p)}
			}
		}
		switch x.Op {
		case token.LSS:
			return Val{Lt(p, q)}
		case token.LEQ:
			return Val{Le(p, q)}
		case token.GTR:
			return Val{Lt(q, p)}
		default:
			return Val{Le(q, p)}
		}
	}
	if isString(x.X.Type()) && x.Op == token.ADD {
		return t.strConcat(st, a, b)
	}
	if a[0].Sort == RealS {
		return Val{t.floatBin(st, x.Op, a[0], b[0])}
	}
	if a[0].Sort == BoolS {
		switch x.Op {
		case token.AND:
			return Val{And(a[0], b[0])}
		case token.OR:
			return Val{Or(a[0], b[0])}
		}
	}
	return Val{t.intBin(st, x.Op, a[0], b[0], x.Type(), x.Pos(), x.Y.Type())}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (t *Task) equal(st *State, a, b Val, ta, tb types.Type) *Term {
	switch u := ta.Underlying().(type) {
	case *types.Interface:
		if _, ok := tb.Underlying().(*types.Interface); ok {
			if b[0].Op == OInt && b[0].Val.Sign() == 0 {
				return Eq(a[0], Num(0))
			}
			if a[0].Op == OInt && a[0].Val.Sign() == 0 {
				return Eq(b[0], Num(0))
			}
			return And(Eq(a[0], b[0]), Or(Eq(a[0], Num(0)), Eq(a[1], b[1])))
		}
		if bb, ok := tb.(*types.Basic); ok && bb.Kind() == types.UntypedNil {
			return Eq(a[0], Num(0))
		}
		unsupported("mixed interface comparison")
	case *types.Slice:
		// only comparison with nil
		if len(b) >= 1 && b[0].Op == OInt && b[0].Val.Sign() == 0 {
			return Eq(a[0], Num(0))
		}
		return Eq(b[0], Num(0))
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strEq(a, b)
		}
		if a[0].Sort == RealS {
			return And(RLe(a[0], b[0]), RLe(b[0], a[0]))
		}
		return Eq(a[0], b[0])
	case *types.Array:
		return arrayEq(a, b, u)
	case *types.Struct:
		var cs []*Term
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := nLeaves(u.Field(i).Type())
			cs = append(cs, t.equal(st, a[o:o+n], b[o:o+n], u.Field(i).Type(), u.Field(i).Type()))
			o += n
		}
		return And(cs...)
	}
	return Eq(a[0], b[0])
}

func arrayEq(a, b Val, u *types.Array) *Term {
	if u.Len() > 64 {
		unsupported("comparison of long arrays")
	}
	var cs []*Term
	for j := range a {
		if a[j].Sort.Elem.Elem != nil {
			unsupported("nested array comparison")
		}
		for k := int64(0); k < u.Len(); k++ {
			cs = append(cs, Eq(Select(a[j], Num(k)), Select(b[j], Num(k))))
		}
	}
	return And(cs...)
}

func strEq(a, b Val) *Term {
	for k := 0; k < 2; k++ {
		if b[2].Op == OInt && b[2].Val.IsInt64() && b[2].Val.Int64() <= 80 {
			n := b[2].Val.Int64()
			cs := []*Term{Eq(a[2], b[2])}
			for i := int64(0); i < n; i++ {
				cs = append(cs, Eq(Select(a[0], Add(a[1], Num(i))), Select(b[0], Add(b[1], Num(i)))))
			}
			return And(cs...)
		}
		a, b = b, a
	}
	i := BoundVar("i")
	return And(Eq(a[2], b[2]), Forall(i, Imp(And(Ge0(i), Lt(i, a[2])), Eq(Select(a[0], Add(a[1], i)), Select(b[0], Add(b[1], i))))))
}

func (t *Task) strLess(st *State, a, b Val) *Term {
	return App("str_less", BoolS, nil, nil, append(append([]*Term{}, a...), b...)...)
}

func (t *Task) strConcat(st *State, a, b Val) Val {
	if b[2].Op == OInt && b[2].Val.Int64() <= 64 && a[2].Op == OInt && a[2].Val.Int64() <= 64 {
		n, m := a[2].Val.Int64(), b[2].Val.Int64()
		arr := ConstArr(ArrS(IntS), Num(0))
		for i := int64(0); i < n; i++ {
			arr = Store(arr, Num(i), Select(a[0], Add(a[1], Num(i))))
		}
		for i := int64(0); i < m; i++ {
			arr = Store(arr, Num(n+i), Select(b[0], Add(b[1], Num(i))))
		}
		return Val{arr, Num(0), Num(n + m)}
	}
	// general: fresh array with two quantified facts
	arr := Fresh("cat", ArrS(IntS), bi(0), bi(255))
	i := BoundVar("i")
	st.assume(Forall(i, Imp(And(Ge0(i), Lt(i, a[2])), Eq(Select(arr, i), Select(a[0], Add(a[1], i))))))
	j := BoundVar("i")
	st.assume(Forall(j, Imp(And(Le(a[2], j), Lt(j, Add(a[2], b[2]))), Eq(Select(arr, j), Select(b[0], Add(b[1], Sub(j, a[2])))))))
	return Val{arr, Num(0), Add(a[2], b[2])}
}

// ---- conversions ----

func (t *Task) convert(st *State, x *ssa.Convert, set func(ssa.Value, Val)) []*State {
	v := t.operand(st, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	_, _, fi := basicInt(from)
	_, _, ti := basicInt(to)
	switch {
	case fi && ti:
		set(x, Val{t.wrap(st, v[0], x.Type())})
	case fi && isFloat(to):
		r := st.Rng(v[0])
		lim := pow2(53)
		if r.lo != nil && r.hi != nil && new(big.Int).Abs(r.lo).Cmp(lim) <= 0 && r.hi.Cmp(lim) <= 0 {
			set(x, Val{ToReal(v[0])})
		} else {
			set(x, Val{t.roundF(st, ToReal(v[0]))})
		}
	case isFloat(from) && isFloat(to):
		set(x, v)
	case isFloat(from) && ti:
		set(x, Val{t.floatToInt(st, v[0], x.Type(), x.Pos())})
	case isString(from) && isByteSlice(to):
		ref := t.allocArray(st, types.Typ[types.Uint8])
		l := st.arrLoc(ref, types.Typ[types.Uint8])
		arr := t.copyArr(st, v[0], v[1], v[2])
		st.storeRaw(l, Val{arr})
		set(x, Val{ref, Num(0), v[2], v[2]})
	case isByteSlice(from) && isString(to):
		a := st.loadRaw(st.arrLoc(v[0], types.Typ[types.Uint8]))
		set(x, Val{a[0], v[1], v[2]})
	case from.String() == "unsafe.Pointer" || to.String() == "unsafe.Pointer":
		unsupported("unsafe conversion")
	default:
		if nLeaves(x.X.Type()) == nLeaves(x.Type()) {
			set(x, v)
			return nil
		}
		unsupported("conversion %s -> %s", x.X.Type(), x.Type())
	}
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// copyArr returns an array a' with a'[i] = a[off+i] for 0<=i<n.
func (t *Task) copyArr(st *State, a, off, n *Term) *Term {
	if off.Op == OInt && off.Val.Sign() == 0 {
		return a
	}
	if n.Op == OInt && n.Val.IsInt64() && n.Val.Int64() <= 80 {
		r := ConstArr(a.Sort, defaultTerm(a.Sort.Elem))
		for i := int64(0); i < n.Val.Int64(); i++ {
			r = Store(r, Num(i), Select(a, Add(off, Num(i))))
		}
		return r
	}
	r := Fresh("cp", a.Sort, a.lo, a.hi)
	i := BoundVar("i")
	st.assume(Forall(i, Imp(And(Ge0(i), Lt(i, n)), Eq(Select(r, i), Select(a, Add(off, i))))))
	return r
}

// ---- slices ----

func (t *Task) sliceOp(st *State, x *ssa.Slice) Val {
	lo := Num(0)
	if x.Low != nil {
		lo = t.operand(st, x.Low)[0]
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := t.operand(st, x.X)
		hi := s[2]
		if x.High != nil {
			hi = t.operand(st, x.High)[0]
		}
		mx := s[3]
		if x.Max != nil {
			mx = t.operand(st, x.Max)[0]
			t.check(st, "nopanic:slice", "panic", x.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, mx), Le(mx, s[3])))
		} else {
			t.check(st, "nopanic:slice", "panic", x.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, s[3])))
		}
		return Val{s[0], Add(s[1], lo), Sub(hi, lo), Sub(mx, lo)}
	case *types.Basic:
		s := t.operand(st, x.X)
		hi := s[2]
		if x.High != nil {
			hi = t.operand(st, x.High)[0]
		}
		t.check(st, "nopanic:slice", "panic", x.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, s[2])))
		return Val{s[0], Add(s[1], lo), Sub(hi, lo)}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := t.operand(st, x.X)[0]
		t.nilCheck(st, p, x.Pos())
		n := Num(a.Len())
		hi := n
		if x.High != nil {
			hi = t.operand(st, x.High)[0]
		}
		t.check(st, "nopanic:slice", "panic", x.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, n)))
		l := st.derefT(t, p, u.Elem())
		var ref *Term
		if l.Ref != nil && len(l.Idx) == 0 && l.Lo == 0 && l.Kind == sliceKind(a.Elem()) {
			ref = l.Ref
		} else {
			ref = t.exotic(&Exotic{Loc: l})
		}
		return Val{ref, lo, Sub(hi, lo), Sub(n, lo)}
	}
	unsupported("slice of %s", x.X.Type())
	return nil
}

// ---- interfaces ----

func (t *Task) makeIface(v Val, typ types.Type) Val {
	if _, ok := typ.Underlying().(*types.Interface); ok {
		return v
	}
	tag := tagOf(typ)
	switch typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return Val{tag, v[0]}
	}
	return Val{tag, t.exotic(&Exotic{BoxT: typ, Box: v})}
}

func (t *Task) unboxIface(st *State, ident *Term, typ types.Type) Val {
	switch typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return Val{ident}
	}
	if ident.Op == OInt {
		if ex, ok := t.exotics[ident.Val.Int64()]; ok && ex.BoxT != nil {
			return ex.Box
		}
	}
	// value types boxed in unknown interfaces: functions of the identity
	ls := leavesOf(typ)
	out := make(Val, len(ls))
	for i, l := range ls {
		out[i] = App(fmt.Sprintf("unbox:%s#%d", shortType(types.TypeString(typ, nil)), i), l.Sort, l.lo, l.hi, ident)
	}
	return st.norm(out, typ)
}

func (t *Task) typeAssert(st *State, x *ssa.TypeAssert) Val {
	v := t.operand(st, x.X)
	var ok *Term
	var res Val
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if v[0].Op == OInt && tagTypes[v[0].Val.Int64()] != nil {
			ty := tagTypes[v[0].Val.Int64()]
			if types.Implements(ty, x.AssertedType.Underlying().(*types.Interface)) {
				ok = True
			} else {
				ok = False
			}
		} else {
			ok = And(Not(Eq(v[0], Num(0))), App("implements:"+types.TypeString(x.AssertedType, nil), BoolS, nil, nil, v[0]))
		}
		res = v
	} else {
		ok = Eq(v[0], tagOf(x.AssertedType))
		res = t.unboxIface(st, v[1], x.AssertedType)
	}
	if !x.CommaOk {
		t.check(st, "nopanic:typeassert", "panic", x.Pos(), ok)
		return res
	}
	z := zeroVal(x.AssertedType)
	out := make(Val, len(res))
	for i := range res {
		out[i] = Ite(ok, res[i], z[i])
	}
	return append(out, ok)
}

// ---- maps ----
// object "M:<type>": leaves dom (Array Int Bool), value leaves (Array Int leaf), card Int.

func mapRoot(m *types.Map) types.Type {
	k := "map:" + types.TypeString(m, nil)
	if t, ok := arrRoots[k]; ok {
		return t
	}
	fields := []*types.Var{
		types.NewField(0, nil, "dom", types.NewArray(types.Typ[types.Bool], 0), false),
		types.NewField(0, nil, "vals", types.NewArray(m.Elem(), 0), false),
		types.NewField(0, nil, "card", types.Typ[types.Int], false),
	}
	t := types.NewStruct(fields, nil)
	arrRoots[k] = t
	return t
}
func mapLoc(ref *Term, m *types.Map) *Loc {
	r := mapRoot(m)
	return &Loc{Kind: "M:" + typeKey(m.Key()) + ":" + typeKey(m.Elem()), Ref: ref, Typ: r, Root: r}
}
func (t *Task) allocMap(st *State, m *types.Map) *Term {
	ref := Num(t.newRef())
	l := mapLoc(ref, m)
	st.storeRaw(l, zeroVal(l.Root))
	return ref
}

// mapKey encodes a key value as an Int. Byte-array and string keys go through an injective
// uninterpreted function; injectivity instances are added pairwise.
func (t *Task) mapKey(st *State, k Val, typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return k[0]
		}
		if u.Info()&types.IsString != 0 {
			return t.injKey(st, "key:string", k, func(a, b Val) *Term { return strEq(a, b) })
		}
	case *types.Array:
		if len(k) == 1 && u.Len() <= 64 && k[0].Sort.Elem == IntS {
			var as []*Term
			for i := int64(0); i < u.Len(); i++ {
				as = append(as, Select(k[0], Num(i)))
			}
			return InjApp(as)
		}
		return t.injKey(st, "key:"+typeKey(typ), k, func(a, b Val) *Term { return arrayEq(a, b, u) })
	case *types.Pointer:
		return k[0]
	case *types.Struct:
		return t.injKey(st, "key:"+typeKey(typ), k, func(a, b Val) *Term { return t.equal(st, a, b, typ, typ) })
	}
	unsupported("map key type %s", typ)
	return nil
}

func (t *Task) injKey(st *State, name string, k Val, eq func(a, b Val) *Term) *Term {
	r := App(name, IntS, nil, nil, k...)
	for _, o := range t.injKeys[name] {
		if o.r == r {
			return r
		}
	}
	for _, o := range t.injKeys[name] {
		bnd := r.bound || o.r.bound
		if !bnd {
			t.facts = append(t.facts, Eq(Eq(r, o.r), eq(k, o.k)))
		}
	}
	t.injKeys[name] = append(t.injKeys[name], injRec{r, k})
	return r
}

type injRec struct {
	r *Term
	k Val
}

func (t *Task) mapUpdate(st *State, x *ssa.MapUpdate) {
	m := x.Map.Type().Underlying().(*types.Map)
	ref := t.operand(st, x.Map)[0]
	t.check(st, "nopanic:nilmap", "panic", x.Pos(), Not(Eq(ref, Num(0))))
	l := mapLoc(ref, m)
	t.frameCheck(st, l, x.Pos())
	k := t.mapKey(st, t.operand(st, x.Key), m.Key())
	st.mapSet(l, k, t.operand(st, x.Value))
}
func (st *State) mapSet(l *Loc, k *Term, v Val) {
	cur := st.loadRaw(l)
	n := len(cur)
	nv := append(Val{}, cur...)
	had := Select(cur[0], k)
	nv[0] = Store(cur[0], k, True)
	for i := range v {
		nv[1+i] = Store(cur[1+i], k, v[i])
	}
	nv[n-1] = Ite(had, cur[n-1], Add(cur[n-1], Num(1)))
	st.storeRaw(l, nv)
}
func (st *State) mapDelete(l *Loc, k *Term) {
	cur := st.loadRaw(l)
	n := len(cur)
	nv := append(Val{}, cur...)
	had := Select(cur[0], k)
	nv[0] = Store(cur[0], k, False)
	nv[n-1] = Ite(had, Sub(cur[n-1], Num(1)), cur[n-1])
	st.storeRaw(l, nv)
}

func (t *Task) lookup(st *State, x *ssa.Lookup) Val {
	if isString(x.X.Type()) {
		v := t.operand(st, x.X)
		i := t.operand(st, x.Index)[0]
		t.boundsCheck(st, i, v[2], x.Pos())
		return Val{Select(v[0], Add(v[1], i))}
	}
	m := x.X.Type().Underlying().(*types.Map)
	ref := t.operand(st, x.X)[0]
	k := t.mapKey(st, t.operand(st, x.Index), m.Key())
	cur := st.loadRaw(mapLoc(ref, m))
	had := Select(cur[0], k)
	z := zeroVal(m.Elem())
	out := make(Val, len(z))
	for i := range z {
		out[i] = Ite(had, Select(cur[1+i], k), z[i])
	}
	if d := st.decide(had); d.IsTrue() || d.IsFalse() {
		for i := range z {
			out[i] = Ite(d, Select(cur[1+i], k), z[i])
		}
		had = d
	}
	out = st.norm(out, m.Elem())
	if x.CommaOk {
		return append(append(Val{}, out...), had)
	}
	return out
}

// ---- floats (real relaxation) ----

var epsR = new(big.Rat).SetFrac(bi(1), pow2(53)) // round to nearest

// roundF returns an unknown real within relative error 2^-53 of the exact result.
func (t *Task) roundF(st *State, exact *Term) *Term {
	if exact.Op == OReal {
		return exact
	}
	r := Fresh("fl", RealS, nil, nil)
	e := RealV(epsR)
	zero := RealV(new(big.Rat))
	ab := Ite(RLe(zero, exact), exact, RMul(RealV(big.NewRat(-1, 1)), exact))
	tiny := RealV(new(big.Rat).SetFrac(bi(1), pow2(1060)))
	bound := RAdd(RMul(e, ab), tiny)
	d := RAdd(r, RMul(RealV(big.NewRat(-1, 1)), exact))
	st.assume(And(RLe(d, bound), RLe(RMul(RealV(big.NewRat(-1, 1)), bound), d)))
	return r
}
func (t *Task) floatBin(st *State, op token.Token, a, b *Term) *Term {
	switch op {
	case token.ADD:
		return t.roundF(st, RAdd(a, b))
	case token.SUB:
		return t.roundF(st, RAdd(a, RMul(RealV(big.NewRat(-1, 1)), b)))
	case token.MUL:
		return t.roundF(st, RMul(a, b))
	case token.QUO:
		if b.Op == OReal {
			r, _ := new(big.Rat).SetString(b.Name)
			if r.Sign() != 0 {
				return t.roundF(st, RMul(a, RealV(new(big.Rat).Inv(r))))
			}
		}
		q := Fresh("fdiv", RealS, nil, nil)
		zero := RealV(new(big.Rat))
		st.assume(Or(And(RLe(b, zero), RLe(zero, b)), And(RLe(RMul(q, b), a), RLe(a, RMul(q, b)))))
		return t.roundF(st, q)
	}
	unsupported("float op %s", op)
	return nil
}
func (t *Task) floatToInt(st *State, v *Term, typ types.Type, pos token.Pos) *Term {
	zero := RealV(new(big.Rat))
	tr := Ite(RLe(zero, v), ToIntT(v), Neg(ToIntT(RMul(RealV(big.NewRat(-1, 1)), v))))
	bits, s, _ := basicInt(typ)
	lo, hi := intRange(bits, s)
	in := And(Le(NumB(lo), tr), Le(tr, NumB(hi)))
	// out of range conversions give an unspecified value
	r := Fresh("f2i", IntS, lo, hi)
	st.assume(Imp(in, Eq(r, tr)))
	return r
}

// channels: receives yield arbitrary values (no concurrency is modelled)
func (t *Task) chanRecv(st *State, x *ssa.UnOp) Val {
	if x.CommaOk {
		return t.chanRecvOk(st, x)
	}
	t.trusted["channel receive yields any value"] = true
	ty := x.Type()
	v := t.resultRefs(st, freshVal("recv", ty), ty, false)
	if t.con != nil {
		c := &SpecCtx{t: t, st: st, old: t.entry, env: map[string]SV{"msg": {v: v, typ: ty}}, pkg: pkgOf(t.fn)}
		for k, x := range t.params {
			c.env[k] = x
		}
		for _, cl := range t.con.Recv {
			st.assume(c.Bool(cl))
		}
		if len(t.con.Recv) > 0 {
			t.trusted["assumed of values received from channels in "+t.name()] = true
		}
	}
	return v
}
// A channel is a pair of traces: the values its receiver gets (arbitrary, fixed in advance) with the
// number already received, and the values sent with their number, and whether it is closed. Other
// goroutines are not modelled: a receive gives the next value of the trace or says that the channel
// was closed, a send always gets through.
func chanRoot(elem types.Type) types.Type {
	k := "chan:" + types.TypeString(elem, nil)
	if t, ok := arrRoots[k]; ok {
		return t
	}
	t := types.NewStruct([]*types.Var{
		types.NewField(0, nil, "rcvd", types.NewArray(elem, 0), false),
		types.NewField(0, nil, "rn", types.Typ[types.Int], false),
		types.NewField(0, nil, "sent", types.NewArray(elem, 0), false),
		types.NewField(0, nil, "sn", types.Typ[types.Int], false),
		types.NewField(0, nil, "closed", types.Typ[types.Bool], false),
	}, nil)
	arrRoots[k] = t
	return t
}
func chanLoc(ref *Term, elem types.Type) *Loc {
	r := chanRoot(elem)
	return &Loc{Kind: "CH:" + typeKey(elem), Ref: ref, Typ: r, Root: r}
}

const chanAssume = "channels: a send always gets through, a receive gives an arbitrary next value or the end, and other goroutines change nothing that the function reads"

func (t *Task) chanRecvOk(st *State, x *ssa.UnOp) Val {
	elem := x.X.Type().Underlying().(*types.Chan).Elem()
	t.trusted[chanAssume] = true
	l := chanLoc(t.operand(st, x.X)[0], elem)
	t.frameCheck(st, l, x.Pos())
	cur := st.loadRaw(l)
	k := nLeaves(elem)
	ok := Fresh("recvok", BoolS, nil, nil)
	z := zeroVal(elem)
	got := make(Val, k)
	for i := range got {
		got[i] = Select(cur[i], cur[k])
	}
	got = st.norm(got, elem)
	out := make(Val, k)
	for i := range out {
		out[i] = Ite(ok, got[i], z[i])
	}
	nv := append(Val{}, cur...)
	nv[k] = Ite(ok, Add(cur[k], Num(1)), cur[k])
	st.assume(Ge0(cur[k]))
	st.assume(Le(cur[k], NumB(maxLen)))
	st.storeRaw(l, nv)
	return append(out, ok)
}
func (t *Task) chanSend(st *State, x *ssa.Send) {
	elem := x.Chan.Type().Underlying().(*types.Chan).Elem()
	t.trusted[chanAssume] = true
	ref := t.operand(st, x.Chan)[0]
	v := t.operand(st, x.X)
	l := chanLoc(ref, elem)
	t.frameCheck(st, l, x.Pos())
	cur := st.loadRaw(l)
	k := nLeaves(elem)
	t.check(st, "nopanic:send on closed", "panic", x.Pos(), Not(cur[2*k+2]))
	sn := cur[2*k+1]
	st.assume(Ge0(sn))
	st.assume(Le(sn, NumB(maxLen)))
	nv := append(Val{}, cur...)
	for i := range v {
		nv[k+1+i] = Store(cur[k+1+i], sn, v[i])
	}
	nv[2*k+1] = Add(sn, Num(1))
	st.storeRaw(l, nv)
}
