package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/KitchenMishap/pudding-shed"

func fnKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fnKey(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	if fn.Pkg == nil {
		return fn.String()
	}
	return fn.Pkg.Pkg.Path() + "." + fn.RelString(fn.Pkg.Pkg)
}
func fnShort(fn *ssa.Function) string { return shortType(fnKey(fn)) }

func (t *Task) callDeferred(st *State, d deferred) []Outcome {
	return t.dispatch(st, d.call, d.fnv, d.args, d.pos.Pos())
}

func (t *Task) call(st *State, c *ssa.CallCommon, in ssa.Instruction, _ any) []Outcome {
	var args []Val
	for _, a := range c.Args {
		args = append(args, t.operand(st, a))
	}
	var fv Val
	if c.IsInvoke() {
		fv = t.operand(st, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = t.operand(st, c.Value)
	}
	return t.dispatch(st, c, fv, args, in.Pos())
}

func (t *Task) dispatch(st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos) []Outcome {
	if c.IsInvoke() {
		// dynamic dispatch
		if r := st.Rng(fv[0]); fv[0].Op != OInt && r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) == 0 {
			fv = append(Val{NumB(r.lo)}, fv[1:]...)
		}
		t.check(st, "nopanic:nilinterface", "panic", pos, Not(Eq(fv[0], Num(0))))
		if fv[0].Op == OInt && fv[0].Val.Sign() == 0 {
			return nil
		}
		if fv[0].Op == OInt {
			if ty := tagTypes[fv[0].Val.Int64()]; ty != nil && ty == statNamed && c.Method.Name() == "Size" {
				return []Outcome{{st, t.unboxIface(st, fv[1], ty)}}
			} else if ty != nil && !types.IsInterface(ty) {
				sel := t.eng.prog.MethodSets.MethodSet(ty).Lookup(c.Method.Pkg(), c.Method.Name())
				if sel == nil {
					unsupported("method %s on %s", c.Method.Name(), ty)
				}
				m := t.eng.prog.MethodValue(sel)
				recv := t.unboxIface(st, fv[1], ty)
				return t.callFn(st, m, append([]Val{recv}, args...), nil, pos)
			}
		}
		return t.invokeOpaque(st, c, fv, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return t.builtin(st, b, c, args, pos)
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []Val
		if fv[0].Op == OInt {
			if e, ok := t.exotics[fv[0].Val.Int64()]; ok && e.Fn != nil {
				bind = e.Bind
			}
		}
		return t.callFn(st, fn, args, bind, pos)
	}
	if fv[0].Op == OInt {
		if e, ok := t.exotics[fv[0].Val.Int64()]; ok && e.Fn != nil {
			return t.callFn(st, e.Fn, args, e.Bind, pos)
		}
	}
	unsupported("call through unknown function value")
	return nil
}

func (t *Task) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos) []Outcome {
	if fn.Synthetic != "" && fn.Blocks != nil && (strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk") || strings.HasPrefix(fn.Synthetic, "promot")) {
		return t.inlineCall(st, fn, args, bind)
	}
	if outs, ok := t.libCall(st, fn, args, pos); ok {
		return outs
	}
	key := fnKey(fn)
	if con := t.eng.specs.Contracts[key]; con != nil && !con.Inline && !(t.con != nil && t.con.InlineCallees[con.shortName()]) {
		if fn != t.fn || t.inBody > 0 {
			return t.applyContract(st, fn, con, args, pos)
		}
	}
	if fn.Pkg == nil && fn.Blocks == nil {
		unsupported("external function %s", fn)
	}
	if fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && fn.Parent() == nil {
		unsupported("library function %s (no model)", fn)
	}
	for i := range t.frameFns {
		if t.frameFns[i] == fn {
			unsupported("recursion through %s without contract", fn)
		}
	}
	return t.inlineCall(st, fn, args, bind)
}

func (c *Contract) shortName() string {
	k := strings.TrimPrefix(c.Key, modPath+"/"+c.Pkg+".")
	return k
}

func (t *Task) inlineCall(st *State, fn *ssa.Function, args []Val, bind []Val) []Outcome {
	if fn.Blocks == nil {
		unsupported("no body for %s", fn)
	}
	t.inlined[fnKey(fn)] = true
	t.frameFns = append(t.frameFns, fn)
	outs := t.execFunc(st, fn, args, bind)
	t.frameFns = t.frameFns[:len(t.frameFns)-1]
	return outs
}

// ---- contracts at call sites ----

func (t *Task) calleeCtx(st *State, fn *ssa.Function, args []Val) *SpecCtx {
	env := map[string]SV{}
	for i, p := range fn.Params {
		env[p.Name()] = SV{v: args[i], typ: p.Type()}
		if i == 0 && fn.Signature.Recv() != nil {
			env["recv"] = env[p.Name()]
			env["arg0"] = env[p.Name()]
		}
		env[fmt.Sprintf("arg%d", i)] = env[p.Name()]
	}
	t.eng.oldParams(fn, func(i int, old string) { env[old] = env[fn.Params[i].Name()] })
	if len(fn.Params) == 0 && fn.Signature.Recv() == nil { // no body loaded: names from the signature
		for i := 0; i < fn.Signature.Params().Len() && i < len(args); i++ {
			p := fn.Signature.Params().At(i)
			env[p.Name()] = SV{v: args[i], typ: p.Type()}
			env[fmt.Sprintf("arg%d", i)] = env[p.Name()]
		}
	}
	return &SpecCtx{t: t, st: st, env: env, pkg: pkgOf(fn)}
}

func (t *Task) applyContract(st *State, fn *ssa.Function, con *Contract, args []Val, pos token.Pos) []Outcome {
	t.usedContracts[con.Key] = true
	if con.Trusted {
		t.trusted[con.Key] = true
	}
	c := t.calleeCtx(st, fn, args)
	sn := con.shortName()
	for p, ty := range con.Dyn {
		t.emit(st, fmt.Sprintf("call %s:dyntype[%s]", sn, p), "precondition", pos, Eq(c.env[p].v[0], tagOf(t.eng.lookupType(ty))))
	}
	for _, s := range con.Setup {
		// structural precondition: lhs denotes exactly rhs
		if l, p := c.glLoc(s.Label); l != nil {
			g := Or(Eq(p, Num(0)), Eq(st.loadRaw(l)[0], c.eval(s.Expr).v[0]))
			t.emit(st, fmt.Sprintf("call %s:setup[%s]", sn, s.Label), "precondition", pos, g)
			continue
		}
		lhs := parseExprMust(s.Label)
		a, b := c.eval(lhs), c.eval(s.Expr)
		var cs []*Term
		for k := range a.v {
			if k == 3 {
				continue // capacity
			}
			cs = append(cs, Eq(a.v[k], b.v[k]))
		}
		t.emit(st, fmt.Sprintf("call %s:setup[%s]", sn, s.Label), "precondition", pos, And(cs...))
	}
	for _, r := range con.Requires {
		g := c.Bool(r)
		t.emit(st, fmt.Sprintf("call %s:requires[%s]", sn, r.Label), "precondition", pos, g)
		st.assume(g)
	}
	for _, l := range con.Lets {
		c.env[l.Label] = c.eval(l.Expr)
	}
	if len(con.PanicsIf) > 0 {
		var cs []*Term
		for _, p := range con.PanicsIf {
			cs = append(cs, c.Bool(p))
		}
		t.check(st, fmt.Sprintf("nopanic:call %s", sn), "panic", pos, Not(Or(cs...)))
	}
	old := st.clone()
	mods := t.evalMods(c, con)
	for _, m := range mods {
		t.frameCheckMod(st, m, pos)
		t.havocMod(st, m)
	}
	// results
	rt := fn.Signature.Results()
	var res Val
	var svs []SV
	fixed := map[int]SV{}
	for _, r := range con.Returns {
		k := 0
		if len(r.Label) > 6 {
			k = int(r.Label[6] - '0')
		}
		oc := *c
		oc.old = old
		fixed[k] = oc.eval(r.Expr)
	}
	freshSet := map[string]bool{}
	for _, f := range con.Fresh {
		freshSet[f] = true
	}
	for i := 0; i < rt.Len(); i++ {
		ty := rt.At(i).Type()
		var v Val
		if f, ok := fixed[i]; ok {
			v = f.v
		} else {
			v = freshVal("R:"+shortType(con.Key)+fmt.Sprint(i), ty)
			v = t.resultRefs(st, v, ty, freshSet[fmt.Sprintf("result%d", i)] || (i == 0 && freshSet["result"]))
		}
		svs = append(svs, SV{v: v, typ: ty})
		res = append(res, v...)
	}
	_ = res
	return t.assumeEnsures(st, con.Ensures, svs, func(st *State, svs []SV) *SpecCtx {
		c2 := *c
		c2.st = st
		c2.old = old
		c2.res = svs
		bindNamedResults(&c2, fn, svs)
		return &c2
	})
}

// resultRefs: references in results denote objects not otherwise known; pointers may be nil.
func (t *Task) resultRefs(st *State, v Val, ty types.Type, fresh bool) Val {
	out := append(Val{}, v...)
	for j, l := range leavesOf(ty) {
		if l.Depth > 0 {
			continue
		}
		switch l.Role {
		case "ptr":
			t.nilable[out[j].ID] = true
		case "ref", "map", "chan":
			n := t.newMat()
			if fresh {
				n = t.newRef()
			}
			st.assume(Eq(v[j], Num(n)))
			out[j] = Num(n)
			if l.Role == "ref" {
				out[j+1] = Num(0)
				st.assume(Eq(v[j+1], Num(0)))
				st.assume(Le(v[j+2], v[j+3]))
			}
		case "soff":
			st.assume(Eq(v[j], Num(0)))
			out[j] = Num(0)
		case "ident":
			n := t.newMat()
			st.assume(Eq(v[j], Num(n)))
			out[j] = Num(n)
		}
	}
	return out
}

func bindNamedResults(c *SpecCtx, fn *ssa.Function, svs []SV) {
	rt := fn.Signature.Results()
	env := map[string]SV{}
	for k, v := range c.env {
		env[k] = v
	}
	for i := 0; i < rt.Len(); i++ {
		if n := rt.At(i).Name(); n != "" && n != "_" {
			env[n] = svs[i]
		}
	}
	if r := c.t.eng.nameRec(fn); r != nil && len(r.Results) == rt.Len() {
		for i, o := range r.Results {
			if o != "" && o != "_" {
				if _, taken := env[o]; !taken {
					env[o] = svs[i]
				}
			}
		}
	}
	if n := rt.Len(); n > 0 && isErrorType(rt.At(n-1).Type()) {
		if _, taken := env["err"]; !taken {
			env["err"] = svs[n-1]
		}
	}
	c.env = env
}

// ---- frames ----

type modLoc struct {
	kind    string
	ref     *Term
	lo      int
	n       int
	off, ln *Term // element range for arrays (nil = all)
	loc     *Loc
	what    string
	ghost   string
}

func (t *Task) evalMods(c *SpecCtx, con *Contract) []modLoc {
	var out []modLoc
	for _, m := range con.Modifies {
		out = append(out, t.evalMod(c, m)...)
	}
	return out
}

func (t *Task) evalMod(c *SpecCtx, m Clause) []modLoc {
	if x, ok := callOf(m.Expr, "elems"); ok {
		v := c.eval(x[0])
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			l := c.st.arrLoc(v.v[0], u.Elem())
			return []modLoc{{kind: l.Kind, ref: l.Ref, lo: l.Lo, n: nLeaves(l.Typ), off: v.v[1], ln: v.v[2], loc: l, what: m.Text}}
		case *types.Pointer:
			l := c.st.deref(v.v[0], u.Elem())
			return []modLoc{{kind: l.Kind, ref: l.Ref, lo: l.Lo, n: nLeaves(l.Typ), loc: l, what: m.Text}}
		}
		specFail("elems of %s", v.typ)
	}
	if x, ok := callOf(m.Expr, "allelems"); ok {
		v := c.eval(x[0])
		u := v.typ.Underlying().(*types.Slice)
		l := c.st.arrLoc(v.v[0], u.Elem())
		return []modLoc{{kind: l.Kind, ref: l.Ref, lo: l.Lo, n: nLeaves(l.Typ), loc: l, what: m.Text}}
	}
	if x, ok := callOf(m.Expr, "file"); ok {
		v := c.eval(x[0])
		fid := t.fileID(c.st, v.v, v.typ)
		l := fsLoc(fid)
		out := []modLoc{{kind: l.Kind, ref: l.Ref, lo: 0, n: 3, loc: l, what: m.Text}}
		if p := osFilePtr(v); p != nil {
			pl := osFileLoc(t, c.st, p)
			pl.Lo = 1
			pl.Typ = types.Typ[types.Int]
			out = append(out, modLoc{kind: pl.Kind, ref: pl.Ref, lo: 1, n: 1, loc: pl, what: m.Text})
		}
		return out
	}
	if x, ok := callOf(m.Expr, "ghost"); ok {
		l := c.ghostLoc(x)
		return []modLoc{{kind: l.Kind, ref: l.Ref, lo: 0, n: 1, loc: l, what: m.Text}}
	}
	if x, ok := callOf(m.Expr, "chanof"); ok {
		v := c.eval(x[0])
		l := chanLoc(v.v[0], v.typ.Underlying().(*types.Chan).Elem())
		return []modLoc{{kind: l.Kind, ref: l.Ref, lo: 0, n: nLeaves(l.Typ), loc: l, what: m.Text}}
	}
	if x, ok := callOf(m.Expr, "mapof"); ok {
		v := c.eval(x[0])
		l := mapLoc(v.v[0], v.typ.Underlying().(*types.Map))
		return []modLoc{{kind: l.Kind, ref: l.Ref, lo: 0, n: nLeaves(l.Typ), loc: l, what: m.Text}}
	}
	l := c.loc(m.Expr)
	return []modLoc{{kind: l.Kind, ref: l.Ref, lo: l.Lo, n: nLeaves(l.Typ), loc: l, what: m.Text}}
}

func (t *Task) frameCheck(st *State, l *Loc, pos token.Pos) {
	if t.quiet > 0 || t.inBody == 0 || t.modAll {
		return
	}
	if strings.HasPrefix(l.Kind, "L:") {
		return
	}
	if l.Ref != nil && l.Ref.Op == OInt {
		if n := l.Ref.Val.Int64(); n >= freshBase && n < exoticBase {
			return
		}
	}
	n := nLeaves(l.Typ)
	for _, m := range t.modset {
		if m.kind != l.Kind || m.ref != l.Ref {
			continue
		}
		if l.Lo < m.lo || l.Lo+n > m.lo+m.n {
			continue
		}
		if m.off == nil || len(l.Idx) == 0 && m.loc != nil && len(m.loc.Idx) == 0 && m.off == nil {
			return
		}
		if len(l.Idx) > len(m.loc.Idx) {
			i := l.Idx[len(m.loc.Idx)]
			g := And(Le(m.off, i), Lt(i, Add(m.off, m.ln)))
			if st.decide(g).IsTrue() {
				return
			}
			t.emit(st, fmt.Sprintf("frame:%s within bounds", m.what), "frame", pos, g)
			return
		}
		return
	}
	// symbolic references: allowed only when provably equal to one in the set
	if l.Ref != nil && l.Ref.Op != OInt {
		var cs []*Term
		for _, m := range t.modset {
			if m.kind == l.Kind && m.ref != nil && l.Lo >= m.lo && l.Lo+n <= m.lo+m.n {
				cs = append(cs, Eq(m.ref, l.Ref))
			}
		}
		cs = append(cs, Le(Num(freshBase), l.Ref))
		t.emit(st, fmt.Sprintf("frame:write to %s", shortType(l.Kind)), "frame", pos, Or(cs...))
		return
	}
	name := shortType(l.Kind)
	ls := leavesOf(l.Root)
	if l.Lo < len(ls) && ls[l.Lo].Name != "" {
		name += "." + ls[l.Lo].Name
	}
	t.emit(st, fmt.Sprintf("frame:write to %s", name), "frame", pos, False)
}

func (t *Task) frameCheckMod(st *State, m modLoc, pos token.Pos) {
	if t.quiet > 0 || t.inBody == 0 || t.modAll {
		return
	}
	l := *m.loc
	if m.off != nil {
		// range must lie in an allowed range
		if strings.HasPrefix(l.Kind, "L:") {
			return
		}
		if l.Ref != nil && l.Ref.Op == OInt {
			if n := l.Ref.Val.Int64(); n >= freshBase && n < exoticBase {
				return
			}
		}
		for _, a := range t.modset {
			if a.kind == m.kind && a.ref == m.ref && m.lo >= a.lo && m.lo+m.n <= a.lo+a.n {
				if a.off == nil {
					return
				}
				g := Or(Le(m.ln, Num(0)), And(Le(a.off, m.off), Le(Add(m.off, m.ln), Add(a.off, a.ln))))
				if !st.decide(g).IsTrue() {
					t.emit(st, "frame:callee modifies "+m.what, "frame", pos, g)
				}
				return
			}
		}
	}
	t.frameCheck(st, &l, pos)
}

func (t *Task) havocMod(st *State, m modLoc) {
	cur := st.loadRaw(m.loc)
	nv := make(Val, len(cur))
	for j := range cur {
		lf := leavesOf(m.loc.Typ)[j]
		hi := lf.hi
		f := Fresh("m:"+shortType(m.kind)+"."+lf.Name, cur[j].Sort, lf.lo, hi)
		nv[j] = f
		if m.off != nil {
			if m.ln.Op == OInt && m.off.Op == OInt && m.ln.Val.Int64() <= 64 {
				a := cur[j]
				for k := int64(0); k < m.ln.Val.Int64(); k++ {
					idx := Add(m.off, Num(k))
					a = Store(a, idx, Select(f, idx))
				}
				nv[j] = a
			} else {
				i := BoundVar("i")
				st.assume(Forall(i, Imp(Or(Lt(i, m.off), Le(Add(m.off, m.ln), i)), Eq(Select(f, i), Select(cur[j], i)))))
			}
		}
	}
	st.storeRaw(m.loc, nv)
}

// pkgOf gives the package of a function; an instance of a generic function belongs to that of its origin.
func pkgOf(fn *ssa.Function) *types.Package {
	for fn.Pkg == nil {
		switch {
		case fn.Parent() != nil:
			fn = fn.Parent()
		case fn.Origin() != nil && fn.Origin() != fn:
			fn = fn.Origin()
		default:
			unsupported("package of %s", fn)
		}
	}
	return fn.Pkg.Pkg
}
