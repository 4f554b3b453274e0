package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var u8 = types.Typ[types.Uint8]

func parseExprMust(s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		specFail("bad expression %q: %v", s, err)
	}
	return e
}
func callOf(e ast.Expr, name string) ([]ast.Expr, bool) {
	if c, ok := e.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == name {
			return c.Args, true
		}
	}
	return nil, false
}

// ---- builtins ----

func (t *Task) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) []Outcome {
	one := func(v Val) []Outcome { return []Outcome{{st, v}} }
	switch b.Name() {
	case "ssa:deferstack":
		return one(Val{Num(0)})
	case "len", "cap":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return one(Val{args[0][3]})
			}
			return one(Val{args[0][2]})
		case *types.Basic:
			return one(Val{args[0][2]})
		case *types.Map:
			cur := st.loadRaw(mapLoc(args[0][0], u))
			n := cur[len(cur)-1]
			st.assume(Ge0(n))
			if !n.IsInt() {
				// the count of a map is zero only when no key is in it
				k := BoundVar("k")
				st.assume(Forall(k, Or(Not(Select(cur[0], k)), Lt(Num(0), n))))
			}
			return one(Val{n})
		case *types.Array:
			return one(Val{Num(u.Len())})
		case *types.Pointer:
			return one(Val{Num(u.Elem().Underlying().(*types.Array).Len())})
		}
	case "copy":
		dst, src := args[0], args[1]
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if isString(c.Args[1].Type()) {
			n := Ite(Le(dst[2], src[2]), dst[2], src[2])
			t.blockStore(st, dst, et, n, func(i *Term) Val { return Val{Select(src[0], Add(src[1], i))} }, pos)
			return one(Val{n})
		}
		n := t.minT(st, dst[2], src[2])
		old := st.loadRaw(st.arrLoc(src[0], et))
		t.blockStore(st, dst, et, n, func(i *Term) Val {
			out := make(Val, len(old))
			for k := range old {
				out[k] = Select(old[k], Add(src[1], i))
			}
			return out
		}, pos)
		return one(Val{n})
	case "append":
		return one(t.appendOp(st, c, args, pos))
	case "min", "max":
		r := args[0][0]
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = Ite(Le(r, a[0]), r, a[0])
			} else {
				r = Ite(Le(a[0], r), r, a[0])
			}
		}
		return one(Val{r})
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		l := mapLoc(args[0][0], m)
		t.frameCheck(st, l, pos)
		st.mapDelete(l, t.mapKey(st, args[1], m.Key()))
		return one(nil)
	case "print", "println":
		return one(nil)
	case "close":
		elem := c.Args[0].Type().Underlying().(*types.Chan).Elem()
		l := chanLoc(args[0][0], elem)
		t.frameCheck(st, l, pos)
		cur := st.loadRaw(l)
		n := len(cur)
		t.check(st, "nopanic:close of closed", "panic", pos, Not(cur[n-1]))
		nv := append(Val{}, cur...)
		nv[n-1] = True
		st.storeRaw(l, nv)
		return one(nil)
	case "panic":
		t.check(st, "nopanic:explicit", "panic", pos, False)
		return nil
	case "clear":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Map:
			l := mapLoc(args[0][0], u)
			t.frameCheck(st, l, pos)
			st.storeRaw(l, zeroVal(l.Root))
			return one(nil)
		case *types.Slice:
			z := zeroVal(u.Elem())
			t.blockStore(st, args[0], u.Elem(), args[0][2], func(*Term) Val { return z }, pos)
			return one(nil)
		}
	}
	unsupported("builtin %s", b.Name())
	return nil
}

func (t *Task) minT(st *State, a, b *Term) *Term {
	d := st.decide(Le(a, b))
	if d.IsTrue() {
		return a
	}
	if st.decide(Le(b, a)).IsTrue() {
		return b
	}
	switch t.quickDecide(st, Le(a, b)) {
	case 1:
		st.assume(Le(a, b))
		return a
	}
	switch t.quickDecide(st, Le(b, a)) {
	case 1:
		st.assume(Le(b, a))
		return b
	}
	return Ite(Le(a, b), a, b)
}

// blockStore sets dst[0..n) to f(i).
func (t *Task) blockStore(st *State, dst Val, et types.Type, n *Term, f func(i *Term) Val, pos token.Pos) {
	if n.Op == OInt && n.Val.Sign() == 0 {
		return
	}
	l := st.arrLoc(dst[0], et)
	t.frameCheckMod(st, modLoc{kind: l.Kind, ref: l.Ref, lo: l.Lo, n: nLeaves(l.Typ), off: dst[1], ln: n, loc: l, what: "block write"}, pos)
	cur := st.loadRaw(l)
	nv := append(Val{}, cur...)
	if n.Op == OInt && n.Val.Cmp(bi(80)) <= 0 {
		for i := int64(0); i < n.Val.Int64(); i++ {
			v := f(Num(i))
			for k := range nv {
				nv[k] = Store(nv[k], Add(dst[1], Num(i)), v[k])
			}
		}
	} else {
		for k := range nv {
			lf := leavesOf(l.Typ)[k]
			fr := Fresh("blk", cur[k].Sort, lf.lo, lf.hi)
			i := BoundVar("i")
			idx := Sub(i, dst[1])
			in := And(Le(dst[1], i), Lt(i, Add(dst[1], n)))
			st.assume(Forall(i, Eq(Select(fr, i), Ite(in, f(idx)[k], Select(cur[k], i)))))
			nv[k] = fr
		}
	}
	st.storeRaw(l, nv)
}

func (t *Task) appendOp(st *State, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	sl := args[0]
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if len(args) == 1 {
		return sl
	}
	var n *Term
	var get func(i *Term) Val
	if isString(c.Args[1].Type()) {
		s := args[1]
		n = s[2]
		get = func(i *Term) Val { return Val{Select(s[0], Add(s[1], i))} }
	} else {
		s := args[1]
		n = s[2]
		old := st.loadRaw(st.arrLoc(s[0], et))
		get = func(i *Term) Val {
			out := make(Val, len(old))
			for k := range old {
				out[k] = Select(old[k], Add(s[1], i))
			}
			return out
		}
	}
	return t.appendN(st, sl, et, n, get, pos)
}

// appendN appends n elements given by get.
func (t *Task) appendN(st *State, sl Val, et types.Type, n *Term, get func(i *Term) Val, pos token.Pos) Val {
	if n.Op == OInt && n.Val.Sign() == 0 {
		return sl
	}
	base := st.loadRaw(st.arrLoc(sl[0], et))
	isNilOrEmpty := sl[2].Op == OInt && sl[2].Val.Sign() == 0
	ref := Num(t.newRef())
	root := arrRoot(et)
	l := &Loc{Kind: sliceKind(et), Ref: ref, Typ: root, Root: root}
	nl := Add(sl[2], n)
	nv := make(Val, len(base))
	for k := range base {
		lf := leavesOf(root)[k]
		switch {
		case sl[1].Op == OInt && sl[1].Val.Sign() == 0:
			nv[k] = base[k]
		case isNilOrEmpty:
			nv[k] = ConstArr(base[k].Sort, defaultTerm(base[k].Sort.Elem))
		default:
			nv[k] = t.copyArr2(st, base[k], sl[1], sl[2], lf)
		}
	}
	if n.Op == OInt && n.Val.Cmp(bi(80)) <= 0 {
		for i := int64(0); i < n.Val.Int64(); i++ {
			v := get(Num(i))
			for k := range nv {
				nv[k] = Store(nv[k], Add(sl[2], Num(i)), v[k])
			}
		}
	} else {
		for k := range nv {
			lf := leavesOf(root)[k]
			fr := Fresh("app", nv[k].Sort, lf.lo, lf.hi)
			i := BoundVar("i")
			in := And(Le(sl[2], i), Lt(i, nl))
			st.assume(Forall(i, Eq(Select(fr, i), Ite(in, get(Sub(i, sl[2]))[k], Select(nv[k], i)))))
			nv[k] = fr
		}
	}
	st.storeRaw(l, nv)
	cp := Fresh("cap", IntS, bi(0), maxLen)
	st.assume(Le(nl, cp))
	return Val{ref, Num(0), nl, cp}
}

func (t *Task) copyArr2(st *State, a, off, n *Term, lf Leaf) *Term {
	if n.Op == OInt && n.Val.Cmp(bi(80)) <= 0 {
		return t.copyArr(st, a, off, n)
	}
	r := Fresh("cp", a.Sort, lf.lo, lf.hi)
	i := BoundVar("i")
	st.assume(Forall(i, Imp(And(Ge0(i), Lt(i, n)), Eq(Select(r, i), Select(a, Add(off, i))))))
	return r
}

// ---- files ----

func fsRootType() types.Type {
	if t, ok := arrRoots["FS"]; ok {
		return t
	}
	t := types.NewStruct([]*types.Var{
		types.NewField(0, nil, "data", types.NewArray(types.Typ[types.Uint8], 0), false),
		types.NewField(0, nil, "size", types.Typ[types.Uint32], false),
		types.NewField(0, nil, "exists", types.Typ[types.Bool], false),
	}, nil)
	ls := []Leaf{
		{Name: "data", Sort: ArrS(IntS), lo: bi(0), hi: bi(255), Role: "int", Depth: 1},
		{Name: "size", Sort: IntS, lo: bi(0), hi: maxLen, Role: "int"},
		{Name: "exists", Sort: BoolS, Role: "bool"},
	}
	leafMemo[t] = ls
	arrRoots["FS"] = t
	return t
}
func fsLoc(fid *Term) *Loc {
	r := fsRootType()
	return &Loc{Kind: "FS", Ref: fid, Typ: r, Root: r}
}
func osFileLoc(t *Task, st *State, p *Term) *Loc {
	ty := t.eng.lookupType("os.File")
	return rootLoc(p, ty)
}
func osFilePtr(v SV) *Term {
	if v.typ == nil {
		return nil
	}
	if p, ok := v.typ.Underlying().(*types.Pointer); ok && types.TypeString(p.Elem(), nil) == "os.File" {
		return v.v[0]
	}
	return nil
}

func (t *Task) fileID(st *State, v Val, typ types.Type) *Term {
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		if types.TypeString(p.Elem(), nil) != "os.File" {
			specFail("not a file: %s", typ)
		}
		return t.osFid(st, v[0])
	}
	if _, ok := typ.Underlying().(*types.Interface); ok {
		if v[0].Op == OInt {
			if ty := tagTypes[v[0].Val.Int64()]; ty != nil {
				if ty.String() == "*os.File" {
					return t.osFid(st, v[1])
				}
				specFail("file view of dynamic type %s", ty)
			}
		}
		return v[1]
	}
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return t.pathFid(st, v)
	}
	specFail("not a file: %s", typ)
	return nil
}

// pathFid is the file a path names: equal paths name the same file, different paths different ones.
func (t *Task) pathFid(st *State, path Val) *Term {
	return t.injKey(st, "path", path, func(a, b Val) *Term { return strEq(a, b) })
}
func (t *Task) osFid(st *State, p *Term) *Term {
	l := st.deref(p, t.eng.lookupType("os.File"))
	f := st.loadRaw(l)[0]
	return t.resolveRef(st, f, "fid")
}

func errVal(t *Task, name string) Val {
	// a fresh non-nil error
	id := Fresh("err", IntS, bi(1), maxRef)
	return Val{tagOf(types.Universe.Lookup("error").Type()), id}
}
func nilErr() Val { return Val{Num(0), Num(0)} }

func (t *Task) eofErr(st *State) Val {
	return Val{tagOf(types.Universe.Lookup("error").Type()), t.exotic(&Exotic{Name: "G:io.EOF"})}
}

// readAt models ReadAt on a flat byte file.
func (t *Task) readAt(st *State, fid *Term, buf Val, off *Term, pos token.Pos) []Outcome {
	l := fsLoc(fid)
	fs := st.loadRaw(l)
	okc := And(Ge0(off), Le(Add(off, buf[2]), fs[1]))
	var outs []Outcome
	d := st.decide(okc)
	if !d.IsTrue() {
		switch t.quickDecide(st, okc) {
		case 1:
			d = True
		case -1:
			d = False
		}
	}
	// failure
	s2 := st.clone()
	s2.assume(Or(Not(iook()), Not(okc)))
	{
		n := Fresh("nread", IntS, bi(0), maxLen)
		s2.assume(Le(n, buf[2]))
		m := modLoc{off: buf[1], ln: buf[2], loc: s2.arrLoc(buf[0], u8), what: "read buffer"}
		m.kind, m.ref, m.lo, m.n = m.loc.Kind, m.loc.Ref, m.loc.Lo, 1
		t.frameCheckMod(s2, m, pos)
		t.havocMod(s2, m)
		e := errVal(t, "readat")
		s2.assume(Imp(And(iook(), Ge0(off)), And(Eq(e[1], t.eofErr(s2)[1]),
			Eq(n, Ite(Le(fs[1], off), Num(0), Sub(fs[1], off))))))
		// the bytes that were read are correct
		if !d.IsTrue() {
			i := BoundVar("i")
			nb := s2.loadRaw(s2.arrLoc(buf[0], u8))
			s2.assume(Imp(iook(), Forall(i, Imp(And(Ge0(i), Lt(i, n)), Eq(Select(nb[0], Add(buf[1], i)), Select(fs[0], Add(off, i)))))))
		}
		outs = append(outs, Outcome{s2, append(Val{n}, e...)})
	}
	if !d.IsFalse() {
		st.assume(okc)
		t.blockStore(st, buf, u8, buf[2], func(i *Term) Val { return Val{Select(fs[0], Add(off, i))} }, pos)
		outs = append(outs, Outcome{st, append(Val{buf[2]}, nilErr()...)})
	}
	return outs
}

// writeAt models WriteAt on a flat byte file (sparse extension reads as zero).
func (t *Task) writeAt(st *State, fid *Term, buf Val, off *Term, pos token.Pos) []Outcome {
	l := fsLoc(fid)
	t.frameCheck(st, l, pos)
	s2 := st.clone()
	s2.assume(Or(Not(iook()), Lt(off, Num(0))))
	n := Fresh("nwritten", IntS, bi(0), maxLen)
	s2.assume(Le(n, buf[2]))
	t.havocMod(s2, modLoc{kind: l.Kind, ref: l.Ref, lo: 0, n: 3, loc: l})
	outs := []Outcome{{s2, append(Val{n}, errVal(t, "writeat")...)}}
	if !st.decide(Ge0(off)).IsFalse() {
		st.assume(Ge0(off))
		src := st.loadRaw(st.arrLoc(buf[0], u8))[0]
		t.fileOverlay(st, l, off, buf[2], func(i *Term) *Term { return Select(src, Add(buf[1], i)) })
		outs = append(outs, Outcome{st, append(Val{buf[2]}, nilErr()...)})
	}
	return outs
}

// fileOverlay writes n bytes f(0..n) at off, zero-filling any gap.
func (t *Task) fileOverlay(st *State, l *Loc, off, n *Term, f func(i *Term) *Term) {
	fs := st.loadRaw(l)
	data := fs[0]
	gap := st.decide(Lt(fs[1], off))
	if !gap.IsFalse() && t.quickDecide(st, Le(off, fs[1])) == 1 {
		gap = False
	}
	if !gap.IsFalse() {
		g := Fresh("fgap", data.Sort, bi(0), bi(255))
		i := BoundVar("i")
		st.assume(Forall(i, Eq(Select(g, i), Ite(And(Le(fs[1], i), Lt(i, off)), Num(0), Select(data, i)))))
		data = g
	}
	if n.Op == OInt && n.Val.Cmp(bi(80)) <= 0 {
		for i := int64(0); i < n.Val.Int64(); i++ {
			data = Store(data, Add(off, Num(i)), f(Num(i)))
		}
	} else {
		d := Fresh("fdata", data.Sort, bi(0), bi(255))
		i := BoundVar("i")
		st.assume(Forall(i, Eq(Select(d, i), Ite(And(Le(off, i), Lt(i, Add(off, n))), f(Sub(i, off)), Select(data, i)))))
		data = d
	}
	end := Add(off, n)
	size := fs[1]
	if dd := st.decide(Le(end, size)); dd.IsTrue() {
	} else if dd.IsFalse() || st.decide(Le(size, end)).IsTrue() {
		size = end
	} else {
		size = Ite(Le(end, size), size, end)
	}
	// writing nothing leaves the file alone
	if !(n.Op == OInt && n.Val.Sign() > 0) {
		size = Ite(Eq(n, Num(0)), fs[1], size)
		data = Ite(Eq(n, Num(0)), fs[0], data)
	}
	st.storeRaw(l, Val{data, size, True})
}

// okOrErr: an operation without other effects that may fail on I/O error.
func (t *Task) okOrErr(st *State) []Outcome {
	s2 := st.clone()
	s2.assume(Not(iook()))
	return []Outcome{{s2, errVal(t, "io")}, {st, nilErr()}}
}

// ---- opaque interfaces: flat-file contract on file-like interfaces ----

func (t *Task) invokeOpaque(st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos) []Outcome {
	m := c.Method
	recv := c.Value.Type()
	iname := types.TypeString(recv, nil)
	// user interface contracts: key  pkg.Iface.Method
	key := iname + "." + m.Name()
	if con := t.eng.specs.Contracts[key]; con != nil {
		return t.applyIfaceContract(st, c, con, fv, args, pos)
	}
	// method declared in an embedded interface
	if con := t.eng.ifaceContract(m.Type().(*types.Signature).Recv().Type(), m.Name()); con != nil {
		return t.applyIfaceContract(st, c, con, fv, args, pos)
	}
	sig := m.Type().(*types.Signature)
	s := m.Name() + " " + sigTypes(sig)
	switch s {
	case "ReadAt []byte,int64,>int,error,":
		return t.readAt(st, fv[1], args[0], args[1][0], pos)
	case "WriteAt []byte,int64,>int,error,":
		return t.writeAt(st, fv[1], args[0], args[1][0], pos)
	case "Close >error,", "Sync >error,":
		return t.okOrErr(st)
	}
	if iname == "sync.Locker" {
		return []Outcome{{st, nil}}
	}
	if m.Name() == "Error" {
		return []Outcome{{st, freshVal("errmsg", types.Typ[types.String])}}
	}
	unsupported("interface call %s.%s", shortType(iname), m.Name())
	return nil
}

func (t *Task) applyIfaceContract(st *State, c *ssa.CallCommon, con *Contract, fv Val, args []Val, pos token.Pos) []Outcome {
	t.usedContracts[con.Key] = true
	t.trusted["interface contract "+con.Key] = true
	sig := c.Method.Type().(*types.Signature)
	env := map[string]SV{"recv": {v: fv, typ: c.Value.Type()}}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		env[p.Name()] = SV{v: args[i], typ: p.Type()}
		env[fmt.Sprintf("arg%d", i)] = env[p.Name()]
	}
	if old := t.eng.names.Ifaces[con.Key]; len(old) == sig.Params().Len() {
		for i, o := range old {
			if _, taken := env[o]; !taken && o != "" && o != "_" {
				env[o] = env[fmt.Sprintf("arg%d", i)]
			}
		}
	}
	x := &SpecCtx{t: t, st: st, env: env, pkg: c.Method.Pkg()}
	for _, r := range con.Requires {
		g := x.Bool(r)
		t.emit(st, fmt.Sprintf("call %s:requires[%s]", c.Method.Name(), r.Label), "precondition", pos, g)
		st.assume(g)
	}
	old := st.clone()
	for _, m := range con.Modifies {
		for _, ml := range t.evalMod(x, m) {
			t.frameCheckMod(st, ml, pos)
			t.havocMod(st, ml)
		}
	}
	var res Val
	var svs []SV
	for i := 0; i < sig.Results().Len(); i++ {
		ty := sig.Results().At(i).Type()
		v := freshVal("R:"+shortType(con.Key)+fmt.Sprint(i), ty)
		v = t.resultRefs(st, v, ty, false)
		for _, r := range con.Returns {
			if r.Label == fmt.Sprintf("result%d", i) || (i == 0 && r.Label == "result") {
				y := *x
				y.old = old
				v = y.eval(r.Expr).v
			}
		}
		svs = append(svs, SV{v: v, typ: ty})
		res = append(res, v...)
	}
	_ = res
	return t.assumeEnsures(st, con.Ensures, svs, func(st *State, svs []SV) *SpecCtx {
		y := *x
		y.st = st
		y.old = old
		y.res = svs
		y.env = map[string]SV{}
		for k, v := range x.env {
			y.env[k] = v
		}
		if n := len(svs); n > 0 && isErrorType(svs[n-1].typ) {
			y.env["err"] = svs[n-1]
		}
		return &y
	})
}

// ---- standard library models ----

func (t *Task) libCall(st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	name := fn.String()
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	switch name {
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln":
		return one(append(freshVal("n", types.Typ[types.Int]), freshVal("e", types.Universe.Lookup("error").Type())...))
	case "log.Println", "log.Printf", "log.Print", "runtime.GC", "time.Sleep":
		return one(nil)
	case "fmt.Errorf", "errors.New":
		return one(errVal(t, name))
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicln", "log.Panicf", "os.Exit":
		t.check(st, "nopanic:"+name, "panic", pos, False)
		return nil, true
	case "fmt.Sprintf", "fmt.Sprint":
		return t.sprintf(st, fn, args, pos), true
	case "(*sync.Cond).Broadcast", "(*sync.Cond).Signal":
		return []Outcome{{st, nil}}, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return one(nil)
	case "math/bits.Len64", "math/bits.Len", "math/bits.Len32":
		x := args[0][0]
		r := Fresh("bitlen", IntS, bi(0), bi(64))
		t.pow2Facts(st, r)
		st.assume(And(Lt(x, Pow2T(r)), Imp(Lt(Num(0), r), Le(Pow2T(r), MulC(x, bi(2)))), Imp(Eq(x, Num(0)), Eq(r, Num(0)))))
		return one(Val{r})
	case "math/bits.LeadingZeros64":
		x := args[0][0]
		r := Fresh("lz", IntS, bi(0), bi(64))
		for k := 1; k <= 64; k++ {
			a, b := Le(Num(int64(k)), r), Lt(x, NumB(pow2(uint(64-k))))
			st.assume(And(Imp(a, b), Imp(b, a)))
		}
		return one(Val{r})
	case "math/bits.OnesCount64", "math/bits.OnesCount32", "math/bits.OnesCount8":
		return one(Val{App("ones", IntS, bi(0), bi(64), args[0][0])})
	case "math/bits.Mul64":
		p := Mul(args[0][0], args[1][0])
		return one(Val{Div(p, NumB(pow2(64))), Mod(p, NumB(pow2(64)))})
	case "math/bits.TrailingZeros64", "math/bits.TrailingZeros8", "math/bits.TrailingZeros":
		r := Fresh("tz", IntS, bi(0), bi(64))
		return one(Val{r})
	case "math.Round":
		// integer nearest to v (half away from zero); exact on doubles
		v := args[0][0]
		k := Fresh("round", IntS, nil, nil)
		half := RealV(big.NewRat(1, 2))
		m1 := RealV(big.NewRat(-1, 1))
		d := RAdd(ToReal(k), RMul(m1, v))
		zero := RealV(new(big.Rat))
		st.assume(And(RLe(d, half), RLe(RMul(m1, half), d)))
		st.assume(Imp(RLe(zero, v), Not(RLe(d, RMul(m1, half)))))
		st.assume(Imp(Not(RLe(zero, v)), Not(RLe(half, d))))
		return one(Val{ToReal(k)})
	case "io.ReadFull":
		// io.ReadFull(r, buf)
		return t.readFull(st, args[0], fn.Signature.Params().At(0).Type(), args[1], pos), true
	case "encoding/hex.EncodeToString":
		// two lower-case digits a byte, the high one first
		b := args[0]
		c := &SpecCtx{t: t, st: st}
		sv := SV{v: b, typ: types.NewSlice(u8)}
		dig := func(n *Term) *Term { return Ite(Le(n, Num(9)), Add(n, Num(48)), Add(n, Num(87))) }
		if b[2].Op == OInt && b[2].Val.Int64() <= 64 {
			a := ConstArr(ArrS(IntS), Num(0))
			n := b[2].Val.Int64()
			for i := int64(0); i < n; i++ {
				x := c.byteAt(sv, Num(i))
				a = Store(a, Num(2*i), dig(Div(x, Num(16))))
				a = Store(a, Num(2*i+1), dig(Mod(x, Num(16))))
			}
			return one(Val{a, Num(0), Num(2 * n)})
		}
		a := Fresh("hex", ArrS(IntS), bi(48), bi(102))
		i := BoundVar("i")
		x := c.byteAt(sv, i)
		st.assume(Forall(i, Imp(And(Ge0(i), Lt(i, b[2])), And(Eq(Select(a, MulC(i, bi(2))), dig(Div(x, Num(16)))), Eq(Select(a, Add(MulC(i, bi(2)), Num(1))), dig(Mod(x, Num(16))))))))
		return one(Val{a, Num(0), MulC(b[2], bi(2))})
	case "bytes.Equal":
		a, b := args[0], args[1]
		c := &SpecCtx{t: t, st: st}
		bs := types.NewSlice(u8)
		return one(Val{c.seqEq(SV{v: a, typ: bs}, SV{v: b, typ: bs}, u8)})
	case "bytes.Compare":
		return one(Val{t.bytesCompare(st, args[0], args[1])})
	case "os.MkdirAll":
		return t.okOrErr(st), true
	case "os.WriteFile":
		l := fsLoc(t.pathFid(st, args[0]))
		t.frameCheck(st, l, pos)
		s2 := st.clone()
		s2.assume(Not(iook()))
		t.havocMod(s2, modLoc{kind: l.Kind, ref: l.Ref, lo: 0, n: 3, loc: l})
		b := args[1]
		src := st.loadRaw(st.arrLoc(b[0], u8))[0]
		if !(b[1].Op == OInt && b[1].Val.Sign() == 0) {
			src = t.copyArr2(st, src, b[1], b[2], leavesOf(fsRootType())[0])
		}
		st.storeRaw(l, Val{src, b[2], True})
		return []Outcome{{s2, errVal(t, "writefile")}, {st, nilErr()}}, true
	case "os.ReadFile":
		l := fsLoc(t.pathFid(st, args[0]))
		fs := st.loadRaw(l)
		s2 := st.clone()
		s2.assume(Or(Not(iook()), Not(fs[2])))
		none := Val{Num(0), Num(0), Num(0), Num(0)}
		st.assume(fs[2])
		ref := Num(t.newRef())
		root := arrRoot(u8)
		st.storeRaw(&Loc{Kind: sliceKind(u8), Ref: ref, Typ: root, Root: root}, Val{fs[0]})
		cp := Fresh("cap", IntS, bi(0), maxLen)
		st.assume(Le(fs[1], cp))
		return []Outcome{{s2, append(none, errVal(t, "readfile")...)}, {st, append(Val{ref, Num(0), fs[1], cp}, nilErr()...)}}, true
	case "os.Getpid":
		return one(freshVal("pid", types.Typ[types.Int]))
	case "errors.Is":
		return one(Val{And(Eq(args[0][0], args[1][0]), Eq(args[0][1], args[1][1]))})
	}
	// encoding/binary
	if strings.HasPrefix(name, "(encoding/binary.littleEndian).") || strings.HasPrefix(name, "(encoding/binary.bigEndian).") {
		little := strings.Contains(name, "littleEndian")
		op := name[strings.LastIndex(name, ".")+1:]
		width := 0
		switch {
		case strings.HasSuffix(op, "16"):
			width = 2
		case strings.HasSuffix(op, "32"):
			width = 4
		case strings.HasSuffix(op, "64"):
			width = 8
		}
		if width > 0 {
			switch {
			case strings.HasPrefix(op, "Uint"):
				b := args[1]
				t.check(st, "nopanic:index", "panic", pos, Le(Num(int64(width)), b[2]))
				c := &SpecCtx{t: t, st: st}
				return one(Val{c.endian(SV{v: b, typ: types.NewSlice(u8)}, Num(0), width, little)})
			case strings.HasPrefix(op, "PutUint"), strings.HasPrefix(op, "AppendUint"):
				b := args[1]
				put := strings.HasPrefix(op, "Put")
				if put {
					t.check(st, "nopanic:index", "panic", pos, Le(Num(int64(width)), b[2]))
				}
				v := args[2][0]
				if v.Op != OInt && width >= 4 {
					// the value is the sum of its digits (stated over fresh names, so that it stays linear)
					sum := Num(0)
					for k := 0; k < width; k++ {
						d := Fresh("digit", IntS, bi(0), bi(255))
						st.assume(Eq(d, Mod(Div(v, NumB(pow2(uint(8*k)))), Num(256))))
						sum = Add(sum, MulC(d, pow2(uint(8*k))))
					}
					st.assume(Eq(v, sum))
				}
				digit := func(i *Term) Val {
					k := i.Val.Int64()
					if !little {
						k = int64(width) - 1 - k
					}
					return Val{Mod(Div(v, NumB(pow2(uint(8*k)))), Num(256))}
				}
				if !put {
					return one(t.appendN(st, b, u8, Num(int64(width)), digit, pos))
				}
				t.blockStore(st, b, u8, Num(int64(width)), digit, pos)
				return one(nil)
			}
		}
	}
	if outs, ok := t.sortCall(st, fn, args, pos); ok {
		return outs, true
	}
	if strings.HasPrefix(name, "(*os.File).") {
		return t.osFileCall(st, strings.TrimPrefix(name, "(*os.File)."), args, pos), true
	}
	if strings.HasPrefix(name, "(*bufio.Writer).") || name == "bufio.NewWriter" {
		return t.bufioCall(st, name, args, pos), true
	}
	return nil, false
}

func (t *Task) sprintf(st *State, fn *ssa.Function, args []Val, pos token.Pos) []Outcome {
	v := freshVal("R:sprintf", types.Typ[types.String])
	return []Outcome{{st, st.norm(v, types.Typ[types.String])}}
}

func (t *Task) bytesCompare(st *State, a, b Val) *Term {
	r := Fresh("cmp", IntS, bi(-1), bi(1))
	c := &SpecCtx{t: t, st: st}
	bs := types.NewSlice(u8)
	sa, sb := SV{v: a, typ: bs}, SV{v: b, typ: bs}
	// constant equal lengths: compare big-endian values
	if a[2].Op == OInt && a[2] == b[2] && a[2].Val.Int64() <= 32 {
		n := int(a[2].Val.Int64())
		va, vb := c.endian(sa, Num(0), n, false), c.endian(sb, Num(0), n, false)
		return Ite(Eq(va, vb), Num(0), Ite(Lt(va, vb), Num(-1), Num(1)))
	}
	// first difference
	k := Fresh("cmpk", IntS, bi(0), maxLen)
	i := BoundVar("i")
	ai := func(x *Term) *Term { return c.byteAt(sa, x) }
	bb := func(x *Term) *Term { return c.byteAt(sb, x) }
	st.assume(And(Le(k, a[2]), Le(k, b[2]), Forall(i, Imp(And(Ge0(i), Lt(i, k)), Eq(ai(i), bb(i))))))
	st.assume(Imp(And(Lt(k, a[2]), Lt(k, b[2])), And(Not(Eq(ai(k), bb(k))), Eq(r, Ite(Lt(ai(k), bb(k)), Num(-1), Num(1))))))
	st.assume(Imp(And(Eq(k, a[2]), Lt(k, b[2])), Eq(r, Num(-1))))
	st.assume(Imp(And(Lt(k, a[2]), Eq(k, b[2])), Eq(r, Num(1))))
	st.assume(Imp(And(Eq(k, a[2]), Eq(k, b[2])), Eq(r, Num(0))))
	return r
}

func (t *Task) osFileCall(st *State, op string, args []Val, pos token.Pos) []Outcome {
	p := args[0][0]
	t.nilCheck(st, p, pos)
	fid := t.osFid(st, p)
	posLoc := func(s *State) *Loc {
		l := s.deref(p, t.eng.lookupType("os.File"))
		l2 := *l
		l2.Lo, l2.Typ = 1, types.Typ[types.Int]
		return &l2
	}
	switch op {
	case "ReadAt":
		return t.readAt(st, fid, args[1], args[2][0], pos)
	case "WriteAt":
		return t.writeAt(st, fid, args[1], args[2][0], pos)
	case "Close", "Sync":
		return t.okOrErr(st)
	case "Stat":
		// FileInfo: opaque interface whose Size() is the file size at this moment
		fs := st.loadRaw(fsLoc(fid))
		s2 := st.clone()
		s2.assume(Not(iook()))
		info := Val{tagOf(t.statType()), t.exotic(&Exotic{BoxT: t.statType(), Box: Val{fs[1]}})}
		return []Outcome{{s2, append(Val{Num(0), Num(0)}, errVal(t, "stat")...)}, {st, append(info, nilErr()...)}}
	case "Seek":
		wh := args[2][0]
		if wh.Op != OInt {
			unsupported("Seek with symbolic whence")
		}
		l := posLoc(st)
		t.frameCheck(st, l, pos)
		cur := st.loadRaw(l)[0]
		fs := st.loadRaw(fsLoc(fid))
		var np *Term
		switch wh.Val.Int64() {
		case 0:
			np = args[1][0]
		case 1:
			np = Add(cur, args[1][0])
		default:
			np = Add(fs[1], args[1][0])
		}
		s2 := st.clone()
		s2.assume(Or(Not(iook()), Lt(np, Num(0))))
		outs := []Outcome{{s2, append(Val{Fresh("pos", IntS, nil, nil)}, errVal(t, "seek")...)}}
		if !st.decide(Ge0(np)).IsFalse() {
			st.assume(Ge0(np))
			st.storeRaw(l, Val{np})
			outs = append(outs, Outcome{st, append(Val{np}, nilErr()...)})
		}
		return outs
	case "Write":
		l := posLoc(st)
		t.frameCheck(st, l, pos)
		cur := st.loadRaw(l)[0]
		outs := t.writeAt(st, fid, args[1], cur, pos)
		for _, o := range outs {
			o.st.storeRaw(l, Val{Add(cur, o.res[0])})
		}
		return outs
	case "Read":
		l := posLoc(st)
		t.frameCheck(st, l, pos)
		cur := st.loadRaw(l)[0]
		outs := t.readAt(st, fid, args[1], cur, pos)
		for i := range outs {
			outs[i].st.storeRaw(l, Val{Add(cur, outs[i].res[0])})
		}
		return outs
	case "Truncate":
		n := args[1][0]
		l := fsLoc(fid)
		t.frameCheck(st, l, pos)
		s2 := st.clone()
		s2.assume(Or(Not(iook()), Lt(n, Num(0))))
		st.assume(Ge0(n))
		fs := st.loadRaw(l)
		data := fs[0]
		if st.decide(Le(n, fs[1])).IsFalse() || !st.decide(Le(n, fs[1])).IsTrue() {
			g := Fresh("ftr", data.Sort, bi(0), bi(255))
			i := BoundVar("i")
			st.assume(Forall(i, Eq(Select(g, i), Ite(And(Le(fs[1], i), Lt(i, n)), Num(0), Select(data, i)))))
			data = g
		}
		st.storeRaw(l, Val{data, n, True})
		return []Outcome{{s2, errVal(t, "trunc")}, {st, nilErr()}}
	case "Name":
		return []Outcome{{st, st.norm(freshVal("R:name", types.Typ[types.String]), types.Typ[types.String])}}
	}
	unsupported("os.File.%s", op)
	return nil
}

// io.ReadFull on *os.File: sequential read of exactly len(buf) bytes at the current position.
func (t *Task) readFull(st *State, r Val, rt types.Type, buf Val, pos token.Pos) []Outcome {
	if r[0].Op == OInt {
		if ty := tagTypes[r[0].Val.Int64()]; ty != nil && ty.String() == "*os.File" {
			return t.osFileCall(st, "Read", []Val{{r[1]}, buf}, pos)
		}
	}
	unsupported("io.ReadFull on unknown reader")
	return nil
}

var statNamed types.Type

func (t *Task) statType() types.Type {
	if statNamed == nil {
		statNamed = types.NewNamed(types.NewTypeName(0, nil, "statInfo", nil), types.NewStruct([]*types.Var{types.NewField(0, nil, "size", types.Typ[types.Int64], false)}, nil), nil)
	}
	return statNamed
}

// ---- bufio.Writer over *os.File: pending bytes indexed by absolute file offset ----

func (t *Task) bufioCall(st *State, name string, args []Val, pos token.Pos) []Outcome {
	wt := t.eng.lookupType("bufio.Writer")
	switch {
	case name == "bufio.NewWriter":
		w := args[0]
		if !(w[0].Op == OInt && tagTypes[w[0].Val.Int64()] != nil && tagTypes[w[0].Val.Int64()].String() == "*os.File") {
			unsupported("bufio.NewWriter on unknown writer")
		}
		ref := Num(t.newRef())
		st.storeRaw(rootLoc(ref, wt), Val{w[1], ConstArr(ArrS(IntS), Num(0)), Num(0)})
		return []Outcome{{st, Val{ref}}}
	}
	op := name[strings.LastIndex(name, ".")+1:]
	t.nilCheck(st, args[0][0], pos)
	wl := st.deref(args[0][0], wt)
	w := st.loadRaw(wl)
	fp := t.resolveRef(st, w[0], "ptr")
	fl := st.deref(fp, t.eng.lookupType("os.File"))
	f := st.loadRaw(fl)
	fid := t.resolveRef(st, f[0], "fid")
	fpos := f[1]
	posL := *fl
	posL.Lo, posL.Typ = 1, types.Typ[types.Int]
	buf, n := w[1], w[2]
	fsl := fsLoc(fid)
	flushK := func(s *State, buf, k *Term) {
		t.frameCheck(s, fsl, pos)
		t.frameCheck(s, &posL, pos)
		t.fileOverlay(s, fsl, fpos, k, func(i *Term) *Term { return Select(buf, Add(fpos, i)) })
		s.storeRaw(&posL, Val{Add(fpos, k)})
	}
	switch op {
	case "Flush":
		s2 := st.clone()
		s2.assume(Not(iook()))
		t.havocMod(s2, modLoc{kind: fsl.Kind, ref: fsl.Ref, n: 3, loc: fsl})
		t.havocMod(s2, modLoc{kind: wl.Kind, ref: wl.Ref, n: 3, loc: wl})
		flushK(st, buf, n)
		t.frameCheck(st, wl, pos)
		st.storeRaw(wl, Val{w[0], buf, Num(0)})
		return []Outcome{{s2, errVal(t, "flush")}, {st, nilErr()}}
	case "Write":
		p := args[1]
		s2 := st.clone()
		s2.assume(Not(iook()))
		nw := Fresh("nw", IntS, bi(0), maxLen)
		s2.assume(Le(nw, p[2]))
		t.havocMod(s2, modLoc{kind: fsl.Kind, ref: fsl.Ref, n: 3, loc: fsl})
		t.havocMod(s2, modLoc{kind: wl.Kind, ref: wl.Ref, n: 3, loc: wl})
		// new pending content
		src := st.loadRaw(st.arrLoc(p[0], u8))[0]
		base := Add(fpos, n)
		nb := Fresh("pend", buf.Sort, bi(0), bi(255))
		i := BoundVar("i")
		st.assume(Forall(i, Eq(Select(nb, i), Ite(And(Le(base, i), Lt(i, Add(base, p[2]))), Select(src, Add(p[1], Sub(i, base))), Select(buf, i)))))
		tot := Add(n, p[2])
		k := Fresh("flushed", IntS, bi(0), maxLen)
		st.assume(Le(k, tot))
		flushK(st, nb, k)
		t.frameCheck(st, wl, pos)
		st.storeRaw(wl, Val{w[0], nb, Sub(tot, k)})
		return []Outcome{{s2, append(Val{nw}, errVal(t, "bw")...)}, {st, append(Val{p[2]}, nilErr()...)}}
	case "Buffered":
		return []Outcome{{st, Val{n}}}
	}
	unsupported("bufio.Writer.%s", op)
	return nil
}
