package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	specs *Specs
	prog  *ssa.Program
	fset  *token.FileSet
	fns   map[string]*ssa.Function
	loops map[*ssa.Function]*loopInfo

	repo    string
	overlay map[string]bool
	pkgs    map[string]*types.Package

	names      *Names
	renamed    map[string]string // current function key -> recorded key
	aliasMemo  map[*ssa.Function]map[string]string
	fieldAlias map[*types.Struct]map[string]int
}

var theEngine *Engine

func (e *Engine) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(e.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) loopInfo(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := findLoops(fn)
	e.loops[fn] = li
	return li
}

// lookupType resolves "pkg.Name" / "*pkg.Name" (pkg by last path element or full path) and basic types.
func (e *Engine) lookupType(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(e.lookupType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(e.lookupType(s[2:]))
	}
	i := strings.LastIndex(s, ".")
	if i < 0 {
		if o := types.Universe.Lookup(s); o != nil {
			return o.Type()
		}
		specFail("unknown type %s", s)
	}
	pkg, name := s[:i], s[i+1:]
	var cands []string
	for path, p := range e.pkgs {
		if path == pkg || p.Name() == pkg {
			if o, ok := p.Scope().Lookup(name).(*types.TypeName); ok && o != nil {
				cands = append(cands, path)
			}
		}
	}
	sort.Strings(cands)
	if len(cands) == 0 {
		specFail("unknown type %s", s)
	}
	return e.pkgs[cands[0]].Scope().Lookup(name).Type()
}

// ifaceContract finds a contract attached to an interface method (key "pkg.(Iface).Method").
func (e *Engine) ifaceContract(recv types.Type, method string) *Contract {
	n, ok := recv.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	return e.specs.Contracts[fmt.Sprintf("%s.%s.%s", n.Obj().Pkg().Path(), n.Obj().Name(), method)]
}

func loadEngine(repo string, specDir string, lemmaDir string, only []string) (*Engine, error) {
	e := &Engine{specs: newSpecs(), loops: map[*ssa.Function]*loopInfo{}, repo: repo, fns: map[string]*ssa.Function{},
		renamed: map[string]string{}, aliasMemo: map[*ssa.Function]map[string]string{}, fieldAlias: map[*types.Struct]map[string]int{}}
	e.names = loadNames(filepath.Join(filepath.Dir(specDir), "lib", "names.json"))
	files, _ := filepath.Glob(filepath.Join(specDir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := e.specs.parseFile(f); err != nil {
			return nil, err
		}
	}
	// packages wanted
	want := map[string]bool{}
	for _, c := range e.specs.Contracts {
		for _, p := range c.Props {
			for _, o := range only {
				if p == o || o == "all" {
					want[c.Pkg] = true
				}
			}
		}
		for _, o := range only {
			if o == c.Key {
				want[c.Pkg] = true
			}
		}
	}
	var pats []string
	for p := range want {
		pats = append(pats, modPath+"/"+p)
	}
	sort.Strings(pats)
	if len(pats) == 0 {
		return nil, fmt.Errorf("no contract tagged %v", only)
	}
	tmp, err := os.MkdirTemp("", "govc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	os.WriteFile(filepath.Join(tmp, "x.mod"), mod, 0644)
	if sum, err := os.ReadFile(filepath.Join(filepath.Dir(specDir), "lib", "pudding-shed.sum")); err == nil {
		os.WriteFile(filepath.Join(tmp, "x.sum"), sum, 0644)
	}
	ov := map[string][]byte{}
	filepath.Walk(lemmaDir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(lemmaDir, p)
			b, _ := os.ReadFile(p)
			ov[filepath.Join(repo, filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))] = b
		}
		return nil
	})
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false -modfile="+filepath.Join(tmp, "x.mod"),
			"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, x := range p.Errors {
				errs = append(errs, x.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	e.prog = prog
	e.fset = prog.Fset
	e.pkgs = map[string]*types.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p.Pkg
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			p.Build()
		}
	}
	var addFn func(fn *ssa.Function)
	addFn = func(fn *ssa.Function) {
		if fn == nil {
			return
		}
		e.fns[fnKey(fn)] = fn
		for _, a := range fn.AnonFuncs {
			addFn(a)
		}
	}
	for _, p := range prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				addFn(x)
			case *ssa.Type:
				for _, ty := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" {
							addFn(fn)
						}
					}
				}
			}
		}
	}
	theEngine = e
	e.resolveRenames()
	return e, nil
}

// ---- results ----

type VCResult struct {
	Name, Kind, Pos, Status, Solver, Detail, Model, Goal string
	Millis                                               int64
}
type FuncResult struct {
	Key      string
	Err      string
	VCs      []VCResult
	Used     []string
	Inlined  []string
	Trusted  []string
	Warnings []string
	ExecMs   int64
	Solver   map[string]int64
	Calls    map[string]int
	Clauses  int
}

func newTask(e *Engine, fn *ssa.Function, con *Contract) *Task {
	return &Task{eng: e, fn: fn, con: con, mat: map[int]int64{}, nilable: map[int]bool{}, offZero: map[int]bool{},
		nextRef: freshBase, exotics: map[int64]*Exotic{}, exoticKey: map[string]int64{}, initHeap: map[string]*Term{},
		params: map[string]SV{}, lets: map[string]SV{}, vcNames: map[string]int{}, loopSeq: map[string]int{},
		usedContracts: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, usedInvs: map[string]bool{},
		globals: map[string]bool{}, lensOf: map[string]bool{}, pruneOn: con.Prune, qmemo: map[string]int{}, injKeys: map[string][]injRec{}}
}

func (t *Task) warn(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, w := range t.warnings {
		if w == s {
			return
		}
	}
	t.warnings = append(t.warnings, s)
}

func (t *Task) evalEntry(c Clause) *Term {
	ctx := &SpecCtx{t: t, st: t.entry, old: t.entry, env: t.params, pkg: pkgOf(t.fn)}
	return ctx.Bool(c)
}

func (t *Task) quickDecide(st *State, c *Term) int {
	d := st.decide(c)
	if d.IsTrue() {
		return 1
	}
	if d.IsFalse() {
		return -1
	}
	if d.quant {
		return 0
	}
	k := fmt.Sprint(d.ID, "|", len(t.facts))
	for _, p := range st.pc {
		k += fmt.Sprint(",", p.ID)
	}
	if r, ok := t.qmemo[k]; ok {
		return r
	}
	var as []*Term
	for _, a := range append(append([]*Term{}, t.facts...), st.pc...) {
		if !a.quant {
			as = append(as, a)
		}
	}
	r := t.quickSolve(as, d)
	t.qmemo[k] = r
	return r
}

func (t *Task) verify() (err string, clauses int) {
	e := t.eng
	fn, con := t.fn, t.con
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsupported:
				err = "outside the supported subset: " + x.Error()
			case specErr:
				err = "contract does not fit the code: " + x.msg
			case needInvariant:
				err = fmt.Sprintf("loop %d of %s needs an invariant (%s)", x.lp.ord, fn, x.why)
			default:
				err = fmt.Sprintf("internal: %v\n%s", r, debug.Stack())
			}
		}
	}()
	st := &State{t: t, heap: map[string]*Term{}, pcSet: map[int]bool{}, bounds: map[int]Itv{}, ghost: map[string]*Term{}}
	t.entry = st
	nil0 := map[string]bool{}
	for _, n := range con.Nilable {
		nil0[n.Text] = true
		if a := e.aliases(fn)[n.Text]; a != "" {
			nil0[a] = true
		}
	}
	for o, a := range e.aliases(fn) {
		if d := con.Dyn[o]; d != "" && con.Dyn[a] == "" {
			con.Dyn[a] = d
		}
	}
	var args []Val
	for i, p := range fn.Params {
		ty := p.Type()
		ls := leavesOf(ty)
		v := make(Val, len(ls))
		for j, l := range ls {
			nm := "p:" + p.Name()
			if len(ls) > 1 {
				nm += "." + l.Name
				if l.Name == "" {
					nm += fmt.Sprint(j)
				}
				nm += "#" + fmt.Sprint(j)
			}
			hi := l.hi
			switch l.Role {
			case "ptr", "ref", "map", "ident", "chan", "func":
				hi = bi(freshBase - 1)
			}
			v[j] = Var(nm, l.Sort, l.lo, hi)
			if nil0[p.Name()] {
				t.nilable[v[j].ID] = true
			}
		}
		v = st.norm(v, ty)
		if con.Cases != nil && !t.caseCheck && (con.Cases.Text == p.Name() || e.aliases(fn)[con.Cases.Text] == p.Name()) {
			v = Val{Num(t.caseVal)}
		}
		if d := con.Dyn[p.Name()]; d != "" {
			v = append(Val{tagOf(e.lookupType(d))}, v[1:]...)
		}
		args = append(args, v)
		sv := SV{v: v, typ: ty}
		t.params[p.Name()] = sv
		t.params[fmt.Sprintf("arg%d", i)] = sv
		e.oldParams(fn, func(j int, old string) {
			if j == i {
				t.params[old] = sv
			}
		})
		if i == 0 && fn.Signature.Recv() != nil {
			t.params["recv"] = sv
		}
	}
	ctx := &SpecCtx{t: t, st: st, env: t.params, pkg: pkgOf(fn)}
	for _, n := range con.Nilable {
		if _, isParam := t.params[n.Text]; isParam {
			continue
		}
		l := ctx.loc(n.Expr)
		for _, x := range st.loadRaw(l) {
			t.nilable[x.ID] = true
		}
	}
	// a split over the values of a ghost function's term: the term is the value, wherever a contract has it
	splitTerm := false
	if con.Cases != nil {
		if call, ok := con.Cases.Expr.(*ast.CallExpr); ok {
			id, ok := call.Fun.(*ast.Ident)
			splitTerm = ok && e.specs.UFuns[id.Name] != nil
		}
	}
	if con.Cases != nil && !t.caseCheck && !splitTerm && t.params[con.Cases.Text].v == nil {
		l := ctx.loc(con.Cases.Expr)
		st.storeRaw(l, Val{Num(t.caseVal)})
	}
	for _, s := range con.Setup {
		if l, _ := ctx.glLoc(s.Label); l != nil {
			st.storeRaw(l, ctx.eval(s.Expr).v)
			clauses++
			continue
		}
		l := ctx.loc(parseExprMust(s.Label))
		v := ctx.eval(s.Expr)
		st.storeRaw(l, v.v)
		clauses++
	}
	if splitTerm && !t.caseCheck {
		x := ctx.int(con.Cases.Expr)
		st.assume(Eq(x, Num(t.caseVal)))
		t.caseTerm = x
	}
	for _, r := range con.Requires {
		st.assume(ctx.Bool(r))
		clauses++
	}
	for _, l := range con.Lets {
		t.lets[l.Label] = ctx.eval(l.Expr)
		t.params[l.Label] = t.lets[l.Label]
	}
	for k, v := range t.lets {
		t.params[k] = v
	}
	if t.caseCheck {
		x := ctx.int(con.Cases.Expr)
		t.emit(st, "cases exhaustive", "precondition", fn.Pos(), And(Le(Num(con.CaseLo), x), Le(x, Num(con.CaseHi))))
		return
	}
	t.entry = st.clone()
	if !con.NoCover {
		t.vcs = append(t.vcs, &VC{Func: t.name(), Name: "cover:requires", Kind: "cover", Expect: "sat", Assume: st.pc, Goal: False})
	}
	t.modAll = con.ModAll
	t.modset = t.evalMods(ctx, con)
	t.inBody = 1
	t.frameFns = []*ssa.Function{fn}
	outs := t.execFunc(st, fn, args, nil)
	t.inBody = 0
	var reach []*Term
	for i, o := range outs {
		if pathCheck {
			t.vcs = append(t.vcs, &VC{Func: t.name(), Name: fmt.Sprintf("path:%d", i), Kind: "path", Expect: "sat", Assume: o.st.pc, Goal: False, Pos: strings.Join(o.st.trace, " ")})
		}
		reach = append(reach, And(o.st.pc...))
		var svs []SV
		rt := fn.Signature.Results()
		k := 0
		for i := 0; i < rt.Len(); i++ {
			n := nLeaves(rt.At(i).Type())
			svs = append(svs, SV{v: o.res[k : k+n], typ: rt.At(i).Type()})
			k += n
		}
		c2 := &SpecCtx{t: t, st: o.st, old: t.entry, env: t.params, pkg: pkgOf(fn), res: svs}
		bindNamedResults(c2, fn, svs)
		for _, en := range con.Ensures {
			clauses++
			t.emit(o.st, "ensures["+en.Label+"]", "postcondition", fn.Pos(), c2.Bool(en))
		}
		for _, r := range con.Returns {
			i := 0
			if len(r.Label) > 6 {
				i = int(r.Label[6] - '0')
			}
			oc := *ctx
			oc.st = o.st
			oc.old = t.entry
			want := oc.eval(r.Expr)
			var cs []*Term
			for j := range svs[i].v {
				if j == 3 && len(svs[i].v) == 4 {
					continue
				}
				cs = append(cs, Eq(svs[i].v[j], want.v[j]))
			}
			t.emit(o.st, "returns["+r.Label+"]", "postcondition", fn.Pos(), And(cs...))
		}
		for _, f := range con.Fresh {
			i := 0
			if len(f) > 6 {
				i = int(f[6] - '0')
			}
			t.emit(o.st, "fresh["+f+"]", "postcondition", fn.Pos(), Or(Le(Num(freshBase), svs[i].v[0]), Eq(svs[i].v[0], Num(0))))
		}
		if len(con.PanicsIf) > 0 {
			t.emit(o.st, "panics_if", "postcondition", fn.Pos(), Not(t.panicCond()))
		}
	}
	if len(reach) > 0 && !con.NoCover {
		t.vcs = append(t.vcs, &VC{Func: t.name(), Name: "cover:return", Kind: "cover", Expect: "sat", Assume: []*Term{Or(reach...)}, Goal: False})
	}
	var ax []*Term
	for _, a := range e.specs.Axioms {
		ax = append(ax, ctx.Bool(a))
	}
	// interesting terms for counterexamples
	var mo []NamedTerm
	for _, p := range fn.Params {
		for j, l := range leavesOf(p.Type()) {
			x := t.params[p.Name()].v[j]
			if x.Sort.Elem == nil && x.Op != OInt {
				mo = append(mo, NamedTerm{p.Name() + "." + l.Name, x})
			}
		}
	}
	for _, k := range sortedKeys(t.initHeap) {
		h := t.initHeap[k]
		if h.Sort.Elem == IntS {
			for _, n := range t.matNums() {
				mo = append(mo, NamedTerm{fmt.Sprintf("%s@%d", k, n), Select(h, Num(n))})
			}
		}
	}
	if len(mo) > 60 {
		mo = mo[:60]
	}
	for _, vc := range t.vcs {
		vc.Assume = append(append(append([]*Term{}, t.facts...), ax...), vc.Assume...)
		vc.ModelOf = mo
		if vc.Expect == "" {
			clauses++
		}
	}
	return
}

func (t *Task) matNums() []int64 {
	var out []int64
	for _, n := range t.mat {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

// A key may end in "\tx" (the exhaustiveness obligation of a function with
// cases) or "\tN" (its case N): the parts of one function, which separate
// workers verify and mergeParts puts together again.
func (e *Engine) verifyKey(key string, workers int) *FuncResult {
	part := ""
	if i := strings.IndexByte(key, '\t'); i >= 0 {
		key, part = key[:i], key[i+1:]
	}
	res := &FuncResult{Key: key}
	con := e.specs.Contracts[key]
	if con == nil {
		res.Err = "no contract"
		return res
	}
	fn := e.fns[key]
	if fn == nil {
		res.Err = "function under contract does not exist in the source"
		return res
	}
	resetTerms()
	slowFails.Store(0)
	solverTime.Lock()
	solverTime.byName, solverTime.calls = nil, nil
	solverTime.Unlock()
	t0 := time.Now()
	t := newTask(e, fn, con)
	if con.Cases == nil {
		res.Err, res.Clauses = t.verify()
	} else {
		t.caseCheck = true
		if part == "" || part == "x" {
			res.Err, _ = t.verify()
		}
		for k := con.CaseLo; k <= con.CaseHi && res.Err == ""; k++ {
			if part != "" && part != fmt.Sprint(k) {
				continue
			}
			u := newTask(e, fn, con)
			u.caseVal = k
			res.Err, res.Clauses = u.verify()
			for _, vc := range u.vcs {
				vc.Name += fmt.Sprintf("~%d", 100+k)
			}
			t.vcs = append(t.vcs, u.vcs...)
			for x := range u.usedContracts {
				t.usedContracts[x] = true
			}
			for x := range u.inlined {
				t.inlined[x] = true
			}
			for x := range u.trusted {
				t.trusted[x] = true
			}
			t.warnings = append(t.warnings, u.warnings...)
		}
	}
	res.ExecMs = time.Since(t0).Milliseconds()
	if res.Err == "" {
		solveAll(t.vcs, workers)
	} else {
		t.vcs = nil
	}
	for _, v := range t.vcs {
		r := VCResult{Name: v.Name, Kind: v.Kind, Pos: v.Pos, Status: v.Status, Solver: v.Solver, Detail: v.Detail, Model: v.Model, Millis: v.Millis}
		if v.Status != "proved" {
			r.Goal = clip(printTerm(v.Goal, nil), 3000)
		}
		res.VCs = append(res.VCs, r)
	}
	res.Used = sortedKeys(t.usedContracts)
	res.Inlined = sortedKeys(t.inlined)
	res.Trusted = sortedKeys(t.trusted)
	res.Warnings = t.warnings
	res.Solver = map[string]int64{}
	res.Calls = map[string]int{}
	solverTime.Lock()
	for k, v := range solverTime.byName {
		res.Solver[k] = v.Milliseconds()
		res.Calls[k] = solverTime.calls[k]
	}
	solverTime.Unlock()
	return res
}

var pathCheck bool

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	worker := flag.Bool("worker", false, "worker mode")
	prop := flag.String("prop", "", "property id")
	fnf := flag.String("func", "", "verify only this function (key suffix)")
	out := flag.String("json", "", "write results here")
	jobs := flag.Int("j", 0, "parallel workers")
	vflag := flag.Bool("v", false, "verbose")
	flag.StringVar(&dumpDir, "dump", "", "dump SMT files")
	flag.IntVar(&quickMs, "quickms", quickMs, "first solver budget")
	flag.IntVar(&slowMs, "slowms", slowMs, "portfolio budget")
	flag.BoolVar(&pathCheck, "paths", false, "report infeasible return paths")
	namesOut := flag.Bool("names", false, "record the names the contracts rely on in lib/names.json")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	ssaOut := flag.Bool("ssa", false, "print SSA of -func")
	flag.Parse()
	if *prof != "" {
		if f, err := os.Create(*prof); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	if *jobs == 0 {
		*jobs = runtime.NumCPU()
	}
	if *namesOut {
		e, err := loadEngine(*repo, *verif+"/specs", *verif+"/lemmas", []string{"all"})
		if err == nil {
			err = e.writeNames(*verif + "/lib/names.json")
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return
	}
	only := []string{*prop}
	if *prop == "" {
		only = []string{"all"}
	}
	if *worker {
		e, err := loadEngine(*repo, *verif+"/specs", *verif+"/lemmas", only)
		enc := json.NewEncoder(os.Stdout)
		if err != nil {
			enc.Encode(&FuncResult{Err: err.Error()})
			return
		}
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			enc.Encode(e.verifyKey(sc.Text(), 2))
		}
		return
	}
	specs := newSpecs()
	files, _ := filepath.Glob(filepath.Join(*verif, "specs", "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := specs.parseFile(f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if *ssaOut || *fnf != "" {
		var keys []string
		var pk []string
		for _, k := range specs.Order {
			if strings.Contains(k, *fnf) && !specs.Contracts[k].Trusted && !(specs.Contracts[k].Inline && len(specs.Contracts[k].Ensures) == 0) {
				keys = append(keys, k)
				pk = append(pk, k)
			}
		}
		if len(keys) == 0 {
			fmt.Println("no match")
			os.Exit(2)
		}
		e, err := loadEngine(*repo, *verif+"/specs", *verif+"/lemmas", pk)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, k := range keys {
			if *ssaOut {
				if e.fns[k] != nil {
					e.fns[k].WriteTo(os.Stdout)
				}
				continue
			}
			printResult(e.verifyKey(k, *jobs), *vflag)
		}
		return
	}
	var keys []string
	for _, k := range specs.Order {
		for _, p := range specs.Contracts[k].Props {
			if p == *prop || *prop == "" {
				keys = append(keys, k)
				break
			}
		}
	}
	results := runWorkers(*repo, *verif, only, keys, specs, *jobs)
	bad := 0
	for _, r := range results {
		if r.Err != "" {
			bad++
		}
		for _, v := range r.VCs {
			if v.Status != "proved" {
				bad++
			}
		}
		if *out == "" || *vflag {
			printResult(r, *vflag)
		}
	}
	if *out != "" {
		b, _ := json.MarshalIndent(results, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func printResult(r *FuncResult, verbose bool) {
	n, ok := 0, 0
	for _, v := range r.VCs {
		n++
		if v.Status == "proved" {
			ok++
		}
	}
	fmt.Printf("%-70s %d/%d exec %dms solver %v\n", r.Key, ok, n, r.ExecMs, r.Solver)
	if r.Err != "" {
		fmt.Printf("   ERROR %s\n", r.Err)
	}
	for _, w := range r.Warnings {
		fmt.Printf("   warning %s\n", w)
	}
	for _, v := range r.VCs {
		if v.Status != "proved" {
			fmt.Printf("   %-8s %s (%s) %dms %s\n", v.Status, v.Name, v.Pos, v.Millis, v.Detail)
			if verbose {
				fmt.Printf("       goal %s\n       model %s\n", clip(v.Goal, 1500), clip(v.Model, 3000))
			}
		} else if verbose {
			fmt.Printf("   ok       %s (%s) %dms %s %s\n", v.Name, v.Pos, v.Millis, v.Solver, v.Detail)
		}
	}
}

func runWorkers(repo, verif string, only, keys []string, specs *Specs, jobs int) []*FuncResult {
	type item struct{ key string }
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := append([]string{}, keys...)
	seen := map[string]bool{}
	for _, k := range keys {
		seen[k] = true
	}
	// trusted / inline contracts are not verified themselves
	skip := func(k string) bool {
		c := specs.Contracts[k]
		return c == nil || c.Trusted || c.Inline && len(c.Ensures) == 0
	}
	q2 := queue[:0]
	for _, k := range queue {
		if !skip(k) {
			q2 = append(q2, k)
		}
	}
	queue = splitCases(q2, specs)
	busy := 0
	var results []*FuncResult
	nw := jobs
	if len(queue) < nw {
		nw = len(queue) + 2
		if nw > jobs {
			nw = jobs
		}
	}
	var wg sync.WaitGroup
	self, _ := os.Executable()
	prop := only[0]
	if prop == "all" {
		prop = ""
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in *bufio.Writer
			var outR *bufio.Reader
			var closer func()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					break
				}
				k := queue[0]
				queue = queue[1:]
				busy++
				mu.Unlock()
				res := &FuncResult{Key: strings.SplitN(k, "\t", 2)[0], Err: "worker failed"}
				if cmd == nil {
					cmd = exec.Command(self, "-worker", "-repo", repo, "-verif", verif, "-prop", prop, "-quickms", fmt.Sprint(quickMs), "-slowms", fmt.Sprint(slowMs))
					cmd.Stderr = os.Stderr
					ip, _ := cmd.StdinPipe()
					op, _ := cmd.StdoutPipe()
					cmd.Start()
					in, outR = bufio.NewWriter(ip), bufio.NewReaderSize(op, 1<<20)
					closer = func() { ip.Close(); cmd.Wait() }
				}
				in.WriteString(k + "\n")
				in.Flush()
				line, err := outR.ReadBytes('\n')
				if err == nil {
					var r FuncResult
					if json.Unmarshal(line, &r) == nil {
						if r.Key == "" {
							r.Key = strings.SplitN(k, "\t", 2)[0]
						}
						res = &r
					}
				} else {
					res.Err = "worker died: " + err.Error()
					closer()
					cmd = nil
				}
				mu.Lock()
				results = append(results, res)
				for _, u := range res.Used {
					if !seen[u] && !skip(u) {
						seen[u] = true
						queue = append(queue, splitCases([]string{u}, specs)...)
					}
				}
				busy--
				cond.Broadcast()
				mu.Unlock()
			}
			mu.Lock()
			cond.Broadcast()
			mu.Unlock()
			if cmd != nil {
				closer()
			}
		}()
	}
	wg.Wait()
	results = mergeParts(results)
	sort.Slice(results, func(i, j int) bool { return results[i].Key < results[j].Key })
	return results
}

func splitCases(keys []string, specs *Specs) []string {
	var first, rest []string
	for _, k := range keys {
		c := specs.Contracts[k]
		if c == nil || c.Cases == nil || c.CaseHi-c.CaseLo > 63 {
			rest = append(rest, k)
			continue
		}
		first = append(first, k+"\tx")
		for n := c.CaseLo; n <= c.CaseHi; n++ {
			first = append(first, fmt.Sprintf("%s\t%d", k, n))
		}
	}
	return append(first, rest...)
}

func mergeParts(rs []*FuncResult) []*FuncResult {
	byKey := map[string]*FuncResult{}
	var out []*FuncResult
	union := func(a, b []string) []string {
		m := map[string]bool{}
		for _, x := range append(append([]string{}, a...), b...) {
			m[x] = true
		}
		return sortedKeys(m)
	}
	for _, r := range rs {
		p := byKey[r.Key]
		if p == nil {
			byKey[r.Key] = r
			out = append(out, r)
			continue
		}
		if p.Err == "" {
			p.Err = r.Err
		}
		p.VCs = append(p.VCs, r.VCs...)
		p.Used, p.Inlined, p.Trusted, p.Warnings = union(p.Used, r.Used), union(p.Inlined, r.Inlined), union(p.Trusted, r.Trusted), union(p.Warnings, r.Warnings)
		p.ExecMs += r.ExecMs
		if r.Clauses > p.Clauses {
			p.Clauses = r.Clauses
		}
		if p.Solver == nil {
			p.Solver, p.Calls = map[string]int64{}, map[string]int{}
		}
		for k, v := range r.Solver {
			p.Solver[k] += v
		}
		for k, v := range r.Calls {
			p.Calls[k] += v
		}
	}
	for _, r := range out {
		sort.SliceStable(r.VCs, func(i, j int) bool { return r.VCs[i].Name < r.VCs[j].Name })
	}
	return out
}
