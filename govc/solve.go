package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// VC is one proof obligation: assumptions |- goal.
type VC struct {
	Func    string
	Name    string
	Kind    string
	Pos     string
	Assume  []*Term
	Goal    *Term
	whole   *Term       // the goal before a failing conjunct replaced it
	Slow    int         // portfolio budget in ms; 0 = slowMs
	ModelOf []NamedTerm // interesting terms for counterexamples
	Expect  string      // "" = must be valid; "sat" = cover (must be satisfiable)

	Status string // "proved","failed","unknown","trivial"
	Solver string
	Millis int64
	Model  string
	Detail string
}
type NamedTerm struct {
	Name string
	T    *Term
}

func collect(t *Term, seen map[int]*Term, order *[]*Term) {
	if _, ok := seen[t.ID]; ok {
		return
	}
	seen[t.ID] = t
	for _, a := range t.Args {
		collect(a, seen, order)
	}
	*order = append(*order, t)
}

func smtScript(assume []*Term, goal *Term, models []NamedTerm, wantModel bool) string {
	seen := map[int]*Term{}
	var order []*Term
	roots := append([]*Term{}, assume...)
	neg := True
	if goal != nil {
		neg = Not(goal)
		roots = append(roots, neg)
	}
	for _, r := range roots {
		collect(r, seen, &order)
	}
	for _, m := range models {
		collect(m.T, seen, &order)
	}
	uses := map[int]int{}
	for _, t := range order {
		for _, a := range t.Args {
			uses[a.ID]++
		}
	}
	hasQ := false
	for _, r := range roots {
		if r.quant {
			hasQ = true
		}
	}
	var sb strings.Builder
	declared := map[string]bool{}
	var facts []string
	names := map[int]string{}
	var defs strings.Builder
	for _, t := range order {
		switch t.Op {
		case OVar:
			if !declared[t.Name] {
				declared[t.Name] = true
				fmt.Fprintf(&sb, "(declare-const %s %s)\n", sym(t.Name), t.Sort.Name)
			}
			if t.Sort == IntS {
				if t.lo != nil {
					facts = append(facts, fmt.Sprintf("(<= %s %s)", smtInt(t.lo), sym(t.Name)))
				}
				if t.hi != nil {
					facts = append(facts, fmt.Sprintf("(<= %s %s)", sym(t.Name), smtInt(t.hi)))
				}
			} else if hasQ && t.Sort.Elem != nil && (t.lo != nil || t.hi != nil) {
				// element range axiom
				var vs, sel = "", sym(t.Name)
				s := t.Sort
				n := 0
				for s.Elem != nil {
					vs += fmt.Sprintf("(q%d Int)", n)
					sel = fmt.Sprintf("(select %s q%d)", sel, n)
					n++
					s = s.Elem
				}
				if s == IntS {
					c := ""
					if t.lo != nil {
						c += fmt.Sprintf(" (<= %s %s)", smtInt(t.lo), sel)
					}
					if t.hi != nil {
						c += fmt.Sprintf(" (<= %s %s)", sel, smtInt(t.hi))
					}
					facts = append(facts, fmt.Sprintf("(forall (%s) (! (and%s) :pattern (%s)))", vs, c, sel))
				}
			}
		case OApp:
			if !declared["f:"+t.Name] {
				declared["f:"+t.Name] = true
				var as []string
				for _, a := range t.Args {
					as = append(as, a.Sort.Name)
				}
				fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", sym(t.Name), strings.Join(as, " "), t.Sort.Name)
				if strings.HasPrefix(t.Name, "inj!") {
					var vs, us, cs string
					for i := range t.Args {
						p := fmt.Sprintf("%s.p%d", t.Name, i)
						fmt.Fprintf(&sb, "(declare-fun %s (Int) Int)\n", sym(p))
						vs += fmt.Sprintf("(a%d Int)", i)
						us += fmt.Sprintf(" a%d", i)
					}
					app := "(" + sym(t.Name) + us + ")"
					for i := range t.Args {
						cs += fmt.Sprintf(" (= (%s %s) a%d)", sym(fmt.Sprintf("%s.p%d", t.Name, i)), app, i)
					}
					fmt.Fprintf(&sb, "(assert (forall (%s) (! (and%s) :pattern (%s))))\n", vs, cs, app)
				}
			}
		}
	}
	// definitions for shared ground terms (topological order)
	for _, t := range order {
		if t.bound || len(t.Args) == 0 {
			continue
		}
		if (t.Op == OSelect || t.Op == OApp) && t.Sort == IntS && (t.lo != nil || t.hi != nil) {
			s := printTerm2(t, names)
			if t.lo != nil {
				facts = append(facts, fmt.Sprintf("(<= %s %s)", smtInt(t.lo), s))
			}
			if t.hi != nil {
				facts = append(facts, fmt.Sprintf("(<= %s %s)", s, smtInt(t.hi)))
			}
		}
		if uses[t.ID] > 1 && !t.quant {
			n := fmt.Sprintf("t!%d", t.ID)
			fmt.Fprintf(&defs, "(define-fun %s () %s %s)\n", n, t.Sort.Name, printTerm2(t, names))
			names[t.ID] = n
		}
	}
	sb.WriteString(defs.String())
	for _, f := range facts {
		sb.WriteString("(assert " + f + ")\n")
	}
	for _, a := range assume {
		if a.IsTrue() {
			continue
		}
		sb.WriteString("(assert " + printTerm(a, names) + ")\n")
	}
	if goal != nil {
		sb.WriteString("(assert " + printTerm(neg, names) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if wantModel && len(models) > 0 {
		for _, m := range models {
			sb.WriteString("(get-value (" + printTerm(m.T, names) + "))\n")
		}
	}
	return sb.String()
}

// printTerm2 prints t itself expanded but its children by name.
func printTerm2(t *Term, names map[int]string) string {
	var sb strings.Builder
	var rec func(x *Term)
	rec = func(x *Term) {
		if x != t {
			if n, ok := names[x.ID]; ok {
				sb.WriteString(n)
				return
			}
		}
		printNode(&sb, x, rec)
	}
	rec(t)
	return sb.String()
}

type backend struct {
	name string
	args func(ms int) []string
	pre  string
}

var backends = []backend{
	{"z3-new", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }, "(set-option :smt.random_seed 1)\n"},
	{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant"}
	}, "(set-logic ALL)\n"},
	{"z3-4.8", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }, ""},
	{"z3-new/mbqi-off", func(ms int) []string {
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"}
	}, "(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n(set-option :smt.arith.solver 2)\n"},
}

var solverTime struct {
	sync.Mutex
	byName map[string]time.Duration
	calls  map[string]int
}

func runBackend(ctx context.Context, b backend, script string, ms int) (string, string) {
	args := b.args(ms)
	c, cancel := context.WithTimeout(ctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(b.pre + script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	solverTime.Lock()
	if solverTime.byName == nil {
		solverTime.byName = map[string]time.Duration{}
		solverTime.calls = map[string]int{}
	}
	solverTime.byName[b.name] += time.Since(t0)
	solverTime.calls[b.name]++
	solverTime.Unlock()
	s := out.String()
	first := strings.TrimSpace(s)
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = strings.TrimSpace(first[:i])
	}
	return first, s
}

var quickMs = 3000
var slowMs = 25000
var dumpDir string
var slowFails atomic.Int32

func (vc *VC) solve() {
	vc.whole = vc.Goal
	t0 := time.Now()
	defer func() { vc.Millis = time.Since(t0).Milliseconds() }()
	if vc.Expect == "" && (vc.Goal.IsTrue()) {
		vc.Status, vc.Solver = "proved", "simplifier"
		return
	}
	goal := vc.Goal
	if vc.Expect == "sat" {
		goal = nil
	}
	if goal != nil {
		vc.Assume, goal = triggered(vc.Assume, goal)
	}
	script := smtScript(vc.Assume, goal, nil, false)
	if dumpDir != "" {
		f := strings.NewReplacer("/", "_", " ", "_", "*", "", "(", "", ")", "").Replace(vc.Func + "__" + vc.Name)
		if len(f) > 180 {
			f = f[:180]
		}
		os.WriteFile(dumpDir+"/"+f+".smt2", []byte(script), 0644)
	}
	ctx := context.Background()
	if goal != nil && !goal.quant {
		// the quantified assumptions may only be in the way
		var as []*Term
		for _, a := range vc.Assume {
			if !a.quant {
				as = append(as, a)
			}
		}
		if len(as) < len(vc.Assume) {
			if r2, _ := runBackend(ctx, backends[0], smtScript(as, goal, nil, false), 700); r2 == "unsat" {
				vc.Status, vc.Solver = "proved", backends[0].name
				return
			}
		}
	}
	if goal != nil && hasReal(goal) {
		// nonlinear real arithmetic: only what is stated of numbers
		var as []*Term
		for _, a := range vc.Assume {
			if plainArith(a) {
				as = append(as, a)
			}
		}
		s2 := smtScript(as, goal, nil, false)
		for _, b := range backends {
			if b.name == "z3-new" || b.name == "z3-4.8" {
				if r2, _ := runBackend(ctx, b, s2, 6000); r2 == "unsat" {
					vc.Status, vc.Solver = "proved", b.name
					return
				}
			}
		}
	}
	r, out := runBackend(ctx, backends[0], script, quickMs)
	if vc.Expect == "sat" {
		if r == "unsat" {
			vc.Status, vc.Solver = "failed", backends[0].name
			vc.Detail = "precondition/path is unreachable (vacuous)"
		} else {
			vc.Status, vc.Solver = "proved", backends[0].name
			if r != "sat" {
				vc.Detail = "cover not refuted (" + r + ")"
			}
		}
		return
	}
	if r == "unsat" {
		vc.Status, vc.Solver = "proved", backends[0].name
		return
	}
	if strings.Contains(r, "error") {
		vc.Status, vc.Detail = "unknown", "solver error: "+out
		return
	}
	if r == "sat" {
		vc.Status, vc.Solver = "failed", backends[0].name
		vc.Model = getModel(vc)
		return
	}
	if parts := splitGoal(goal); len(parts) > 1 {
		// prove the conjuncts one by one
		vc.Status, vc.Solver = "proved", ""
		var wg sync.WaitGroup
		subs := make([]*VC, len(parts))
		sem := make(chan bool, 3)
		for i, p := range parts {
			subs[i] = &VC{Func: vc.Func, Name: fmt.Sprintf("%s.%d", vc.Name, i), Assume: vc.Assume, Goal: p, ModelOf: vc.ModelOf, Slow: vc.Slow}
			wg.Add(1)
			sem <- true
			go func(x *VC) { defer wg.Done(); x.solve(); <-sem }(subs[i])
		}
		wg.Wait()
		for i, x := range subs {
			if vc.Solver == "" || x.Solver != "simplifier" {
				vc.Solver = x.Solver
			}
			if x.Status != "proved" {
				vc.Status, vc.Solver, vc.Model = x.Status, x.Solver, x.Model
				vc.Detail = fmt.Sprintf("conjunct %d of %d: %s", i+1, len(parts), x.Detail)
				vc.Goal = x.Goal
				if x.Status == "failed" {
					return
				}
			}
		}
		return
	}
	if as, g := instantiated(vc.Assume, goal); as != nil {
		if r2, _ := runBackend(ctx, backends[0], smtScript(as, g, nil, false), quickMs); r2 == "unsat" {
			vc.Status, vc.Solver = "proved", backends[0].name
			return
		}
	}
	// fewer quantified assumptions: those about the fresh arrays of the goal, then one step further
	if syms := arraySyms(goal); len(syms) > 0 {
		last := -1
		for level := 0; level < 2; level++ {
			next := map[string]bool{}
			var as []*Term
			nq, all := 0, true
			for _, a := range vc.Assume {
				if !a.quant {
					as = append(as, a)
					continue
				}
				own := arraySyms(a)
				hit := false
				for k := range own {
					if syms[k] {
						hit = true
					}
				}
				if hit {
					as = append(as, a)
					nq++
					for k := range own {
						next[k] = true
					}
				} else {
					all = false
				}
			}
			if all || nq == last {
				break
			}
			last = nq
			if r2, _ := runBackend(ctx, backends[0], smtScript(as, goal, nil, false), quickMs); r2 == "unsat" {
				vc.Status, vc.Solver = "proved", backends[0].name
				return
			}
			for k := range next {
				syms[k] = true
			}
		}
	}
	if slowFails.Load() >= 6 {
		vc.Status, vc.Detail = "unknown", "no long attempt after repeated failures"
		return
	}
	// portfolio
	type res struct{ name, r, out string }
	slow := slowMs
	if vc.Slow > slow {
		slow = vc.Slow
	}
	c2, cancel := context.WithCancel(ctx)
	ch := make(chan res, len(backends))
	for _, b := range backends {
		go func(b backend) {
			r, o := runBackend(c2, b, script, slow)
			ch <- res{b.name, r, o}
		}(b)
	}
	vc.Status = "unknown"
	var details []string
	for range backends {
		x := <-ch
		details = append(details, x.name+": "+x.r)
		if x.r == "unsat" {
			vc.Status, vc.Solver = "proved", x.name
			break
		}
		if x.r == "sat" && !strings.HasPrefix(x.name, "cvc5") {
			vc.Status, vc.Solver = "failed", x.name
			vc.Model = getModel(vc)
			break
		}
	}
	cancel()
	if vc.Status != "proved" {
		slowFails.Add(1)
	}
	sort.Strings(details)
	vc.Detail = strings.Join(details, "; ")
}

func getModel(vc *VC) string {
	if len(vc.ModelOf) == 0 {
		return ""
	}
	script := smtScript(vc.Assume, vc.Goal, vc.ModelOf, true)
	_, out := runBackend(context.Background(), backends[0], "(set-option :produce-models true)\n"+script, quickMs*2)
	lines := strings.Split(out, "\n")
	if len(lines) == 0 || strings.TrimSpace(lines[0]) != "sat" {
		return ""
	}
	return strings.Join(lines[1:], "\n")
}

func solveAll(vcs []*VC, workers int) {
	var wg sync.WaitGroup
	ch := make(chan *VC)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for v := range ch {
				v.solve()
			}
		}()
	}
	for _, v := range vcs {
		ch <- v
	}
	close(ch)
	wg.Wait()
	// a few obligations left undecided: once more, one at a time, with more time and other seeds
	var left []*VC
	for _, v := range vcs {
		if v.Status == "failed" {
			return
		}
		if v.Status == "unknown" {
			left = append(left, v)
		}
	}
	if len(left) > 5 {
		return
	}
	t0 := time.Now()
	for _, v := range left {
		if time.Since(t0) > 120*time.Second || !v.again(workers) {
			return
		}
	}
}

// again retries an undecided obligation conjunct by conjunct.
func (vc *VC) again(workers int) bool {
	for _, g := range splitGoal(vc.goal0()) {
		as0, g := triggered(vc.Assume, g)
		script := smtScript(as0, g, nil, false)
		scripts := []string{"(set-option :smt.random_seed 3)\n" + script, "(set-option :smt.random_seed 11)\n(set-option :smt.arith.solver 2)\n" + script, script, script}
		names := []int{0, 0, 1, 2}
		if as, h := instantiated(as0, g); as != nil {
			scripts = append(scripts, smtScript(as, h, nil, false))
			names = append(names, 0)
		}
		c2, cancel := context.WithCancel(context.Background())
		type res struct{ name, r string }
		ch := make(chan res, len(scripts))
		for i := range scripts {
			go func(i int) {
				r, _ := runBackend(c2, backends[names[i]], scripts[i], slowMs*2)
				ch <- res{backends[names[i]].name, r}
			}(i)
		}
		ok := ""
		for range scripts {
			if x := <-ch; x.r == "unsat" {
				ok = x.name
				break
			}
		}
		cancel()
		if ok == "" {
			return false
		}
		vc.Solver = ok
	}
	vc.Status, vc.Detail, vc.Goal = "proved", "second attempt", vc.goal0()
	return true
}

func (vc *VC) goal0() *Term {
	if vc.whole != nil {
		return vc.whole
	}
	return vc.Goal
}

var quickRlimit = "300000"

// quickSolve decides c under quantifier-free assumptions with a small budget: 1 valid, -1 its
// negation valid, 0 undecided.
func (t *Task) quickSolve(as []*Term, c *Term) int {
	ctx := context.Background()
	if os.Getenv("GOVC_QS") != "" {
		t0 := time.Now()
		defer func() {
			s := c.String()
			if len(s) > 300 {
				s = s[:300]
			}
			fmt.Fprintf(os.Stderr, "QS %d assume %d ms %s\n", len(as), time.Since(t0).Milliseconds(), s)
		}()
	}
	// a resource limit, not a time limit: the same answer on a busy machine
	lim := "(set-option :rlimit " + quickRlimit + ")\n"
	r, _ := runBackend(ctx, backends[0], lim+smtScript(as, c, nil, false), 5000)
	if r == "unsat" {
		return 1
	}
	r, _ = runBackend(ctx, backends[0], lim+smtScript(as, Not(c), nil, false), 5000)
	if r == "unsat" {
		return -1
	}
	return 0
}

// splitGoal breaks a conjunction (possibly under an implication) into its parts.
func splitGoal(g *Term) []*Term {
	switch g.Op {
	case OAnd:
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case OOr:
		// implication: exactly one conjunctive disjunct
		k := -1
		for i, a := range g.Args {
			if a.Op == OAnd {
				if k >= 0 {
					return []*Term{g}
				}
				k = i
			}
		}
		if k < 0 {
			return []*Term{g}
		}
		var out []*Term
		for _, p := range splitGoal(g.Args[k]) {
			as := append([]*Term{}, g.Args...)
			as[k] = p
			out = append(out, Or(as...))
		}
		return out
	}
	return []*Term{g}
}

// arraySyms collects the array constants introduced along the path that a term mentions.
func arraySyms(t *Term) map[string]bool {
	out := map[string]bool{}
	seen := map[int]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x.ID] {
			return
		}
		seen[x.ID] = true
		if x.Op == OVar && strings.Contains(x.Name, "!") && strings.HasPrefix(x.Sort.Name, "(Array") {
			out[x.Name] = true
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t)
	return out
}

var skN atomic.Int64

// skolem strips the universal quantifiers of a goal, replacing their variables by fresh constants.
func skolem(g *Term, cs *[]*Term) *Term {
	switch g.Op {
	case OForall:
		c := Var(fmt.Sprintf("sk!%d", skN.Add(1)), IntS, nil, nil)
		*cs = append(*cs, c)
		return skolem(Subst(g.Args[1], map[*Term]*Term{g.Args[0]: c}), cs)
	case OOr, OAnd:
		as := make([]*Term, len(g.Args))
		for i, a := range g.Args {
			as[i] = skolem(a, cs)
		}
		if g.Op == OOr {
			return Or(as...)
		}
		return And(as...)
	}
	return g
}

// instances of an assumption at the candidate terms (weaker than the assumption itself).
func instances(a *Term, cands []*Term, depth int, budget *int) []*Term {
	if !a.quant {
		return []*Term{a}
	}
	switch a.Op {
	case OForall:
		var out []*Term
		if depth > 2 {
			return nil
		}
		for _, c := range cands {
			if *budget <= 0 {
				break
			}
			*budget--
			out = append(out, instances(Subst(a.Args[1], map[*Term]*Term{a.Args[0]: c}), cands, depth+1, budget)...)
		}
		return out
	case OAnd:
		var out []*Term
		for _, x := range a.Args {
			out = append(out, instances(x, cands, depth, budget)...)
		}
		return out
	case OOr:
		k := -1
		for i, x := range a.Args {
			if x.quant {
				if k >= 0 {
					return nil
				}
				k = i
			}
		}
		if k < 0 {
			return []*Term{a}
		}
		var out []*Term
		for _, x := range instances(a.Args[k], cands, depth, budget) {
			as := append([]*Term{}, a.Args...)
			as[k] = x
			out = append(out, Or(as...))
		}
		return out
	}
	return nil
}

// instantiated gives a quantifier-free weakening of the assumptions at the terms that the goal speaks of.
func instantiated(assume []*Term, goal *Term) ([]*Term, *Term) {
	var cands []*Term
	g := skolem(goal, &cands)
	if g.quant || len(cands) > 4 {
		return nil, nil
	}
	have := map[int]bool{}
	seen := map[int]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x.ID] {
			return
		}
		seen[x.ID] = true
		if x.Op == OSelect && x.Args[1].Op != OInt && !x.Args[1].bound && !have[x.Args[1].ID] && len(cands) < 8 {
			have[x.Args[1].ID] = true
			cands = append(cands, x.Args[1])
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(g)
	if len(cands) == 0 {
		return nil, nil
	}
	var out []*Term
	for _, a := range assume {
		budget := 80
		out = append(out, instances(a, cands, 0, &budget)...)
	}
	return out, g
}

func hasReal(t *Term) bool {
	return anyTerm(t, map[*Term]bool{}, func(x *Term) bool { return x.Sort == RealS })
}

// plainArith: no arrays, quantifiers or integer division
func plainArith(t *Term) bool {
	return !t.quant && !anyTerm(t, map[*Term]bool{}, func(x *Term) bool {
		return x.Op == OSelect || x.Op == OStore || x.Op == ODiv || x.Op == OMod
	})
}

func anyTerm(t *Term, seen map[*Term]bool, f func(*Term) bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if anyTerm(a, seen, f) {
			return true
		}
	}
	return false
}

// triggered adds the instances of quantified assumptions with a trigger at the ground terms that match it
// (the goal's universal quantifiers are replaced by fresh constants).
func triggered(assume []*Term, goal *Term) ([]*Term, *Term) {
	any := false
	for _, a := range assume {
		if a.quant && anyTerm(a, map[*Term]bool{}, func(x *Term) bool { return x.Op == OForall && len(x.Args) > 2 }) {
			any = true
			break
		}
	}
	if !any {
		return assume, goal
	}
	var cands []*Term
	goal = skolem(goal, &cands)
	if goal.Op == OOr {
		// quantified premises of the goal become assumptions
		var rest []*Term
		assume = append([]*Term{}, assume...)
		for _, d := range goal.Args {
			if d.quant {
				assume = append(assume, Not(d))
			} else {
				rest = append(rest, d)
			}
		}
		goal = Or(rest...)
	}
	have := map[int]bool{}
	for _, a := range assume {
		have[a.ID] = true
	}
	seen := map[*Term]bool{}
	ground := map[string][]*Term{}
	collect := func(t *Term) {
		anyTerm(t, seen, func(x *Term) bool {
			if x.Op == OApp && !x.bound {
				ground[x.Name] = append(ground[x.Name], x)
			}
			return false
		})
	}
	for _, a := range assume {
		collect(a)
	}
	collect(goal)
	var inst func(a *Term, out *[]*Term, budget *int) bool // whether a weakening without triggered quantifiers was found
	inst = func(a *Term, out *[]*Term, budget *int) bool {
		switch a.Op {
		case OAnd:
			for _, x := range a.Args {
				if x.quant {
					inst(x, out, budget)
				}
			}
			return true
		case OForall:
			if len(a.Args) < 3 || a.Args[2].Op != OApp {
				return false
			}
			tr := a.Args[2]
			for _, g := range ground[tr.Name] {
				if *budget <= 0 {
					break
				}
				m := map[*Term]*Term{}
				ok := len(g.Args) == len(tr.Args)
				for i, p := range tr.Args {
					if !ok {
						break
					}
					if p == a.Args[0] {
						if m[p] != nil && m[p] != g.Args[i] {
							ok = false
						}
						m[p] = g.Args[i]
					} else if p != g.Args[i] {
						ok = false
					}
				}
				if !ok || m[a.Args[0]] == nil {
					continue
				}
				b := Subst(a.Args[1], m)
				if b.quant {
					inst(b, out, budget)
				} else if !have[b.ID] {
					have[b.ID] = true
					*budget--
					*out = append(*out, b)
				}
			}
			return true
		case OOr:
			k := -1
			for i, x := range a.Args {
				if x.quant {
					if k >= 0 {
						return false
					}
					k = i
				}
			}
			if k < 0 {
				return false
			}
			var sub []*Term
			r := inst(a.Args[k], &sub, budget)
			for _, x := range sub {
				as := append([]*Term{}, a.Args...)
				as[k] = x
				*out = append(*out, Or(as...))
			}
			return r
		}
		return false
	}
	res := append([]*Term{}, assume...)
	budget := 300
	for round := 0; round < 2; round++ {
		var out []*Term
		for _, a := range assume {
			if a.quant {
				inst(a, &out, &budget)
			}
		}
		res = append(res, out...)
		for _, x := range out {
			collect(x)
		}
		if len(out) == 0 {
			break
		}
	}
	return res, goal
}
