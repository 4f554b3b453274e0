package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Label string
	Text  string
	Expr  ast.Expr
	Line  int
	File  string
}

type LoopSpec struct {
	Invs   []Clause
	Unroll int
	Pin    bool // variables the invariants equate with an expression take that expression's value
	Havoc  []Clause
}

type Contract struct {
	Key           string
	Pkg           string
	File          string
	Line          int
	Props         []string
	Requires      []Clause
	Ensures       []Clause
	PanicsIf      []Clause
	Modifies      []Clause
	Dyn           map[string]string
	Asserts       []Assert // proved, then assumed, whenever the local variable is assigned
	Recv          []Clause // assumed of every value msg received from a channel
	Setup         []Clause // lhs = rhs equalities executed on the initial state
	Nilable       []Clause
	Lets          []Clause // name = expr (old-state values)
	Loops         map[int]*LoopSpec
	Inline        bool
	Trusted       bool
	MayPanic      bool
	NoCover       bool
	Prune         bool
	Unroll        int
	Returns       []Clause // resultK = expr
	Fresh         []string
	ModAll        bool
	Lemma         bool
	Params        []string
	Bounded       string
	Timeout       int
	InlineCallees map[string]bool
	Cases         *Clause // case split: lvalue over lo..hi
	CaseLo        int64
	CaseHi        int64
}

type Macro struct {
	Name   string
	Params []string
	Body   Clause
}
type UFun struct {
	Name   string
	Ret    string
	NArg   int
	Args   []string
	Lo, Hi *big.Int
	IsArr  bool
}

type Assert struct {
	Var    string
	Clause Clause
}

type Specs struct {
	Contracts map[string]*Contract
	Macros    map[string]*Macro
	UFuns     map[string]*UFun
	Axioms    []Clause
	Order     []string
}

var clauseWords = map[string]bool{"prop": true, "requires": true, "ensures": true, "modifies": true, "panics_if": true, "setup": true,
	"loop": true, "inv": true, "inline": true, "trusted": true, "maypanic": true, "nilable": true, "let": true, "func": true, "package": true,
	"def": true, "ufun": true, "axiom": true, "prune": true, "unroll": true, "returns": true, "fresh": true, "modall": true, "lemma": true, "nocover": true, "bounded": true, "timeout": true, "inlining": true, "cases": true, "dyntype": true, "recv": true, "assert": true}

func newSpecs() *Specs {
	return &Specs{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, UFuns: map[string]*UFun{}}
}

func (s *Specs) parseFile(path string) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	type ln struct {
		n    int
		text string
	}
	var lines []ln
	n := 0
	for sc.Scan() {
		n++
		l := sc.Text()
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		tr := strings.TrimSpace(l)
		if tr == "" {
			continue
		}
		w := strings.Fields(tr)[0]
		if clauseWords[w] {
			lines = append(lines, ln{n, tr})
		} else {
			if len(lines) == 0 {
				return fmt.Errorf("%s:%d: unexpected %q", path, n, tr)
			}
			lines[len(lines)-1].text += " " + tr
		}
	}
	pkg := ""
	var cur *Contract
	var curLoop *LoopSpec
	for _, l := range lines {
		w := strings.Fields(l.text)[0]
		rest := strings.TrimSpace(l.text[len(w):])
		mkClause := func(r string) (Clause, error) {
			c := Clause{Line: l.n, File: path}
			if strings.HasPrefix(r, "[") {
				if i := strings.Index(r, "]"); i > 0 {
					c.Label = r[1:i]
					r = strings.TrimSpace(r[i+1:])
				}
			}
			c.Text = r
			e, err := parser.ParseExpr(r)
			if err != nil {
				return c, fmt.Errorf("%s:%d: %v in %q", path, l.n, err, r)
			}
			c.Expr = e
			return c, nil
		}
		add := func(dst *[]Clause) error {
			c, err := mkClause(rest)
			if err != nil {
				return err
			}
			if c.Label == "" {
				c.Label = fmt.Sprintf("%d", len(*dst)+1)
			}
			*dst = append(*dst, c)
			return nil
		}
		var e error
		switch w {
		case "package":
			pkg = rest
			cur = nil
		case "func", "lemma":
			cur = &Contract{Key: modPath + "/" + pkg + "." + rest, Pkg: pkg, File: path, Line: l.n, Loops: map[int]*LoopSpec{}, InlineCallees: map[string]bool{}}
			if strings.Contains(rest, "/") { // absolute key
				cur.Key = strings.TrimPrefix(rest, "/")
			}
			cur.Lemma = w == "lemma"
			if s.Contracts[cur.Key] != nil {
				return fmt.Errorf("%s:%d: duplicate contract for %s", path, l.n, cur.Key)
			}
			s.Contracts[cur.Key] = cur
			s.Order = append(s.Order, cur.Key)
			curLoop = nil
		case "def":
			// name(params) = expr
			i := strings.Index(rest, "=")
			head, body := rest[:i], rest[i+1:]
			o := strings.Index(head, "(")
			name := strings.TrimSpace(head[:o])
			ps := strings.TrimSpace(head[o+1 : strings.LastIndex(head, ")")])
			m := &Macro{Name: name}
			if ps != "" {
				for _, p := range strings.Split(ps, ",") {
					m.Params = append(m.Params, strings.TrimSpace(p))
				}
			}
			m.Body, e = mkClause(strings.TrimSpace(body))
			if o := s.Macros[name]; o != nil && o.Body.Text != m.Body.Text {
				return fmt.Errorf("%s:%d: macro %s is already defined otherwise", path, l.n, name)
			}
			s.Macros[name] = m
		case "ufun":
			// name(kinds) kind [lo hi]
			o := strings.Index(rest, "(")
			c := strings.Index(rest, ")")
			u := &UFun{Name: strings.TrimSpace(rest[:o])}
			for _, a := range strings.Split(rest[o+1:c], ",") {
				u.Args = append(u.Args, strings.TrimSpace(a))
			}
			fs := strings.Fields(rest[c+1:])
			u.Ret = fs[0]
			if len(fs) == 3 {
				u.Lo, _ = new(big.Int).SetString(fs[1], 0)
				u.Hi, _ = new(big.Int).SetString(fs[2], 0)
			}
			if o := s.UFuns[u.Name]; o != nil && fmt.Sprint(o) != fmt.Sprint(u) {
				return fmt.Errorf("%s:%d: function %s is already declared otherwise", path, l.n, u.Name)
			}
			s.UFuns[u.Name] = u
		case "axiom":
			c, err := mkClause(rest)
			if err != nil {
				return err
			}
			s.Axioms = append(s.Axioms, c)
		default:
			if cur == nil {
				return fmt.Errorf("%s:%d: clause outside func", path, l.n)
			}
			switch w {
			case "prop":
				cur.Props = append(cur.Props, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
			case "requires":
				e = add(&cur.Requires)
			case "ensures":
				e = add(&cur.Ensures)
			case "assert":
				// assert VAR EXPR
				vn, ex, _ := strings.Cut(rest, " ")
				rest = ex
				var cs []Clause
				if e = add(&cs); e == nil {
					cs[0].Label = vn
					cur.Asserts = append(cur.Asserts, Assert{vn, cs[0]})
				}
			case "recv":
				e = add(&cur.Recv)
			case "panics_if":
				e = add(&cur.PanicsIf)
			case "modifies":
				for _, p := range splitTop(rest) {
					c, err := mkClause(p)
					if err != nil {
						return err
					}
					cur.Modifies = append(cur.Modifies, c)
				}
			case "setup", "let", "returns":
				i := strings.Index(rest, "=")
				c, err := mkClause(strings.TrimSpace(rest[i+1:]))
				if err != nil {
					return err
				}
				c.Label = strings.TrimSpace(rest[:i])
				switch w {
				case "setup":
					cur.Setup = append(cur.Setup, c)
				case "let":
					cur.Lets = append(cur.Lets, c)
				default:
					cur.Returns = append(cur.Returns, c)
				}
			case "cases":
				// cases LVALUE = LO HI
				i := strings.Index(rest, "=")
				c, err := mkClause(strings.TrimSpace(rest[:i]))
				if err != nil {
					return err
				}
				fs := strings.Fields(rest[i+1:])
				cur.CaseLo, _ = strconv.ParseInt(fs[0], 10, 64)
				cur.CaseHi, _ = strconv.ParseInt(fs[1], 10, 64)
				cur.Cases = &c
			case "nilable":
				e = add(&cur.Nilable)
			case "loop":
				k, err := strconv.Atoi(strings.Fields(rest)[0])
				if err != nil {
					return fmt.Errorf("%s:%d: loop number", path, l.n)
				}
				curLoop = &LoopSpec{}
				cur.Loops[k] = curLoop
				fs := strings.Fields(rest)
				if len(fs) == 3 && fs[1] == "unroll" {
					curLoop.Unroll, _ = strconv.Atoi(fs[2])
				}
				curLoop.Pin = len(fs) == 2 && fs[1] == "pin"
			case "inv":
				if curLoop == nil {
					return fmt.Errorf("%s:%d: inv outside loop", path, l.n)
				}
				e = add(&curLoop.Invs)
			case "inline":
				cur.Inline = true
			case "trusted":
				cur.Trusted = true
			case "maypanic":
				cur.MayPanic = true
			case "prune":
				cur.Prune = true
			case "nocover":
				cur.NoCover = true
			case "modall":
				cur.ModAll = true
			case "unroll":
				cur.Unroll, _ = strconv.Atoi(rest)
			case "timeout":
				cur.Timeout, _ = strconv.Atoi(rest)
			case "dyntype":
				// dyntype PARAM TYPE: the interface parameter holds a value of this type
				if w := strings.Fields(rest); len(w) == 2 {
					if cur.Dyn == nil {
						cur.Dyn = map[string]string{}
					}
					cur.Dyn[w[0]] = w[1]
				}
			case "fresh":
				cur.Fresh = append(cur.Fresh, strings.Fields(rest)...)
			case "bounded":
				cur.Bounded = rest
			case "inlining":
				for _, f := range strings.Fields(rest) {
					cur.InlineCallees[f] = true
				}
			}
		}
		if e != nil {
			return e
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// ---- evaluation ----

// SV is a specification value. typ nil: mathematical int/bool (by sort) or a sequence.
type SV struct {
	v     Val
	typ   types.Type
	seq   bool // v[0] = array term
	isNil bool
	isStr bool
}

type SpecCtx struct {
	t        *Task
	st       *State
	old      *State
	env      map[string]SV
	pkg      *types.Package
	fr       *frameEnv // for locals
	frFn     *ssa.Function
	lp       *loop
	outer    []localFrame
	iter     *Term
	res      []SV
	depth    int
	entryCtx *SpecCtx
	// collecting identity equations in an assumed clause (assumeEnsures)
	collect *[]bindReq
	guards  []*Term
	noBind  bool
}

// bindReq: lhs must denote the object(s) rhs denotes, under the guard
type bindReq struct {
	lhs   ast.Expr
	ctx   *SpecCtx
	old   Val
	val   Val
	n     int
	guard *Term
}
type localFrame struct {
	fr *frameEnv
	fn *ssa.Function
}

type specErr struct{ msg string }

func (e specErr) Error() string   { return e.msg }
func specFail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (c *SpecCtx) Bool(cl Clause) *Term {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				if !strings.Contains(se.msg, cl.Text) {
					se.msg = fmt.Sprintf("%s:%d: %s (in %s)", cl.File, cl.Line, se.msg, cl.Text)
				}
				panic(se)
			}
			panic(r)
		}
	}()
	v := c.eval(cl.Expr)
	if len(v.v) != 1 || v.v[0].Sort != BoolS {
		specFail("not a boolean: %s", cl.Text)
	}
	return v.v[0]
}

func mathInt(t *Term) SV  { return SV{v: Val{t}} }
func mathBool(t *Term) SV { return SV{v: Val{t}} }

func (c *SpecCtx) int(e ast.Expr) *Term {
	v := c.eval(e)
	if len(v.v) != 1 || v.v[0].Sort != IntS {
		specFail("integer expected: %s", exprStr(e))
	}
	return v.v[0]
}
func (c *SpecCtx) boolE(e ast.Expr) *Term {
	v := c.eval(e)
	if len(v.v) != 1 || v.v[0].Sort != BoolS {
		specFail("boolean expected: %s", exprStr(e))
	}
	return v.v[0]
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (c *SpecCtx) ident(name string) (SV, bool) {
	if v, ok := c.env[name]; ok {
		return v, true
	}
	switch name {
	case "true":
		return mathBool(True), true
	case "false":
		return mathBool(False), true
	case "nil":
		return SV{v: Val{Num(0)}, isNil: true}, true
	case "iter":
		if c.iter != nil {
			return mathInt(c.iter), true
		}
	case "iook":
		return mathBool(iook()), true
	case "result":
		if len(c.res) > 0 {
			return c.res[0], true
		}
	}
	if strings.HasPrefix(name, "result") && len(name) == 7 {
		k := int(name[6] - '0')
		if k < len(c.res) {
			return c.res[k], true
		}
	}
	// locals
	if c.fr != nil {
		if c.lp != nil && c.iter != nil && c.t.eng.rangeKey(c.frFn, c.lp, name) {
			return mathInt(c.iter), true
		}
		frames := append([]localFrame{{c.fr, c.frFn}}, c.outer...)
		for _, lf := range frames {
			if v, ok := c.local(lf, name); ok {
				return v, true
			}
		}
	}
	if c.pkg != nil {
		if o := c.pkg.Scope().Lookup(name); o != nil {
			switch k := o.(type) {
			case *types.Const:
				return SV{v: constToVal(k.Val(), k.Type()), typ: k.Type()}, true
			case *types.Var:
				l := &Loc{Kind: "G:" + c.pkg.Path() + "." + name, Typ: k.Type(), Root: k.Type()}
				c.t.initGlobal(c.st, l)
				return SV{v: c.st.load(l), typ: k.Type()}, true
			}
		}
	}
	return SV{}, false
}

// localLoc finds the cell of a local (or captured) variable.
func (c *SpecCtx) localLoc(lf localFrame, name string) *Loc {
	var best *ssa.Alloc
	for _, b := range lf.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
				if _, def := lf.fr.regs[a]; def {
					if best == nil || a.Pos() >= best.Pos() {
						best = a
					}
				}
			}
		}
	}
	if best != nil {
		return c.st.deref(lf.fr.regs[best][0], best.Type().Underlying().(*types.Pointer).Elem())
	}
	for _, p := range lf.fn.Params {
		if p.Name() == name {
			return nil
		}
	}
	for _, f := range lf.fn.FreeVars {
		if f.Name() == name {
			return c.st.deref(lf.fr.regs[f][0], f.Type().(*types.Pointer).Elem())
		}
	}
	if a := c.t.eng.aliases(lf.fn)[name]; a != "" && a != name {
		return c.localLoc(lf, a)
	}
	return nil
}

func (c *SpecCtx) local(lf localFrame, name string) (SV, bool) {
	if l := c.localLoc(lf, name); l != nil {
		return SV{v: c.st.load(l), typ: l.Typ}, true
	}
	for i, p := range lf.fn.Params {
		if p.Name() == name {
			return SV{v: lf.fr.regs[lf.fn.Params[i]], typ: p.Type()}, true
		}
	}
	if a := c.t.eng.aliases(lf.fn)[name]; a != "" && a != name {
		return c.local(lf, a)
	}
	return SV{}, false
}

func (c *SpecCtx) withState(st *State) *SpecCtx {
	n := *c
	n.st = st
	return &n
}

func (c *SpecCtx) eval(e ast.Expr) SV {
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 200 {
		specFail("spec recursion too deep")
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT, token.CHAR:
			v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
			b, _ := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
			return mathInt(NumB(b))
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return SV{v: strVal(s), typ: types.Typ[types.String]}
		}
	case *ast.Ident:
		if v, ok := c.ident(x.Name); ok {
			return v
		}
		if m, ok := c.t.eng.specs.Macros[x.Name]; ok && len(m.Params) == 0 {
			return c.macro(m, nil)
		}
		specFail("unknown name %s", x.Name)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return mathBool(Not(c.without().boolE(x.X)))
		case token.SUB:
			return mathInt(Neg(c.int(x.X)))
		case token.AND:
			l := c.loc(x.X)
			return SV{v: Val{c.t.ptrTo(l)}, typ: types.NewPointer(l.Typ)}
		}
	case *ast.StarExpr:
		p := c.eval(x.X)
		et := p.typ.Underlying().(*types.Pointer).Elem()
		return SV{v: c.st.load(c.st.deref(p.v[0], et)), typ: et}
	case *ast.BinaryExpr:
		return c.binary(x)
	case *ast.SelectorExpr:
		return c.selector(x)
	case *ast.IndexExpr:
		b := c.eval(x.X)
		if b.seq {
			return SV{v: Val{Select(b.v[0], c.int(x.Index))}}
		}
		return c.index(b, x.Index)
	case *ast.SliceExpr:
		b := c.eval(x.X)
		lo := Num(0)
		if x.Low != nil {
			lo = c.int(x.Low)
		}
		switch u := b.typ.Underlying().(type) {
		case *types.Slice:
			hi := b.v[2]
			if x.High != nil {
				hi = c.int(x.High)
			}
			return SV{v: Val{b.v[0], Add(b.v[1], lo), Sub(hi, lo), Sub(b.v[3], lo)}, typ: b.typ}
		case *types.Basic:
			hi := b.v[2]
			if x.High != nil {
				hi = c.int(x.High)
			}
			return SV{v: Val{b.v[0], Add(b.v[1], lo), Sub(hi, lo)}, typ: b.typ}
		case *types.Array:
			l := c.loc(x.X)
			hi := Num(u.Len())
			if x.High != nil {
				hi = c.int(x.High)
			}
			var ref *Term
			if l.Ref != nil && len(l.Idx) == 0 && l.Lo == 0 && l.Kind == sliceKind(u.Elem()) {
				ref = l.Ref
			} else {
				ref = c.t.exotic(&Exotic{Loc: l})
			}
			return SV{v: Val{ref, lo, Sub(hi, lo), Sub(Num(u.Len()), lo)}, typ: types.NewSlice(u.Elem())}
		}
	case *ast.CallExpr:
		return c.call(x)
	}
	specFail("unsupported spec expression %s", exprStr(e))
	return SV{}
}

// loc evaluates an lvalue.
func (c *SpecCtx) loc(e ast.Expr) *Loc {
	switch x := e.(type) {
	case *ast.Ident:
		if c.fr != nil {
			if l := c.localLoc(localFrame{c.fr, c.frFn}, x.Name); l != nil {
				return l
			}
		}
	case *ast.ParenExpr:
		return c.loc(x.X)
	case *ast.StarExpr:
		p := c.eval(x.X)
		return c.st.deref(p.v[0], p.typ.Underlying().(*types.Pointer).Elem())
	case *ast.SelectorExpr:
		// base pointer or lvalue struct
		b := c.tryEval(x.X)
		if b != nil && b.typ != nil {
			if p, ok := b.typ.Underlying().(*types.Pointer); ok {
				st, ok := p.Elem().Underlying().(*types.Struct)
				if !ok {
					specFail("field of non-struct %s", exprStr(e))
				}
				return c.fieldLoc(c.st.deref(b.v[0], p.Elem()), st, x.Sel.Name)
			}
		}
		l := c.loc(x.X)
		st, ok := l.Typ.Underlying().(*types.Struct)
		if !ok {
			specFail("field of non-struct %s", exprStr(e))
		}
		return c.fieldLoc(l, st, x.Sel.Name)
	case *ast.IndexExpr:
		b := c.eval(x.X)
		if s, ok := b.typ.Underlying().(*types.Slice); ok {
			return c.st.arrLoc(b.v[0], s.Elem()).elem(Add(b.v[1], c.int(x.Index)), s.Elem())
		}
		if p, ok := b.typ.Underlying().(*types.Pointer); ok {
			a := p.Elem().Underlying().(*types.Array)
			return c.st.deref(b.v[0], p.Elem()).elem(c.int(x.Index), a.Elem())
		}
		l := c.loc(x.X)
		a := l.Typ.Underlying().(*types.Array)
		return l.elem(c.int(x.Index), a.Elem())
	}
	specFail("not an lvalue: %s", exprStr(e))
	return nil
}

func (c *SpecCtx) tryEval(e ast.Expr) (r *SV) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(specErr); ok {
				r = nil
				return
			}
			panic(x)
		}
	}()
	v := c.eval(e)
	return &v
}

func (c *SpecCtx) fieldLoc(l *Loc, st *types.Struct, name string) *Loc {
	if i := c.t.eng.fieldIndex(st, name); i >= 0 {
		return l.field(st, i)
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			if s2, ok := f.Type().Underlying().(*types.Struct); ok && hasField(s2, name) {
				return c.fieldLoc(l.field(st, i), s2, name)
			}
			if p, ok := f.Type().Underlying().(*types.Pointer); ok {
				if s2, ok := p.Elem().Underlying().(*types.Struct); ok && hasField(s2, name) {
					v := c.st.load(l.field(st, i))
					return c.fieldLoc(c.st.deref(v[0], p.Elem()), s2, name)
				}
			}
		}
	}
	specFail("no field %s in %s", name, l.Typ)
	return nil
}
func hasField(st *types.Struct, name string) bool {
	if theEngine != nil && theEngine.fieldIndex(st, name) >= 0 {
		return true
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
		if st.Field(i).Embedded() {
			t := st.Field(i).Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			if s2, ok := t.(*types.Struct); ok && hasField(s2, name) {
				return true
			}
		}
	}
	return false
}

func (c *SpecCtx) selector(x *ast.SelectorExpr) SV {
	// package-qualified constant?
	if id, ok := x.X.(*ast.Ident); ok {
		if _, bound := c.ident(id.Name); !bound && c.pkg != nil {
			for _, imp := range c.pkg.Imports() {
				if imp.Name() == id.Name {
					o := imp.Scope().Lookup(x.Sel.Name)
					if k, ok := o.(*types.Const); ok {
						return SV{v: constToVal(k.Val(), k.Type()), typ: k.Type()}
					}
					if k, ok := o.(*types.Var); ok {
						l := &Loc{Kind: "G:" + imp.Path() + "." + x.Sel.Name, Typ: k.Type(), Root: k.Type()}
						c.t.initGlobal(c.st, l)
						return SV{v: c.st.load(l), typ: k.Type()}
					}
				}
			}
		}
	}
	b := c.eval(x.X)
	if b.typ == nil {
		specFail("selector on untyped value %s", exprStr(x))
	}
	if p, ok := b.typ.Underlying().(*types.Pointer); ok {
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			specFail("selector on %s", b.typ)
		}
		l := c.fieldLoc(c.st.deref(b.v[0], p.Elem()), st, x.Sel.Name)
		return SV{v: c.st.load(l), typ: l.Typ}
	}
	if st, ok := b.typ.Underlying().(*types.Struct); ok {
		o := 0
		fi := c.t.eng.fieldIndex(st, x.Sel.Name)
		for i := 0; i < st.NumFields(); i++ {
			n := nLeaves(st.Field(i).Type())
			if i == fi {
				return SV{v: b.v[o : o+n], typ: st.Field(i).Type()}
			}
			o += n
		}
		o = 0
		for i := 0; i < st.NumFields(); i++ {
			n := nLeaves(st.Field(i).Type())
			if st.Field(i).Embedded() {
				if s2, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && hasField(s2, x.Sel.Name) {
					sub := *c
					sub.env = map[string]SV{"$e": {v: b.v[o : o+n], typ: st.Field(i).Type()}}
					return sub.selector(&ast.SelectorExpr{X: ast.NewIdent("$e"), Sel: x.Sel})
				}
			}
			o += n
		}
	}
	specFail("no field %s in %s", x.Sel.Name, b.typ)
	return SV{}
}

func (c *SpecCtx) index(b SV, ie ast.Expr) SV {
	if b.typ == nil {
		specFail("index of untyped value")
	}
	switch u := b.typ.Underlying().(type) {
	case *types.Slice:
		i := c.int(ie)
		l := c.st.arrLoc(b.v[0], u.Elem()).elem(Add(b.v[1], i), u.Elem())
		return SV{v: c.st.load(l), typ: u.Elem()}
	case *types.Array:
		i := c.int(ie)
		out := make(Val, len(b.v))
		for k := range out {
			out[k] = Select(b.v[k], i)
		}
		return SV{v: c.st.norm(out, u.Elem()), typ: u.Elem()}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		i := c.int(ie)
		l := c.st.deref(b.v[0], u.Elem()).elem(i, a.Elem())
		return SV{v: c.st.load(l), typ: a.Elem()}
	case *types.Basic:
		i := c.int(ie)
		return SV{v: Val{Select(b.v[0], Add(b.v[1], i))}, typ: types.Typ[types.Uint8]}
	case *types.Map:
		k := c.mapKeyOf(u, ie)
		cur := c.st.loadRaw(mapLoc(b.v[0], u))
		n := nLeaves(u.Elem())
		out := make(Val, n)
		for j := 0; j < n; j++ {
			out[j] = Select(cur[1+j], k)
		}
		return SV{v: c.st.norm(out, u.Elem()), typ: u.Elem()}
	}
	specFail("cannot index %s", b.typ)
	return SV{}
}

func (c *SpecCtx) mapKeyOf(m *types.Map, ke ast.Expr) *Term {
	kv := c.eval(ke)
	return c.t.mapKey(c.st, kv.v, m.Key())
}

func (c *SpecCtx) binary(x *ast.BinaryExpr) SV {
	switch x.Op {
	case token.LAND:
		a := c.boolE(x.X)
		if a.IsFalse() {
			return mathBool(False)
		}
		return mathBool(And(a, c.boolE(x.Y)))
	case token.LOR:
		c = c.without()
		a := c.boolE(x.X)
		if a.IsTrue() {
			return mathBool(True)
		}
		return mathBool(Or(a, c.boolE(x.Y)))
	case token.EQL, token.NEQ:
		a, b := c.eval(x.X), c.eval(x.Y)
		r := c.equal(a, b)
		if x.Op == token.NEQ {
			r = Not(r)
		}
		return mathBool(r)
	}
	av, bv := c.eval(x.X), c.eval(x.Y)
	if len(av.v) != 1 || len(bv.v) != 1 {
		specFail("arithmetic on non-scalars: %s", exprStr(x))
	}
	a, b := av.v[0], bv.v[0]
	if a.Sort == RealS || b.Sort == RealS {
		if a.Sort == IntS {
			a = ToReal(a)
		}
		if b.Sort == IntS {
			b = ToReal(b)
		}
		m1 := RealV(big.NewRat(-1, 1))
		switch x.Op {
		case token.ADD:
			return SV{v: Val{RAdd(a, b)}}
		case token.SUB:
			return SV{v: Val{RAdd(a, RMul(m1, b))}}
		case token.MUL:
			return SV{v: Val{RMul(a, b)}}
		case token.LEQ:
			return mathBool(RLe(a, b))
		case token.LSS:
			return mathBool(Not(RLe(b, a)))
		case token.GEQ:
			return mathBool(RLe(b, a))
		case token.GTR:
			return mathBool(Not(RLe(a, b)))
		}
	}
	if a.Sort != IntS || b.Sort != IntS {
		specFail("integer operands expected: %s", exprStr(x))
	}
	switch x.Op {
	case token.ADD:
		return mathInt(Add(a, b))
	case token.SUB:
		return mathInt(Sub(a, b))
	case token.MUL:
		return mathInt(Mul(a, b))
	case token.QUO:
		return mathInt(Div(a, b))
	case token.REM:
		return mathInt(Mod(a, b))
	case token.LSS:
		return mathBool(Lt(a, b))
	case token.LEQ:
		return mathBool(Le(a, b))
	case token.GTR:
		return mathBool(Lt(b, a))
	case token.GEQ:
		return mathBool(Le(b, a))
	case token.SHL:
		return mathInt(Mul(a, Pow2T(b)))
	case token.SHR:
		return mathInt(Div(a, Pow2T(b)))
	case token.AND:
		if b.Op == OInt {
			return mathInt(maskAnd(a, b.Val))
		}
	}
	specFail("operator %s", x.Op)
	return SV{}
}

func (c *SpecCtx) equal(a, b SV) *Term {
	if a.isNil || b.isNil {
		o := a
		if a.isNil {
			o = b
		}
		return Eq(o.v[0], Num(0))
	}
	if a.seq || b.seq {
		return Eq(a.v[0], b.v[0])
	}
	if len(a.v) == 1 && len(b.v) == 1 && a.v[0].Sort.Elem == nil {
		x, y := a.v[0], b.v[0]
		if x.Sort == RealS || y.Sort == RealS {
			if x.Sort == IntS {
				x = ToReal(x)
			}
			if y.Sort == IntS {
				y = ToReal(y)
			}
			return And(RLe(x, y), RLe(y, x))
		}
		return Eq(x, y)
	}
	t := a.typ
	if t == nil {
		t = b.typ
	}
	if t == nil || len(a.v) != len(b.v) {
		specFail("cannot compare values")
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		// extensional comparison
		return c.seqEq(a, b, s.Elem())
	}
	return c.t.equal(c.st, a.v, b.v, t, t)
}

func (c *SpecCtx) seqEq(a, b SV, et types.Type) *Term {
	i := BoundVar("i")
	la := c.st.loadRaw(c.st.arrLoc(a.v[0], et).elem(Add(a.v[1], i), et))
	lb := c.st.loadRaw(c.st.arrLoc(b.v[0], et).elem(Add(b.v[1], i), et))
	var cs []*Term
	for k := range la {
		cs = append(cs, Eq(la[k], lb[k]))
	}
	return And(Eq(a.v[2], b.v[2]), Forall(i, Imp(And(Ge0(i), Lt(i, a.v[2])), And(cs...))))
}

func (c *SpecCtx) without() *SpecCtx {
	if c.collect == nil {
		return c
	}
	n := *c
	n.collect = nil
	return &n
}

func (c *SpecCtx) under(g *Term) *SpecCtx {
	if c.collect == nil {
		return c
	}
	n := *c
	n.guards = append(append([]*Term{}, c.guards...), g)
	return &n
}

func (c *SpecCtx) isResult(x *Term) bool {
	for _, s := range c.res {
		for _, v := range s.v {
			if v == x {
				return true
			}
		}
	}
	return false
}

// wantBind records an identity equation that is false for the present (fresh) representation of lhs.
func (c *SpecCtx) wantBind(lhs ast.Expr, p, q SV, n int) bool {
	if c.collect == nil {
		return false
	}
	for k := 0; k < n; k++ {
		if Eq(p.v[k], q.v[k]).IsFalse() {
			cc := *c
			cc.collect = nil
			*c.collect = append(*c.collect, bindReq{lhs: lhs, ctx: &cc, old: p.v, val: q.v, n: n, guard: And(c.guards...)})
			return true
		}
	}
	return false
}

// assumeEnsures assumes the postconditions of a call. An equation sameobj(lhs, rhs) whose left side is part of what the
// call returned or modified is realised by making lhs denote rhs (in a fork of the state where its premise holds).
func (t *Task) assumeEnsures(st *State, ens []Clause, svs []SV, mk func(st *State, svs []SV) *SpecCtx) []Outcome {
	var reqs []bindReq
	for _, e := range ens {
		c := mk(st, svs)
		c.collect = &reqs
		c.Bool(e)
	}
	type alt struct {
		st  *State
		svs []SV
	}
	alts := []alt{{st, svs}}
	for i := 0; i < len(reqs); {
		g := reqs[i].guard
		j := i
		var grp []bindReq
		for ; j < len(reqs) && reqs[j].guard == g; j++ {
			grp = append(grp, reqs[j])
		}
		i = j
		var next []alt
		for _, a := range alts {
			if g.IsFalse() {
				next = append(next, a)
				continue
			}
			if !g.IsTrue() {
				n := alt{a.st.clone(), a.svs}
				n.st.assume(Not(g))
				next = append(next, n)
				a.st.assume(g)
			}
			for _, r := range grp {
				a.svs = t.bindTo(a.st, r, a.svs)
			}
			next = append(next, a)
		}
		alts = next
	}
	var outs []Outcome
	for _, a := range alts {
		for _, e := range ens {
			g := mk(a.st, a.svs).Bool(e)
			if g.IsFalse() {
				unsupported("postcondition [%s] cannot hold in the representation of the call's result", e.Label)
			}
			a.st.assume(g)
		}
		var res Val
		for _, s := range a.svs {
			res = append(res, s.v...)
		}
		outs = append(outs, Outcome{a.st, res})
	}
	return outs
}

func (t *Task) bindTo(st *State, r bindReq, svs []SV) []SV {
	out := append([]SV{}, svs...)
	for i, s := range svs {
		for k := range s.v {
			if s.v[k] == r.old[0] && r.n == 1 {
				v := append(Val{}, s.v...)
				if v[k].Op != OInt {
					st.assume(Eq(v[k], r.val[0]))
				}
				v[k] = r.val[0]
				out[i] = SV{v: v, typ: s.typ, seq: s.seq}
				return out
			}
			if r.n == 3 && k+2 < len(s.v) && s.v[k] == r.old[0] {
				v := append(Val{}, s.v...)
				copy(v[k:], r.val[:3])
				out[i] = SV{v: v, typ: s.typ, seq: s.seq}
				return out
			}
		}
	}
	if r.lhs == nil {
		return out
	}
	c := *r.ctx
	c.st = st
	l := c.loc(r.lhs)
	v := st.load(l)
	v = append(Val{}, v...)
	if len(r.val) == len(v) {
		copy(v, r.val)
	} else {
		v[0] = r.val[0]
	}
	// no write is logged: the location is part of a fresh result or of what the call modifies (already logged)
	st.putRaw(l, v)
	return out
}

func (c *SpecCtx) macro(m *Macro, args []SV) SV {
	n := *c
	n.env = map[string]SV{}
	for k, v := range c.env {
		n.env[k] = v
	}
	for i, p := range m.Params {
		n.env[p] = args[i]
	}
	return n.eval(m.Body.Expr)
}

func (c *SpecCtx) call(x *ast.CallExpr) SV {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		specFail("call of %s", exprStr(x.Fun))
	}
	a := x.Args
	if c.collect != nil {
		switch id.Name {
		case "imp", "ite", "sameobj", "sameslice", "and", "typeis":
		default:
			if _, ok := c.t.eng.specs.Macros[id.Name]; !ok {
				c = c.without()
			}
		}
	}
	switch id.Name {
	case "old":
		if c.old == nil {
			specFail("old() not available here")
		}
		n := c.withState(c.old)
		if c.entryCtx != nil {
			// loop invariants: names inside old() denote entry parameters
			m := *c.entryCtx
			m.st = c.old
			m.env = map[string]SV{}
			for k, v := range c.entryCtx.env {
				m.env[k] = v
			}
			for k, v := range c.env {
				if _, ok := m.env[k]; !ok {
					m.env[k] = v
				}
			}
			m.iter = c.iter
			return m.eval(a[0])
		}
		return n.eval(a[0])
	case "imp":
		p := c.without().boolE(a[0])
		if p.IsFalse() {
			return mathBool(True)
		}
		return mathBool(Imp(p, c.under(p).boolE(a[1])))
	case "iff":
		return mathBool(Eq(c.boolE(a[0]), c.boolE(a[1])))
	case "ite":
		p := c.without().boolE(a[0])
		if p.IsTrue() {
			return c.eval(a[1])
		}
		if p.IsFalse() {
			return c.eval(a[2])
		}
		u, v := c.under(p).eval(a[1]), c.under(Not(p)).eval(a[2])
		out := make(Val, len(u.v))
		for i := range out {
			out[i] = Ite(p, u.v[i], v.v[i])
		}
		return SV{v: out, typ: u.typ, seq: u.seq}
	case "and":
		var ts []*Term
		for _, e := range a {
			ts = append(ts, c.boolE(e))
		}
		return mathBool(And(ts...))
	case "forallt":
		// forallt(i, trigger, P)
		n := *c
		n.env = map[string]SV{}
		for k, v := range c.env {
			n.env[k] = v
		}
		name := a[0].(*ast.Ident).Name
		b := BoundVar(name)
		n.env[name] = mathInt(b)
		trig := n.eval(a[1])
		return mathBool(Forall(b, n.boolE(a[2]), trig.v[0]))
	case "forall", "exists":
		// forall(i, lo, hi, P)  or forall(i, P)
		name := a[0].(*ast.Ident).Name
		n := *c
		n.env = map[string]SV{}
		for k, v := range c.env {
			n.env[k] = v
		}
		if len(a) == 4 {
			lo, hi := c.int(a[1]), c.int(a[2])
			d := Sub(hi, lo)
			if d.Op == OInt && lo.Op == OInt && d.Val.Cmp(bi(40)) <= 0 {
				var ts []*Term
				for k := lo.Val.Int64(); k < hi.Val.Int64(); k++ {
					n.env[name] = mathInt(Num(k))
					ts = append(ts, n.boolE(a[3]))
				}
				if id.Name == "forall" {
					return mathBool(And(ts...))
				}
				return mathBool(Or(ts...))
			}
			// peel the last index of a range ending in t+1: it is usually the one just written
			last := True
			if id.Name == "exists" {
				last = False
			}
			if hi.Op == OAdd && hi.Val.Cmp(bi(1)) == 0 {
				hi = Sub(hi, Num(1))
				n.env[name] = mathInt(hi)
				p := n.boolE(a[3])
				if id.Name == "forall" {
					last = Imp(Le(lo, hi), p)
				} else {
					last = And(Le(lo, hi), p)
				}
			}
			b := BoundVar(name)
			boundRange[b.ID] = [2]*Term{lo, hi}
			n.env[name] = mathInt(b)
			g := And(Le(lo, b), Lt(b, hi))
			body := n.boolE(a[3])
			if id.Name == "forall" {
				return mathBool(And(Forall(b, Imp(g, body)), last))
			}
			return mathBool(Or(Exists(b, And(g, body)), last))
		}
		b := BoundVar(name)
		n.env[name] = mathInt(b)
		body := n.boolE(a[1])
		if id.Name == "forall" {
			return mathBool(Forall(b, body))
		}
		return mathBool(Exists(b, body))
	case "let":
		// let(x, e, body)
		n := *c
		n.env = map[string]SV{}
		for k, v := range c.env {
			n.env[k] = v
		}
		n.env[a[0].(*ast.Ident).Name] = c.eval(a[1])
		return n.eval(a[2])
	case "len", "cap":
		v := c.eval(a[0])
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			if id.Name == "cap" {
				return mathInt(v.v[3])
			}
			return mathInt(v.v[2])
		case *types.Basic:
			return mathInt(v.v[2])
		case *types.Array:
			return mathInt(Num(u.Len()))
		case *types.Map:
			cur := c.st.loadRaw(mapLoc(v.v[0], u))
			return mathInt(cur[len(cur)-1])
		}
		specFail("len of %s", v.typ)
	case "min", "max":
		p, q := c.int(a[0]), c.int(a[1])
		if id.Name == "min" {
			return mathInt(Ite(Le(p, q), p, q))
		}
		return mathInt(Ite(Le(p, q), q, p))
	case "pow2":
		return mathInt(Pow2T(c.int(a[0])))
	case "le", "be":
		// le(s, off, n): little/big endian value of n bytes at off (n constant)
		s := c.eval(a[0])
		off := c.int(a[1])
		n := c.int(a[2])
		if n.Op != OInt {
			specFail("le/be need constant width")
		}
		return mathInt(c.endian(s, off, int(n.Val.Int64()), id.Name == "le"))
	case "bytesof":
		// k-th little-endian byte of x
		v, k := c.int(a[0]), c.int(a[1])
		if k.Op == OInt {
			return mathInt(Mod(Div(v, NumB(pow2(uint(8*k.Val.Int64())))), Num(256)))
		}
		specFail("bytesof needs constant index")
	case "in":
		// in(m, k)
		m := c.eval(a[0])
		u := m.typ.Underlying().(*types.Map)
		k := c.mapKeyOf(u, a[1])
		cur := c.st.loadRaw(mapLoc(m.v[0], u))
		return mathBool(Select(cur[0], k))
	case "mapdom", "mapval":
		// mapdom(m, key): key is an abstract Int key
		m := c.eval(a[0])
		u := m.typ.Underlying().(*types.Map)
		cur := c.st.loadRaw(mapLoc(m.v[0], u))
		k := c.int(a[1])
		if id.Name == "mapdom" {
			return mathBool(Select(cur[0], k))
		}
		var mv Val
		for j := 0; j < nLeaves(u.Elem()); j++ {
			mv = append(mv, Select(cur[1+j], k))
		}
		return SV{v: mv, typ: u.Elem()}
	case "received", "sent", "nreceived", "nsent", "closed":
		// traces of a channel
		ch := c.eval(a[0])
		elem := ch.typ.Underlying().(*types.Chan).Elem()
		cur := c.st.loadRaw(chanLoc(ch.v[0], elem))
		k := nLeaves(elem)
		switch id.Name {
		case "nreceived":
			return mathInt(cur[k])
		case "nsent":
			return mathInt(cur[2*k+1])
		case "closed":
			return mathBool(cur[2*k+2])
		}
		base := 0
		if id.Name == "sent" {
			base = k + 1
		}
		i := c.int(a[1])
		var mv Val
		for j := 0; j < k; j++ {
			mv = append(mv, Select(cur[base+j], i))
		}
		return SV{v: mv, typ: elem}
	case "keyof":
		// keyof(x): map key of x; keyof(s, n): key of the [n]byte array with the first n bytes of slice s
		v := c.eval(a[0])
		if len(a) == 2 {
			n := c.int(a[1]).Val.Int64()
			var as []*Term
			for i := int64(0); i < n; i++ {
				as = append(as, c.byteAt(v, Num(i)))
			}
			return mathInt(InjApp(as))
		}
		return mathInt(c.t.mapKey(c.st, v.v, v.typ))
	case "int", "int64", "int32", "uint64", "uint32", "uint16", "uint", "uint8", "byte":
		v := c.eval(a[0])
		if len(v.v) != 1 || v.v[0].Sort != IntS {
			specFail("conversion of non-int %s", exprStr(a[0]))
		}
		switch id.Name {
		case "uint8", "byte":
			return mathInt(Mod(v.v[0], Num(256)))
		case "uint16":
			return mathInt(Mod(v.v[0], NumB(pow2(16))))
		case "uint32":
			return mathInt(Mod(v.v[0], NumB(pow2(32))))
		case "uint64", "uint":
			return mathInt(Mod(v.v[0], NumB(pow2(64))))
		}
		return mathInt(v.v[0])
	case "fsize", "fpos", "fbyte", "fdata", "fid", "fexists":
		return c.fileFn(id.Name, a)
	case "gl":
		// gl(p, "leaf"): named leaf of the modelled library object p points to
		v := c.eval(a[0])
		s, _ := strconv.Unquote(a[1].(*ast.BasicLit).Value)
		var et types.Type
		var raw Val
		if p, ok := v.typ.Underlying().(*types.Pointer); ok {
			et = p.Elem()
			raw = c.st.load(c.st.deref(v.v[0], et))
		} else {
			et, raw = v.typ, v.v
		}
		for j, l := range leavesOf(et) {
			if l.Name == s {
				return SV{v: Val{raw[j]}, seq: raw[j].Sort.Elem != nil}
			}
		}
		specFail("no leaf %s in %s", s, et)
	case "live":
		// live(x): the object x refers to has been allocated by now
		v := c.eval(a[0])
		return mathBool(Lt(v.v[0], Num(c.t.nextRef+1)))
	case "ifid":
		// ifid(iface): the identity (payload) of an interface value
		return mathInt(c.eval(a[0]).v[1])
	case "typeis":
		// typeis(iface, "pkg.Type" string)
		v := c.eval(a[0])
		s := a[1].(*ast.BasicLit).Value
		s, _ = strconv.Unquote(s)
		ty := c.t.eng.lookupType(s)
		if c.collect != nil && v.v[0].Op != OInt && c.isResult(v.v[0]) {
			cc := *c
			cc.collect = nil
			*c.collect = append(*c.collect, bindReq{ctx: &cc, old: v.v[:1], val: Val{tagOf(ty)}, n: 1, guard: And(c.guards...)})
			return mathBool(True)
		}
		return mathBool(Eq(v.v[0], tagOf(ty)))
	case "dyn":
		// dyn(iface, "pkg.Type"): payload
		v := c.eval(a[0])
		s, _ := strconv.Unquote(a[1].(*ast.BasicLit).Value)
		ty := c.t.eng.lookupType(s)
		return SV{v: c.t.unboxIface(c.st, v.v[1], ty), typ: ty}
	case "ghost":
		// ghost("name", x...) : state-dependent ghost integer map keyed by object
		return c.ghostGet(a)
	case "sameobj":
		p, q := c.eval(a[0]), c.eval(a[1])
		if c.wantBind(a[0], p, q, 1) {
			return mathBool(True)
		}
		return mathBool(Eq(p.v[0], q.v[0]))
	case "sameslice":
		p, q := c.eval(a[0]), c.eval(a[1])
		if c.wantBind(a[0], p, q, 3) {
			return mathBool(True)
		}
		return mathBool(And(Eq(p.v[0], q.v[0]), Eq(p.v[1], q.v[1]), Eq(p.v[2], q.v[2])))
	case "seqof":
		// array term of a slice/array/string (elements at offset+index)
		v := c.eval(a[0])
		return SV{v: Val{c.arrTerm(v)}, seq: true}
	case "sha256":
		return c.shaSpec(a)
	case "unchanged":
		// unchanged(x): value of x in current state equals old value
		var cs []*Term
		for _, e := range a {
			p := c.eval(e)
			q := c.withState(c.old).eval(e)
			if p.typ != nil {
				if _, ok := p.typ.Underlying().(*types.Slice); ok {
					cs = append(cs, Eq(p.v[0], q.v[0]), Eq(p.v[1], q.v[1]), Eq(p.v[2], q.v[2]))
					continue
				}
			}
			for k := range p.v {
				cs = append(cs, Eq(p.v[k], q.v[k]))
			}
		}
		return mathBool(And(cs...))
	case "contents":
		// contents(s): raw backing array leaf equality helper: unchanged contents of slice s
		p := c.eval(a[0])
		st := p.typ.Underlying().(*types.Slice)
		l := c.st.loadRaw(c.st.arrLoc(p.v[0], st.Elem()))
		return SV{v: Val{l[0]}, seq: true}
	case "real":
		v := c.int(a[0])
		return SV{v: Val{ToReal(v)}}
	case "ones":
		// the number of one bits of a word, as math/bits.OnesCount64 returns it
		return mathInt(App("ones", IntS, bi(0), bi(64), c.int(a[0])))
	case "strkey":
		v := c.eval(a[0])
		return mathInt(c.t.mapKey(c.st, v.v, types.Typ[types.String]))
	}
	if m, ok := c.t.eng.specs.Macros[id.Name]; ok {
		if len(a) != len(m.Params) {
			specFail("macro %s arity", id.Name)
		}
		var args []SV
		for _, e := range a {
			args = append(args, c.eval(e))
		}
		return c.macro(m, args)
	}
	if u, ok := c.t.eng.specs.UFuns[id.Name]; ok {
		var args []*Term
		for _, e := range a {
			v := c.eval(e)
			if v.seq {
				args = append(args, v.v[0])
			} else {
				if len(v.v) != 1 {
					specFail("ufun argument %s", exprStr(e))
				}
				args = append(args, v.v[0])
			}
		}
		s := IntS
		switch u.Ret {
		case "bool":
			s = BoolS
		case "seq":
			s = ArrS(IntS)
		}
		x := App("u:"+u.Name, s, u.Lo, u.Hi, args...)
		if ct := c.t.caseTerm; ct != nil && ct.ID == x.ID {
			x = Num(c.t.caseVal)
		}
		return SV{v: Val{x}, seq: u.Ret == "seq"}
	}
	specFail("unknown spec function %s", id.Name)
	return SV{}
}

func (c *SpecCtx) arrTerm(v SV) *Term {
	switch u := v.typ.Underlying().(type) {
	case *types.Slice:
		l := c.st.loadRaw(c.st.arrLoc(v.v[0], u.Elem()))
		if v.v[1].Op == OInt && v.v[1].Val.Sign() == 0 {
			return l[0]
		}
		specFail("seqof needs offset-0 slice")
	case *types.Array:
		return v.v[0]
	case *types.Basic:
		return v.v[0]
	}
	specFail("seqof of %s", v.typ)
	return nil
}

func (c *SpecCtx) byteAt(s SV, i *Term) *Term {
	if s.seq {
		return Select(s.v[0], i)
	}
	switch u := s.typ.Underlying().(type) {
	case *types.Slice:
		return c.st.loadRaw(c.st.arrLoc(s.v[0], u.Elem()).elem(Add(s.v[1], i), u.Elem()))[0]
	case *types.Array:
		return Select(s.v[0], i)
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		return c.st.loadRaw(c.st.deref(s.v[0], u.Elem()).elem(i, a.Elem()))[0]
	case *types.Basic:
		return Select(s.v[0], Add(s.v[1], i))
	}
	specFail("bytes of %s", s.typ)
	return nil
}

func (c *SpecCtx) endian(s SV, off *Term, n int, little bool) *Term {
	r := Num(0)
	for k := 0; k < n; k++ {
		sh := k
		if !little {
			sh = n - 1 - k
		}
		r = Add(r, MulC(c.byteAt(s, Add(off, Num(int64(k)))), pow2(uint(8*sh))))
	}
	return r
}

func iook() *Term { return Var("iook", BoolS, nil, nil) }

// fileFn: fsize(f), fpos(f), fbyte(f,i), fdata(f), fid(f)
func (c *SpecCtx) fileFn(name string, a []ast.Expr) SV {
	f := c.eval(a[0])
	fid := c.t.fileID(c.st, f.v, f.typ)
	switch name {
	case "fid":
		return mathInt(fid)
	case "fpos":
		p := f.v[len(f.v)-1]
		return mathInt(c.st.loadRaw(osFileLoc(c.t, c.st, p))[1])
	}
	fs := c.st.loadRaw(fsLoc(fid))
	switch name {
	case "fsize":
		return mathInt(fs[1])
	case "fexists":
		return mathBool(fs[2])
	case "fdata":
		return SV{v: Val{fs[0]}, seq: true}
	}
	return mathInt(Select(fs[0], c.int(a[1])))
}

// ghost("name"[, key]): a ghost integer that only contracts read and modify
func (c *SpecCtx) ghostLoc(a []ast.Expr) *Loc {
	s, _ := strconv.Unquote(a[0].(*ast.BasicLit).Value)
	ref := Num(1)
	if len(a) > 1 {
		ref = c.int(a[1])
	}
	ty := types.Typ[types.Int64]
	return &Loc{Kind: "ghost " + s, Ref: ref, Typ: ty, Root: ty}
}
func (c *SpecCtx) ghostGet(a []ast.Expr) SV {
	return mathInt(c.st.loadRaw(c.ghostLoc(a))[0])
}

func (c *SpecCtx) shaSpec(a []ast.Expr) SV {
	specFail("sha256 spec not implemented")
	return SV{}
}

// glLoc resolves an lvalue of the form gl(p, "leaf"); the second result is the pointer.
func (c *SpecCtx) glLoc(text string) (*Loc, *Term) {
	a, ok := callOf(parseExprMust(text), "gl")
	if !ok {
		return nil, nil
	}
	v := c.eval(a[0])
	s, _ := strconv.Unquote(a[1].(*ast.BasicLit).Value)
	p := v.typ.Underlying().(*types.Pointer)
	l := c.st.deref(v.v[0], p.Elem())
	for j, lf := range leavesOf(p.Elem()) {
		if lf.Name == s {
			n := *l
			n.Lo = l.Lo + j
			n.Typ = types.Typ[types.Int]
			return &n, v.v[0]
		}
	}
	specFail("no leaf %s", s)
	return nil, nil
}
