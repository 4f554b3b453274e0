package main

import (
	"encoding/json"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Names recorded from the tree the contracts were written against. Contracts mention parameters,
// results, locals, fields and functions of the source by name; when one of them has only been
// renamed, it is found again by its position and type. This matches names and nothing else: every
// obligation is still generated from the current source.
type NameRec struct {
	Params  []string    `json:"p,omitempty"`
	Results []string    `json:"r,omitempty"`
	Locals  [][2]string `json:"l,omitempty"`
	Loops   int         `json:"n,omitempty"`
	Sig     string      `json:"s"`
}

type Names struct {
	Funcs   map[string]*NameRec
	Structs map[string][][2]string
	Ifaces  map[string][]string
}

func loadNames(path string) *Names {
	n := &Names{Funcs: map[string]*NameRec{}, Structs: map[string][][2]string{}}
	if b, err := os.ReadFile(path); err == nil {
		json.Unmarshal(b, n)
	}
	return n
}

func localNames(fn *ssa.Function) [][2]string {
	type rec struct {
		pos int
		n   [2]string
	}
	var l []rec
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment != "" && !strings.ContainsAny(a.Comment, ". ()") {
				isP := false
				for _, p := range fn.Params {
					isP = isP || p.Name() == a.Comment
				}
				if !isP {
					l = append(l, rec{int(a.Pos()), [2]string{a.Comment, types.TypeString(a.Type().Underlying().(*types.Pointer).Elem(), nil)}})
				}
			}
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].pos < l[j].pos })
	var out [][2]string
	for _, r := range l {
		out = append(out, r.n)
	}
	return out
}

func recordOf(fn *ssa.Function, loops int) *NameRec {
	r := &NameRec{Locals: localNames(fn), Loops: loops}
	for _, p := range fn.Params {
		r.Params = append(r.Params, p.Name())
	}
	rt := fn.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		r.Results = append(r.Results, rt.At(i).Name())
	}
	r.Sig = sigString(fn)
	return r
}

func sigString(fn *ssa.Function) string { return sigTypes(fn.Signature) }

func sigTypes(s *types.Signature) string {
	var b strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(types.TypeString(s.Params().At(i).Type(), nil) + ",")
	}
	b.WriteString(">")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(types.TypeString(s.Results().At(i).Type(), nil) + ",")
	}
	return b.String()
}

func (e *Engine) writeNames(path string) error {
	n := &Names{Funcs: map[string]*NameRec{}, Structs: map[string][][2]string{}}
	pk := map[string]bool{}
	for _, c := range e.specs.Contracts {
		pk[modPath+"/"+c.Pkg] = true
	}
	for k, fn := range e.fns {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg != nil && pk[root.Pkg.Pkg.Path()] && !strings.HasPrefix(root.Name(), "lemma") {
			n.Funcs[k] = recordOf(fn, len(e.loopInfo(fn).list))
		}
	}
	for p := range pk {
		tp := e.pkgs[p]
		if tp == nil {
			continue
		}
		for _, nm := range tp.Scope().Names() {
			if tn, ok := tp.Scope().Lookup(nm).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					var fs [][2]string
					for i := 0; i < st.NumFields(); i++ {
						fs = append(fs, [2]string{st.Field(i).Name(), types.TypeString(st.Field(i).Type(), nil)})
					}
					n.Structs[p+"."+nm] = fs
				}
			}
		}
	}
	n.Ifaces = map[string][]string{}
	for k := range e.specs.Contracts {
		f := strings.Split(k[strings.LastIndex(k, "/")+1:], ".")
		pd := strings.LastIndex(k[:len(k)-1-len(f[len(f)-1])], ".")
		if len(f) < 3 || e.pkgs[k[:pd]] == nil {
			continue
		}
		tn, ok := e.pkgs[k[:pd]].Scope().Lookup(f[len(f)-2]).(*types.TypeName)
		if !ok {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if m := it.Method(i); m.Name() == f[len(f)-1] {
				ps := []string{}
				for j := 0; j < m.Type().(*types.Signature).Params().Len(); j++ {
					ps = append(ps, m.Type().(*types.Signature).Params().At(j).Name())
				}
				n.Ifaces[k] = ps
			}
		}
	}
	b, err := json.MarshalIndent(n, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}

// matchNames pairs the names that vanished with the new ones of the same type, in order.
func matchNames(old, cur [][2]string) map[string]string {
	has := func(l [][2]string, n string) bool {
		for _, x := range l {
			if x[0] == n {
				return true
			}
		}
		return false
	}
	m := map[string]string{}
	used := map[string]bool{}
	byType := map[string][]string{}
	for _, x := range cur {
		if !has(old, x[0]) && !used[x[0]] {
			used[x[0]] = true
			byType[x[1]] = append(byType[x[1]], x[0])
		}
	}
	gone := map[string][]string{}
	for _, x := range old {
		if !has(cur, x[0]) && m[x[0]] == "" {
			m[x[0]] = "?"
			gone[x[1]] = append(gone[x[1]], x[0])
		}
	}
	m = map[string]string{}
	for ty, l := range gone {
		for i, n := range l {
			if i < len(byType[ty]) {
				m[n] = byType[ty][i]
			}
		}
	}
	return m
}

func (e *Engine) nameRec(fn *ssa.Function) *NameRec {
	k := fnKey(fn)
	if o := e.renamed[k]; o != "" {
		k = o
	}
	return e.names.Funcs[k]
}

// aliases gives, for names a contract may use in fn, what they are called now.
func (e *Engine) aliases(fn *ssa.Function) map[string]string {
	if a, ok := e.aliasMemo[fn]; ok {
		return a
	}
	a := map[string]string{}
	if r := e.nameRec(fn); r != nil {
		a = matchNames(r.Locals, localNames(fn))
		cur := map[string]bool{}
		for _, p := range fn.Params {
			cur[p.Name()] = true
		}
		if len(r.Params) == len(fn.Params) {
			for i, p := range fn.Params {
				if o := r.Params[i]; o != p.Name() && o != "" && o != "_" && !cur[o] {
					a[o] = p.Name()
				}
			}
		}
	}
	e.aliasMemo[fn] = a
	return a
}

// oldParams calls f with each recorded parameter name that differs from the current one.
func (e *Engine) oldParams(fn *ssa.Function, f func(i int, old string)) {
	r := e.nameRec(fn)
	if r == nil || len(r.Params) != len(fn.Params) {
		return
	}
	a := e.aliases(fn)
	for i, p := range fn.Params {
		if o := r.Params[i]; o != p.Name() && a[o] == p.Name() {
			f(i, o)
		}
	}
}

// fieldIndex finds a field by name, or by its recorded position when it was renamed.
func (e *Engine) fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	if m := e.fieldAlias[st]; m != nil {
		if i, ok := m[name]; ok {
			return i
		}
	}
	return -1
}

// resolveRenames prepares the tables above after the program is loaded.
func (e *Engine) resolveRenames() {
	for k, old := range e.names.Structs {
		i := strings.LastIndex(k, ".")
		tp := e.pkgs[k[:i]]
		if tp == nil {
			continue
		}
		tn, ok := tp.Scope().Lookup(k[i+1:]).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var cur [][2]string
		idx := map[string]int{}
		for i := 0; i < st.NumFields(); i++ {
			cur = append(cur, [2]string{st.Field(i).Name(), types.TypeString(st.Field(i).Type(), nil)})
			idx[st.Field(i).Name()] = i
		}
		for o, n := range matchNames(old, cur) {
			if e.fieldAlias[st] == nil {
				e.fieldAlias[st] = map[string]int{}
			}
			e.fieldAlias[st][o] = idx[n]
		}
	}
	for k, con := range e.specs.Contracts {
		r := e.names.Funcs[k]
		if e.fns[k] != nil || r == nil || con.Trusted && r == nil {
			continue
		}
		dot := strings.LastIndex(k, ".")
		cand := ""
		n := 0
		for k2, fn := range e.fns {
			if e.names.Funcs[k2] == nil && fn.Parent() == nil && strings.LastIndex(k2, ".") == dot && k2[:dot] == k[:dot] && sigString(fn) == r.Sig &&
				len(e.loopInfo(fn).list) == r.Loops && e.specs.Contracts[k2] == nil {
				cand = k2
				n++
			}
		}
		if n == 1 && e.renamed[cand] == "" {
			e.renamed[cand] = k
		}
	}
	for n, o := range e.renamed {
		e.fns[o] = e.fns[n]
		e.specs.Contracts[n] = e.specs.Contracts[o]
	}
}

// flatLoops lists the loops of fn in source order, with the loops of helpers that did not exist in
// the recorded tree (and have no contract) at the place of their call.
func (e *Engine) flatLoops(fn *ssa.Function, depth int) []*loop {
	type item struct {
		pos  int
		lp   *loop
		call *ssa.Function
		n    int
	}
	var items []item
	li := e.loopInfo(fn)
	for _, lp := range li.list {
		items = append(items, item{pos: loopPos(lp), lp: lp, n: lp.ord})
	}
	k := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || g.Blocks == nil || g == fn || g.Pkg != fn.Pkg {
				continue
			}
			key := fnKey(g)
			if e.names.Funcs[key] != nil || e.specs.Contracts[key] != nil || e.renamed[key] != "" {
				continue
			}
			k++
			items = append(items, item{pos: int(in.Pos()), call: g, n: 1000 + k})
		}
	}
	sort.SliceStable(items, func(i, j int) bool {
		a, b := items[i], items[j]
		if a.lp != nil && b.lp != nil {
			return a.lp.ord < b.lp.ord
		}
		return a.pos < b.pos
	})
	var out []*loop
	for _, it := range items {
		if it.lp != nil {
			out = append(out, it.lp)
		} else if depth < 4 {
			for _, lp := range e.flatLoops(it.call, depth+1) {
				dup := false
				for _, x := range out {
					dup = dup || x == lp
				}
				if !dup {
					out = append(out, lp)
				}
			}
		}
	}
	return out
}

// rangeKey tells whether name is the key variable of the range loop lp: its value at the head is
// the number of completed iterations.
func (e *Engine) rangeKey(fn *ssa.Function, lp *loop, name string) bool {
	if a := e.aliases(fn)[name]; a != "" {
		name = a
	}
	var ctr *ssa.Alloc
	for _, in := range lp.head.Instrs {
		if u, ok := in.(*ssa.UnOp); ok {
			if a, ok := u.X.(*ssa.Alloc); ok && (a.Comment == "rangeint.iter" || a.Comment == "rangeindex") {
				ctr = a
				break
			}
		}
	}
	if ctr == nil {
		return false
	}
	from := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok {
			v = b.X
		}
		u, ok := v.(*ssa.UnOp)
		return ok && u.X == ctr
	}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if a, ok := s.Addr.(*ssa.Alloc); ok && a.Comment == name && lp.blocks[a.Block()] && from(s.Val) {
					return true
				}
			}
		}
	}
	return false
}
