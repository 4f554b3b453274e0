package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the sorting functions of the standard library: the slice afterwards holds a permutation of what it
// held before, in order.

var permN int

// permute replaces the contents of sv by a permutation of them and states that.
func (t *Task) permute(st *State, sv Val, et types.Type, pos token.Pos) {
	l := st.arrLoc(sv[0], et)
	t.frameCheckMod(st, modLoc{kind: l.Kind, ref: l.Ref, lo: l.Lo, n: nLeaves(l.Typ), off: sv[1], ln: sv[2], loc: l, what: "sort"}, pos)
	permN++
	p := func(i *Term) *Term { return App(fmt.Sprintf("perm!%d", permN), IntS, bi(0), maxLen, i) }
	q := func(i *Term) *Term { return App(fmt.Sprintf("pinv!%d", permN), IntS, bi(0), maxLen, i) }
	cur := st.loadRaw(l)
	nv := make(Val, len(cur))
	i := BoundVar("i")
	n := sv[2]
	in := And(Ge0(i), Lt(i, n))
	st.assume(Forall(i, Imp(in, And(Lt(p(i), n), Eq(q(p(i)), i)))))
	st.assume(Forall(i, Imp(in, And(Lt(q(i), n), Eq(p(q(i)), i)))))
	for k := range cur {
		lf := leavesOf(l.Typ)[k]
		fr := Fresh("sorted", cur[k].Sort, lf.lo, lf.hi)
		st.assume(Forall(i, Imp(in, Eq(Select(fr, Add(sv[1], i)), Select(cur[k], Add(sv[1], p(i)))))))
		if !(sv[1].Op == OInt && sv[1].Val.Sign() == 0) {
			st.assume(Forall(i, Imp(Not(And(Le(sv[1], i), Lt(i, Add(sv[1], n)))), Eq(Select(fr, i), Select(cur[k], i)))))
		}
		nv[k] = fr
	}
	// few integers: a permutation keeps, for each value held, how many are below it and how many are not above it
	if hi := st.Rng(n).hi; len(cur) == 1 && cur[0].Sort.Elem == IntS && hi != nil && hi.Cmp(bi(16)) <= 0 {
		for k := int64(1); k <= hi.Int64(); k++ {
			count := func(a *Term, v *Term, d int64) *Term {
				var s *Term = Num(0)
				for x := int64(0); x < k; x++ {
					s = Add(s, Ite(Le(Select(a, Add(sv[1], Num(x))), Add(v, Num(d))), Num(1), Num(0)))
				}
				return s
			}
			var cs []*Term
			for x := int64(0); x < k; x++ {
				v := Select(nv[0], Add(sv[1], Num(x)))
				cs = append(cs, Eq(count(cur[0], v, 0), count(nv[0], v, 0)), Eq(count(cur[0], v, -1), count(nv[0], v, -1)))
			}
			st.assume(Imp(Eq(n, Num(k)), And(cs...)))
		}
	}
	st.storeRaw(l, nv)
}

// ordered assumes that no element is before an earlier one under the comparison given as a function of two indices.
func (t *Task) ordered(st *State, n *Term, less func(s *State, i, j *Term) []Outcome) {
	i, j := Fresh("si", IntS, bi(0), maxLen), Fresh("sj", IntS, bi(0), maxLen)
	s2 := st.clone()
	s2.assume(Lt(i, n))
	s2.assume(Lt(j, n))
	k := len(s2.pc)
	var cond []*Term
	for _, o := range less(s2, i, j) {
		cond = append(cond, And(append(append([]*Term{}, o.st.pc[k:]...), o.res[0])...))
		for h, v := range st.heap {
			if o.st.heap[h] != v {
				unsupported("comparison function of sort writes memory (%s)", h)
			}
		}
	}
	bi_, bj := BoundVar("bi"), BoundVar("bj")
	m := map[*Term]*Term{i: bj, j: bi_}
	body := Subst(Not(Or(cond...)), m)
	st.assume(Forall(bi_, Forall(bj, Imp(And(Ge0(bi_), Lt(bi_, bj), Lt(bj, n)), body))))
}

func (t *Task) sortCall(st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if k := strings.IndexByte(name, '['); k >= 0 {
		name = name[:k]
	}
	var sv Val
	var et types.Type
	slice := func(ty types.Type, v Val) { sv = v; et = ty.Underlying().(*types.Slice).Elem() }
	natural := func(s *State, i, j *Term) []Outcome {
		b, ok := et.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			unsupported("%s of %s", name, et)
		}
		a := s.loadRaw(s.arrLoc(sv[0], et))[0]
		return []Outcome{{s, Val{Lt(Select(a, Add(sv[1], i)), Select(a, Add(sv[1], j)))}}}
	}
	switch name {
	case "sort.Slice", "sort.SliceStable":
		if args[0][0].Op != OInt {
			unsupported("%s of unknown slice", name)
		}
		ty := tagTypes[args[0][0].Val.Int64()]
		slice(ty, t.unboxIface(st, args[0][1], ty))
		var e *Exotic
		if f := args[1][0]; f.Op == OInt {
			e = t.exotics[f.Val.Int64()]
		}
		if e == nil || e.Fn == nil {
			unsupported("%s with unknown comparison", name)
		}
		t.permute(st, sv, et, pos)
		t.ordered(st, sv[2], func(s *State, i, j *Term) []Outcome {
			return t.callFn(s, e.Fn, []Val{{i}, {j}}, e.Bind, pos)
		})
		return []Outcome{{st, nil}}, true
	case "slices.Sort", "sort.Ints":
		slice(fn.Signature.Params().At(0).Type(), args[0])
		t.permute(st, sv, et, pos)
		t.ordered(st, sv[2], natural)
		return []Outcome{{st, nil}}, true
	}
	return nil, false
}
