package intarrayarray

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"testing"
)

// A file of arrays, saved and loaded back (possibly over and over), holds what was appended, in order
func TestVerifIntArrayArray(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed() + 1))
	evals := 0
	dir := t.TempDir()
	name := filepath.Join(dir, "a.iaa")
	for round := 0; round < verifRounds(120); round++ {
		width := int64(1 + rng.Intn(8))
		count := int64(1 + rng.Intn(20))
		max := int64(1)<<62 - 1 + int64(1)<<62
		if width < 8 {
			max = int64(1)<<(8*width) - 1
		}
		model := make([][]int64, count)
		a := NewIntArrayArray(count, width)
		hist := fmt.Sprintf("count %d, width %d:", count, width)
		fail := func(f string, x ...any) { t.Fatalf("REPLAY history %s => %s", hist, fmt.Sprintf(f, x...)) }
		check := func(a *IntArrayArray, where string) {
			total := int64(0)
			for k := range model {
				evals++
				got := a.GetArray(int64(k))
				if len(got) != len(model[k]) {
					fail("%s: array %d has %d values, not %d", where, k, len(got), len(model[k]))
				}
				for j := range got {
					if got[j] != model[k][j] {
						fail("%s: array %d value %d is %d, not %d", where, k, j, got[j], model[k][j])
					}
				}
				total += int64(len(got))
			}
			if a.elementTally != total {
				fail("%s: tally is %d with %d values", where, a.elementTally, total)
			}
		}
		add := func(k, v int64) {
			a.AppendToArray(k, v)
			model[k] = append(model[k], v)
		}
		for cycle := 0; cycle < 1+rng.Intn(4); cycle++ {
			for op := 0; op < rng.Intn(30); op++ {
				k, v := rng.Int63n(count), rng.Int63()>>uint(rng.Intn(63))
				if rng.Intn(4) == 0 {
					v = max - int64(rng.Intn(2))
				}
				if v > max {
					v &= max
				}
				add(k, v)
			}
			if rng.Intn(3) == 0 { // lengths around the one and three byte length prefixes
				n := 0xFA + rng.Intn(8)
				if rng.Intn(6) == 0 {
					n = 0xFFFD + rng.Intn(5)
				}
				k := rng.Int63n(count)
				hist += fmt.Sprintf(" %d more values under key %d;", n, k)
				for j := 0; j < n; j++ {
					add(k, rng.Int63()&max)
				}
			}
			check(&a, "before saving")
			hist += " save;"
			if err := a.SaveFile(name); err != nil {
				t.Fatal(err)
			}
			check(&a, "after saving")
			b := NewIntArrayArray(count, width)
			if rng.Intn(2) == 0 {
				b.AppendToArray(rng.Int63n(count), 1) // loading replaces what was there
			}
			hist += " load;"
			if err := b.LoadFile(name); err != nil {
				t.Fatal(err)
			}
			check(&b, "after loading")
			a = b
		}
		if err := a.LoadFile(filepath.Join(dir, "missing")); err == nil {
			fail("loading a missing file is not an error")
		}
		if a.elementTally != 0 || len(a.GetArray(0)) != 0 {
			fail("a failed load leaves values behind")
		}
	}
	t.Logf("REPLAY-EVALS %d", evals)
}
