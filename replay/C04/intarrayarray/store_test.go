package intarrayarray

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

// A map store is a map from keys to growing arrays, whatever the order of keys, flushes, reads and reopenings,
// whether it is cached (and whatever the cache trims) or not
func TestVerifMapStore(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	evals := 0
	for round := 0; round < verifRounds(60); round++ {
		fileDigits, folderDigits := int64(1+rng.Intn(3)), int64(1+rng.Intn(3))
		width := int64(3 + rng.Intn(6))
		cached := rng.Intn(2) == 0
		creator := NewConcreteMapStoreCreator("name", t.TempDir(), fileDigits, folderDigits, width, cached)
		if err := creator.CreateMap(); err != nil {
			t.Fatal(err)
		}
		limit := int64(1 + rng.Intn(60))
		hist := fmt.Sprintf("file digits %d, folder digits %d, width %d, cached %v (limit %d):", fileDigits, folderDigits, width, cached, limit)
		fail := func(f string, x ...any) { t.Fatalf("REPLAY history %s => %s", hist, fmt.Sprintf(f, x...)) }
		open := func() IntArrayMapStoreReadWrite {
			s, err := creator.OpenMap()
			if err != nil {
				fail("open: %v", err)
			}
			if c, ok := s.(*CachedIntArrayMapStore); ok && limit < 40 {
				c.cacheElementCountLimit = limit
			}
			return s
		}
		s := open()
		model := map[int64][]int64{}
		var keys []int64
		same := func(a, b []int64) bool {
			if len(a) != len(b) {
				return false
			}
			for i := range a {
				if a[i] != b[i] {
					return false
				}
			}
			return true
		}
		base := rng.Int63n(3000)
		for op := 0; op < 150; op++ {
			evals++
			switch o := rng.Intn(30); {
			case o < 24:
				k := base + rng.Int63n(40)
				switch rng.Intn(6) {
				case 0:
					k = rng.Int63n(200)
				case 1:
					k = rng.Int63n(1000000)
				case 2:
					if len(keys) > 0 {
						k = keys[rng.Intn(len(keys))]
					}
				case 3:
					base += rng.Int63n(30)
				}
				v := rng.Int63() & (int64(1)<<(8*uint(width)-1) - 1)
				if rng.Intn(3) == 0 {
					v >>= uint(rng.Intn(20))
				}
				hist += fmt.Sprintf(" +%d", k)
				if err := s.AppendToArray(k, v); err != nil {
					fail("append: %v", err)
				}
				if model[k] == nil {
					keys = append(keys, k)
				}
				model[k] = append(model[k], v)
			case o < 26 && len(keys) > 0:
				k := keys[rng.Intn(len(keys))]
				hist += fmt.Sprintf(" ?%d", k)
				got, err := s.GetArray(k)
				if err != nil || !same(got, model[k]) {
					fail("array %d is %v,%v instead of %v", k, got, err, model[k])
				}
			case o == 26 && rng.Intn(3) == 0: // possibly in a file never written
				k := base + rng.Int63n(1000000)
				hist += fmt.Sprintf(" ?%d", k)
				got, err := s.GetArray(k)
				if err != nil || !same(got, model[k]) {
					fail("array %d is %v,%v instead of %v", k, got, err, model[k])
				}
			case o == 27:
				hist += " flush"
				if err := s.FlushFile(); err != nil {
					fail("flush: %v", err)
				}
			case o == 28:
				hist += " sync"
				if err := s.Sync(); err != nil {
					fail("sync: %v", err)
				}
			default:
				hist += " reopen"
				if err := s.FlushFile(); err != nil {
					fail("flush: %v", err)
				}
				s = open()
			}
		}
		if err := s.Sync(); err != nil {
			fail("sync: %v", err)
		}
		r, err := creator.OpenMapReadOnly()
		if err != nil {
			fail("open read only: %v", err)
		}
		per := int64(1)
		for i := int64(0); i < fileDigits; i++ {
			per *= 10
		}
		for i := 0; i < 3; i++ {
			k := base + rng.Int63n(100000)
			if got, err := r.GetArray(k); err != nil || !same(got, model[k]) {
				fail("in the end array %d is %v,%v instead of %v", k, got, err, model[k])
			}
		}
		for _, k := range keys {
			evals++
			got, err := r.GetArray(k)
			if err != nil || !same(got, model[k]) {
				fail("in the end array %d is %v,%v instead of %v", k, got, err, model[k])
			}
			// a neighbour in the same file
			n := k - k%per + rng.Int63n(per)
			if got, err = r.GetArray(n); err != nil || !same(got, model[n]) {
				fail("in the end array %d is %v,%v instead of %v", n, got, err, model[n])
			}
		}
	}
	t.Logf("REPLAY-EVALS %d", evals)
}
