package indexedhashes3

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

func verifQuiet(t *testing.T) func() {
	old := os.Stdout
	f, err := os.Create(filepath.Join(t.TempDir(), "out"))
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = f // the preloaders report their progress and sync the output
	return func() { os.Stdout = old; f.Close() }
}

// A hash store holds exactly the hashes that were indexed by a preloader or appended, at their indices.
func TestVerifStoreHistories(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	evals := 0
	for round := 0; round < verifRounds(60); round++ {
		func() {
			defer verifQuiet(t)()
			dir := t.TempDir()
			name := "Hashes" + strconv.Itoa(rng.Intn(10))
			if err := os.Mkdir(filepath.Join(dir, name), 0755); err != nil {
				t.Fatal(err)
			}
			bins := int64(2 + 2*rng.Intn(20))
			binStart := int64(1 + rng.Intn(8))
			passes := rng.Intn(3) // the number of passes is set by the estimate
			estimate := int64(100)
			if passes > 0 {
				estimate = 31_000_000 * bins / int64(rng.Intn(int(bins))+2)
			}
			p := NewHashStoreParams(int64(16+rng.Intn(24)), estimate, rng.Intn(3)+1, bins, binStart, 8)
			var model []indexedhashes.Sha256
			first := map[indexedhashes.Sha256]int64{}
			hist := fmt.Sprintf("%d bins, %d entries per bin start, estimate %d:", bins, binStart, estimate)
			fail := func(f string, x ...any) { t.Fatalf("REPLAY store %s => %s", hist, fmt.Sprintf(f, x...)) }
			random := func() (h indexedhashes.Sha256) {
				rng.Read(h[:])
				switch rng.Intn(5) {
				case 0: // in the last or the first bin
					for i := 4; i < 8; i++ {
						h[i] = 0xFF * byte(rng.Intn(2))
					}
				case 1: // trailing zeroes in what is stored
					for i := 8; i < 32; i++ {
						h[i] = 0
					}
				case 2:
					if len(model) > 0 {
						h = model[rng.Intn(len(model))]
						h[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
					}
				}
				return
			}
			var creator indexedhashes.HashStoreCreator
			var err error
			kind := rng.Intn(3)
			if kind == 0 {
				creator, _, err = NewHashStoreCreatorAndPreloader(dir, name, p, 1, NewBinsArray(1, 1, 1))
				hist += " appended"
				if err != nil {
					fail("%v", err)
				}
				if err := creator.CreateHashStore(); err != nil {
					fail("create: %v", err)
				}
			} else {
				n := rng.Intn(250)
				var bytes []byte
				for i := 0; i < n; i++ {
					h := random()
					if i > 0 && rng.Intn(10) == 0 {
						h = model[rng.Intn(i)]
					}
					if _, ok := first[h]; !ok {
						first[h] = int64(len(model))
					}
					model = append(model, h)
					bytes = append(bytes, h[:]...)
				}
				if err := os.WriteFile(filepath.Join(dir, name, "Hashes.hsh"), bytes, 0644); err != nil {
					t.Fatal(err)
				}
				threads := 1 + rng.Intn(9)
				hist += fmt.Sprintf(" %d hashes preloaded by %d threads", n, threads)
				if kind == 1 {
					var pl *MultipassPreloader
					creator, pl, err = NewHashStoreCreatorAndPreloader(dir, name, p, 1, NewBinsArray(1, p.BytesPerBinEntry(), int64(rng.Intn(6))))
					hist += " multipass"
					if err != nil {
						fail("%v", err)
					}
					if err := pl.IndexTheHashes(threads); err != nil {
						fail("indexing: %v", err)
					}
					if err := pl.TestTheHashes(); err != nil {
						fail("the store's own test: %v", err)
					}
				} else {
					var pl *AdaptivePassPreloader
					gb := rng.Intn(2)
					creator, pl, err = NewHashStoreCreatorAndPreloaderAdaptive(dir, name, p, gb)
					hist += fmt.Sprintf(" adaptively with %d GB", gb)
					if err != nil {
						fail("%v", err)
					}
					if err := pl.IndexTheHashes(threads); err != nil {
						fail("indexing: %v", err)
					}
				}
			}
			check := func(s indexedhashes.HashReader, what string) {
				if n, err := s.CountHashes(); err != nil || n != int64(len(model)) {
					fail("%s: counts %d hashes, %v, not %d", what, n, err, len(model))
				}
				for i, h := range model {
					if rng.Intn(3) == 0 || len(model) < 40 {
						if g, err := s.IndexOfHash(&h); err != nil || g != first[h] {
							fail("%s: hash %d (%x) is at %d, %v, not %d", what, i, h, g, err, first[h])
						}
						var got indexedhashes.Sha256
						// a repeated hash cannot always be found by its later indices
						if err := s.GetHashAtIndex(int64(i), &got); err != nil || (got != h && (first[h] == int64(i) || got != indexedhashes.Sha256{})) {
							fail("%s: index %d gives %x, %v, not %x", what, i, got, err, h)
						}
						evals++
					}
				}
				for i := 0; i < 10; i++ {
					h := random()
					if _, ok := first[h]; !ok {
						if g, err := s.IndexOfHash(&h); err != nil || g != -1 {
							fail("%s: the absent %x is at %d, %v", what, h, g, err)
						}
					}
				}
			}
			for step := 0; step < 3; step++ {
				cr := creator
				if rng.Intn(2) == 0 {
					cr, err = NewHashStoreCreatorFromFile(dir, name, false)
					if err != nil {
						fail("creator from file: %v", err)
					}
				}
				if !cr.HashStoreExists() {
					fail("does not exist")
				}
				s, err := cr.OpenHashStore()
				if err != nil {
					fail("open: %v", err)
				}
				check(s, "opened")
				for i := rng.Intn(30); i > 0; i-- {
					h := random()
					if _, ok := first[h]; ok {
						continue
					}
					hist += fmt.Sprintf(" append(%x)", h[:9])
					g, err := s.AppendHash(&h)
					if err != nil || g != int64(len(model)) {
						fail("append gives %d, %v, not %d", g, err, len(model))
					}
					first[h] = int64(len(model))
					model = append(model, h)
				}
				check(s, "after appending")
				if err := s.Sync(); err != nil {
					fail("sync: %v", err)
				}
				if err := s.Close(); err != nil {
					fail("close: %v", err)
				}
				hist += " reopen"
				r, err := cr.OpenHashStoreReadOnly()
				if err != nil {
					fail("open read only: %v", err)
				}
				check(r, "read only")
				r.Close()
				cr, err = NewHashStoreCreatorFromFile(dir, name, true)
				if err != nil {
					fail("creator from file: %v", err)
				}
				m, err := cr.OpenHashStore()
				if err != nil {
					fail("open into memory: %v", err)
				}
				check(m, "in memory")
				m.Close()
			}
		}()
	}
	fmt.Println("REPLAY-EVALS", evals)
}
