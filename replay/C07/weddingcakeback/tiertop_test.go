package weddingcakeback

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"testing"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

// The top tier is a list of hashes starting at its first presentation index, on disk and in memory, and its
// reverse lookup gives the first index; what it hands to a bake is each distinct hash once.
func TestVerifTierTopHistories(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	evals := 0
	for round := 0; round < verifRounds(60); round++ {
		dir := t.TempDir()
		config := NewCakeConfig(32, byte(rng.Intn(4)))
		first := GlobalPiType(rng.Intn(2)) * GlobalPiType(rng.Int63n(1<<40))
		creator := NewTierTopCreator(dir, config)
		if creator.Exists() {
			t.Fatal("REPLAY a top tier exists before it is created")
		}
		if err := creator.Create(first); err != nil {
			t.Fatal(err)
		}
		hist := fmt.Sprintf("first index %d:", first)
		fail := func(f string, x ...any) { t.Fatalf("REPLAY history %s => %s", hist, fmt.Sprintf(f, x...)) }
		if !creator.Exists() {
			fail("does not exist after Create")
		}
		var tt *TierTop
		open := func(ro bool) {
			var err error
			if ro {
				tt, err = creator.OpenReadOnly()
			} else {
				tt, err = creator.Open()
			}
			if err != nil {
				fail("open: %v", err)
			}
		}
		var model [][32]byte
		firstOf := map[[32]byte]int{}
		random := func() (h [32]byte) {
			switch rng.Intn(4) {
			case 0:
				rng.Read(h[:])
			case 1:
				h[rng.Intn(32)] = byte(rng.Intn(3))
			default:
				if len(model) > 0 {
					h = model[rng.Intn(len(model))]
				}
				if rng.Intn(2) == 0 {
					h[rng.Intn(32)] ^= 1 << rng.Intn(8)
				}
			}
			return
		}
		check := func() {
			if c, err := tt.CountHashes(); err != nil || c != GlobalPiType(len(model)) {
				fail("count is %v,%v instead of %v", c, err, len(model))
			}
			if tt.GetFirstPresentationIndex() != first {
				fail("first presentation index is %d", tt.GetFirstPresentationIndex())
			}
			for k := 0; k < len(model)+30; k++ {
				evals++
				h := random()
				if k < len(model) {
					h = model[k]
				}
				arg := append([]byte{}, h[:]...)
				got, found, err := tt.TryIndexOfHash(arg)
				i, in := firstOf[h]
				want := first + GlobalPiType(i)
				if !in {
					want = GlobalPiNoMatch
				}
				if err != nil || found != in || got != want {
					fail("index of %x is %d,%v,%v instead of %d,%v", h, got, found, err, want, in)
				}
				if !bytes.Equal(arg, h[:]) {
					fail("lookup changed its argument")
				}
				j := k
				if k >= len(model) {
					j = rng.Intn(2*len(model)+5) - len(model)/2 - 2
				}
				out := bytes.Repeat([]byte{0xA5}, 32)
				ok, err := tt.TryGetHashAtIndex(first+GlobalPiType(j), out)
				if err != nil || ok != (j >= 0 && j < len(model)) {
					fail("hash at offset %d of %d: %v,%v", j, len(model), ok, err)
				}
				if ok && !bytes.Equal(out, model[j][:]) {
					fail("hash at offset %d is %x instead of %x", j, out, model[j])
				}
				if !ok && !bytes.Equal(out, bytes.Repeat([]byte{0xA5}, 32)) {
					fail("no hash at offset %d, but the destination was changed", j)
				}
			}
			offset := first
			got := tt.GetHashesAtIndex(0, offset)
			n := 0
			for i, h := range model {
				if firstOf[h] != i {
					continue
				}
				if n >= len(got) || got[n].PresentationIndex != SingleTreePiType(offset+GlobalPiType(i)+1) || !bytes.Equal(got[n].Hash, h[:]) {
					fail("hash %d is not handed to the bake in its place", i)
				}
				n++
			}
			if n != len(got) {
				fail("%d hashes handed to the bake instead of %d", len(got), n)
			}
		}
		open(false)
		for step := 0; step < 12; step++ {
			switch rng.Intn(4) {
			case 0, 1:
				n := 1 + rng.Intn(25)
				hist += fmt.Sprintf(" append(%d)", n)
				var reused [32]byte
				for i := 0; i < n; i++ {
					h := random()
					reused = h
					got, err := tt.AppendHash(reused[:])
					if err != nil || got != first+GlobalPiType(len(model)) {
						fail("append number %d gave %d,%v", len(model), got, err)
					}
					rng.Read(reused[:])
					if _, in := firstOf[h]; !in {
						firstOf[h] = len(model)
					}
					model = append(model, h)
				}
			case 2:
				hist += " sync"
				if err := tt.Sync(); err != nil {
					fail("sync: %v", err)
				}
				var want []byte
				for _, h := range model {
					want = append(want, h[:]...)
				}
				disk, err := os.ReadFile(filepath.Join(dir, "TierTop", "Hashes.hsh"))
				if err != nil || !bytes.Equal(disk, want) {
					fail("after sync the file holds %d bytes (%v), not the %d hashes", len(disk), err, len(model))
				}
			default:
				hist += " reopen"
				if err := tt.CloseAll(); err != nil {
					fail("close: %v", err)
				}
				if rng.Intn(2) == 0 {
					open(true)
					check()
					if err := tt.CloseAll(); err != nil {
						fail("close: %v", err)
					}
				}
				open(false)
			}
			check()
		}
		tt.CloseAll()
	}
	fmt.Printf("REPLAY-EVALS %d\n", evals)
}
