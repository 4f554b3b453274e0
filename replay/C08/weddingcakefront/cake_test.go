package weddingcakefront

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"github.com/KitchenMishap/pudding-shed/weddingcakeback"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

// quiet sends the package's own diagnostic prints nowhere; say still reaches the real output.
func quiet(t *testing.T) (say func(string, ...any)) {
	real := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = null
	t.Cleanup(func() { os.Stdout = real; null.Close() })
	return func(f string, x ...any) { fmt.Fprintf(real, f, x...) }
}

// pool: hashes that share long stretches of bytes with each other, so that trees get deep and leaves need
// every byte, or are spread at random, so that nodes get wide.
func verifHash(rng *rand.Rand, shape int, have [][32]byte) (h [32]byte) {
	switch shape {
	case 0:
		rng.Read(h[:])
	case 1: // one of few prefixes, otherwise random
		rng.Read(h[:])
		h[0] = byte(rng.Intn(3)) * 0x7f
		h[1] = byte(rng.Intn(2))
	case 2: // a near copy of an earlier one
		if len(have) > 0 {
			h = have[rng.Intn(len(have))]
		}
		h[rng.Intn(32)] = byte(rng.Intn(256))
		h[rng.Intn(32)] ^= 1 << rng.Intn(8)
	default: // mostly zero bytes
		for i := 0; i < 1+rng.Intn(3); i++ {
			h[rng.Intn(32)] = byte(rng.Intn(4))
		}
	}
	return
}

func TestVerifCakeHistories(t *testing.T) {
	say := quiet(t)
	rng := rand.New(rand.NewSource(verifSeed()))
	evals := 0
	for round := 0; round < verifRounds(14); round++ {
		dir := t.TempDir()
		reass := byte(rng.Intn(6))
		if rng.Intn(5) == 0 {
			reass = 32
		}
		config := weddingcakeback.NewCakeConfig(32, reass)
		config.TierBelowConfigs[0].MaxDonutForests = byte(1 + rng.Intn(3))
		config.TierBelowConfigs[1].MaxDonutForests = byte(2 + rng.Intn(3))
		big := rng.Intn(3) == 0
		maxBakes := 5 + rng.Intn(4)
		creator := weddingcakeback.NewTierTopCreator(dir, config)
		if err := creator.Create(0); err != nil {
			t.Fatal(err)
		}
		hist := fmt.Sprintf("reassurance %d, forests per tier %d,%d:", reass, config.TierBelowConfigs[0].MaxDonutForests, config.TierBelowConfigs[1].MaxDonutForests)
		fail := func(f string, x ...any) { t.Fatalf("REPLAY history %s => %s", hist, fmt.Sprintf(f, x...)) }
		var model [][32]byte
		first := map[[32]byte]int64{}
		var cake *Cake
		open := func(readOnly bool) {
			var tt *weddingcakeback.TierTop
			var err error
			if readOnly {
				tt, err = creator.OpenReadOnly()
			} else {
				tt, err = creator.Open()
			}
			if err != nil {
				fail("open: %v", err)
			}
			cake = newCake(tt)
		}
		check := func(all bool) {
			for i := range model {
				if !all && rng.Intn(10) != 0 {
					continue
				}
				evals++
				h := model[i]
				got, err := cake.IndexOfHash(&h)
				if err != nil || got != first[h] {
					fail("index of hash presented at %v (first at %v) is %v,%v", i, first[h], got, err)
				}
				if h != model[i] {
					fail("lookup changed the hash it was given")
				}
				var out [32]byte
				if err = cake.GetHashAtIndex(int64(i), &out); err != nil || out != model[i] {
					fail("hash at index %d of %d is %x,%v instead of %x", i, len(model), out, err, model[i])
				}
			}
			for k := 0; k < 20; k++ {
				evals++
				h := verifHash(rng, k%4, model)
				want, in := first[h]
				if !in {
					want = -1
				}
				if got, err := cake.IndexOfHash(&h); err != nil || got != want {
					fail("index of %x (presented: %v) is %v,%v instead of %v", h, in, got, err, want)
				}
			}
			var out [32]byte
			if err := cake.GetHashAtIndex(int64(len(model)+rng.Intn(3)), &out); err == nil {
				fail("a hash was found at an index beyond the %d presented", len(model))
			}
			if err := cake.GetHashAtIndex(-1-int64(rng.Intn(3)), &out); err == nil {
				fail("a hash was found at a negative index")
			}
		}
		open(false)
		for b := 0; b < maxBakes; b++ {
			n := 1 + rng.Intn(40)
			if rng.Intn(6) == 0 {
				n = 1
			}
			if big {
				n = 1 + rng.Intn(3000)
			}
			shape := rng.Intn(4)
			hist += fmt.Sprintf(" append(%d of shape %d)", n, shape)
			var reused [32]byte // the caller's own buffer, overwritten after each append
			for i := 0; i < n; i++ {
				h := verifHash(rng, shape, model)
				if len(model) > 0 && rng.Intn(8) == 0 {
					h = model[rng.Intn(len(model))] // a duplicate
				}
				reused = h
				idx, err := cake.AppendHash(&reused)
				if err != nil || idx != int64(len(model)) {
					fail("append number %d gave %v,%v", len(model), idx, err)
				}
				rng.Read(reused[:])
				if _, in := first[h]; !in {
					first[h] = int64(len(model))
				}
				model = append(model, h)
			}
			check(n < 100)
			hist += " bake"
			if err := weddingcakeback.NewDonutForestWrite(cake.tierTop, config).Write(dir); err != nil {
				fail("bake: %v", err)
			}
			check(true)
			if rng.Intn(2) == 0 {
				hist += " close open"
				if err := cake.Close(); err != nil {
					fail("close: %v", err)
				}
				if rng.Intn(2) == 0 {
					open(true)
					check(true)
					if err := cake.Close(); err != nil {
						fail("close: %v", err)
					}
				}
				open(false)
				check(true)
			}
			if b == 2 {
				hist += " sync"
				if err := cake.Sync(); err != nil {
					fail("sync: %v", err)
				}
			}
		}
		cake.Close()
		os.RemoveAll(filepath.Join(dir, "TierTop"))
	}
	say("REPLAY-EVALS %d\n", evals)
}

// The bake that a full top tier triggers by itself, and what comes after it.
func TestVerifCakeFullTopTier(t *testing.T) {
	say := quiet(t)
	rng := rand.New(rand.NewSource(verifSeed()))
	dir := t.TempDir()
	creator := NewCakeCreator(dir, byte(rng.Intn(4)))
	if creator.HashStoreExists() {
		t.Fatal("REPLAY a store exists before it is created")
	}
	if err := creator.CreateHashStore(); err != nil || !creator.HashStoreExists() {
		t.Fatalf("REPLAY create: %v", err)
	}
	cake, err := creator.OpenHashStore()
	if err != nil {
		t.Fatal(err)
	}
	n := 65535 + 40
	model := make([][32]byte, n)
	for i := range model {
		rng.Read(model[i][:])
		h := model[i]
		idx, err := cake.AppendHash(&h)
		if err != nil || idx != int64(i) {
			t.Fatalf("REPLAY append number %d gave %v,%v", i, idx, err)
		}
	}
	evals := 0
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < n; i += 1 {
			if i > 100 && i < n-100 && rng.Intn(20) != 0 {
				continue
			}
			evals++
			h := model[i]
			if got, err := cake.IndexOfHash(&h); err != nil || got != int64(i) {
				t.Fatalf("REPLAY index of hash %d is %v,%v", i, got, err)
			}
			var out [32]byte
			if err := cake.GetHashAtIndex(int64(i), &out); err != nil || out != model[i] {
				t.Fatalf("REPLAY hash at %d is wrong: %v", i, err)
			}
		}
		if err := cake.Close(); err != nil {
			t.Fatal(err)
		}
		if cake, err = creator.OpenHashStore(); err != nil {
			t.Fatal(err)
		}
	}
	cake.Close()
	say("REPLAY-EVALS %d\n", evals)
}
