package intrinsicobjectschi

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"
)

// The median time of a block is the middle one of the last eleven timestamps up to and including its own.
func TestVerifMedian(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rounds := 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 2000
	}
	evals := 0
	for r := 0; r < rounds; r++ {
		rng := rand.New(rand.NewSource(seed*7919 + int64(r)))
		obh := CreateOneBlockHolder(nil)
		var all []uint32
		spread := []uint32{1, 3, 20, 7200, 1 << 31}[r%5]
		base := []uint32{0, 5, 1231006505, 0xFFFFFFFF - 40}[r%4]
		for i := 0; i < 40; i++ {
			ts := base + uint32(rng.Int63n(int64(spread)))
			if r%3 == 0 {
				ts += uint32(i) * 3
			}
			all = append(all, ts)
			w := all
			if len(w) > 11 {
				w = w[len(w)-11:]
			}
			s := append([]uint32{}, w...)
			sort.Slice(s, func(a, b int) bool { return s[a] < s[b] })
			want := s[len(s)/2]
			got := obh.PostIntrinsicCalculateMedianTime(ts)
			evals++
			if got != want {
				t.Fatalf("REPLAY seed=%d round=%d: after timestamps %v the median time is %d, want %d", seed, r, all, got, want)
			}
		}
	}
	fmt.Println("REPLAY-EVALS", evals)
}
