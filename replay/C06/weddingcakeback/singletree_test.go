package weddingcakeback

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

func verifGuard(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("REPLAY %s: panics: %v", what, r)
		}
	}()
	f()
}

// A tree over hashes that share a prefix finds each at its own index and nothing else.
func TestVerifSingleTree(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()*137 + 3))
	evals := 0
	for round := 0; round < verifRounds(250); round++ {
		L := []int{2, 8, 20, 32, 32, 33, 64, 64}[rng.Intn(8)]
		N := rng.Intn(min(L, 5))
		n := []int{0, 1, 2, 3, 30, 260, 900, 2500}[rng.Intn(8)]
		shape := rng.Intn(4)
		if round%11 == 0 {
			L, N, n, shape = 64, 0, 65, 2
		}
		r := rng.Intn(L + 1)
		prefix := make([]byte, N)
		rng.Read(prefix)
		have := map[string]bool{}
		var set [][]byte
		for tries := 0; tries < 3*n+100 && len(set) < n; tries++ {
			h := make([]byte, L)
			switch shape {
			case 0:
				rng.Read(h)
			case 1:
				for i := range h {
					h[i] = byte(rng.Intn(3)) * 127
				}
			case 2:
				if tries > 0 && tries <= L {
					h[tries-1] = byte(1 + rng.Intn(255))
				} else if tries > L {
					h[rng.Intn(L)] = byte(rng.Intn(256))
				}
			case 3:
				h[L-1] = byte(tries)
				h[L-2] = byte(tries >> 8)
			}
			copy(h, prefix)
			if !have[string(h)] {
				have[string(h)] = true
				set = append(set, h)
			}
		}
		in := make([]SingleTreeHash, len(set))
		keep := make([][]byte, len(set))
		for i, h := range set {
			in[i] = SingleTreeHash{Hash: h, PresentationIndex: SingleTreePiType(i + 1)}
			keep[i] = append([]byte(nil), h...)
		}
		what := fmt.Sprintf("%d hashes of %d bytes after a %d-byte prefix (shape %d, seed %d, round %d), %d reassurance bytes", len(set), L, N, shape, verifSeed(), round, r)
		var tree *SingleTree
		verifGuard(t, "building the tree of "+what, func() { tree = GenerateSingleTree(in, byte(N), byte(L), byte(r)) })
		for i := range in {
			if in[i].PresentationIndex != SingleTreePiType(i+1) || !bytes.Equal(in[i].Hash, keep[i]) {
				t.Fatalf("REPLAY %s: building the tree changed the caller's hash %d", what, i)
			}
		}
		for i, h := range keep {
			verifGuard(t, fmt.Sprintf("looking up %x in %s", h, what), func() {
				evals++
				if got := tree.LookupHash(h); got != SingleTreePiType(i+1) {
					t.Fatalf("REPLAY %s: index %d given for hash %x presented at %d", what, got, h, i+1)
				}
			})
		}
		for k := 0; k < 40; k++ {
			h := make([]byte, L)
			rng.Read(h)
			if len(keep) > 0 && k%4 != 0 {
				copy(h, keep[rng.Intn(len(keep))])
				if L > N {
					h[N+rng.Intn(L-N)] ^= byte(1 << rng.Intn(8))
				}
			}
			copy(h, prefix)
			if have[string(h)] {
				continue
			}
			verifGuard(t, fmt.Sprintf("looking up absent %x in %s", h, what), func() {
				evals++
				if got := tree.LookupHash(h); got != SingleTreeNoMatch {
					t.Fatalf("REPLAY %s: index %d given for absent hash %x", what, got, h)
				}
			})
		}
		leaves := 0
		tree.VisitAllNodes(func(nd *SingleTreeNode) {
			if nd.LeafNode != nil {
				leaves++
				i := int(nd.LeafNode.PresentationIndex) - 1
				if i < 0 || i >= len(keep) || !bytes.Equal(nd.LeafNode.Hash, keep[i]) {
					t.Fatalf("REPLAY %s: the leaf of index %d holds %x", what, i+1, nd.LeafNode.Hash)
				}
			}
		})
		if leaves != len(set) {
			t.Fatalf("REPLAY %s: the tree has %d leaves", what, leaves)
		}
	}
	fmt.Printf("REPLAY-EVALS %d\n", evals)
}
