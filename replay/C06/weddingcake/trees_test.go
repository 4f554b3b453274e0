package weddingcake

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"testing"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

// verifSet makes n distinct hashes of length L in one of several shapes: random (wide nodes), few byte values
// (deep trees), one common value in each byte (caterpillars: every byte is examined), counters (full nodes).
func verifSet(rng *rand.Rand, L, n, shape int) [][]byte {
	have := map[string]bool{}
	var out [][]byte
	add := func(h []byte) {
		if !have[string(h)] && len(out) < n {
			have[string(h)] = true
			out = append(out, h)
		}
	}
	for tries := 0; tries < 4*n+200 && len(out) < n; tries++ {
		h := make([]byte, L)
		switch shape {
		case 0:
			rng.Read(h)
		case 1:
			for i := range h {
				h[i] = byte(rng.Intn(3)) * 127
			}
		case 2: // caterpillar
			if tries > 0 && tries <= L {
				h[tries-1] = byte(1 + rng.Intn(255))
			} else if tries > L {
				h[rng.Intn(L)] = byte(rng.Intn(256))
			}
		case 3: // every value of one byte, then of a pair of bytes
			h[L-1] = byte(tries)
			if L > 1 {
				h[0] = byte(tries >> 8)
			}
		case 4: // long shared stretches with earlier ones
			if len(out) > 0 {
				copy(h, out[rng.Intn(len(out))])
			}
			for k := 0; k <= rng.Intn(2); k++ {
				h[rng.Intn(L)] = byte(rng.Intn(256))
			}
		case 5: // a chosen number of values in one byte (the borders between the formats), the rest alike
			w := []int{2, 5, 6, 7, 63, 64, 65, 128, 200, 243, 244, 245, 246, 255, 256}[rng.Intn(15)]
			h[rng.Intn(min(2, L))] = byte(rng.Intn(w))
			h[L-1] = byte(tries % w)
		}
		add(h)
	}
	rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func verifAgree(a, b []byte) int {
	n := 0
	for i := range a {
		if a[i] == b[i] {
			n++
		}
	}
	return n
}

// verifAbsent makes hashes that are not in the set, most of them close to one that is.
func verifAbsent(rng *rand.Rand, set [][]byte, L int) [][]byte {
	in := map[string]bool{}
	for _, h := range set {
		in[string(h)] = true
	}
	var out [][]byte
	for k := 0; k < 60; k++ {
		h := make([]byte, L)
		rng.Read(h)
		if len(set) > 0 && k%4 != 0 {
			copy(h, set[rng.Intn(len(set))])
			h[rng.Intn(L)] ^= byte(1 << rng.Intn(8))
		}
		if !in[string(h)] {
			out = append(out, h)
		}
	}
	return out
}

func verifLengths(rng *rand.Rand) int {
	return []int{1, 2, 3, 8, 20, 20, 31, 32, 32, 32, 33, 63, 64, 64, 1 + rng.Intn(64)}[rng.Intn(15)]
}

func verifIds(kind int) (NByteIdConfig[NodeIdType], NByteIdConfig[HashIndexIdType], string) {
	switch kind {
	case 0:
		return ID16[NodeIdType]{}, ID16[HashIndexIdType]{}, "2,2"
	case 1:
		return ID24[NodeIdType]{}, ID24[HashIndexIdType]{}, "3,3"
	case 2:
		return ID32[NodeIdType]{}, ID24[HashIndexIdType]{}, "4,3"
	default:
		return ID16[NodeIdType]{}, ID32[HashIndexIdType]{}, "2,4"
	}
}

func verifGuard(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("REPLAY %s: panics: %v", what, r)
		}
	}()
	f()
}

func TestVerifTrees(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()*131 + 7))
	evals := 0
	for round := 0; round < verifRounds(260); round++ {
		L := verifLengths(rng)
		n := []int{0, 1, 2, 3, 7, 40, 300, 700, 3000}[rng.Intn(9)]
		shape := rng.Intn(6)
		if round%13 == 0 { // the deepest trees
			L, n, shape = 64, 65, 2
		}
		if round%13 == 1 {
			L, n, shape = 32, 33, 2
		}
		set := verifSet(rng, L, n, shape)
		r := []int{0, 1, 2, 4, L, rng.Intn(L + 1)}[rng.Intn(6)]
		if r > L {
			r = L
		}
		first := int64([]int{0, 1, 10, 65536, 1 << 40}[rng.Intn(5)])
		specs := byte(5 + rng.Intn(8))
		nc, hc, ids := verifIds(rng.Intn(4))
		what := fmt.Sprintf("%d hashes of %d bytes (shape %d, seed %d, round %d), %d reassurance bytes, first index %d, %d formats, ids %s", len(set), L, shape, verifSeed(), round, r, first, specs, ids)
		in := make([]ShallowTreeHash, len(set))
		keep := make([][]byte, len(set))
		for i, h := range set {
			in[i] = ShallowTreeHash{Hash: h, PresentationIndex: first + int64(i)}
			keep[i] = append([]byte(nil), h...)
		}
		var tree *ShallowTree
		cp := NewChunkPreparation(in, byte(L), byte(r), specs, nc, hc)
		verifGuard(t, "building the tree of "+what, func() { tree = GenerateShallowTree(in, byte(L), byte(r)) })
		verifGuard(t, "serialising the tree of "+what, func() { cp.PrepareAndSerialize() })
		for i := range in {
			if in[i].PresentationIndex != first+int64(i) || !bytes.Equal(in[i].Hash, keep[i]) {
				t.Fatalf("REPLAY %s: building the tree changed the caller's hash %d", what, i)
			}
		}
		ch := &cp.chunk
		check := func(h []byte, want int64, got int64, which string) {
			evals++
			if want >= 0 {
				if got != want {
					t.Fatalf("REPLAY %s: %s gives index %d for hash %x presented at %d", what, which, got, h, want)
				}
				return
			}
			if got == -1 {
				return
			}
			if got < first || got >= first+int64(len(set)) {
				t.Fatalf("REPLAY %s: %s gives index %d, which was not presented, for absent hash %x", what, which, got, h)
			}
			c := keep[got-first]
			if verifAgree(c, h) < r {
				t.Fatalf("REPLAY %s: %s offers index %d (hash %x) for absent hash %x, which shares fewer than %d bytes with it", what, which, got, c, h, r)
			}
		}
		for i, h := range keep {
			verifGuard(t, fmt.Sprintf("looking up %x in %s", h, what), func() {
				check(h, first+int64(i), tree.LookupHash(h), "the tree")
				check(h, first+int64(i), int64(ch.LookupHash(h)), "the serialised tree")
			})
		}
		for _, h := range verifAbsent(rng, keep, L) {
			verifGuard(t, fmt.Sprintf("looking up absent %x in %s", h, what), func() {
				a, b := tree.LookupHash(h), int64(ch.LookupHash(h))
				check(h, -1, a, "the tree")
				check(h, -1, b, "the serialised tree")
				if a != b {
					t.Fatalf("REPLAY %s: the tree gives %d and its serialised form %d for absent hash %x", what, a, b, h)
				}
			})
		}
		leaves := 0
		tree.VisitAllNodes(func(n *ShallowTreeNode) {
			if n.LeafNode != nil {
				leaves++
			}
		})
		if leaves != len(set) {
			t.Fatalf("REPLAY %s: the tree has %d leaves", what, leaves)
		}
	}
	fmt.Printf("REPLAY-EVALS %d\n", evals)
}

// Chunks written one after another and read back through their files answer as they did in memory.
func TestVerifChunkFiles(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()*131 + 8))
	evals := 0
	for round := 0; round < verifRounds(25); round++ {
		dir := t.TempDir()
		if err := os.WriteFile(filepath.Join(dir, "ChunksInfo.bin"), nil, 0644); err != nil {
			t.Fatal(err)
		}
		L := verifLengths(rng)
		r := rng.Intn(min(L, 6) + 1)
		nc, hc, ids := verifIds(rng.Intn(4))
		w := NewChunkFilesWrite(dir)
		type part struct {
			first int64
			set   [][]byte
		}
		var parts []part
		next := int64(rng.Intn(3) * 7)
		var cfg StoreConfig
		chunks := 1 + rng.Intn(4)
		for c := 0; c < chunks; c++ {
			set := verifSet(rng, L, []int{1, 2, 10, 300, 600}[rng.Intn(5)], rng.Intn(6))
			in := make([]ShallowTreeHash, len(set))
			for i, h := range set {
				in[i] = ShallowTreeHash{Hash: h, PresentationIndex: next + int64(i)}
			}
			cp := NewChunkPreparation(in, byte(L), byte(r), 8, nc, hc)
			cp.PrepareAndSerialize()
			cfg = cp.chunk.Config
			if err := w.AppendChunk(&cp.chunk); err != nil {
				t.Fatalf("REPLAY round %d: appending chunk %d: %v", round, c, err)
			}
			parts = append(parts, part{next, set})
			next += int64(len(set))
		}
		rd := NewChunkFilesRead(dir)
		if err := rd.ReadAndMmap(cfg); err != nil {
			t.Fatalf("REPLAY round %d: reading the chunk files: %v", round, err)
		}
		if len(rd.chunks) != chunks {
			t.Fatalf("REPLAY round %d: %d chunks written, %d read", round, chunks, len(rd.chunks))
		}
		for c, p := range parts {
			if int64(rd.chunks[c].FirstGlobalPresentationIndexOfChunk) != p.first {
				t.Fatalf("REPLAY round %d: chunk %d starts at %d, read back as %d", round, c, p.first, rd.chunks[c].FirstGlobalPresentationIndexOfChunk)
			}
			for i, h := range p.set {
				verifGuard(t, fmt.Sprintf("round %d: looking up hash %x of chunk %d read back", round, h, c), func() {
					evals++
					if got := int64(rd.chunks[c].LookupHash(h)); got != p.first+int64(i) {
						t.Fatalf("REPLAY round %d (length %d, ids %s, %d chunks): chunk %d read back gives %d for hash %x presented at %d", round, L, ids, chunks, c, got, h, p.first+int64(i))
					}
				})
			}
		}
		if err := rd.UnMmapLevelFiles(); err != nil {
			t.Fatalf("REPLAY round %d: unmapping: %v", round, err)
		}
	}
	fmt.Printf("REPLAY-EVALS %d\n", evals)
}
