package indexedhashes3

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

// Splitting a hash for storage and joining it again gives the same hash; bin numbers are in range; entries
// read back as written.
func TestVerifSplitAndEntries(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	evals := 0
	bins := []int64{2, 4, 6, 10, 14, 16, 254, 256, 258, 1000, 65536, 65538, 1 << 24, 999999998}
	for round := 0; round < verifRounds(4000); round++ {
		n := bins[rng.Intn(len(bins))]
		if rng.Intn(3) == 0 {
			n = 2 + 2*rng.Int63n(1<<uint(1+rng.Intn(30)))
		}
		bits := int64(1 + rng.Intn(62))
		sb := int64(1 + rng.Intn(8))
		p := NewHashStoreParams(bits, 1000, 2, n, 10, sb)
		var h Hash
		switch rng.Intn(4) {
		case 0:
			rng.Read(h[:])
		case 1:
			for i := range h {
				h[i] = 0xFF
			}
		case 2:
			h[rng.Intn(32)] = byte(rng.Intn(256))
		case 3: // near the limit of a bin
			v := p.divider*uint64(rng.Int63n(n)) - uint64(rng.Intn(3))
			for i := 0; i < 8; i++ {
				h[i] = byte(v >> (8 * i))
			}
			rng.Read(h[8:])
		}
		desc := fmt.Sprintf("bins %d, index bits %d, sort bytes %d, hash %x", n, bits, sb, h)
		tr, ab := h.toTruncatedHash(), h.toAbbreviatedHash()
		bn, sn := ab.toBinNum(p), ab.toSortNum(p)
		if int64(bn) < 0 || int64(bn) >= n {
			t.Fatalf("REPLAY %s => bin number %d", desc, bn)
		}
		if p.BytesRoomForBinNum() < 8 && uint64(bn)>>(8*uint(p.BytesRoomForBinNum())) != 0 {
			t.Fatalf("REPLAY %s => bin number %d does not fit in %d bytes", desc, bn, p.BytesRoomForBinNum())
		}
		if back := NewHashFromTruncatedHashAbbreviatedHash(tr, newAbbreviatedHashFromBinNumSortNum(bn, sn, p)); *back != h {
			t.Fatalf("REPLAY %s => comes back as %x", desc, *back)
		}
		hi := hashIndex(rng.Int63n(1 << uint(bits)))
		limit := uint64(1)<<(8*uint(sb)-1)<<1 - 1
		s2 := sortNum(rng.Uint64() & limit)
		e := newBinEntryBytes(tr, hi, s2, p)
		if int64(len(e)) != p.BytesPerBinEntry() {
			t.Fatalf("REPLAY %s => entry of %d bytes, not %d", desc, len(e), p.BytesPerBinEntry())
		}
		hi2, s3 := e.getHashIndexSortNum(p)
		if hi2 != hi || s3 != s2 || e.getTruncatedHash() != tr {
			t.Fatalf("REPLAY %s, index %d, sort number %d => entry reads back as index %d, sort number %d, hash %x", desc, hi, s2, hi2, s3, e.getTruncatedHash())
		}
		e2 := make([]byte, len(e)+3)
		rng.Read(e2)
		tail := [3]byte(e2[len(e):])
		writeBinEntryBytes(e2, tr, hi, s2, p)
		if string(e2[:len(e)]) != string(e) || [3]byte(e2[len(e):]) != tail {
			t.Fatalf("REPLAY %s => writing an entry in place gives %x, not %x", desc, e2, e)
		}
		evals++
	}
	fmt.Println("REPLAY-EVALS", evals)
}
