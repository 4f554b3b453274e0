package weddingcakeback

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }

func verifHints() []uint64 {
	var r []uint64
	for _, s := range strings.Split(os.Getenv("VERIF_INTS"), ",") {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			r = append(r, uint64(n))
		}
	}
	return r
}

func verifVals(rng *rand.Rand, n int) []uint64 {
	v := verifHints()
	for b := uint(0); b < 64; b++ {
		v = append(v, 1<<b, 1<<b-1, 1<<b+1)
	}
	for i := 0; i < n; i++ {
		v = append(v, rng.Uint64()>>uint(rng.Intn(64)))
	}
	return v
}

func verifCodec[T IdTypeConstraint](t *testing.T, name string, c NByteIdConfig[T], w int, vals []uint64) int {
	if c.StorageBytes() != w {
		t.Fatalf("REPLAY %s stores %d bytes, want %d", name, c.StorageBytes(), w)
	}
	for _, v := range vals {
		buf := make([]byte, w+4)
		for i := range buf {
			buf[i] = 0xA5
		}
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			c.WriteID(buf, T(v))
			return
		}()
		fits := v>>(8*uint(w)) == 0
		if panicked == fits {
			t.Fatalf("REPLAY %s.WriteID(%d): panicked=%v but fits=%v", name, v, panicked, fits)
		}
		if !fits {
			continue
		}
		for i := 0; i < w; i++ {
			if buf[i] != byte(v>>(8*uint(i))) {
				t.Fatalf("REPLAY %s.WriteID(%d) wrote % x", name, v, buf[:w])
			}
		}
		if !bytes.Equal(buf[w:], []byte{0xA5, 0xA5, 0xA5, 0xA5}) {
			t.Fatalf("REPLAY %s.WriteID(%d) wrote beyond its width: % x", name, v, buf)
		}
		if g := c.ReadID(buf); uint64(g) != v {
			t.Fatalf("REPLAY %s id %d reads back as %d", name, v, g)
		}
	}
	return len(vals)
}

func TestVerifIdCodecs(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	vals := verifVals(rng, 20000)
	n := verifCodec[NodeIdType](t, "node ID16", ID16[NodeIdType]{}, 2, vals)
	n += verifCodec[NodeIdType](t, "node ID24", ID24[NodeIdType]{}, 3, vals)
	n += verifCodec[NodeIdType](t, "node ID32", ID32[NodeIdType]{}, 4, vals)
	n += verifCodec[NodeIdType](t, "node ID40", ID40[NodeIdType]{}, 5, vals)
	n += verifCodec[HashIndexIdType](t, "hash ID16", ID16[HashIndexIdType]{}, 2, vals)
	n += verifCodec[HashIndexIdType](t, "hash ID24", ID24[HashIndexIdType]{}, 3, vals)
	n += verifCodec[HashIndexIdType](t, "hash ID32", ID32[HashIndexIdType]{}, 4, vals)
	n += verifCodec[HashIndexIdType](t, "hash ID40", ID40[HashIndexIdType]{}, 5, vals)
	fmt.Printf("REPLAY-EVALS %d\n", n)
}

func TestVerifIdConversions(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed() + 1))
	vals := verifVals(rng, 5000)
	n := 0
	for _, v := range vals {
		off := GlobalPiType(vals[rng.Intn(len(vals))] >> 3)
		g := GlobalPiType(v >> 3)
		if SingleTreePiFromGlobalPi(g) != SingleTreePiType(g+1) || GlobalPiFromSingleTreePi(SingleTreePiFromGlobalPi(g)) != g {
			t.Fatalf("REPLAY single-tree index of %d does not convert back", g)
		}
		if g >= off {
			if h := HashIndexIdFromGlobalPi(g, off); h != HashIndexIdType(g-off+1) || GlobalPiFromHashIndexId(h, off) != g {
				t.Fatalf("REPLAY index %d offset %d -> hash index id %d -> %d", g, off, h, GlobalPiFromHashIndexId(h, off))
			}
			if x := TierTopIndexFromGlobalPi(g, off); x != TierTopIndex(g-off) || GlobalPiFromTierTopIndex(x, off) != g {
				t.Fatalf("REPLAY index %d offset %d -> top index %d -> %d", g, off, x, GlobalPiFromTierTopIndex(x, off))
			}
		} else {
			ok := func() (p bool) { defer func() { p = recover() != nil }(); HashIndexIdFromGlobalPi(g, off); return }()
			if !ok {
				t.Fatalf("REPLAY index %d below offset %d was converted", g, off)
			}
		}
		cnt := rng.Intn(1 << 20)
		if v%3 == 0 && g >= off && g-off < 1<<20 {
			cnt = int(g - off)
		}
		if got, want := GlobalPiWithinRange(g, off, cnt), g >= off && g-off < GlobalPiType(cnt); got != want {
			t.Fatalf("REPLAY index %d in [%d,+%d): %v", g, off, cnt, got)
		}
		if GlobalPiFromUint64(uint64(g)) != g {
			t.Fatalf("REPLAY index %d from uint64", g)
		}
		n++
	}
	if HashIndexIdFromGlobalPi(GlobalPiNoMatch, 7) != HashIndexIdNoMatch || GlobalPiFromHashIndexId(HashIndexIdNoMatch, 7) != GlobalPiNoMatch ||
		GlobalPiFromSingleTreePi(SingleTreeNoMatch) != GlobalPiNoMatch || SingleTreePiFromGlobalPi(GlobalPiNoMatch) != SingleTreeNoMatch {
		t.Fatalf("REPLAY the reserved no-match values do not convert to each other")
	}
	fmt.Printf("REPLAY-EVALS %d\n", n)
}
