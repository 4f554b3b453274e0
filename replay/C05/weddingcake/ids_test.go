package weddingcake

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }

func verifHints() []uint64 {
	var r []uint64
	for _, s := range strings.Split(os.Getenv("VERIF_INTS"), ",") {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			r = append(r, uint64(n))
		}
	}
	return r
}

func verifVals(rng *rand.Rand, n int) []uint64 {
	v := verifHints()
	for b := uint(0); b < 64; b++ {
		v = append(v, 1<<b, 1<<b-1, 1<<b+1)
	}
	for i := 0; i < n; i++ {
		v = append(v, rng.Uint64()>>uint(rng.Intn(64)))
	}
	return v
}

func verifCodec[T IdTypeConstraint](t *testing.T, name string, c NByteIdConfig[T], w int, vals []uint64) int {
	if c.StorageBytes() != w {
		t.Fatalf("REPLAY %s stores %d bytes, want %d", name, c.StorageBytes(), w)
	}
	for _, v := range vals {
		buf := make([]byte, w+4)
		for i := range buf {
			buf[i] = 0xA5
		}
		v &= 1<<(8*uint(w)) - 1
		c.WriteID(buf, T(v))
		for i := 0; i < w; i++ {
			if buf[i] != byte(v>>(8*uint(i))) {
				t.Fatalf("REPLAY %s.WriteID(%d) wrote % x", name, v, buf[:w])
			}
		}
		if !bytes.Equal(buf[w:], []byte{0xA5, 0xA5, 0xA5, 0xA5}) {
			t.Fatalf("REPLAY %s.WriteID(%d) wrote beyond its width: % x", name, v, buf)
		}
		if g := c.ReadID(buf); uint64(g) != v {
			t.Fatalf("REPLAY %s id %d reads back as %d", name, v, g)
		}
	}
	return len(vals)
}

func TestVerifIdCodecs(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	vals := verifVals(rng, 20000)
	n := verifCodec[NodeIdType](t, "node ID16", ID16[NodeIdType]{}, 2, vals)
	n += verifCodec[NodeIdType](t, "node ID24", ID24[NodeIdType]{}, 3, vals)
	n += verifCodec[NodeIdType](t, "node ID32", ID32[NodeIdType]{}, 4, vals)
	n += verifCodec[HashIndexIdType](t, "hash ID16", ID16[HashIndexIdType]{}, 2, vals)
	n += verifCodec[HashIndexIdType](t, "hash ID24", ID24[HashIndexIdType]{}, 3, vals)
	n += verifCodec[HashIndexIdType](t, "hash ID32", ID32[HashIndexIdType]{}, 4, vals)
	fmt.Printf("REPLAY-EVALS %d\n", n)
}


func TestVerifIdConversions(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed() + 1))
	vals := verifVals(rng, 5000)
	n := 0
	for _, v := range vals {
		ch := Chunk{FirstGlobalPresentationIndexOfChunk: GlobalPiType(vals[rng.Intn(len(vals))] >> 33)}
		off := ch.FirstGlobalPresentationIndexOfChunk
		for _, g := range []GlobalPiType{GlobalPiType(v >> 33), off + GlobalPiType(v>>32), off + GlobalPiType(MaxHashIndexId) - 1, off + GlobalPiType(MaxHashIndexId), off, off - 1} {
			if g < 0 {
				continue
			}
			fits := g >= off && g-off+1 <= GlobalPiType(MaxHashIndexId)
			var h HashIndexIdType
			panicked := func() (p bool) { defer func() { p = recover() != nil }(); h = ch.HashIndexIdFromGlobalPresentationIndex(g); return }()
			if panicked == fits {
				t.Fatalf("REPLAY index %d of a chunk starting at %d: panicked=%v", g, off, panicked)
			}
			if fits && (h != HashIndexIdType(g-off+1) || ch.GlobalPresentationIndexFromHashIndexId(h) != g) {
				t.Fatalf("REPLAY index %d of a chunk starting at %d -> id %d -> %d", g, off, h, ch.GlobalPresentationIndexFromHashIndexId(h))
			}
			n++
		}
		if ch.HashIndexIdFromGlobalPresentationIndex(GlobalPiNoMatch) != HashIndexIdNoMatch || ch.GlobalPresentationIndexFromHashIndexId(HashIndexIdNoMatch) != GlobalPiNoMatch {
			t.Fatalf("REPLAY no-match values")
		}
	}
	fmt.Printf("REPLAY-EVALS %d\n", n)
}
