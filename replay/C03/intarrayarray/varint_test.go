package intarrayarray

import (
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}
func verifVals(rng *rand.Rand) []int64 {
	v := []int64{0, 1, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF, 0x100, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 1<<24 - 1, 1 << 24, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 1<<40 + 7, 1<<56 - 1, 1 << 56, 1<<63 - 1}
	for k := 0; k < 63; k++ {
		v = append(v, int64(1)<<k, int64(1)<<k-1, rng.Int63()>>k)
	}
	for _, s := range strings.Split(os.Getenv("VERIF_INTS"), ",") {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil && n >= 0 {
			v = append(v, n)
		}
	}
	return v
}

// VarInt: Bitcoin CompactSize layout, self-delimiting, decodes to the number that was encoded
func TestVerifVarInt(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	evals := 0
	for r := 0; r < verifRounds(50); r++ {
		for _, n := range verifVals(rng) {
			evals++
			var v VarInt
			v.FromInt64(n)
			b := append([]byte{}, v.ToBytes()...)
			var want []byte
			put := func(p byte, w int) {
				want = append(want, p)
				for i := 0; i < w; i++ {
					want = append(want, byte(n>>(8*i)))
				}
			}
			switch {
			case n < 0xFD:
				want = []byte{byte(n)}
			case n <= 0xFFFF:
				put(0xFD, 2)
			case n <= 0xFFFFFFFF:
				put(0xFE, 4)
			default:
				put(0xFF, 8)
			}
			if string(b) != string(want) {
				t.Fatalf("REPLAY VarInt %d encodes as %x want %x", n, b, want)
			}
			tail := make([]byte, rng.Intn(10))
			rng.Read(tail)
			var d VarInt
			k := d.FromBytes(append(b, tail...))
			if int(k) != len(b) || d.ToInt64() != n {
				t.Fatalf("REPLAY VarInt %d: bytes %x decode to %d, %d bytes", n, b, d.ToInt64(), k)
			}
		}
	}
	t.Logf("REPLAY-EVALS %d", evals)
}

var _ = filepath.Join
