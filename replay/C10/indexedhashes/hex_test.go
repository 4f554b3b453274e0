package indexedhashes

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }

// hex text <-> 32 bytes, reversed byte order, both letter cases, wrong lengths refused
func TestVerifHexHash(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	n := 3000
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 100000
	}
	nibs := []string{"0123456789abcdef", "0123456789ABCDEF"}
	for r := 0; r < n; r++ {
		var h [32]byte
		rng.Read(h[:])
		if r < 256 {
			for i := range h {
				h[i] = byte(r + i*8)
			}
		}
		txt, up := "", ""
		for i := 31; i >= 0; i-- {
			txt += fmt.Sprintf("%02x", h[i])
			a, b := h[i]>>4, h[i]&15
			up += string(nibs[rng.Intn(2)][a]) + string(nibs[rng.Intn(2)][b])
		}
		s := Sha256(h)
		if g := HashSha256ToHexString(&s); g != txt {
			t.Fatalf("REPLAY hash %x prints as %s want %s", h, g, txt)
		}
		if g := hashBinToHexString(&h); g != txt {
			t.Fatalf("REPLAY hash %x prints as %s want %s", h, g, txt)
		}
		for _, x := range []string{txt, up} {
			var d Sha256
			if err := HashHexToSha256(x, &d); err != nil || d != s {
				t.Fatalf("REPLAY text %s parses as %x,%v want %x", x, d, err, h)
			}
			if g, err := hashHexToBin(x); err != nil || g != h {
				t.Fatalf("REPLAY text %s parses as %x,%v want %x", x, g, err, h)
			}
		}
	}
	for l := 0; l < 130; l++ {
		if l == 64 {
			continue
		}
		x := ""
		for i := 0; i < l; i++ {
			x += "a"
		}
		d := Sha256{1, 2, 3}
		if err := HashHexToSha256(x, &d); err == nil || d != (Sha256{1, 2, 3}) {
			t.Fatalf("REPLAY text of length %d accepted", l)
		}
		if _, err := hashHexToBin(x); err == nil {
			t.Fatalf("REPLAY text of length %d accepted", l)
		}
	}
	t.Logf("REPLAY-EVALS %d", n)
}
