package memfile

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"testing"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

func TestVerifAppendOptimized(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	evals := 0
	for round := 0; round < verifRounds(150); round++ {
		name := filepath.Join(t.TempDir(), "f")
		model := make([]byte, rng.Intn(3)*rng.Intn(200))
		rng.Read(model)
		os.WriteFile(name, model, 0644)
		open := func() *appendOptimizedFile {
			f, err := os.OpenFile(name, os.O_RDWR, 0)
			if err != nil {
				t.Fatal(err)
			}
			a, err := NewAppendOptimizedFile(f)
			if err != nil {
				t.Fatal(err)
			}
			return a.(*appendOptimizedFile)
		}
		a := open()
		hist := fmt.Sprintf("initial %d:", len(model))
		fail := func(f string, x ...any) { t.Fatalf("REPLAY history %s => %s", hist, fmt.Sprintf(f, x...)) }
		for k := 0; k < 70; k++ {
			evals++
			n := 1 + rng.Intn(40)
			switch rng.Intn(12) {
			case 0:
				n = 4090 + rng.Intn(12) // around the buffer size
			case 1:
				n = 9000
			}
			buf := make([]byte, n)
			rng.Read(buf)
			switch op := rng.Intn(14); {
			case op < 7:
				off := len(model)
				if rng.Intn(4) == 0 {
					off = rng.Intn(len(model) + 20)
				}
				keep := append([]byte{}, buf...)
				m, err := a.WriteAt(buf, int64(off))
				hist += fmt.Sprintf(" w(%d,%d)", off, n)
				if m != n || err != nil {
					fail("write gave %d,%v", m, err)
				}
				for i := range buf {
					buf[i] ^= 0xff // the caller may reuse its buffer
				}
				for len(model) < off+n {
					model = append(model, 0)
				}
				copy(model[off:], keep)
			case op < 11:
				off := rng.Intn(len(model) + 10)
				m, err := a.ReadAt(buf, int64(off))
				hist += fmt.Sprintf(" r(%d,%d)", off, n)
				want := 0
				if off < len(model) {
					want = min(n, len(model)-off)
				}
				if m != want || (err == nil) != (want == n) || (err != nil && err != io.EOF) {
					fail("read gave %d,%v want %d", m, err, want)
				}
				if !bytes.Equal(buf[:m], model[min(off, len(model)):min(off, len(model))+m]) {
					fail("read at %d returned wrong bytes", off)
				}
			case op == 11:
				hist += " sync"
				if err := a.Sync(); err != nil {
					fail("sync %v", err)
				}
				disk, _ := os.ReadFile(name)
				if !bytes.Equal(disk, model) {
					fail("disk differs after sync: %d bytes want %d", len(disk), len(model))
				}
			case op == 12:
				hist += " reopen"
				if err := a.Close(); err != nil {
					fail("close %v", err)
				}
				disk, _ := os.ReadFile(name)
				if !bytes.Equal(disk, model) {
					fail("disk differs after close: %d bytes want %d", len(disk), len(model))
				}
				f, _ := os.Open(name)
				fws := NewFileWithSize(f)
				if fws.Size() != int64(len(model)) {
					fail("sized file %d", fws.Size())
				}
				if all, err := fws.ReadAll(); err != nil || !bytes.Equal(all, model) {
					fail("sized file ReadAll %d bytes %v", len(all), err)
				}
				fws.Close()
				if len(model) > 0 {
					f, _ := os.Open(name)
					mm, err := NewMmapReadOnly(f)
					if err != nil {
						fail("mmap %v", err)
					}
					off := rng.Intn(len(model) + 4)
					m, err := mm.ReadAt(buf, int64(off))
					want := 0
					if off < len(model) {
						want = min(n, len(model)-off)
					}
					if m != want || (err == nil) != (want == n) || !bytes.Equal(buf[:m], model[min(off, len(model)):min(off, len(model))+m]) {
						fail("mmap read at %d gave %d,%v want %d", off, m, err, want)
					}
					if mm.Size() != int64(len(model)) {
						fail("mmap size %d", mm.Size())
					}
					if all, _ := mm.ReadAll(); !bytes.Equal(all, model) {
						fail("mmap ReadAll")
					}
					mm.Close()
					// in-memory fixed-size variant: random in-range writes, saved on close
					fm, err := NewFixedSizeMemFile(name, 0644)
					if err != nil {
						fail("fixed %v", err)
					}
					for j := 0; j < 5; j++ {
						o := rng.Intn(len(model))
						l := rng.Intn(len(model)-o) + 1
						b := make([]byte, l)
						rng.Read(b)
						if m, err := fm.WriteAt(b, int64(o)); m != l || err != nil {
							fail("fixed write %d %v", m, err)
						}
						copy(model[o:], b)
						o = rng.Intn(len(model))
						l = rng.Intn(len(model)-o) + 1
						b = make([]byte, l)
						if m, err := fm.ReadAt(b, int64(o)); m != l || err != nil || !bytes.Equal(b, model[o:o+l]) {
							fail("fixed read at %d len %d: %d %v", o, l, m, err)
						}
					}
					if err := fm.Close(); err != nil {
						fail("fixed close %v", err)
					}
					disk, _ := os.ReadFile(name)
					if !bytes.Equal(disk, model) {
						fail("fixed-size file on disk differs after close")
					}
				}
				a = open()
			default:
				all, err := a.ReadAll()
				hist += " all"
				if err != nil || !bytes.Equal(all, model) {
					fail("ReadAll gave %d bytes,%v want %d", len(all), err, len(model))
				}
			}
			if a.Size() != int64(len(model)) {
				fail("size %d want %d", a.Size(), len(model))
			}
		}
		a.Close()
	}
	t.Logf("REPLAY-EVALS %d", evals)
}
