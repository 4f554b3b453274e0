package wordfile

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/KitchenMishap/pudding-shed/memfile"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifInts() []int64 {
	var r []int64
	for _, s := range strings.Split(os.Getenv("VERIF_INTS"), ",") {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			r = append(r, n)
		}
	}
	return r
}
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

func leBytes(v int64, w int) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(v))
	return b[:w]
}
func leWord(b []byte) int64 {
	var x [8]byte
	copy(x[:], b)
	return int64(binary.LittleEndian.Uint64(x[:]))
}

// Random histories of write/read/append/sync/close+reopen/whole-file reads against a byte-array model.
func TestVerifWordFileHistories(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	evals := 0
	for round := 0; round < verifRounds(120); round++ {
		w := 1 + round%8
		shadow := round%3 == 1
		dir := t.TempDir()
		wfc := NewConcreteWordFileCreator("words", dir, int64(w), shadow, false)
		fill := 0
		if round%5 == 4 {
			fill = rng.Intn(40)
			if err := wfc.CreateWordFileFilledZeros(int64(fill)); err != nil {
				t.Fatal(err)
			}
		} else if err := wfc.CreateWordFile(); err != nil {
			t.Fatal(err)
		}
		if !wfc.WordFileExists() {
			t.Fatal("REPLAY created file does not exist")
		}
		wf, err := wfc.OpenWordFile()
		if err != nil {
			t.Fatal(err)
		}
		model := make([]byte, fill*w)
		hist := fmt.Sprintf("width %d shadow %v fill %d:", w, shadow, fill)
		fail := func(f string, a ...any) { t.Fatalf("REPLAY history %s => %s", hist, fmt.Sprintf(f, a...)) }
		count := func() int64 { return int64(len(model) / w) }
		ops := 60
		if round%10 == 3 {
			ops = 1500
		}
		for k := 0; k < ops; k++ {
			evals++
			op := rng.Intn(20)
			switch {
			case op < 9: // append or overwrite
				off := count()
				if rng.Intn(4) == 0 {
					off = rng.Int63n(count() + 5)
				}
				v := rng.Int63() >> uint(63-rng.Intn(min(8*w, 63))) // narrow and wide values that fit
				switch rng.Intn(8) {
				case 0:
					v = 0
				case 1:
					if w < 8 {
						v = 1<<uint(8*w) - 1
					} else {
						v = -1 << uint(rng.Intn(40))
					}
				case 2:
					if is := verifInts(); len(is) > 0 {
						x := is[rng.Intn(len(is))]
						if leWord(leBytes(x, w)) == x {
							v = x
						}
					}
				}
				if ops < 100 {
					hist += fmt.Sprintf(" w[%d]=%d", off, v)
				}
				if err := wf.WriteWordAt(v, off); err != nil {
					fail("write error %v", err)
				}
				for int64(len(model)) < (off+1)*int64(w) {
					model = append(model, make([]byte, w)...)
				}
				copy(model[off*int64(w):], leBytes(v, w))
				if shadow && off > count() {
					fail("model")
				}
			case op < 15 && count() > 0:
				off := rng.Int63n(count())
				got, err := wf.ReadWordAt(off)
				want := leWord(model[off*int64(w) : (off+1)*int64(w)])
				if ops < 100 {
					hist += fmt.Sprintf(" r[%d]", off)
				}
				if err != nil || got != want {
					fail("read %d: got %d,%v want %d", off, got, err, want)
				}
			case op == 15:
				hist += " sync"
				if err := wf.Sync(); err != nil {
					fail("sync %v", err)
				}
				disk, _ := os.ReadFile(filepath.Join(dir, "words.int"))
				if !bytes.Equal(disk, model) {
					fail("bytes on disk after sync differ: %d bytes, want %d", len(disk), len(model))
				}
			case op == 16:
				hist += " reopen"
				if err := wf.Close(); err != nil {
					fail("close %v", err)
				}
				ro, err := wfc.OpenWordFileReadOnly()
				if err != nil {
					fail("open read only %v", err)
				}
				if n, _ := ro.CountWords(); n != count() {
					fail("read-only count %d want %d", n, count())
				}
				for i := int64(0); i < count(); i++ {
					if got, err := ro.ReadWordAt(i); err != nil || got != leWord(model[i*int64(w):(i+1)*int64(w)]) {
						fail("read-only read %d: %d %v", i, got, err)
					}
				}
				if _, err := ro.ReadWordAt(count()); err == nil {
					fail("read-only read beyond end succeeded")
				}
				if ro.WordSize() != int64(w) {
					fail("read-only width")
				}
				ro.Close()
				if count() > 0 {
					mm := NewConcreteWordFileCreator("words", dir, int64(w), shadow, true)
					ro, err := mm.OpenWordFileReadOnly()
					if err != nil {
						fail("open mmap %v", err)
					}
					if n, _ := ro.CountWords(); n != count() {
						fail("mmap count %d want %d", n, count())
					}
					for i := int64(0); i < count(); i++ {
						if got, err := ro.ReadWordAt(i); err != nil || got != leWord(model[i*int64(w):(i+1)*int64(w)]) {
							fail("mmap read %d: %d %v", i, got, err)
						}
					}
					if _, err := ro.ReadWordAt(count()); err == nil {
						fail("mmap read beyond end succeeded")
					}
					ro.Close()
				}
				wf, err = wfc.OpenWordFile()
				if err != nil {
					fail("open %v", err)
				}
			case op == 17:
				hist += " all"
				all, err := wf.ReadWholeFileAsInt64s()
				if err != nil || int64(len(all)) != count() {
					fail("whole file: %d words, %v; want %d", len(all), err, count())
				}
				for i, got := range all {
					if got != leWord(model[i*w:(i+1)*w]) {
						fail("whole file word %d: %d", i, got)
					}
				}
			case op == 18:
				if _, err := wf.ReadWordAt(count() + rng.Int63n(3)); err == nil {
					fail("read beyond the end succeeded")
				}
			default:
				if n, err := wf.CountWords(); err != nil || n != count() {
					fail("count %d %v want %d", n, err, count())
				}
				if wf.WordSize() != int64(w) {
					fail("width %d", wf.WordSize())
				}
			}
		}
		if err := wf.Close(); err != nil {
			fail("close %v", err)
		}
		disk, _ := os.ReadFile(filepath.Join(dir, "words.int"))
		if !bytes.Equal(disk, model) {
			fail("bytes on disk after close differ: %d bytes, want %d", len(disk), len(model))
		}
		// a file that is not a whole number of words is refused
		if w > 1 {
			os.WriteFile(filepath.Join(dir, "words.int"), append(disk, 1), 0644)
			if wf, err := wfc.OpenWordFile(); err == nil {
				wf.Close()
				fail("file of %d bytes opened with width %d", len(disk)+1, w)
			}
			if wf, err := wfc.OpenWordFileReadOnly(); err == nil {
				wf.Close()
				fail("file of %d bytes opened read-only with width %d", len(disk)+1, w)
			}
		}
	}
	// a value too wide for the word is truncated and does not disturb later reads
	for w := 1; w < 8; w++ {
		wfc := NewConcreteWordFileCreator("wide", t.TempDir(), int64(w), false, false)
		wfc.CreateWordFile()
		wf, _ := wfc.OpenWordFile()
		wf.WriteWordAt(3, 0)
		wf.WriteWordAt(-2, 1)
		if v, err := wf.ReadWordAt(0); v != 3 || err != nil {
			t.Fatalf("REPLAY width %d: write 3 at 0, -2 at 1; read 0 gives %d,%v", w, v, err)
		}
		wf.Close()
	}
	t.Logf("REPLAY-EVALS %d", evals)
}

func TestVerifHashFileHistories(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed() + 7))
	evals := 0
	for round := 0; round < verifRounds(40); round++ {
		dir := t.TempDir()
		name := filepath.Join(dir, "h")
		os.WriteFile(name, nil, 0644)
		var model [][32]byte
		open := func() *HashFile {
			f, err := os.OpenFile(name, os.O_RDWR, 0)
			if err != nil {
				t.Fatal(err)
			}
			a, err := memfile.NewAppendOptimizedFile(f)
			if err != nil {
				t.Fatal(err)
			}
			return NewHashFile(a, int64(len(model)))
		}
		hf := open()
		ops := 80
		if round%8 == 2 {
			ops = 1200
		}
		for k := 0; k < ops; k++ {
			evals++
			var h [32]byte
			rng.Read(h[:])
			n := int64(len(model))
			switch op := rng.Intn(12); {
			case op < 4:
				i, err := hf.AppendHash(h)
				if err != nil || i != n {
					t.Fatalf("REPLAY append gave index %d,%v want %d", i, err, n)
				}
				model = append(model, h)
			case op < 6:
				off := rng.Int63n(n + 3)
				if err := hf.WriteHashAt(h, off); err != nil {
					t.Fatalf("REPLAY write %v", err)
				}
				for int64(len(model)) <= off {
					model = append(model, [32]byte{})
				}
				model[off] = h
			case op < 10 && n > 0:
				off := rng.Int63n(n)
				got, err := hf.ReadHashAt(off)
				if err != nil || got != model[off] {
					t.Fatalf("REPLAY read %d of %d: %x,%v want %x", off, n, got, err, model[off])
				}
			case op == 10:
				if err := hf.Close(); err != nil {
					t.Fatal(err)
				}
				hf = open()
			default:
				if hf.CountHashes() != n {
					t.Fatalf("REPLAY count %d want %d", hf.CountHashes(), n)
				}
				if _, err := hf.ReadHashAt(n); err == nil {
					t.Fatalf("REPLAY read beyond end succeeded")
				}
			}
		}
		hf.Sync()
		disk, _ := os.ReadFile(name)
		for i, h := range model {
			if !bytes.Equal(disk[i*32:i*32+32], h[:]) {
				t.Fatalf("REPLAY disk hash %d", i)
			}
		}
		hf.Close()
	}
	t.Logf("REPLAY-EVALS %d", evals)
}
