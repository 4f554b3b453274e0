package indexedhashes

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"github.com/KitchenMishap/pudding-shed/wordfile"
)

func vSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}
func vThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// model: the list of hashes, and the first index of each
type vModel struct {
	list  []Sha256
	first map[Sha256]int64
}

func (m *vModel) add(h Sha256) {
	if _, ok := m.first[h]; !ok {
		m.first[h] = int64(len(m.list))
	}
	m.list = append(m.list, h)
}
func (m *vModel) idx(h Sha256) int64 {
	if i, ok := m.first[h]; ok {
		return i
	}
	return -1
}

// hashes that share the bits looked up by: few different first eight bytes, few different tails
func vHash(r *rand.Rand, heads, tails int) Sha256 {
	var h Sha256
	hd := uint64(r.Intn(heads)) * 0x9E3779B97F4A7C15
	if r.Intn(2) == 0 {
		hd = uint64(r.Intn(heads))
	}
	if r.Intn(3) == 0 {
		hd |= 0xFFFFFFFF00000000
	}
	for i := 0; i < 8; i++ {
		h[i] = byte(hd >> (8 * i))
	}
	tl := r.Intn(tails)
	at := 8 + r.Intn(24)
	if r.Intn(2) == 0 {
		at = 31
	}
	h[at] = byte(tl)
	h[(at+1)%24+8] = byte(tl >> 8)
	return h
}

func vCheckOne(t *testing.T, what string, rd HashReader, m *vModel, h Sha256) {
	in := h
	got, err := rd.IndexOfHash(&in)
	if err != nil || got != m.idx(h) || in != h {
		t.Fatalf("REPLAY %s: IndexOfHash(%x) = %d, %v with %d hashes appended, want %d", what, h, got, err, len(m.list), m.idx(h))
	}
}
func vCheckAll(t *testing.T, what string, rd HashReader, m *vModel, r *rand.Rand, heads, tails int) {
	n, err := rd.CountHashes()
	if err != nil || n != int64(len(m.list)) {
		t.Fatalf("REPLAY %s: CountHashes() = %d, %v after %d appends", what, n, err, len(m.list))
	}
	for i, h := range m.list {
		var g Sha256
		g[3] = 77
		err := rd.GetHashAtIndex(int64(i), &g)
		if err != nil || g != h {
			t.Fatalf("REPLAY %s: GetHashAtIndex(%d) = %x, %v, appended %x", what, i, g, err, h)
		}
		vCheckOne(t, what, rd, m, h)
	}
	for i := 0; i < 40; i++ {
		vCheckOne(t, what, rd, m, vHash(r, heads, tails))
	}
	vCheckOne(t, what, rd, m, Sha256{})
	var g Sha256
	if err := rd.GetHashAtIndex(int64(len(m.list)), &g); err == nil {
		t.Fatalf("REPLAY %s: GetHashAtIndex(%d) of %d hashes is no error", what, len(m.list), len(m.list))
	}
}

func TestVerifHashStores(t *testing.T) {
	r := rand.New(rand.NewSource(vSeed()))
	rounds := 90
	if vThorough() {
		rounds = 900
	}
	evals := 0
	for round := 0; round < rounds; round++ {
		dir := t.TempDir()
		bits := int64(r.Intn(9))
		nb := int64(1 + r.Intn(7))
		cpc := int64(2 + r.Intn(7))
		mem, ao := r.Intn(2) == 0, r.Intn(2) == 0
		heads, tails := 1+r.Intn(6), 1+r.Intn(400)
		limit := 1 << 30
		var cr HashStoreCreator
		var err error
		kind := r.Intn(5)
		what := ""
		if kind == 0 {
			what = "memory store"
			cr, err = NewConcreteHashStoreCreatorMemory("S", filepath.Join(dir, "x"))
		} else {
			if kind == 1 {
				nb = 1
				bits = int64(r.Intn(3))
			}
			what = fmt.Sprintf("store bits=%d entryBytes=%d perChunk=%d memLookup=%v appendOpt=%v", bits, nb, cpc, mem, ao)
			cr, err = NewConcreteHashStoreCreator("S", filepath.Join(dir, "x"), bits, nb, cpc, mem, ao)
			limit = 1<<(8*uint(nb)-1) - 1
		}
		if err != nil {
			t.Fatalf("REPLAY %s: creator: %v", what, err)
		}
		what = fmt.Sprintf("round %d (seed %d) %s", round, vSeed(), what)
		if cr.HashStoreExists() {
			t.Fatalf("REPLAY %s: exists before it is created", what)
		}
		if err := cr.CreateHashStore(); err != nil {
			t.Fatalf("REPLAY %s: create: %v", what, err)
		}
		if !cr.HashStoreExists() {
			t.Fatalf("REPLAY %s: does not exist after it is created", what)
		}
		m := &vModel{first: map[Sha256]int64{}}
		for session := 0; session < 3; session++ {
			hs, err := cr.OpenHashStore()
			if err != nil {
				t.Fatalf("REPLAY %s: open: %v", what, err)
			}
			n := r.Intn(70)
			if limit < 200 && session == 2 {
				n = 140
			}
			for i := 0; i < n; i++ {
				h := vHash(r, heads, tails)
				in := h
				x, err := hs.AppendHash(&in)
				evals++
				if len(m.list) >= limit {
					if err == nil {
						t.Fatalf("REPLAY %s: append beyond the %d hashes it can index is no error", what, limit)
					}
				} else {
					if err != nil || x != int64(len(m.list)) || in != h {
						t.Fatalf("REPLAY %s: AppendHash = %d, %v, want %d", what, x, err, len(m.list))
					}
					m.add(h)
				}
				for j := range in {
					in[j] = 0xEE // the caller's buffer is its own
				}
				vCheckOne(t, what, hs, m, h)
				if r.Intn(3) == 0 {
					vCheckOne(t, what, hs, m, vHash(r, heads, tails))
				}
				if r.Intn(20) == 0 {
					if err := hs.Sync(); err != nil {
						t.Fatalf("REPLAY %s: sync: %v", what, err)
					}
				}
			}
			vCheckAll(t, what, hs, m, r, heads, tails)
			if err := hs.Close(); err != nil {
				t.Fatalf("REPLAY %s: close: %v", what, err)
			}
			ro, err := cr.OpenHashStoreReadOnly()
			if err != nil {
				t.Fatalf("REPLAY %s: open read only: %v", what, err)
			}
			vCheckAll(t, what+" opened again read only", ro, m, r, heads, tails)
			if err := ro.Close(); err != nil {
				t.Fatalf("REPLAY %s: close read only: %v", what, err)
			}
		}
		// the hashes file alone: the basic store
		f, err := os.OpenFile(filepath.Join(dir, "x", "S.hsh"), os.O_RDWR, 0)
		if err != nil {
			t.Fatal(err)
		}
		bs := NewBasicHashStore(wordfile.NewHashFile(f, int64(len(m.list))))
		for i := 0; i < 3; i++ {
			h := vHash(r, heads, tails)
			x, err := bs.AppendHash(&h)
			if err != nil || x != int64(len(m.list)) {
				t.Fatalf("REPLAY %s: basic AppendHash = %d, %v, want %d", what, x, err, len(m.list))
			}
			m.add(h)
		}
		vCheckAll(t, what+" as basic store", bs, m, r, heads, tails)
		if err := bs.Close(); err != nil {
			t.Fatal(err)
		}
		os.RemoveAll(dir)
	}
	fmt.Println("REPLAY-EVALS", evals)
}

func TestVerifCreatorRefuses(t *testing.T) {
	for nb := int64(-1); nb <= 10; nb++ {
		for cpc := int64(-1); cpc <= 10; cpc++ {
			_, err := NewConcreteHashStoreCreator("S", t.TempDir(), 4, nb, cpc, false, false)
			ok := nb >= 1 && nb <= 7 && cpc >= 2 && cpc <= 8
			if ok && err != nil {
				t.Fatalf("REPLAY entryBytes=%d perChunk=%d is refused: %v", nb, cpc, err)
			}
			if !ok && err == nil {
				t.Fatalf("REPLAY entryBytes=%d perChunk=%d, which cannot index, is not refused", nb, cpc)
			}
		}
	}
	fmt.Println("REPLAY-EVALS", 144)
}

func TestVerifUniform(t *testing.T) {
	r := rand.New(rand.NewSource(vSeed() + 5))
	rounds := 12
	if vThorough() {
		rounds = 120
	}
	evals := 0
	for round := 0; round < rounds; round++ {
		dir := t.TempDir()
		est := int64(75 * (1 + r.Intn(30)))
		if r.Intn(3) == 0 {
			est = int64(75 + r.Intn(4000))
		}
		what := fmt.Sprintf("round %d (seed %d) uniform store for %d hashes", round, vSeed(), est)
		cr, _ := NewUniformHashStoreCreatorAndPreloader(dir, "U", est, 1+r.Intn(3), 1)
		if err := cr.CreateHashStore(); err != nil {
			t.Fatalf("REPLAY %s: create: %v", what, err)
		}
		m := &vModel{first: map[Sha256]int64{}}
		n := r.Intn(int(est) * 2)
		var all []byte
		for i := 0; i < n; i++ {
			h := HashOfInt(uint64(r.Int63()))
			switch r.Intn(8) {
			case 0:
				for j := 0; j < 8; j++ {
					h[j] = 0xFF
				}
			case 1:
				for j := 0; j < 8; j++ {
					h[j] = 0
				}
			case 2:
				if i > 0 {
					h = m.list[r.Intn(i)]
				}
			}
			m.add(h)
			all = append(all, h[:]...)
		}
		if err := os.WriteFile(filepath.Join(dir, "U", "Hashes.hsh"), all, 0644); err != nil {
			t.Fatal(err)
		}
		cr2, mp, err := NewUniformHashStoreCreatorAndPreloaderFromFile(dir, "U", 1)
		if err != nil {
			t.Fatalf("REPLAY %s: from file: %v", what, err)
		}
		mp.bytesPerPass = binStartSize * int64(1+r.Intn(20)) // from one bin a pass
		if err := mp.IndexTheHashes(); err != nil {
			t.Fatalf("REPLAY %s: index: %v", what, err)
		}
		rd, err := cr2.OpenHashStoreReadOnly()
		if err != nil {
			t.Fatalf("REPLAY %s: open: %v", what, err)
		}
		c, err := rd.CountHashes()
		if err != nil || c != int64(n) {
			t.Fatalf("REPLAY %s: CountHashes() = %d, %v for %d hashes", what, c, err, n)
		}
		for i, h := range m.list {
			var g Sha256
			if err := rd.GetHashAtIndex(int64(i), &g); err != nil || g != h {
				t.Fatalf("REPLAY %s: GetHashAtIndex(%d) = %x, %v, want %x", what, i, g, err, h)
			}
			vCheckOne(t, what, rd, m, h)
			evals++
		}
		for i := 0; i < 20; i++ {
			h := HashOfInt(uint64(r.Int63()))
			vCheckOne(t, what, rd, m, h)
			for j := 0; j < 8; j++ {
				h[j] = 0xFF
			}
			vCheckOne(t, what, rd, m, h)
		}
		rd.Close()
		os.RemoveAll(dir)
	}
	fmt.Println("REPLAY-EVALS", evals)
}
