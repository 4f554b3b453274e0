package indexedhashes3

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

type verifEntry struct {
	sn sortNum
	th truncatedHash
}

// A bin finds exactly the entries that were put in it: inserted one by one, or appended and then sorted.
func TestVerifBins(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	evals := 0
	for round := 0; round < verifRounds(1500); round++ {
		sb := int64(1 + rng.Intn(8))
		p := NewHashStoreParams(int64(8+rng.Intn(50)), 1000, 2, int64(2+2*rng.Intn(500)), 10, sb)
		limit := uint64(1)<<(8*uint(sb)-1)<<1 - 1
		if limit > p.divider-1 {
			limit = p.divider - 1
		}
		var few []sortNum
		for i := 0; i < 1+rng.Intn(6); i++ {
			few = append(few, sortNum(rng.Uint64()%(limit+1)))
		}
		few = append(few, 0, sortNum(limit))
		var ths []truncatedHash
		for i := 0; i < 1+rng.Intn(4); i++ {
			var th truncatedHash
			rng.Read(th[:])
			ths = append(ths, th)
		}
		entry := func() (e verifEntry) {
			switch rng.Intn(3) {
			case 0:
				e.sn = few[rng.Intn(len(few))]
			case 1:
				e.sn = few[rng.Intn(len(few))] + sortNum(rng.Intn(3)) - 1
			case 2:
				e.sn = sortNum(rng.Uint64())
			}
			e.sn = sortNum(uint64(e.sn) % (limit + 1))
			if rng.Intn(2) == 0 {
				e.th = ths[rng.Intn(len(ths))]
				if rng.Intn(3) == 0 {
					e.th[rng.Intn(24)] ^= 1 << uint(rng.Intn(8))
				}
			} else {
				rng.Read(e.th[:])
			}
			return
		}
		appending := rng.Intn(2) == 0
		n := rng.Intn(60)
		b := &bin{}
		at := map[verifEntry]hashIndex{}
		var of []verifEntry
		hist := fmt.Sprintf("appending %v, %d bytes of sort number:", appending, sb)
		for len(of) < n {
			e := entry()
			_, dup := at[e]
			if dup && !appending {
				continue // inserting a hash again is not part of the property
			}
			hi := hashIndex(len(of))
			hist += fmt.Sprintf(" (%d %x)", e.sn, e.th[:3])
			if appending {
				b.appendBinEntry(e.sn, hi, e.th, p)
			} else {
				b.insertBinEntry(e.sn, hi, e.th, p)
			}
			if !dup {
				at[e] = hi
			}
			of = append(of, e)
		}
		fail := func(f string, x ...any) { t.Fatalf("REPLAY bin %s => %s", hist, fmt.Sprintf(f, x...)) }
		if appending {
			b.sortAndDeduplicate(p)
		}
		last, count := sortNum(0), b.length(p.BytesPerBinEntry())
		if int64(len(b.bytes)) != count*p.BytesPerBinEntry() || count > int64(len(of)) || count < int64(len(at)) || (!appending && count != int64(len(of))) {
			fail("%d bytes for %d different entries", len(b.bytes), len(at))
		}
		for i := int64(0); i < count; i++ {
			e := b.getEntry(i, p)
			hi, sn := e.getHashIndexSortNum(p)
			if sn < last {
				fail("not sorted at entry %d", i)
			}
			last = sn
			if hi < 0 || int(hi) >= len(of) || of[hi] != (verifEntry{sn, e.getTruncatedHash()}) {
				fail("entry %d has index %d and hash (%d %x)", i, hi, sn, e.getTruncatedHash())
			}
		}
		for e, hi := range at {
			if g := b.lookupByHash(e.th, e.sn, p); g != hi {
				fail("(%d %x) is found at index %d, not %d", e.sn, e.th[:3], g, hi)
			}
			h := b.lookupByIndex(hi, 1, p)
			ab := h.toAbbreviatedHash()
			if h.toTruncatedHash() != e.th || ab.toBinNum(p) != 1 || ab.toSortNum(p) != e.sn {
				fail("index %d gives hash %x", hi, *h)
			}
			evals++
		}
		for i := 0; i < 30; i++ {
			e := entry()
			if _, ok := at[e]; !ok {
				if g := b.lookupByHash(e.th, e.sn, p); g != -1 {
					fail("the absent (%d %x) is found at index %d", e.sn, e.th[:3], g)
				}
				evals++
			}
		}
	}
	fmt.Println("REPLAY-EVALS", evals)
}
