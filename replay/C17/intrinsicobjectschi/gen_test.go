package intrinsicobjectschi

import (
	"errors"
	"math/rand"
	"os"
	"strconv"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
)

func vSeed() int64 {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return s
}
func vRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 20
	}
	return n
}

func vHash(r *rand.Rand) (h indexedhashes.Sha256) {
	r.Read(h[:])
	return
}

func vGenesisHash() (h indexedhashes.Sha256) {
	h[0], h[1], h[2], h[3] = 0x6f, 0xe2, 0x8c, 0x0a
	h[31] = 1
	return
}

// vChain makes a chain of n blocks, each pointing at the one before.
func vChain(r *rand.Rand, n int) []*intrinsicobjects.Block {
	var chain []*intrinsicobjects.Block
	prev := indexedhashes.Sha256{}
	for i := 0; i < n; i++ {
		st := intrinsicobjects.NewMultiTransactionStorage()
		b := &intrinsicobjects.Block{Storage: st}
		b.BlockHash = vHash(r)
		if i == 0 {
			b.BlockHash = vGenesisHash()
		}
		b.PrevHash = prev
		prev = b.BlockHash
		b.Time = uint32(r.Intn(1 << 20))
		b.Size = r.Intn(1 << 22)
		b.Weight = r.Intn(1 << 22)
		b.StrippedSize = r.Intn(1 << 20)
		b.Difficulty = float64(r.Intn(1000000)) + []float64{0, 0.25, 0.5, 0.75}[r.Intn(4)]
		for k := 1 + r.Intn(5); k > 0; k-- {
			t := intrinsicobjects.Transaction{TxId: vHash(r), Size: r.Intn(99999), Weight: r.Intn(99999), VSize: r.Intn(99999)}
			t.TxisStart = int64(len(st.Txis))
			t.TxisCount = int64(r.Intn(5))
			for j := int64(0); j < t.TxisCount; j++ {
				st.Txis = append(st.Txis, intrinsicobjects.Txi{TxId: vHash(r), VOut: int64(r.Intn(70000))})
			}
			t.TxosStart = int64(len(st.Txos))
			t.TxosCount = int64(r.Intn(5))
			for j := int64(0); j < t.TxosCount; j++ {
				o := intrinsicobjects.Txo{Value: r.Int63n(2100000000000000), ScriptPubKeyStart: int32(len(st.Scripts)), ScriptPubKeyLen: int32(r.Intn(40))}
				s := make([]byte, o.ScriptPubKeyLen)
				r.Read(s)
				st.Scripts = append(st.Scripts, s...)
				st.Txos = append(st.Txos, o)
			}
			b.Transactions = append(b.Transactions, t)
		}
		chain = append(chain, b)
	}
	return chain
}

// vIndexer records what it is told and can be made to fail at the n-th store.
type vIndexer struct {
	hashToHeight map[indexedhashes.Sha256]int64
	parent       map[int64]int64
	first        map[int64]int64
	failAt       int
	stores       int
}

func newVIndexer() *vIndexer {
	return &vIndexer{map[indexedhashes.Sha256]int64{}, map[int64]int64{}, map[int64]int64{}, -1, 0}
}
func (x *vIndexer) store() error {
	x.stores++
	if x.stores-1 == x.failAt {
		return errors.New("store failed")
	}
	return nil
}
func (x *vIndexer) StoreTransHashToHeight(h *indexedhashes.Sha256, n int64) error {
	if err := x.store(); err != nil {
		return err
	}
	x.hashToHeight[*h] = n
	return nil
}
func (x *vIndexer) StoreTransHeightToParentBlock(n int64, b int64) error {
	if err := x.store(); err != nil {
		return err
	}
	x.parent[n] = b
	return nil
}
func (x *vIndexer) StoreBlockHeightToFirstTrans(b int64, n int64) error {
	if err := x.store(); err != nil {
		return err
	}
	x.first[b] = n
	return nil
}
func (x *vIndexer) RetrieveTransHashToHeight(h *indexedhashes.Sha256) (int64, error) { return -1, nil }
func (x *vIndexer) RetrieveTransHeightToParentBlock(int64) (int64, error)            { return -1, nil }
func (x *vIndexer) RetrieveBlockHeightToFirstTrans(int64) (int64, error)             { return -1, nil }
func (x *vIndexer) Close()                                                           {}

// check compares the index with the blocks visited so far.
func (x *vIndexer) check(chain []*intrinsicobjects.Block) string {
	n := int64(0)
	for h, b := range chain {
		if f, ok := x.first[int64(h)]; !ok || f != n {
			return "block " + strconv.Itoa(h) + " is indexed to start at transaction " + strconv.FormatInt(f, 10) + ", want " + strconv.FormatInt(n, 10)
		}
		for i := range b.Transactions {
			if p, ok := x.parent[n]; !ok || p != int64(h) {
				return "parent block of transaction " + strconv.FormatInt(n, 10) + " is indexed as " + strconv.FormatInt(p, 10) + ", want " + strconv.Itoa(h)
			}
			if k, ok := x.hashToHeight[b.Transactions[i].TxId]; !ok || k != n {
				return "height of transaction " + strconv.FormatInt(n, 10) + " is indexed as " + strconv.FormatInt(k, 10)
			}
			n++
		}
	}
	if int64(len(x.parent)) != n || int64(len(x.hashToHeight)) != n || len(x.first) != len(chain) {
		return "the index has more entries than there are transactions or blocks"
	}
	return ""
}

func vMedian(chain []*intrinsicobjects.Block, h int) uint32 {
	lo := h - 10
	if lo < 0 {
		lo = 0
	}
	var w []uint32
	for i := lo; i <= h; i++ {
		t := chain[i].Time
		k := len(w)
		w = append(w, 0)
		for k > 0 && w[k-1] > t {
			w[k] = w[k-1]
			k--
		}
		w[k] = t
	}
	return w[len(w)/2]
}
