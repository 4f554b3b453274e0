package intrinsicobjectscri

import (
	"crypto/sha256"
	"fmt"
	"math"
	"math/rand"
	"testing"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
)

func TestVerifHolder(t *testing.T) {
	evals := 0
	for round := 0; round < vRounds(60); round++ {
		r := rand.New(rand.NewSource(vSeed()*104729 + int64(round)))
		chain := vChain(r, 1+r.Intn(16))
		var ix *vIndexer
		var obh *OneBlockHolder
		if round%3 == 0 {
			obh = CreateOneBlockHolder(nil)
		} else {
			ix = newVIndexer()
			obh = CreateOneBlockHolder(ix)
		}
		go func() {
			for _, b := range chain {
				obh.InChan <- b
			}
			close(obh.InChan)
		}()
		where := func(h int) string { return fmt.Sprintf("REPLAY seed=%d round=%d block %d", vSeed(), round, h) }
		var bh chainreadinterface.IBlockHandle = obh.GenesisBlock()
		var err error
		for h := 0; h < len(chain); h++ {
			b := chain[h]
			if err != nil || bh.IsInvalid() {
				t.Fatalf("%s: not delivered (%v)", where(h), err)
			}
			blk, err := obh.BlockInterface(bh)
			if err != nil {
				t.Fatalf("%s: %v", where(h), err)
			}
			if x, _ := blk.Hash(); x != b.BlockHash {
				t.Fatalf("%s: hash %x, want %x", where(h), x, b.BlockHash)
			}
			want := map[string]int64{"time": int64(b.Time), "mediantime": int64(vMedian(chain, h)), "size": int64(b.Size),
				"strippedsize": int64(b.StrippedSize), "weight": int64(b.Weight), "difficulty": int64(math.Round(b.Difficulty))}
			ints, _ := blk.NonEssentialInts()
			for k, v := range want {
				if (*ints)[k] != v {
					t.Fatalf("%s: %s is %d, want %d", where(h), k, (*ints)[k], v)
				}
			}
			if n, _ := blk.TransactionCount(); n != int64(len(b.Transactions)) {
				t.Fatalf("%s: %d transactions, want %d", where(h), n, len(b.Transactions))
			}
			for i := range b.Transactions {
				x := &b.Transactions[i]
				th, err := blk.NthTransaction(int64(i))
				if err != nil {
					t.Fatalf("%s: transaction %d: %v", where(h), i, err)
				}
				bi, ti := th.IndicesPath()
				if bi != int64(h) || ti != int64(i) {
					t.Fatalf("%s: transaction %d has the path %d, %d", where(h), i, bi, ti)
				}
				tx, err := obh.TransInterface(th)
				if err != nil {
					t.Fatalf("%s: transaction %d: %v", where(h), i, err)
				}
				if id, _ := tx.Hash(); id != x.TxId {
					t.Fatalf("%s: transaction %d has id %x, want %x", where(h), i, id, x.TxId)
				}
				ints, _ := tx.NonEssentialInts()
				if (*ints)["size"] != int64(x.Size) || (*ints)["vsize"] != int64(x.VSize) || (*ints)["weight"] != int64(x.Weight) {
					t.Fatalf("%s: transaction %d: %v", where(h), i, *ints)
				}
				ni := x.TxisCount
				if i == 0 {
					ni = 0
				}
				ic, _ := tx.TxiCount()
				oc, _ := tx.TxoCount()
				if ic != ni || oc != x.TxosCount {
					t.Fatalf("%s: transaction %d: %d inputs and %d outputs, want %d and %d", where(h), i, ic, oc, ni, x.TxosCount)
				}
				for j := int64(0); j < ic; j++ {
					w := b.Storage.Txis[x.TxisStart+j]
					ih, _ := tx.NthTxi(j)
					txi, err := obh.TxiInterface(ih)
					if err != nil {
						t.Fatalf("%s: transaction %d input %d: %v", where(h), i, j, err)
					}
					ph, _ := ih.ParentTrans().Hash()
					src, _ := txi.SourceTxo()
					sh, _ := src.ParentTrans().Hash()
					if ph != x.TxId || ih.ParentIndex() != j || sh != w.TxId || src.ParentIndex() != w.VOut {
						t.Fatalf("%s: transaction %d input %d is spent from %x:%d (input of %x:%d), want %x:%d", where(h), i, j, sh, src.ParentIndex(), ph, ih.ParentIndex(), w.TxId, w.VOut)
					}
					evals++
				}
				sats, _ := tx.AllTxoSatoshis()
				for j := int64(0); j < oc; j++ {
					w := b.Storage.Txos[x.TxosStart+j]
					s := b.Storage.Scripts[w.ScriptPubKeyStart : w.ScriptPubKeyStart+w.ScriptPubKeyLen]
					oh, _ := tx.NthTxo(j)
					txo, err := obh.TxoInterface(oh)
					if err != nil {
						t.Fatalf("%s: transaction %d output %d: %v", where(h), i, j, err)
					}
					ph, _ := oh.ParentTrans().Hash()
					v, _ := txo.Satoshis()
					a, _ := txo.Address()
					addr, err := obh.AddressInterface(a)
					if err != nil || v != w.Value || sats[j] != w.Value || ph != x.TxId || oh.ParentIndex() != j || a.Hash() != sha256.Sum256(s) || addr.Hash() != a.Hash() {
						t.Fatalf("%s: transaction %d output %d: %v value %d (%d in the list), address %x, want %d %x", where(h), i, j, err, v, sats[j], a.Hash(), w.Value, sha256.Sum256(s))
					}
					evals++
				}
			}
			if ix != nil {
				if e := ix.check(chain[:h+1]); e != "" {
					t.Fatalf("%s: %s", where(h), e)
				}
			}
			bh, err = obh.NextBlock(bh)
			if err != nil {
				t.Fatalf("%s: next: %v", where(h), err)
			}
		}
		if !bh.IsInvalid() {
			t.Fatalf("%s: the end of the chain is not reported", where(len(chain)))
		}
	}
	fmt.Println("REPLAY-EVALS", evals)
}

// A block that does not point at the one before it is refused; so is a failing index.
func TestVerifRefused(t *testing.T) {
	run := func(obh *OneBlockHolder, n int, feed func(done chan bool)) (at int, refused bool) {
		done := make(chan bool)
		go feed(done)
		defer close(done)
		defer func() {
			if recover() != nil {
				refused = true
			}
		}()
		var bh chainreadinterface.IBlockHandle = obh.GenesisBlock()
		var err error
		for at = 0; at < n-1; at++ {
			bh, err = obh.NextBlock(bh)
			if err != nil {
				return at, true
			}
		}
		return at, false
	}
	for round := 0; round < vRounds(40); round++ {
		r := rand.New(rand.NewSource(vSeed()*7 + int64(round)))
		chain := vChain(r, 5)
		k := 1 + r.Intn(4)
		chain[k].PrevHash[r.Intn(32)] ^= byte(1 << r.Intn(8))
		obh := CreateOneBlockHolder(nil)
		feeder := func(o *OneBlockHolder) func(done chan bool) {
			c := chain
			return func(done chan bool) {
				for _, b := range c {
					select {
					case o.InChan <- b:
					case <-done:
						return
					}
				}
			}
		}
		at, refused := run(obh, 5, feeder(obh))
		if !refused || at != k-1 {
			t.Fatalf("REPLAY seed=%d round=%d: block %d does not point at block %d but was taken (refused=%v at %d)", vSeed(), round, k, k-1, refused, at)
		}
		ix := newVIndexer()
		chain = vChain(r, 4)
		total := 0
		for _, b := range chain {
			total += 1 + 2*len(b.Transactions)
		}
		ix.failAt = r.Intn(total)
		obh = CreateOneBlockHolder(ix)
		if _, refused = run(obh, 4, feeder(obh)); !refused {
			t.Fatalf("REPLAY seed=%d round=%d: store %d of the index failed but no error is reported", vSeed(), round, ix.failAt)
		}
	}
	fmt.Println("REPLAY-EVALS 80")
}
