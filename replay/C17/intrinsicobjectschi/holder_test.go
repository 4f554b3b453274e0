package intrinsicobjectschi

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"testing"

	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
)

func TestVerifHolder(t *testing.T) {
	evals := 0
	for round := 0; round < vRounds(60); round++ {
		r := rand.New(rand.NewSource(vSeed()*104729 + int64(round)))
		chain := vChain(r, 1+r.Intn(16))
		var ix *vIndexer
		var obh *OneBlockHolder
		if round%3 == 0 {
			obh = CreateOneBlockHolder(nil)
		} else {
			ix = newVIndexer()
			obh = CreateOneBlockHolder(ix)
		}
		go func() {
			for _, b := range chain {
				obh.InChan <- b
			}
			close(obh.InChan)
		}()
		where := func(h int) string { return fmt.Sprintf("REPLAY seed=%d round=%d block %d", vSeed(), round, h) }
		bh, err := obh.GenesisBlock()
		br := chainhandleinterface.NewBlockReceiver()
		tr := chainhandleinterface.NewBitcoinCoreTransactionReceiver()
		ir := chainhandleinterface.NewTxiReceiver()
		or := chainhandleinterface.NewTxoReceiver()
		for h := 0; h < len(chain); h++ {
			b := chain[h]
			if err != nil || obh.IsBlockHandleInvalid(bh) {
				t.Fatalf("%s: not delivered (%v)", where(h), err)
			}
			var wrong chainhandleinterface.BlockHandle = bh
			wrong.Bytes[1] ^= 1
			if obh.GetBlockInfo(wrong, br) == nil {
				t.Fatalf("%s: a handle of another block is accepted", where(h))
			}
			if err := obh.GetBlockInfo(bh, br); err != nil {
				t.Fatalf("%s: %v", where(h), err)
			}
			want := map[string]int64{"time": int64(b.Time), "mediantime": int64(vMedian(chain, h)), "size": int64(b.Size),
				"strippedsize": int64(b.StrippedSize), "weight": int64(b.Weight), "difficulty": int64(math.Round(b.Difficulty))}
			for k, v := range want {
				if br.FieldMap[k] != v {
					t.Fatalf("%s: %s is %d, want %d", where(h), k, br.FieldMap[k], v)
				}
			}
			if br.BlockHeight != int64(h) || br.BlockHash != b.BlockHash || len(br.TransactionHandles) != len(b.Transactions) {
				t.Fatalf("%s: height %d hash %x transactions %d", where(h), br.BlockHeight, br.BlockHash, len(br.TransactionHandles))
			}
			for i, th := range br.TransactionHandles {
				x := &b.Transactions[i]
				if err := obh.GetTransactionInfo(th, tr); err != nil {
					t.Fatalf("%s: transaction %d: %v", where(h), i, err)
				}
				ni := int(x.TxisCount)
				if i == 0 {
					ni = 0
				}
				if tr.TransactionHash != x.TxId || tr.ParentBlockHandle != bh || tr.FieldMap["size"] != int64(x.Size) || tr.FieldMap["vsize"] != int64(x.VSize) || tr.FieldMap["weight"] != int64(x.Weight) {
					t.Fatalf("%s: transaction %d: wrong contents %v", where(h), i, tr)
				}
				if len(tr.TxiHandles) != ni || len(tr.TxoHandles) != int(x.TxosCount) {
					t.Fatalf("%s: transaction %d: %d inputs and %d outputs, want %d and %d", where(h), i, len(tr.TxiHandles), len(tr.TxoHandles), ni, x.TxosCount)
				}
				for j, ih := range tr.TxiHandles {
					w := b.Storage.Txis[x.TxisStart+int64(j)]
					if err := obh.GetTxiInfo(ih, ir); err != nil || ir.IncomingTxid != w.TxId || ir.IncomingVout != w.VOut || ir.ParentTransactionHandle != th {
						t.Fatalf("%s: transaction %d input %d: %v %v, want %v", where(h), i, j, err, ir, w)
					}
					evals++
				}
				for j, oh := range tr.TxoHandles {
					w := b.Storage.Txos[x.TxosStart+int64(j)]
					s := b.Storage.Scripts[w.ScriptPubKeyStart : w.ScriptPubKeyStart+w.ScriptPubKeyLen]
					if err := obh.GetTxoInfo(oh, or); err != nil || or.SatoshisValue != w.Value || or.ParentTransactionHandle != th || !bytes.Equal(or.ScriptPubBytes, s) {
						t.Fatalf("%s: transaction %d output %d: %v %v, want %v %x", where(h), i, j, err, or, w, s)
					}
					evals++
				}
			}
			if ix != nil {
				if e := ix.check(chain[:h+1]); e != "" {
					t.Fatalf("%s: %s", where(h), e)
				}
			}
			bh, err = obh.NextBlock(bh)
		}
		if err != nil || !obh.IsBlockHandleInvalid(bh) {
			t.Fatalf("%s: the end of the chain is not reported (%v)", where(len(chain)), err)
		}
	}
	fmt.Println("REPLAY-EVALS", evals)
}

// A block that does not point at the one before it is refused; so is a failing index.
func TestVerifRefused(t *testing.T) {
	for round := 0; round < vRounds(40); round++ {
		r := rand.New(rand.NewSource(vSeed()*7 + int64(round)))
		chain := vChain(r, 5)
		k := 1 + r.Intn(4)
		chain[k].PrevHash[r.Intn(32)] ^= byte(1 << r.Intn(8))
		obh := CreateOneBlockHolder(nil)
		done := make(chan bool)
		go vFeed(obh, chain, done)
		at := 0
		refused := func() (refused bool) {
			defer func() {
				if recover() != nil {
					refused = true
				}
			}()
			bh, err := obh.GenesisBlock()
			for at = 0; at < 4; at++ {
				if err != nil {
					return true
				}
				bh, err = obh.NextBlock(bh)
			}
			return err != nil
		}()
		close(done)
		if !refused || at != k-1 {
			t.Fatalf("REPLAY seed=%d round=%d: block %d does not point at block %d but was taken (refused=%v at %d)", vSeed(), round, k, k-1, refused, at)
		}
		ix := newVIndexer()
		chain = vChain(r, 4)
		total := 0
		for _, b := range chain {
			total += 1 + 2*len(b.Transactions)
		}
		ix.failAt = r.Intn(total)
		obh = CreateOneBlockHolder(ix)
		done = make(chan bool)
		go vFeed(obh, chain, done)
		bh, err := obh.GenesisBlock()
		for h := 1; h < 4 && err == nil; h++ {
			bh, err = obh.NextBlock(bh)
		}
		close(done)
		if err == nil {
			t.Fatalf("REPLAY seed=%d round=%d: store %d of the index failed but no error is reported", vSeed(), round, ix.failAt)
		}
	}
	fmt.Println("REPLAY-EVALS 80")
}

func TestVerifHandles(t *testing.T) {
	for _, h := range []int64{0, 1, 255, 256, 65535, 65536, 0xFFFFFE, 0x12345678, 0xFFFFFFFE} {
		bh := makeBlockHandle(h)
		if isInvalidBlockHandle(bh) {
			t.Fatalf("REPLAY block handle of height %d reads as invalid", h)
		}
		for _, k := range []int64{0, 1, 255, 256, 65535, 65536, 0xFFFFFE, 0x12345678, 0xFFFFFFFE} {
			if (makeBlockHandle(k) == bh) != (k == h) {
				t.Fatalf("REPLAY block handles of heights %d and %d", h, k)
			}
		}
		if indexInBlockFromTransactionSubHandle(makeTransactionSubHandle(h)) != h || txiIndexFromTxiSubHandle(makeTxiSubHandle(h)) != h || txoIndexFromTxiSubHandle(makeTxoSubHandle(h)) != h {
			t.Fatalf("REPLAY sub handle of %d", h)
		}
	}
	func() {
		defer func() { recover() }()
		if bh := makeBlockHandle(0xFFFFFFFF); isInvalidBlockHandle(bh) {
			t.Fatalf("REPLAY the handle of block 0xFFFFFFFF is the invalid handle")
		}
	}()
	fmt.Println("REPLAY-EVALS 90")
}

// vFeed sends the blocks until there are no more or done is closed.
func vFeed(obh *OneBlockHolder, chain []*intrinsicobjects.Block, done chan bool) {
	for _, b := range chain {
		select {
		case obh.InChan <- b:
		case <-done:
			return
		}
	}
}
