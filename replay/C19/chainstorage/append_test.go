package chainstorage

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intarrayarray"
	"github.com/KitchenMishap/pudding-shed/wordfile"
)

func sameWords(f wordfile.ReadAtWordCounter, want []int64) string {
	n, err := f.CountWords()
	if err != nil || n != int64(len(want)) {
		return fmt.Sprintf("holds %d words, %v, not %d", n, err, len(want))
	}
	for i, w := range want {
		if v, err := f.ReadWordAt(int64(i)); err != nil || v != w {
			return fmt.Sprintf("word %d is %d, %v, not %d", i, v, err, w)
		}
	}
	return ""
}

func (c *chainDir) checkFiles(r *concreteReadableChain, blocks int, rng *rand.Rand) string {
	e := c.m.expect(blocks, c.sourceOf, c.unique)
	zero := make([]int64, len(e.sats))
	for _, x := range []struct {
		name string
		f    wordfile.ReadAtWordCounter
		want []int64
	}{
		{"first transaction of block", r.blkFirstTrans, e.blkFirst}, {"first txi of transaction", r.trnFirstTxi, e.trnFirstTxi},
		{"first txo of transaction", r.trnFirstTxo, e.trnFirstTxo}, {"source transaction of txi", r.txiTx, e.txiTx}, {"source index of txi", r.txiVout, e.txiVout},
		{"value of txo", r.txoSats, e.sats}, {"address of txo", r.txoAddress, e.adr}, {"spending txi of txo", r.txoSpentTxi, zero},
		{"parent block of transaction", r.parentBlockOfTrans, e.parBlk}, {"parent transaction of txi", r.parentTransOfTxi, e.parTxi},
		{"parent transaction of txo", r.parentTransOfTxo, e.parTxo}, {"first txo of address", r.addrFirstTxo, e.adrFirst},
	} {
		if x.f == nil {
			return x.name + ": no file"
		}
		if d := sameWords(x.f, x.want); d != "" {
			return x.name + ": " + d
		}
	}
	if len(r.blkNonEssentialInts) != len(c.blkNeis) || len(r.trnNonEssentialInts) != len(c.trnNeis) {
		return fmt.Sprintf("%d and %d integer fields, not %d and %d", len(r.blkNonEssentialInts), len(r.trnNonEssentialInts), len(c.blkNeis), len(c.trnNeis))
	}
	for _, k := range c.blkNeis {
		var w []int64
		for b := 0; b < blocks; b++ {
			w = append(w, c.m.blocks[b].neis[k])
		}
		if d := sameWords(r.blkNonEssentialInts[k], w); d != "" {
			return "block " + k + ": " + d
		}
	}
	for _, k := range c.trnNeis {
		var w []int64
		for i := range e.parBlk {
			w = append(w, c.m.trans[i].neis[k])
		}
		if d := sameWords(r.trnNonEssentialInts[k], w); d != "" {
			return "transaction " + k + ": " + d
		}
	}
	for a, txos := range e.adrTxos {
		if rng.Intn(4) > 0 {
			continue
		}
		got, err := r.addrAdditionalTxos.GetArray(a)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(txos[1:]) {
			return fmt.Sprintf("additional txos of address %d are %v, %v, not %v", a, got, err, txos[1:])
		}
	}
	return ""
}

// Appending the blocks of a chain fills the files with exactly what the chain contains.
func TestVerifAppendBlocks(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	evals := 0
	for round := 0; round < verifRounds(40); round++ {
		func() {
			defer verifQuiet(t)()
			delegated, useChi, unique := rng.Intn(2) == 0, rng.Intn(2) == 0, rng.Intn(2) == 0
			m := verifModel(rng, 1+rng.Intn(8), delegated && !unique)
			if delegated { // a transaction's hash does not give its height
				m.flavor = func() int { return rng.Intn(2) }
				m.source = func() int { return rng.Intn(2) }
			} else {
				m.flavor = func() int { return rng.Intn(3) }
			}
			m.bare = rng.Intn(2) == 0
			c, err := verifChain(t, rng, m, delegated, useChi, unique)
			fail := func(f string, x ...any) { t.Fatalf("REPLAY chain of %s => %s", c.hist, fmt.Sprintf(f, x...)) }
			if err != nil {
				fail("creating: %v", err)
			}
			open := func() *concreteAppendableChain {
				a, err := c.creator.Open()
				if err != nil {
					fail("opening: %v", err)
				}
				return a.(*concreteAppendableChain)
			}
			ac := open()
			for b := range m.blocks {
				if rng.Intn(6) == 0 && unique && !delegated && !useChi { // a block that was not indexed is refused
					other := verifModel(rng, b+1, false)
					if err := ac.AppendBlock(&cri{other}, &criBlk{other, int64(b), 0}); err == nil {
						fail("block %d, whose hash is not indexed, is accepted", b)
					}
				}
				if err := c.append(ac, b); err != nil {
					fail("appending block %d: %v", b, err)
				}
				evals++
				switch rng.Intn(7) {
				case 0:
					c.hist += fmt.Sprintf(" sync after %d", b)
					if err := ac.Sync(); err != nil {
						fail("sync: %v", err)
					}
				case 1:
					c.hist += fmt.Sprintf(" reopened after %d", b)
					ac.Close()
					ac = open()
				case 2:
					if d := c.checkFiles(ac.GetAsConcreteReadableChain(), b+1, rng); d != "" {
						fail("after block %d, %s", b, d)
					}
				}
			}
			if d := c.checkFiles(ac.GetAsConcreteReadableChain(), len(m.blocks), rng); d != "" {
				fail("in the end, %s", d)
			}
			ac.Close()
			bc, _, _, _, err := c.creator.OpenReadOnly()
			if err != nil {
				fail("opening read only: %v", err)
			}
			if d := c.checkFiles(bc.(*concreteReadableChain), len(m.blocks), rng); d != "" {
				fail("closed and opened read only, %s", d)
			}
			if _, err := c.creator.Open(); err != nil {
				fail("opening again: %v", err)
			}
			if err := c.creator.Create(); err == nil {
				fail("it can be created again over itself")
			}
		}()
	}
	t.Logf("REPLAY-EVALS %d", evals)
}

// A transaction, source transaction or address that is not indexed is an error, and its reference is not written.
func TestVerifAppendUnknown(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed() + 1))
	evals := 0
	for round := 0; round < verifRounds(24); round++ {
		func() {
			defer verifQuiet(t)()
			useChi := rng.Intn(2) == 0
			m := verifModel(rng, 3, false)
			m.flavor = func() int { return 2 }
			m.source = func() int { return 2 }
			c, err := verifChain(t, rng, m, false, useChi, true)
			what := []string{"transaction", "source transaction", "address"}[round%3]
			fail := func(f string, x ...any) { t.Fatalf("REPLAY unknown %s, chain of %s => %s", what, c.hist, fmt.Sprintf(f, x...)) }
			if err != nil {
				fail("creating: %v", err)
			}
			a, err := c.creator.Open()
			if err != nil {
				fail("opening: %v", err)
			}
			ac := a.(*concreteAppendableChain)
			for b := 0; b < 2; b++ {
				if err := c.append(ac, b); err != nil {
					fail("appending block %d: %v", b, err)
				}
			}
			// The last block refers to something whose hash was never indexed
			last := m.blocks[2].first
			victim := last + rng.Int63n(m.blocks[2].n)
			index := func(h indexedhashes.Sha256, s indexedhashes.HashReadWriter) {
				if i, _ := s.IndexOfHash(&h); i == -1 {
					s.AppendHash(&h)
				}
			}
			index(m.blocks[2].hash, ac.blkHashes)
			var ghost mTrans
			rng.Read(ghost.hash[:])
			switch what {
			case "source transaction":
				if m.blocks[2].n == 1 {
					return
				}
				victim = last + 1
				m.trans = append(m.trans, ghost)
				m.trans[victim].txis = append(m.trans[victim].txis, mTxi{int64(len(m.trans)) - 1, 0})
			case "address":
				m.trans[victim].txos = append(m.trans[victim].txos, mTxo{1, ghost.hash[:]})
			}
			for i := int64(0); i < m.blocks[2].n; i++ {
				if what != "transaction" || last+i != victim {
					index(m.trans[last+i].hash, ac.trnHashes)
				}
				for _, o := range m.trans[last+i].txos {
					if string(o.script) != string(ghost.hash[:]) {
						index(indexedhashes.HashOfBytes(o.script), ac.addrHashes)
					}
				}
			}
			evals++
			if useChi {
				err = ac.AppendBlockChi(&chi{m}, chiB(2))
			} else {
				err = ac.AppendBlock(&cri{m}, &criBlk{m, 2, 0})
			}
			if err == nil {
				fail("the block is accepted")
			}
			ac.Close()
		}()
	}
	t.Logf("REPLAY-EVALS %d", evals)
}

var _ intarrayarray.IntArrayMapStoreReadOnly
