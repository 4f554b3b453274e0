package chainstorage

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
)

// Everything the reading interfaces say about a stored chain is what was stored.
func TestVerifReadChain(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	evals := 0
	for round := 0; round < verifRounds(40); round++ {
		func() {
			defer verifQuiet(t)()
			delegated, useChi, unique := rng.Intn(2) == 0, rng.Intn(2) == 0, rng.Intn(2) == 0
			m := verifModel(rng, 1+rng.Intn(6), delegated && !unique)
			if delegated {
				m.flavor = func() int { return rng.Intn(2) }
				m.source = func() int { return rng.Intn(2) }
			} else {
				m.flavor = func() int { return rng.Intn(3) }
			}
			c, err := verifChain(t, rng, m, delegated, useChi, unique)
			fail := func(f string, x ...any) { t.Fatalf("REPLAY chain of %s => %s", c.hist, fmt.Sprintf(f, x...)) }
			if err != nil {
				fail("creating: %v", err)
			}
			a, err := c.creator.Open()
			if err != nil {
				fail("opening: %v", err)
			}
			ac := a.(*concreteAppendableChain)
			if unique {
				r := ac.GetAsConcreteReadableChain()
				if h, err := r.LatestBlock(); err != nil || !h.IsInvalid() {
					fail("the latest block of an empty chain is %v, %v", h, err)
				}
				if h, err := r.LatestTransaction(); err != nil || !h.IsInvalid() {
					fail("the latest transaction of an empty chain is %v, %v", h, err)
				}
			}
			for b := range m.blocks {
				if err := c.append(ac, b); err != nil {
					fail("appending block %d: %v", b, err)
				}
			}
			evals += c.checkRead(ac.GetAsConcreteReadableChain(), rng, fail, "while appending")
			ac.Close()
			bc, hc, par, priv, err := c.creator.OpenReadOnly()
			if err != nil {
				fail("opening read only: %v", err)
			}
			r := bc.(*concreteReadableChain)
			if hc != chainreadinterface.IHandleCreator(r) || par != IParents(r) || priv != IPrivilegedFiles(r) {
				fail("the chain opened read only is not one chain")
			}
			evals += c.checkRead(r, rng, fail, "opened read only")
		}()
	}
	t.Logf("REPLAY-EVALS %d", evals)
}

func (c *chainDir) checkRead(r *concreteReadableChain, rng *rand.Rand, failf func(string, ...any), when string) int {
	m := c.m
	fail := func(f string, x ...any) { failf(when+": "+f, x...) }
	e := m.expect(len(m.blocks), c.sourceOf, c.unique)
	n := 0
	nb, nt := int64(len(m.blocks)), int64(len(m.trans))
	if h, err := r.LatestBlock(); err != nil || h.Height() != nb-1 || h.IsInvalid() {
		fail("the latest block is %d, %v", h.Height(), err)
	}
	if h, err := r.LatestTransaction(); err != nil || h.Height() != nt-1 {
		fail("the latest transaction is %d, %v", h.Height(), err)
	}
	if r.IsBlockTree() || !r.InvalidBlock().IsInvalid() || !r.InvalidTrans().IsInvalid() {
		fail("it is a tree or the invalid handles are valid")
	}
	var unknown indexedhashes.Sha256
	rng.Read(unknown[:])
	if h, err := r.BlockHandleByHash(unknown); err == nil {
		fail("an unknown block hash gives %v", h)
	}
	if h, err := r.TransactionHandleByHash(unknown); err == nil {
		fail("an unknown transaction hash gives %v", h)
	}
	if h, err := r.AddressHandleByHash(unknown); err == nil {
		fail("an unknown address hash gives %v", h)
	}
	ah := AddressHandle{HashHeight{hash: unknown, hashSpecified: true}}
	if a, err := r.AddressInterface(&ah); err == nil {
		if x, err := a.TxoCount(); err == nil {
			fail("the address with an unknown hash has %d txos", x)
		}
	}
	hBlock := r.GenesisBlock()
	hPrev := r.InvalidBlock()
	hTrans, err := r.GenesisTransaction()
	if err != nil {
		fail("genesis transaction: %v", err)
	}
	for b := int64(0); b < nb; b++ {
		n++
		if hBlock.IsInvalid() || hBlock.Height() != b || !hBlock.HeightSpecified() {
			fail("block %d by stepping through is %d", b, hBlock.Height())
		}
		if r.ParentBlock(hBlock).Height() != hPrev.Height() || r.ParentBlock(hBlock).IsInvalid() != (b == 0) {
			fail("the parent of block %d is %d", b, r.ParentBlock(hBlock).Height())
		}
		byHash, err := r.BlockHandleByHash(m.blocks[b].hash)
		if err != nil {
			fail("block %d by hash: %v", b, err)
		}
		byHeight, err := r.BlockHandleByHeight(b)
		if err != nil {
			fail("block %d by height: %v", b, err)
		}
		for k, h := range []chainreadinterface.IBlockHandle{hBlock, byHash, byHeight, &BlockHandle{HashHeight{hash: m.blocks[b].hash, hashSpecified: true}, r}} {
			if g, err := h.Hash(); err != nil || g != m.blocks[b].hash || h.Height() != b {
				fail("handle %d of block %d has height %d and hash %x, %v", k, b, h.Height(), g, err)
			}
			blk, err := r.BlockInterface(h)
			if err != nil {
				fail("block %d: %v", b, err)
			}
			if g, err := blk.Hash(); err != nil || g != m.blocks[b].hash || blk.Height() != b || blk.IsInvalid() {
				fail("block %d (handle %d) has height %d and hash %x, %v", b, k, blk.Height(), g, err)
			}
			if x, err := blk.TransactionCount(); err != nil || x != m.blocks[b].n {
				fail("block %d has %d transactions, %v, not %d", b, x, err, m.blocks[b].n)
			}
			neis, err := blk.NonEssentialInts()
			if err != nil || len(*neis) != len(c.blkNeis) {
				fail("block %d integers %v, %v", b, neis, err)
			}
			for _, f := range c.blkNeis {
				if (*neis)[f] != m.blocks[b].neis[f] {
					fail("block %d %s is %d, not %d", b, f, (*neis)[f], m.blocks[b].neis[f])
				}
			}
			for i := int64(0); i < m.blocks[b].n; i++ {
				ht, err := blk.NthTransaction(i)
				if err != nil || ht.Height() != m.blocks[b].first+i {
					fail("transaction %d of block %d is %v, %v", i, b, ht, err)
				}
			}
		}
		for i := int64(0); i < m.blocks[b].n; i++ {
			h := m.blocks[b].first + i
			if hTrans.Height() != h {
				fail("transaction %d by stepping through is %d", h, hTrans.Height())
			}
			if r.PreviousTransaction(hTrans).Height() != h-1 {
				fail("before transaction %d is %d", h, r.PreviousTransaction(hTrans).Height())
			}
			c.checkTrans(r, e, h, hTrans, fail)
			ht, err := r.TransactionHandleByHeight(h)
			if err != nil {
				fail("transaction %d by height: %v", h, err)
			}
			c.checkTrans(r, e, h, ht, fail)
			first := m.firstOf(m.trans[h].hash)
			if ht, err = r.TransactionHandleByHash(m.trans[h].hash); err != nil || ht.Height() != first {
				fail("transaction %d by hash: %v", h, err)
			}
			c.checkTrans(r, e, first, ht, fail)
			c.checkTrans(r, e, first, &TransHandle{HashHeight{hash: m.trans[h].hash, hashSpecified: true}, r}, fail)
			if p, err := r.ParentBlockOfTrans(h); err != nil || p != b {
				fail("the parent block of transaction %d is %d, %v, not %d", h, p, err, b)
			}
			if hTrans, err = r.NextTransaction(hTrans); err != nil || hTrans.IsInvalid() != (h == nt-1) {
				fail("after transaction %d: %v, %v", h, hTrans, err)
			}
		}
		hPrev = hBlock
		if hBlock, err = r.NextBlock(hBlock); err != nil || hBlock.IsInvalid() != (b == nb-1) {
			fail("after block %d: %v, %v", b, hBlock, err)
		}
	}
	for x := range e.parTxi {
		if p, err := r.ParentTransOfTxi(int64(x)); err != nil || p != e.parTxi[x] {
			fail("the parent of txi %d is %d, %v, not %d", x, p, err, e.parTxi[x])
		}
		if v, err := r.TxiTxFile().ReadWordAt(int64(x)); err != nil || v != e.txiTx[x] {
			fail("the source of txi %d is %d, %v", x, v, err)
		}
		if v, err := r.TxiVoutFile().ReadWordAt(int64(x)); err != nil || v != e.txiVout[x] {
			fail("the source index of txi %d is %d, %v", x, v, err)
		}
	}
	for x := range e.parTxo {
		if p, err := r.ParentTransOfTxo(int64(x)); err != nil || p != e.parTxo[x] {
			fail("the parent of txo %d is %d, %v, not %d", x, p, err, e.parTxo[x])
		}
		if v, err := r.TxoSatsFile().ReadWordAt(int64(x)); err != nil || v != e.sats[x] {
			fail("the value of txo %d is %d, %v", x, v, err)
		}
	}
	for x := range e.trnFirstTxi {
		if v, err := r.TransFirstTxiFile().ReadWordAt(int64(x)); err != nil || v != e.trnFirstTxi[x] {
			fail("the first txi of transaction %d is %d, %v", x, v, err)
		}
		if v, err := r.TransFirstTxoFile().ReadWordAt(int64(x)); err != nil || v != e.trnFirstTxo[x] {
			fail("the first txo of transaction %d is %d, %v", x, v, err)
		}
	}
	for a, txos := range e.adrTxos {
		byHeight, err := r.AddressHandleByHeight(a)
		if err != nil {
			fail("address %d: %v", a, err)
		}
		byHash, err := r.AddressHandleByHash(e.adrHash[a])
		if err != nil || byHash.Height() != a {
			fail("address %d by hash: %v", a, err)
		}
		hs := []chainreadinterface.IAddressHandle{byHeight, byHash, &AddressHandle{HashHeight{hash: e.adrHash[a], hashSpecified: true}}}
		h := hs[rng.Intn(len(hs))]
		for k := 0; k < 3; k++ { // in any order
			adr, err := r.AddressInterface(h)
			if err != nil {
				fail("address %d: %v", a, err)
			}
			for o := 0; o < 3; o++ {
				switch (o + k) % 3 {
				case 0:
					if adr.Hash() != e.adrHash[a] || !adr.HashSpecified() {
						fail("address %d has hash %x, not %x", a, adr.Hash(), e.adrHash[a])
					}
				case 1:
					if adr.Height() != a {
						fail("address %d has height %d", a, adr.Height())
					}
				case 2:
					if x, err := adr.TxoCount(); err != nil || x != int64(len(txos)) {
						fail("address %d has %d txos, %v, not %d", a, x, err, len(txos))
					}
					for i, w := range txos {
						if ho, err := adr.NthTxo(int64(i)); err != nil || ho.TxoHeight() != w || !ho.TxoHeightSpecified() {
							fail("txo %d of address %d is %v, %v, not %d", i, a, ho, err, w)
						}
					}
				}
			}
		}
	}
	return n
}

func (c *chainDir) checkTrans(r *concreteReadableChain, e *expected, h int64, ht chainreadinterface.ITransHandle, fail func(string, ...any)) {
	w := c.m.trans[h]
	if c.m.firstOf(w.hash) != h {
		w.hash = indexedhashes.Sha256{} // the hash store knows a hash only at its first index
	}
	if g, err := ht.Hash(); err != nil || g != w.hash || ht.Height() != h || ht.IsInvalid() {
		fail("the handle of transaction %d has height %d and hash %x, %v, not %x", h, ht.Height(), g, err, w.hash)
	}
	tr, err := r.TransInterface(ht)
	if err != nil {
		fail("transaction %d: %v", h, err)
	}
	if g, err := tr.Hash(); err != nil || g != w.hash || tr.Height() != h || tr.IsInvalid() {
		fail("transaction %d has height %d and hash %x, %v", h, tr.Height(), g, err)
	}
	if x, err := tr.TxiCount(); err != nil || x != int64(len(w.txis)) {
		fail("transaction %d has %d txis, %v, not %d", h, x, err, len(w.txis))
	}
	if x, err := tr.TxoCount(); err != nil || x != int64(len(w.txos)) {
		fail("transaction %d has %d txos, %v, not %d", h, x, err, len(w.txos))
	}
	sats, err := tr.AllTxoSatoshis()
	if err != nil || len(sats) != len(w.txos) {
		fail("transaction %d has values %v, %v", h, sats, err)
	}
	neis, err := tr.NonEssentialInts()
	if err != nil || len(*neis) != len(c.trnNeis) {
		fail("transaction %d integers %v, %v", h, neis, err)
	}
	for _, f := range c.trnNeis {
		if (*neis)[f] != w.neis[f] {
			fail("transaction %d %s is %d, not %d", h, f, (*neis)[f], w.neis[f])
		}
	}
	for i := range w.txis {
		hi, err := tr.NthTxi(int64(i))
		if err != nil || hi.TxiHeight() != e.trnFirstTxi[h]+int64(i) || !hi.TxiHeightSpecified() {
			fail("txi %d of transaction %d is %v, %v", i, h, hi, err)
		}
		byParent := &TxiHandle{TxxHandle{TransIndex: TransIndex{TransHandle: TransHandle{HashHeight{height: h, heightSpecified: true}, r}, index: int64(i)}, transIndexSpecified: true}}
		byHeight, err := r.TxiHandleByHeight(hi.TxiHeight())
		if err != nil {
			fail("txi by height: %v", err)
		}
		for _, x := range []chainreadinterface.ITxiHandle{hi, byParent, byHeight} {
			txi, err := r.TxiInterface(x)
			if err != nil || txi.TxiHeight() != hi.TxiHeight() {
				fail("txi %d of transaction %d: %v", i, h, err)
			}
			src, err := txi.SourceTxo()
			if err != nil || !src.ParentSpecified() || src.ParentTrans().Height() != e.txiTx[hi.TxiHeight()] || src.ParentIndex() != w.txis[i].vout {
				fail("the source of txi %d of transaction %d is %v, %v", i, h, src, err)
			}
			if s, err := src.ParentTrans().Hash(); err != nil || s != c.m.trans[w.txis[i].trans].hash && c.m.firstOf(c.m.trans[w.txis[i].trans].hash) == e.txiTx[hi.TxiHeight()] {
				fail("the source transaction of txi %d of transaction %d is %x, %v", i, h, s, err)
			}
			st := c.m.trans[e.txiTx[hi.TxiHeight()]]
			if src.ParentIndex() < int64(len(st.txos)) {
				txo, err := r.TxoInterface(src)
				if err != nil {
					fail("the source txo of txi %d of transaction %d: %v", i, h, err)
				}
				if s, err := txo.Satoshis(); err != nil || s != st.txos[src.ParentIndex()].sats {
					fail("the source txo of txi %d of transaction %d has %d satoshis, %v", i, h, s, err)
				}
			}
		}
	}
	for i, wo := range w.txos {
		if sats[i] != wo.sats {
			fail("transaction %d has values %v", h, sats)
		}
		ho, err := tr.NthTxo(int64(i))
		if err != nil || ho.TxoHeight() != e.trnFirstTxo[h]+int64(i) || !ho.TxoHeightSpecified() {
			fail("txo %d of transaction %d is %v, %v", i, h, ho, err)
		}
		byParent := &TxoHandle{TxxHandle{TransIndex: TransIndex{TransHandle: TransHandle{HashHeight{height: h, heightSpecified: true}, r}, index: int64(i)}, transIndexSpecified: true}}
		byHeight, err := r.TxoHandleByHeight(ho.TxoHeight())
		if err != nil {
			fail("txo by height: %v", err)
		}
		for _, x := range []chainreadinterface.ITxoHandle{ho, byParent, byHeight} {
			txo, err := r.TxoInterface(x)
			if err != nil || txo.TxoHeight() != ho.TxoHeight() {
				fail("txo %d of transaction %d: %v", i, h, err)
			}
			if s, err := txo.Satoshis(); err != nil || s != wo.sats {
				fail("txo %d of transaction %d has %d satoshis, %v, not %d", i, h, s, err, wo.sats)
			}
			ha, err := txo.Address()
			if err != nil || ha.Height() != e.adr[ho.TxoHeight()] {
				fail("the address of txo %d of transaction %d is %v, %v, not %d", i, h, ha, err, e.adr[ho.TxoHeight()])
			}
			adr, err := r.AddressInterface(ha)
			if err != nil || adr.Height() != e.adr[ho.TxoHeight()] {
				fail("the address of txo %d of transaction %d: %v", i, h, err)
			}
		}
	}
}
