package chainstorage

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/intarrayarray"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

func verifQuiet(t *testing.T) func() {
	old := os.Stdout
	f, err := os.Create(filepath.Join(t.TempDir(), "out"))
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = f
	return func() { os.Stdout = old; f.Close() }
}

// The chain that is to be stored
type mTxo struct {
	sats   int64
	script []byte
}
type mTxi struct{ trans, vout int64 }
type mTrans struct {
	hash  indexedhashes.Sha256
	block int64
	txis  []mTxi
	txos  []mTxo
	neis  map[string]int64
}
type mBlock struct {
	hash     indexedhashes.Sha256
	first, n int64
	neis     map[string]int64
}
type model struct {
	blocks []mBlock
	trans  []mTrans
	flavor func() int // how the source chain's handles identify what they refer to
	path   func(int64) (int64, int64)
	source func() int // how it identifies the source transaction of a txi
	bare   bool       // no heights: everything only by hash or path
}

var verifBlkNeis = []string{"version", "time", "mediantime", "nonce", "difficulty", "strippedsize", "size", "weight"}
var verifTrnNeis = []string{"version", "size", "vsize", "weight", "locktime"}

func verifModel(rng *rand.Rand, blocks int, repeats bool) *model {
	m := &model{}
	var scripts [][]byte
	hash := func() (h indexedhashes.Sha256) { rng.Read(h[:]); return }
	for b := 0; b < blocks; b++ {
		blk := mBlock{hash: hash(), first: int64(len(m.trans)), n: int64(1 + rng.Intn(4)), neis: map[string]int64{}}
		for _, k := range verifBlkNeis {
			blk.neis[k] = int64(rng.Uint32())
		}
		blk.neis["difficulty"] = rng.Int63()
		for i := int64(0); i < blk.n; i++ {
			tr := mTrans{hash: hash(), block: int64(b), neis: map[string]int64{}}
			if repeats && i == 0 && b > 0 && rng.Intn(6) == 0 {
				tr.hash = m.trans[m.blocks[rng.Intn(b)].first].hash
			}
			for _, k := range verifTrnNeis {
				tr.neis[k] = int64(rng.Uint32())
			}
			if i > 0 {
				for k := rng.Intn(4); k > 0; k-- {
					tr.txis = append(tr.txis, mTxi{rng.Int63n(int64(len(m.trans))), int64(rng.Intn(5))})
				}
			}
			for k := rng.Intn(4); k > 0; k-- {
				var s []byte
				if len(scripts) > 0 && rng.Intn(3) > 0 {
					s = scripts[rng.Intn(len(scripts))]
				} else {
					s = make([]byte, rng.Intn(30))
					rng.Read(s)
					scripts = append(scripts, s)
				}
				tr.txos = append(tr.txos, mTxo{rng.Int63n(2100000000000000), s})
			}
			m.trans = append(m.trans, tr)
		}
		m.blocks = append(m.blocks, blk)
	}
	m.path = func(h int64) (int64, int64) { b := m.trans[h].block; return b, h - m.blocks[b].first }
	m.flavor = func() int { return 0 }
	m.source = func() int { return rng.Intn(3) }
	return m
}

func (m *model) firstOf(h indexedhashes.Sha256) int64 {
	for i := range m.trans {
		if m.trans[i].hash == h {
			return int64(i)
		}
	}
	return -1
}

// The same chain as a chainreadinterface.IBlockChain
type cri struct{ m *model }
type criBlk struct {
	m  *model
	h  int64
	fl int
}
type criTrn struct {
	m  *model
	h  int64
	fl int // 0: height, path and hash. 1: path and hash. 2: hash only
}
type criTxi struct {
	m    *model
	t, n int64
}
type criTxo struct {
	m      *model
	t, n   int64
	srcRef bool
}
type criAdr struct{ script []byte }

var errNo = errors.New("not in this source chain")

func (c *cri) InvalidBlock() chainreadinterface.IBlockHandle                           { return &criBlk{c.m, -1, 0} }
func (c *cri) InvalidTrans() chainreadinterface.ITransHandle                           { return &criTrn{c.m, -1, 0} }
func (c *cri) GenesisBlock() chainreadinterface.IBlockHandle                           { return &criBlk{c.m, 0, 0} }
func (c *cri) ParentBlock(chainreadinterface.IBlockHandle) chainreadinterface.IBlockHandle { panic(errNo) }
func (c *cri) GenesisTransaction() (chainreadinterface.ITransHandle, error)             { panic(errNo) }
func (c *cri) PreviousTransaction(chainreadinterface.ITransHandle) chainreadinterface.ITransHandle {
	panic(errNo)
}
func (c *cri) IsBlockTree() bool                                    { return false }
func (c *cri) LatestBlock() (chainreadinterface.IBlockHandle, error) { panic(errNo) }
func (c *cri) NextBlock(chainreadinterface.IBlockHandle) (chainreadinterface.IBlockHandle, error) {
	panic(errNo)
}
func (c *cri) LatestTransaction() (chainreadinterface.ITransHandle, error) { panic(errNo) }
func (c *cri) NextTransaction(chainreadinterface.ITransHandle) (chainreadinterface.ITransHandle, error) {
	panic(errNo)
}
func (c *cri) BlockInterface(h chainreadinterface.IBlockHandle) (chainreadinterface.IBlock, error) {
	return h.(*criBlk), nil
}
func (c *cri) TransInterface(h chainreadinterface.ITransHandle) (chainreadinterface.ITransaction, error) {
	return h.(*criTrn), nil
}
func (c *cri) TxiInterface(h chainreadinterface.ITxiHandle) (chainreadinterface.ITxi, error) {
	return h.(*criTxi), nil
}
func (c *cri) TxoInterface(h chainreadinterface.ITxoHandle) (chainreadinterface.ITxo, error) {
	return h.(*criTxo), nil
}
func (c *cri) AddressInterface(h chainreadinterface.IAddressHandle) (chainreadinterface.IAddress, error) {
	return h.(*criAdr), nil
}
func (b *criBlk) Height() int64 {
	if b.m.bare {
		panic("height of a block that does not specify it")
	}
	return b.h
}
func (b *criBlk) Hash() (indexedhashes.Sha256, error) { return b.m.blocks[b.h].hash, nil }
func (b *criBlk) HeightSpecified() bool               { return !b.m.bare }
func (b *criBlk) HashSpecified() bool                 { return true }
func (b *criBlk) IsBlockHandle()                      {}
func (b *criBlk) IsInvalid() bool                     { return b.h == -1 }
func (b *criBlk) TransactionCount() (int64, error)    { return b.m.blocks[b.h].n, nil }
func (b *criBlk) NthTransaction(n int64) (chainreadinterface.ITransHandle, error) {
	return &criTrn{b.m, b.m.blocks[b.h].first + n, b.m.flavor()}, nil
}
func (b *criBlk) NonEssentialInts() (*map[string]int64, error) { return &b.m.blocks[b.h].neis, nil }

func (t *criTrn) Height() int64 {
	if t.fl != 0 {
		panic("height of a transaction that does not specify it")
	}
	return t.h
}
func (t *criTrn) Hash() (indexedhashes.Sha256, error) { return t.m.trans[t.h].hash, nil }
func (t *criTrn) IndicesPath() (int64, int64) {
	if t.fl == 2 {
		panic("path of a transaction that does not specify it")
	}
	return t.m.path(t.h)
}
func (t *criTrn) HeightSpecified() bool      { return t.fl == 0 }
func (t *criTrn) HashSpecified() bool        { return true }
func (t *criTrn) IndicesPathSpecified() bool { return t.fl < 2 }
func (t *criTrn) IsTransHandle()             {}
func (t *criTrn) IsInvalid() bool            { return t.h == -1 }
func (t *criTrn) TxiCount() (int64, error)   { return int64(len(t.m.trans[t.h].txis)), nil }
func (t *criTrn) TxoCount() (int64, error)   { return int64(len(t.m.trans[t.h].txos)), nil }
func (t *criTrn) NthTxi(n int64) (chainreadinterface.ITxiHandle, error) {
	return &criTxi{t.m, t.h, n}, nil
}
func (t *criTrn) NthTxo(n int64) (chainreadinterface.ITxoHandle, error) {
	return &criTxo{t.m, t.h, n, false}, nil
}
func (t *criTrn) AllTxoSatoshis() ([]int64, error)              { panic(errNo) }
func (t *criTrn) NonEssentialInts() (*map[string]int64, error) { return &t.m.trans[t.h].neis, nil }

func (x *criTxi) ParentTrans() chainreadinterface.ITransHandle { return &criTrn{x.m, x.t, 0} }
func (x *criTxi) ParentIndex() int64                           { return x.n }
func (x *criTxi) TxiHeight() int64                             { panic("no txi height") }
func (x *criTxi) IndicesPath() (int64, int64, int64)           { panic("no path") }
func (x *criTxi) ParentSpecified() bool                        { return true }
func (x *criTxi) TxiHeightSpecified() bool                     { return false }
func (x *criTxi) IndicesPathSpecified() bool                   { return false }
func (x *criTxi) SourceTxo() (chainreadinterface.ITxoHandle, error) {
	i := x.m.trans[x.t].txis[x.n]
	return &criTxo{x.m, i.trans, i.vout, true}, nil
}
func (x *criTxo) ParentTrans() chainreadinterface.ITransHandle {
	if x.srcRef {
		return &criTrn{x.m, x.t, x.m.source()}
	}
	return &criTrn{x.m, x.t, 0}
}
func (x *criTxo) ParentIndex() int64                 { return x.n }
func (x *criTxo) TxoHeight() int64                   { panic("no txo height") }
func (x *criTxo) IndicesPath() (int64, int64, int64) { panic("no path") }
func (x *criTxo) ParentSpecified() bool              { return true }
func (x *criTxo) TxoHeightSpecified() bool           { return false }
func (x *criTxo) IndicesPathSpecified() bool         { return false }
func (x *criTxo) Satoshis() (int64, error)           { return x.m.trans[x.t].txos[x.n].sats, nil }
func (x *criTxo) Address() (chainreadinterface.IAddressHandle, error) {
	return &criAdr{x.m.trans[x.t].txos[x.n].script}, nil
}
func (a *criAdr) Height() int64                                       { panic("no address height") }
func (a *criAdr) Hash() indexedhashes.Sha256                          { return indexedhashes.HashOfBytes(a.script) }
func (a *criAdr) HeightSpecified() bool                               { return false }
func (a *criAdr) HashSpecified() bool                                 { return true }
func (a *criAdr) TxoCount() (int64, error)                            { panic(errNo) }
func (a *criAdr) NthTxo(n int64) (chainreadinterface.ITxoHandle, error) { panic(errNo) }

// The same chain as a chainhandleinterface.IBlockChain
type chi struct{ m *model }

func chiB(n int64) chainhandleinterface.BlockHandle {
	return chainhandleinterface.BlockHandle{Bytes: [4]byte{byte(n), byte(n >> 8)}}
}
func chiN(b [4]byte) int64 { return int64(b[0]) + int64(b[1])<<8 }
func (c *chi) IsBlockHandleInvalid(chainhandleinterface.BlockHandle) bool { panic(errNo) }
func (c *chi) GenesisBlock() (chainhandleinterface.BlockHandle, error)     { return chiB(0), nil }
func (c *chi) NextBlock(chainhandleinterface.BlockHandle) (chainhandleinterface.BlockHandle, error) {
	panic(errNo)
}
func (c *chi) GetBlockInfo(h chainhandleinterface.BlockHandle, r chainhandleinterface.IBlockReceiver) error {
	b := chiN(h.Bytes)
	r.ResetReceiver()
	r.ReceiveBlockHeight(b)
	r.ReceiveBlockHash(c.m.blocks[b].hash)
	for k, v := range c.m.blocks[b].neis {
		r.ReceiveIntField(k, v)
	}
	for i := int64(0); i < c.m.blocks[b].n; i++ {
		r.ReceiveTransactionHandleToAppend(chainhandleinterface.TransactionHandle{BH: h, TSH: chainhandleinterface.TransactionSubHandle{Bytes: chiB(i).Bytes}})
	}
	return nil
}
func (c *chi) tr(h chainhandleinterface.TransactionHandle) *mTrans {
	return &c.m.trans[c.m.blocks[chiN(h.BH.Bytes)].first+chiN(h.TSH.Bytes)]
}
func (c *chi) GetTransactionInfo(h chainhandleinterface.TransactionHandle, r chainhandleinterface.IBitcoinCoreTransactionReceiver) error {
	t := c.tr(h)
	r.ResetReceiver()
	r.ReceiveParentBlockHandle(h.BH)
	r.ReceiveTransactionHash(t.hash)
	for k, v := range t.neis {
		r.ReceiveIntField(k, v)
	}
	n := len(t.txis)
	if chiN(h.TSH.Bytes) == 0 {
		n = 1 // coinbase
	}
	for i := 0; i < n; i++ {
		r.ReceiveTxiHandleToAppend(chainhandleinterface.TxiHandle{TH: h, TXISH: chainhandleinterface.TxiSubHandle{Bytes: chiB(int64(i)).Bytes}})
	}
	for i := range t.txos {
		r.ReceiveTxoHandleToAppend(chainhandleinterface.TxoHandle{TH: h, TXOSH: chainhandleinterface.TxoSubHandle{Bytes: chiB(int64(i)).Bytes}})
	}
	return nil
}
func (c *chi) GetTxiInfo(h chainhandleinterface.TxiHandle, r chainhandleinterface.ITxiReceiver) error {
	t := c.tr(h.TH)
	r.ReceiveParentTransactionHandle(h.TH)
	if chiN(h.TH.TSH.Bytes) == 0 {
		r.ReceiveIncomingTxid([32]byte{})
		r.ReceiveIncomingVout(0)
		return nil
	}
	i := t.txis[chiN(h.TXISH.Bytes)]
	r.ReceiveIncomingTxid(c.m.trans[i.trans].hash)
	r.ReceiveIncomingVout(i.vout)
	return nil
}
func (c *chi) GetTxoInfo(h chainhandleinterface.TxoHandle, r chainhandleinterface.ITxoReceiver) error {
	o := c.tr(h.TH).txos[chiN(h.TXOSH.Bytes)]
	r.ResetReceiver()
	r.ReceiveParentTransactionHandle(h.TH)
	r.ReceiveSatoshisValue(o.sats)
	for _, b := range o.script {
		r.ReceiveScriptPubByteToAppend(b)
	}
	return nil
}

// What the files of a chain that holds the model's first blocks must contain
type expected struct {
	blkFirst, trnFirstTxi, trnFirstTxo, txiTx, txiVout, sats, adr, parBlk, parTxi, parTxo []int64
	adrHash                                                                              map[int64]indexedhashes.Sha256
	adrTxos                                                                              map[int64][]int64
	adrFirst                                                                             []int64
}

func (m *model) expect(blocks int, bySources func(h int64) int64, unique bool) *expected {
	e := &expected{adrHash: map[int64]indexedhashes.Sha256{}, adrTxos: map[int64][]int64{}}
	index := map[indexedhashes.Sha256]int64{}
	for b := 0; b < blocks; b++ {
		e.blkFirst = append(e.blkFirst, m.blocks[b].first)
		for i := int64(0); i < m.blocks[b].n; i++ {
			h := m.blocks[b].first + i
			t := m.trans[h]
			e.parBlk = append(e.parBlk, int64(b))
			e.trnFirstTxi = append(e.trnFirstTxi, int64(len(e.txiTx)))
			e.trnFirstTxo = append(e.trnFirstTxo, int64(len(e.sats)))
			for _, x := range t.txis {
				e.txiTx = append(e.txiTx, bySources(x.trans))
				e.txiVout = append(e.txiVout, x.vout)
				e.parTxi = append(e.parTxi, h)
			}
			for _, o := range t.txos {
				n := int64(len(e.sats))
				ah := indexedhashes.HashOfBytes(o.script)
				a, seen := index[ah]
				if !seen {
					a = n // the first among all the hashes that were gathered
					if unique {
						a = int64(len(index))
					}
					index[ah] = a
					for int64(len(e.adrFirst)) < a {
						e.adrFirst = append(e.adrFirst, 0)
					}
					e.adrFirst = append(e.adrFirst, n)
					e.adrHash[a] = ah
				}
				e.adrTxos[a] = append(e.adrTxos[a], n)
				e.sats = append(e.sats, o.sats)
				e.adr = append(e.adr, a)
				e.parTxo = append(e.parTxo, h)
			}
		}
	}
	return e
}

// A chain folder with its hash stores, either filled beforehand from gathered hashes, or empty
type chainDir struct {
	dir       string
	m         *model
	unique    bool // the hash stores hold each hash once (they are appended to), otherwise all hashes gathered
	delegated bool
	useChi    bool
	creator   *ConcreteAppendableChainCreator
	blkNeis   []string
	trnNeis   []string
	hist      string
}

func (c *chainDir) gather(t *testing.T, rng *rand.Rand) error {
	hcc := NewConcreteHashesChainCreator(c.dir)
	if hcc.Exists() {
		return errors.New("the hashes chain already exists")
	}
	if err := hcc.Create(); err != nil {
		return err
	}
	hc, err := hcc.Open()
	if err != nil {
		return err
	}
	nt, na := int64(0), int64(0)
	var files [3][]byte
	for b := range c.m.blocks {
		if c.useChi {
			err = hc.AppendHashesChi(&chi{c.m}, chiB(int64(b)))
		} else {
			err = hc.AppendHashesCri(&cri{c.m}, &criBlk{c.m, int64(b), 0}, int64(b))
		}
		if err != nil {
			return fmt.Errorf("gathering the hashes of block %d: %w", b, err)
		}
		files[0] = append(files[0], c.m.blocks[b].hash[:]...)
		for i := int64(0); i < c.m.blocks[b].n; i++ {
			t := c.m.trans[c.m.blocks[b].first+i]
			nt++
			files[1] = append(files[1], t.hash[:]...)
			for _, o := range t.txos {
				h := indexedhashes.HashOfBytes(o.script)
				files[2] = append(files[2], h[:]...)
				na++
			}
		}
		if x, y, z, err := hc.CountHashes(); err != nil || x != int64(b)+1 || y != nt || z != na {
			return fmt.Errorf("after block %d there are %d, %d and %d hashes, %v, not %d, %d and %d", b, x, y, z, err, b+1, nt, na)
		}
		switch rng.Intn(6) {
		case 0:
			if err := hc.Sync(); err != nil {
				return err
			}
		case 1:
			c.hist += fmt.Sprintf(" hashes chain reopened after block %d", b)
			hc.Close()
			if hc, err = hcc.Open(); err != nil {
				return err
			}
		}
	}
	hc.Close()
	for i, f := range []string{"Blocks", "Transactions", "Addresses"} {
		got, err := os.ReadFile(filepath.Join(c.dir, f, "Hashes", "Hashes.hsh"))
		if err != nil || string(got) != string(files[i]) {
			return fmt.Errorf("the gathered hashes of the %s are %x, %v, not %x", f, got, err, files[i])
		}
	}
	return nil
}

func verifChain(t *testing.T, rng *rand.Rand, m *model, delegated, useChi, unique bool) (*chainDir, error) {
	c := &chainDir{dir: t.TempDir(), m: m, unique: unique, delegated: delegated, useChi: useChi}
	c.hist = fmt.Sprintf("%d blocks, %d transactions, delegated %v, by handles %v, hashes appended %v;", len(m.blocks), len(m.trans), delegated, useChi, unique)
	for _, k := range verifBlkNeis {
		if rng.Intn(3) == 0 {
			c.blkNeis = append(c.blkNeis, k)
		}
	}
	for _, k := range verifTrnNeis {
		if rng.Intn(3) == 0 {
			c.trnNeis = append(c.trnNeis, k)
		}
	}
	if !unique {
		if err := c.gather(t, rng); err != nil {
			return c, err
		}
	}
	for _, f := range []string{"Blocks", "Transactions", "Addresses"} {
		p := indexedhashes3.NewHashStoreParams(24, 100, 2, 8, 3, 8)
		if unique {
			if err := os.MkdirAll(filepath.Join(c.dir, f, "Hashes"), 0755); err != nil {
				t.Fatal(err)
			}
			js, err := json.Marshal(p)
			if err != nil {
				t.Fatal(err)
			}
			if err := os.WriteFile(filepath.Join(c.dir, f, "Hashes", "HashIndexingParams.json"), js, 0644); err != nil {
				t.Fatal(err)
			}
			continue
		}
		_, pl, err := indexedhashes3.NewHashStoreCreatorAndPreloader(filepath.Join(c.dir, f), "Hashes", p, 1, indexedhashes3.NewBinsArray(1, p.BytesPerBinEntry(), 1))
		if err != nil {
			t.Fatal(err)
		}
		if err := pl.IndexTheHashes(2); err != nil {
			t.Fatal(err)
		}
	}
	if !unique { // the other folders
		for _, f := range []string{"TransactionInputs", "TransactionOutputs", "Parents"} {
			_ = f
		}
	}
	creator, err := NewConcreteAppendableChainCreator(c.dir, c.blkNeis, c.trnNeis, delegated, false, false)
	if err != nil {
		return c, err
	}
	if rng.Intn(8) > 0 { // smaller files, to have several of them
		creator.addrAdditionalTxosIaaCreator = intarrayarray.NewConcreteMapStoreCreator("additionaltxos", creator.addressesFolder, int64(1+rng.Intn(2)), 2, 5, true)
	}
	c.creator = creator
	if unique {
		err = creator.Create()
	} else {
		err = creator.CreateFromHashStores()
	}
	return c, err
}

// append one block (and in a chain whose hash stores are appended to, its hashes beforehand)
func (c *chainDir) append(ac *concreteAppendableChain, b int) error {
	m := c.m
	if c.unique {
		put := func(s indexedhashes.HashReadWriter, h indexedhashes.Sha256) error {
			if i, err := s.IndexOfHash(&h); err != nil || i != -1 {
				return err
			}
			_, err := s.AppendHash(&h)
			return err
		}
		if err := put(ac.blkHashes, m.blocks[b].hash); err != nil {
			return err
		}
		for i := int64(0); i < m.blocks[b].n; i++ {
			t := m.trans[m.blocks[b].first+i]
			if err := put(ac.trnHashes, t.hash); err != nil {
				return err
			}
			for _, o := range t.txos {
				if err := put(ac.addrHashes, indexedhashes.HashOfBytes(o.script)); err != nil {
					return err
				}
			}
		}
	}
	if c.delegated {
		ix := ac.GetAsDelegatedTransactionIndexer()
		if err := ix.StoreBlockHeightToFirstTrans(int64(b), m.blocks[b].first); err != nil {
			return err
		}
		for i := int64(0); i < m.blocks[b].n; i++ {
			if err := ix.StoreTransHeightToParentBlock(m.blocks[b].first+i, int64(b)); err != nil {
				return err
			}
		}
	}
	if c.useChi {
		return ac.AppendBlockChi(&chi{m}, chiB(int64(b)))
	}
	return ac.AppendBlock(&cri{m}, &criBlk{m, int64(b), 0})
}

// which transaction a txi's source is recorded as
func (c *chainDir) sourceOf(h int64) int64 {
	if c.useChi {
		return c.m.firstOf(c.m.trans[h].hash)
	}
	return h
}
