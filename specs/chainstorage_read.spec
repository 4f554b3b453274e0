package chainstorage
ufun rdv(int, int) int
ufun rdn(int) int 0 4611686018427387904
ufun rdh(int, int) int
ufun rdi(int, int) int -1 4611686018427387903
ufun rdc(int) int 0 4611686018427387904
ufun ral(int, int) int 0 1000000000000
ufun rav(int, int, int) int
ufun hhs(int) bool
ufun hhh(int) int
ufun hks(int) bool
ufun hkk(int) int
ufun hinv(int) bool
ufun hps(int) bool
ufun hpi(int) int
ufun htxh(int) int
ufun htxs(int) bool

func github.com/KitchenMishap/pudding-shed/wordfile.ReadAtWordCounter.ReadWordAt
trusted
ensures [value] imp(err == nil, result0 == rdv(ifid(recv), off) && 0 <= off && off < rdn(ifid(recv)))

func github.com/KitchenMishap/pudding-shed/wordfile.ReadAtWordCounter.CountWords
trusted
ensures [count] imp(err == nil, result0 == rdn(ifid(recv)))

func github.com/KitchenMishap/pudding-shed/indexedhashes.HashReader.IndexOfHash
trusted
ensures [index] imp(err == nil, result0 == rdi(ifid(recv), keyof(*hash, 32)))

func github.com/KitchenMishap/pudding-shed/indexedhashes.HashReader.GetHashAtIndex
trusted
modifies *hash
ensures [hash] imp(err == nil, keyof(*hash, 32) == rdh(ifid(recv), index))

func github.com/KitchenMishap/pudding-shed/indexedhashes.HashReader.CountHashes
trusted
ensures [count] imp(err == nil, result0 == rdc(ifid(recv)))

func github.com/KitchenMishap/pudding-shed/intarrayarray.IntArrayMapStoreReadOnly.GetArray
trusted
ensures [array] imp(err == nil, len(result0) == ral(ifid(recv), arrayKey) && forall(i, 0, len(result0), result0[i] == rav(ifid(recv), arrayKey, i)))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.IBlockHandle.Height
trusted
ensures [height] result == hhh(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.IBlockHandle.HeightSpecified
trusted
ensures [specified] result == hhs(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.IBlockHandle.HashSpecified
trusted
ensures [specified] result == hks(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.IBlockHandle.Hash
trusted
ensures [hash] imp(err == nil, keyof(result0, 32) == hkk(ifid(recv)))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.IBlockHandle.IsInvalid
trusted
ensures [invalid] result == hinv(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITransHandle.Height
trusted
ensures [height] result == hhh(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITransHandle.HeightSpecified
trusted
ensures [specified] result == hhs(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITransHandle.HashSpecified
trusted
ensures [specified] result == hks(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITransHandle.Hash
trusted
ensures [hash] imp(err == nil, keyof(result0, 32) == hkk(ifid(recv)))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITransHandle.IsInvalid
trusted
ensures [invalid] result == hinv(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.IAddressHandle.Height
trusted
ensures [height] result == hhh(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.IAddressHandle.HeightSpecified
trusted
ensures [specified] result == hhs(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.IAddressHandle.HashSpecified
trusted
ensures [specified] result == hks(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.IAddressHandle.Hash
trusted
ensures [hash] keyof(result, 32) == hkk(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxiHandle.TxiHeight
trusted
ensures [height] result == htxh(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxiHandle.TxiHeightSpecified
trusted
ensures [specified] result == htxs(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxiHandle.ParentSpecified
trusted
ensures [specified] result == hps(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxiHandle.ParentIndex
trusted
ensures [index] result == hpi(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxoHandle.TxoHeight
trusted
ensures [height] result == htxh(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxoHandle.TxoHeightSpecified
trusted
ensures [specified] result == htxs(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxoHandle.ParentSpecified
trusted
ensures [specified] result == hps(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxoHandle.ParentIndex
trusted
ensures [index] result == hpi(ifid(recv))

func (*Block).Height
prop C18
ensures [height] result == block.height

func (*Block).Hash
prop C18
ensures [hash] imp(err == nil, keyof(result0, 32) == rdh(ifid(block.data.blkHashes), block.height))

func (*Block).IsInvalid
prop C18
ensures [invalid] result == (block.height == -1)

func (*Block).TransactionCount
prop C18
requires block.height < 9223372036854775807
let fid = ifid(block.data.blkFirstTrans)
let last = block.height + 1 >= rdc(ifid(block.data.blkHashes))
requires rdv(ifid(block.data.blkFirstTrans), block.height) >= 0 && rdv(ifid(block.data.blkFirstTrans), block.height + 1) >= 0
ensures [middle] imp(err == nil && !last, result0 == rdv(fid, block.height + 1) - rdv(fid, block.height))
ensures [tip] imp(err == nil && last, result0 == rdc(ifid(block.data.trnHashes)) - rdv(fid, block.height))
ensures [refused] imp(err != nil, result0 == -1)

func (*Block).NthTransaction
prop C18
requires 0 <= n && n < 4611686018427387904 && rdv(ifid(block.data.blkFirstTrans), block.height) < 4611686018427387904
ensures [handle] imp(err == nil, typeis(result0, "*chainstorage.TransHandle") && dyn(result0, "*chainstorage.TransHandle").height == rdv(ifid(block.data.blkFirstTrans), block.height) + n && dyn(result0, "*chainstorage.TransHandle").heightSpecified && !dyn(result0, "*chainstorage.TransHandle").hashSpecified && sameobj(dyn(result0, "*chainstorage.TransHandle").data, block.data))

def bhd(h) = dyn(h, "*chainstorage.BlockHandle")
def thd(h) = dyn(h, "*chainstorage.TransHandle")
def txih(h) = dyn(h, "*chainstorage.TxiHandle")
def txoh(h) = dyn(h, "*chainstorage.TxoHandle")
def adh(h) = dyn(h, "*chainstorage.AddressHandle")
def isbh(h, ht, d) = typeis(h, "*chainstorage.BlockHandle") && bhd(h).height == ht && bhd(h).heightSpecified && !bhd(h).hashSpecified && sameobj(bhd(h).data, d)
def isth(h, ht, d) = typeis(h, "*chainstorage.TransHandle") && thd(h).height == ht && thd(h).heightSpecified && !thd(h).hashSpecified && sameobj(thd(h).data, d)
def istxih(h, ht) = typeis(h, "*chainstorage.TxiHandle") && txih(h).txxHeight == ht && txih(h).txxHeightSpecified && !txih(h).transIndexSpecified
def istxoh(h, ht) = typeis(h, "*chainstorage.TxoHandle") && txoh(h).txxHeight == ht && txoh(h).txxHeightSpecified && !txoh(h).transIndexSpecified
def isadh(h, ht) = typeis(h, "*chainstorage.AddressHandle") && adh(h).height == ht && adh(h).heightSpecified && !adh(h).hashSpecified
def smallv(f, i) = 0 <= rdv(ifid(f), i) && rdv(ifid(f), i) < 4611686018427387904

func (*Transaction).Height
prop C18
ensures [height] result == tr.height

func (*Transaction).Hash
prop C18
ensures [hash] imp(err == nil, keyof(result0, 32) == rdh(ifid(tr.data.trnHashes), tr.height))

func (*Transaction).IsInvalid
prop C18
ensures [invalid] result == (tr.height == -1)

func (*Transaction).TxiCount
prop C18
requires tr.height < 9223372036854775807
requires smallv(tr.data.trnFirstTxi, tr.height) && smallv(tr.data.trnFirstTxi, tr.height + 1)
let fid = ifid(tr.data.trnFirstTxi)
let last = tr.height + 1 >= rdc(ifid(tr.data.trnHashes))
ensures [middle] imp(err == nil && !last, result0 == rdv(fid, tr.height + 1) - rdv(fid, tr.height))
ensures [tip] imp(err == nil && last, result0 == rdn(ifid(tr.data.txiTx)) - rdv(fid, tr.height))
ensures [refused] imp(err != nil, result0 == -1)

func (*Transaction).NthTxi
prop C18
requires 0 <= n && n < 4611686018427387904 && smallv(tr.data.trnFirstTxi, tr.height)
ensures [handle] imp(err == nil, istxih(result0, rdv(ifid(tr.data.trnFirstTxi), tr.height) + n))

func (*Transaction).TxoCount
prop C18
requires tr.height < 9223372036854775807
requires smallv(tr.data.trnFirstTxo, tr.height) && smallv(tr.data.trnFirstTxo, tr.height + 1)
let fid = ifid(tr.data.trnFirstTxo)
let last = tr.height + 1 >= rdc(ifid(tr.data.trnHashes))
ensures [middle] imp(err == nil && !last, result0 == rdv(fid, tr.height + 1) - rdv(fid, tr.height))
ensures [tip] imp(err == nil && last, result0 == rdn(ifid(tr.data.txoSats)) - rdv(fid, tr.height))
ensures [refused] imp(err != nil, result0 == -1)

func (*Transaction).NthTxo
prop C18
requires 0 <= n && n < 4611686018427387904 && smallv(tr.data.trnFirstTxo, tr.height)
ensures [handle] imp(err == nil, istxoh(result0, rdv(ifid(tr.data.trnFirstTxo), tr.height) + n))

func (*Transaction).AllTxoSatoshis
prop C18
requires tr.height < 9223372036854775807
requires smallv(tr.data.trnFirstTxo, tr.height) && smallv(tr.data.trnFirstTxo, tr.height + 1)
let fid = ifid(tr.data.trnFirstTxo)
let from = rdv(fid, tr.height)
let to = ite(tr.height == rdn(fid) - 1, rdn(ifid(tr.data.txoSats)), rdv(fid, tr.height + 1))
requires rdv(ifid(tr.data.trnFirstTxo), tr.height) <= rdv(ifid(tr.data.trnFirstTxo), tr.height + 1) && rdv(ifid(tr.data.trnFirstTxo), tr.height) <= rdn(ifid(tr.data.txoSats)) && rdn(ifid(tr.data.txoSats)) < 1099511627776 && rdv(ifid(tr.data.trnFirstTxo), tr.height + 1) <= rdn(ifid(tr.data.txoSats))
loop 1
inv [range] iter <= to - from && (len(result) == iter || len(result) == to - from)
inv [values] forall(k, 0, iter, result[k] == rdv(ifid(tr.data.txoSats), from + k))
ensures [count] imp(err == nil, len(result0) == to - from)
ensures [values] imp(err == nil, forall(k, 0, len(result0), result0[k] == rdv(ifid(tr.data.txoSats), from + k)))

func (*Txi).TxiHeight
prop C18
ensures [height] result == txi.height

func (*Txo).TxoHeight
prop C18
ensures [height] result == txo.height

func (*Txi).SourceTxo
prop C18
ensures [source] imp(err == nil, typeis(result0, "*chainstorage.TxoHandle") && txoh(result0).transIndexSpecified && !txoh(result0).txxHeightSpecified && txoh(result0).heightSpecified && !txoh(result0).hashSpecified && txoh(result0).height == rdv(ifid(txi.data.txiTx), txi.height) && txoh(result0).index == rdv(ifid(txi.data.txiVout), txi.height) && sameobj(txoh(result0).data, txi.data))

func (*Txo).Satoshis
prop C18
ensures [sats] imp(err == nil, result0 == rdv(ifid(txo.data.txoSats), txo.height))

func (*Txo).Address
prop C18
ensures [address] imp(err == nil, isadh(result0, rdv(ifid(txo.data.txoAddress), txo.height)))

func (*BlockHandle).Hash
prop C18
ensures [hash] imp(err == nil, ite(bh.hashSpecified, keyof(result0, 32) == keyof(bh.hash, 32), keyof(result0, 32) == rdh(ifid(bh.data.blkHashes), bh.height)))

func (*BlockHandle).Height
prop C18
ensures [height] imp(bh.heightSpecified, result == bh.height)

func (*BlockHandle).IsInvalid
prop C18
ensures [invalid] imp(bh.heightSpecified, result == (bh.height == -1))

func (*TransHandle).Hash
prop C18
ensures [hash] imp(err == nil, ite(th.hashSpecified, keyof(result0, 32) == keyof(th.hash, 32), keyof(result0, 32) == rdh(ifid(th.data.trnHashes), th.height)))

func (*TransHandle).Height
prop C18
ensures [height] imp(th.heightSpecified, result == th.height)

func (*TransHandle).IsInvalid
prop C18
ensures [invalid] imp(th.heightSpecified, result == (th.height == -1))

func (*TxiHandle).TxiHeight
prop C18
ensures [height] result == txi.txxHeight

func (*TxiHandle).TxiHeightSpecified
prop C18
ensures [specified] result == txi.txxHeightSpecified

func (*TxiHandle).ParentSpecified
prop C18
ensures [specified] result == txi.transIndexSpecified

func (*TxiHandle).ParentIndex
prop C18
ensures [index] result == txi.index

func (*TxoHandle).TxoHeight
prop C18
ensures [height] result == txo.txxHeight

func (*TxoHandle).TxoHeightSpecified
prop C18
ensures [specified] result == txo.txxHeightSpecified

func (*TxoHandle).ParentSpecified
prop C18
ensures [specified] result == txo.transIndexSpecified

func (*TxoHandle).ParentIndex
prop C18
ensures [index] result == txo.index

func (*AddressHandle).Height
prop C18
ensures [field] result == ah.height

func (*AddressHandle).HeightSpecified
prop C18
ensures [field] result == ah.heightSpecified

func (*AddressHandle).HashSpecified
prop C18
ensures [field] result == ah.hashSpecified

func (*concreteReadableChain).GenesisBlock
prop C18
ensures [first] isbh(result, 0, crc)

func (*concreteReadableChain).GenesisTransaction
prop C18
ensures [first] err == nil && isth(result0, 0, crc)

func (*concreteReadableChain).InvalidBlock
prop C18
ensures [invalid] isbh(result, -1, crc)

func (*concreteReadableChain).InvalidTrans
prop C18
ensures [invalid] isth(result, -1, crc)

func (*concreteReadableChain).ParentBlock
prop C18
requires hhh(ifid(block)) >= -1
panics_if !hinv(ifid(block)) && !hhs(ifid(block))
ensures [parent] ite(hinv(ifid(block)), isbh(result, -1, crc), isbh(result, hhh(ifid(block)) - 1, crc))

func (*concreteReadableChain).PreviousTransaction
prop C18
requires hhh(ifid(trans)) >= -1
panics_if !hinv(ifid(trans)) && !hhs(ifid(trans))
ensures [previous] ite(hinv(ifid(trans)), isth(result, -1, crc), isth(result, hhh(ifid(trans)) - 1, crc))

func (*concreteReadableChain).LatestBlock
prop C18
ensures [latest] imp(err == nil, isbh(result0, rdc(ifid(crc.blkHashes)) - 1, crc))
ensures [refused] imp(err != nil, isbh(result0, -1, crc))

func (*concreteReadableChain).NextBlock
prop C18
requires hhh(ifid(hBlock)) < 9223372036854775807
ensures [next] imp(err == nil, isbh(result0, ite(hhh(ifid(hBlock)) + 1 < rdc(ifid(crc.blkHashes)), hhh(ifid(hBlock)) + 1, -1), crc))
ensures [refused] imp(err != nil, isbh(result0, -1, crc))

func (*concreteReadableChain).LatestTransaction
prop C18
ensures [latest] imp(err == nil, isth(result0, rdc(ifid(crc.trnHashes)) - 1, crc))
ensures [refused] imp(err != nil, isth(result0, -1, crc))

func (*concreteReadableChain).NextTransaction
prop C18
requires hhh(ifid(hTrans)) < 9223372036854775807
ensures [next] imp(err == nil, isth(result0, ite(hhh(ifid(hTrans)) + 1 < rdc(ifid(crc.trnHashes)), hhh(ifid(hTrans)) + 1, -1), crc))
ensures [refused] imp(err != nil, isth(result0, -1, crc))

func (*concreteReadableChain).BlockHandleByHeight
prop C18
ensures [handle] err == nil && isbh(result0, blockHeight, crc)

func (*concreteReadableChain).TransactionHandleByHeight
prop C18
ensures [handle] err == nil && isth(result0, transactionHeight, crc)

func (*concreteReadableChain).TxiHandleByHeight
prop C18
ensures [handle] err == nil && istxih(result0, txiHeight)

func (*concreteReadableChain).TxoHandleByHeight
prop C18
ensures [handle] err == nil && istxoh(result0, txoHeight)

func (*concreteReadableChain).AddressHandleByHeight
prop C18
ensures [handle] err == nil && isadh(result0, addressHeight)

func (*concreteReadableChain).AddressHandleByHash
prop C18
let ix = rdi(ifid(crc.addrHashes), keyof(sha256, 32))
ensures [found] imp(err == nil, ix != -1 && isadh(result0, ix))

func (*concreteReadableChain).TransactionHandleByHash
prop C18
let ix = rdi(ifid(crc.trnHashes), keyof(sha256, 32))
ensures [found] imp(err == nil, ix != -1 && isth(result0, ix, crc))

func (*concreteReadableChain).BlockHandleByHash
prop C18
let ix = rdi(ifid(crc.blkHashes), keyof(sha256, 32))
ensures [found] imp(err == nil, ix != -1 && isbh(result0, ix, crc))

func (*concreteReadableChain).ParentBlockOfTrans
prop C18
ensures [parent] imp(err == nil, result0 == rdv(ifid(crc.parentBlockOfTrans), transactionHeight))

func (*concreteReadableChain).ParentTransOfTxi
prop C18
ensures [parent] imp(err == nil, result0 == rdv(ifid(crc.parentTransOfTxi), transactionHeight))

func (*concreteReadableChain).ParentTransOfTxo
prop C18
ensures [parent] imp(err == nil, result0 == rdv(ifid(crc.parentTransOfTxo), transactionHeight))

func (*concreteReadableChain).TxoSatsFile
prop C18
ensures [file] ifid(result) == ifid(crc.txoSats)

func (*concreteReadableChain).TxiTxFile
prop C18
ensures [file] ifid(result) == ifid(crc.txiTx)

func (*concreteReadableChain).TxiVoutFile
prop C18
ensures [file] ifid(result) == ifid(crc.txiVout)

func (*concreteReadableChain).TransFirstTxiFile
prop C18
ensures [file] ifid(result) == ifid(crc.trnFirstTxi)

func (*concreteReadableChain).TransFirstTxoFile
prop C18
ensures [file] ifid(result) == ifid(crc.trnFirstTxo)

func (*concreteReadableChain).BlockInterface
prop C18
panics_if !hhs(ifid(hBlock)) && !hks(ifid(hBlock))
ensures [object] imp(err == nil, typeis(result0, "*chainstorage.Block") && dyn(result0, "*chainstorage.Block").height == ite(hhs(ifid(hBlock)), hhh(ifid(hBlock)), rdi(ifid(crc.blkHashes), hkk(ifid(hBlock)))) && sameobj(dyn(result0, "*chainstorage.Block").data, crc))

func (*concreteReadableChain).TransInterface
prop C18
panics_if !hhs(ifid(hTrans)) && !hks(ifid(hTrans))
ensures [object] imp(err == nil, typeis(result0, "*chainstorage.Transaction") && dyn(result0, "*chainstorage.Transaction").height == ite(hhs(ifid(hTrans)), hhh(ifid(hTrans)), rdi(ifid(crc.trnHashes), hkk(ifid(hTrans)))) && sameobj(dyn(result0, "*chainstorage.Transaction").data, crc))

ufun hpt(int) int

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxiHandle.ParentTrans
trusted
ensures [parent] ifid(result) == hpt(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxoHandle.ParentTrans
trusted
ensures [parent] ifid(result) == hpt(ifid(recv))

func (*concreteReadableChain).TxiInterface
prop C18
panics_if !htxs(ifid(hTxi)) && !hps(ifid(hTxi))
requires smallv(crc.trnFirstTxi, ite(hhs(hpt(ifid(hTxi))), hhh(hpt(ifid(hTxi))), rdi(ifid(crc.trnHashes), hkk(hpt(ifid(hTxi)))))) && 0 <= hpi(ifid(hTxi)) && hpi(ifid(hTxi)) < 4611686018427387904
requires imp(!htxs(ifid(hTxi)) && hps(ifid(hTxi)), hhs(hpt(ifid(hTxi))) || hks(hpt(ifid(hTxi))))
ensures [object] imp(err == nil, typeis(result0, "*chainstorage.Txi") && dyn(result0, "*chainstorage.Txi").height == ite(htxs(ifid(hTxi)), htxh(ifid(hTxi)), rdv(ifid(crc.trnFirstTxi), ite(hhs(hpt(ifid(hTxi))), hhh(hpt(ifid(hTxi))), rdi(ifid(crc.trnHashes), hkk(hpt(ifid(hTxi)))))) + hpi(ifid(hTxi))) && sameobj(dyn(result0, "*chainstorage.Txi").data, crc))

func (*concreteReadableChain).TxoInterface
prop C18
panics_if !htxs(ifid(hTxo)) && !hps(ifid(hTxo))
requires smallv(crc.trnFirstTxo, ite(hhs(hpt(ifid(hTxo))), hhh(hpt(ifid(hTxo))), rdi(ifid(crc.trnHashes), hkk(hpt(ifid(hTxo)))))) && 0 <= hpi(ifid(hTxo)) && hpi(ifid(hTxo)) < 4611686018427387904
requires imp(!htxs(ifid(hTxo)) && hps(ifid(hTxo)), hhs(hpt(ifid(hTxo))) || hks(hpt(ifid(hTxo))))
ensures [object] imp(err == nil, typeis(result0, "*chainstorage.Txo") && dyn(result0, "*chainstorage.Txo").height == ite(htxs(ifid(hTxo)), htxh(ifid(hTxo)), rdv(ifid(crc.trnFirstTxo), ite(hhs(hpt(ifid(hTxo))), hhh(hpt(ifid(hTxo))), rdi(ifid(crc.trnHashes), hkk(hpt(ifid(hTxo)))))) + hpi(ifid(hTxo))) && sameobj(dyn(result0, "*chainstorage.Txo").data, crc))

def adrht(a) = ite(a.handle.heightSpecified, a.handle.height, rdi(ifid(a.data.addrHashes), keyof(a.handle.hash, 32)))
def adrok(a, h) = len(a.txoHeights) == 1 + ral(ifid(a.data.addrAdditionalTxos), h) && a.txoHeights[0] == rdv(ifid(a.data.addrFirstTxo), h) && forall(k, 1, len(a.txoHeights), a.txoHeights[k] == rav(ifid(a.data.addrAdditionalTxos), h, k - 1))

func (*Address).populate
prop C18
modifies adr.handle, adr.txoHeights, adr.populated
let h = adrht(adr)
ensures [height] imp(err == nil, adr.handle.heightSpecified && imp(!old(adr.handle.heightSpecified), h != -1)) && imp(adr.handle.heightSpecified, adr.handle.height == h)
ensures [hash] imp(err == nil, adr.handle.hashSpecified && ite(old(adr.handle.hashSpecified), keyof(adr.handle.hash, 32) == old(keyof(adr.handle.hash, 32)), keyof(adr.handle.hash, 32) == rdh(ifid(adr.data.addrHashes), h)))
ensures [txos] imp(err == nil, adr.populated && adrok(adr, h))
ensures [refused] imp(err != nil, adr.populated == old(adr.populated))

func (*Address).TxoCount
prop C18
modifies adr.handle, adr.txoHeights, adr.populated
let h = adrht(adr)
requires imp(adr.populated, adr.handle.heightSpecified && adrok(adr, adr.handle.height))
ensures [count] imp(err == nil, result0 == 1 + ral(ifid(adr.data.addrAdditionalTxos), h))

func (*Address).NthTxo
prop C18
modifies adr.handle, adr.txoHeights, adr.populated
let h = adrht(adr)
requires imp(adr.populated, adr.handle.heightSpecified && adrok(adr, adr.handle.height))
requires 0 <= n && n < 1 + ral(ifid(adr.data.addrAdditionalTxos), adrht(adr))
ensures [nth] imp(err == nil, istxoh(result0, ite(n == 0, rdv(ifid(adr.data.addrFirstTxo), h), rav(ifid(adr.data.addrAdditionalTxos), h, n - 1))))

func (*Address).Height
prop C18
modifies adr.handle, adr.txoHeights, adr.populated
requires imp(adr.populated, adr.handle.heightSpecified && adrok(adr, adr.handle.height))
ensures [height] imp(old(adr.handle.heightSpecified), result == old(adr.handle.height))
ensures [found] imp(adr.handle.heightSpecified, result == old(adrht(adr)))

func (*concreteReadableChain).AddressInterface
prop C18
ensures [object] err == nil && typeis(result0, "*chainstorage.Address") && sameobj(dyn(result0, "*chainstorage.Address").data, crc) && !dyn(result0, "*chainstorage.Address").populated
ensures [height] dyn(result0, "*chainstorage.Address").handle.heightSpecified == hhs(ifid(hAddress)) && imp(hhs(ifid(hAddress)), dyn(result0, "*chainstorage.Address").handle.height == hhh(ifid(hAddress)))
ensures [hash] dyn(result0, "*chainstorage.Address").handle.hashSpecified == hks(ifid(hAddress)) && imp(hks(ifid(hAddress)), keyof(dyn(result0, "*chainstorage.Address").handle.hash, 32) == hkk(ifid(hAddress)))

