package chainstorage
ufun xw(int, int) int
ufun xa(int, int, int) int
ufun hso(int) int
ufun hips(int) bool
ufun hipb(int) int
ufun hipn(int) int
ufun hsat(int) int
ufun had(int) int
ufun hai(int, int) int
ufun hti(int, int) int
ufun hob(seq, int) int
def wn(f) = ghost("wn", ifid(f))
def mx(a, b) = ite(a < b, b, a)

func github.com/KitchenMishap/pudding-shed/wordfile.ReadWriteAtWordCounter.WriteWordAt
trusted
requires [expected] 0 <= off && val == xw(ifid(recv), off)
modifies ghost("wn", ifid(recv))
ensures [written] imp(err == nil, ghost("wn", ifid(recv)) == mx(old(ghost("wn", ifid(recv))), off + 1))
ensures [refused] imp(err != nil, ghost("wn", ifid(recv)) == old(ghost("wn", ifid(recv))))

func github.com/KitchenMishap/pudding-shed/wordfile.ReadWriteAtWordCounter.CountWords
trusted
ensures [count] imp(err == nil, result0 == ghost("wn", ifid(recv)))

func github.com/KitchenMishap/pudding-shed/wordfile.ReadWriteAtWordCounter.ReadWordAt
trusted
ensures [value] imp(err == nil, result0 == xw(ifid(recv), off) && 0 <= off && off < ghost("wn", ifid(recv)))

func github.com/KitchenMishap/pudding-shed/intarrayarray.IntArrayMapStoreReadWrite.AppendToArray
trusted
requires [expected] value == xa(ifid(recv), arrayKey, ghost("an", ifid(recv), arrayKey))
modifies ghost("an", ifid(recv), arrayKey)
ensures [appended] imp(err == nil, ghost("an", ifid(recv), arrayKey) == old(ghost("an", ifid(recv), arrayKey)) + 1)

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxi.SourceTxo
trusted
ensures [source] imp(err == nil, ifid(result0) == hso(ifid(recv)))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITransHandle.IndicesPathSpecified
trusted
ensures [specified] result == hips(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITransHandle.IndicesPath
trusted
ensures [path] result0 == hipb(ifid(recv)) && result1 == hipn(ifid(recv))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxo.Satoshis
trusted
ensures [sats] imp(err == nil, result0 == hsat(ifid(recv)))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.ITxo.Address
trusted
ensures [address] imp(err == nil, ifid(result0) == had(ifid(recv)))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.IBlockTree.AddressInterface
trusted
ensures [address] imp(err == nil, ifid(result0) == hai(ifid(recv), ifid(arg0)))

func github.com/KitchenMishap/pudding-shed/chainreadinterface.IBlockTree.TransInterface
trusted
ensures [trans] imp(err == nil, ifid(result0) == hti(ifid(recv), ifid(arg0)))

def srcof(cac, s) = ite(hhs(s), hhh(s), ite(hips(s), xw(ifid(cac.blkFirstTrans), hipb(s)) + hipn(s), rdi(ifid(cac.trnHashes), hkk(s))))
def cnt0(f) = 0 <= wn(f) && wn(f) < 4611686018427387904

func (*concreteAppendableChain).appendTxi
prop C19
requires hps(hso(ifid(txi))) && (hhs(hpt(hso(ifid(txi)))) || hips(hpt(hso(ifid(txi)))) || hks(hpt(hso(ifid(txi)))))
requires 0 <= xw(ifid(cac.blkFirstTrans), hipb(hpt(hso(ifid(txi))))) && xw(ifid(cac.blkFirstTrans), hipb(hpt(hso(ifid(txi))))) < 4611686018427387904 && 0 <= hipn(hpt(hso(ifid(txi)))) && hipn(hpt(hso(ifid(txi)))) < 4611686018427387904
requires [sequence] imp(htxs(ifid(txi)), htxh(ifid(txi)) == wn(cac.txiTx))
requires cnt0(cac.txiTx)
requires [expected] xw(ifid(cac.txiTx), wn(cac.txiTx)) == srcof(cac, hpt(hso(ifid(txi)))) && xw(ifid(cac.txiVout), wn(cac.txiTx)) == hpi(hso(ifid(txi))) && xw(ifid(cac.parentTransOfTxi), wn(cac.txiTx)) == transIndex
modifies ghost("wn", ifid(cac.txiTx)), ghost("wn", ifid(cac.txiVout)), ghost("wn", ifid(cac.parentTransOfTxi))
let n = wn(cac.txiTx)
ensures [height] imp(err == nil, result0 == n)
ensures [written] imp(err == nil, wn(cac.txiTx) == n + 1 && wn(cac.txiVout) == mx(old(wn(cac.txiVout)), n + 1) && wn(cac.parentTransOfTxi) == mx(old(wn(cac.parentTransOfTxi)), n + 1))
ensures [refused] imp(err != nil, result0 == -1)

func (*concreteAppendableChain).appendTxiChi
prop C19
requires cnt0(cac.txiTx)
requires [expected] xw(ifid(cac.txiTx), wn(cac.txiTx)) == rdi(ifid(cac.trnHashes), keyof(txi.IncomingTxid, 32)) && xw(ifid(cac.txiVout), wn(cac.txiTx)) == txi.IncomingVout && xw(ifid(cac.parentTransOfTxi), wn(cac.txiTx)) == transIndex
modifies ghost("wn", ifid(cac.txiTx)), ghost("wn", ifid(cac.txiVout)), ghost("wn", ifid(cac.parentTransOfTxi))
let n = wn(cac.txiTx)
ensures [height] imp(err == nil, result0 == n)
ensures [written] imp(err == nil, wn(cac.txiTx) == n + 1 && wn(cac.txiVout) == mx(old(wn(cac.txiVout)), n + 1) && wn(cac.parentTransOfTxi) == mx(old(wn(cac.parentTransOfTxi)), n + 1))
ensures [refused] imp(err != nil, result0 == -1)

func (*concreteAppendableChain).appendTxo
prop C19
maypanic
requires [sequence] imp(htxs(ifid(txo)), htxh(ifid(txo)) == wn(cac.txoSats))
requires cnt0(cac.txoSats) && cnt0(cac.addrFirstTxo)
requires [expected] xw(ifid(cac.txoSats), wn(cac.txoSats)) == hsat(ifid(txo)) && xw(ifid(cac.parentTransOfTxo), wn(cac.txoSats)) == transIndex && xw(ifid(cac.txoAddress), wn(cac.txoSats)) == rdi(ifid(cac.addrHashes), hkk(hai(ifid(blockChain), had(ifid(txo))))) && xw(ifid(cac.txoSpentTxi), wn(cac.txoSats)) == 0
requires [first] imp(wn(cac.addrFirstTxo) <= rdi(ifid(cac.addrHashes), hkk(hai(ifid(blockChain), had(ifid(txo))))), xw(ifid(cac.addrFirstTxo), rdi(ifid(cac.addrHashes), hkk(hai(ifid(blockChain), had(ifid(txo)))))) == wn(cac.txoSats))
requires [again] imp(wn(cac.addrFirstTxo) > rdi(ifid(cac.addrHashes), hkk(hai(ifid(blockChain), had(ifid(txo))))), xa(ifid(cac.addrAdditionalTxos), rdi(ifid(cac.addrHashes), hkk(hai(ifid(blockChain), had(ifid(txo))))), ghost("an", ifid(cac.addrAdditionalTxos), rdi(ifid(cac.addrHashes), hkk(hai(ifid(blockChain), had(ifid(txo))))))) == wn(cac.txoSats))
let n = wn(cac.txoSats)
let a = rdi(ifid(cac.addrHashes), hkk(hai(ifid(blockChain), had(ifid(txo)))))
let seen = wn(cac.addrFirstTxo) > rdi(ifid(cac.addrHashes), hkk(hai(ifid(blockChain), had(ifid(txo)))))
modifies ghost("wn", ifid(cac.txoSats)), ghost("wn", ifid(cac.parentTransOfTxo)), ghost("wn", ifid(cac.addrFirstTxo)), ghost("an", ifid(cac.addrAdditionalTxos), rdi(ifid(cac.addrHashes), hkk(hai(ifid(blockChain), had(ifid(txo)))))), ghost("wn", ifid(cac.txoAddress)), ghost("wn", ifid(cac.txoSpentTxi))
ensures [height] imp(err == nil, result0 == n && a != -1)
ensures [written] imp(err == nil, wn(cac.txoSats) == n + 1 && wn(cac.parentTransOfTxo) == mx(old(wn(cac.parentTransOfTxo)), n + 1) && wn(cac.txoAddress) == mx(old(wn(cac.txoAddress)), n + 1) && wn(cac.txoSpentTxi) == mx(old(wn(cac.txoSpentTxi)), n + 1))
ensures [first] imp(err == nil && !seen, wn(cac.addrFirstTxo) == a + 1 && ghost("an", ifid(cac.addrAdditionalTxos), a) == old(ghost("an", ifid(cac.addrAdditionalTxos), a)))
ensures [again] imp(err == nil && seen, wn(cac.addrFirstTxo) == old(wn(cac.addrFirstTxo)) && ghost("an", ifid(cac.addrAdditionalTxos), a) == old(ghost("an", ifid(cac.addrAdditionalTxos), a)) + 1)
ensures [refused] imp(err != nil, result0 == -1)

func (*concreteAppendableChain).appendTransactionFrame
prop C19
maypanic
requires 0 <= blkNum && imp(!cac.transactionIndexingIsDelegated, hks(hti(ifid(blockChain), ifid(hTrans))) && rdi(ifid(cac.trnHashes), hkk(hti(ifid(blockChain), ifid(hTrans)))) >= 0)
requires imp(cac.transactionIndexingIsDelegated, hhs(ifid(hTrans)) || hips(ifid(hTrans)))
let x = rdi(ifid(cac.trnHashes), hkk(hti(ifid(blockChain), ifid(hTrans))))
requires 0 <= xw(ifid(cac.blkFirstTrans), blkNum) && xw(ifid(cac.blkFirstTrans), blkNum) < 4611686018427387904 && 0 <= hipn(ifid(hTrans)) && hipn(ifid(hTrans)) < 4611686018427387904
requires [expected] imp(!cac.transactionIndexingIsDelegated, xw(ifid(cac.parentBlockOfTrans), rdi(ifid(cac.trnHashes), hkk(hti(ifid(blockChain), ifid(hTrans))))) == blkNum)
modifies ghost("wn", ifid(cac.parentBlockOfTrans))
ensures [indexed] imp(err == nil && !cac.transactionIndexingIsDelegated, result0 == x && wn(cac.parentBlockOfTrans) == mx(old(wn(cac.parentBlockOfTrans)), x + 1))
ensures [delegated] imp(err == nil && cac.transactionIndexingIsDelegated, result0 == ite(hhs(ifid(hTrans)), hhh(ifid(hTrans)), xw(ifid(cac.blkFirstTrans), blkNum) + hipn(ifid(hTrans))) && wn(cac.parentBlockOfTrans) == old(wn(cac.parentBlockOfTrans)))

func (*concreteAppendableChain).appendTransactionFrameChi
prop C19
let x = rdi(ifid(cac.trnHashes), keyof(trans.TransactionHash, 32))
requires 0 <= xw(ifid(cac.blkFirstTrans), blkNum) && xw(ifid(cac.blkFirstTrans), blkNum) < 4611686018427387904 && 0 <= nthTrans && nthTrans < 4611686018427387904
requires [expected] imp(!cac.transactionIndexingIsDelegated, xw(ifid(cac.parentBlockOfTrans), rdi(ifid(cac.trnHashes), keyof(trans.TransactionHash, 32))) == blkNum)
modifies ghost("wn", ifid(cac.parentBlockOfTrans))
ensures [indexed] imp(err == nil && !cac.transactionIndexingIsDelegated, result0 == x && x >= 0 && wn(cac.parentBlockOfTrans) == mx(old(wn(cac.parentBlockOfTrans)), x + 1))
ensures [delegated] imp(err == nil && cac.transactionIndexingIsDelegated, result0 == xw(ifid(cac.blkFirstTrans), blkNum) + nthTrans && wn(cac.parentBlockOfTrans) == old(wn(cac.parentBlockOfTrans)))

func (*concreteAppendableChain).StoreTransHeightToParentBlock
prop C19
requires [expected] 0 <= transHeight && xw(ifid(cac.parentBlockOfTrans), transHeight) == parentBlockHeight
modifies ghost("wn", ifid(cac.parentBlockOfTrans))
ensures [stored] imp(err == nil, wn(cac.parentBlockOfTrans) == mx(old(wn(cac.parentBlockOfTrans)), transHeight + 1))

func (*concreteAppendableChain).StoreBlockHeightToFirstTrans
prop C19
requires [expected] 0 <= blockHeight && xw(ifid(cac.blkFirstTrans), blockHeight) == firstTrans
modifies ghost("wn", ifid(cac.blkFirstTrans))
ensures [stored] imp(err == nil, wn(cac.blkFirstTrans) == mx(old(wn(cac.blkFirstTrans)), blockHeight + 1))

func (*concreteAppendableChain).RetrieveTransHashToHeight
prop C19
ensures [height] imp(err == nil, result0 == rdi(ifid(cac.trnHashes), keyof(*sha256, 32)))

func (*concreteAppendableChain).RetrieveTransHeightToParentBlock
prop C19
ensures [parent] imp(err == nil, result0 == xw(ifid(cac.parentBlockOfTrans), transHeight))

func (*concreteAppendableChain).RetrieveBlockHeightToFirstTrans
prop C19
ensures [first] imp(err == nil, result0 == xw(ifid(cac.blkFirstTrans), blockHeight))

func (*concreteAppendableChain).CountHashes
prop C19
ensures [counts] imp(err == nil, result0 == rdc(ifid(cac.blkHashes)) && result1 == rdc(ifid(cac.trnHashes)) && result2 == rdc(ifid(cac.addrHashes)))

func github.com/KitchenMishap/pudding-shed/indexedhashes.HashOfBytes
trusted
ensures [hash] keyof(result, 32) == hob(seqof(in), len(in))

func (*concreteAppendableChain).appendTxoChi
prop C19
maypanic
requires cnt0(cac.txoSats) && cnt0(cac.addrFirstTxo)
requires [expected] xw(ifid(cac.txoSats), wn(cac.txoSats)) == txo.SatoshisValue && xw(ifid(cac.parentTransOfTxo), wn(cac.txoSats)) == transIndex && xw(ifid(cac.txoAddress), wn(cac.txoSats)) == rdi(ifid(cac.addrHashes), hob(seqof(txo.ScriptPubBytes), len(txo.ScriptPubBytes))) && xw(ifid(cac.txoSpentTxi), wn(cac.txoSats)) == 0
requires [first] imp(wn(cac.addrFirstTxo) <= rdi(ifid(cac.addrHashes), hob(seqof(txo.ScriptPubBytes), len(txo.ScriptPubBytes))), xw(ifid(cac.addrFirstTxo), rdi(ifid(cac.addrHashes), hob(seqof(txo.ScriptPubBytes), len(txo.ScriptPubBytes)))) == wn(cac.txoSats))
requires [again] imp(wn(cac.addrFirstTxo) > rdi(ifid(cac.addrHashes), hob(seqof(txo.ScriptPubBytes), len(txo.ScriptPubBytes))), xa(ifid(cac.addrAdditionalTxos), rdi(ifid(cac.addrHashes), hob(seqof(txo.ScriptPubBytes), len(txo.ScriptPubBytes))), ghost("an", ifid(cac.addrAdditionalTxos), rdi(ifid(cac.addrHashes), hob(seqof(txo.ScriptPubBytes), len(txo.ScriptPubBytes))))) == wn(cac.txoSats))
let n = wn(cac.txoSats)
let a = rdi(ifid(cac.addrHashes), hob(seqof(txo.ScriptPubBytes), len(txo.ScriptPubBytes)))
let seen = wn(cac.addrFirstTxo) > rdi(ifid(cac.addrHashes), hob(seqof(txo.ScriptPubBytes), len(txo.ScriptPubBytes)))
modifies ghost("wn", ifid(cac.txoSats)), ghost("wn", ifid(cac.parentTransOfTxo)), ghost("wn", ifid(cac.addrFirstTxo)), ghost("an", ifid(cac.addrAdditionalTxos), rdi(ifid(cac.addrHashes), hob(seqof(txo.ScriptPubBytes), len(txo.ScriptPubBytes)))), ghost("wn", ifid(cac.txoAddress)), ghost("wn", ifid(cac.txoSpentTxi))
ensures [height] imp(err == nil, result0 == n && a != -1)
ensures [written] imp(err == nil, wn(cac.txoSats) == n + 1 && wn(cac.parentTransOfTxo) == mx(old(wn(cac.parentTransOfTxo)), n + 1) && wn(cac.txoAddress) == mx(old(wn(cac.txoAddress)), n + 1) && wn(cac.txoSpentTxi) == mx(old(wn(cac.txoSpentTxi)), n + 1))
ensures [first] imp(err == nil && !seen, wn(cac.addrFirstTxo) == a + 1 && ghost("an", ifid(cac.addrAdditionalTxos), a) == old(ghost("an", ifid(cac.addrAdditionalTxos), a)))
ensures [again] imp(err == nil && seen, wn(cac.addrFirstTxo) == old(wn(cac.addrFirstTxo)) && ghost("an", ifid(cac.addrAdditionalTxos), a) == old(ghost("an", ifid(cac.addrAdditionalTxos), a)) + 1)
ensures [refused] imp(err != nil, result0 == -1)
