package intrinsicobjectschi
def cle(s, v) = ite(0 < len(s) && s[0] <= v, 1, 0) + ite(1 < len(s) && s[1] <= v, 1, 0) + ite(2 < len(s) && s[2] <= v, 1, 0) + ite(3 < len(s) && s[3] <= v, 1, 0) + ite(4 < len(s) && s[4] <= v, 1, 0) + ite(5 < len(s) && s[5] <= v, 1, 0) + ite(6 < len(s) && s[6] <= v, 1, 0) + ite(7 < len(s) && s[7] <= v, 1, 0) + ite(8 < len(s) && s[8] <= v, 1, 0) + ite(9 < len(s) && s[9] <= v, 1, 0) + ite(10 < len(s) && s[10] <= v, 1, 0)

func (*OneBlockHolder).PostIntrinsicCalculateMedianTime
prop C16
requires len(obh.timestampsForMedian) <= 11
modifies obh.timestampsForMedian
let n0 = len(obh.timestampsForMedian)
let keep = ite(n0 < 11, n0, 10)
ensures [count] len(obh.timestampsForMedian) == keep + 1
ensures [latest] obh.timestampsForMedian[keep] == timestamp
ensures [window] forall(i, 0, keep, obh.timestampsForMedian[i] == old(obh.timestampsForMedian[n0 - keep + i]))
ensures [atmost] cle(obh.timestampsForMedian, result) > (keep + 1) / 2
ensures [below] cle(obh.timestampsForMedian, result - 1) <= (keep + 1) / 2

package intrinsicobjectscri

func (*OneBlockHolder).PostIntrinsicCalculateMedianTime
prop C16
requires len(obh.timestampsForMedian) <= 11
modifies obh.timestampsForMedian
let n0 = len(obh.timestampsForMedian)
let keep = ite(n0 < 11, n0, 10)
ensures [count] len(obh.timestampsForMedian) == keep + 1
ensures [latest] obh.timestampsForMedian[keep] == timestamp
ensures [window] forall(i, 0, keep, obh.timestampsForMedian[i] == old(obh.timestampsForMedian[n0 - keep + i]))
ensures [atmost] cle(obh.timestampsForMedian, result) > (keep + 1) / 2
ensures [below] cle(obh.timestampsForMedian, result - 1) <= (keep + 1) / 2

package intrinsicobjectschi
def hb4(b) = le(b, 0, 4)

func makeBlockHandle
prop C17
panics_if blockHeight < 0 || blockHeight >= 4294967295
ensures [height] hb4(result.Bytes) == blockHeight

func makeInvalidBlockHandle
prop C17
ensures [invalid] hb4(result.Bytes) == 4294967295

func isInvalidBlockHandle
prop C17
ensures [invalid] result == (hb4(handle.Bytes) == 4294967295)

func makeTransactionSubHandle
prop C17
panics_if indexWithinBlock < 0 || indexWithinBlock > 4294967295
ensures [index] hb4(result.Bytes) == indexWithinBlock

func indexInBlockFromTransactionSubHandle
prop C17
ensures [index] result == hb4(handle.Bytes)

func makeTxiSubHandle
prop C17
panics_if indexWithinTrans < 0 || indexWithinTrans > 4294967295
ensures [index] hb4(result.Bytes) == indexWithinTrans

func makeTxoSubHandle
prop C17
panics_if indexWithinTrans < 0 || indexWithinTrans > 4294967295
ensures [index] hb4(result.Bytes) == indexWithinTrans

func txiIndexFromTxiSubHandle
prop C17
ensures [index] result == hb4(handle.Bytes)

func txoIndexFromTxiSubHandle
prop C17
ensures [index] result == hb4(handle.Bytes)

func (*OneBlockHolder).InvalidBlockHandle
prop C17
ensures [invalid] hb4(result.Bytes) == 4294967295

func (*OneBlockHolder).IsBlockHandleInvalid
prop C17
ensures [invalid] result == (hb4(handle.Bytes) == 4294967295)

func NewBlock
prop C17
fresh result0
ensures [contents] err == nil && result0 != nil && sameobj(result0.intrinsic, intrinsic) && result0.blockHeight == blockHeight && result0.medianTime == mediantime

ufun gtxid(int) int
ufun gpar(int) int
ufun gfst(int) int

func github.com/KitchenMishap/pudding-shed/transactionindexing.ITransactionIndexer.StoreBlockHeightToFirstTrans
trusted
requires [protocol] firstTrans == gfst(blockHeight)
modifies ghost("fst", ifid(recv))
ensures [stored] imp(err == nil, ghost("fst", ifid(recv)) == old(ghost("fst", ifid(recv))) + 1)

func github.com/KitchenMishap/pudding-shed/transactionindexing.ITransactionIndexer.StoreTransHeightToParentBlock
trusted
requires [protocol] parentBlockHeight == gpar(transHeight) && transHeight == ghost("par", ifid(recv)) 
modifies ghost("par", ifid(recv))
ensures [stored] imp(err == nil, ghost("par", ifid(recv)) == old(ghost("par", ifid(recv))) + 1)

func github.com/KitchenMishap/pudding-shed/transactionindexing.ITransactionIndexer.StoreTransHashToHeight
trusted
requires [protocol] keyof(*sha256, 32) == gtxid(transHeight) && transHeight == ghost("txs", ifid(recv))
modifies ghost("txs", ifid(recv))
ensures [stored] imp(err == nil, ghost("txs", ifid(recv)) == old(ghost("txs", ifid(recv))) + 1)

func (*OneBlockHolder).PostIntrinsicGatherTransHashes
prop C17
nilable obh.transactionIndexer
requires -1 <= obh.latestTransactionVisited && obh.latestTransactionVisited < 4611686018427387904
let id = ifid(obh.transactionIndexer)
let next = obh.latestTransactionVisited + 1
requires [synced] ghost("par", ifid(obh.transactionIndexer)) == obh.latestTransactionVisited + 1 && ghost("txs", ifid(obh.transactionIndexer)) == obh.latestTransactionVisited + 1
requires [expected] gfst(block.blockHeight) == obh.latestTransactionVisited + 1 && forall(i, 0, len(block.intrinsic.Transactions), gtxid(obh.latestTransactionVisited + 1 + i) == keyof(block.intrinsic.Transactions[i].TxId, 32) && gpar(obh.latestTransactionVisited + 1 + i) == block.blockHeight)
modifies obh.latestTransactionVisited, ghost("fst", ifid(obh.transactionIndexer)), ghost("par", ifid(obh.transactionIndexer)), ghost("txs", ifid(obh.transactionIndexer))
loop 1
inv [range] iter <= len(block.intrinsic.Transactions)
inv [step] imp(iter < len(block.intrinsic.Transactions), gtxid(next + iter) == keyof(block.intrinsic.Transactions[iter].TxId, 32) && gpar(next + iter) == block.blockHeight)
inv [count] (transHeight == next + iter - 1 || transHeight == next - 1) && ghost("par", id) == next + iter && ghost("txs", id) == next + iter && ghost("fst", id) == old(ghost("fst", id)) + 1
ensures [none] imp(obh.transactionIndexer == nil, err == nil && obh.latestTransactionVisited == next - 1)
ensures [all] imp(obh.transactionIndexer != nil && err == nil, obh.latestTransactionVisited == next - 1 + len(block.intrinsic.Transactions) && ghost("par", id) == next + len(block.intrinsic.Transactions) && ghost("txs", id) == next + len(block.intrinsic.Transactions) && ghost("fst", id) == old(ghost("fst", id)) + 1)

func (*OneBlockHolder).NextBlock
prop C17
maypanic
nilable obh.transactionIndexer
requires obh.currentBlock != nil && obh.currentBlock.intrinsic != nil && len(obh.timestampsForMedian) <= 11
requires 0 <= obh.currentBlock.blockHeight && obh.currentBlock.blockHeight < 4294967294
requires -1 <= obh.latestTransactionVisited && obh.latestTransactionVisited < 4611686018427387904
modifies obh.currentBlock, obh.timestampsForMedian, obh.latestTransactionVisited, ghost("fst", ifid(obh.transactionIndexer)), ghost("par", ifid(obh.transactionIndexer)), ghost("txs", ifid(obh.transactionIndexer))
requires [synced] ghost("par", ifid(obh.transactionIndexer)) == obh.latestTransactionVisited + 1 && ghost("txs", ifid(obh.transactionIndexer)) == obh.latestTransactionVisited + 1
recv imp(msg != nil, gfst(old(obh.currentBlock.blockHeight) + 1) == old(obh.latestTransactionVisited) + 1 && forall(i, 0, len(msg.Transactions), gtxid(old(obh.latestTransactionVisited) + 1 + i) == keyof(msg.Transactions[i].TxId, 32) && gpar(old(obh.latestTransactionVisited) + 1 + i) == old(obh.currentBlock.blockHeight) + 1))
let id = ifid(obh.transactionIndexer)
let l0 = obh.latestTransactionVisited
ensures [indexed] imp(err == nil && obh.transactionIndexer != nil && hb4(result0.Bytes) != 4294967295, obh.latestTransactionVisited == l0 + len(obh.currentBlock.intrinsic.Transactions) && ghost("par", id) == obh.latestTransactionVisited + 1 && ghost("txs", id) == obh.latestTransactionVisited + 1 && ghost("fst", id) == old(ghost("fst", id)) + 1)
let b0 = obh.currentBlock
let h0 = obh.currentBlock.blockHeight
ensures [asked] hb4(handle.Bytes) == h0
ensures [end] imp(err == nil && hb4(result0.Bytes) == 4294967295, sameobj(obh.currentBlock, b0))
ensures [next] imp(err == nil && hb4(result0.Bytes) != 4294967295, hb4(result0.Bytes) == h0 + 1 && obh.currentBlock.blockHeight == h0 + 1 && keyof(obh.currentBlock.intrinsic.PrevHash, 32) == keyof(old(obh.currentBlock.intrinsic.BlockHash), 32))
ensures [median] imp(err == nil && hb4(result0.Bytes) != 4294967295, cle(obh.timestampsForMedian, obh.currentBlock.medianTime) > len(obh.timestampsForMedian) / 2 && cle(obh.timestampsForMedian, obh.currentBlock.medianTime - 1) <= len(obh.timestampsForMedian) / 2)

func (*OneBlockHolder).GetBlockInfo
prop C17
dyntype receiver *chainhandleinterface.BlockReceiver
let r = dyn(receiver, "*chainhandleinterface.BlockReceiver")
requires ifid(receiver) != 0 && dyn(receiver, "*chainhandleinterface.BlockReceiver").FieldMap != nil
requires obh.currentBlock != nil && obh.currentBlock.intrinsic != nil && 0 <= obh.currentBlock.blockHeight && obh.currentBlock.blockHeight < 4294967295
requires len(obh.currentBlock.intrinsic.Transactions) < 4294967295
modifies dyn(receiver, "*chainhandleinterface.BlockReceiver").BlockHeight, dyn(receiver, "*chainhandleinterface.BlockReceiver").BlockHash, dyn(receiver, "*chainhandleinterface.BlockReceiver").TransactionHandles, mapof(dyn(receiver, "*chainhandleinterface.BlockReceiver").FieldMap)
let n = len(obh.currentBlock.intrinsic.Transactions)
loop 1
inv [range] iter <= n && len(r.TransactionHandles) == iter
inv [handles] forall(i, 0, iter, hb4(r.TransactionHandles[i].TSH.Bytes) == i && hb4(r.TransactionHandles[i].BH.Bytes) == hb4(blockHandle.Bytes))
ensures [held] (err == nil) == (hb4(blockHandle.Bytes) == obh.currentBlock.blockHeight)
ensures [height] imp(err == nil, r.BlockHeight == obh.currentBlock.blockHeight && forall(k, 0, 32, r.BlockHash[k] == obh.currentBlock.intrinsic.BlockHash[k]))
ensures [handles] imp(err == nil, len(r.TransactionHandles) == n && forall(i, 0, n, hb4(r.TransactionHandles[i].TSH.Bytes) == i && hb4(r.TransactionHandles[i].BH.Bytes) == hb4(blockHandle.Bytes)))
ensures [ints] imp(err == nil, mapval(r.FieldMap, strkey("time")) == obh.currentBlock.intrinsic.Time && mapval(r.FieldMap, strkey("mediantime")) == obh.currentBlock.medianTime && mapval(r.FieldMap, strkey("size")) == obh.currentBlock.intrinsic.Size && mapval(r.FieldMap, strkey("strippedsize")) == obh.currentBlock.intrinsic.StrippedSize && mapval(r.FieldMap, strkey("weight")) == obh.currentBlock.intrinsic.Weight)

def okblk(obh) = obh.currentBlock != nil && obh.currentBlock.intrinsic != nil && 0 <= obh.currentBlock.blockHeight && obh.currentBlock.blockHeight < 4294967295
def hth(a, b) = hb4(a.BH.Bytes) == hb4(b.BH.Bytes) && hb4(a.TSH.Bytes) == hb4(b.TSH.Bytes)

func (*OneBlockHolder).GetTransactionInfo
prop C17
dyntype receiver *chainhandleinterface.BitcoinCoreTransactionReceiver
requires ifid(receiver) != 0 && dyn(receiver, "*chainhandleinterface.BitcoinCoreTransactionReceiver").FieldMap != nil
requires okblk(obh) && hb4(transHandle.TSH.Bytes) < len(obh.currentBlock.intrinsic.Transactions)
requires let(t, obh.currentBlock.intrinsic.Transactions[hb4(transHandle.TSH.Bytes)], 0 <= t.TxisCount && t.TxisCount < 4294967296 && 0 <= t.TxosCount && t.TxosCount < 4294967296)
let r = dyn(receiver, "*chainhandleinterface.BitcoinCoreTransactionReceiver")
let ti = hb4(transHandle.TSH.Bytes)
let ni = ite(hb4(transHandle.TSH.Bytes) == 0, 0, obh.currentBlock.intrinsic.Transactions[hb4(transHandle.TSH.Bytes)].TxisCount)
let no = obh.currentBlock.intrinsic.Transactions[hb4(transHandle.TSH.Bytes)].TxosCount
modifies dyn(receiver, "*chainhandleinterface.BitcoinCoreTransactionReceiver").ParentBlockHandle, dyn(receiver, "*chainhandleinterface.BitcoinCoreTransactionReceiver").TransactionHash, dyn(receiver, "*chainhandleinterface.BitcoinCoreTransactionReceiver").TxiHandles, dyn(receiver, "*chainhandleinterface.BitcoinCoreTransactionReceiver").TxoHandles, mapof(dyn(receiver, "*chainhandleinterface.BitcoinCoreTransactionReceiver").FieldMap)
loop 1
inv [range] imp(ti != 0, len(r.TxiHandles) == iter && iter <= ni) && imp(ti == 0, len(r.TxiHandles) == 0) && len(r.TxoHandles) == 0 && iter < 4294967296
inv [txis] forall(i, 0, len(r.TxiHandles), hb4(r.TxiHandles[i].TXISH.Bytes) == i && hth(r.TxiHandles[i].TH, transHandle))
loop 2
inv [range] 0 <= iter && len(r.TxoHandles) == iter && iter <= no && len(r.TxiHandles) == ni
inv [txis] forall(i, 0, len(r.TxiHandles), hb4(r.TxiHandles[i].TXISH.Bytes) == i && hth(r.TxiHandles[i].TH, transHandle))
inv [txos] forall(i, 0, len(r.TxoHandles), hb4(r.TxoHandles[i].TXOSH.Bytes) == i && hth(r.TxoHandles[i].TH, transHandle))
ensures [held] (err == nil) == (hb4(transHandle.BH.Bytes) == obh.currentBlock.blockHeight)
ensures [hash] imp(err == nil, hb4(r.ParentBlockHandle.Bytes) == hb4(transHandle.BH.Bytes) && forall(k, 0, 32, r.TransactionHash[k] == obh.currentBlock.intrinsic.Transactions[ti].TxId[k]))
ensures [txis] imp(err == nil, len(r.TxiHandles) == ni && forall(i, 0, ni, hb4(r.TxiHandles[i].TXISH.Bytes) == i && hth(r.TxiHandles[i].TH, transHandle)))
ensures [txos] imp(err == nil, len(r.TxoHandles) == no && forall(i, 0, no, hb4(r.TxoHandles[i].TXOSH.Bytes) == i && hth(r.TxoHandles[i].TH, transHandle)))
ensures [ints] imp(err == nil, mapval(r.FieldMap, strkey("size")) == obh.currentBlock.intrinsic.Transactions[ti].Size && mapval(r.FieldMap, strkey("vsize")) == obh.currentBlock.intrinsic.Transactions[ti].VSize && mapval(r.FieldMap, strkey("weight")) == obh.currentBlock.intrinsic.Transactions[ti].Weight)

func (*OneBlockHolder).GetTxiInfo
prop C17
dyntype receiver *chainhandleinterface.TxiReceiver
requires ifid(receiver) != 0
requires okblk(obh) && obh.currentBlock.intrinsic.Storage != nil && hb4(txiHandle.TH.TSH.Bytes) < len(obh.currentBlock.intrinsic.Transactions)
requires let(t, obh.currentBlock.intrinsic.Transactions[hb4(txiHandle.TH.TSH.Bytes)], 0 <= t.TxisStart && t.TxisStart + hb4(txiHandle.TXISH.Bytes) < len(obh.currentBlock.intrinsic.Storage.Txis))
let r = dyn(receiver, "*chainhandleinterface.TxiReceiver")
let st = obh.currentBlock.intrinsic.Storage
let x = obh.currentBlock.intrinsic.Transactions[hb4(txiHandle.TH.TSH.Bytes)].TxisStart + hb4(txiHandle.TXISH.Bytes)
modifies dyn(receiver, "*chainhandleinterface.TxiReceiver").ParentTransactionHandle, dyn(receiver, "*chainhandleinterface.TxiReceiver").IncomingTxid, dyn(receiver, "*chainhandleinterface.TxiReceiver").IncomingVout
ensures [held] (err == nil) == (hb4(txiHandle.TH.BH.Bytes) == obh.currentBlock.blockHeight)
ensures [txi] imp(err == nil, hth(r.ParentTransactionHandle, txiHandle.TH) && r.IncomingVout == st.Txis[x].VOut && forall(k, imp(0 <= k && k < 32, r.IncomingTxid[k] == st.Txis[x].TxId[k])))

func (*OneBlockHolder).GetTxoInfo
prop C17
dyntype receiver *chainhandleinterface.TxoReceiver
requires ifid(receiver) != 0
requires okblk(obh) && obh.currentBlock.intrinsic.Storage != nil && hb4(txoHandle.TH.TSH.Bytes) < len(obh.currentBlock.intrinsic.Transactions)
requires let(t, obh.currentBlock.intrinsic.Transactions[hb4(txoHandle.TH.TSH.Bytes)], 0 <= t.TxosStart && t.TxosStart + hb4(txoHandle.TXOSH.Bytes) < len(obh.currentBlock.intrinsic.Storage.Txos))
let r = dyn(receiver, "*chainhandleinterface.TxoReceiver")
let st = obh.currentBlock.intrinsic.Storage
let x = obh.currentBlock.intrinsic.Transactions[hb4(txoHandle.TH.TSH.Bytes)].TxosStart + hb4(txoHandle.TXOSH.Bytes)
requires let(o, obh.currentBlock.intrinsic.Storage.Txos[obh.currentBlock.intrinsic.Transactions[hb4(txoHandle.TH.TSH.Bytes)].TxosStart + hb4(txoHandle.TXOSH.Bytes)], 0 <= o.ScriptPubKeyStart && 0 <= o.ScriptPubKeyLen && o.ScriptPubKeyLen < 4294967296 && o.ScriptPubKeyStart + o.ScriptPubKeyLen <= len(obh.currentBlock.intrinsic.Storage.Scripts)) && len(obh.currentBlock.intrinsic.Storage.Scripts) <= 2147483647
modifies dyn(receiver, "*chainhandleinterface.TxoReceiver").ParentTransactionHandle, dyn(receiver, "*chainhandleinterface.TxoReceiver").SatoshisValue, dyn(receiver, "*chainhandleinterface.TxoReceiver").ScriptPubBytes
loop 1
inv [range] iter <= st.Txos[x].ScriptPubKeyLen && len(r.ScriptPubBytes) == iter
inv [bytes] forall(i, 0, iter, r.ScriptPubBytes[i] == st.Scripts[st.Txos[x].ScriptPubKeyStart + i])
ensures [held] (err == nil) == (hb4(txoHandle.TH.BH.Bytes) == obh.currentBlock.blockHeight)
ensures [txo] imp(err == nil, hth(r.ParentTransactionHandle, txoHandle.TH) && r.SatoshisValue == st.Txos[x].Value)
ensures [script] imp(err == nil, len(r.ScriptPubBytes) == st.Txos[x].ScriptPubKeyLen && forall(i, 0, st.Txos[x].ScriptPubKeyLen, r.ScriptPubBytes[i] == st.Scripts[st.Txos[x].ScriptPubKeyStart + i]))

package intrinsicobjectscri
func NewTransaction
prop C17
fresh result0
requires storage != nil && parentBlock != nil && 0 <= intrinsic.TxisCount && intrinsic.TxisCount < 4294967296 && 0 <= intrinsic.TxosCount && intrinsic.TxosCount < 4294967296
requires 0 <= intrinsic.TxisStart && intrinsic.TxisStart + intrinsic.TxisCount <= len(storage.Txis) && 0 <= intrinsic.TxosStart && intrinsic.TxosStart + intrinsic.TxosCount <= len(storage.Txos)
let ni = ite(isCoinbase, 0, intrinsic.TxisCount)
let no = intrinsic.TxosCount
loop 1
inv [range] iter <= ni && len(result.puddingShedTxis) == ni
inv [parents] forall(i, 0, iter, sameobj(result.puddingShedTxis[i].parentTransaction, &result))
inv [copies] forall(i, 0, iter, let(x, result.puddingShedTxis[i], x.parentIndex == i && x.intrinsicCopy.VOut == storage.Txis[intrinsic.TxisStart + i].VOut && forall(k, imp(0 <= k && k < 32, x.intrinsicCopy.TxId[k] == storage.Txis[intrinsic.TxisStart + i].TxId[k]))))
loop 2
inv [range] iter <= no && len(result.puddingShedTxis) == ni && len(result.txos) == no
inv [parents] forall(i, 0, iter, sameobj(result.txos[i].parentTransaction, &result))
inv [copies] forall(i, 0, iter, let(x, result.txos[i], x.parentIndex == i && x.intrinsicCopy.Value == storage.Txos[intrinsic.TxosStart + i].Value && x.intrinsicCopy.ScriptPubKeyStart == storage.Txos[intrinsic.TxosStart + i].ScriptPubKeyStart && x.intrinsicCopy.ScriptPubKeyLen == storage.Txos[intrinsic.TxosStart + i].ScriptPubKeyLen))
ensures [ok] err == nil && result0 != nil && sameobj(result0.parentBlock, parentBlock) && result0.parentIndex == parentIndex && sameobj(result0.intrinsic, intrinsic)
ensures [txis] len(result0.puddingShedTxis) == ni && forall(i, 0, ni, let(x, result0.puddingShedTxis[i], x.parentIndex == i && x.intrinsicCopy.VOut == storage.Txis[intrinsic.TxisStart + i].VOut && forall(k, imp(0 <= k && k < 32, x.intrinsicCopy.TxId[k] == storage.Txis[intrinsic.TxisStart + i].TxId[k]))))
ensures [txos] len(result0.txos) == no && forall(i, 0, no, let(x, result0.txos[i], x.parentIndex == i && x.intrinsicCopy.Value == storage.Txos[intrinsic.TxosStart + i].Value && x.intrinsicCopy.ScriptPubKeyStart == storage.Txos[intrinsic.TxosStart + i].ScriptPubKeyStart && x.intrinsicCopy.ScriptPubKeyLen == storage.Txos[intrinsic.TxosStart + i].ScriptPubKeyLen))
ensures [parents] forall(i, 0, ni, sameobj(result0.puddingShedTxis[i].parentTransaction, result0)) && forall(i, 0, no, sameobj(result0.txos[i].parentTransaction, result0))
ensures [ints] mapval(result0.neisMap, strkey("weight")) == intrinsic.Weight && mapval(result0.neisMap, strkey("size")) == intrinsic.Size && mapval(result0.neisMap, strkey("vsize")) == intrinsic.VSize

func (*Transaction).TxiCount
prop C17
ensures err == nil && result0 == len(t.puddingShedTxis)

func (*Transaction).TxoCount
prop C17
ensures err == nil && result0 == len(t.txos)

func (*Transaction).AllTxoSatoshis
prop C17
loop 1
inv [range] iter <= len(t.txos) && len(result) == len(t.txos)
inv [vals] forall(i, 0, iter, result[i] == t.txos[i].intrinsicCopy.Value)
ensures [ok] err == nil && len(result0) == len(t.txos)
ensures [vals] forall(i, 0, len(t.txos), result0[i] == t.txos[i].intrinsicCopy.Value)

func (*Transaction).IndicesPath
prop C17
requires t.parentBlock != nil
ensures result0 == t.parentBlock.blockHeight && result1 == t.parentIndex

func (*Transaction).Hash
prop C17
requires t.intrinsic != nil
ensures err == nil && forall(k, 0, 32, result0[k] == t.intrinsic.TxId[k])

func (*Txi).SourceTxo
prop C17
ensures [type] err == nil && typeis(result0, "*intrinsicobjectscri.TxoHandle") && ifid(result0) != 0
ensures [source] let(h, dyn(result0, "*intrinsicobjectscri.TxoHandle"), h.vIndex == txi.intrinsicCopy.VOut && forall(k, 0, 32, h.txId[k] == txi.intrinsicCopy.TxId[k]))

func (*Txi).ParentTrans
prop C17
requires txi.parentTransaction != nil && txi.parentTransaction.intrinsic != nil
ensures [type] typeis(result, "*intrinsicobjectscri.TransHandle")
ensures [parent] let(h, dyn(result, "*intrinsicobjectscri.TransHandle"), !h.isInvalid && forall(k, 0, 32, h.transactionId[k] == txi.parentTransaction.intrinsic.TxId[k]))

func (*Txo).ParentTrans
prop C17
requires txo.parentTransaction != nil && txo.parentTransaction.intrinsic != nil
ensures [type] typeis(result, "*intrinsicobjectscri.TransHandle")
ensures [parent] let(h, dyn(result, "*intrinsicobjectscri.TransHandle"), !h.isInvalid && forall(k, 0, 32, h.transactionId[k] == txo.parentTransaction.intrinsic.TxId[k]))

func (*TxoHandle).ParentTrans
prop C17
ensures [type] typeis(result, "*intrinsicobjectscri.TransHandle")
ensures [parent] let(h, dyn(result, "*intrinsicobjectscri.TransHandle"), !h.isInvalid && forall(k, 0, 32, h.transactionId[k] == th.txId[k]))

func (*TxiHandle).ParentTrans
prop C17
ensures [type] typeis(result, "*intrinsicobjectscri.TransHandle")
ensures [parent] let(h, dyn(result, "*intrinsicobjectscri.TransHandle"), !h.isInvalid && forall(k, 0, 32, h.transactionId[k] == th.txId[k]))

func (*Txo).Satoshis
prop C17
ensures err == nil && result0 == txo.intrinsicCopy.Value

def oktx(t, s) = 0 <= t.TxisCount && t.TxisCount < 4294967296 && 0 <= t.TxosCount && t.TxosCount < 4294967296 && 0 <= t.TxisStart && t.TxisStart + t.TxisCount <= len(s.Txis) && 0 <= t.TxosStart && t.TxosStart + t.TxosCount <= len(s.Txos)

func NewBlock
prop C17
fresh result0
requires intrinsic.Storage != nil && forall(i, 0, len(intrinsic.Transactions), oktx(intrinsic.Transactions[i], intrinsic.Storage))
let n = len(intrinsic.Transactions)
let txs = intrinsic.Transactions
loop 1
inv [range] iter <= n && len(result.transactions) == n
inv [step] imp(iter < n, oktx(intrinsic.Transactions[iter], intrinsic.Storage))
inv [map] forall(i, 0, iter, mapdom(result.txidMap, keyof(txs[i].TxId, 32)) && i <= mapval(result.txidMap, keyof(txs[i].TxId, 32)))
inv [value] forall(k, imp(mapdom(result.txidMap, k), 0 <= mapval(result.txidMap, k) && mapval(result.txidMap, k) < iter && keyof(txs[mapval(result.txidMap, k)].TxId, 32) == k))
inv [trans] forall(i, 0, iter, result.transactions[i].parentIndex == i && sameobj(result.transactions[i].parentBlock, &result) && len(result.transactions[i].puddingShedTxis) == ite(i == 0, 0, txs[i].TxisCount) && len(result.transactions[i].txos) == txs[i].TxosCount && sameobj(result.transactions[i].intrinsic, &txs[i]))
ensures [ok] err == nil && result0 != nil && sameobj(result0.intrinsic, intrinsic) && result0.blockHeight == blockHeight && result0.medianTime == mediantime
ensures [trans] len(result0.transactions) == n && forall(i, 0, n, result0.transactions[i].parentIndex == i && sameobj(result0.transactions[i].parentBlock, result0) && len(result0.transactions[i].puddingShedTxis) == ite(i == 0, 0, txs[i].TxisCount) && len(result0.transactions[i].txos) == txs[i].TxosCount && sameobj(result0.transactions[i].intrinsic, &txs[i]))
ensures [map] forall(i, 0, n, mapdom(result0.txidMap, keyof(txs[i].TxId, 32)) && i <= mapval(result0.txidMap, keyof(txs[i].TxId, 32)))
ensures [value] forall(k, imp(mapdom(result0.txidMap, k), 0 <= mapval(result0.txidMap, k) && mapval(result0.txidMap, k) < n && keyof(txs[mapval(result0.txidMap, k)].TxId, 32) == k))
ensures [ints] mapval(result0.neisMap, strkey("time")) == intrinsic.Time && mapval(result0.neisMap, strkey("mediantime")) == mediantime && mapval(result0.neisMap, strkey("size")) == intrinsic.Size && mapval(result0.neisMap, strkey("strippedsize")) == intrinsic.StrippedSize && mapval(result0.neisMap, strkey("weight")) == intrinsic.Weight

func (*OneBlockHolder).PostIntrinsicGatherTransHashes
prop C17
nilable obh.transactionIndexer
requires -1 <= obh.latestTransactionVisited && obh.latestTransactionVisited < 4611686018427387904
let id = ifid(obh.transactionIndexer)
let next = obh.latestTransactionVisited + 1
requires forall(i, 0, len(block.transactions), block.transactions[i] != nil && block.transactions[i].intrinsic != nil)
requires [synced] ghost("par", ifid(obh.transactionIndexer)) == obh.latestTransactionVisited + 1 && ghost("txs", ifid(obh.transactionIndexer)) == obh.latestTransactionVisited + 1
requires [expected] gfst(block.blockHeight) == obh.latestTransactionVisited + 1 && forall(i, 0, len(block.transactions), gtxid(obh.latestTransactionVisited + 1 + i) == keyof(block.transactions[i].intrinsic.TxId, 32) && gpar(obh.latestTransactionVisited + 1 + i) == block.blockHeight)
modifies obh.latestTransactionVisited, ghost("fst", ifid(obh.transactionIndexer)), ghost("par", ifid(obh.transactionIndexer)), ghost("txs", ifid(obh.transactionIndexer))
loop 1
inv [range] iter <= len(block.transactions)
inv [step] imp(iter < len(block.transactions), block.transactions[iter] != nil && block.transactions[iter].intrinsic != nil && gtxid(next + iter) == keyof(block.transactions[iter].intrinsic.TxId, 32) && gpar(next + iter) == block.blockHeight)
inv [count] (transHeight == next + iter - 1 || transHeight == next - 1) && ghost("par", id) == next + iter && ghost("txs", id) == next + iter && ghost("fst", id) == old(ghost("fst", id)) + 1
ensures [none] imp(obh.transactionIndexer == nil, err == nil && obh.latestTransactionVisited == next - 1)
ensures [all] imp(obh.transactionIndexer != nil && err == nil, obh.latestTransactionVisited == next - 1 + len(block.transactions) && ghost("par", id) == next + len(block.transactions) && ghost("txs", id) == next + len(block.transactions) && ghost("fst", id) == old(ghost("fst", id)) + 1)

func (*OneBlockHolder).TransInterface
prop C17
dyntype handle *intrinsicobjectscri.TransHandle
requires ifid(handle) != 0 && obh.currentBlock != nil && obh.currentBlock.txidMap != nil
let k = keyof(dyn(handle, "*intrinsicobjectscri.TransHandle").transactionId, 32)
requires forall(k, imp(mapdom(obh.currentBlock.txidMap, k), 0 <= mapval(obh.currentBlock.txidMap, k) && mapval(obh.currentBlock.txidMap, k) < len(obh.currentBlock.transactions)))
ensures [found] (err == nil) == mapdom(obh.currentBlock.txidMap, k)
ensures [trans] imp(err == nil, typeis(result0, "*intrinsicobjectscri.Transaction") && sameobj(dyn(result0, "*intrinsicobjectscri.Transaction"), obh.currentBlock.transactions[mapval(obh.currentBlock.txidMap, k)]))

func (*OneBlockHolder).TxiInterface
prop C17
dyntype handle *intrinsicobjectscri.TxiHandle
requires ifid(handle) != 0 && obh.currentBlock != nil && obh.currentBlock.txidMap != nil
let k = keyof(dyn(handle, "*intrinsicobjectscri.TxiHandle").txId, 32)
let v = dyn(handle, "*intrinsicobjectscri.TxiHandle").vIndex
requires forall(k, imp(mapdom(obh.currentBlock.txidMap, k), 0 <= mapval(obh.currentBlock.txidMap, k) && mapval(obh.currentBlock.txidMap, k) < len(obh.currentBlock.transactions) && obh.currentBlock.transactions[mapval(obh.currentBlock.txidMap, k)] != nil && 0 <= dyn(handle, "*intrinsicobjectscri.TxiHandle").vIndex && dyn(handle, "*intrinsicobjectscri.TxiHandle").vIndex < len(obh.currentBlock.transactions[mapval(obh.currentBlock.txidMap, k)].puddingShedTxis)))
ensures [found] (err == nil) == mapdom(obh.currentBlock.txidMap, k)
ensures [txi] imp(err == nil, typeis(result0, "*intrinsicobjectscri.Txi") && let(x, dyn(result0, "*intrinsicobjectscri.Txi"), let(y, obh.currentBlock.transactions[mapval(obh.currentBlock.txidMap, k)].puddingShedTxis[v], x.parentIndex == y.parentIndex && x.intrinsicCopy.VOut == y.intrinsicCopy.VOut)))

func (*OneBlockHolder).TxoInterface
prop C17
dyntype handle *intrinsicobjectscri.TxoHandle
requires ifid(handle) != 0 && obh.currentBlock != nil && obh.currentBlock.txidMap != nil
let k = keyof(dyn(handle, "*intrinsicobjectscri.TxoHandle").txId, 32)
let v = dyn(handle, "*intrinsicobjectscri.TxoHandle").vIndex
requires forall(k, imp(mapdom(obh.currentBlock.txidMap, k), 0 <= mapval(obh.currentBlock.txidMap, k) && mapval(obh.currentBlock.txidMap, k) < len(obh.currentBlock.transactions) && obh.currentBlock.transactions[mapval(obh.currentBlock.txidMap, k)] != nil && 0 <= dyn(handle, "*intrinsicobjectscri.TxoHandle").vIndex && dyn(handle, "*intrinsicobjectscri.TxoHandle").vIndex < len(obh.currentBlock.transactions[mapval(obh.currentBlock.txidMap, k)].txos)))
ensures [found] (err == nil) == mapdom(obh.currentBlock.txidMap, k)
ensures [txo] imp(err == nil, typeis(result0, "*intrinsicobjectscri.Txo") && let(x, dyn(result0, "*intrinsicobjectscri.Txo"), let(y, obh.currentBlock.transactions[mapval(obh.currentBlock.txidMap, k)].txos[v], x.parentIndex == y.parentIndex && x.intrinsicCopy.Value == y.intrinsicCopy.Value)))

func (*OneBlockHolder).NextBlock
prop C17
maypanic
dyntype bh *intrinsicobjectscri.Block
nilable obh.transactionIndexer
requires ifid(bh) != 0 && dyn(bh, "*intrinsicobjectscri.Block").intrinsic != nil
requires obh.currentBlock != nil && obh.currentBlock.intrinsic != nil && len(obh.timestampsForMedian) <= 11
requires 0 <= obh.currentBlockHeight && obh.currentBlockHeight < 4611686018427387904 && obh.currentBlock.blockHeight == obh.currentBlockHeight
requires -1 <= obh.latestTransactionVisited && obh.latestTransactionVisited < 4611686018427387904
requires [synced] ghost("par", ifid(obh.transactionIndexer)) == obh.latestTransactionVisited + 1 && ghost("txs", ifid(obh.transactionIndexer)) == obh.latestTransactionVisited + 1
recv imp(msg != nil, gfst(old(obh.currentBlock.blockHeight) + 1) == old(obh.latestTransactionVisited) + 1 && forall(i, 0, len(msg.Transactions), gtxid(old(obh.latestTransactionVisited) + 1 + i) == keyof(msg.Transactions[i].TxId, 32) && gpar(old(obh.latestTransactionVisited) + 1 + i) == old(obh.currentBlock.blockHeight) + 1))
recv imp(msg != nil, msg.Storage != nil && forall(i, 0, len(msg.Transactions), oktx(msg.Transactions[i], msg.Storage)))
modifies obh.currentBlock, obh.currentBlockHeight, obh.timestampsForMedian, obh.latestTransactionVisited, ghost("fst", ifid(obh.transactionIndexer)), ghost("par", ifid(obh.transactionIndexer)), ghost("txs", ifid(obh.transactionIndexer))
let b0 = obh.currentBlock
let h0 = obh.currentBlockHeight
let id = ifid(obh.transactionIndexer)
let l0 = obh.latestTransactionVisited
ensures [type] imp(err == nil, typeis(result0, "*intrinsicobjectscri.Block") || typeis(result0, "*intrinsicobjectscri.BlockHandle") && dyn(result0, "*intrinsicobjectscri.BlockHandle").isInvalid && sameobj(obh.currentBlock, b0))
ensures [next] imp(err == nil && typeis(result0, "*intrinsicobjectscri.Block"), sameobj(dyn(result0, "*intrinsicobjectscri.Block"), obh.currentBlock) && obh.currentBlockHeight == h0 + 1 && obh.currentBlock.blockHeight == h0 + 1 && keyof(obh.currentBlock.intrinsic.PrevHash, 32) == keyof(old(obh.currentBlock.intrinsic.BlockHash), 32))
ensures [median] imp(err == nil && typeis(result0, "*intrinsicobjectscri.Block"), cle(obh.timestampsForMedian, obh.currentBlock.medianTime) > len(obh.timestampsForMedian) / 2 && cle(obh.timestampsForMedian, obh.currentBlock.medianTime - 1) <= len(obh.timestampsForMedian) / 2)
ensures [indexed] imp(err == nil && obh.transactionIndexer != nil && typeis(result0, "*intrinsicobjectscri.Block"), obh.latestTransactionVisited == l0 + len(obh.currentBlock.transactions) && ghost("par", id) == obh.latestTransactionVisited + 1 && ghost("txs", id) == obh.latestTransactionVisited + 1 && ghost("fst", id) == old(ghost("fst", id)) + 1)
