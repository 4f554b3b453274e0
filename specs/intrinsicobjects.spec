package intrinsicobjects
ufun pin(int) int 0 2147483647
ufun pout(int) int 0 2147483647
ufun pwit(int) int 0 2147483647
ufun witem(int, int) int 0 4294967295
ufun cnt(int) int 0 1999999999
ufun cw(int) int 1 9
ufun cv(int) int 0 18446744073709551615
ufun plen(int) int 0 2147483647
ufun ppos(int) int 0 2147483647
ufun sstart(int) int 0 2147483647
def csw(s, o) = ite(s[o] < 253, 1, ite(s[o] == 253, 3, ite(s[o] == 254, 5, 9)))
def csv(s, o) = ite(s[o] < 253, s[o], ite(s[o] == 253, le(s, o + 1, 2), ite(s[o] == 254, le(s, o + 1, 4), le(s, o + 1, 8))))
def sgw(s, b) = s[b+4] == 0 && s[b+5] != 0
def cin(s, b) = b + 4 + ite(sgw(s, b), 2, 0)

func ReadCompactSize
prop C14
requires 0 <= offset && offset < len(data) && offset + csw(data, offset) <= len(data)
ensures [value] result0 == csv(data, offset)
ensures [width] result1 == csw(data, offset)

func /hash.Hash.Reset
trusted

func /hash.Hash.Write
trusted

func /hash.Hash.Sum
trusted
modifies allelems(b)

func ParseBinaryTransaction
prop C14
requires [len] 0 <= byteIndex && byteIndex + 6 < len(bin) && len(bin) < 2000000000
requires [apart] !sameobj(bin, storage.Scripts)
requires [compact] forall(o, 0, len(bin), cw(o) == csw(bin, o) && cv(o) == csv(bin, o))
requires [counts] cnt(0) == cv(cin(bin, byteIndex)) && cnt(1) == cv(pin(cnt(0)))
requires [nin] cin(bin, byteIndex) + cw(cin(bin, byteIndex)) <= len(bin) && pin(0) == cin(bin, byteIndex) + cw(cin(bin, byteIndex))
requires [ins] forall(i, 0, cnt(0), pin(i) + 37 <= len(bin) && pin(i) + 36 + cw(pin(i) + 36) <= len(bin) && cv(pin(i) + 36) < 2147483648 && pin(i+1) == pin(i) + 36 + cw(pin(i) + 36) + cv(pin(i) + 36) + 4 && pin(i+1) < len(bin))
requires [nout] pin(cnt(0)) + cw(pin(cnt(0))) <= len(bin) && pout(0) == pin(cnt(0)) + cw(pin(cnt(0)))
requires [outs] forall(j, 0, cnt(1), cv(pout(j) + 8) < 2147483648 && pout(j) + 9 <= len(bin) && pout(j) + 8 + cw(pout(j) + 8) <= len(bin) && pout(j+1) == ppos(j) + plen(j) && pout(j+1) <= len(bin))
requires [scripts] sstart(0) == len(storage.Scripts) && forall(j, 0, cnt(1), plen(j) == cv(pout(j) + 8) && ppos(j) == pout(j) + 8 + cw(pout(j) + 8) && sstart(j+1) == sstart(j) + plen(j))
requires [wit0] pwit(0) == pout(cnt(1))
requires [wits] imp(sgw(bin, byteIndex), forall(i, 0, cnt(0), pwit(i) < len(bin) && pwit(i) + cw(pwit(i)) <= len(bin) && witem(i, 0) == pwit(i) + cw(pwit(i)) && pwit(i+1) == witem(i, cv(pwit(i))) && pwit(i+1) <= len(bin)))
requires [items] imp(sgw(bin, byteIndex), forall(i, 0, cnt(0), forall(j, 0, cv(pwit(i)), witem(i, j) < len(bin) && witem(i, j) + cw(witem(i, j)) <= len(bin) && witem(i, j+1) == witem(i, j) + cw(witem(i, j)) + cv(witem(i, j)) && witem(i, j+1) <= len(bin))))
requires [end] ite(sgw(bin, byteIndex), pwit(cnt(0)), pwit(0)) + 4 <= len(bin)
requires [small] len(storage.Txis) < 2000000000 && len(storage.Txos) < 2000000000
modifies targetTrans.Version, targetTrans.IsSegWit, targetTrans.TxisStart, targetTrans.TxisCount, targetTrans.TxosStart, targetTrans.TxosCount, targetTrans.TxId, targetTrans.Size, targetTrans.StrippedSize, targetTrans.Weight, targetTrans.VSize, storage.Txis, storage.Txos, storage.Scripts, allelems(storage.Txis), allelems(storage.Txos), allelems(storage.Scripts)
loop 1 pin
inv [n] txiCount == cnt(0)
inv [step] imp(iter < cnt(0), cv(pin(iter) + 36) < 2147483648 && pin(iter) + 36 + cw(pin(iter) + 36) <= len(bin) && pin(iter+1) == pin(iter) + 36 + cw(pin(iter) + 36) + cv(pin(iter) + 36) + 4 && pin(iter+1) < len(bin))
inv [at] 0 <= iter && iter <= cnt(0) && byteIndex == pin(iter)
inv [cs] imp(iter < cnt(0), cw(pin(iter) + 36) == csw(bin, pin(iter) + 36) && cv(pin(iter) + 36) == csv(bin, pin(iter) + 36))
inv [len] len(storage.Txis) == old(len(storage.Txis)) + iter
inv [apart] !sameobj(bin, storage.Scripts)
inv [vout] forall(q, 0, iter, storage.Txis[old(len(storage.Txis)) + q].VOut == le(bin, pin(q) + 32, 4))
inv [earlier] forall(q, 0, old(len(storage.Txis)), storage.Txis[q].VOut == old(storage.Txis[q].VOut))
inv [txid] forall(q, 0, iter, forall(k, imp(0 <= k && k < 32, storage.Txis[old(len(storage.Txis)) + q].TxId[k] == bin[pin(q) + k])))
inv [earlierids] forall(q, 0, old(len(storage.Txis)), forall(k, imp(0 <= k && k < 32, storage.Txis[q].TxId[k] == old(storage.Txis[q].TxId[k]))))
loop 2 pin
inv [n] txoCount == cnt(1)
inv [step] imp(iter < cnt(1), cv(pout(iter) + 8) == plen(iter) && ppos(iter) == pout(iter) + 8 + cw(pout(iter) + 8) && ppos(iter) <= len(bin) && pout(iter+1) == ppos(iter) + plen(iter) && pout(iter+1) <= len(bin) && sstart(iter+1) == sstart(iter) + plen(iter))
inv [at] 0 <= iter && iter <= cnt(1) && byteIndex == pout(iter)
inv [cs] imp(iter < cnt(1), cw(pout(iter) + 8) == csw(bin, pout(iter) + 8) && cv(pout(iter) + 8) == csv(bin, pout(iter) + 8))
inv [len] len(storage.Txos) == old(len(storage.Txos)) + iter && len(storage.Scripts) == sstart(iter)
inv [apart] !sameobj(bin, storage.Scripts)
inv [values] forall(q, 0, iter, let(o, storage.Txos[old(len(storage.Txos)) + q], o.Value == s64(le(bin, pout(q), 8)) && o.ScriptPubKeyStart == sstart(q) && o.ScriptPubKeyLen == plen(q)))
inv [earlier] forall(q, 0, old(len(storage.Txos)), storage.Txos[q].Value == old(storage.Txos[q].Value) && storage.Txos[q].ScriptPubKeyStart == old(storage.Txos[q].ScriptPubKeyStart) && storage.Txos[q].ScriptPubKeyLen == old(storage.Txos[q].ScriptPubKeyLen))
inv [scripts] forall(q, 0, iter, sstart(q) + plen(q) <= len(storage.Scripts) && ppos(q) + plen(q) <= len(bin) && forall(k, 0, plen(q), storage.Scripts[sstart(q) + k] == bin[ppos(q) + k]))
inv [earlierscripts] forall(k, 0, old(len(storage.Scripts)), storage.Scripts[k] == old(storage.Scripts[k]))
loop 3 pin
inv [n] txiCount == cnt(0)
inv [at] 0 <= iter && iter <= cnt(0) && byteIndex == pwit(iter)
inv [cs] imp(iter < cnt(0), cw(pwit(iter)) == csw(bin, pwit(iter)) && cv(pwit(iter)) == csv(bin, pwit(iter)))
loop 4 pin
inv [step] imp(iter < itemCount, witem(i, iter) < len(bin) && witem(i, iter) + cw(witem(i, iter)) <= len(bin) && witem(i, iter+1) == witem(i, iter) + cw(witem(i, iter)) + cv(witem(i, iter)) && witem(i, iter+1) <= len(bin))
inv [at] 0 <= iter && iter <= itemCount && byteIndex == witem(i, iter) && i < cnt(0) && itemCount == cv(pwit(i))
inv [cs] imp(iter < itemCount, cw(witem(i, iter)) == csw(bin, witem(i, iter)) && cv(witem(i, iter)) == csv(bin, witem(i, iter)))
ensures [version] targetTrans.Version == le(bin, byteIndex, 4)
ensures [segwit] targetTrans.IsSegWit == sgw(bin, byteIndex)
ensures [size] result == ite(sgw(bin, byteIndex), pwit(cnt(0)), pout(cnt(1))) + 4 - byteIndex && targetTrans.Size == result
ensures [stripped] targetTrans.StrippedSize == targetTrans.Size - ite(sgw(bin, byteIndex), 2 + pwit(cnt(0)) - pwit(0), 0)
ensures [weight] targetTrans.Weight == 3*targetTrans.StrippedSize + targetTrans.Size && targetTrans.VSize == (targetTrans.Weight + 3) / 4
ensures [counts] targetTrans.TxisCount == cnt(0) && targetTrans.TxosCount == cnt(1) && targetTrans.TxisStart == old(len(storage.Txis)) && targetTrans.TxosStart == old(len(storage.Txos))
ensures [stored] len(storage.Txis) == targetTrans.TxisStart + targetTrans.TxisCount && len(storage.Txos) == targetTrans.TxosStart + targetTrans.TxosCount && len(storage.Scripts) == sstart(cnt(1))
ensures [vout] forall(q, 0, cnt(0), storage.Txis[old(len(storage.Txis)) + q].VOut == le(bin, pin(q) + 32, 4))
ensures [earlier] forall(q, 0, old(len(storage.Txis)), storage.Txis[q].VOut == old(storage.Txis[q].VOut))
ensures [values] forall(q, 0, cnt(1), let(o, storage.Txos[old(len(storage.Txos)) + q], o.Value == s64(le(bin, pout(q), 8)) && o.ScriptPubKeyStart == sstart(q) && o.ScriptPubKeyLen == plen(q)))
ensures [earlierouts] forall(q, 0, old(len(storage.Txos)), storage.Txos[q].Value == old(storage.Txos[q].Value) && storage.Txos[q].ScriptPubKeyStart == old(storage.Txos[q].ScriptPubKeyStart) && storage.Txos[q].ScriptPubKeyLen == old(storage.Txos[q].ScriptPubKeyLen))
ensures [scripts] forall(q, 0, cnt(1), forall(k, 0, plen(q), storage.Scripts[sstart(q) + k] == bin[ppos(q) + k]))
ensures [earlierscripts] forall(k, 0, old(len(storage.Scripts)), storage.Scripts[k] == old(storage.Scripts[k]))
ensures [txid] forall(q, 0, cnt(0), forall(k, imp(0 <= k && k < 32, storage.Txis[old(len(storage.Txis)) + q].TxId[k] == bin[pin(q) + k])))
ensures [earlierids] forall(q, 0, old(len(storage.Txis)), forall(k, imp(0 <= k && k < 32, storage.Txis[q].TxId[k] == old(storage.Txis[q].TxId[k]))))

func NewMultiTransactionStorage
prop C14
fresh result
ensures [empty] len(result.Txis) == 0 && len(result.Txos) == 0 && len(result.Scripts) == 0

func (*MultiTransactionStorage).Reset
prop C14
modifies s.Txis, s.Txos, s.Scripts
ensures [empty] len(s.Txis) == 0 && len(s.Txos) == 0 && len(s.Scripts) == 0

func (*Transaction).TxiCount
prop C14
ensures result == t.TxisCount

func (*Transaction).TxoCount
prop C14
ensures result == t.TxosCount

func (*Transaction).GetTxi
prop C14
requires 0 <= index && 0 <= t.TxisStart && t.TxisStart + index < len(storage.Txis)
ensures [vout] result.VOut == storage.Txis[t.TxisStart + index].VOut
ensures [txid] forall(k, imp(0 <= k && k < 32, result.TxId[k] == storage.Txis[t.TxisStart + index].TxId[k]))

func (*Transaction).GetTxo
prop C14
requires 0 <= index && 0 <= t.TxosStart && t.TxosStart + index < len(storage.Txos)
ensures [entry] let(o, storage.Txos[t.TxosStart + index], result.Value == o.Value && result.ScriptPubKeyStart == o.ScriptPubKeyStart && result.ScriptPubKeyLen == o.ScriptPubKeyLen)

ufun sat(int) int 0 2100000000000000
ufun sst(int) int 0 2147483647

func /encoding/hex.DecodeString
trusted
fresh result0
ensures [len] imp(result1 == nil, 2*len(result0) == len(s))
ensures [bytes] imp(result1 == nil, forall(k, 0, len(result0), result0[k] == nib(s[2*k])*16 + nib(s[2*k+1])))

func parseJsonTransaction
prop C15
requires [table] forall(k, 0, 65536, indexedhashes.hexLookup[k] == nib(k / 256) * 16 + nib(k % 256))
requires [sizes] len(parsed.J_vin) < 2000000000 && len(parsed.J_vout) < 2000000000 && len(storage.Txis) < 2000000000 && len(storage.Txos) < 2000000000
requires [amounts] forall(j, 0, len(parsed.J_vout), (parsed.J_vout[j].J_value * real(100000000) - real(sat(j))) * real(9007199254740992) <= real(sat(j)) && (real(sat(j)) - parsed.J_vout[j].J_value * real(100000000)) * real(9007199254740992) <= real(sat(j)))
requires [scripts] sst(0) == len(storage.Scripts) && forall(j, 0, len(parsed.J_vout), 2*(sst(j+1) - sst(j)) == len(parsed.J_vout[j].J_scriptPubKey.J_hex))
modifies targetTrans.Version, targetTrans.IsSegWit, targetTrans.TxisStart, targetTrans.TxisCount, targetTrans.TxosStart, targetTrans.TxosCount, targetTrans.TxId, targetTrans.Size, targetTrans.StrippedSize, targetTrans.Weight, targetTrans.VSize, storage.Txis, storage.Txos, storage.Scripts, allelems(storage.Txis), allelems(storage.Txos), allelems(storage.Scripts)
loop 1
inv [len] 0 <= iter && iter <= txiCount && len(storage.Txis) == old(len(storage.Txis)) + iter
inv [vout] forall(q, 0, iter, storage.Txis[old(len(storage.Txis)) + q].VOut == parsed.J_vin[q].J_vout)
inv [earlier] forall(q, 0, old(len(storage.Txis)), storage.Txis[q].VOut == old(storage.Txis[q].VOut))
loop 2
inv [len] 0 <= iter && iter <= txoCount && len(storage.Txos) == old(len(storage.Txos)) + iter && len(storage.Scripts) == sst(iter)
inv [values] forall(q, 0, iter, let(o, storage.Txos[old(len(storage.Txos)) + q], o.Value == sat(q) && o.ScriptPubKeyStart == sst(q) && o.ScriptPubKeyLen == sst(q+1) - sst(q)))
ensures [counts] imp(result == nil, targetTrans.TxisCount == len(parsed.J_vin) && targetTrans.TxosCount == len(parsed.J_vout) && targetTrans.TxisStart == old(len(storage.Txis)) && targetTrans.TxosStart == old(len(storage.Txos)))
ensures [stored] imp(result == nil, len(storage.Txis) == targetTrans.TxisStart + targetTrans.TxisCount && len(storage.Txos) == targetTrans.TxosStart + targetTrans.TxosCount)
ensures [vout] imp(result == nil, forall(q, 0, len(parsed.J_vin), storage.Txis[old(len(storage.Txis)) + q].VOut == parsed.J_vin[q].J_vout))
ensures [values] imp(result == nil, forall(q, 0, len(parsed.J_vout), let(o, storage.Txos[old(len(storage.Txos)) + q], o.Value == sat(q) && o.ScriptPubKeyStart == sst(q) && o.ScriptPubKeyLen == sst(q+1) - sst(q))))
ensures [txid] imp(result == nil, len(parsed.J_txid) == 64 && forall(k, 0, 32, targetTrans.TxId[k] == nib(parsed.J_txid[62 - 2*k])*16 + nib(parsed.J_txid[63 - 2*k])))
ensures [sizes] imp(result == nil, targetTrans.Size == parsed.J_size && targetTrans.Weight == parsed.J_weight && targetTrans.VSize == parsed.J_vsize && iff(targetTrans.IsSegWit, parsed.J_vsize < parsed.J_size))
ensures [stripped] imp(result == nil && 0 < parsed.J_size && 3 <= parsed.J_weight - parsed.J_size && parsed.J_weight < 1000000000, targetTrans.StrippedSize == (parsed.J_weight - parsed.J_size) / 3)
