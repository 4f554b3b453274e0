package weddingcakeback
ufun cs(int) int 0 4294967295
ufun bs(int) int 0 4294967295
ufun ro(int) int 0 4294967295
def dnrows(dfls) = le(dfls.IndexBytes, 0, 2)
def drcount(dfls, w, f) = leidb(dfls.IndexBytes, ro(f), w)
def drspec(dfls, w, f) = le(dfls.IndexBytes, ro(f) + w, 4)
def bit8(b, i) = ite(i == 0, b % 2, ite(i == 1, b/2 % 2, ite(i == 2, b/4 % 2, ite(i == 3, b/8 % 2, ite(i == 4, b/16 % 2, ite(i == 5, b/32 % 2, ite(i == 6, b/64 % 2, b/128)))))))
def flag(n, e) = bit8(n[2 + e/8], e % 8)
def blk(n, k) = le(n, 2 + 8*k, 8)
def disfull(dfn, c) = dfn.formatSpecBytes == 2 + 256*idwb(ifid(*c))
def before(n, e) = ite(e/64 == 0, 0, ones(blk(n,0))) + ite(e/64 <= 1, 0, ones(blk(n,1))) + ite(e/64 <= 2, 0, ones(blk(n,2))) + ones(blk(n, e/64) % pow2(e % 64))

func (*DonutForestLevelSlices).ExtractNode
prop C06
let w = idwb(ifid(*nodeIdConfig))
requires nodeId >= 1 && len(dfls.IndexBytes) >= 2 && len(dfls.IndexBytes) < 4294967296 && len(dfls.NodesBytes) < 4294967296
requires [rows] ro(0) == 2 && forall(f, 0, dnrows(dfls), ro(f+1) == ro(f) + idwb(ifid(*nodeIdConfig)) + 4 && ro(f+1) <= len(dfls.IndexBytes))
requires [sums] cs(0) == 0 && forall(f, 0, dnrows(dfls), cs(f+1) == cs(f) + drcount(dfls, idwb(ifid(*nodeIdConfig)), f) && cs(f+1) <= cs(dnrows(dfls)))
requires [bytes] bs(0) == 0 && forall(f, 0, dnrows(dfls), bs(f+1) == bs(f) + drcount(dfls, idwb(ifid(*nodeIdConfig)), f) * (drspec(dfls, idwb(ifid(*nodeIdConfig)), f) % 65536) && bs(f+1) <= bs(dnrows(dfls)))
requires [fits] bs(dnrows(dfls)) <= len(dfls.NodesBytes) && cs(dnrows(dfls)) < 4294967295
modifies target.formatSpecBytes, target.nodeBytes
loop 1
inv [at] iter <= formatSpecCount && byteCount == ro(iter) && currentSpecNodeId == 1 + cs(iter) && currentSpecNodeByteOffset == bs(iter)
inv [past] nodeId > cs(iter)
ensures [found] iff(result, nodeId <= cs(dnrows(dfls)))
ensures [node] imp(result, exists(f, 0, dnrows(dfls), cs(f) < nodeId && nodeId <= cs(f+1) && target.formatSpecBytes == drspec(dfls, w, f) && len(target.nodeBytes) == drspec(dfls, w, f) % 65536 && sameobj(target.nodeBytes, dfls.NodesBytes) && forall(k, 0, len(target.nodeBytes), target.nodeBytes[k] == dfls.NodesBytes[bs(f) + (nodeId - 1 - cs(f))*(drspec(dfls, w, f) % 65536) + k])))

func (*donutForestNode).detailsIfLeaf
prop C06
let w = idwb(ifid(*hashIndexIdConfig))
requires imp(dfn.formatSpecBytes == reassuranceBytesCount + idwb(ifid(*hashIndexIdConfig)), len(dfn.nodeBytes) == dfn.formatSpecBytes)
ensures [leaf] result0 == (dfn.formatSpecBytes == reassuranceBytesCount + w)
ensures [bytes] imp(result0, len(result1) == reassuranceBytesCount && forall(k, 0, len(result1), result1[k] == dfn.nodeBytes[k]))
ensures [id] imp(result0, result2 == leidb(dfn.nodeBytes, reassuranceBytesCount, w))

func (*donutForestNode).hashByteIndexToExamine
prop C06
let w = idwb(ifid(*nodeIdConfig))
let full = dfn.formatSpecBytes == 2 + 256*w
let medium = dfn.formatSpecBytes / 65536 % 256
let tiny = dfn.formatSpecBytes / 16777216
requires len(dfn.nodeBytes) >= 2
panics_if full && dfn.nodeBytes[0] != 170 || !full && medium > 0 && dfn.nodeBytes[0] != 85 || !full && medium == 0 && tiny == 0
ensures [full] imp(full, result0 == dfn.nodeBytes[1] && result1 == 0 && result2 == 0)
ensures [medium] imp(!full && medium > 0, result0 == dfn.nodeBytes[1] && result1 == medium && result2 == 0)
ensures [tiny] imp(!full && medium == 0, result0 == dfn.nodeBytes[0] && result1 == 0 && result2 == tiny)

func (*donutForestNode).nextLevelNodeId
prop C06
let w = idwb(ifid(*nodeIdConfig))
let full = dfn.formatSpecBytes == 2 + 256*idwb(ifid(*nodeIdConfig))
requires imp(disfull(dfn, nodeIdConfig), len(dfn.nodeBytes) == 2 + 256*idwb(ifid(*nodeIdConfig)))
requires imp(!disfull(dfn, nodeIdConfig) && mediumSlots > 0, len(dfn.nodeBytes) == 34 + mediumSlots*idwb(ifid(*nodeIdConfig)) && imp(flag(dfn.nodeBytes, examinedByte) == 1, before(dfn.nodeBytes, examinedByte) < mediumSlots))
requires imp(!disfull(dfn, nodeIdConfig) && mediumSlots == 0, len(dfn.nodeBytes) == 1 + tinySlots*(1+idwb(ifid(*nodeIdConfig))))
panics_if !full && mediumSlots == 0 && tinySlots == 0
loop 1
inv [at] iter <= tinySlots
inv [off] offset == 1 + iter*(1+w)
inv [none] forall(s, 0, iter, dfn.nodeBytes[1 + s*(1+w)] != examinedByte)
ensures [full] imp(full, result == leidb(dfn.nodeBytes, 2 + examinedByte*w, w))
ensures [empty] imp(!full && mediumSlots > 0 && flag(dfn.nodeBytes, examinedByte) == 0, result == 0)
ensures [medium] imp(!full && mediumSlots > 0 && flag(dfn.nodeBytes, examinedByte) == 1, result == leidb(dfn.nodeBytes, 34 + before(dfn.nodeBytes, examinedByte)*w, w))
ensures [tiny] imp(!full && mediumSlots == 0, result == 0 && forall(s, 0, tinySlots, dfn.nodeBytes[1 + s*(1+w)] != examinedByte) || exists(s, 0, tinySlots, dfn.nodeBytes[1 + s*(1+w)] == examinedByte && forall(r, 0, s, dfn.nodeBytes[1 + r*(1+w)] != examinedByte) && result == leidb(dfn.nodeBytes, 2 + s*(1+w), w)))

func (*donutForestNode).getAllNextLevelNodeIds
prop C06
let w = idwb(ifid(*nodeIdConfig))
let full = dfn.formatSpecBytes == 2 + 256*idwb(ifid(*nodeIdConfig))
def fid1(n, w, e) = leidb(n, 2 + e*w, w)
def mid1(n, w, e) = leidb(n, 34 + e*w, w)
def tid1(n, w, e) = leidb(n, 2 + e*(1+w), w)
def total(n) = ones(blk(n,0)) + ones(blk(n,1)) + ones(blk(n,2)) + ones(blk(n,3))
requires imp(disfull(dfn, nodeIdConfig), len(dfn.nodeBytes) == 2 + 256*idwb(ifid(*nodeIdConfig)))
requires imp(!disfull(dfn, nodeIdConfig) && mediumSlots > 0, len(dfn.nodeBytes) == 34 + mediumSlots*idwb(ifid(*nodeIdConfig)) && total(dfn.nodeBytes) <= mediumSlots)
requires imp(!disfull(dfn, nodeIdConfig) && mediumSlots == 0, len(dfn.nodeBytes) == 1 + tinySlots*(1+idwb(ifid(*nodeIdConfig))))
panics_if !full && mediumSlots == 0 && tinySlots == 0
loop 1
inv [at] 0 <= iter && iter < 256 && len(result) <= iter
inv [sound] forall(j, 0, len(result), result[j] != 0 && exists(e, 0, iter, result[j] == fid1(dfn.nodeBytes, w, e)))
inv [all] forall(e, 0, iter, imp(fid1(dfn.nodeBytes, w, e) != 0, exists(j, 0, len(result), result[j] == fid1(dfn.nodeBytes, w, e))))
loop 2
inv [at] 0 <= iter && iter <= activeCount && len(result) <= iter
inv [sound] forall(j, 0, len(result), result[j] != 0 && exists(e, 0, iter, result[j] == mid1(dfn.nodeBytes, w, e)))
inv [all] forall(e, 0, iter, imp(mid1(dfn.nodeBytes, w, e) != 0, exists(j, 0, len(result), result[j] == mid1(dfn.nodeBytes, w, e))))
loop 3
inv [at] 0 <= iter && iter <= tinySlots && len(result) <= iter
inv [off] offset == 1 + iter*(1+w)
inv [sound] forall(j, 0, len(result), result[j] != 0 && exists(e, 0, iter, result[j] == tid1(dfn.nodeBytes, w, e)))
inv [all] forall(e, 0, iter, imp(tid1(dfn.nodeBytes, w, e) != 0, exists(j, 0, len(result), result[j] == tid1(dfn.nodeBytes, w, e))))
ensures [full] imp(full, forall(j, 0, len(result), result[j] != 0 && exists(e, 0, 256, result[j] == fid1(dfn.nodeBytes, w, e))) && forall(e, 0, 256, imp(fid1(dfn.nodeBytes, w, e) != 0, exists(j, 0, len(result), result[j] == fid1(dfn.nodeBytes, w, e)))))
ensures [medium] imp(!full && mediumSlots > 0, forall(j, 0, len(result), result[j] != 0 && exists(e, 0, total(dfn.nodeBytes), result[j] == mid1(dfn.nodeBytes, w, e))) && forall(e, 0, total(dfn.nodeBytes), imp(mid1(dfn.nodeBytes, w, e) != 0, exists(j, 0, len(result), result[j] == mid1(dfn.nodeBytes, w, e)))))
ensures [tiny] imp(!full && mediumSlots == 0, forall(j, 0, len(result), result[j] != 0 && exists(e, 0, tinySlots, result[j] == tid1(dfn.nodeBytes, w, e))) && forall(e, 0, tinySlots, imp(tid1(dfn.nodeBytes, w, e) != 0, exists(j, 0, len(result), result[j] == tid1(dfn.nodeBytes, w, e)))))

func (*BakingDesign).InitializeNodeIdAllocations
prop C08
def okg(g) = 0 <= g.StartSlotsCount && g.StartSlotsCount < g.EndSlotsCount && g.EndSlotsCount <= 257 && g.NodesCount <= 1000000
def lva(l, n) = imp(n > 0, l.NodeIdAllocations[0].NextAvailableNodeId == 1) && forall(g, 0, n, l.NodeIdAllocations[g].AvailableNodeIds == l.Groups[g].NodesCount) && forall(g, 0, n - 1, l.NodeIdAllocations[g+1].NextAvailableNodeId == l.NodeIdAllocations[g].NextAvailableNodeId + l.Groups[g].NodesCount)
def lvg(l) = forall(g, 0, len(l.Groups), okg(l.Groups[g]))
def lvd(l) = forall(g, 0, len(l.Groups), forall(h, 0, len(l.Groups), imp(g != h, l.Groups[g].EndSlotsCount <= l.Groups[h].StartSlotsCount || l.Groups[h].EndSlotsCount <= l.Groups[g].StartSlotsCount)))
def lvs(l, n) = forall(g, 0, n, forall(a, l.Groups[g].StartSlotsCount, l.Groups[g].EndSlotsCount, l.SlotCountToGroup[a] == g))
requires forall(l, 0, len(bd.LevelSpecs), len(bd.LevelSpecs[l].Groups) <= 256)
requires [groups] forall(l, 0, len(bd.LevelSpecs), forall(g, 0, len(bd.LevelSpecs[l].Groups), okg(bd.LevelSpecs[l].Groups[g])))
requires [apart] forall(l, 0, len(bd.LevelSpecs), forall(g, 0, len(bd.LevelSpecs[l].Groups), forall(h, 0, len(bd.LevelSpecs[l].Groups), imp(g != h, bd.LevelSpecs[l].Groups[g].EndSlotsCount <= bd.LevelSpecs[l].Groups[h].StartSlotsCount || bd.LevelSpecs[l].Groups[h].EndSlotsCount <= bd.LevelSpecs[l].Groups[g].StartSlotsCount))))
modifies elems(bd.LevelSpecs)
loop 1
inv [groups] forall(l, 0, len(bd.LevelSpecs), sameslice(bd.LevelSpecs[l].Groups, old(bd.LevelSpecs[l].Groups)))
inv [live] forall(l, 0, iter, live(bd.LevelSpecs[l].NodeIdAllocations))
inv [ids] forall(l, 0, iter, len(bd.LevelSpecs[l].NodeIdAllocations) == len(bd.LevelSpecs[l].Groups) && lva(bd.LevelSpecs[l], len(bd.LevelSpecs[l].Groups)))
inv [slots] forall(l, 0, iter, lvs(bd.LevelSpecs[l], len(bd.LevelSpecs[l].Groups)))
ensures [ids] forall(l, 0, len(bd.LevelSpecs), len(bd.LevelSpecs[l].NodeIdAllocations) == len(bd.LevelSpecs[l].Groups) && lva(bd.LevelSpecs[l], len(bd.LevelSpecs[l].Groups)))
ensures [slots] forall(l, 0, len(bd.LevelSpecs), lvs(bd.LevelSpecs[l], len(bd.LevelSpecs[l].Groups)))
loop 2
inv [groups] forall(l, 0, len(bd.LevelSpecs), sameslice(bd.LevelSpecs[l].Groups, old(bd.LevelSpecs[l].Groups)))
inv [idsl] forall(l, 0, level, len(bd.LevelSpecs[l].NodeIdAllocations) == len(bd.LevelSpecs[l].Groups) && lva(bd.LevelSpecs[l], len(bd.LevelSpecs[l].Groups)))
inv [slotsl] forall(l, 0, level, lvs(bd.LevelSpecs[l], len(bd.LevelSpecs[l].Groups)))
inv [live] forall(l, 0, level, live(bd.LevelSpecs[l].NodeIdAllocations))
inv [ok] lvg(bd.LevelSpecs[level])
inv [apart] lvd(bd.LevelSpecs[level])
inv [len] len(bd.LevelSpecs[level].NodeIdAllocations) == len(bd.LevelSpecs[level].Groups) && iter <= len(bd.LevelSpecs[level].Groups)
inv [fit] 1 <= nodeId && nodeId <= 1 + 1000000 * iter
inv [next] imp(iter == 0, nodeId == 1) && imp(iter > 0, nodeId == bd.LevelSpecs[level].NodeIdAllocations[iter-1].NextAvailableNodeId + bd.LevelSpecs[level].Groups[iter-1].NodesCount)
inv [ids] lva(bd.LevelSpecs[level], iter)
inv [slots] lvs(bd.LevelSpecs[level], iter)
loop 3
inv [groups] forall(l, 0, len(bd.LevelSpecs), sameslice(bd.LevelSpecs[l].Groups, old(bd.LevelSpecs[l].Groups)))
inv [idsl] forall(l, 0, level, len(bd.LevelSpecs[l].NodeIdAllocations) == len(bd.LevelSpecs[l].Groups) && lva(bd.LevelSpecs[l], len(bd.LevelSpecs[l].Groups)))
inv [slotsl] forall(l, 0, level, lvs(bd.LevelSpecs[l], len(bd.LevelSpecs[l].Groups)))
inv [live] forall(l, 0, level, live(bd.LevelSpecs[l].NodeIdAllocations))
inv [ok] lvg(bd.LevelSpecs[level])
inv [apart] lvd(bd.LevelSpecs[level])
inv [len] len(bd.LevelSpecs[level].NodeIdAllocations) == len(bd.LevelSpecs[level].Groups)
inv [ids] lva(bd.LevelSpecs[level], group)
inv [this] bd.LevelSpecs[level].NodeIdAllocations[group].NextAvailableNodeId == nodeId && bd.LevelSpecs[level].NodeIdAllocations[group].AvailableNodeIds == bd.LevelSpecs[level].Groups[group].NodesCount
inv [prev] imp(group > 0, nodeId == bd.LevelSpecs[level].NodeIdAllocations[group-1].NextAvailableNodeId + bd.LevelSpecs[level].Groups[group-1].NodesCount)
inv [first] imp(group == 0, nodeId == 1)
inv [slots] lvs(bd.LevelSpecs[level], group)
inv [now] forall(a, bd.LevelSpecs[level].Groups[group].StartSlotsCount, bd.LevelSpecs[level].Groups[group].StartSlotsCount + iter, bd.LevelSpecs[level].SlotCountToGroup[a] == group)

ufun nti(int) int 0 3
ufun rank(int) int 0 256
def two8(i) = ite(i == 0, 1, ite(i == 1, 2, ite(i == 2, 4, ite(i == 3, 8, ite(i == 4, 16, ite(i == 5, 32, ite(i == 6, 64, 128)))))))
def tbc(d) = d.Config.TierBelowConfigs[nti(ifid(d.SourceTier))]
def kid(sn, m, j) = ite(sn.Slots[j].NextNode == nil, 0, mapval(m, sn.Slots[j].NextNode))

func BakingSourceTier.GetNextTierIndex
trusted
ensures [tier] result == nti(ifid(recv))

func github.com/KitchenMishap/pudding-shed/weddingcakeback.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcakeback.NodeIdType].WriteID
trusted
requires [len] len(b) >= idwb(ifid(recv))
modifies elems(b)
ensures [value] leidb(b, 0, idwb(ifid(recv))) == id
ensures [others] forall(k, idwb(ifid(recv)), len(b), b[k] == old(b[k]))

func github.com/KitchenMishap/pudding-shed/weddingcakeback.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcakeback.HashIndexIdType].WriteID
trusted
requires [len] len(b) >= idwb(ifid(recv))
modifies elems(b)
ensures [value] leidb(b, 0, idwb(ifid(recv))) == id
ensures [others] forall(k, idwb(ifid(recv)), len(b), b[k] == old(b[k]))

func (*DonutForestWrite).serializeLeafNode
prop C08
requires dfw.Config != nil && leafNode != nil && tbc(dfw).HashIndexIdConfig != nil
requires len(leafNode.ReassuranceHashBytes) <= tbc(dfw).ReassuranceBytesCount && len(*bytes) < 1000000000 && !sameobj(*bytes, leafNode.ReassuranceHashBytes)
requires leafNode.PresentationIndex < 4611686018427387904 && sourceOffset >= 0
let w = idwb(ifid(tbc(dfw).HashIndexIdConfig))
let n0 = len(*bytes)
let r = tbc(dfw).ReassuranceBytesCount
let have = len(leafNode.ReassuranceHashBytes)
modifies *bytes, elems(*bytes)
maypanic
loop 1
inv [pad] 0 <= iter && iter <= reassurancePadding && len(*bytes) == n0 + have + iter
inv [kept] forall(k, 0, n0, (*bytes)[k] == old((*bytes)[k]))
inv [bytes] forall(k, 0, have, (*bytes)[n0 + k] == leafNode.ReassuranceHashBytes[k])
ensures [size] len(*bytes) == n0 + r + w
ensures [kept] forall(k, 0, n0, (*bytes)[k] == old((*bytes)[k]))
ensures [reassurance] forall(k, 0, have, (*bytes)[n0 + k] == leafNode.ReassuranceHashBytes[k])
ensures [id] leidb(*bytes, n0 + r, w) == leafNode.PresentationIndex - sourceOffset && leafNode.PresentationIndex > sourceOffset

func (*DonutForestWrite).serializeFullNode
prop C08
requires dfw.Config != nil && slotsNode != nil && tbc(dfw).NodeIdConfig != nil && nextLevelIdMap != nil && len(*bytes) < 1000000000
let w = idwb(ifid(tbc(dfw).NodeIdConfig))
let n0 = len(*bytes)
modifies *bytes, elems(*bytes)
maypanic
loop 1
inv [at] 0 <= iter && iter <= 256
inv [off] p == 2 + iter*w
inv [head] nodeBytes[1] == slotsNode.HashByteIndex
inv [ids] forall(j, 0, iter, leidb(nodeBytes, 2 + j*w, w) == kid(slotsNode, nextLevelIdMap, j))
ensures [size] len(*bytes) == n0 + 2 + 256*w
ensures [kept] forall(k, 0, n0, (*bytes)[k] == old((*bytes)[k]))
ensures [index] (*bytes)[n0+1] == slotsNode.HashByteIndex
ensures [ids] forall(j, 0, 256, leidb(*bytes, n0 + 2 + j*w, w) == kid(slotsNode, nextLevelIdMap, j))

func (*DonutForestWrite).serializeTinyNode
prop C08
requires dfw.Config != nil && slotsNode != nil && tbc(dfw).NodeIdConfig != nil && nextLevelIdMap != nil && len(*bytes) < 1000000000
requires [rank] rank(0) == 0 && forall(j, 0, 256, rank(j+1) == rank(j) + ite(slotsNode.Slots[j].NextNode == nil, 0, 1) && rank(j+1) <= rank(256))
requires [mono] forall(j, 0, 256, forall(i, 0, j, rank(i+1) <= rank(j)))
requires [room] rank(256) <= spec.SlotsCapacity && spec.SlotsCapacity <= 5
let w = idwb(ifid(tbc(dfw).NodeIdConfig))
let n0 = len(*bytes)
let c = spec.SlotsCapacity
modifies *bytes, elems(*bytes)
maypanic
loop 1
inv [at] 0 <= iter && iter <= 256 && p == 1 + rank(iter)*(1+w)
inv [head] nodeBytes[0] == slotsNode.HashByteIndex
inv [pairs] forall(j, 0, iter, imp(slotsNode.Slots[j].NextNode != nil, nodeBytes[1 + rank(j)*(1+w)] == j && leidb(nodeBytes, 2 + rank(j)*(1+w), w) == mapval(nextLevelIdMap, slotsNode.Slots[j].NextNode)))
inv [rest] forall(k, p, 46, nodeBytes[k] == 0)
ensures [size] len(*bytes) == n0 + 1 + (1+w)*c
ensures [kept] forall(k, 0, n0, (*bytes)[k] == old((*bytes)[k]))
ensures [index] (*bytes)[n0] == slotsNode.HashByteIndex
ensures [pairs] forall(j, 0, 256, imp(slotsNode.Slots[j].NextNode != nil, (*bytes)[n0 + 1 + rank(j)*(1+w)] == j && leidb(*bytes, n0 + 2 + rank(j)*(1+w), w) == mapval(nextLevelIdMap, slotsNode.Slots[j].NextNode)))
ensures [rest] forall(k, 1 + rank(256)*(1+w), 1 + c*(1+w), (*bytes)[n0 + k] == 0)

func (*DonutForestWrite).serializeMediumNode
prop C08
timeout 90
requires dfw.Config != nil && slotsNode != nil && tbc(dfw).NodeIdConfig != nil && nextLevelIdMap != nil && len(*bytes) < 1000000000
requires [rank] rank(0) == 0 && forall(j, 0, 256, rank(j+1) == rank(j) + ite(slotsNode.Slots[j].NextNode == nil, 0, 1) && rank(j+1) <= rank(256))
requires [mono] forallt(j, rank(j), forallt(i, rank(i), imp(0 <= i && i < j && j <= 256, rank(i) + ite(slotsNode.Slots[i].NextNode == nil, 0, 1) <= rank(j))))
requires [room] rank(256) <= spec.SlotsCapacity && spec.SlotsCapacity <= 256
let w = idwb(ifid(tbc(dfw).NodeIdConfig))
let n0 = len(*bytes)
let c = spec.SlotsCapacity
modifies *bytes, elems(*bytes)
maypanic
loop 1
inv [at] 0 <= iter && iter <= 256 && len(activeChildren) == rank(iter) && len(nodeBytes) == 34 + w*c
inv [head] nodeBytes[1] == slotsNode.HashByteIndex
inv [flags0] forall(j, 0, iter, imp(j % 8 == 0, nodeBytes[2 + j/8] / 1 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags1] forall(j, 0, iter, imp(j % 8 == 1, nodeBytes[2 + j/8] / 2 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags2] forall(j, 0, iter, imp(j % 8 == 2, nodeBytes[2 + j/8] / 4 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags3] forall(j, 0, iter, imp(j % 8 == 3, nodeBytes[2 + j/8] / 8 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags4] forall(j, 0, iter, imp(j % 8 == 4, nodeBytes[2 + j/8] / 16 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags5] forall(j, 0, iter, imp(j % 8 == 5, nodeBytes[2 + j/8] / 32 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags6] forall(j, 0, iter, imp(j % 8 == 6, nodeBytes[2 + j/8] / 64 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags7] forall(j, 0, iter, imp(j % 8 == 7, nodeBytes[2 + j/8] / 128 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [clear] imp(iter < 256, forall(k, iter/8 + 1, 32, nodeBytes[2+k] == 0) && nodeBytes[2 + iter/8] < two8(iter % 8))
inv [kids] forallt(j, rank(j), imp(0 <= j && j < iter && slotsNode.Slots[j].NextNode != nil, activeChildren[rank(j)] == slotsNode.Slots[j].NextNode))
inv [zero] forall(k, 34, 34 + w*c, nodeBytes[k] == 0)
loop 2
inv [at] 0 <= iter && iter <= len(activeChildren) && payloadOffset == 34 + iter*w
inv [ids] forallt(j, rank(j), imp(0 <= j && j < 256 && slotsNode.Slots[j].NextNode != nil && rank(j) < iter, leidb(nodeBytes, 34 + rank(j)*w, w) == mapval(nextLevelIdMap, slotsNode.Slots[j].NextNode)))
inv [head] nodeBytes[1] == slotsNode.HashByteIndex
inv [flags0] forall(j, 0, 256, imp(j % 8 == 0, nodeBytes[2 + j/8] / 1 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags1] forall(j, 0, 256, imp(j % 8 == 1, nodeBytes[2 + j/8] / 2 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags2] forall(j, 0, 256, imp(j % 8 == 2, nodeBytes[2 + j/8] / 4 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags3] forall(j, 0, 256, imp(j % 8 == 3, nodeBytes[2 + j/8] / 8 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags4] forall(j, 0, 256, imp(j % 8 == 4, nodeBytes[2 + j/8] / 16 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags5] forall(j, 0, 256, imp(j % 8 == 5, nodeBytes[2 + j/8] / 32 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags6] forall(j, 0, 256, imp(j % 8 == 6, nodeBytes[2 + j/8] / 64 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags7] forall(j, 0, 256, imp(j % 8 == 7, nodeBytes[2 + j/8] / 128 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [rest] forall(k, 34 + iter*w, 34 + w*c, nodeBytes[k] == 0)
ensures [size] len(*bytes) == n0 + 34 + w*c
ensures [kept] forall(k, 0, n0, (*bytes)[k] == old((*bytes)[k]))
ensures [index] (*bytes)[n0+1] == slotsNode.HashByteIndex
ensures [flags0] forall(j, 0, 256, imp(j % 8 == 0, (*bytes)[n0 + 2 + j/8] / 1 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags1] forall(j, 0, 256, imp(j % 8 == 1, (*bytes)[n0 + 2 + j/8] / 2 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags2] forall(j, 0, 256, imp(j % 8 == 2, (*bytes)[n0 + 2 + j/8] / 4 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags3] forall(j, 0, 256, imp(j % 8 == 3, (*bytes)[n0 + 2 + j/8] / 8 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags4] forall(j, 0, 256, imp(j % 8 == 4, (*bytes)[n0 + 2 + j/8] / 16 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags5] forall(j, 0, 256, imp(j % 8 == 5, (*bytes)[n0 + 2 + j/8] / 32 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags6] forall(j, 0, 256, imp(j % 8 == 6, (*bytes)[n0 + 2 + j/8] / 64 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags7] forall(j, 0, 256, imp(j % 8 == 7, (*bytes)[n0 + 2 + j/8] / 128 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [ids] forall(j, 0, 256, imp(slotsNode.Slots[j].NextNode != nil, leidb(*bytes, n0 + 34 + rank(j)*w, w) == mapval(nextLevelIdMap, slotsNode.Slots[j].NextNode)))
ensures [rest] forall(k, 34 + rank(256)*w, 34 + c*w, (*bytes)[n0 + k] == 0)


def tcf(c, i) = c.TierBelowConfigs[i]

func (*NodeFormatSpec).ByteSize
prop C08
requires tierIndex < 4 && tcf(config, tierIndex).NodeIdConfig != nil && tcf(config, tierIndex).HashIndexIdConfig != nil
let w = idwb(ifid(tcf(config, tierIndex).NodeIdConfig))
let h = idwb(ifid(tcf(config, tierIndex).HashIndexIdConfig))
panics_if nfs.Format > 3
ensures [tiny] imp(nfs.Format == 0, result == 1 + nfs.SlotsCapacity*(1+w))
ensures [medium] imp(nfs.Format == 1, result == 34 + nfs.SlotsCapacity*w)
ensures [full] imp(nfs.Format == 2, result == 2 + 256*w)
ensures [leaf] imp(nfs.Format == 3, result == tcf(config, tierIndex).ReassuranceBytesCount + h)

func (*BakingDesigner).ProposeNodeFormatForSlotsCount
prop C08
requires 0 <= activeSlots && activeSlots <= 256
panics_if activeSlots == 1
ensures [leaf] iff(result.Format == 3, activeSlots == 0)
ensures [tiny] imp(activeSlots >= 1 && activeSlots <= 5, result.Format == 0)
ensures [known] result.Format <= 3
ensures [room] result.SlotsCapacity >= activeSlots && imp(result.Format == 2, result.SlotsCapacity == 256) && imp(result.Format == 0, result.SlotsCapacity <= 5) && imp(result.Format == 1, result.SlotsCapacity >= 1 && result.SlotsCapacity <= 255) && result.SlotsCapacity <= 256

func (*BakingDesigner).ProposeMergeGroups
prop C08
requires tierIndex < 4 && tcf(config, tierIndex).NodeIdConfig != nil && tcf(config, tierIndex).HashIndexIdConfig != nil
requires left.Spec.Format <= 3 && left.Spec.SlotsCapacity <= 256 && right.Spec.SlotsCapacity <= 256
requires [fit] left.NodesCount + right.NodesCount <= 3000000
panics_if right.StartSlotsCount < left.EndSlotsCount || left.Spec.Format != right.Spec.Format
ensures [range] result.StartSlotsCount == left.StartSlotsCount && result.EndSlotsCount == right.EndSlotsCount
ensures [count] result.NodesCount == left.NodesCount + right.NodesCount
ensures [spec] result.Spec.Format == left.Spec.Format && result.Spec.SlotsCapacity == right.Spec.SlotsCapacity

func (*BakingDesigner).RefineNodeFormatGroups
prop C08
def sameg(a, b) = a.StartSlotsCount == b.StartSlotsCount && a.EndSlotsCount == b.EndSlotsCount && a.NodesCount == b.NodesCount && a.Spec.Format == b.Spec.Format && a.Spec.SlotsCapacity == b.Spec.SlotsCapacity && a.Bytes == b.Bytes
def merged(m, l, r) = m.StartSlotsCount == l.StartSlotsCount && m.EndSlotsCount == r.EndSlotsCount && m.NodesCount == l.NodesCount + r.NodesCount && m.Spec.Format == l.Spec.Format && l.Spec.Format == r.Spec.Format && m.Spec.SlotsCapacity == r.Spec.SlotsCapacity
requires tierIndex < 4 && tcf(config, tierIndex).NodeIdConfig != nil && tcf(config, tierIndex).HashIndexIdConfig != nil && len(groups) <= 257
requires [fit] forall(g, 0, len(groups), groups[g].Spec.Format <= 3 && groups[g].Spec.SlotsCapacity <= 256 && groups[g].NodesCount <= 1000000)
requires [order] forall(g, 0, len(groups) - 1, groups[g].EndSlotsCount <= groups[g+1].StartSlotsCount)
loop 1
inv [at] 0 <= iter && (iter <= len(groups) - 1 || iter == 0)
inv [best] 0 - 1 <= bestProposalLeft && bestProposalLeft < iter && imp(bestProposalLeft >= 0, bestProposalLeft + 1 < len(groups) && merged(bestProposedMerge, groups[bestProposalLeft], groups[bestProposalLeft + 1]))
ensures [same] imp(!result1, sameslice(result0, groups))
ensures [less] imp(result1, len(result0) == len(groups) - 1)
ensures [merged] imp(result1, exists(b, 0, len(groups) - 1, merged(result0[b], groups[b], groups[b+1]) && forall(g, 0, b, sameg(result0[g], groups[g])) && forall(g, b+1, len(groups) - 1, sameg(result0[g], groups[g+1]))))

func (*BakingDesign).AllocateIdAndSpecForNode
prop C08
def bgrp(bd, l, a) = bd.LevelSpecs[l].SlotCountToGroup[a]
requires level < len(bd.LevelSpecs) && 0 <= activeSlotsCount && activeSlotsCount <= 256
requires len(bd.LevelSpecs[level].Groups) == len(bd.LevelSpecs[level].NodeIdAllocations)
requires bgrp(bd, level, activeSlotsCount) < len(bd.LevelSpecs[level].Groups)
let g = bd.LevelSpecs[level].SlotCountToGroup[activeSlotsCount]
let a = bd.LevelSpecs[level].NodeIdAllocations
modifies elems(bd.LevelSpecs[level].NodeIdAllocations)
panics_if bd.LevelSpecs[level].NodeIdAllocations[g].AvailableNodeIds == 0
ensures [id] result0 == old(a[g].NextAvailableNodeId)
ensures [next] a[g].NextAvailableNodeId == (old(a[g].NextAvailableNodeId) + 1) % 18446744073709551616 && a[g].AvailableNodeIds == old(a[g].AvailableNodeIds) - 1
ensures [others] forall(k, 0, len(a), imp(k != g, a[k].NextAvailableNodeId == old(a[k].NextAvailableNodeId) && a[k].AvailableNodeIds == old(a[k].AvailableNodeIds)))
ensures [spec] result1.Format == bd.LevelSpecs[level].Groups[g].Spec.Format && result1.SlotsCapacity == bd.LevelSpecs[level].Groups[g].Spec.SlotsCapacity

func (*BakingDesign).countChunkLevelBytes
prop C08
requires levelNum < len(bd.LevelSpecs) && len(bd.LevelSpecs[levelNum].Groups) <= 257
requires [sum] bs(0) == 0 && forall(f, 0, len(bd.LevelSpecs[levelNum].Groups), bs(f+1) == bs(f) + bd.LevelSpecs[levelNum].Groups[f].Bytes)
loop 1
inv [at] iter <= len(bd.LevelSpecs[levelNum].Groups) && indexBytesCount == 2 + iter*(nodeCountSize+4) && nodesBytesCount == bs(iter)
ensures [index] result0 == 2 + len(bd.LevelSpecs[levelNum].Groups)*(idwb(ifid(*nodeIdConfig))+4)
ensures [nodes] result1 == bs(len(bd.LevelSpecs[levelNum].Groups))
