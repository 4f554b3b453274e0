package weddingcake
ufun idw(int) int 2 4
ufun cs(int) int 0 4294967295
ufun bs(int) int 0 4294967295
ufun ro(int) int 0 4294967295
ufun rank(int) int 0 256
def leid(s, o, w) = ite(w == 2, le(s, o, 2), ite(w == 3, le(s, o, 3), le(s, o, 4)))
def nrows(cl) = le(cl.IndexBytes, 0, 2)
def rcount(cl, w, f) = leid(cl.IndexBytes, ro(f), w)
def rspec(cl, w, f) = le(cl.IndexBytes, ro(f) + w, 4)
def bit8(b, i) = ite(i == 0, b % 2, ite(i == 1, b/2 % 2, ite(i == 2, b/4 % 2, ite(i == 3, b/8 % 2, ite(i == 4, b/16 % 2, ite(i == 5, b/32 % 2, ite(i == 6, b/64 % 2, b/128)))))))
def two8(i) = ite(i == 0, 1, ite(i == 1, 2, ite(i == 2, 4, ite(i == 3, 8, ite(i == 4, 16, ite(i == 5, 32, ite(i == 6, 64, 128)))))))
def flag(n, e) = bit8(n[2 + e/8], e % 8)
def blk(n, k) = le(n, 2 + 8*k, 8)
def isfull(cn, c) = cn.formatSpecBytes == 2 + 256*idw(ifid(c))
def before(n, e) = ite(e/64 == 0, 0, ones(blk(n,0))) + ite(e/64 <= 1, 0, ones(blk(n,1))) + ite(e/64 <= 2, 0, ones(blk(n,2))) + ones(blk(n, e/64) % pow2(e % 64))

func github.com/KitchenMishap/pudding-shed/weddingcake.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcake.NodeIdType].StorageBytes
trusted
ensures [width] result == idw(ifid(recv))

func github.com/KitchenMishap/pudding-shed/weddingcake.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcake.NodeIdType].ReadID
trusted
requires [len] len(b) >= idw(ifid(recv))
ensures [value] result == leid(b, 0, idw(ifid(recv)))

func github.com/KitchenMishap/pudding-shed/weddingcake.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcake.NodeIdType].WriteID
trusted
requires [len] len(b) >= idw(ifid(recv))
modifies elems(b)
ensures [value] leid(b, 0, idw(ifid(recv))) == id % pow2(8*idw(ifid(recv)))
ensures [others] forall(k, idw(ifid(recv)), len(b), b[k] == old(b[k]))

func github.com/KitchenMishap/pudding-shed/weddingcake.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcake.HashIndexIdType].StorageBytes
trusted
ensures [width] result == idw(ifid(recv))

func github.com/KitchenMishap/pudding-shed/weddingcake.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcake.HashIndexIdType].ReadID
trusted
requires [len] len(b) >= idw(ifid(recv))
ensures [value] result == leid(b, 0, idw(ifid(recv)))

func github.com/KitchenMishap/pudding-shed/weddingcake.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcake.HashIndexIdType].WriteID
trusted
requires [len] len(b) >= idw(ifid(recv))
modifies elems(b)
ensures [value] leid(b, 0, idw(ifid(recv))) == id % pow2(8*idw(ifid(recv)))
ensures [others] forall(k, idw(ifid(recv)), len(b), b[k] == old(b[k]))

func (*ChunkLevel).ExtractNode
prop C06
let w = idw(ifid(nodeIdConfig))
requires nodeId >= 1 && len(cl.IndexBytes) >= 2 && len(cl.IndexBytes) < 4294967296 && len(cl.NodeBytes) < 4294967296
requires [rows] ro(0) == 2 && forall(f, 0, nrows(cl), ro(f+1) == ro(f) + idw(ifid(nodeIdConfig)) + 4 && ro(f+1) <= len(cl.IndexBytes))
requires [sums] cs(0) == 0 && forall(f, 0, nrows(cl), cs(f+1) == cs(f) + rcount(cl, idw(ifid(nodeIdConfig)), f) && cs(f+1) <= cs(nrows(cl)))
requires [bytes] bs(0) == 0 && forall(f, 0, nrows(cl), bs(f+1) == bs(f) + rcount(cl, idw(ifid(nodeIdConfig)), f) * (rspec(cl, idw(ifid(nodeIdConfig)), f) % 65536) && bs(f+1) <= bs(nrows(cl)))
requires [fits] bs(nrows(cl)) <= len(cl.NodeBytes) && cs(nrows(cl)) < 4294967295
modifies target.formatSpecBytes, target.nodeBytes
loop 1
inv [at] fs <= formatSpecCount && byteCount == ro(fs) && currentSpecNodeId == 1 + cs(fs) && currentSpecNodeByteOffset == bs(fs)
inv [past] nodeId > cs(fs)
ensures [found] iff(result, nodeId <= cs(nrows(cl)))
ensures [node] imp(result, exists(f, 0, nrows(cl), cs(f) < nodeId && nodeId <= cs(f+1) && target.formatSpecBytes == rspec(cl, w, f) && len(target.nodeBytes) == rspec(cl, w, f) % 65536 && sameobj(target.nodeBytes, cl.NodeBytes) && forall(k, 0, len(target.nodeBytes), target.nodeBytes[k] == cl.NodeBytes[bs(f) + (nodeId - 1 - cs(f))*(rspec(cl, w, f) % 65536) + k])))

func (*chunkNode).detailsIfLeaf
prop C06
let w = idw(ifid(hashIndexIdConfig))
requires imp(cn.formatSpecBytes == reassuranceBytesCount + idw(ifid(hashIndexIdConfig)), len(cn.nodeBytes) == cn.formatSpecBytes)
ensures [leaf] result0 == (cn.formatSpecBytes == reassuranceBytesCount + w)
ensures [bytes] imp(result0, len(result1) == reassuranceBytesCount && forall(k, 0, len(result1), result1[k] == cn.nodeBytes[k]))
ensures [id] imp(result0, result2 == leid(cn.nodeBytes, reassuranceBytesCount, w))

func (*chunkNode).hashByteIndexToExamine
prop C06
let w = idw(ifid(nodeIdConfig))
let full = cn.formatSpecBytes == 2 + 256*w
let medium = cn.formatSpecBytes / 65536 % 256
let tiny = cn.formatSpecBytes / 16777216
requires len(cn.nodeBytes) >= 2
panics_if (full || medium > 0) && cn.nodeBytes[0] != 0 || !full && medium == 0 && tiny == 0
ensures [full] imp(full, result0 == cn.nodeBytes[1] && result1 == 0 && result2 == 0)
ensures [medium] imp(!full && medium > 0, result0 == cn.nodeBytes[1] && result1 == medium && result2 == 0)
ensures [tiny] imp(!full && medium == 0, result0 == cn.nodeBytes[0] && result1 == 0 && result2 == tiny)

func (*chunkNode).nextLevelNodeId
prop C06

let w = idw(ifid(nodeIdConfig))
let full = cn.formatSpecBytes == 2 + 256*idw(ifid(nodeIdConfig))
requires imp(isfull(cn, nodeIdConfig), len(cn.nodeBytes) == 2 + 256*idw(ifid(nodeIdConfig)))
requires imp(!isfull(cn, nodeIdConfig) && mediumSlots > 0, len(cn.nodeBytes) == 34 + mediumSlots*idw(ifid(nodeIdConfig)) && imp(flag(cn.nodeBytes, examinedByte) == 1, before(cn.nodeBytes, examinedByte) < mediumSlots))
requires imp(!isfull(cn, nodeIdConfig) && mediumSlots == 0, len(cn.nodeBytes) == 1 + tinySlots*(1+idw(ifid(nodeIdConfig))))
panics_if !full && mediumSlots == 0 && tinySlots == 0
loop 1
inv [at] iter <= tinySlots
inv [off] offset == 1 + iter*(1+w)
inv [none] forall(s, 0, iter, cn.nodeBytes[1 + s*(1+w)] != examinedByte)
ensures [full] imp(full, result == leid(cn.nodeBytes, 2 + examinedByte*w, w))
ensures [empty] imp(!full && mediumSlots > 0 && flag(cn.nodeBytes, examinedByte) == 0, result == 0)
ensures [medium] imp(!full && mediumSlots > 0 && flag(cn.nodeBytes, examinedByte) == 1, result == leid(cn.nodeBytes, 34 + before(cn.nodeBytes, examinedByte)*w, w))
ensures [tiny] imp(!full && mediumSlots == 0, result == 0 && forall(s, 0, tinySlots, cn.nodeBytes[1 + s*(1+w)] != examinedByte) || exists(s, 0, tinySlots, cn.nodeBytes[1 + s*(1+w)] == examinedByte && forall(r, 0, s, cn.nodeBytes[1 + r*(1+w)] != examinedByte) && result == leid(cn.nodeBytes, 2 + s*(1+w), w)))

func (*StoreConfig).ByteSize
prop C06
requires sc.NodeIdConfig != nil && sc.HashIndexIdConfig != nil
let w = idw(ifid(sc.NodeIdConfig))
let h = idw(ifid(sc.HashIndexIdConfig))
panics_if nfs.Format > 3
ensures [tiny] imp(nfs.Format == 0, result == 1 + nfs.SlotsCapacity*(1+w))
ensures [medium] imp(nfs.Format == 1, result == 34 + nfs.SlotsCapacity*w)
ensures [full] imp(nfs.Format == 2, result == 2 + 256*w)
ensures [leaf] imp(nfs.Format == 3, result == sc.ReassuranceBytesCount + h)

func (*StoreConfig).ProposeNodeFormatForSlotsCount
prop C06
requires 0 <= activeSlots && activeSlots <= 256
panics_if activeSlots == 1
ensures [leaf] iff(result.Format == 3, activeSlots == 0)
ensures [tiny] imp(activeSlots >= 1 && activeSlots <= 5, result.Format == 0)
ensures [known] result.Format <= 3
ensures [room] result.SlotsCapacity >= activeSlots && imp(result.Format == 2, result.SlotsCapacity == 256) && imp(result.Format == 0, result.SlotsCapacity <= 5) && imp(result.Format == 1, result.SlotsCapacity >= 1 && result.SlotsCapacity <= 255) && result.SlotsCapacity <= 256

func (*StoreConfig).ProposeMergeGroups
prop C06
requires sc.NodeIdConfig != nil && sc.HashIndexIdConfig != nil
requires left.Spec.Format <= 3 && left.Spec.SlotsCapacity <= 256 && right.Spec.SlotsCapacity <= 256
requires [fit] left.NodesCount + right.NodesCount <= 3000000
panics_if right.StartSlotsCount < left.EndSlotsCount || left.Spec.Format != right.Spec.Format
ensures [range] result.StartSlotsCount == left.StartSlotsCount && result.EndSlotsCount == right.EndSlotsCount
ensures [count] result.NodesCount == left.NodesCount + right.NodesCount
ensures [spec] result.Spec.Format == left.Spec.Format && result.Spec.SlotsCapacity == right.Spec.SlotsCapacity

func (*StoreConfig).ProposeNodeFormatGroupsForLevelShape
prop C06
def hst(sh, s) = sh.ActiveSlotCountHistogram[s]
def okgroup(g, sh) = 0 <= g.StartSlotsCount && g.StartSlotsCount <= 256 && g.EndSlotsCount == g.StartSlotsCount + 1 && g.NodesCount == hst(sh, g.StartSlotsCount) && g.NodesCount > 0 && g.Spec.Format <= 3 && iff(g.Spec.Format == 3, g.StartSlotsCount == 0) && g.Spec.SlotsCapacity >= g.StartSlotsCount && g.Spec.SlotsCapacity <= 256
requires sc.NodeIdConfig != nil && sc.HashIndexIdConfig != nil
requires [fit] forall(s, 0, 257, hst(shape, s) <= 1000000)
panics_if hst(shape, 1) > 0
loop 1
inv [at] 0 <= iter && iter <= 257 && len(result) <= iter
inv [one] imp(iter >= 2, hst(shape, 1) == 0)
inv [sound] forall(g, 0, len(result), okgroup(result[g], shape) && result[g].StartSlotsCount < iter)
inv [all] forall(s, 0, iter, imp(hst(shape, s) > 0, exists(g, 0, len(result), result[g].StartSlotsCount == s)))
inv [order] forall(g, 0, len(result) - 1, result[g].StartSlotsCount < result[g+1].StartSlotsCount)
ensures [sound] forall(g, 0, len(result), okgroup(result[g], shape))
ensures [all] forall(s, 0, 257, imp(hst(shape, s) > 0, exists(g, 0, len(result), result[g].StartSlotsCount == s)))
ensures [order] forall(g, 0, len(result) - 1, result[g].StartSlotsCount < result[g+1].StartSlotsCount)

func (*StoreConfig).RefineNodeFormatGroups
prop C06
def sameg(a, b) = a.StartSlotsCount == b.StartSlotsCount && a.EndSlotsCount == b.EndSlotsCount && a.NodesCount == b.NodesCount && a.Spec.Format == b.Spec.Format && a.Spec.SlotsCapacity == b.Spec.SlotsCapacity && a.Bytes == b.Bytes
def merged(m, l, r) = m.StartSlotsCount == l.StartSlotsCount && m.EndSlotsCount == r.EndSlotsCount && m.NodesCount == l.NodesCount + r.NodesCount && m.Spec.Format == l.Spec.Format && l.Spec.Format == r.Spec.Format && m.Spec.SlotsCapacity == r.Spec.SlotsCapacity
requires sc.NodeIdConfig != nil && sc.HashIndexIdConfig != nil && len(groups) <= 257
requires [fit] forall(g, 0, len(groups), groups[g].Spec.Format <= 3 && groups[g].Spec.SlotsCapacity <= 256 && groups[g].NodesCount <= 1000000)
requires [order] forall(g, 0, len(groups) - 1, groups[g].EndSlotsCount <= groups[g+1].StartSlotsCount)
loop 1
inv [at] 0 <= iter && (iter <= len(groups) - 1 || iter == 0)
inv [best] 0 - 1 <= bestProposalLeft && bestProposalLeft < iter && imp(bestProposalLeft >= 0, bestProposalLeft + 1 < len(groups) && merged(bestProposedMerge, groups[bestProposalLeft], groups[bestProposalLeft + 1]))
ensures [same] imp(!result1, sameslice(result0, groups))
ensures [less] imp(result1, len(result0) == len(groups) - 1)
ensures [merged] imp(result1, exists(b, 0, len(groups) - 1, merged(result0[b], groups[b], groups[b+1]) && forall(g, 0, b, sameg(result0[g], groups[g])) && forall(g, b+1, len(groups) - 1, sameg(result0[g], groups[g+1]))))

func (*TreeFormat).AllocateIdAndSpecForNode
prop C06
def grp(tns, l, a) = tns.LevelSpecs[l].SlotCountToGroup[a]
requires level < len(tns.LevelSpecs) && 0 <= activeSlotsCount && activeSlotsCount <= 256
requires len(tns.LevelSpecs[level].Groups) == len(tns.LevelSpecs[level].NodeIdAllocations)
requires grp(tns, level, activeSlotsCount) < len(tns.LevelSpecs[level].Groups)
let g = tns.LevelSpecs[level].SlotCountToGroup[activeSlotsCount]
let a = tns.LevelSpecs[level].NodeIdAllocations
modifies elems(tns.LevelSpecs[level].NodeIdAllocations)
panics_if tns.LevelSpecs[level].NodeIdAllocations[g].AvailableNodeIds == 0
ensures [id] result0 == old(a[g].NextAvailableNodeId)
ensures [next] a[g].NextAvailableNodeId == (old(a[g].NextAvailableNodeId) + 1) % 4294967296 && a[g].AvailableNodeIds == old(a[g].AvailableNodeIds) - 1
ensures [others] forall(k, 0, len(a), imp(k != g, a[k].NextAvailableNodeId == old(a[k].NextAvailableNodeId) && a[k].AvailableNodeIds == old(a[k].AvailableNodeIds)))
ensures [spec] result1.Format == tns.LevelSpecs[level].Groups[g].Spec.Format && result1.SlotsCapacity == tns.LevelSpecs[level].Groups[g].Spec.SlotsCapacity

func countChunkLevelBytes
prop C06
requires len(levelData.Groups) <= 257
requires [sum] bs(0) == 0 && forall(f, 0, len(levelData.Groups), bs(f+1) == bs(f) + levelData.Groups[f].Bytes)
loop 1
inv [at] iter <= len(levelData.Groups) && indexBytesCount == 2 + iter*(nodeCountSize+4) && nodesBytesCount == bs(iter)
ensures [index] result0 == 2 + len(levelData.Groups)*(idw(ifid(nodeIdConfig))+4)
ensures [nodes] result1 == bs(len(levelData.Groups))

func (*ChunkPreparation).serializeLeafNode
prop C06
requires leafNode != nil && cp.chunk.Config.HashIndexIdConfig != nil
requires len(leafNode.ReassuranceHashBytes) <= cp.chunk.Config.ReassuranceBytesCount && len(*bytes) < 1000000000 && !sameobj(*bytes, leafNode.ReassuranceHashBytes)
requires leafNode.PresentationIndex >= 0
let w = idw(ifid(cp.chunk.Config.HashIndexIdConfig))
let n0 = len(*bytes)
let r = cp.chunk.Config.ReassuranceBytesCount
let have = len(leafNode.ReassuranceHashBytes)
modifies *bytes, elems(*bytes)
panics_if leafNode.PresentationIndex == 0 || leafNode.PresentationIndex > 4294967295
loop 1
inv [pad] 0 <= iter && iter <= reassurancePadding && len(*bytes) == n0 + have + iter
inv [kept] forall(k, 0, n0, (*bytes)[k] == old((*bytes)[k]))
inv [bytes] forall(k, 0, have, (*bytes)[n0 + k] == leafNode.ReassuranceHashBytes[k])
ensures [size] len(*bytes) == n0 + r + w
ensures [kept] forall(k, 0, n0, (*bytes)[k] == old((*bytes)[k]))
ensures [reassurance] forall(k, 0, have, (*bytes)[n0 + k] == leafNode.ReassuranceHashBytes[k])
ensures [id] leid(*bytes, n0 + r, w) == leafNode.PresentationIndex % pow2(8*w)

func (*ChunkPreparation).serializeFullNode
prop C06
requires slotsNode != nil && cp.chunk.Config.NodeIdConfig != nil && nextLevelIdMap != nil && len(*bytes) < 1000000000
def kid(sn, m, j) = ite(sn.Slots[j].NextNode == nil, 0, mapval(m, sn.Slots[j].NextNode))
let w = idw(ifid(cp.chunk.Config.NodeIdConfig))
let n0 = len(*bytes)
modifies *bytes, elems(*bytes)
maypanic
loop 1
inv [at] 0 <= iter && iter <= 256
inv [off] p == 2 + iter*w
inv [head] nodeBytes[0] == 0 && nodeBytes[1] == slotsNode.HashByteIndex
inv [ids] forall(j, 0, iter, leid(nodeBytes, 2 + j*w, w) == kid(slotsNode, nextLevelIdMap, j) % pow2(8*w))
ensures [size] len(*bytes) == n0 + 2 + 256*w
ensures [kept] forall(k, 0, n0, (*bytes)[k] == old((*bytes)[k]))
ensures [index] (*bytes)[n0] == 0 && (*bytes)[n0+1] == slotsNode.HashByteIndex
ensures [ids] forall(j, 0, 256, leid(*bytes, n0 + 2 + j*w, w) == kid(slotsNode, nextLevelIdMap, j) % pow2(8*w))

func (*ChunkPreparation).serializeTinyNode
prop C06
requires slotsNode != nil && cp.chunk.Config.NodeIdConfig != nil && nextLevelIdMap != nil && len(*bytes) < 1000000000
requires [rank] rank(0) == 0 && forall(j, 0, 256, rank(j+1) == rank(j) + ite(slotsNode.Slots[j].NextNode == nil, 0, 1) && rank(j+1) <= rank(256))
requires [mono] forall(j, 0, 256, forall(i, 0, j, rank(i+1) <= rank(j)))
requires [room] rank(256) <= spec.SlotsCapacity && spec.SlotsCapacity <= 5
let w = idw(ifid(cp.chunk.Config.NodeIdConfig))
let n0 = len(*bytes)
let c = spec.SlotsCapacity
modifies *bytes, elems(*bytes)
maypanic
loop 1
inv [at] 0 <= iter && iter <= 256 && p == 1 + rank(iter)*(1+w)
inv [head] nodeBytes[0] == slotsNode.HashByteIndex
inv [pairs] forall(j, 0, iter, imp(slotsNode.Slots[j].NextNode != nil, nodeBytes[1 + rank(j)*(1+w)] == j && leid(nodeBytes, 2 + rank(j)*(1+w), w) == mapval(nextLevelIdMap, slotsNode.Slots[j].NextNode) % pow2(8*w)))
inv [rest] forall(k, p, 46, nodeBytes[k] == 0)
ensures [size] len(*bytes) == n0 + 1 + (1+w)*c
ensures [kept] forall(k, 0, n0, (*bytes)[k] == old((*bytes)[k]))
ensures [index] (*bytes)[n0] == slotsNode.HashByteIndex
ensures [pairs] forall(j, 0, 256, imp(slotsNode.Slots[j].NextNode != nil, (*bytes)[n0 + 1 + rank(j)*(1+w)] == j && leid(*bytes, n0 + 2 + rank(j)*(1+w), w) == mapval(nextLevelIdMap, slotsNode.Slots[j].NextNode) % pow2(8*w)))
ensures [rest] forall(k, 1 + rank(256)*(1+w), 1 + c*(1+w), (*bytes)[n0 + k] == 0)

func (*ChunkPreparation).serializeMediumNode
prop C06
timeout 90
requires slotsNode != nil && cp.chunk.Config.NodeIdConfig != nil && nextLevelIdMap != nil && len(*bytes) < 1000000000
requires [rank] rank(0) == 0 && forall(j, 0, 256, rank(j+1) == rank(j) + ite(slotsNode.Slots[j].NextNode == nil, 0, 1) && rank(j+1) <= rank(256))
requires [mono] forall(j, 0, 256, forall(i, 0, j, rank(i+1) <= rank(j)))
requires [room] rank(256) <= spec.SlotsCapacity && spec.SlotsCapacity <= 256
let w = idw(ifid(cp.chunk.Config.NodeIdConfig))
let n0 = len(*bytes)
let c = spec.SlotsCapacity
modifies *bytes, elems(*bytes)
maypanic
loop 1
inv [at] 0 <= iter && iter <= 256 && len(activeChildren) == rank(iter) && len(nodeBytes) == 34 + w*c
inv [head] nodeBytes[0] == 0 && nodeBytes[1] == slotsNode.HashByteIndex
inv [flags0] forall(j, 0, iter, imp(j % 8 == 0, nodeBytes[2 + j/8] / 1 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags1] forall(j, 0, iter, imp(j % 8 == 1, nodeBytes[2 + j/8] / 2 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags2] forall(j, 0, iter, imp(j % 8 == 2, nodeBytes[2 + j/8] / 4 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags3] forall(j, 0, iter, imp(j % 8 == 3, nodeBytes[2 + j/8] / 8 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags4] forall(j, 0, iter, imp(j % 8 == 4, nodeBytes[2 + j/8] / 16 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags5] forall(j, 0, iter, imp(j % 8 == 5, nodeBytes[2 + j/8] / 32 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags6] forall(j, 0, iter, imp(j % 8 == 6, nodeBytes[2 + j/8] / 64 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags7] forall(j, 0, iter, imp(j % 8 == 7, nodeBytes[2 + j/8] / 128 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [clear] imp(iter < 256, forall(k, iter/8 + 1, 32, nodeBytes[2+k] == 0) && nodeBytes[2 + iter/8] < two8(iter % 8))
inv [kids] forall(j, 0, iter, imp(slotsNode.Slots[j].NextNode != nil, activeChildren[rank(j)] == slotsNode.Slots[j].NextNode))
inv [zero] forall(k, 34, 34 + w*c, nodeBytes[k] == 0)
loop 2
inv [at] 0 <= iter && iter <= len(activeChildren) && payloadOffset == 34 + iter*w
inv [ids] forall(i, 0, iter, leid(nodeBytes, 34 + i*w, w) == mapval(nextLevelIdMap, activeChildren[i]) % pow2(8*w))
inv [head] nodeBytes[0] == 0 && nodeBytes[1] == slotsNode.HashByteIndex
inv [flags0] forall(j, 0, 256, imp(j % 8 == 0, nodeBytes[2 + j/8] / 1 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags1] forall(j, 0, 256, imp(j % 8 == 1, nodeBytes[2 + j/8] / 2 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags2] forall(j, 0, 256, imp(j % 8 == 2, nodeBytes[2 + j/8] / 4 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags3] forall(j, 0, 256, imp(j % 8 == 3, nodeBytes[2 + j/8] / 8 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags4] forall(j, 0, 256, imp(j % 8 == 4, nodeBytes[2 + j/8] / 16 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags5] forall(j, 0, 256, imp(j % 8 == 5, nodeBytes[2 + j/8] / 32 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags6] forall(j, 0, 256, imp(j % 8 == 6, nodeBytes[2 + j/8] / 64 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [flags7] forall(j, 0, 256, imp(j % 8 == 7, nodeBytes[2 + j/8] / 128 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
inv [rest] forall(k, 34 + iter*w, 34 + w*c, nodeBytes[k] == 0)
ensures [size] len(*bytes) == n0 + 34 + w*c
ensures [kept] forall(k, 0, n0, (*bytes)[k] == old((*bytes)[k]))
ensures [index] (*bytes)[n0] == 0 && (*bytes)[n0+1] == slotsNode.HashByteIndex
ensures [flags0] forall(j, 0, 256, imp(j % 8 == 0, (*bytes)[n0 + 2 + j/8] / 1 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags1] forall(j, 0, 256, imp(j % 8 == 1, (*bytes)[n0 + 2 + j/8] / 2 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags2] forall(j, 0, 256, imp(j % 8 == 2, (*bytes)[n0 + 2 + j/8] / 4 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags3] forall(j, 0, 256, imp(j % 8 == 3, (*bytes)[n0 + 2 + j/8] / 8 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags4] forall(j, 0, 256, imp(j % 8 == 4, (*bytes)[n0 + 2 + j/8] / 16 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags5] forall(j, 0, 256, imp(j % 8 == 5, (*bytes)[n0 + 2 + j/8] / 32 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags6] forall(j, 0, 256, imp(j % 8 == 6, (*bytes)[n0 + 2 + j/8] / 64 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [flags7] forall(j, 0, 256, imp(j % 8 == 7, (*bytes)[n0 + 2 + j/8] / 128 % 2 == ite(slotsNode.Slots[j].NextNode == nil, 0, 1)))
ensures [ids] forall(j, 0, 256, imp(slotsNode.Slots[j].NextNode != nil, leid(*bytes, n0 + 34 + rank(j)*w, w) == mapval(nextLevelIdMap, slotsNode.Slots[j].NextNode) % pow2(8*w)))
ensures [rest] forall(k, 34 + rank(256)*w, 34 + c*w, (*bytes)[n0 + k] == 0)

func (*TreeFormat).InitializeNodeIdAllocations
prop C06
def okg(g) = 0 <= g.StartSlotsCount && g.StartSlotsCount < g.EndSlotsCount && g.EndSlotsCount <= 257 && g.NodesCount <= 1000000
def lva(l, n) = imp(n > 0, l.NodeIdAllocations[0].NextAvailableNodeId == 1) && forall(g, 0, n, l.NodeIdAllocations[g].AvailableNodeIds == l.Groups[g].NodesCount) && forall(g, 0, n - 1, l.NodeIdAllocations[g+1].NextAvailableNodeId == l.NodeIdAllocations[g].NextAvailableNodeId + l.Groups[g].NodesCount)
def lvg(l) = forall(g, 0, len(l.Groups), okg(l.Groups[g]))
def lvd(l) = forall(g, 0, len(l.Groups), forall(h, 0, len(l.Groups), imp(g != h, l.Groups[g].EndSlotsCount <= l.Groups[h].StartSlotsCount || l.Groups[h].EndSlotsCount <= l.Groups[g].StartSlotsCount)))
def lvs(l, n) = forall(g, 0, n, forall(a, l.Groups[g].StartSlotsCount, l.Groups[g].EndSlotsCount, l.SlotCountToGroup[a] == g))
requires forall(l, 0, len(tns.LevelSpecs), len(tns.LevelSpecs[l].Groups) <= 256)
requires [groups] forall(l, 0, len(tns.LevelSpecs), forall(g, 0, len(tns.LevelSpecs[l].Groups), okg(tns.LevelSpecs[l].Groups[g])))
requires [apart] forall(l, 0, len(tns.LevelSpecs), forall(g, 0, len(tns.LevelSpecs[l].Groups), forall(h, 0, len(tns.LevelSpecs[l].Groups), imp(g != h, tns.LevelSpecs[l].Groups[g].EndSlotsCount <= tns.LevelSpecs[l].Groups[h].StartSlotsCount || tns.LevelSpecs[l].Groups[h].EndSlotsCount <= tns.LevelSpecs[l].Groups[g].StartSlotsCount))))
modifies elems(tns.LevelSpecs)
loop 1
inv [groups] forall(l, 0, len(tns.LevelSpecs), sameslice(tns.LevelSpecs[l].Groups, old(tns.LevelSpecs[l].Groups)))
inv [live] forall(l, 0, iter, live(tns.LevelSpecs[l].NodeIdAllocations))
inv [ids] forall(l, 0, iter, len(tns.LevelSpecs[l].NodeIdAllocations) == len(tns.LevelSpecs[l].Groups) && lva(tns.LevelSpecs[l], len(tns.LevelSpecs[l].Groups)))
inv [slots] forall(l, 0, iter, lvs(tns.LevelSpecs[l], len(tns.LevelSpecs[l].Groups)))
ensures [ids] forall(l, 0, len(tns.LevelSpecs), len(tns.LevelSpecs[l].NodeIdAllocations) == len(tns.LevelSpecs[l].Groups) && lva(tns.LevelSpecs[l], len(tns.LevelSpecs[l].Groups)))
ensures [slots] forall(l, 0, len(tns.LevelSpecs), lvs(tns.LevelSpecs[l], len(tns.LevelSpecs[l].Groups)))
loop 2
inv [groups] forall(l, 0, len(tns.LevelSpecs), sameslice(tns.LevelSpecs[l].Groups, old(tns.LevelSpecs[l].Groups)))
inv [idsl] forall(l, 0, level, len(tns.LevelSpecs[l].NodeIdAllocations) == len(tns.LevelSpecs[l].Groups) && lva(tns.LevelSpecs[l], len(tns.LevelSpecs[l].Groups)))
inv [slotsl] forall(l, 0, level, lvs(tns.LevelSpecs[l], len(tns.LevelSpecs[l].Groups)))
inv [live] forall(l, 0, level, live(tns.LevelSpecs[l].NodeIdAllocations))
inv [ok] lvg(tns.LevelSpecs[level])
inv [apart] lvd(tns.LevelSpecs[level])
inv [len] len(tns.LevelSpecs[level].NodeIdAllocations) == len(tns.LevelSpecs[level].Groups) && iter <= len(tns.LevelSpecs[level].Groups)
inv [fit] 1 <= nodeId && nodeId <= 1 + 1000000 * iter
inv [next] imp(iter == 0, nodeId == 1) && imp(iter > 0, nodeId == tns.LevelSpecs[level].NodeIdAllocations[iter-1].NextAvailableNodeId + tns.LevelSpecs[level].Groups[iter-1].NodesCount)
inv [ids] lva(tns.LevelSpecs[level], iter)
inv [slots] lvs(tns.LevelSpecs[level], iter)
loop 3
inv [groups] forall(l, 0, len(tns.LevelSpecs), sameslice(tns.LevelSpecs[l].Groups, old(tns.LevelSpecs[l].Groups)))
inv [idsl] forall(l, 0, level, len(tns.LevelSpecs[l].NodeIdAllocations) == len(tns.LevelSpecs[l].Groups) && lva(tns.LevelSpecs[l], len(tns.LevelSpecs[l].Groups)))
inv [slotsl] forall(l, 0, level, lvs(tns.LevelSpecs[l], len(tns.LevelSpecs[l].Groups)))
inv [live] forall(l, 0, level, live(tns.LevelSpecs[l].NodeIdAllocations))
inv [ok] lvg(tns.LevelSpecs[level])
inv [apart] lvd(tns.LevelSpecs[level])
inv [len] len(tns.LevelSpecs[level].NodeIdAllocations) == len(tns.LevelSpecs[level].Groups)
inv [ids] lva(tns.LevelSpecs[level], group)
inv [this] tns.LevelSpecs[level].NodeIdAllocations[group].NextAvailableNodeId == nodeId && tns.LevelSpecs[level].NodeIdAllocations[group].AvailableNodeIds == tns.LevelSpecs[level].Groups[group].NodesCount
inv [prev] imp(group > 0, nodeId == tns.LevelSpecs[level].NodeIdAllocations[group-1].NextAvailableNodeId + tns.LevelSpecs[level].Groups[group-1].NodesCount)
inv [first] imp(group == 0, nodeId == 1)
inv [slots] lvs(tns.LevelSpecs[level], group)
inv [now] forall(a, tns.LevelSpecs[level].Groups[group].StartSlotsCount, tns.LevelSpecs[level].Groups[group].StartSlotsCount + iter, tns.LevelSpecs[level].SlotCountToGroup[a] == group)
