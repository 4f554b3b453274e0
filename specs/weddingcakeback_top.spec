package weddingcakeback
ufun idwb(int) int 2 5
def leidb(s, o, w) = ite(w == 2, le(s, o, 2), ite(w == 3, le(s, o, 3), ite(w == 4, le(s, o, 4), le(s, o, 5))))
def hk(s) = keyof(s, 32)
def tto(tt, g) = g - tt.firstGlobalPresentationIndex
def tbo(tb, g) = g - tb.DonutForestsInfo[0].FirstGlobalPresentationIndex
def ttsep(tt) = forall(i, 0, len(tt.theSlice), !sameobj(tt.theSlice[i], tt.hashesFile.scratch))
def ttlen(tt) = forall(i, 0, len(tt.theSlice), len(tt.theSlice[i]) == 32)
def ttdom(tt) = forall(i, 0, len(tt.theSlice), mapdom(tt.theMap, hk(tt.theSlice[i])) && mapval(tt.theMap, hk(tt.theSlice[i])) <= i)
ufun rnk(int) int
def isfst(tt, m) = mapval(tt.theMap, hk(tt.theSlice[m])) == m
def ttval(tt, k) = imp(mapdom(tt.theMap, k), 0 <= mapval(tt.theMap, k) && mapval(tt.theMap, k) < len(tt.theSlice) && hk(tt.theSlice[mapval(tt.theMap, k)]) == k)

func (*TierTop).TryIndexOfHash
prop C07
requires len(hash) == 32 && tt.theMap != nil && 0 <= tt.firstGlobalPresentationIndex && tt.firstGlobalPresentationIndex < 4611686018427387904
requires [inv] ttlen(tt) && ttdom(tt) && forall(k, ttval(tt, k)) && len(tt.theSlice) <= 65535
ensures [ok] err == nil
ensures [found] imp(result1, 0 <= tto(tt, result0) && tto(tt, result0) < len(tt.theSlice) && forall(b, 0, 32, tt.theSlice[tto(tt, result0)][b] == hash[b]))
ensures [first] imp(result1, forall(i, 0, tto(tt, result0), hk(tt.theSlice[i]) != hk(hash)))
ensures [none] imp(!result1, result0 == -1 && forall(i, 0, len(tt.theSlice), hk(tt.theSlice[i]) != hk(hash)))

func (*TierTop).TryGetHashAtIndex
prop C07
requires len(hash) == 32 && 0 <= tt.firstGlobalPresentationIndex && tt.firstGlobalPresentationIndex < 4611686018427387904
requires [inv] ttlen(tt) && len(tt.theSlice) <= 65535
let o = globalIndex - tt.firstGlobalPresentationIndex
modifies elems(hash)
ensures [ok] err == nil
ensures [found] result0 == (0 <= o && o < len(tt.theSlice))
ensures [hash] imp(result0, forall(b, 0, 32, hash[b] == old(tt.theSlice[o][b])))
ensures [keep] imp(!result0, forall(b, 0, 32, hash[b] == old(hash[b])))

func (*TierTop).GetNextTier
prop C07
ensures [same] sameobj(result, tt.nextTier)

func (*TierTop).SetNextTier
prop C07
modifies tt.nextTier
ensures [same] sameobj(tt.nextTier, tierReadable)

func (*TierTop).CountHashes
prop C07
ensures [count] err == nil && result0 == len(tt.theSlice)

func (*TierTop).GetFirstPresentationIndex
prop C07
ensures [same] result == tt.firstGlobalPresentationIndex

func (*TierTop).AppendHash
prop C07
prune
requires tt.hashesFile != nil && tt.theMap != nil && 0 <= tt.firstGlobalPresentationIndex && tt.firstGlobalPresentationIndex < 4611686018427387904
requires [inv] ttlen(tt) && ttdom(tt)
requires [keys] forall(k, ttval(tt, k))
requires [sep] ttsep(tt)
requires [room] len(tt.theSlice) < 65534
requires 0 <= tt.hashesFile.hashCount && tt.hashesFile.hashCount < 1000000000000 && tt.hashesFile.hashCount*32 == fsize(tt.hashesFile.file) && len(tt.hashesFile.scratch) == 32
panics_if len(hash) != 32
modifies tt.theSlice, mapof(tt.theMap), tt.hashesFile.hashCount, file(tt.hashesFile.file), elems(tt.hashesFile.scratch)
ensures [inv] ttlen(tt) && ttdom(tt)
ensures [keys] forall(k, ttval(tt, k))
ensures [sep] ttsep(tt)
ensures [index] imp(err == nil, result0 == tt.firstGlobalPresentationIndex + old(len(tt.theSlice)))
ensures [hash] len(tt.theSlice) == old(len(tt.theSlice)) + 1 && forall(b, 0, 32, tt.theSlice[old(len(tt.theSlice))][b] == hash[b])
ensures [own] !sameobj(tt.theSlice[old(len(tt.theSlice))], hash)
ensures [kept] forall(i, 0, old(len(tt.theSlice)), forall(b, 0, 32, tt.theSlice[i][b] == old(tt.theSlice[i][b])))
ensures [file] imp(err == nil, forall(b, 0, 32, fbyte(tt.hashesFile.file, old(tt.hashesFile.hashCount)*32 + b) == hash[b]))
ensures [ok] imp(iook, err == nil)

func (*TierTop).GetHashesAtIndex
prop C07
requires tt.theMap != nil && tt.config.HashLength == 32 && 0 <= offsetToUse && offsetToUse < 4611686018427387904
requires [inv] ttlen(tt) && ttdom(tt) && len(tt.theSlice) <= 65535
requires [keys] forall(k, ttval(tt, k))
requires [ghost] rnk(0) == 0 && forall(m, 0, len(tt.theSlice), rnk(m+1) == ite(isfst(tt, m), rnk(m)+1, rnk(m)))
panics_if index != 0
loop 1
inv [range] iter <= len(tt.theSlice) && len(result) <= iter && len(result) == rnk(iter)
inv [step] imp(iter < len(tt.theSlice), rnk(iter+1) == ite(isfst(tt, iter), rnk(iter)+1, rnk(iter)))
inv [live] forall(j, 0, len(result), live(result[j].Hash))
inv [sound] forall(j, 0, len(result), offsetToUse + 1 <= result[j].PresentationIndex && result[j].PresentationIndex <= offsetToUse + iter && len(result[j].Hash) == 32 && hk(result[j].Hash) == hk(tt.theSlice[result[j].PresentationIndex - 1 - offsetToUse]))
inv [first] forall(j, 0, len(result), mapval(tt.theMap, hk(result[j].Hash)) == result[j].PresentationIndex - 1 - offsetToUse)
inv [order] forall(j, 1, len(result), result[j-1].PresentationIndex < result[j].PresentationIndex)
inv [all] forall(m, 0, iter, imp(isfst(tt, m), 0 <= rnk(m) && rnk(m) < len(result) && result[rnk(m)].PresentationIndex == offsetToUse + m + 1))
ensures [sound] forall(j, 0, len(result), offsetToUse + 1 <= result[j].PresentationIndex && result[j].PresentationIndex <= offsetToUse + len(tt.theSlice) && len(result[j].Hash) == 32 && hk(result[j].Hash) == hk(tt.theSlice[result[j].PresentationIndex - 1 - offsetToUse]))
ensures [order] forall(j, 1, len(result), result[j-1].PresentationIndex < result[j].PresentationIndex)
ensures [all] forall(m, 0, len(tt.theSlice), imp(isfst(tt, m), 0 <= rnk(m) && rnk(m) < len(result) && result[rnk(m)].PresentationIndex == offsetToUse + m + 1))

func (*TierBelow).TryGetHashAtIndex
prop C08
requires len(hash) == 32
requires imp(len(tb.DonutForestsInfo) != 0, len(tb.hashesFile.scratch) == 32)
requires imp(len(tb.DonutForestsInfo) != 0, 0 <= tb.DonutForestsInfo[0].FirstGlobalPresentationIndex && tb.DonutForestsInfo[0].FirstGlobalPresentationIndex < 4611686018427387904 && tb.hashesFile != nil && 0 <= tb.hashesFile.hashCount && tb.hashesFile.hashCount < 1000000000000)
modifies elems(hash), elems(tb.hashesFile.scratch)
ensures [empty] imp(len(tb.DonutForestsInfo) == 0, err == nil && !result0)
ensures [found] imp(err == nil && len(tb.DonutForestsInfo) != 0, result0 == (0 <= tbo(tb, index) && tbo(tb, index) < tb.hashesFile.hashCount))
ensures [hash] imp(err == nil && result0, forall(b, 0, 32, hash[b] == fbyte(tb.hashesFile.file, tbo(tb, index)*32 + b)))
ensures [keep] imp(err == nil && !result0, forall(b, 0, 32, hash[b] == old(hash[b])))

func github.com/KitchenMishap/pudding-shed/weddingcakeback.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcakeback.NodeIdType].StorageBytes
trusted
ensures [width] result == idwb(ifid(recv))

func github.com/KitchenMishap/pudding-shed/weddingcakeback.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcakeback.NodeIdType].ReadID
trusted
requires [len] len(b) >= idwb(ifid(recv))
ensures [value] result == leidb(b, 0, idwb(ifid(recv)))

func github.com/KitchenMishap/pudding-shed/weddingcakeback.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcakeback.HashIndexIdType].StorageBytes
trusted
ensures [width] result == idwb(ifid(recv))

func github.com/KitchenMishap/pudding-shed/weddingcakeback.NByteIdConfig[github.com/KitchenMishap/pudding-shed/weddingcakeback.HashIndexIdType].ReadID
trusted
requires [len] len(b) >= idwb(ifid(recv))
ensures [value] result == leidb(b, 0, idwb(ifid(recv)))

func (*TierBelow).recurseLookupHash
prop C08
trusted
ensures [small] result < 1099511627776

func (*TierBelow).TryIndexOfHash
prop C08
requires len(hash) == 32 && tb.ThisTierConfig.PrefixBytesCount <= 4 && tb.Config.HashLength == 32
requires forall(i, 0, len(tb.DonutForestsInfo), 0 <= tb.DonutForestsInfo[i].FirstGlobalPresentationIndex && tb.DonutForestsInfo[i].FirstGlobalPresentationIndex < 4611686018427387904)
requires imp(len(tb.DonutForestsInfo) != 0, len(tb.hashesFile.scratch) == 32 && !sameobj(tb.hashesFile.scratch, hash))
modifies elems(tb.hashesFile.scratch)
requires imp(len(tb.DonutForestsInfo) != 0, tb.hashesFile != nil && 0 <= tb.hashesFile.hashCount && tb.hashesFile.hashCount < 1000000000000)
maypanic
loop 1
inv [range] iter <= prefixBytesCount
loop 2
inv [range] donutForestsCount == len(tb.DonutForestsInfo)
ensures [sound] imp(err == nil && result1, 0 <= tbo(tb, result0) && tbo(tb, result0) < tb.hashesFile.hashCount && forall(b, 0, 32, hash[b] == fbyte(tb.hashesFile.file, tbo(tb, result0)*32 + b)))
ensures [none] imp(!result1, result0 == -1)
