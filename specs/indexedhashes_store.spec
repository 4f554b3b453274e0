package indexedhashes
def hse(f, i, h) = forall(b, 0, 32, fbyte(f, i*32 + b) == h[b])
def bho(b) = len(b.hashFile.scratch) == 32 && 0 <= b.hashFile.hashCount && b.hashFile.hashCount < 1000000000000

func (*BasicHashStore).AppendHash
prop C09
requires bho(bhs)
modifies elems(bhs.hashFile.scratch), bhs.hashFile.hashCount, file(bhs.hashFile.file)
ensures [ok] imp(iook, err == nil)
ensures [index] imp(err == nil, result == old(bhs.hashFile.hashCount) && bhs.hashFile.hashCount == result + 1)
ensures [stored] imp(err == nil, hse(bhs.hashFile.file, result, hash))
ensures [kept] imp(err == nil, forall(j, 0, old(fsize(bhs.hashFile.file)), imp(j < result*32 || j >= (result+1)*32, fbyte(bhs.hashFile.file, j) == old(fbyte(bhs.hashFile.file, j)))))
ensures [failed] imp(err != nil, bhs.hashFile.hashCount == old(bhs.hashFile.hashCount))

func (*BasicHashStore).IndexOfHash
prop C09
requires bho(bhs)
modifies elems(bhs.hashFile.scratch)
loop 1
inv [range] iter <= bhs.hashFile.hashCount
inv [none] forall(k, 0, iter, !hse(bhs.hashFile.file, k, hash))
ensures [found] imp(err == nil && result != -1, 0 <= result && result < bhs.hashFile.hashCount && hse(bhs.hashFile.file, result, hash) && forall(k, 0, result, !hse(bhs.hashFile.file, k, hash)))
ensures [absent] imp(err == nil && result == -1, forall(k, 0, bhs.hashFile.hashCount, !hse(bhs.hashFile.file, k, hash)))
ensures [ok] imp(iook && fsize(bhs.hashFile.file) >= 32*bhs.hashFile.hashCount, err == nil)

func (*BasicHashStore).GetHashAtIndex
prop C09
requires bho(bhs) && 0 <= index && index <= 72057594037927936
modifies elems(bhs.hashFile.scratch), elems(hash)
ensures [hash] imp(result == nil, hse(bhs.hashFile.file, index, hash))
ensures [ok] imp(iook && (index+1)*32 <= fsize(bhs.hashFile.file), result == nil)
ensures [beyond] imp((index+1)*32 > fsize(bhs.hashFile.file), result != nil)

func (*BasicHashStore).CountHashes
prop C09
ensures [count] err == nil && result == bhs.hashFile.hashCount

func (*MemoryIndexedHashes).addToMap
prop C09
requires 0 <= mih.count && mih.count < 1000000000000
let key = keyof(*hash, 32)
modifies mih.count, mapof(mih.theMap)
ensures [count] mih.count == old(mih.count) + 1
ensures [index] mapdom(mih.theMap, key) && mapval(mih.theMap, key) == ite(old(mapdom(mih.theMap, keyof(*hash, 32))), old(mapval(mih.theMap, keyof(*hash, 32))), old(mih.count))
ensures [others] forallt(k, mapdom(mih.theMap, k), imp(k != key, iff(mapdom(mih.theMap, k), old(mapdom(mih.theMap, k))) && imp(mapdom(mih.theMap, k), mapval(mih.theMap, k) == old(mapval(mih.theMap, k)))))

func (*MemoryIndexedHashes).AppendHash
prop C09
requires 0 <= mih.count && mih.count < 1000000000000 && bho(mih.theStore)
let key = keyof(*hash, 32)
modifies mih.count, mapof(mih.theMap), elems(mih.theStore.hashFile.scratch), mih.theStore.hashFile.hashCount, file(mih.theStore.hashFile.file)
ensures [ok] imp(iook, err == nil)
ensures [stored] imp(err == nil, result == old(mih.theStore.hashFile.hashCount) && hse(mih.theStore.hashFile.file, result, hash))
ensures [count] imp(err == nil, mih.count == old(mih.count) + 1 && mih.theStore.hashFile.hashCount == old(mih.theStore.hashFile.hashCount) + 1)
ensures [index] imp(err == nil, mapdom(mih.theMap, key) && mapval(mih.theMap, key) == ite(old(mapdom(mih.theMap, keyof(*hash, 32))), old(mapval(mih.theMap, keyof(*hash, 32))), old(mih.count)))
ensures [others] imp(err == nil, forallt(k, mapdom(mih.theMap, k), imp(k != key, iff(mapdom(mih.theMap, k), old(mapdom(mih.theMap, k))) && imp(mapdom(mih.theMap, k), mapval(mih.theMap, k) == old(mapval(mih.theMap, k))))))

func (*MemoryIndexedHashes).IndexOfHash
prop C09
ensures [index] result1 == nil && result0 == ite(mapdom(mih.theMap, keyof(*hash, 32)), mapval(mih.theMap, keyof(*hash, 32)), -1)

func (*MemoryIndexedHashes).GetHashAtIndex
prop C09
requires bho(mih.theStore) && 0 <= index && index < 1000000000000
modifies elems(mih.theStore.hashFile.scratch), elems(hash)
ensures [hash] imp(result == nil, hse(mih.theStore.hashFile.file, index, hash))
ensures [ok] imp(iook && (index+1)*32 <= fsize(mih.theStore.hashFile.file), result == nil)

func (*MemoryIndexedHashes).CountHashes
prop C09
ensures [count] result1 == nil && result0 == mih.count

func (*MemoryIndexedHashes).loadMap
prop C09
requires 0 <= mih.count && bho(mih.theStore) && mih.count <= mih.theStore.hashFile.hashCount
modifies mih.count, mapof(mih.theMap), elems(mih.theStore.hashFile.scratch)
loop 1
inv [range] old(mih.count) <= mih.count && mih.count <= mih.theStore.hashFile.hashCount
inv [kept] forallt(k, mapdom(mih.theMap, k), imp(old(mapdom(mih.theMap, k)), mapdom(mih.theMap, k) && mapval(mih.theMap, k) == old(mapval(mih.theMap, k))))
ensures [count] imp(result == nil, mih.count == mih.theStore.hashFile.hashCount)
ensures [kept] forallt(k, mapdom(mih.theMap, k), imp(old(mapdom(mih.theMap, k)), mapdom(mih.theMap, k) && mapval(mih.theMap, k) == old(mapval(mih.theMap, k))))
ensures [ok] imp(iook && 32*mih.theStore.hashFile.hashCount <= fsize(mih.theStore.hashFile.file), result == nil)

ufun hah(int) int 0 1
ufun hce(int, int) int 0 100000000000000000
ufun hnx(int) int
ufun hlk() int
ufun hlx() int
ufun hmt(int) int 0 1
ufun hwc() int
ufun hwj() int
def hsz(h) = 1 <= h.entryByteCount && h.entryByteCount <= 7 && 2 <= h.collisionsPerChunk && h.collisionsPerChunk <= 8 && 0 <= h.partialHashBitCount && h.partialHashBitCount <= 48
def hsw(f, i, n) = w8(f, i * n, n)
def hsf(h, i, s) = hse(h.hashesFile.hashFile.file, i, s)
def hmsb(h) = pow2(8*h.entryByteCount - 1)
def hcw(h, c, j) = w8(h.collisionsFile, (c * (h.collisionsPerChunk + 1) + j) * h.entryByteCount, h.entryByteCount)
def hdn() = hmt(hce(hwc(), hwj()) - 1) == 0

func (*HashStore).IndexOfHash
prop C09
cases hs.entryByteCount = 1 7
requires hsz(hs) && bho(hs.hashesFile)
requires [lookup] hlx() == le(hash, 0, 8) % pow2(hs.partialHashBitCount) && hsw(hs.lookupsFile, hlx(), hs.entryByteCount) == hlk()
requires [same] forallt(i, hmt(i), iff(hmt(i) == 1, hsf(hs, i, hash)))
requires [word] forallt(c, hah(c), forallt(j, hce(c, j), imp(0 <= j && j <= hs.collisionsPerChunk, hcw(hs, c, j) == hce(c, j))))
requires [head] imp(hlk() >= hmsb(hs), hlk() > hmsb(hs) && hah(hlk() - hmsb(hs) - 1) == 1)
requires [full] forallt(c, hah(c), forallt(j, hce(c, j), imp(hah(c) == 1 && 0 <= j && j <= ite(c == hwc(), hwj(), hs.collisionsPerChunk), hce(c, j) != 0)))
requires [next] forallt(c, hnx(c), hnx(c) == hce(c, hs.collisionsPerChunk) && imp(hah(c) == 1 && c != hwc(), hah(hnx(c) - 1) == 1))
requires [witness] 0 <= hwj() && hwj() < hs.collisionsPerChunk
modifies elems(hs.hashesFile.hashFile.scratch)
loop 1
inv [at] 1 <= link && link <= 72057594037927936 && hnx(link - 1) == hce(link - 1, hs.collisionsPerChunk)
inv [ahead] hah(link - 1) == 1 || hdn()
loop 2
inv [j] 0 <= j && j <= CPC + 1 && CPC == hs.collisionsPerChunk && NBYTES == hs.entryByteCount
inv [at] 1 <= link && link <= 72057594037927936 && hnx(link - 1) == hce(link - 1, CPC)
inv [cur] imp(j <= CPC, hcw(hs, link - 1, j) == hce(link - 1, j))
inv [ahead] hah(link - 1) == 1 || hdn()
inv [here] imp(hah(link - 1) == 1 && link - 1 == hwc() && hwj() < j && j <= CPC, hdn())
ensures [absent] imp(err == nil && result == -1 && hlk() >= hmsb(hs), hdn())
ensures [absent1] imp(err == nil && result == -1 && hlk() < hmsb(hs) && hlk() > 0, hmt(hlk() - 1) == 0)
ensures [equal] imp(err == nil && result != -1, 0 <= result && hmt(result) == 1)

ufun hnc() int 0 1000000000000
ufun hlx2() int 0 1000000000000000
ufun hwy() int 0 1000000000000000
def hwd(h, y) = w8(h.collisionsFile, y * h.entryByteCount, h.entryByteCount)

func (*HashStore).AppendHash
prop C09
cases hs.entryByteCount = 1 7
requires hsz(hs) && bho(hs.hashesFile)
requires [files] fid(hs.lookupsFile) != fid(hs.collisionsFile) && fid(hs.lookupsFile) != fid(hs.hashesFile.hashFile.file) && fid(hs.collisionsFile) != fid(hs.hashesFile.hashFile.file)
requires [key] hlx() == le(hash, 0, 8) % pow2(hs.partialHashBitCount) && hsw(hs.lookupsFile, hlx(), hs.entryByteCount) == hlk()
requires [chunks] fsize(hs.collisionsFile) == hnc() * ((hs.collisionsPerChunk + 1) * hs.entryByteCount)
requires [fit] hnc() <= hs.hashesFile.hashFile.hashCount
requires [head] imp(hlk() >= hmsb(hs), hlk() > hmsb(hs) && hah(hlk() - hmsb(hs) - 1) == 1)
requires [next] forallt(c, hah(c), imp(hah(c) == 1 && hcw(hs, c, hs.collisionsPerChunk) != 0, hah(hcw(hs, c, hs.collisionsPerChunk) - 1) == 1))
modall
loop 2
inv [at] 0 <= chunk && chunk <= 72057594037927936 && 0 <= j && j <= 7 && j < CPC && CPC == hs.collisionsPerChunk && NBYTES == hs.entryByteCount
inv [size] imp(collider != 0, fsize(hs.collisionsFile) == old(fsize(hs.collisionsFile)))
inv [in] imp(collider != 0, (chunk*(CPC+1) + CPC)*NBYTES + NBYTES <= fsize(hs.collisionsFile))
inv [same] imp(collider != 0, forall(b, 0, old(fsize(hs.collisionsFile)), fbyte(hs.collisionsFile, b) == old(fbyte(hs.collisionsFile, b))))
inv [free] collider == hwd(hs, chunk*(CPC+1) + j)
inv [bytes] imp(collider != 0, forall(k, 0, NBYTES*(CPC+1), chunkBytes[k] == fbyte(hs.collisionsFile, chunk*(CPC+1)*NBYTES + k)))
inv [chain] imp(collider != 0, hah(chunk) == 1)
inv [kept] imp(old(hwd(hs, hwy())) != 0 && hs.entryByteCount*(hwy()+1) <= old(fsize(hs.collisionsFile)), hwd(hs, hwy()) == old(hwd(hs, hwy())))
ensures [index] imp(err == nil, result == old(hs.hashesFile.hashFile.hashCount) && hs.hashesFile.hashFile.hashCount == result + 1 && hsf(hs, result, hash))
ensures [vacant] imp(err == nil && hlk() == 0, hsw(hs.lookupsFile, hlx(), hs.entryByteCount) == result + 1)
ensures [first] imp(err == nil && 0 < hlk() && hlk() < hmsb(hs), hsw(hs.lookupsFile, hlx(), hs.entryByteCount) == hnc() + 1 + hmsb(hs) && hwd(hs, hnc()*(hs.collisionsPerChunk+1)) == hlk() && hwd(hs, hnc()*(hs.collisionsPerChunk+1) + 1) == result + 1)
ensures [others] imp(err == nil && hlx2() != hlx(), hsw(hs.lookupsFile, hlx2(), hs.entryByteCount) == old(hsw(hs.lookupsFile, hlx2(), hs.entryByteCount)))
ensures [chained] imp(err == nil && hlk() > hmsb(hs), hsw(hs.lookupsFile, hlx(), hs.entryByteCount) == hlk())
ensures [kept] imp(err == nil && old(hwd(hs, hwy())) != 0 && hs.entryByteCount*(hwy()+1) <= old(fsize(hs.collisionsFile)), hwd(hs, hwy()) == old(hwd(hs, hwy())))
