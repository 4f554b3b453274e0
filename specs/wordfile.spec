package wordfile
def wfok(p) = 1 <= p.wordSize && p.wordSize <= 8
def w8(f, o, w) = fbyte(f, o) + ite(w > 1, fbyte(f, o+1), 0)*256 + ite(w > 2, fbyte(f, o+2), 0)*65536 + ite(w > 3, fbyte(f, o+3), 0)*16777216 + ite(w > 4, fbyte(f, o+4), 0)*4294967296 + ite(w > 5, fbyte(f, o+5), 0)*1099511627776 + ite(w > 6, fbyte(f, o+6), 0)*281474976710656 + ite(w > 7, fbyte(f, o+7), 0)*72057594037927936
def s64(x) = ite(x < 9223372036854775808, x, x - 18446744073709551616)
def b256(v, k) = (v / pow2(8*k)) % 256

def pw8(w) = ite(w <= 1, 256, ite(w == 2, 65536, ite(w == 3, 16777216, ite(w == 4, 4294967296, ite(w == 5, 1099511627776, ite(w == 6, 281474976710656, ite(w == 7, 72057594037927936, 9223372036854775808)))))))

func (*WordFile).ReadWordAt
prop C01
setup wf.scratch = wf.scratch8[0:wf.wordSize]
requires wfok(wf) && 0 <= off && off < 1000000000000
modifies wf.scratch8
ensures [value] imp(err == nil, result == s64(w8(wf.file, off*wf.wordSize, wf.wordSize)))
ensures [ok] imp(iook && (off+1)*wf.wordSize <= fsize(wf.file), err == nil)
ensures [beyond] imp((off+1)*wf.wordSize > fsize(wf.file), err != nil)

func (*WordFile).WriteWordAt
prop C01
cases wf.wordSize = 1 8
setup wf.scratch = wf.scratch8[0:wf.wordSize]
requires wfok(wf) && 0 <= off && off < 1000000000000
modifies wf.scratch8, wf.wordCount, file(wf.file)
ensures [written] imp(err == nil, forall(k, 0, 8, imp(k < wf.wordSize, fbyte(wf.file, off*wf.wordSize + k) == b256(val, k))))
ensures [others] imp(err == nil, forall(j, 0, old(fsize(wf.file)), imp(j < off*wf.wordSize || j >= (off+1)*wf.wordSize, fbyte(wf.file, j) == old(fbyte(wf.file, j)))))
ensures [size] imp(err == nil, fsize(wf.file) == max(old(fsize(wf.file)), (off+1)*wf.wordSize))
ensures [count] imp(err == nil, wf.wordCount == max(old(wf.wordCount), off+1))
ensures [countfail] imp(err != nil, wf.wordCount == old(wf.wordCount))
ensures [ok] imp(iook, err == nil)
ensures [word] imp(err == nil, forall(w, 1, 9, imp(wf.wordSize == w && 0 <= val && val < pw8(w), s64(w8(wf.file, off*wf.wordSize, w)) == val)))

func (*WordFile).CountWords
prop C01
ensures [count] err == nil && words == wf.wordCount

func (*WordFile).WordSize
prop C01
ensures [width] result == wf.wordSize

func (*WordFile).Sync
prop C01
ensures [ok] imp(iook, result == nil)

func (*WordFile).Close
prop C01
ensures [ok] imp(iook, result == nil)

func NewWordFile
prop C01
inline
requires 1 <= wordSize && wordSize <= 8
fresh result
ensures [state] result != nil && result.wordSize == wordSize && result.wordCount == wordCount && sameobj(result.underlying, underlying)
ensures [scratch] len(result.scratch) == wordSize

func NewWordFileEx
prop C01
inline
requires 1 <= wordSize && wordSize <= 8
fresh result
ensures [state] result != nil && result.wordSize == wordSize && result.wordCount == wordCount
ensures [scratch] len(result.scratch) == wordSize

func (*WordFile).ReadWholeFileAsInt64s
prop C01
requires wfok(wf) && fsize(wf.underlying) < 1000000000000
loop 1
inv [range] iter <= items && items == fsize(wf.underlying) / wf.wordSize && len(data64) == items && len(data) == fsize(wf.underlying)
inv [data] forall(k, 0, len(data), data[k] == fbyte(wf.underlying, k))
inv [words] forall(k, 0, iter, data64[k] == s64(w8(wf.underlying, k*wf.wordSize, wf.wordSize)))
ensures [ok] imp(iook, err == nil)
ensures [count] imp(err == nil, len(result) == fsize(wf.underlying) / wf.wordSize)
ensures [words] imp(err == nil, forall(k, 0, len(result), result[k] == s64(w8(wf.underlying, k*wf.wordSize, wf.wordSize))))

func (*HashFile).ReadHashAt
prop C01
requires len(wf.scratch) == 32 && 0 <= off && off <= 72057594037927936
modifies elems(wf.scratch)
ensures [ok] imp(iook && (off+1)*32 <= fsize(wf.file), err == nil)
ensures [beyond] imp((off+1)*32 > fsize(wf.file), err != nil)
ensures [bytes] imp(err == nil, forall(k, 0, 32, result[k] == fbyte(wf.file, off*32 + k)))

func (*HashFile).WriteHashAt
prop C01
requires len(wf.scratch) == 32 && 0 <= off && off < 1000000000000
modifies elems(wf.scratch), wf.hashCount, file(wf.file)
ensures [ok] imp(iook, err == nil)
ensures [written] imp(err == nil, forall(k, 0, 32, fbyte(wf.file, off*32 + k) == val[k]))
ensures [others] imp(err == nil, forall(j, 0, old(fsize(wf.file)), imp(j < off*32 || j >= (off+1)*32, fbyte(wf.file, j) == old(fbyte(wf.file, j)))))
ensures [size] imp(err == nil, fsize(wf.file) == max(old(fsize(wf.file)), (off+1)*32))
ensures [count] imp(err == nil, wf.hashCount == max(old(wf.hashCount), off+1))
ensures [countfail] imp(err != nil, wf.hashCount == old(wf.hashCount))

func (*HashFile).AppendHash
prop C01
requires len(wf.scratch) == 32 && 0 <= wf.hashCount && wf.hashCount < 1000000000000
modifies elems(wf.scratch), wf.hashCount, file(wf.file)
ensures [ok] imp(iook, err == nil)
ensures [index] imp(err == nil, result == old(wf.hashCount) && wf.hashCount == result + 1)
ensures [written] imp(err == nil, forall(k, 0, 32, fbyte(wf.file, result*32 + k) == val[k]))
ensures [others] imp(err == nil, forall(j, 0, old(fsize(wf.file)), imp(j < result*32 || j >= (result+1)*32, fbyte(wf.file, j) == old(fbyte(wf.file, j)))))

func (*HashFile).CountHashes
prop C01
ensures [count] hashes == wf.hashCount

func (*HashFile).Sync
prop C01
ensures [ok] imp(iook, result == nil)

func (*HashFile).Close
prop C01
ensures [ok] imp(iook, result == nil)

func NewHashFile
prop C01
fresh result
ensures [state] result != nil && result.hashCount == hashCount && len(result.scratch) == 32

func (*ConcreteWordFileCreator).countWords
prop C01
requires 1 <= wfc.wordSize && wfc.wordSize <= 8
ensures [count] imp(err == nil, result * wfc.wordSize == fsize(file) && result >= 0)
ensures [whole] imp(iook, iff(err == nil, fsize(file) % wfc.wordSize == 0))

func (*ConcreteMmapWordFileCreator).countWords
prop C01
requires 1 <= wfc.wordSize && wfc.wordSize <= 8
ensures [count] imp(err == nil, result * wfc.wordSize == fsize(file) && result >= 0)
ensures [whole] imp(iook, iff(err == nil, fsize(file) % wfc.wordSize == 0))

def wf0(wf) = wf.underlying
func (*MemShadowedWordFile).ReadWordAt
prop C01
ensures [inside] imp(0 <= off && off < len(wf.shadow), err == nil && result == wf.shadow[off])
ensures [outside] imp(off < 0 || off >= len(wf.shadow), err != nil)

func (*MemShadowedWordFile).WriteWordAt
prop C01
setup wf.underlying.scratch = wf.underlying.scratch8[0:wf.underlying.wordSize]
requires wfok(wf.underlying) && 0 <= off && off < 1000000000000
requires len(wf.shadow) == wf.underlying.wordCount
modifies wf.shadow, elems(wf.shadow), wf.underlying.scratch8, wf.underlying.wordCount, file(wf.underlying.file)
loop 1
inv [len] len(wf.shadow) == old(len(wf.shadow)) + iter && iter <= newVals && newVals == off + 1 - old(len(wf.shadow))
inv [same] forall(k, 0, old(len(wf.shadow)), wf.shadow[k] == old(wf.shadow[k]))
inv [zero] forall(k, old(len(wf.shadow)), len(wf.shadow), wf.shadow[k] == 0)
ensures [ok] imp(iook, result == nil)
ensures [shadow] wf.shadow[off] == val && forall(k, 0, old(len(wf.shadow)), imp(k != off, wf.shadow[k] == old(wf.shadow[k])))
ensures [count] imp(result == nil, len(wf.shadow) == wf.underlying.wordCount)
ensures [gap] forall(k, old(len(wf.shadow)), off, wf.shadow[k] == 0)
ensures [word] imp(result == nil, forall(w, 1, 9, imp(wf.underlying.wordSize == w && 0 <= val && val < pw8(w), s64(w8(wf.underlying.file, off*wf.underlying.wordSize, w)) == wf.shadow[off])))
ensures [others] imp(result == nil, forall(j, 0, old(fsize(wf.underlying.file)), imp(j < off*wf.underlying.wordSize || j >= (off+1)*wf.underlying.wordSize, fbyte(wf.underlying.file, j) == old(fbyte(wf.underlying.file, j)))))

func (*MemShadowedWordFile).CountWords
prop C01
ensures [count] err == nil && words == wf.underlying.wordCount

func (*MemShadowedWordFile).WordSize
prop C01
ensures [width] result == wf.underlying.wordSize

func NewMemShadowedWordFile
prop C01
requires 1 <= wordSize && wordSize <= 8 && 0 <= wordCount && wordCount < 1000000000000
loop 1
inv [range] 0 <= i && i <= wordCount && len(p.shadow) == wordCount
inv [wf] p.underlying.wordSize == wordSize && p.underlying.wordCount == wordCount
inv [words] forall(k, 0, i, p.shadow[k] == s64(w8(file, k*wordSize, wordSize)))
ensures [ok] imp(iook && fsize(file) >= wordCount*wordSize, err == nil)
ensures [shadow] imp(err == nil, len(result.shadow) == wordCount && result.underlying.wordCount == wordCount && forall(k, 0, wordCount, result.shadow[k] == s64(w8(file, k*wordSize, wordSize))))
