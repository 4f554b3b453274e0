package indexedhashes3
def b0w(s, o, w, k) = ite(w > k, s[o+k], 0)
def vle(s, o, w) = s[o] + b0w(s,o,w,1)*256 + b0w(s,o,w,2)*65536 + b0w(s,o,w,3)*16777216 + b0w(s,o,w,4)*4294967296 + b0w(s,o,w,5)*1099511627776 + b0w(s,o,w,6)*281474976710656 + b0w(s,o,w,7)*72057594037927936
def p256(w) = ite(w <= 1, 256, ite(w == 2, 65536, ite(w == 3, 16777216, ite(w == 4, 4294967296, ite(w == 5, 1099511627776, ite(w == 6, 281474976710656, ite(w == 7, 72057594037927936, 18446744073709551616)))))))
def hib(p) = (p.BitsPerHashIndex_ - 1) / 8 + 1
def snb(p) = p.BytesPerSortNum_
def pok(p) = 1 <= p.BitsPerHashIndex_ && p.BitsPerHashIndex_ <= 64 && 1 <= p.BytesPerSortNum_ && p.BytesPerSortNum_ <= 8 && p.bytesPerBinEntry == 24 + p.BytesPerSortNum_ + hib(p)
def zer1(a, lo, hi, k) = imp(lo <= k && k < hi, a[k] == 0)
def zer(a, lo, hi) = zer1(a,lo,hi,0) && zer1(a,lo,hi,1) && zer1(a,lo,hi,2) && zer1(a,lo,hi,3) && zer1(a,lo,hi,4) && zer1(a,lo,hi,5) && zer1(a,lo,hi,6) && zer1(a,lo,hi,7)
def sgn64(x) = ite(x < 9223372036854775808, x, x - 18446744073709551616)

func (*HashIndexingParams).calculateDerivedValues
prop C11
requires 2 <= p.NumberOfBins_ && p.NumberOfBins_ % 2 == 0
requires 1 <= p.BitsPerHashIndex_ && p.BitsPerHashIndex_ <= 64 && 0 <= p.BytesPerSortNum_ && p.BytesPerSortNum_ <= 8
modifies p.bytesRoomForBinNum, p.divider, p.bytesPerBinEntry
unroll 9
ensures [covers] p.divider * p.NumberOfBins_ >= 18446744073709551616
ensures [even] (p.divider - 1) * p.NumberOfBins_ < 18446744073709551616 && p.divider >= 1
ensures [entry] p.bytesPerBinEntry == 24 + p.BytesPerSortNum_ + (p.BitsPerHashIndex_ - 1) / 8 + 1
ensures [room] imp(p.NumberOfBins_ <= 72057594037927936, p.bytesRoomForBinNum >= 1 && p.bytesRoomForBinNum <= 7 && p.NumberOfBins_ <= p256(p.bytesRoomForBinNum))

func NewHashStoreParams
prop C11
fresh result
panics_if numberOfBins % 2 == 1 || bytesPerSortNum > 8
requires 1 <= numberOfBins && 1 <= bitsPerHashIndex && bitsPerHashIndex <= 64 && 0 <= bytesPerSortNum
ensures [kept] result.BitsPerHashIndex_ == bitsPerHashIndex && result.NumberOfBins_ == numberOfBins && result.EntriesInBinStart_ == entriesInBinStart && result.BytesPerSortNum_ == bytesPerSortNum && result.HashCountEstimate_ == hashCountEstimate && result.DigitsPerNumberedFolder_ == digitsPerNumberedFolder
ensures [covers] result.divider * result.NumberOfBins_ >= 18446744073709551616
ensures [entry] result.bytesPerBinEntry == 24 + result.BytesPerSortNum_ + (result.BitsPerHashIndex_ - 1) / 8 + 1
ensures [room] imp(result.NumberOfBins_ <= 72057594037927936, result.bytesRoomForBinNum >= 1 && result.bytesRoomForBinNum <= 7 && result.NumberOfBins_ <= p256(result.bytesRoomForBinNum))

func (*Hash).toTruncatedHash
prop C11
ensures [bytes] forall(k, 0, 24, result[k] == h[8+k])

func (*Hash).toAbbreviatedHash
prop C11
ensures [value] result == le(h, 0, 8)

func NewHashFromTruncatedHashAbbreviatedHash
prop C11
fresh result
ensures [low] le(result, 0, 8) == a
ensures [high] forall(k, 0, 24, result[8+k] == t[k])

func (*abbreviatedHash).toBinNum
prop C11
requires p.divider >= 1
ensures [quotient] result == *ah / p.divider

func (*abbreviatedHash).toSortNum
prop C11
requires p.divider >= 1
ensures [remainder] result == *ah % p.divider

func newAbbreviatedHashFromBinNumSortNum
prop C11
requires bn * p.divider + sn < 18446744073709551616
ensures [value] result == bn * p.divider + sn

func (*truncatedHash).equals
prop C11
ensures [equal] result == forall(k, 0, 24, tr[k] == tr2[k])

lemma lemmaSplitJoin
prop C11
requires p.divider >= 1 && p.NumberOfBins_ >= 1 && p.divider * p.NumberOfBins_ >= 18446744073709551616
ensures [low] le(result0, 0, 8) == le(h, 0, 8)
ensures [high] forall(k, imp(8 <= k && k < 32, result0[k] == h[k]))
ensures [bin] result1 < p.NumberOfBins_
ensures [sort] result2 < p.divider

func newBinEntryBytes
prop C11
fresh result
requires pok(p) && 0 <= hi
panics_if hi >= p256(hib(p)) || sn >= p256(snb(p))
ensures [len] len(result) == p.bytesPerBinEntry
ensures [hash] forall(k, 0, 24, result[k] == t[k])
ensures [index] vle(result, 24, hib(p)) == hi
ensures [sort] vle(result, 24 + hib(p), snb(p)) == sn

func writeBinEntryBytes
prop C11
requires pok(p) && 0 <= hi && len(target) >= p.bytesPerBinEntry
panics_if hi >= p256(hib(p)) || sn >= p256(snb(p))
modifies elems(target[0:p.bytesPerBinEntry])
loop 1
inv [zero] hib(p) + iter <= 8 && zer(bytesForHashIndex, hib(p), hib(p) + iter)
loop 2
inv [zero] snb(p) + iter <= 8 && zer(bytesForSortNum, snb(p), snb(p) + iter)
inv [index] vle(target, 24, hib(p)) == hi
inv [hash] forall(k, 0, 24, target[k] == t[k])
ensures [hash] forall(k, 0, 24, target[k] == t[k])
ensures [index] vle(target, 24, hib(p)) == hi
ensures [sort] vle(target, 24 + hib(p), snb(p)) == sn

func (*binEntryBytes).getTruncatedHash
prop C11
requires len(*beb) >= 24
ensures [hash] forall(k, 0, 24, result[k] == (*beb)[k])

func (*binEntryBytes).getHashIndexSortNum
prop C11
requires pok(p) && len(*beb) >= p.bytesPerBinEntry
ensures [index] result0 == sgn64(vle(*beb, 24, hib(p)))
ensures [sort] result1 == vle(*beb, 24 + hib(p), snb(p))

lemma lemmaEntry
prop C11
requires pok(p) && 0 <= hi && hi < p256(hib(p)) && sn < p256(snb(p))
ensures [hash] forall(k, 0, 24, result0[k] == t[k])
ensures [index] result1 == hi
ensures [sort] result2 == sn

ufun bkey(int) int
ufun bhi(int) int
def snat(b, p, i) = vle(b.bytes, p.bytesPerBinEntry*i + 24 + hib(p), snb(p))
def hiat(b, p, i) = sgn64(vle(b.bytes, p.bytesPerBinEntry*i + 24, hib(p)))
def thm(b, p, i, th) = forall(k, 0, 24, b.bytes[p.bytesPerBinEntry*i + k] == th[k])
def bcnt(b, p) = len(b.bytes) / p.bytesPerBinEntry
def bwf(b, p) = pok(p) && len(b.bytes) % p.bytesPerBinEntry == 0
def bkeys(b, p) = forallt(i, bkey(i), imp(0 <= i && i < bcnt(b, p), bkey(i) == snat(b, p, i) && bhi(i) == hiat(b, p, i) && 0 <= p.bytesPerBinEntry*i && p.bytesPerBinEntry*i + p.bytesPerBinEntry <= len(b.bytes)))
def bsorted(n) = forallt(i, bkey(i), forallt(j, bkey(j), imp(0 <= i && i <= j && j < n, bkey(i) <= bkey(j))))

func (*bin).getEntry
prop C12
requires pok(p) && 0 <= index && index < 100000000000 && p.bytesPerBinEntry*(index+1) <= len(b.bytes)
inline
ensures [entry] sameslice(result, b.bytes[p.bytesPerBinEntry*index : p.bytesPerBinEntry*(index+1)])

func (*bin).length
prop C12
requires bytesPerEntry > 0
ensures [count] result == len(b.bytes) / bytesPerEntry

func (*bin).homeInOnSortNum
prop C12
requires bwf(b, p) && bkeys(b, p) && bsorted(bcnt(b, p))
requires 0 <= startIndex && startIndex < endIndex && endIndex < bcnt(b, p) && endIndex < 2706490105602 && bkey(startIndex) <= bkey(endIndex)
loop 1
inv [low] bkey(startIndex) < sn
inv [range] startIndex <= midIndex && midIndex < endIndex && bkey(midIndex) == snMid && snMid <= sn && forallt(i, bkey(i), imp(midIndex < i && i <= endIndex, bkey(i) >= sn))
loop 2
inv [low] bkey(startIndex) < sn
inv [range] startIndex <= endSequenceIndex && endSequenceIndex <= endIndex && bkey(endSequenceIndex) == snEndSequence && snEndSequence <= sn && forallt(i, bkey(i), imp(endSequenceIndex < i && i <= endIndex, bkey(i) >= sn))
assert floatIndex real(0) - real(1) <= real(8) * (floatIndex - real(startIndex)) && real(8) * (floatIndex - real(endIndex)) <= real(1)
ensures [done] imp(newStart == newEnd, startIndex <= newStart && newStart <= endIndex + 1 && forallt(i, bkey(i), imp(startIndex <= i && i < newStart, bkey(i) < sn)) && forallt(i, bkey(i), imp(newStart <= i && i <= endIndex, bkey(i) >= sn)))
ensures [closer] imp(newStart != newEnd, startIndex <= newStart && newStart < newEnd && newEnd <= endIndex && newEnd - newStart < endIndex - startIndex && bkey(newStart) < sn && bkey(newEnd) > sn)

func (*bin).findIndexBasedOnSortNum
prop C12
requires bwf(b, p) && bkeys(b, p) && bsorted(bcnt(b, p)) && bcnt(b, p) < 2706490105602
loop 1
inv [range] 0 <= startIndex && startIndex <= endIndex && imp(startIndex != endIndex, endIndex < bcnt(b, p)) && startIndex <= bcnt(b, p)
inv [low] forallt(i, bkey(i), imp(0 <= i && i < startIndex, bkey(i) < sn))
inv [high] forallt(i, bkey(i), imp(endIndex < i && i < bcnt(b, p), bkey(i) >= sn))
inv [done] imp(startIndex == endIndex && startIndex < bcnt(b, p), bkey(startIndex) >= sn)
ensures [range] 0 <= result && result <= bcnt(b, p)
ensures [below] forallt(i, bkey(i), imp(0 <= i && i < result, bkey(i) < sn))
ensures [above] forallt(i, bkey(i), imp(result <= i && i < bcnt(b, p), bkey(i) >= sn))

ufun bth(int) bool
def bths(b, p, th) = forallt(i, bth(i), imp(0 <= i && i < bcnt(b, p), bth(i) == thm(b, p, i, th)))
def bmt(i, sn) = bkey(i) == sn && bth(i)

func (*bin).lookupByHash
prop C12
requires bwf(b, p) && bkeys(b, p) && bsorted(bcnt(b, p)) && bcnt(b, p) < 2706490105602 && bths(b, p, th)
loop 1
inv [range] 0 <= index && index <= bcnt(b, p)
inv [below] forallt(i, bkey(i), imp(0 <= i && i < index, !(bkey(i) == sn && bth(i))))
inv [here] imp(index < bcnt(b, p), bkey(index) >= sn)
inv [above] forallt(i, bkey(i), imp(index <= i && i < bcnt(b, p), bkey(i) >= sn))
ensures [found] forallt(i, bkey(i), imp(0 <= i && i < bcnt(b, p) && bkey(i) == sn && bth(i) && forallt(j, bkey(j), imp(0 <= j && j < i, !(bkey(j) == sn && bth(j)))), result == bhi(i)))
ensures [absent] imp(forallt(j, bkey(j), imp(0 <= j && j < bcnt(b, p), !(bkey(j) == sn && bth(j)))), result == 0 - 1)

func (*bin).lookupByIndex
prop C12
requires bwf(b, p) && bkeys(b, p) && bcnt(b, p) < 2706490105602 && p.divider >= 1
requires forallt(i, bkey(i), imp(0 <= i && i < bcnt(b, p), bn * p.divider + bkey(i) < 18446744073709551616))
loop 1
inv [range] iter <= bcnt(b, p)
inv [here] imp(iter < bcnt(b, p), bn * p.divider + bkey(iter) < 18446744073709551616)
inv [below] forallt(i, bkey(i), imp(0 <= i && i < iter, bhi(i) != hi))
ensures [found] forallt(i, bkey(i), imp(0 <= i && i < bcnt(b, p) && bhi(i) == hi && forallt(j, bkey(j), imp(0 <= j && j < i, bhi(j) != hi)), le(result, 0, 8) == bn * p.divider + bkey(i) && forall(k, 0, 24, result[8+k] == b.bytes[p.bytesPerBinEntry*i + k])))
ensures [absent] imp(forallt(j, bkey(j), imp(0 <= j && j < bcnt(b, p), bhi(j) != hi)), forall(k, 0, 32, result[k] == 0))

func (*bin).setEntry
prop C12
requires 1 <= len(val) && len(val) <= 40 && 0 <= index && index < 2706490105602 && len(val)*index + len(val) <= len(b.bytes)
modifies elems(b.bytes[len(val)*index : len(val)*index + len(val)])
ensures [kept] len(b.bytes) == old(len(b.bytes))
ensures [set] forall(k, imp(len(val)*index <= k && k < len(val)*index + len(val), b.bytes[k] == old(val[k - len(val)*index])))

func (*bin).appendBinEntry
prop C12
requires pok(p) && 0 <= hi && len(b.bytes) < 100000000000000
panics_if hi >= p256(hib(p)) || sn >= p256(snb(p))
modifies b.bytes, allelems(b.bytes)
ensures [len] len(b.bytes) == old(len(b.bytes)) + p.bytesPerBinEntry
ensures [kept] forall(k, 0, old(len(b.bytes)), b.bytes[k] == old(b.bytes[k]))
ensures [hash] forall(k, 0, 24, b.bytes[old(len(b.bytes)) + k] == th[k])
ensures [index] vle(b.bytes, old(len(b.bytes)) + 24, hib(p)) == hi
ensures [sort] vle(b.bytes, old(len(b.bytes)) + 24 + hib(p), snb(p)) == sn

func (*bin).insertBinEntry
prop C12
requires bwf(b, p) && bkeys(b, p) && bsorted(bcnt(b, p)) && bcnt(b, p) < 2706490105602 && 0 <= hi
panics_if hi >= p256(hib(p)) || sn >= p256(snb(p))
modifies b.bytes, allelems(b.bytes)
ensures [range] 0 <= result && result <= old(bcnt(b, p))
ensures [len] len(b.bytes) == old(len(b.bytes)) + p.bytesPerBinEntry
ensures [sorted] forall(i, 0, result, bkey(i) < sn) && forall(i, result, old(bcnt(b, p)), bkey(i) >= sn)
ensures [before] forall(k, 0, p.bytesPerBinEntry*result, b.bytes[k] == old(b.bytes[k]))
ensures [after] forall(k, imp(p.bytesPerBinEntry*(result+1) <= k && k < len(b.bytes), b.bytes[k] == old(b.bytes[k - p.bytesPerBinEntry])))
ensures [hash] forall(k, 0, 24, b.bytes[p.bytesPerBinEntry*result + k] == th[k])
ensures [index] vle(b.bytes, p.bytesPerBinEntry*result + 24, hib(p)) == hi
ensures [sort] vle(b.bytes, p.bytesPerBinEntry*result + 24 + hib(p), snb(p)) == sn

def enat(s, p) = vle(s, 24 + hib(p), snb(p))
def einx(s, p) = sgn64(vle(s, 24, hib(p)))

func compareBinEntries
prop C12
requires pok(p) && len(a) >= p.bytesPerBinEntry && len(b) >= p.bytesPerBinEntry
ensures [less] imp(enat(a, p) < enat(b, p) || (enat(a, p) == enat(b, p) && einx(a, p) < einx(b, p)), result == 0 - 1)
ensures [more] imp(enat(a, p) > enat(b, p) || (enat(a, p) == enat(b, p) && einx(a, p) > einx(b, p)), result == 1)
ensures [same] imp(enat(a, p) == enat(b, p) && einx(a, p) == einx(b, p), result == 0)

func (flatBinSorter).Less
prop C12
requires pok(s.params) && s.bytesPerEntry == s.params.bytesPerBinEntry && 0 <= i && 0 <= j && i < 2706490105602 && j < 2706490105602
requires s.bytesPerEntry*i + s.bytesPerEntry <= len(s.bytes) && s.bytesPerEntry*j + s.bytesPerEntry <= len(s.bytes)
ensures [less] result == (snat(s, s.params, i) < snat(s, s.params, j) || (snat(s, s.params, i) == snat(s, s.params, j) && hiat(s, s.params, i) < hiat(s, s.params, j)))

func (flatBinSorter).Swap
prop C12
requires 1 <= s.bytesPerEntry && s.bytesPerEntry <= 40 && 0 <= i && 0 <= j && i < 2706490105602 && j < 2706490105602
requires s.bytesPerEntry*i + s.bytesPerEntry <= len(s.bytes) && s.bytesPerEntry*j + s.bytesPerEntry <= len(s.bytes)
requires i == j || s.bytesPerEntry*i + s.bytesPerEntry <= s.bytesPerEntry*j || s.bytesPerEntry*j + s.bytesPerEntry <= s.bytesPerEntry*i
modifies elems(s.bytes)
ensures [first] forall(k, 0, s.bytesPerEntry, s.bytes[s.bytesPerEntry*i + k] == old(s.bytes[s.bytesPerEntry*j + k]))
ensures [second] forall(k, 0, s.bytesPerEntry, s.bytes[s.bytesPerEntry*j + k] == old(s.bytes[s.bytesPerEntry*i + k]))
ensures [others] forall(k, imp(0 <= k && k < len(s.bytes) && (k < s.bytesPerEntry*i || k >= s.bytesPerEntry*i + s.bytesPerEntry) && (k < s.bytesPerEntry*j || k >= s.bytesPerEntry*j + s.bytesPerEntry), s.bytes[k] == old(s.bytes[k])))

func (flatBinSorter).Len
prop C12
requires s.bytesPerEntry >= 1
ensures [count] result == len(s.bytes) / s.bytesPerEntry

func countZeroBytesAtEnd
prop C13
loop 1
inv [count] 0 <= n && n <= len(data) && count == len(data) - n
inv [zero] forall(k, n, len(data), data[k] == 0)
loop 2 unroll 8
ensures [range] 0 <= result && result <= len(data)
ensures [zero] forall(k, len(data) - result, len(data), data[k] == 0)
ensures [most] imp(result < len(data), data[len(data) - result - 1] != 0)
