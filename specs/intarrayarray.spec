package intarrayarray
def vlen(b) = ite(b < 0xFD, 1, ite(b == 0xFD, 3, ite(b == 0xFE, 5, 9)))
def vwidth(v) = ite(v < 0xFD, 1, ite(v <= 0xFFFF, 3, ite(v <= 0xFFFFFFFF, 5, 9)))
def vdecode(s, o) = ite(s[o] < 0xFD, s[o], ite(s[o] == 0xFD, le(s, o+1, 2), ite(s[o] == 0xFE, le(s, o+1, 4), le(s, o+1, 8))))

func (*VarInt).FromInt64
prop C03
modifies vi.val
ensures vi.val == v

func (*VarInt).ToInt64
prop C03
ensures result == vi.val

func (*VarInt).ToBytes
prop C03
requires vi.val >= 0
ensures [width] len(result) == vwidth(vi.val)
ensures [decodes] vdecode(result, 0) == vi.val
ensures [prefix] vlen(result[0]) == len(result)
fresh result

func (*VarInt).FromBytes
prop C03
requires len(byts) >= 1 && len(byts) >= vlen(byts[0])
requires imp(byts[0] == 0xFF, byts[8] < 128)
modifies vi.val
ensures [len] result == vlen(byts[0])
ensures [val] vi.val == vdecode(byts, 0)

func NewIntArrayArray
prop C03 C04
ensures [count] result.arrayCount == arrayCount && result.elementByteSize == elementByteSize
ensures [empty] result.elementTally == 0 && len(result.intToIntArray) == 0
ensures [nokey] forall(k, 0-9223372036854775808, 9223372036854775808, !in(result.intToIntArray, k))

func (*IntArrayArray).AppendToArray
prop C03 C04
requires iaa.intToIntArray != nil
requires iaa.elementTally < 9223372036854775807
requires imp(in(iaa.intToIntArray, key), len(iaa.intToIntArray[key]) < 1000000000000)
modifies iaa.elementTally, mapof(iaa.intToIntArray), allelems(iaa.intToIntArray[key])
let had = in(iaa.intToIntArray, key)
let n = ite(had, len(iaa.intToIntArray[key]), 0)
ensures [len] in(iaa.intToIntArray, key) && len(iaa.intToIntArray[key]) == n + 1
ensures [last] iaa.intToIntArray[key][n] == val
ensures [kept] forall(j, 0, n, iaa.intToIntArray[key][j] == old(iaa.intToIntArray[key][j]))
ensures [others] forall(k, 0-9223372036854775808, 9223372036854775808, imp(k != key, mapdom(iaa.intToIntArray, k) == old(mapdom(iaa.intToIntArray, k)) && sameslice(mapval(iaa.intToIntArray, k), old(mapval(iaa.intToIntArray, k)))))
ensures [tally] iaa.elementTally == old(iaa.elementTally) + 1

func (*IntArrayArray).GetArray
prop C03 C04
ensures [present] imp(in(iaa.intToIntArray, key), sameslice(result, iaa.intToIntArray[key]))
ensures [absent] imp(!in(iaa.intToIntArray, key), len(result) == 0)
