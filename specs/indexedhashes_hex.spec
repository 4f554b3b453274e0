package indexedhashes
def nib(c) = ite(c >= 48 && c <= 57, c - 48, ite(c >= 65 && c <= 70, c - 55, ite(c >= 97 && c <= 102, c - 87, 0)))

func asciiToNibble
prop C10
ensures [range] 0 <= result && result <= 15
ensures [nib] result == nib(ascii)

func buildHexLookup
prop C10
loop 1
inv [filled] forall(k, 0, iter, result[k] == nib(k / 256) * 16 + nib(k % 256))
inv [range] iter <= 65536
ensures [table] forall(k, 0, 65536, result[k] == nib(k / 256) * 16 + nib(k % 256))
fresh result

func hashHexToBinInternal
prop C10
requires len(hexAscii) == 64
requires forall(k, 0, 65536, lookup[k] == nib(k / 256) * 16 + nib(k % 256))
ensures [bytes] forall(k, 0, 32, result[k] == nib(hexAscii[62 - 2*k]) * 16 + nib(hexAscii[63 - 2*k]))
ensures [ok] err == nil

func hashHexToSha256Internal
prop C10
requires forall(k, 0, 65536, lookup[k] == nib(k / 256) * 16 + nib(k % 256))
modifies elems(sha256)
ensures [err] iff(err == nil, len(hexAscii) == 64)
ensures [bytes] imp(len(hexAscii) == 64, forall(k, 0, 32, sha256[k] == nib(hexAscii[62 - 2*k]) * 16 + nib(hexAscii[63 - 2*k])))

func HashHexToSha256
prop C15
requires [table] forall(k, 0, 65536, hexLookup[k] == nib(k / 256) * 16 + nib(k % 256))
modifies elems(sha256)
ensures [err] iff(err == nil, len(hexAscii) == 64)
ensures [bytes] imp(len(hexAscii) == 64, forall(k, 0, 32, sha256[k] == nib(hexAscii[62 - 2*k]) * 16 + nib(hexAscii[63 - 2*k])))

def hxd(n) = ite(n < 10, n + 48, n + 87)
func hashBinToHexString
prop C10
ensures [len] len(result) == 64
ensures [digits] forall(k, 0, 32, result[2*k] == hxd(hashBin[31 - k] / 16) && result[2*k + 1] == hxd(hashBin[31 - k] % 16))

func HashSha256ToHexString
prop C10
ensures [len] len(result) == 64
ensures [digits] forall(k, 0, 32, result[2*k] == hxd(hash[31 - k] / 16) && result[2*k + 1] == hxd(hash[31 - k] % 16))
