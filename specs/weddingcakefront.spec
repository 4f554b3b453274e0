package weddingcakefront
ufun tfound(int, int) bool
ufun tidx(int, int) int
ufun tnext(int) int
ufun best(int, int) int
ufun holds(int, int) bool
ufun hashat(int, int) int
ufun hit(int, int) int
def h32(s) = be(s, 0, 32)
def own(t, h) = ite(tfound(t, h), tidx(t, h), 0-1)

func github.com/KitchenMishap/pudding-shed/weddingcakeback.TierReadable.TryIndexOfHash
trusted
requires [len] len(hash) == 32
ensures [found] imp(err == nil, result1 == tfound(ifid(recv), h32(hash)))
ensures [index] imp(err == nil && result1, result0 == tidx(ifid(recv), h32(hash)) && result0 >= 0)
ensures [def] best(ifid(recv), h32(hash)) == ite(tnext(ifid(recv)) == 0, own(ifid(recv), h32(hash)), ite(best(tnext(ifid(recv)), h32(hash)) != 0-1, best(tnext(ifid(recv)), h32(hash)), own(ifid(recv), h32(hash))))
ensures [idxpos] tidx(ifid(recv), h32(hash)) >= 0
ensures [io] imp(iook, err == nil)

func github.com/KitchenMishap/pudding-shed/weddingcakeback.TierReadable.TryGetHashAtIndex
trusted
requires [len] len(hash) == 32
modifies elems(hash)
ensures [found] imp(err == nil, result0 == holds(ifid(recv), index))
ensures [hash] imp(err == nil && result0, h32(hash) == hashat(ifid(recv), index))
ensures [keep] imp(err == nil && !result0, forall(k, 0, 32, hash[k] == old(hash[k])))
ensures [def] hit(ifid(recv), index) == ite(holds(ifid(recv), index), ifid(recv), ite(tnext(ifid(recv)) == 0, 0, hit(tnext(ifid(recv)), index)))
ensures [io] imp(iook, err == nil)

func github.com/KitchenMishap/pudding-shed/weddingcakeback.TierReadable.GetNextTier
trusted
ensures [next] iff(result == nil, tnext(ifid(recv)) == 0) && imp(result != nil, ifid(result) == tnext(ifid(recv)) && ifid(result) > 0)

func (*Cake).IndexOfHash
prop C08
requires c.tierReader != nil && ifid(c.tierReader) > 0
let h = h32(hash)
let b = best(ifid(c.tierReader), h)
loop 1
inv [same] h32(hash) == h
inv [pos] imp(reader != nil, ifid(reader) > 0) && imp(found, result >= 0)
inv [rest] ite(reader == nil, ite(found, result, 0-1), ite(best(ifid(reader), h) != 0-1, best(ifid(reader), h), ite(found, result, 0-1))) == b
ensures [first] imp(err == nil, result0 == b)
ensures [ok] imp(iook, err == nil)

func (*Cake).GetHashAtIndex
prop C08
requires c.tierReader != nil && ifid(c.tierReader) > 0
modifies elems(hash)
let t = hit(ifid(c.tierReader), index)
loop 1
inv [pos] imp(reader != nil, ifid(reader) > 0)
inv [rest] ite(found, t > 0 && h32(hash) == hashat(t, index), ite(reader == nil, t == 0, hit(ifid(reader), index) == t)) && imp(!found, forall(k, 0, 32, hash[k] == old(hash[k])))
ensures [hash] imp(result == nil, t != 0 && h32(hash) == hashat(t, index))
ensures [found] imp(iook, iff(result == nil, t != 0))
ensures [untouched] imp(iook && result != nil, forall(k, 0, 32, hash[k] == old(hash[k])))
