package weddingcakeback
lemma lemmaNodeIdType16
prop C05
requires len(b) >= 2
modifies elems(b)
panics_if id >= 65536
ensures [round] result0 == id
ensures [bytes] le(b, 0, 2) == id
ensures [width] result1 == 2
ensures [others] forall(k, 2, len(b), b[k] == old(b[k]))

lemma lemmaNodeIdType24
prop C05
requires len(b) >= 3
modifies elems(b)
panics_if id >= 16777216
ensures [round] result0 == id
ensures [bytes] le(b, 0, 3) == id
ensures [width] result1 == 3
ensures [others] forall(k, 3, len(b), b[k] == old(b[k]))

lemma lemmaNodeIdType32
prop C05
requires len(b) >= 4
modifies elems(b)
panics_if id >= 4294967296
ensures [round] result0 == id
ensures [bytes] le(b, 0, 4) == id
ensures [width] result1 == 4
ensures [others] forall(k, 4, len(b), b[k] == old(b[k]))

lemma lemmaNodeIdType40
prop C05
requires len(b) >= 5
modifies elems(b)
panics_if id >= 1099511627776
ensures [round] result0 == id
ensures [bytes] le(b, 0, 5) == id
ensures [width] result1 == 5
ensures [others] forall(k, 5, len(b), b[k] == old(b[k]))

lemma lemmaHashIndexIdType16
prop C05
requires len(b) >= 2
modifies elems(b)
panics_if id >= 65536
ensures [round] result0 == id
ensures [bytes] le(b, 0, 2) == id
ensures [width] result1 == 2
ensures [others] forall(k, 2, len(b), b[k] == old(b[k]))

lemma lemmaHashIndexIdType24
prop C05
requires len(b) >= 3
modifies elems(b)
panics_if id >= 16777216
ensures [round] result0 == id
ensures [bytes] le(b, 0, 3) == id
ensures [width] result1 == 3
ensures [others] forall(k, 3, len(b), b[k] == old(b[k]))

lemma lemmaHashIndexIdType32
prop C05
requires len(b) >= 4
modifies elems(b)
panics_if id >= 4294967296
ensures [round] result0 == id
ensures [bytes] le(b, 0, 4) == id
ensures [width] result1 == 4
ensures [others] forall(k, 4, len(b), b[k] == old(b[k]))

lemma lemmaHashIndexIdType40
prop C05
requires len(b) >= 5
modifies elems(b)
panics_if id >= 1099511627776
ensures [round] result0 == id
ensures [bytes] le(b, 0, 5) == id
ensures [width] result1 == 5
ensures [others] forall(k, 5, len(b), b[k] == old(b[k]))

func GlobalPiFromSingleTreePi
prop C05
requires singleTreePi < 9223372036854775808
ensures [inv] result == singleTreePi - 1

func SingleTreePiFromGlobalPi
prop C05
requires globalPi >= -1 && globalPi < 9223372036854775807
ensures [inv] result == globalPi + 1

func GlobalPiWithinRange
prop C05
requires offset >= 0 && count >= 0 && offset < 4611686018427387904 && count < 4611686018427387904
ensures [iff] result == (globalPi >= offset && globalPi - offset < count)

func GlobalPiFromUint64
prop C05
requires globalPi < 9223372036854775808
ensures [same] result == globalPi

func GlobalPiFromTierTopIndex
prop C05
requires offset >= 0 && ttIndex >= 0 && offset < 4611686018427387904 && ttIndex < 4611686018427387904
ensures [sum] result == offset + ttIndex

func TierTopIndexFromGlobalPi
prop C05
requires offset >= 0 && globalPi >= 0
ensures [diff] result == globalPi - offset

func HashIndexIdFromGlobalPi
prop C05
requires offset >= 0 && global >= -1
panics_if global != -1 && global < offset
ensures [nomatch] iff(result == 0, global == -1)
ensures [value] imp(global >= offset, result == global - offset + 1)

func GlobalPiFromHashIndexId
prop C05
requires offset >= 0 && offset < 4611686018427387904 && hashIndexId < 4611686018427387904
ensures [nomatch] iff(result == -1, hashIndexId == 0)
ensures [value] imp(hashIndexId != 0, result == hashIndexId - 1 + offset)

lemma lemmaHashIndexRoundTrip
prop C05
requires offset >= 0 && g >= offset && g < 4611686018427387903
ensures [same] result == g

lemma lemmaTierTopRoundTrip
prop C05
requires offset >= 0 && g >= offset && g < 4611686018427387903
ensures [same] result == g

lemma lemmaSingleTreeRoundTrip
prop C05
requires g >= -1 && g < 4611686018427387904
ensures [same] result == g
