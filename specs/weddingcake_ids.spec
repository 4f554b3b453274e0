package weddingcake
lemma lemmaNodeIdType16
prop C05
requires len(b) >= 2
modifies elems(b)
ensures [round] result0 == id % 65536
ensures [bytes] le(b, 0, 2) == id % 65536
ensures [width] result1 == 2
ensures [others] forall(k, 2, len(b), b[k] == old(b[k]))

lemma lemmaNodeIdType24
prop C05
requires len(b) >= 3
modifies elems(b)
ensures [round] result0 == id % 16777216
ensures [bytes] le(b, 0, 3) == id % 16777216
ensures [width] result1 == 3
ensures [others] forall(k, 3, len(b), b[k] == old(b[k]))

lemma lemmaNodeIdType32
prop C05
requires len(b) >= 4
modifies elems(b)
ensures [round] result0 == id % 4294967296
ensures [bytes] le(b, 0, 4) == id % 4294967296
ensures [width] result1 == 4
ensures [others] forall(k, 4, len(b), b[k] == old(b[k]))

lemma lemmaHashIndexIdType16
prop C05
requires len(b) >= 2
modifies elems(b)
ensures [round] result0 == id % 65536
ensures [bytes] le(b, 0, 2) == id % 65536
ensures [width] result1 == 2
ensures [others] forall(k, 2, len(b), b[k] == old(b[k]))

lemma lemmaHashIndexIdType24
prop C05
requires len(b) >= 3
modifies elems(b)
ensures [round] result0 == id % 16777216
ensures [bytes] le(b, 0, 3) == id % 16777216
ensures [width] result1 == 3
ensures [others] forall(k, 3, len(b), b[k] == old(b[k]))

lemma lemmaHashIndexIdType32
prop C05
requires len(b) >= 4
modifies elems(b)
ensures [round] result0 == id % 4294967296
ensures [bytes] le(b, 0, 4) == id % 4294967296
ensures [width] result1 == 4
ensures [others] forall(k, 4, len(b), b[k] == old(b[k]))


func (*Chunk).HashIndexIdFromGlobalPresentationIndex
prop C05
requires ch.FirstGlobalPresentationIndexOfChunk >= 0 && global >= -1
panics_if global != -1 && (global < ch.FirstGlobalPresentationIndexOfChunk || global - ch.FirstGlobalPresentationIndexOfChunk + 1 > 4294967295)
ensures [nomatch] iff(result == 0, global == -1)
ensures [value] imp(global != -1, result == global - ch.FirstGlobalPresentationIndexOfChunk + 1)

func (*Chunk).GlobalPresentationIndexFromHashIndexId
prop C05
requires ch.FirstGlobalPresentationIndexOfChunk >= 0 && ch.FirstGlobalPresentationIndexOfChunk < 4611686018427387904
ensures [nomatch] iff(result == -1, hashIndexId == 0)
ensures [value] imp(hashIndexId != 0, result == hashIndexId - 1 + ch.FirstGlobalPresentationIndexOfChunk)
