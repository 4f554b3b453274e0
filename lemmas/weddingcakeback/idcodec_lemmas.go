package weddingcakeback

// Each lemma runs the real encoder and decoder of one id width through the interface its users call.

func lemmaNodeIdType16(b []byte, id NodeIdType) (NodeIdType, int) {
	var c NByteIdConfig[NodeIdType] = ID16[NodeIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaNodeIdType24(b []byte, id NodeIdType) (NodeIdType, int) {
	var c NByteIdConfig[NodeIdType] = ID24[NodeIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaNodeIdType32(b []byte, id NodeIdType) (NodeIdType, int) {
	var c NByteIdConfig[NodeIdType] = ID32[NodeIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaNodeIdType40(b []byte, id NodeIdType) (NodeIdType, int) {
	var c NByteIdConfig[NodeIdType] = ID40[NodeIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaHashIndexIdType16(b []byte, id HashIndexIdType) (HashIndexIdType, int) {
	var c NByteIdConfig[HashIndexIdType] = ID16[HashIndexIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaHashIndexIdType24(b []byte, id HashIndexIdType) (HashIndexIdType, int) {
	var c NByteIdConfig[HashIndexIdType] = ID24[HashIndexIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaHashIndexIdType32(b []byte, id HashIndexIdType) (HashIndexIdType, int) {
	var c NByteIdConfig[HashIndexIdType] = ID32[HashIndexIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaHashIndexIdType40(b []byte, id HashIndexIdType) (HashIndexIdType, int) {
	var c NByteIdConfig[HashIndexIdType] = ID40[HashIndexIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaHashIndexRoundTrip(g GlobalPiType, offset GlobalPiType) GlobalPiType {
	return GlobalPiFromHashIndexId(HashIndexIdFromGlobalPi(g, offset), offset)
}

func lemmaTierTopRoundTrip(g GlobalPiType, offset GlobalPiType) GlobalPiType {
	return GlobalPiFromTierTopIndex(TierTopIndexFromGlobalPi(g, offset), offset)
}

func lemmaSingleTreeRoundTrip(g GlobalPiType) GlobalPiType {
	return GlobalPiFromSingleTreePi(SingleTreePiFromGlobalPi(g))
}
