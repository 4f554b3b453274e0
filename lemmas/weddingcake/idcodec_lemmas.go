package weddingcake

// Each lemma runs the real encoder and decoder of one id width through the interface its users call.

func lemmaNodeIdType16(b []byte, id NodeIdType) (NodeIdType, int) {
	var c NByteIdConfig[NodeIdType] = ID16[NodeIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaNodeIdType24(b []byte, id NodeIdType) (NodeIdType, int) {
	var c NByteIdConfig[NodeIdType] = ID24[NodeIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaNodeIdType32(b []byte, id NodeIdType) (NodeIdType, int) {
	var c NByteIdConfig[NodeIdType] = ID32[NodeIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaHashIndexIdType16(b []byte, id HashIndexIdType) (HashIndexIdType, int) {
	var c NByteIdConfig[HashIndexIdType] = ID16[HashIndexIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaHashIndexIdType24(b []byte, id HashIndexIdType) (HashIndexIdType, int) {
	var c NByteIdConfig[HashIndexIdType] = ID24[HashIndexIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}

func lemmaHashIndexIdType32(b []byte, id HashIndexIdType) (HashIndexIdType, int) {
	var c NByteIdConfig[HashIndexIdType] = ID32[HashIndexIdType]{}
	c.WriteID(b, id)
	return c.ReadID(b), c.StorageBytes()
}
