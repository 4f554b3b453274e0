package indexedhashes3

// Splits a hash the way the store does and puts it together again the way a lookup by index does.
func lemmaSplitJoin(h *Hash, p *HashIndexingParams) (*Hash, binNum, sortNum) {
	t := h.toTruncatedHash()
	a := h.toAbbreviatedHash()
	bn := a.toBinNum(p)
	sn := a.toSortNum(p)
	return NewHashFromTruncatedHashAbbreviatedHash(t, newAbbreviatedHashFromBinNumSortNum(bn, sn, p)), bn, sn
}

// Writes an entry and reads it back.
func lemmaEntry(t truncatedHash, hi hashIndex, sn sortNum, p *HashIndexingParams) (truncatedHash, hashIndex, sortNum) {
	e := newBinEntryBytes(t, hi, sn, p)
	hi2, sn2 := e.getHashIndexSortNum(p)
	return e.getTruncatedHash(), hi2, sn2
}
