package concurrency

// An item with a sequence number, through which the generic stage is instantiated.
type lemmaItem struct {
	seq int64
}

func (i *lemmaItem) SequenceNumber() int64 { return i.seq }

// lemmaSequencer runs the real worker of a stage of these items.
func lemmaSequencer(sc *SequencerContainer[*lemmaItem]) {
	sc.worker()
}
