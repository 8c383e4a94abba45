package index

// verifLimit makes the writer hold at most k entries.
func verifLimit(ix *IndexWriter, k int) { ix.post = make([]postEntry, 0, k) }
