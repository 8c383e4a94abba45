package index

// verifNumNames is the number of names of an index.
func verifNumNames(ix *Index) int { return ix.numName }
