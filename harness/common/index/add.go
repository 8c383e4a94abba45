package index

import "io"

// verifAdd adds a file whatever its name.
func verifAdd(ix *IndexWriter, name string, r io.Reader) error { return ix.add(name, r) }
