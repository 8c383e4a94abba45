package index

// verifFlush spills the entries held.
func verifFlush(ix *IndexWriter) { ix.flushPost() }
