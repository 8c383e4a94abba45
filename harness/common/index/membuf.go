package index

// verifMemBuffer is a Buffer over nothing but memory.
func verifMemBuffer(n int) *Buffer {
	return &Buffer{buf: make([]byte, 0, n)}
}
