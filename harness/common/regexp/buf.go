package regexp

// verifSetBuf gives the grep a buffer of the size, to bring its ends into reach.
func verifSetBuf(g *Grep, n int) {
	if n > 0 {
		g.buf = make([]byte, 0, n)
	}
}
