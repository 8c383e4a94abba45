package main

import (
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"

	"github.com/google/codesearch/internal/vsym"
)

// verifTail keeps the end of what is written and counts the matches.
type verifTail struct {
	verifWriter
	n int
}

func (w *verifTail) Write(b []byte) (int, error) {
	if len(b) > 11 && string(b[:8]) == "<a href=" {
		w.n++
		w.body = w.body[:0]
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

// The limit of csweb itself: a file that nearly reaches it, and another one
// with lines that may match. A run is some 230 million steps.
func VerifC21_csweb() {
	const limit = 100000
	d := vsym.TempDir()
	n := limit - 1
	verifPut(d+"/a", strings.Repeat("k\n", n))
	b := make([]byte, 0, 8)
	more := 0
	for i := 0; i < vsym.Pick(1, 2); i++ {
		c := vsym.Byte("c")
		vsym.Assume(vsym.Or(c == 'k', c == 'x'))
		b = append(b, c, '\n')
		more = vsym.IteInt(c == 'k', more+1, more)
	}
	b = append(b, "abc"...)
	verifPut(d+"/b", string(b))
	verifIndex(d, d+"/a", d+"/b")
	os.Setenv("CSEARCHINDEX", d+"/.idx")
	w := &verifTail{verifWriter: verifWriter{head: http.Header{}}}
	home(w, &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Form: url.Values{"q": {"k"}}})
	more = vsym.Concrete(more)
	want, limited := n+more, false
	if want > limit {
		want, limited = limit, true
	}
	vsym.Assert(w.n == want, "csweb does not show the matches up to its limit")
	vsym.Assert(strings.Contains(string(w.body), "\n"+strconv.Itoa(want)+" matches in "), "csweb does not report the number of matches")
	vsym.Assert(strings.Contains(string(w.body), "more matches not shown due to match limit\n") == limited, "csweb does not say exactly whether there are more matches")
	vsym.Cover("limited")
}
