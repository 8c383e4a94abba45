package index

import (
	"runtime"

	"github.com/google/codesearch/internal/vsym"
)

// verifTry runs f and reports how it ended: 0 return, 1 deliberate panic (corrupt
// index), 2 exit, 3 runtime error.
func verifTry(f func()) int {
	code := 0
	c := vsym.Try(func() {
		defer func() {
			if e := recover(); e != nil {
				code = 1
				if _, ok := e.(runtime.Error); ok {
					code = 3
					vsym.Note(e.(error).Error())
				}
			}
		}()
		f()
	})
	if code == 0 {
		code = c
	}
	return code
}

func verifWithVersion(v int, f func()) {
	old := writeVersion
	writeVersion = v
	f()
	writeVersion = old
}
