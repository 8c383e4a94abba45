package main

import (
	"os"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

type verifRequest struct {
	show    bool
	path, q string
	f       string
	body    string
}

func (r *verifRequest) run() {
	if r.show {
		r.body = string(verifShow(r.path).body)
	} else {
		r.body = string(verifHome(r.q, r.f).body)
	}
}

// Two requests of any kinds.
func VerifC25_csweb() {
	d := vsym.TempDir() + "/t"
	os.Mkdir(d, 0700)
	text := "say hello <b>\nabc\n"
	verifPut(d+"/f", text)
	verifPut(d+"/g", "abc\nhello\n")
	verifPut(d+"/bin", "\x01\x02")
	verifPut(d+"/x.zip", vref.Zip(vref.Member{Name: "m", Text: text}, vref.Member{Name: "n", Text: text, Kind: 1}))
	f := d + "/.idx"
	os.Setenv("CSEARCHINDEX", f)
	ix := index.Create(f)
	ix.Zip = true
	ix.AddRoots([]index.Path{index.MakePath(d)})
	for _, n := range []string{"f", "g", "x.zip"} {
		vsym.Assert(ix.AddFile(d+"/"+n) == nil, "setup: cannot index")
	}
	ix.Flush()
	pick := func(tag string) *verifRequest {
		k := vsym.Choice(tag, 10)
		if k < 5 {
			return &verifRequest{show: true, path: []string{d, d + "/f", d + "/g", d + "/none", d + "/bin"}[k]}
		}
		return &verifRequest{q: []string{"hello", "(<b>", "(?i)ABC", "abc|say", "^$"}[k-5], f: []string{"", "g$", "(", "zip"}[vsym.Choice(tag+" filter", 4)]}
	}
	a, b := pick("first"), pick("second")
	vsym.Go(a.run, b.run)
	x, y := a.body, b.body
	a.run()
	b.run()
	vsym.Assert(verifTimeless(x) == verifTimeless(a.body) && verifTimeless(y) == verifTimeless(b.body), "a request gets another page than alone")
	vsym.Cover("ran")
}

// verifTimeless is a page without the time that it took.
func verifTimeless(s string) string {
	for i := 0; i+12 < len(s); i++ {
		if s[i:i+12] == " matches in " {
			return s[:i]
		}
	}
	return s
}
