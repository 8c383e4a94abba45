package main

import (
	"net/http"
	"net/url"
	"os"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

type verifWriter struct {
	head http.Header
	body []byte
	code int
}

func (w *verifWriter) Header() http.Header { return w.head }
func (w *verifWriter) Write(b []byte) (int, error) {
	w.body = append(w.body, b...)
	return len(b), nil
}
func (w *verifWriter) WriteHeader(code int) { w.code = code }

func verifHome(q, f string) *verifWriter {
	w := &verifWriter{head: http.Header{}}
	form := url.Values{"q": {q}}
	if f != "" {
		form["f"] = []string{f}
	}
	home(w, &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Form: form})
	return w
}

func verifShow(path string) *verifWriter {
	w := &verifWriter{head: http.Header{}}
	show(w, &http.Request{Method: "GET", URL: &url.URL{Path: "/show" + path}, Form: url.Values{}})
	return w
}

func verifPut(name, data string) {
	vsym.Assert(os.WriteFile(name, []byte(data), 0600) == nil, "setup: cannot write")
}

func verifIndex(dir string, names ...string) {
	f := dir + "/.idx"
	os.Setenv("CSEARCHINDEX", f)
	ix := index.Create(f)
	ix.AddRoots([]index.Path{index.MakePath(dir)})
	for _, n := range names {
		vsym.Assert(ix.AddFile(n) == nil, "setup: cannot index")
	}
	ix.Flush()
}

func verifPage(w *verifWriter) []vref.Item {
	items, wrong := vref.Page(string(w.body))
	if wrong != "" {
		vsym.Note(string(w.body))
		vsym.Fail("text becomes markup: " + wrong)
	}
	return items
}

// body is what follows the tag pre.
func verifBody(items []vref.Item) (head, body []vref.Item) {
	for i, it := range items {
		if it.Tag == "pre" {
			return items[:i+1], items[i+1:]
		}
	}
	vsym.Fail("the page has no body")
	return
}
