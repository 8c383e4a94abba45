package main

import (
	"net/http"
	"os"
	"strconv"
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

func verifSpecial(tag string, n int, alphabet string) string {
	s := ""
	for k := 1 + vsym.Choice(tag+" length", n); k > 0; k-- {
		s += string(alphabet[vsym.Choice(tag, len(alphabet))])
	}
	return s
}

// verifName is any name of up to n bytes that can be indexed.
func verifName(tag string, n int) string {
	b := make([]byte, 1+vsym.Choice(tag+" length", n))
	for i := range b {
		b[i] = vsym.Byte(tag)
		vsym.Assume(vsym.And(b[i] >= ' ', b[i] != '/'))
	}
	vsym.Assume(b[0] != '.')
	return string(b)
}

// A page that shows a file with any content.
func VerifC20_file() {
	d := vsym.TempDir()
	n := 1 + vsym.Choice("len", vsym.Pick(4, 5))
	b := make([]byte, n)
	nl := vsym.Choice("newlines", 1<<n)
	for i := range b {
		if nl>>i&1 != 0 {
			b[i] = '\n'
			continue
		}
		b[i] = vsym.Byte("text")
		vsym.Assume(vsym.And(b[i] >= ' ', b[i] < 0x7f))
	}
	more := vsym.Pick(8, 12) * vsym.Choice("more lines", 2)
	text := strings.Repeat("<\n", more) + string(b)
	verifPut(d+"/x", text)
	w := verifShow(d + "/x")
	items := verifPage(w)
	_, body := verifBody(items)
	verifLines(body, text)
	verifPut(d+"/x", strings.Repeat("x\n", strings.Count(text, "\n"))+strings.Repeat("x", 1))
	if strings.HasSuffix(text, "\n") {
		verifPut(d+"/x", strings.Repeat("x\n", strings.Count(text, "\n")))
	}
	plain := verifPage(verifShow(d + "/x"))
	vsym.Assert(vref.Skeleton(plain) == vref.Skeleton(items), "a file changes the markup of its page")
	vsym.Cover("shown")
}

// verifLines: the spans of body are the lines of text, numbered.
func verifLines(body []vref.Item, text string) {
	k := 0
	for text != "" {
		line, rest, nl := strings.Cut(text, "\n")
		text = rest
		_ = nl
		for len(body) > 0 && body[0].Tag != "span" {
			body = body[1:]
		}
		vsym.Assert(len(body) > 1, "a line of the file is not shown")
		k++
		num := strconv.Itoa(k)
		vsym.Assert(len(body[0].Attrs) == 1 && body[0].Attrs[0] == "id" && body[0].Vals[0] == "L"+num, "a line does not have its number as its id")
		t := body[1].Text
		for len(t) > 0 && t[0] == ' ' {
			t = t[1:]
		}
		vsym.Assert(strings.HasPrefix(t, num+"  "), "a line is not shown under its number")
		vsym.Assert(t[len(num)+2:] == line+"\n", "a line is not shown as it is in the file")
		body = body[2:]
	}
	for _, it := range body {
		vsym.Assert(it.Tag != "span", "a line is shown that is not in the file")
	}
}

// A file that is not text, or any bytes at all: markup only if it is ours.
func VerifC20_bytes() {
	d := vsym.TempDir()
	pre := []string{"", "<html>", "<!DOCTYPE HTML>", " \n<script>", "<?xml?>", "\xef\xbb\xbf"}[vsym.Choice("start", 6)]
	var b []byte
	for i := vsym.Choice("len", vsym.Pick(3, 4)); i > 0; i-- {
		b = append(b, vsym.Byte("byte"))
	}
	pad := []string{"", strings.Repeat(" ", 5), strings.Repeat("x", 1030)}[vsym.Choice("pad", vsym.Pick(2, 3))]
	text := pre + string(b) + pad
	verifPut(d+"/x", text)
	w := verifShow(d + "/x")
	ct := w.head.Get("Content-Type")
	if ct == "" {
		ct = http.DetectContentType(w.body)
		if strings.HasPrefix(ct, "text/plain") && strings.Contains(text, "<") {
			vsym.Cover("plain")
		}
	}
	if !strings.Contains(ct, "html") && !strings.Contains(ct, "xml") {
		vsym.Cover("no page")
		return
	}
	_, body := verifBody(verifPage(w))
	verifLines(body, text)
	vsym.Cover("page")
}

// Directories and files with any names.
func VerifC20_names() {
	d := vsym.TempDir() + "/t"
	os.Mkdir(d, 0700)
	name := verifName("name", vsym.Pick(3, 4))
	plain := strings.Repeat("x", len(name))
	dir := vsym.Choice("is directory", 2) == 1
	mk := func(d, name string) {
		os.Mkdir(d, 0700)
		if dir {
			os.Mkdir(d+"/"+name, 0700)
			verifPut(d+"/"+name+"/"+name, "text")
		} else {
			verifPut(d+"/"+name, "text\n")
		}
	}
	a, b := d+"/a", d+"/b"
	mk(a, name)
	mk(b, plain)
	paths := []string{a, a + "/" + name}
	plains := []string{b, b + "/" + plain}
	k := vsym.Choice("page", 2)
	items := verifPage(verifShow(paths[k]))
	vsym.Assert(vref.Skeleton(items) == vref.Skeleton(verifPage(verifShow(plains[k]))), "a name changes the markup of a page")
	_, body := verifBody(items)
	shown := paths[k]
	text := strings.TrimPrefix(vref.Texts(body), "\n")
	head, _, _ := strings.Cut(text, "\n")
	vsym.Assert(strings.Contains(strings.ReplaceAll(head, "//", "/"), shown), "the name of the file is not shown as it is")
	if k == 0 || dir {
		vsym.Assert(strings.Contains(text, "\n"+name+"\n"), "a name in a directory is not shown as it is")
	}
	vsym.Cover("shown")
}

// Any query, well-formed or not.
func VerifC20_query() {
	d := vsym.TempDir() + "/t"
	os.Mkdir(d, 0700)
	verifPut(d+"/f", "<a>&\"'abc\n<<&>>\nnone\n")
	verifIndex(d, d+"/f")
	q := verifSpecial("query", vsym.Pick(3, 4), "<>&\"'(a")
	f := ""
	if vsym.Choice("filter", 2) == 1 {
		f = []string{"f", "(<b>", "[<", "<", "*\"'"}[vsym.Choice("filter text", 5)]
	}
	items := verifPage(verifHome(q, f))
	head, body := verifBody(items)
	found := false
	for _, it := range head {
		for i, a := range it.Attrs {
			if it.Tag == "input" && a == "value" && it.Vals[i] == q {
				found = true
			}
		}
	}
	vsym.Assert(found, "the query is not shown as it is")
	verifResults(body)
	vsym.Cover("shown")
}

// verifResults: nothing but links, one per result.
func verifResults(body []vref.Item) {
	for i, it := range body {
		switch it.Tag {
		case "", "/a":
		case "a":
			vsym.Assert(len(it.Attrs) == 1 && it.Attrs[0] == "href" && strings.HasPrefix(it.Vals[0], "/show/"), "a result changes the markup of the page")
			vsym.Assert(i+2 < len(body) && body[i+2].Tag == "/a", "a result changes the markup of the page")
		default:
			vsym.Fail("a result changes the markup of the page")
		}
	}
}

// Any line found in a file of any name.
func VerifC20_results() {
	d := vsym.TempDir() + "/t"
	os.Mkdir(d, 0700)
	name := d + "/" + []string{"f", "<b>", "a&lt;", "'\"", "x#y"}[vsym.Choice("name", 5)]
	n := 1 + vsym.Choice("len", vsym.Pick(3, 4))
	nl := vsym.Choice("newlines", 1<<n)
	b := []byte("zzz\n")
	lines := [][]byte{b[:3]}
	start := len(b)
	for i := 0; i < n; i++ {
		if nl>>i&1 != 0 {
			b = append(b, '\n')
		} else {
			c := vsym.Byte("text")
			vsym.Assume(vsym.And(c >= ' ', c < 0x7f))
			b = append(b, c)
		}
	}
	b = append(b, "\nabc"...)
	for i := 0; i < n+1; i++ {
		if i == n || nl>>i&1 != 0 {
			lines = append(lines, b[start:4+i])
			start = 4 + i + 1
		}
	}
	lines = append(lines, b[start:])
	// Every file is a candidate for the queries, whatever it contained.
	verifPut(name, "zzz\n")
	verifIndex(d, name)
	verifPut(name, string(b))
	q := []string{"z|<|a|&|^$", "[<>&\"';a-z]+"}[vsym.Choice("query", 2)]
	items := verifPage(verifHome(q, ""))
	_, body := verifBody(items)
	verifResults(body)
	want := ""
	k := 0
	for i, l := range lines {
		if vref.NewText(l, false, false).Match(vref.Parse("(?m)" + q)) {
			want += name + ":" + strconv.Itoa(i+1) + ":" + string(l) + "\n"
			k++
		}
	}
	text := strings.TrimPrefix(vref.Texts(body), "\n")
	vsym.Assert(strings.HasPrefix(text, want), "the results are not shown as they are")
	vsym.Assert(strings.HasPrefix(text[len(want):], "\n"+strconv.Itoa(k)+" matches"), "the results are not shown as they are")
	vsym.Cover("shown")
}

// A file that cannot be read any more.
func VerifC20_errors() {
	d := vsym.TempDir() + "/t"
	os.Mkdir(d, 0700)
	name := d + "/" + verifName("name", vsym.Pick(2, 3))
	verifPut(name, "abc\n")
	verifPut(d+"/zzzz", "abc\n")
	verifIndex(d, name, d+"/zzzz")
	os.Remove(name)
	if vsym.Choice("now", 2) == 1 {
		os.Mkdir(name, 0700)
	}
	_, body := verifBody(verifPage(verifHome("abc", "")))
	verifResults(body)
	vsym.Assert(strings.Contains(vref.Texts(body), d+"/zzzz:1:abc\n"), "a result is missing")
	w := verifShow(name + "<x>")
	if ct := w.head.Get("Content-Type"); strings.HasPrefix(ct, "text/plain") {
		vsym.Cover("plain")
	} else {
		verifPage(w)
	}
	vsym.Cover("shown")
}

// Files of many lines: each under its own number.
func VerifC20_manyLines() {
	d := vsym.TempDir()
	n := []int{9, 10, 11, 98, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 100000}[vsym.Choice("lines", vsym.Pick(11, 13))]
	c := vsym.Byte("text")
	vsym.Assume(vsym.And(c >= ' ', c < 0x7f))
	text := strings.Repeat("a\n", n-2) + string([]byte{c}) + "\n<"
	verifPut(d+"/x", text)
	_, body := verifBody(verifPage(verifShow(d + "/x")))
	verifLines(body, text)
	vsym.Cover("shown")
}
