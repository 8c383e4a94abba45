From fd54a7473cb068de657ba5823d172fc6fc9090b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 01/18] fix: treat the root directory as a parent of every
 absolute path

Path.HasPathPrefix and the limit used by Merge assumed that a root has no
trailing slash, so an index of / was not recognised as covering other
roots and merging it with another index panicked.
---
 index/merge.go | 8 +++++++-
 index/path.go  | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/index/merge.go b/index/merge.go
index 55c5456..b440bf0 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -74,7 +74,13 @@ func Merge(dst, src1, src2 string) {
 		// but not food or fop. Slash compares equal to \x00,
 		// and if foo is a zip file, foo\x01 is a file in it,
 		// so use foo\x02 as the limit.
-		limit := MakePath(root.String() + "\x02")
+		// If root is / itself, drop the slash,
+		// because everything starting with a slash is in it.
+		dir := root.String()
+		if endsInSlash(dir) {
+			dir = dir[:len(dir)-1]
+		}
+		limit := MakePath(dir + "\x02")
 		for i1 < ix1.numName && name1.Compare(limit) < 0 {
 			names1.Next()
 			name1 = names1.Path()
diff --git a/index/path.go b/index/path.go
index d5b0f90..decfab0 100644
--- a/index/path.go
+++ b/index/path.go
@@ -33,7 +33,14 @@ func (p Path) HasPathPrefix(parent Path) bool {
 	return strings.HasPrefix(p.s, parent.s) &&
 		(p.s == parent.s ||
 			p.s[len(parent.s)] == '/' ||
-			p.s[len(parent.s)] == os.PathSeparator)
+			p.s[len(parent.s)] == os.PathSeparator ||
+			endsInSlash(parent.s))
+}
+
+// endsInSlash reports whether s ends in a path separator,
+// as only the root of a file system does.
+func endsInSlash(s string) bool {
+	return s != "" && (s[len(s)-1] == '/' || s[len(s)-1] == os.PathSeparator)
 }
 
 // Compare returns the comparison of p and q.
-- 
2.43.0


From 1eb659f0cf7068ae663187a93eb68e3da66954b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 02/18] fix: do not treat the posting list terminator as a
 trigram when merging

Merge wrote the terminator of each source index into the result as an
ordinary trigram and then added its own, so that the third merge in a row
met two equal trigrams and panicked with "no progress".
---
 index/merge.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/index/merge.go b/index/merge.go
index b440bf0..1dc62c2 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -353,6 +353,14 @@ func (r *postMapReader) load(force bool) {
 		r.offset += int(n2)
 		r.block = b
 	}
+	if r.trigram == invalidTrigram {
+		// The terminator that ends every index is not a trigram:
+		// the merged index gets its own.
+		r.trigram = ^uint32(0)
+		r.count = 0
+		r.fileid = -1
+		return
+	}
 	if r.count == 0 {
 		r.fileid = -1
 		return
-- 
2.43.0


From b46b573c24d824dfb90657fc4b680ca9e559f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 03/18] fix: do not let two string sets share storage in
 alternate

---
 index/regexp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/regexp.go b/index/regexp.go
index 4f336fe..824f595 100644
--- a/index/regexp.go
+++ b/index/regexp.go
@@ -604,8 +604,8 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From ca3d01270b7bb6cd32b083560d40538b3e8203de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 04/18] fix: fold the case of characters above U+1044F

---
 regexp/copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/copy.go b/regexp/copy.go
index 9be1987..400e2d8 100644
--- a/regexp/copy.go
+++ b/regexp/copy.go
@@ -77,7 +77,7 @@ const (
 	// minimum and maximum runes involved in folding.
 	// checked during test.
 	minFold = 0x0041
-	maxFold = 0x1044f
+	maxFold = 0x1e943
 )
 
 // appendFoldedRange returns the result of appending the range lo-hi
-- 
2.43.0


From 868e98e8ebea216cb6004c7e6756788fb7d1bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 05/18] fix: match all of a class whose range spans the
 surrogates

---
 regexp/utf.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/regexp/utf.go b/regexp/utf.go
index d587eaa..6ea91ce 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -254,8 +254,8 @@ func (b *runeBuilder) addRange(lo, hi rune, fold bool) {
 
 	// Finally.  Generate byte matching equivalent for lo-hi.
 	var ulo, uhi [utf8.UTFMax]byte
-	n := utf8.EncodeRune(ulo[:], lo)
-	m := utf8.EncodeRune(uhi[:], hi)
+	n := encodeRune(ulo[:], lo)
+	m := encodeRune(uhi[:], hi)
 	if n != m {
 		panic("codesearch/regexp: bad utf-8 math")
 	}
@@ -266,3 +266,15 @@ func (b *runeBuilder) addRange(lo, hi rune, fold bool) {
 	}
 	b.addBranch(pc)
 }
+
+// encodeRune is like utf8.EncodeRune but encodes surrogates too.
+// Splitting a range that spans them can leave one at the end of a section.
+func encodeRune(p []byte, r rune) int {
+	if 0xd800 <= r && r <= 0xdfff {
+		p[0] = 0xe0 | byte(r>>12)
+		p[1] = 0x80 | byte(r>>6)&0x3f
+		p[2] = 0x80 | byte(r)&0x3f
+		return 3
+	}
+	return utf8.EncodeRune(p, r)
+}
-- 
2.43.0


From 9d9f2d8076425c21f5edd749f5061e5994485d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 06/18] fix: do not report an empty line after the last newline
 of a chunk

---
 regexp/match.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regexp/match.go b/regexp/match.go
index 7a90d1a..ddb28db 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -467,6 +467,10 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			if m1 < chunkStart {
 				break
 			}
+			if m1 == end && buf[end-1] == '\n' {
+				// There is no line after the final newline.
+				break
+			}
 			g.Match = true
 			if g.Limit > 0 && g.Matches >= g.Limit {
 				g.Limited = true
-- 
2.43.0


From 08208f9004916857b043d03e91b0e1b21f3dd487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 07/18] fix: count lines when printing context

---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index ddb28db..780fd6f 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -435,7 +435,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	var (
 		buf        = g.buf[:0]
-		needLineno = g.N || g.HTML
+		needLineno = g.N || g.HTML || g.PreContext+g.PostContext > 0
 		lineno     = 1
 		count      = 0
 		prefix     = ""
-- 
2.43.0


From daf41e540bf21c4c582e6c92f7fee387b7939a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 08/18] fix: escape context lines in HTML output

---
 regexp/match.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 780fd6f..d29e589 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -443,7 +443,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		endText    = false
 	)
 	if !g.H {
-		prefix = name + ":"
+		prefix = g.esc(name) + ":"
 	}
 	chunkStart := 0
 	for {
@@ -505,11 +505,11 @@ func (g *Grep) Reader(r io.Reader, name string) {
 				fmt.Fprintf(g.Stdout, "%s%d:\n", prefix, lineno)
 				before, match, after := lineContext(g.PreContext, g.PostContext, buf, lineStart, lineEnd)
 				for _, line := range before {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
-				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", match)
+				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", g.esc(string(match)))
 				for _, line := range after {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
 			case g.HTML:
 				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(strings.ReplaceAll(name, "#", ">")), g.esc(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
-- 
2.43.0


From 56e2eb28381dd234a26ee2bc82391c34a3507faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 09/18] fix: escape expression errors on the search page

---
 cmd/csweb/web.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 4b46d92..70d0004 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -56,7 +56,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	pat := "(?m)" + qarg
 	re, err := regexp.Compile(pat)
 	if err != nil {
-		fmt.Fprintf(w, "Bad query: %v\n", err)
+		fmt.Fprintf(w, "Bad query: %s\n", html.EscapeString(err.Error()))
 		return
 	}
 	g.Regexp = re
@@ -65,7 +65,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	if farg != "" {
 		fre, err = regexp.Compile(farg)
 		if err != nil {
-			fmt.Fprintf(w, "Bad -f flag: %v\n", err)
+			fmt.Fprintf(w, "Bad -f flag: %s\n", html.EscapeString(err.Error()))
 			return
 		}
 	}
-- 
2.43.0


From 9b11a3501117afa61af66dd297c8835c929140a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 10/18] fix: let csearch -l with an empty expression list the
 files

The shortcut scanned an empty reader, in which nothing can match,
so nothing was ever listed.
---
 cmd/csearch/csearch.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index 58af5b8..f2530e7 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -6,7 +6,6 @@ package main
 
 import (
 	"archive/zip"
-	"bytes"
 	"flag"
 	"fmt"
 	"log"
@@ -146,10 +145,6 @@ func Main() {
 
 	for _, fileid := range post {
 		name := ix.Name(fileid).String()
-		if g.L && (pat == "(?m)" || pat == "(?i)(?m)") {
-			g.Reader(bytes.NewReader(nil), name)
-			continue
-		}
 		file, err := os.Open(string(name))
 		if err != nil {
 			if i := strings.Index(name, ".zip\x01"); i >= 0 {
-- 
2.43.0


From bf688095e08e478367e9eba6f094ae6a386b9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 11/18] fix: do not index the files of nested roots twice

---
 cmd/cindex/cindex.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index d82bf6c..39dee51 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -116,6 +116,16 @@ func main() {
 		}
 		slices.SortFunc(roots, index.Path.Compare)
 	}
+	// Drop the roots below another one: walking that one covers them,
+	// and a file must not be added twice.
+	all := roots
+	roots = nil
+	for _, p := range all {
+		if len(roots) > 0 && p.HasPathPrefix(roots[len(roots)-1]) {
+			continue
+		}
+		roots = append(roots, p)
+	}
 
 	master := index.File()
 	if _, err := os.Stat(master); err != nil {
-- 
2.43.0


From 47aa191cbf4b13707e940e4da75d609473253c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 12/18] fix: do not crash when a hidden file disappears during
 the walk

---
 cmd/cindex/cindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 39dee51..6f4a058 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -153,7 +153,7 @@ func main() {
 			if _, elem := filepath.Split(path); elem != "" {
 				// Skip various temporary or "hidden" files or directories.
 				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
-					if info.IsDir() {
+					if info != nil && info.IsDir() {
 						return filepath.SkipDir
 					}
 					return nil
-- 
2.43.0


From a6da4db5b6c3333189453e3bf812bab23a078700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 13/18] fix: do not show binary files as HTML pages

---
 cmd/csweb/web.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 70d0004..0cc5be7 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -199,6 +199,11 @@ func show(w http.ResponseWriter, r *http.Request) {
 		http.Error(w, err.Error(), 500)
 		return
 	}
+	if !isText(data) && strings.HasPrefix(http.DetectContentType(data), "text/") {
+		// Do not let a browser take the file for a page of ours.
+		w.Header().Set("Content-Type", "text/plain; charset=utf-8")
+		w.Header().Set("X-Content-Type-Options", "nosniff")
+	}
 	w.Write(serveFile(file, data))
 }
 
-- 
2.43.0


From c691482bd1ec3d017dd0d2ea1ba07bcf4103b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 14/18] fix: escape read errors in HTML output

---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index d29e589..e974aa1 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -537,7 +537,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		chunkStart = d
 		if endText && err != nil {
 			if err != io.EOF && err != io.ErrUnexpectedEOF {
-				fmt.Fprintf(g.Stderr, "%s: %v\n", g.esc(name), err)
+				fmt.Fprintf(g.Stderr, "%s: %s\n", g.esc(name), g.esc(err.Error()))
 			}
 			break
 		}
-- 
2.43.0


From ddedd816f1293b2a8bf05182baf220e09b2107d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:34 +0000
Subject: [PATCH 15/18] fix: escape file names and expressions in the URLs of
 links

A link to a file with %, ? or # in its name led to another file or nowhere,
and an expression with # or ? in it hid the line to go to.
---
 cmd/csweb/web.go | 11 +++++++++--
 regexp/match.go  | 14 ++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 0cc5be7..1e5bca8 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -14,6 +14,7 @@ import (
 	"io/fs"
 	"log"
 	"net/http"
+	"net/url"
 	"os"
 	"path"
 	"path/filepath"
@@ -207,6 +208,12 @@ func show(w http.ResponseWriter, r *http.Request) {
 	w.Write(serveFile(file, data))
 }
 
+// escURL escapes the file name for use in the path of a URL in an HTML attribute.
+func escURL(name string) string {
+	u := url.URL{Path: name}
+	return html.EscapeString(u.EscapedPath())
+}
+
 func printHeader(buf *bytes.Buffer, file string) {
 	e := html.EscapeString
 	buf.WriteString("<!DOCTYPE html>\n<head>\n")
@@ -217,7 +224,7 @@ func printHeader(buf *bytes.Buffer, file string) {
 	f := ""
 	for _, elem := range strings.Split(file, "/") {
 		f += "/" + elem
-		fmt.Fprintf(buf, `/<a href="/show%s">%s</a>`, e(f), e(elem))
+		fmt.Fprintf(buf, `/<a href="/show%s">%s</a>`, escURL(f), e(elem))
 	}
 	fmt.Fprintf(buf, `</b> <small>(<a href="/">about</a>)</small>`)
 	fmt.Fprintf(buf, "\n\n")
@@ -230,7 +237,7 @@ func serveDir(file string, dir []fs.DirEntry) []byte {
 	for _, d := range dir {
 		// Note: file is the full path including mod@vers.
 		file := path.Join(file, d.Name())
-		fmt.Fprintf(&buf, "<a href=\"/show%s\">%s</a>\n", e(file), e(path.Base(file)))
+		fmt.Fprintf(&buf, "<a href=\"/show%s\">%s</a>\n", escURL(file), e(path.Base(file)))
 	}
 	return buf.Bytes()
 }
diff --git a/regexp/match.go b/regexp/match.go
index e974aa1..da7f209 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -11,11 +11,11 @@ import (
 	"fmt"
 	"html"
 	"io"
+	"net/url"
 	"os"
 	"regexp/syntax"
 	"sort"
 	"strconv"
-	"strings"
 
 	"github.com/google/codesearch/sparse"
 )
@@ -404,6 +404,12 @@ func (g *Grep) esc(s string) string {
 	return s
 }
 
+// escURL escapes the file name for use in the path of a URL in an HTML attribute.
+func escURL(name string) string {
+	u := url.URL{Path: name}
+	return html.EscapeString(u.EscapedPath())
+}
+
 func (g *Grep) File(name string) {
 	f, err := os.Open(name)
 	if err != nil {
@@ -479,7 +485,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			g.Matches++
 			if g.L {
 				if g.HTML {
-					fmt.Fprintf(g.Stdout, "<a href=\"show/%s\">%s</a>\n", g.esc(name), g.esc(name))
+					fmt.Fprintf(g.Stdout, "<a href=\"show/%s\">%s</a>\n", escURL(name), g.esc(name))
 				} else {
 					fmt.Fprintf(g.Stdout, "%s\n", name)
 				}
@@ -512,7 +518,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
 			case g.HTML:
-				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(strings.ReplaceAll(name, "#", ">")), g.esc(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
+				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", escURL(name), url.QueryEscape(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
 			case g.N:
 				fmt.Fprintf(g.Stdout, "%s%d:%s%s", prefix, lineno, line, nl)
 			default:
@@ -544,7 +550,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	if g.C && count > 0 {
 		if g.HTML {
-			fmt.Fprintf(g.Stdout, "<a href=\"show/%s?q=%s\">%s</a>: %d\n", g.esc(name), g.esc(g.Regexp.String()), g.esc(name), count)
+			fmt.Fprintf(g.Stdout, "<a href=\"show/%s?q=%s\">%s</a>: %d\n", escURL(name), url.QueryEscape(g.Regexp.String()), g.esc(name), count)
 		} else {
 			fmt.Fprintf(g.Stdout, "%s: %d\n", name, count)
 		}
-- 
2.43.0


From 6d4d91c9b33a8e639125f818cb1af4aeb6e7d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 16/18] fix: keep a root whose name starts with byte 0xff when
 merging

---
 index/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/merge.go b/index/merge.go
index 1dc62c2..8d0ae99 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -132,7 +132,7 @@ func Merge(dst, src1, src2 string) {
 
 	// Merged list of paths.
 	pathData := ix.Offset()
-	last := MakePath("\xFF") // not a prefix of anything
+	last := MakePath("\x00") // not a prefix of anything: no path has a NUL
 	writeVersion = 2
 	paths := NewPathWriter(ix, nil, writeVersion, 0)
 	p1 := ix1.Roots()
-- 
2.43.0


From dcf370ba389d59f74466e25cfbfec6db8fecde84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:48 +0000
Subject: [PATCH 17/18] fix: name the zip member that cannot be read

---
 index/write.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/index/write.go b/index/write.go
index 185ed23..1f623ab 100644
--- a/index/write.go
+++ b/index/write.go
@@ -195,14 +195,15 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			return cmp.Compare(len(x.Name), len(y.Name))
 		})
 		for _, file := range files {
+			member := name + "\x01" + file.Name
 			r, err := file.Open()
 			if err != nil {
-				println("no3", name)
-
-				log.Printf("%s: %v", r, err)
+				log.Printf("%s: %v", member, err)
 				continue
 			}
-			ix.add(name+"\x01"+file.Name, r)
+			if err := ix.add(member, r); err != nil {
+				log.Printf("%s: %v", member, err)
+			}
 			r.Close()
 		}
 		return err
-- 
2.43.0


From 1ad3024904cc777f98ad1ab94d34108ce07a6156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:48 +0000
Subject: [PATCH 18/18] fix: csweb: unmap the index and close the archive after
 each search

---
 cmd/csweb/web.go      |  6 ++++++
 index/mmap_bsd.go     |  6 ++++++
 index/mmap_linux.go   |  6 ++++++
 index/mmap_windows.go |  7 +++++++
 index/read.go         | 10 ++++++++++
 5 files changed, 35 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 1e5bca8..8b0861b 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -77,6 +77,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 
 	start := time.Now()
 	ix := index.Open(index.File())
+	defer ix.Close()
 	ix.Verbose = *verboseFlag
 	post := ix.PostingQuery(q)
 	if *verboseFlag {
@@ -105,6 +106,11 @@ func home(w http.ResponseWriter, r *http.Request) {
 		zipReader *zip.ReadCloser
 		zipMap    map[string]*zip.File
 	)
+	defer func() {
+		if zipReader != nil {
+			zipReader.Close()
+		}
+	}()
 
 	for _, fileid := range post {
 		if g.Limited {
diff --git a/index/mmap_bsd.go b/index/mmap_bsd.go
index ce1de14..3f0bced 100644
--- a/index/mmap_bsd.go
+++ b/index/mmap_bsd.go
@@ -37,3 +37,9 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+func munmap(data []byte) {
+	if err := syscall.Munmap(data[:cap(data)]); err != nil {
+		log.Fatalf("munmap: %v", err)
+	}
+}
diff --git a/index/mmap_linux.go b/index/mmap_linux.go
index a3c961d..1a87d36 100644
--- a/index/mmap_linux.go
+++ b/index/mmap_linux.go
@@ -29,3 +29,9 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+func munmap(data []byte) {
+	if err := syscall.Munmap(data[:cap(data)]); err != nil {
+		log.Fatalf("munmap: %v", err)
+	}
+}
diff --git a/index/mmap_windows.go b/index/mmap_windows.go
index 38ae274..4cfe311 100644
--- a/index/mmap_windows.go
+++ b/index/mmap_windows.go
@@ -32,6 +32,13 @@ func mmapFile(f *os.File) mmapData {
 	if err != nil {
 		log.Fatalf("MapViewOfFile %s: %v", f.Name(), err)
 	}
+	syscall.CloseHandle(h) // the view keeps the mapping
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
 	return mmapData{f, data[:size]}
 }
+
+func munmap(data []byte) {
+	if err := syscall.UnmapViewOfFile(uintptr(unsafe.Pointer(&data[0]))); err != nil {
+		log.Fatalf("UnmapViewOfFile: %v", err)
+	}
+}
diff --git a/index/read.go b/index/read.go
index 1c8715b..d73552e 100644
--- a/index/read.go
+++ b/index/read.go
@@ -650,6 +650,16 @@ type mmapData struct {
 	d []byte
 }
 
+// Close unmaps the index and closes its file.
+// The index must not be used afterwards.
+func (ix *Index) Close() {
+	if ix.data.d != nil {
+		munmap(ix.data.d)
+	}
+	ix.data.f.Close()
+	ix.data = mmapData{}
+}
+
 // mmap maps the given file into memory.
 func mmap(file string) mmapData {
 	f, err := os.Open(file)
-- 
2.43.0

