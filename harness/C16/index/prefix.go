package index

import (
	"os"

	"github.com/google/codesearch/internal/vsym"
)

// verifSome writes an index of one of several shapes and returns its file.
func verifSome(shape int) string {
	text := func(n int) string {
		return verifText("text", n, vsym.Pick(1, 2)) + string([]byte{vsym.IteByte(vsym.Bool("last"), 'a', 'b')}) + "\n"
	}
	switch shape {
	case 0: // nothing at all
		verifWrite(verifTmp("x"), 2, nil, nil)
	case 1:
		verifWrite(verifTmp("x"), 2, []string{"/a"}, []verifFile{{"/a/f", text(vsym.Pick(3, 4))}})
	case 2: // enough trigrams for several blocks
		s := ""
		for i := 0; i < 60; i++ {
			s += string([]byte{byte('a' + i%26), byte('a' + i/26), 'x', '\n'})
		}
		verifWrite(verifTmp("x"), 2, []string{"/a", "/b"}, []verifFile{{"/a/f", text(2)}, {"/a/g", s}, {"/b/h", s}})
	case 3: // merged
		verifWrite(verifTmp("y"), 2, []string{"/a"}, []verifFile{{"/a/f", text(2)}, {"/a/g", "xyz\n"}})
		verifWrite(verifTmp("z"), 2, []string{"/b"}, []verifFile{{"/b/f", text(2)}})
		Merge(verifTmp("x"), verifTmp("y"), verifTmp("z"))
	case 4: // the older format
		verifWrite(verifTmp("x"), 1, []string{"/a"}, []verifFile{{"/a/f", text(vsym.Pick(3, 4))}})
	case 5: // text that resembles an index
		verifWrite(verifTmp("x"), 2, []string{"/csearch trailr"}, []verifFile{{"/csearch trailr/csearch index 2", "\ncsearch trailr\n\ncsearch trlr 2\n"}})
	}
	return verifTmp("x")
}

// Every proper prefix of an index file is reported as corrupt by Open.
func VerifC16_prefix() {
	file := verifSome(vsym.Choice("shape", 6))
	data, err := os.ReadFile(file)
	vsym.Assert(err == nil && len(data) > 0, "no index was written")
	cut := vsym.Choice("cut", len(data))
	vsym.Assert(os.WriteFile(verifTmp("p"), data[:cut], 0666) == nil, "")
	code := verifTry(func() { Open(verifTmp("p")) })
	vsym.Assert(code == 1 || code == 2, "a truncated index is opened, or its opening fails without a report")
	vsym.Cover("recognised")
}

// Every index built or merged opens and passes the check.
func VerifC16_passes() {
	var fs []verifFile
	n := 1 + vsym.Choice("files", 3)
	for i := 0; i < n; i++ {
		more := 0
		if i == 0 || n < vsym.Pick(3, 4) {
			more = vsym.Choice("more", 2)
		}
		fs = append(fs, verifFile{"/a/" + string([]byte{byte('a' + i)}), verifText("text", 3*vsym.Choice("len", 2)+more, 2)})
	}
	k := vsym.Choice("split", n+1) // the first k were there before
	file := verifTmp("x")
	if k == 0 {
		verifWrite(file, 2, []string{"/a"}, fs)
	} else {
		root := "/a"
		if vsym.Choice("new root", 2) == 1 || k == n {
			root = "/b"
			for i := k; i < n; i++ {
				fs[i].name = "/b/" + string([]byte{byte('a' + i)})
			}
		}
		verifWrite(verifTmp("y"), 2, []string{"/a"}, fs[:k])
		verifWrite(verifTmp("z"), 2, []string{root}, fs[k:])
		Merge(file, verifTmp("y"), verifTmp("z"))
	}
	var err error
	code := verifTry(func() { err = Open(file).Check() })
	vsym.Assert(code == 0 && err == nil, "an index that was just written fails the check")
	vsym.Cover("passed")
}

// The same for indexes of several blocks and long lists.
func VerifC16_passesLarge() {
	n := 1 + vsym.Choice("files", vsym.Pick(40, 90))
	var fs []verifFile
	s := "shared\n"
	for i := 0; i < vsym.Pick(80, 200); i++ {
		s += string([]byte{byte('a' + i%26), byte('a' + i/26), 'x', '\n'})
	}
	at := vsym.Choice("at", 3)
	for i := 0; i < n; i++ {
		d := "shared\n"
		if i == 0 && at == 0 || i == n/2 && at == 1 || i == n-1 && at == 2 {
			d = s
		}
		fs = append(fs, verifFile{"/a/" + string([]byte{byte('a' + i/26), byte('a' + i%26)}), d})
	}
	file := verifTmp("x")
	verifWrite(file, 2, []string{"/a"}, fs)
	if vsym.Choice("merged", 2) == 1 {
		verifWrite(verifTmp("z"), 2, []string{"/b"}, []verifFile{{"/b/x", s}})
		Merge(verifTmp("m"), file, verifTmp("z"))
		file = verifTmp("m")
	}
	var err error
	code := verifTry(func() { err = Open(file).Check() })
	vsym.Assert(code == 0 && err == nil, "an index that was just written fails the check")
	vsym.Cover("passed")
}
