package index

import "github.com/google/codesearch/internal/vsym"

// verifSpread is a text with about n distinct trigrams.
func verifSpread(n int) string {
	b := make([]byte, n+2)
	for i := range b {
		b[i] = byte('!' + (i*(i/89*2+1)+i/89)%89)
	}
	return string(b)
}

// Posting indexes that fill their blocks to different degrees, any query.
func VerifC07_blocks() {
	n := vsym.Choice("trigrams", vsym.Pick(12, 160))
	if vsym.Thorough() {
		n += 1
	} else {
		n = []int{1, 2, 49, 50, 51, 52, 53, 100, 101, 102, 103, 104}[n]
	}
	files := []verifFile{{"d/a", verifSpread(n)}, {"d/b", "!\"#$%&"}}
	verifQueryAny(files, vsym.Pick(2, 2))
}

// Lists long enough for two-byte counts and offsets.
func VerifC07_long() {
	n := []int{126, 127, 128, 129, 260}[vsym.Choice("files", vsym.Pick(4, 5))]
	var files []verifFile
	w := verifSpread(vsym.Pick(40, 90))
	k := vsym.Choice("every", 2)
	for i := 0; i < n; i++ {
		t := "xyz"
		if i%(1+60*k) == 0 {
			t += w
		}
		if i%7 == 3 {
			t += "xy"
		}
		files = append(files, verifFile{"d/" + string([]byte{byte('a' + i/26), byte('a' + i%26)}), t})
	}
	verifQueryAny(files, 2)
}

func verifQueryAny(files []verifFile, version int) {
	ix := verifBuild("any", version, []string{"d"}, files)
	t := verifTrigram("t")
	got := ix.PostingList(t)
	// one formula per distinct content
	byData := map[string]bool{}
	m := make([]bool, len(files))
	for i, f := range files {
		if _, ok := byData[f.data]; !ok {
			byData[f.data] = verifHas(f.data, t)
		}
		m[i] = byData[f.data]
	}
	vsym.Assert(verifIsListC(got, m), "a posting list differs from the files that contain the trigram")
	for i, f := range files {
		vsym.Assert(ix.Name(i).String() == f.name, "a file has the wrong name")
	}
	vsym.Cover("looked up")
}

// verifIsListC is verifIsList for a list of concrete numbers.
func verifIsListC(list []int, member []bool) bool {
	ok := true
	at := make([]bool, len(member))
	for i, x := range list {
		if x < 0 || x >= len(member) || i > 0 && list[i-1] >= x {
			return false
		}
		at[x] = true
	}
	for i := range member {
		if at[i] {
			ok = vsym.And(ok, member[i])
		} else {
			ok = vsym.And(ok, vsym.Not(member[i]))
		}
	}
	return ok
}
