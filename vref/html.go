package vref

// An Item is a tag or a piece of text of a page.
type Item struct {
	Tag   string   // empty for text
	Attrs []string // names
	Vals  []string // values, un-escaped
	Text  string   // un-escaped
}

// Page splits a page into its tags and texts the way a browser does, but accepts
// only plain tags with attributes in double quotes, and the escapes for the five
// special characters. It reports what is wrong otherwise.
func Page(s string) (items []Item, wrong string) {
	i := 0
	for i < len(s) {
		if s[i] != '<' {
			j := i
			for j < len(s) && s[j] != '<' {
				j++
			}
			t, ok := Unescape(s[i:j])
			if !ok {
				return nil, "a text has an ampersand that is not escaped"
			}
			items = append(items, Item{Text: t})
			i = j
			continue
		}
		i++
		j := i
		for j < len(s) && (s[j] == '/' || s[j] == '!' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
			j++
		}
		it := Item{Tag: s[i:j]}
		if it.Tag == "" {
			return nil, "a < does not begin a tag"
		}
		i = j
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n') {
				i++
			}
			if i == len(s) {
				return nil, "a tag does not end"
			}
			if s[i] == '>' {
				i++
				break
			}
			if s[i] == '/' && i+1 < len(s) && s[i+1] == '>' {
				i += 2
				break
			}
			j := i
			for j < len(s) && s[j] >= 'a' && s[j] <= 'z' {
				j++
			}
			if j == i && it.Tag != "!DOCTYPE" {
				return nil, "a tag has something else than attributes"
			}
			it.Attrs = append(it.Attrs, s[i:j])
			i = j
			if it.Tag == "!DOCTYPE" || i < len(s) && s[i] != '=' {
				it.Vals = append(it.Vals, "")
				continue
			}
			if i+1 >= len(s) || s[i+1] != '"' {
				return nil, "an attribute is not quoted"
			}
			i += 2
			j = i
			for j < len(s) && s[j] != '"' {
				j++
			}
			if j == len(s) {
				return nil, "an attribute does not end"
			}
			v, ok := Unescape(s[i:j])
			if !ok {
				return nil, "an attribute has an ampersand that is not escaped"
			}
			it.Vals = append(it.Vals, v)
			i = j + 1
		}
		items = append(items, it)
	}
	return items, ""
}

var entities = [][2]string{{"amp;", "&"}, {"lt;", "<"}, {"gt;", ">"}, {"#34;", "\""}, {"quot;", "\""}, {"#39;", "'"}, {"apos;", "'"}, {"#x27;", "'"}, {"#x22;", "\""}}

// Unescape replaces the escapes of the five special characters.
func Unescape(s string) (string, bool) {
	i := 0
	for i < len(s) && s[i] != '&' {
		i++
	}
	if i == len(s) {
		return s, true
	}
	b := []byte(s[:i])
next:
	for i < len(s) {
		if s[i] != '&' {
			b = append(b, s[i])
			i++
			continue
		}
		for _, e := range entities {
			if n := i + 1 + len(e[0]); n <= len(s) && s[i+1:n] == e[0] {
				b = append(b, e[1]...)
				i = n
				continue next
			}
		}
		return "", false
	}
	return string(b), true
}

// Skeleton is the tags of a page with the names of their attributes.
func Skeleton(items []Item) string {
	s := ""
	for _, it := range items {
		if it.Tag != "" {
			s += "<" + it.Tag
			for _, a := range it.Attrs {
				s += " " + a
			}
			s += ">"
		}
	}
	return s
}

// Texts is the text of a page.
func Texts(items []Item) string {
	s := ""
	for _, it := range items {
		s += it.Text
	}
	return s
}
