package vref

import "unicode/utf8"

// A URL as a browser reads it from an attribute, on a page in the root.
type URL struct {
	Path, Query, Frag string
	HasQuery, HasFrag bool
}

func unhex(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

func unpercent(s string, plus bool) (string, bool) {
	var b []byte
	raw := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '%' {
			if i+2 >= len(s) {
				return "", false
			}
			hi, ok1 := unhex(s[i+1])
			lo, ok2 := unhex(s[i+2])
			if !ok1 || !ok2 {
				return "", false
			}
			c = hi<<4 | lo
			i += 2
		} else if plus && c == '+' {
			c = ' '
		} else if c == 0 || c == '\t' || c == '\n' || c == '\r' || c <= ' ' && i == len(s)-1 {
			// A browser drops these.
			return "", false
		} else if c == '\\' && !plus {
			c = '/'
		} else if c >= 0x80 {
			raw = true
		}
		b = append(b, c)
	}
	if raw && !utf8.ValidString(s) {
		return "", false
	}
	return string(b), true
}

// Link reads href (character references already replaced), a path with an
// optional query "q=..." and fragment. ok is false if it is anything else, or
// if browsers and servers would not agree about what it means.
func Link(href string) (u URL, ok bool) {
	for i := 0; i < len(href); i++ {
		if href[i] == '#' {
			u.HasFrag, u.Frag = true, href[i+1:]
			href = href[:i]
			break
		}
	}
	for i := 0; i < len(href); i++ {
		if href[i] == '?' {
			u.HasQuery, u.Query = true, href[i+1:]
			href = href[:i]
			break
		}
	}
	if u.Path, ok = unpercent(href, false); !ok {
		return u, false
	}
	if len(u.Path) == 0 || u.Path[0] != '/' {
		// Relative to the root; the path may not begin like a scheme.
		u.Path = "/" + u.Path
	}
	// The server redirects from // to /.
	var b []byte
	for i := 0; i < len(u.Path); i++ {
		if u.Path[i] == '/' && len(b) > 0 && b[len(b)-1] == '/' {
			continue
		}
		b = append(b, u.Path[i])
	}
	u.Path = string(b)
	return u, true
}

// Param is the value of the parameter q, which must be the only one.
func (u URL) Param() (string, bool) {
	if len(u.Query) < 2 || u.Query[:2] != "q=" {
		return "", false
	}
	for i := 2; i < len(u.Query); i++ {
		if u.Query[i] == '&' || u.Query[i] == ';' {
			return "", false
		}
	}
	return unpercent(u.Query[2:], true)
}
