package ref

import "strings"

// wide reports whether s is, or might be argued to be, EDTF in some edition or
// by some lenient reading which the README does not document: mixtures of
// Level 2 features, the words of the 2012 draft, white space in season names.
// The model predicts nothing about such strings. It has to be generous: a
// string outside it is one that nobody would call EDTF.
func wide(s string) bool {
	if len(s) > 1<<20 {
		return true
	}
	if strings.Contains(s, "ſ") || strings.Contains(s, "\u212a") {
		return true // case folding
	}
	t := strings.Map(func(r rune) rune {
		switch r {
		case 'u':
			return 'X'
		case 'y', 'e':
			return r - 32
		}
		return r
	}, s)
	if word(s) || wideDate(t) {
		return true
	}
	// sets
	if n := len(t); n >= 2 && (t[0] == '[' && t[n-1] == ']' || t[0] == '{' && t[n-1] == '}') {
		for _, p := range strings.Split(t[1:n-1], ",") {
			p = strings.Trim(p, " ")
			if i := strings.Index(p, ".."); i >= 0 {
				if !(p[:i] == "" || wideDate(p[:i])) || !(p[i+2:] == "" || wideDate(p[i+2:])) {
					return false
				}
			} else if !wideDate(p) {
				return false
			}
		}
		return true
	}
	if l, r, ok := cut1(t, '/'); ok {
		side := func(x, orig string) bool {
			return x == "" || x == ".." || word(orig) || wideDate(x)
		}
		ol, or, _ := cut1(s, '/')
		return side(l, ol) && side(r, or)
	}
	// season words
	if i := strings.IndexByte(s, ','); i >= 0 {
		w := strings.ToLower(strings.TrimSpace(s[:i]))
		y := strings.TrimSpace(s[i+1:])
		y = strings.TrimPrefix(y, "-")
		switch w {
		case "spring", "summer", "fall", "autumn", "winter":
			return len(y) == 4 && dx(y)
		}
	}
	return false
}

func word(s string) bool {
	switch s {
	case "open", "unknown", "uuuu", "now", "present":
		return true
	}
	return false
}

func wideDate(s string) bool {
	i := 0
	q := func() {
		if i < len(s) && isQ(s[i]) {
			i++
		}
	}
	digits := func() bool {
		j := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i > j
	}
	sig := func() bool {
		if i < len(s) && s[i] == 'S' {
			i++
			return digits()
		}
		return true
	}
	q()
	if i < len(s) && s[i] == 'Y' {
		i++
		if i < len(s) && s[i] == '-' {
			i++
		}
		if !digits() {
			return false
		}
		if i < len(s) && s[i] == 'E' {
			i++
			if !digits() {
				return false
			}
		}
		if !sig() {
			return false
		}
		q()
		return i == len(s)
	}
	if i < len(s) && s[i] == '-' {
		i++
	}
	q()
	if len(s) < i+4 || !dx(s[i:i+4]) {
		return false
	}
	i += 4
	if i < len(s) && s[i] == 'S' {
		if !sig() {
			return false
		}
		q()
		return i == len(s)
	}
	q()
	if i == len(s) {
		return true
	}
	if s[i] != '-' {
		return false
	}
	i++
	q()
	if len(s) < i+2 || !dx(s[i:i+2]) {
		return false
	}
	m := s[i : i+2]
	i += 2
	okm := monthMask(m)
	for k := 21; k <= 41 && !okm; k++ {
		okm = maskMatch(m, k, 2) && strings.IndexByte(m, 'X') < 0
		if okm {
			q()
			return i == len(s)
		}
	}
	if !okm {
		return false
	}
	q()
	if i == len(s) {
		return true
	}
	if s[i] != '-' {
		return false
	}
	i++
	q()
	if len(s) < i+2 || !dx(s[i:i+2]) || !dayMask(s[i:i+2]) {
		return false
	}
	i += 2
	q()
	if i == len(s) {
		return true
	}
	if s[i] != 'T' {
		return false
	}
	// any time of day which has the form of one
	r := s[i+1:]
	if len(r) < 8 || r[2] != ':' || r[5] != ':' || !dig(r[0:2]) || !dig(r[3:5]) || !dig(r[6:8]) {
		return false
	}
	z := r[8:]
	return z == "" || z == "Z" ||
		(z[0] == '+' || z[0] == '-') && (len(z) == 3 && dig(z[1:3]) || len(z) == 6 && dig(z[1:3]) && z[3] == ':' && dig(z[4:6]))
}
