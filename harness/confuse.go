package main

import (
	"strings"
	"unicode"
)

// confusables are characters which look like one of the expressions' own, or
// which some mapping (case, width, digits of other scripts) takes for it.
var confusables = makeConfusables()

func makeConfusables() map[rune][]rune {
	m := map[rune][]rune{
		'-': []rune("‐‑‒–—−﹣－⁃"), 'X': []rune("ХΧ×Ⅹ𝐗"), 'Y': []rune("ҮΥ¥"), 'E': []rune("ЕΕ"), 'T': []rune("ТΤ"), 'Z': []rune("Ζ"), 'S': []rune("Ѕ"),
		':': []rune("：∶ː"), '/': []rune("／⁄∕"), '.': []rune("．。…‥·"), '?': []rune("？؟¿"), '~': []rune("～∼˜"), '%': []rune("％٪"), ',': []rune("，、‚"),
		'[': []rune("［【"), ']': []rune("］】"), '{': []rune("｛"), '}': []rune("｝"), '+': []rune("＋⁺"), ' ': []rune("\u00a0\u2003\u3000\u1680\t\v\f\u0085\u2028"),
	}
	for c := rune('0'); c <= '9'; c++ {
		for _, zero := range []rune{0x660, 0x6f0, 0x966, 0xff10, 0x1d7ce, 0x2080} {
			m[c] = append(m[c], zero+c-'0')
		}
	}
	m['1'] = append(m['1'], '¹', 'l', 'I', '①')
	m['2'] = append(m['2'], '²', '②')
	m['0'] = append(m['0'], 'O', 'o', '⁰', 'О')
	for c := rune('A'); c <= 'z'; c++ {
		if c > 'Z' && c < 'a' {
			continue
		}
		m[c] = append(m[c], c-'!'+0xff01)
		// every character which a change of case brings here
		for f := rune(0x80); f < 0x2200; f++ {
			if unicode.ToUpper(f) == c || unicode.ToLower(f) == c || unicode.ToTitle(f) == c || unicode.SimpleFold(f) == c {
				m[c] = append(m[c], f)
			}
		}
		// and, where the case of a letter is ignored, of its other case
		o := unicode.SimpleFold(c)
		for f := rune(0x80); f < 0x2200; f++ {
			if unicode.ToUpper(f) == o || unicode.ToLower(f) == o {
				m[c] = append(m[c], f)
			}
		}
	}
	return m
}

// joiners are characters which are not seen.
var joiners = []string{"\u200b", "\u200d", "\ufeff", "\u0301", "\u2060", "\u00ad", "\u200e", "\u0000", "\u001b[0m", "\u0308"}

// confused is s with one or more of its characters, or something unseen added.
func confused(r *Rng, s string) string {
	if s == "" || r.P(1, 8) {
		i := r.N(len(s) + 1)
		return s[:i] + r.Pick(joiners...) + s[i:]
	}
	all := r.P(1, 4)
	k := r.N(len(s))
	var sb strings.Builder
	for i, c := range s {
		if f := confusables[c]; len(f) > 0 && (all || i == k) {
			c = f[r.N(len(f))]
		}
		sb.WriteRune(c)
	}
	return sb.String()
}

// confuseTasks gives f every string of the corpus with each of its characters
// exchanged for each which may be taken for it.
func confuseTasks(tier string, f func(c *Ctx, s string)) []Task {
	return concat([]Task{{"confusable", func(c *Ctx) {
		for _, s := range append([]string{"Winter, 2004", "spring 2003", "SUMMER, 2001", "Fall, 1999", "open", "uuuu", "..", "2004-06-11T12:34:56Z", "Y17E3", "1950S2"}, corpus...) {
			for i, x := range s {
				for _, y := range confusables[x] {
					f(c, s[:i]+string(y)+s[i+len(string(x)):])
				}
			}
			for _, j := range joiners {
				for _, i := range []int{0, len(s) / 2, len(s)} {
					f(c, s[:i]+j+s[i:])
				}
			}
		}
	}}}, randTasks("confusable, random", scale(tier, 20000, 20), func(c *Ctx) { f(c, confused(c.Rng, genAny(c.Rng))) }))
}
