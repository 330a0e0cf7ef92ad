package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"verif/harness/ref"
)

// Generators of EDTF strings. All of them are deterministic in the Rng.

var edgeYears = []int{0, 1, -1, 4, -4, 5, -5, 8, 100, -100, 99, 101, 400, -400, 399, 999, 1000, -999, -1000, 1582, 1600, 1700, 1800, 1899, 1900, 1901,
	1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2003, 2004, 2021, 2100, 2400, 9995, 9996, 9998, 9999, -9996, -9998, -9999, 10, -10, 1960, 1666, 1667}

func genYear(r *Rng) int {
	switch r.N(8) {
	case 0, 1:
		return edgeYears[r.N(len(edgeYears))]
	case 2:
		return r.In(1900, 2100)
	case 3:
		return r.In(-9999, -1)
	case 4:
		return r.In(0, 999)
	case 5:
		y := r.In(-99, 99) * 100
		return y + r.In(-1, 1)
	default:
		return r.In(0, 9999)
	}
}

func genPosYear(r *Rng) int {
	y := genYear(r)
	if y < 0 {
		y = -y
	}
	return y
}

func ys(y int) string { return ref.YearString(y) }

func ym(y, m int) string { return fmt.Sprintf("%s-%02d", ys(y), m) }

func ymd(y, m, d int) string { return fmt.Sprintf("%s-%02d-%02d", ys(y), m, d) }

func genMD(r *Rng, y int) (m, d int) {
	m = r.In(1, 12)
	if r.P(1, 4) {
		m = []int{1, 2, 2, 12}[r.N(4)]
	}
	n := ref.Dim(y, m)
	switch r.N(4) {
	case 0:
		d = n
	case 1:
		d = 1
	case 2:
		d = n - r.N(3)
	default:
		d = r.In(1, n)
	}
	return
}

func genDateY(r *Rng, y int) string {
	m, d := genMD(r, y)
	switch r.N(4) {
	case 0:
		return ys(y)
	case 1:
		return ym(y, m)
	}
	return ymd(y, m, d)
}

func genDate(r *Rng) string { return genDateY(r, genYear(r)) }

// genNoDay is a well-formed date which does not exist.
func genNoDay(r *Rng) string {
	y := genYear(r)
	m := []int{2, 2, 2, 4, 6, 9, 11}[r.N(7)]
	return ymd(y, m, r.In(ref.Dim(y, m)+1, 31))
}

func genTime(r *Rng) string {
	h, m, s := r.N(24), r.N(60), r.N(60)
	switch r.N(5) {
	case 0:
		h, m, s = 0, 0, 0
	case 1:
		h, m, s = 23, 59, 59
	}
	return fmt.Sprintf("%02d:%02d:%02d", h, m, s)
}

// ownOffsets are the offsets which the time zone of this process has had, in a
// process which runs a share of the cases in another zone than UTC.
var ownOffsets = sync.OnceValue(func() (out []string) {
	if os.Getenv("HARNESS_SHARE") == "" {
		return nil
	}
	seen := map[int]bool{0: true}
	for y := 1850; y < 2040; y++ {
		for m := time.January; m <= time.December; m++ {
			_, o := time.Date(y, m, 1, 0, 0, 0, 0, time.Local).Zone()
			if seen[o] || o%60 != 0 {
				continue
			}
			seen[o] = true
			sign, a := "+", o/60
			if a < 0 {
				sign, a = "-", -a
			}
			out = append(out, fmt.Sprintf("%s%02d:%02d", sign, a/60, a%60))
			if a%60 == 0 {
				out = append(out, fmt.Sprintf("%s%02d", sign, a/60))
			}
		}
	}
	return
})

func genOffset(r *Rng) string {
	if own := ownOffsets(); len(own) > 0 && r.P(1, 3) {
		return own[r.N(len(own))]
	}
	sign := r.Pick("+", "-")
	h := r.N(24)
	if r.P(1, 2) {
		h = r.N(15)
	}
	switch r.N(6) {
	case 0:
		return ""
	case 1:
		return "Z"
	case 2:
		return fmt.Sprintf("%s%02d", sign, h)
	}
	m := r.N(60)
	if r.P(1, 2) {
		m = []int{0, 30, 45, 15, 59, 1}[r.N(6)]
	}
	return fmt.Sprintf("%s%02d:%02d", sign, h, m)
}

func genDateTime(r *Rng) string {
	y := genYear(r)
	m, d := genMD(r, y)
	if r.P(1, 4) {
		if r.P(1, 2) {
			m, d = 12, 31
		} else {
			m, d = 1, 1
		}
	}
	return ymd(y, m, d) + "T" + genTime(r) + genOffset(r)
}

// genMask is a date with unspecified digits, X for the last digits of components.
func genMask(r *Rng) string {
	y := fmt.Sprintf("%04d", genPosYear(r))
	if r.P(1, 2) {
		n := r.In(1, 3)
		y = y[:4-n] + "XXX"[:n]
	}
	ms := []string{"XX", "0X", "1X", fmt.Sprintf("%02d", r.In(1, 12)), "02"}
	m := ms[r.N(len(ms))]
	ds := []string{"XX", "0X", "1X", "2X", "3X", fmt.Sprintf("%02d", r.In(1, 31)), "29", "30", "31"}
	d := ds[r.N(len(ds))]
	var s string
	switch r.N(4) {
	case 0:
		s = y
	case 1:
		s = y + "-" + m
	default:
		s = y + "-" + m + "-" + d
	}
	if strings.IndexByte(s, 'X') < 0 {
		s = y[:3] + "X" + s[4:]
	}
	return s
}

// genOddMask has X anywhere, or a minus sign.
func genOddMask(r *Rng) string {
	s := genDate(r)
	b := []byte(s)
	for k := r.In(1, 4); k > 0; k-- {
		i := r.N(len(b))
		if b[i] >= '0' && b[i] <= '9' {
			b[i] = 'X'
		}
	}
	return string(b)
}

func q1(r *Rng) string { return r.Pick("?", "~", "%") }
func q0(r *Rng) string {
	if r.P(1, 2) {
		return ""
	}
	return q1(r)
}

// genGroup has qualifiers to the right of components.
func genGroup(r *Rng) string {
	y := genPosYear(r)
	m, d := genMD(r, y)
	switch r.N(4) {
	case 0:
		return ys(y) + q1(r)
	case 1:
		return ys(y) + q0(r) + fmt.Sprintf("-%02d", m) + q1(r)
	case 2:
		return ys(y) + q1(r) + fmt.Sprintf("-%02d", m) + q0(r) + fmt.Sprintf("-%02d", d) + q0(r)
	}
	return ys(y) + q0(r) + fmt.Sprintf("-%02d", m) + q1(r) + fmt.Sprintf("-%02d", d) + q0(r)
}

func genIndividual(r *Rng) string {
	y := genPosYear(r)
	m, d := genMD(r, y)
	switch r.N(4) {
	case 0:
		return q1(r) + ys(y)
	case 1:
		return q0(r) + ys(y) + "-" + q1(r) + fmt.Sprintf("%02d", m)
	case 2:
		return q1(r) + ys(y) + "-" + q0(r) + fmt.Sprintf("%02d-", m) + q0(r) + fmt.Sprintf("%02d", d)
	}
	return q0(r) + ys(y) + "-" + q0(r) + fmt.Sprintf("%02d-", m) + q1(r) + fmt.Sprintf("%02d", d)
}

func genQualified(r *Rng) string { return genDate(r) + q1(r) }

// genSide is an interval endpoint of Level 2.
func genSide(r *Rng) string {
	switch r.N(6) {
	case 0:
		return genDate(r)
	case 1, 2:
		return genMask(r)
	case 3:
		// qualifiers before components of a masked or negative date
		s := genMask(r)
		if r.P(1, 3) {
			s = genDate(r)
		}
		neg := ""
		if s[0] == '-' {
			neg, s = "-", s[1:]
		}
		p := strings.Split(s, "-")
		for i := range p {
			if i == 0 {
				p[i] = q0(r) + neg + p[i]
			} else {
				p[i] = q0(r) + p[i]
			}
		}
		return strings.Join(p, "-")
	}
	return genIndividual(r)
}

func genInterval0(r *Rng) string {
	if r.P(1, 4) {
		// close to each other
		y := genYear(r)
		return genDateY(r, y) + "/" + genDateY(r, clampYear(y+r.In(-1, 1)))
	}
	return genDate(r) + "/" + genDate(r)
}

func clampYear(y int) int {
	if y > 9999 {
		return 9999
	}
	if y < -9999 {
		return -9999
	}
	return y
}

func genInterval2(r *Rng) string { return genSide(r) + "/" + genSide(r) }

func genExt(r *Rng) string {
	d := genDate(r)
	return [4]string{d + "/..", d + "/", "../" + d, "/" + d}[r.N(4)]
}

func genSeason(r *Rng) string {
	y := genYear(r)
	if r.P(2, 3) {
		return fmt.Sprintf("%s-%d", ys(y), r.In(21, 24))
	}
	w := r.Pick("Spring", "Summer", "Fall", "Winter")
	switch r.N(4) {
	case 0:
		w = strings.ToLower(w)
	case 1:
		w = strings.ToUpper(w)
	case 2:
		b := []byte(w)
		for i := range b {
			if r.P(1, 2) {
				b[i] ^= 0x20
			}
		}
		w = string(b)
	}
	return fmt.Sprintf("%s, %s", w, ys(genPosYear(r)))
}

func genSub(r *Rng) string { return fmt.Sprintf("%s-%d", ys(genPosYear(r)), r.In(25, 41)) }

func genYYear(r *Rng) string {
	if r.P(2, 3) {
		return "Y" + ys(genYear(r))
	}
	s := "Y" + r.Pick("", "-") + fmt.Sprintf("%d", r.In(1, 9))
	for k := r.In(4, 20); k > 0; k-- {
		s += fmt.Sprintf("%d", r.N(10))
	}
	return s
}

func genExp(r *Rng) string {
	s := "Y" + r.Pick("", "-")
	switch r.N(4) {
	case 0:
		return s + fmt.Sprintf("%dE%d", r.In(1, 9999), r.N(6))
	case 1:
		return s + fmt.Sprintf("%dE%d", r.In(1, 99), r.N(4))
	case 2:
		return s + fmt.Sprintf("%dE%d", r.U64()>>uint(r.N(64)), r.N(30))
	}
	return s + fmt.Sprintf("%dE%d", r.In(1, 99), r.N(1<<uint(r.In(1, 29))))
}

func genSig(r *Rng) string {
	n := fmt.Sprintf("S%d", r.In(1, 4))
	if r.P(1, 10) {
		n = fmt.Sprintf("S%d", r.U64()>>uint(r.In(24, 63)))
	}
	switch r.N(4) {
	case 0, 1:
		return ys(genYear(r)) + n
	case 2:
		return genYYear(r) + n
	}
	return genExp(r) + n
}

// genSet makes a set of members around one year, or of any members.
func genSet(r *Rng) string { return genSetOf(r, r.In(1, 5)) }

// genBigSet has tens or hundreds of members, the outermost of which may be anywhere among them.
func genBigSet(r *Rng) string {
	k := r.In(6, 40)
	switch r.N(12) {
	case 0:
		k = r.In(40, 700)
	case 1, 2:
		k = r.In(40, 140)
	}
	return genSetOf(r, k)
}

func genSetOf(r *Rng, k int) string {
	y0 := genYear(r)
	near := r.P(2, 3)
	member := func() string {
		if near {
			return genDateY(r, clampYear(y0+r.In(-3, 3)))
		}
		return genDate(r)
	}
	var ms []string
	for i := 0; i < k; i++ {
		switch {
		case r.P(1, 5):
			ms = append(ms, member()+".."+member())
		case i == 0 && r.P(1, 5):
			ms = append(ms, ".."+member())
		case i == k-1 && r.P(1, 5):
			ms = append(ms, member()+"..")
		default:
			ms = append(ms, member())
		}
	}
	if r.P(1, 30) {
		ms[r.N(len(ms))] = genNoDay(r)
	}
	s := strings.Join(ms, ",")
	if r.P(1, 2) {
		return "[" + s + "]"
	}
	return "{" + s + "}"
}

// genAny is an expression of any feature.
func genAny(r *Rng) string {
	switch r.N(20) {
	case 0, 1:
		return genDate(r)
	case 2:
		return genDateTime(r)
	case 3, 4:
		return genInterval0(r)
	case 5:
		return genExt(r)
	case 6:
		return genSeason(r)
	case 7:
		return genSub(r)
	case 8, 9:
		return genMask(r)
	case 10:
		return genGroup(r)
	case 11:
		return genIndividual(r)
	case 12:
		return genQualified(r)
	case 13:
		return genYYear(r)
	case 14:
		return genExp(r)
	case 15:
		return genSig(r)
	case 16, 17:
		return genSet(r)
	case 18:
		return genInterval2(r)
	}
	switch r.N(10) {
	case 0:
		return ".."
	case 1:
		return ""
	case 2:
		return genOddMask(r)
	case 3:
		return genNoDay(r)
	}
	return genInterval2(r)
}

const alphabet = "0123456789-/.,:?~%XYESTZ+[]{} xyestzuopnWPFSgil\t\n\r\x00()*_&'\"\\é–−ſ０"

var affixes = []string{" ", "\n", "\t", "\r\n", "\x00", "Z", "/", "..", "?", "~", "%", "X", "-", "+", "S2", "E2", "T", "T00:00:00", "-01", "-01-01", "/..", "/2000", ",", "]", "}", "[", "{",
	"junk", "Y", "é", "\xff", "\u00a0", "\u2028", "0", "1", "00", ".", "?~", "-1", " AD", "//", "--", "%%", "??", "-00", "-13", "-32", "-42"}

// genJunk is one expression with something wrong, or something else altogether.
func genJunk(r *Rng) string {
	s := genAny(r)
	ab := []rune(alphabet)
	for k := r.In(1, 2); k > 0; k-- {
		switch r.N(10) {
		case 0, 1: // insert
			i := r.N(len(s) + 1)
			s = s[:i] + string(ab[r.N(len(ab))]) + s[i:]
		case 2: // delete
			if len(s) > 0 {
				i := r.N(len(s))
				s = s[:i] + s[i+1:]
			}
		case 3: // replace
			if len(s) > 0 {
				i := r.N(len(s))
				s = s[:i] + string(ab[r.N(len(ab))]) + s[i+1:]
			}
		case 4:
			s += r.Pick(affixes...)
		case 5:
			s = r.Pick(affixes...) + s
		case 6:
			s = s + r.Pick("", "/", ",", "..", " ", "-") + genAny(r)
		case 7: // repeat a part
			if len(s) > 1 {
				i := r.N(len(s))
				j := r.In(i, len(s))
				s = s[:j] + s[i:j] + s[j:]
			}
		case 8: // case
			s = strings.ToLower(s)
		case 9: // any byte anywhere
			i := r.N(len(s) + 1)
			s = s[:i] + string([]byte{byte(r.N(256))}) + s[i:]
		}
	}
	return s
}
