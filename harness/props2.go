package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"

	"verif/harness/ref"
)

// ------------------------------------------------------------- the API's tables

type feature struct {
	level int
	name  string
	is    func(string) bool
	parse func(string) (*edtf.EDTFDate, error)
}

var features = []feature{
	{0, level0.DATE, level0.IsDate, level0.ParseDate},
	{0, level0.DATE_AND_TIME, level0.IsDateAndTime, level0.ParseDateAndTime},
	{0, level0.TIME_INTERVAL, level0.IsTimeInterval, level0.ParseTimeInterval},
	{1, level1.LETTER_PREFIXED_CALENDAR_YEAR, level1.IsLetterPrefixedCalendarYear, level1.ParseLetterPrefixedCalendarYear},
	{1, level1.SEASON, level1.IsSeason, level1.ParseSeason},
	{1, level1.QUALIFIED_DATE, level1.IsQualifiedDate, level1.ParseQualifiedDate},
	{1, level1.UNSPECIFIED_DIGITS, level1.IsUnspecifiedDigits, level1.ParseUnspecifiedDigits},
	{1, level1.EXTENDED_INTERVAL, level1.IsExtendedInterval, level1.ParseExtendedInterval},
	{1, level1.EXTENDED_INTERVAL_START, matches1(level1.EXTENDED_INTERVAL_START), level1.ParseExtendedIntervalStart},
	{1, level1.EXTENDED_INTERVAL_END, matches1(level1.EXTENDED_INTERVAL_END), level1.ParseExtendedIntervalEnd},
	{1, level1.NEGATIVE_CALENDAR_YEAR, level1.IsNegativeCalendarYear, level1.ParseNegativeCalendarYear},
	{2, level2.EXPONENTIAL_YEAR, level2.IsExponentialYear, level2.ParseExponentialYear},
	{2, level2.SIGNIFICANT_DIGITS, level2.IsSignificantDigits, level2.ParseSignificantDigits},
	{2, level2.SUB_YEAR_GROUPINGS, level2.IsSubYearGrouping, level2.ParseSubYearGroupings},
	{2, level2.SET_REPRESENTATIONS, level2.IsSetRepresentation, level2.ParseSetRepresentations},
	{2, level2.GROUP_QUALIFICATION, level2.IsGroupQualification, level2.ParseGroupQualification},
	{2, level2.INDIVIDUAL_QUALIFICATION, level2.IsIndividualQualification, level2.ParseIndividualQualification},
	{2, level2.UNSPECIFIED_DIGIT, level2.IsUnspecifiedDigit, level2.ParseUnspecifiedDigit},
	{2, level2.INTERVAL, level2.IsInterval, level2.ParseInterval},
}

// matches1 stands for the predicate of a feature which has none.
func matches1(name string) func(string) bool {
	return func(s string) bool {
		f, err := level1.Matches(s)
		return err == nil && f == name
	}
}

type level struct {
	n       int
	is      func(string) bool
	matches func(string) (string, error)
	parse   func(string) (*edtf.EDTFDate, error)
}

var levels = []level{
	{0, level0.IsLevel0, level0.Matches, level0.ParseString},
	{1, level1.IsLevel1, level1.Matches, level1.ParseString},
	{2, level2.IsLevel2, level2.Matches, level2.ParseString},
}

// ------------------------------------------------------------- small observers

// boundsOf is what a result says about its four dates: kind 't' with its time, 'o', 'u' or '?'.
type bound struct {
	kind byte
	sec  int64
}

func (b bound) String() string {
	if b.kind == 't' {
		return ref.RFC3339(b.sec)
	}
	return string(b.kind)
}

func boundOf(x *edtf.Date) bound {
	switch {
	case x.Timestamp != nil:
		return bound{'t', x.Timestamp.Unix()}
	case x.Open:
		return bound{'o', 0}
	case x.Unknown:
		return bound{'u', 0}
	}
	return bound{'?', 0}
}

func boundsOf(d *edtf.EDTFDate) (b [4]bound, ok bool) {
	cs, ok := corners(d)
	if !ok {
		return b, false
	}
	for i, x := range cs {
		b[i] = boundOf(x)
	}
	return b, true
}

// parseBounds parses, and gives the bounds of a result which is complete.
func parseBounds(c *Ctx, s string) (d *edtf.EDTFDate, b [4]bound, ok bool) {
	d, err := parser.ParseString(s)
	if err != nil {
		if d != nil {
			c.Fail("struct", "%q: a result and an error", s)
		}
		return nil, b, false
	}
	b, ok = boundsOf(d)
	if !ok {
		c.Fail("struct", "%q: the result lacks a start, end, lower or upper", s)
		return nil, b, false
	}
	return d, b, true
}

// checkSides: the interval A/B against A alone and B alone.
func checkSides(c *Ctx, a []string) bool {
	da, ba, oka := parseBounds(c, a[0])
	db, bb, okb := parseBounds(c, a[1])
	d, b, ok := parseBounds(c, a[0]+"/"+a[1])
	if !ok {
		return false
	}
	if oka && da != nil && plainSpan(a[0]) {
		if b[0] != ba[0] || b[1] != ba[3] {
			c.Fail("sides", "start of %s is %v..%v, but %q alone is %v..%v", a[0]+"/"+a[1], b[0], b[1], a[0], ba[0], ba[3])
		}
	}
	if okb && db != nil && plainSpan(a[1]) {
		if b[2] != bb[0] || b[3] != bb[3] {
			c.Fail("sides", "end of %s is %v..%v, but %q alone is %v..%v", a[0]+"/"+a[1], b[2], b[3], a[1], bb[0], bb[3])
		}
	}
	if d.Start.EDTF != a[0] || d.End.EDTF != a[1] {
		c.Fail("sides", "start.edtf %q end.edtf %q of %s", d.Start.EDTF, d.End.EDTF, a[0]+"/"+a[1])
	}
	return oka || okb
}

// checkSideNames: the sides of an interval carry what is written on them.
func checkSideNames(c *Ctx, a []string) bool {
	d, _, ok := parseBounds(c, a[0])
	if !ok {
		return false
	}
	i := strings.IndexByte(a[0], '/')
	if d.Start.EDTF != a[0][:i] || d.End.EDTF != a[0][i+1:] {
		c.Fail("sides", "start.edtf %q end.edtf %q of %s", d.Start.EDTF, d.End.EDTF, a[0])
	}
	return true
}

func plainSpan(s string) bool { return !strings.ContainsAny(s, "/.[{ ") }

// checkWithoutQualifiers: qualifiers do not change the bounds.
func checkWithoutQualifiers(c *Ctx, a []string) bool {
	s := a[0]
	plain := strings.NewReplacer("?", "", "~", "", "%", "").Replace(s)
	if plain == s {
		return false
	}
	_, b, ok := parseBounds(c, s)
	if !ok {
		return false
	}
	_, p, ok := parseBounds(c, plain)
	if !ok {
		c.Fail("without", "%q parses, but without its qualifiers it does not", s)
		return true
	}
	if strings.Contains(s, "/") {
		if b != p {
			c.Fail("without", "bounds %v, but without qualifiers they are %v", b, p)
		}
	} else if b[0] != p[0] || b[3] != p[3] {
		c.Fail("without", "bounds %v, but without qualifiers they are %v", b, p)
	}
	return true
}

// checkSetOrder: two sets of the same members have the same bounds.
func checkSetOrder(c *Ctx, a []string) bool {
	if a[0] == a[1] {
		return false
	}
	d1, b1, ok1 := parseBounds(c, a[0])
	d2, b2, ok2 := parseBounds(c, a[1])
	if ok1 != ok2 {
		c.Fail("order", "one order of the members parses, the other does not")
		return true
	}
	if !ok1 {
		return true
	}
	if b1[0] != b2[0] || b1[3] != b2[3] {
		c.Fail("order", "%v, but in another order %v", b1, b2)
	}
	if d1.Start.Lower.Inclusivity != d2.Start.Lower.Inclusivity || d1.End.Upper.Inclusivity != d2.End.Upper.Inclusivity {
		c.Fail("order", "inclusivity depends on the order")
	}
	return true
}

// shuffleSet puts the members into another order; an open end stays where it is.
func shuffleSet(r *Rng, s string) string {
	if len(s) < 2 {
		return s
	}
	ms := strings.Split(s[1:len(s)-1], ",")
	lo, hi := 0, len(ms)
	if strings.HasPrefix(ms[0], "..") {
		lo = 1
	}
	if strings.HasSuffix(ms[len(ms)-1], "..") {
		hi--
	}
	for i := hi - 1; i > lo; i-- {
		j := lo + r.N(i-lo+1)
		ms[i], ms[j] = ms[j], ms[i]
	}
	return s[:1] + strings.Join(ms, ",") + s[len(s)-1:]
}

func sameErr(a, b error) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	return a == nil || errKind(a) == errKind(b)
}

func errText(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

// mixed is the workload of properties about every string: expressions, and strings like them.
func mixed(r *Rng) string {
	switch r.N(8) {
	case 0, 1:
		return genJunk(r)
	case 2:
		return genOddMask(r)
	}
	return genAny(r)
}

// everyFeature is expressions of every feature for every year.
func everyFeature(name string, step int, p func(c *Ctx, s string)) []Task {
	return yearTasks(name, -9999, 9999, 100, func(c *Ctx, y int) {
		if (y+9999)%step != 0 && y != 0 && abs(y) != 9999 {
			return
		}
		s := ys(y)
		m, d := genMD(c.Rng, y)
		p(c, s)
		p(c, ym(y, m))
		p(c, ymd(y, m, d))
		p(c, ymd(y, m, d)+"T"+genTime(c.Rng)+genOffset(c.Rng))
		p(c, s+q1(c.Rng))
		p(c, s+"/"+genDate(c.Rng))
		p(c, s+"/..")
		p(c, "../"+s)
		p(c, s+"/")
		p(c, "/"+s)
		p(c, "Y"+s)
		p(c, fmt.Sprintf("%sS%d", s, c.In(1, 4)))
		p(c, fmt.Sprintf("%s-%d", s, c.In(21, 24)))
		p(c, "["+s+","+genDate(c.Rng)+"]")
		p(c, "{.."+s+"}")
		p(c, "{"+ym(y, m)+"..}")
		if y >= 0 {
			p(c, fmt.Sprintf("%s-%d", s, c.In(25, 41)))
			p(c, s[:3]+"X")
			p(c, s+"-XX")
			p(c, s+"-XX-XX")
			p(c, ym(y, m)+"-XX")
			p(c, s[:2]+"XX-"+fmt.Sprintf("%02d-XX", m))
			p(c, fmt.Sprintf("%s%s-%02d-%02d", s, q1(c.Rng), m, d))
			p(c, fmt.Sprintf("%s-%s%02d", s, q1(c.Rng), m))
			p(c, fmt.Sprintf("Winter, %s", s))
		}
	})
}

// hostile makes strings to hurt a parser: extreme numbers, long repetitions, odd bytes.
func hostile(r *Rng, maxLen int) string {
	n := 1 << uint(r.N(bits(maxLen)))
	n += r.N(n)
	d := strconv.Itoa(r.N(10))
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + r.N(10))
		}
		return string(b)
	}
	rep := func(s string) string { return strings.Repeat(s, n/len(s)+1) }
	switch r.N(28) {
	case 0:
		return rep(d)
	case 1:
		return "Y" + digits(n)
	case 2:
		return "Y-" + digits(n)
	case 3:
		return "Y1E" + digits(n)
	case 4:
		return "Y" + digits(n) + "E" + digits(r.N(12))
	case 5:
		return "1950S" + digits(n)
	case 6:
		return "Y" + digits(n) + "S" + digits(r.In(1, 3))
	case 7:
		return "Y" + strconv.Itoa(r.In(1, 99)) + "E" + strconv.Itoa(r.N(1<<31-1))
	case 8:
		return "Y-" + strconv.Itoa(r.In(1, 99)) + "E" + strconv.FormatUint(r.U64()>>uint(r.N(64)), 10) + "S" + strconv.Itoa(r.N(30))
	case 9:
		return "[" + rep(genDate(r)+",") + genDate(r) + "]"
	case 10:
		return "{" + rep(genDate(r) + "..")[2:] + "}"
	case 11:
		return "[" + rep("[")
	case 12:
		return rep("X")
	case 13:
		return rep(genAny(r) + "/")
	case 14:
		return genAny(r) + rep(" ")
	case 15:
		return rep("?")
	case 16:
		return rep(r.Pick("?2004-", "2004~-", "-", "-X", "1X", "..", "/", "../", ",", "[1,", "~", "%", "Spring, ", "2004-06-11T", "+", ":", "\x00", "\xff", "é", "\n", "Y", "E1", "S1", "T", "Z"))
	case 17:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return string(b)
	case 18:
		return genDate(r) + "T" + digits(n) + ":00:00"
	case 19:
		return genDate(r) + "T00:00:00+" + digits(n)
	case 20:
		return genDate(r) + "-" + digits(n)
	case 21:
		return "[" + rep("..") + "]"
	case 22:
		return rep("-") + genDate(r)
	case 23:
		return "Spring," + rep(" ") + "2004"
	case 24:
		b := make([]byte, r.N(40))
		for i := range b {
			b[i] = alphabet[r.N(len(alphabet))]
		}
		return string(b)
	case 25: // numbers around word sizes
		v := r.Pick("32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "1e5", "0x10", "1_0")
		f := r.Pick("Y%s", "Y-%s", "Y1E%s", "Y-1E%s", "1950S%s", "-1950S%s", "Y1950S%s", "Y1E2S%s", "%s", "-%s", "2004-%s", "2004-06-%s", "2004-06-11T%s:00:00", "2004-06-11T00:00:00+%s", "[%s]", "{..%s}", "2004/%s", "%s/2004", "%sX", "Spring, %s", "Y%sE%[1]s", "Y%sS%[1]s")
		return fmt.Sprintf(f, v)
	}
	return genJunk(r)
}

func bits(n int) int {
	b := 0
	for n > 1 {
		n >>= 1
		b++
	}
	return b
}

// answerAll asks the library everything there is to ask about a string.
func answerAll(c *Ctx, s string) bool {
	parser.IsValid(s)
	if _, _, err := parser.Matches(s); err != nil {
		_ = err.Error()
	}
	check := func(what string, d *edtf.EDTFDate, err error) {
		if (d == nil) == (err == nil) {
			c.Fail("struct", "%s returned result %v and error %v", what, d != nil, err)
			return
		}
		if err != nil {
			_ = err.Error()
			return
		}
		if _, ok := corners(d); !ok {
			c.Fail("struct", "%s: the result lacks a start, end, lower or upper", what)
			return
		}
		if d.EDTF != s {
			c.Fail("struct", "%s: the result's EDTF is %q", what, head(d.EDTF, 100))
		}
		d.Lower()
		d.Upper()
		_ = d.String()
		_ = d.Start.String()
		_ = d.End.String()
		if _, err := json.Marshal(d); err != nil {
			c.Fail("struct", "%s: the result does not encode: %v", what, err)
		}
	}
	d, err := parser.ParseString(s)
	check("parser.ParseString", d, err)
	if err == nil {
		c.Count("results")
	}
	for i := range levels {
		l := &levels[i]
		l.is(s)
		l.matches(s)
		d, err := l.parse(s)
		check(fmt.Sprintf("level%d.ParseString", i), d, err)
	}
	for i := range features {
		f := &features[i]
		f.is(s)
		d, err := f.parse(s)
		check(f.name, d, err)
	}
	ok, r, err := unix.DeriveRanges(s)
	if ok != (r != nil) || ok && err != nil {
		c.Fail("struct", "DeriveRanges returned %v, %v, %v", ok, r, err)
	}
	for _, o := range []string{"2004", s, "..", "/2004", "-0004/..", ""} {
		cmp.IsBefore(s, o)
		cmp.IsAfter(s, o)
		cmp.IsBefore(o, s)
		cmp.IsAfter(o, s)
		cmp.IsBetween(o, s, s)
		cmp.IsBetween(s, "1900", o)
	}
	edtf.IsOpen(s)
	edtf.IsUnknown(s)
	edtf.IsUnspecified(s)
	edtf.IsDeprecated(s)
	edtf.ReplaceDeprecated(s)
	if len(s) < 4096 {
		calendar.DaysInMonthWithString(s)
	}
	answerParts(c, s)
	return true
}

// answerParts: the functions of package common, given any text, return either a value or an error.
func answerParts(c *Ctx, s string) {
	one := func(what string, value bool, err error) {
		if value == (err != nil) {
			c.Fail("struct", "%s returned a value: %v, and error %v", what, value, err)
		}
		if err != nil {
			_ = err.Error()
		}
	}
	sp, err := common.DateSpanFromEDTF(s)
	one("DateSpanFromEDTF", sp != nil, err)
	if sp != nil {
		_ = sp.String()
	}
	r, err := common.StringRangeFromYMD(s)
	one("StringRangeFromYMD", r != nil, err)
	if r != nil {
		_ = r.String()
		for _, d := range []*common.StringDate{r.Start, r.End} {
			if d != nil {
				_ = d.String()
				x, err := common.YMDFromStringDate(d)
				one("YMDFromStringDate", x != nil, err)
			}
		}
	}
	y, err := common.YMDFromString(s)
	one("YMDFromString", y != nil, err)
	for _, a := range [][3]string{{s, "", ""}, {s, s, s}, {"1985", s, ""}, {"1985", "4", s}, {"1985", "", s}, {"", s, s}} {
		y, err := common.YMDFromStrings(a[0], a[1], a[2])
		one("YMDFromStrings", y != nil, err)
	}
	for _, a := range [][4]string{{s, "04", "12", edtf.HMS_LOWER}, {"1985", s, "12", edtf.HMS_LOWER}, {"1985", "04", s, edtf.HMS_LOWER}, {"1985", "04", "12", s}, {s, s, s, s}} {
		t, err := common.TimeWithYMDString(a[0], a[1], a[2], a[3])
		one("TimeWithYMDString", t != nil, err)
	}
	t, err := common.TimeWithYMD(&edtf.YMD{Year: 1985, Month: 4, Day: 12}, s)
	one("TimeWithYMD", t != nil, err)
	if _, err := common.ParseExponentialNotation(s); err != nil {
		_ = err.Error()
	}
}

// costBound is what a parse may allocate: observed use is below 2500 bytes per byte.
func costBound(n int) uint64 { return 1<<20 + 8000*uint64(n) }

func checkCost(c *Ctx, a []string) bool {
	s := a[0]
	var before, after runtime.MemStats
	type step struct {
		name string
		f    func()
	}
	steps := []step{
		{"IsValid", func() { parser.IsValid(s) }},
		{"Matches", func() { parser.Matches(s) }},
		{"ParseString", func() { parser.ParseString(s) }},
		{"DeriveRanges", func() { unix.DeriveRanges(s) }},
		{"IsBefore", func() { cmp.IsBefore(s, s) }},
	}
	for _, st := range steps {
		runtime.ReadMemStats(&before)
		t := time.Now()
		st.f()
		el := time.Since(t)
		runtime.ReadMemStats(&after)
		got := after.TotalAlloc - before.TotalAlloc
		if got > costBound(len(s)) {
			c.Fail("memory", "%s of %d bytes allocates %d bytes, more than %d", st.name, len(s), got, costBound(len(s)))
		}
		// microseconds are usual; a slow machine is far from the bound
		if lim := 20*time.Second + time.Duration(len(s))*20*time.Microsecond; el > lim {
			c.Fail("time", "%s of %d bytes takes %v", st.name, len(s), el)
		}
		if k := int64(got); k > c.counts["largest allocation"] {
			c.counts["largest allocation"] = k
		}
		if len(s) > 1000 {
			if k := int64(got) / int64(len(s)); k > c.counts["largest allocation per byte"] {
				c.counts["largest allocation per byte"] = k
			}
		}
	}
	return true
}

// checkCoherent: validity, matching and parsing, overall, by level and by feature.
func checkCoherent(c *Ctx, a []string) bool {
	s := a[0]
	v := parser.IsValid(s)
	l, f, merr := parser.Matches(s)
	d, perr := parser.ParseString(s)
	special := s == ".." || s == ""
	if (d == nil) == (perr == nil) {
		c.Fail("struct", "result %v and error %v", d, perr)
		return true
	}
	if perr == nil && !v {
		c.Fail("coherent", "it parses, but is not valid")
	}
	if !v && merr == nil {
		c.Fail("coherent", "it matches level %d %q, but is not valid", l, f)
	}
	if v && !special && merr != nil {
		c.Fail("coherent", "it is valid, but does not match: %v", merr)
	}
	if perr == nil && !special && merr == nil && (d.Level != l || d.Feature != f) {
		c.Fail("coherent", "matches level %d %q, but parses as level %d %q", l, f, d.Level, d.Feature)
	}
	if special {
		want := "Open"
		if s == "" {
			want = "Unknown"
		}
		if perr != nil || !v || d.Level != -1 || d.Feature != want {
			c.Fail("coherent", "is valid=%v, parses as %s (%v), should be level -1 %q", v, render(d), perr, want)
		}
	}
	lowest := -1
	for i := range levels {
		lv := &levels[i]
		is := lv.is(s)
		lf, err := lv.matches(s)
		if is != (err == nil) {
			c.Fail("level", "IsLevel%d is %v, but its matcher says %q, %v", lv.n, is, lf, err)
		}
		ld, lerr := lv.parse(s)
		if (ld == nil) == (lerr == nil) {
			c.Fail("struct", "level %d: result %v and error %v", lv.n, ld, lerr)
			continue
		}
		if !is && lerr == nil {
			c.Fail("level", "is not of level %d, but its parser accepts it", lv.n)
		}
		if is && lowest < 0 {
			lowest = lv.n
			if merr == nil && (l != lv.n || f != lf) {
				c.Fail("level", "the lowest level is %d, %q, but matches level %d %q", lv.n, lf, l, f)
			}
			if !sameErr(perr, lerr) || !reflect.DeepEqual(d, ld) {
				c.Fail("level", "parses as %s (%v), but level %d parses it as %s (%v)", render(d), perr, lv.n, render(ld), lerr)
			}
		}
	}
	if v != (lowest >= 0 || special) {
		c.Fail("level", "is valid=%v, but the lowest level which accepts it is %d", v, lowest)
	}
	seen := false
	for i := range features {
		ft := &features[i]
		is := ft.is(s)
		fd, ferr := ft.parse(s)
		if (fd == nil) == (ferr == nil) {
			c.Fail("struct", "%s: result %v and error %v", ft.name, fd, ferr)
			continue
		}
		if !is && ferr == nil {
			c.Fail("feature", "is no %q of level %d, but its parser accepts it", ft.name, ft.level)
		}
		if ferr == nil && (fd.Level != ft.level || !strings.HasPrefix(fd.Feature, ft.name)) {
			c.Fail("feature", "the parser of level %d %q says that it is of level %d %q", ft.level, ft.name, fd.Level, fd.Feature)
		}
		if is && !levels[ft.level].is(s) {
			c.Fail("feature", "is a %q, but not of level %d", ft.name, ft.level)
		}
		if merr == nil && l == ft.level && f == ft.name {
			seen = true
			if !is {
				c.Fail("feature", "matches %q, but its predicate says no", f)
			}
			if !sameErr(perr, ferr) || !reflect.DeepEqual(d, fd) {
				c.Fail("feature", "parses as %s (%v), but the parser of %q as %s (%v)", render(d), perr, f, render(fd), ferr)
			}
		}
	}
	if merr == nil && !seen {
		c.Fail("feature", "matches level %d %q, which is no feature", l, f)
	}
	if merr == nil {
		c.Count("feature " + f)
	}
	return true
}

// checkInternal: the parts of one result against each other.
func checkInternal(c *Ctx, a []string) bool {
	s := a[0]
	d, err := parser.ParseString(s)
	if err != nil {
		return false
	}
	cs, ok := corners(d)
	if !ok {
		c.Fail("struct", "the result lacks a start, end, lower or upper")
		return true
	}
	var t [4]*int64
	for i, x := range cs {
		n := cornerName[i]
		if (x.DateTime != "") != (x.Timestamp != nil) {
			c.Fail("internal", "%s has datetime %q and timestamp %v", n, x.DateTime, x.Timestamp)
		}
		if x.Open && x.Unknown {
			c.Fail("internal", "%s is both open and unknown", n)
		}
		if (x.Open || x.Unknown) && (x.Timestamp != nil || x.YMD != nil) {
			c.Fail("internal", "%s is open or unknown but has a time or a day", n)
		}
		if !x.Open && !x.Unknown && x.Timestamp == nil {
			c.Fail("internal", "%s has no time, but is neither open nor unknown", n)
		}
		if x.Timestamp == nil {
			continue
		}
		u := x.Timestamp.Unix()
		t[i] = &u
		if sec, ok := ref.ParseRFC3339(x.DateTime); !ok {
			c.Fail("internal", "%s has datetime %q, which is not RFC 3339 in UTC", n, x.DateTime)
		} else if sec != u {
			c.Fail("internal", "%s has datetime %q but timestamp %d, which is %s", n, x.DateTime, u, ref.RFC3339(u))
		}
		if tt := x.Timestamp.Time(); tt == nil || tt.Unix() != u || tt.Nanosecond() != 0 {
			c.Fail("internal", "%s: the timestamp's time is %v", n, tt)
		}
		if x.YMD != nil {
			y, m, dd := ref.CivilOf(floorDay(u))
			if x.YMD.Year != y || x.YMD.Month != m || x.YMD.Day != dd {
				c.Fail("internal", "%s has datetime %s but calendar day %s", n, x.DateTime, x.YMD)
			}
		}
	}
	le := func(i, j int) {
		if t[i] != nil && t[j] != nil && *t[i] > *t[j] {
			c.Fail("order", "%s is after %s: %s", cornerName[i], cornerName[j], render(d))
		}
	}
	le(0, 1)
	le(2, 3)
	if !strings.Contains(s, "/") {
		le(0, 3)
	}
	for i, f := range []func() (*time.Time, error){d.Lower, d.Upper} {
		k := []int{0, 3}[i]
		name := []string{"Lower", "Upper"}[i]
		tt, err := f()
		switch {
		case t[k] == nil:
			if !edtf.IsNotSet(err) || tt != nil {
				c.Fail("notset", "%s is %v, %v, should be the not set error", name, tt, err)
			}
		case err != nil || tt == nil:
			c.Fail("lowerupper", "%s is %v, %v", name, tt, err)
		case tt.Unix() != *t[k] || tt.Location() != time.UTC || tt.Nanosecond() != 0:
			c.Fail("lowerupper", "%s is %v, should be %s", name, tt, ref.RFC3339(*t[k]))
		}
	}
	if d.String() != s || d.EDTF != s {
		c.Fail("string", "string form is %q, EDTF %q", d.String(), d.EDTF)
	}
	for i, r := range []*edtf.DateRange{d.Start, d.End} {
		if r.EDTF == "" || strings.Contains(s, "/") {
			continue
		}
		if _, err := parser.ParseString(r.EDTF); err != nil {
			c.Fail("rangeedtf", "%s's EDTF is %q, which does not parse: %v", []string{"start", "end"}[i], r.EDTF, err)
		}
	}
	return true
}

// checkNotSet: C07's last clause.
func checkNotSet(c *Ctx, a []string) bool {
	d, b, ok := parseBounds(c, a[0])
	if !ok {
		return false
	}
	cs, _ := corners(d)
	for i, x := range cs {
		if x.Open && x.Unknown {
			c.Fail("open", "%s is both open and unknown", cornerName[i])
		}
		if (x.Open || x.Unknown) && (x.Timestamp != nil || x.DateTime != "" || x.YMD != nil) {
			c.Fail("open", "%s is open or unknown, but has a time or a day: %s", cornerName[i], render(d))
		}
		if !x.Open && !x.Unknown && x.Timestamp == nil {
			c.Fail("open", "%s has no time, but is neither open nor unknown", cornerName[i])
		}
	}
	if t, err := d.Lower(); b[0].kind != 't' && (!edtf.IsNotSet(err) || t != nil) || b[0].kind == 't' && (err != nil || t.Unix() != b[0].sec) {
		c.Fail("notset", "Lower is %v, %v: %s", t, err, render(d))
	}
	if t, err := d.Upper(); b[3].kind != 't' && (!edtf.IsNotSet(err) || t != nil) || b[3].kind == 't' && (err != nil || t.Unix() != b[3].sec) {
		c.Fail("notset", "Upper is %v, %v: %s", t, err, render(d))
	}
	return true
}

// ------------------------------------------------------------- comparisons

type cmpWant struct {
	val    bool
	err    ref.Tri
	needed bool
}

// wantCmp is what before or after should say about two strings' bounds.
func wantCmp(after bool, a, b string, da, db *edtf.EDTFDate, ba, bb [4]bound) cmpWant {
	if da == nil || db == nil {
		return cmpWant{false, ref.Yes, true}
	}
	x, y := ba[3], bb[0] // before: A's upper, B's lower
	if after {
		x, y = ba[0], bb[3]
	}
	if a == ".." {
		// neither before nor after anything with bounds
		if bb[0].kind == 't' && bb[3].kind == 't' {
			return cmpWant{false, ref.No, true}
		}
		return cmpWant{false, ref.Maybe, true}
	}
	if x.kind != 't' || y.kind != 't' {
		return cmpWant{false, ref.Yes, true}
	}
	if after {
		return cmpWant{x.sec > y.sec, ref.No, true}
	}
	return cmpWant{x.sec < y.sec, ref.No, true}
}

func (w cmpWant) check(c *Ctx, what string, got bool, err error) {
	if w.err == ref.Yes && err == nil {
		c.Fail("cmp", "%s says %v, but should be an error", what, got)
	}
	if w.err == ref.No && err != nil {
		c.Fail("cmp", "%s is an error: %v, should be %v", what, err, w.val)
		return
	}
	if got != w.val {
		c.Fail("cmp", "%s says %v (%v), should be %v", what, got, err, w.val)
	}
}

func quietParse(c *Ctx, s string) (*edtf.EDTFDate, [4]bound) {
	d, b, ok := parseBounds(c, s)
	if !ok {
		return nil, b
	}
	return d, b
}

func checkCmp(c *Ctx, a []string) bool {
	A, B := a[0], a[1]
	da, ba := quietParse(c, A)
	db, bb := quietParse(c, B)
	wb := wantCmp(false, A, B, da, db, ba, bb)
	wa := wantCmp(true, A, B, da, db, ba, bb)
	gb, eb := cmp.IsBefore(A, B)
	ga, ea := cmp.IsAfter(A, B)
	wb.check(c, "IsBefore(A, B)", gb, eb)
	wa.check(c, "IsAfter(A, B)", ga, ea)
	if da != nil && db != nil {
		g, e := da.Before(db)
		wb.check(c, "A.Before(B)", g, e)
		g, e = da.After(db)
		wa.check(c, "A.After(B)", g, e)
		if wb.err == ref.No && wb.val {
			c.Count("before")
		}
		if wa.err == ref.No && wa.val {
			c.Count("after")
		}
	}
	if wb.err == ref.Yes {
		c.Count("errors")
	}
	// the converse
	if A != ".." && B != ".." && da != nil && db != nil {
		rb, reb := cmp.IsAfter(B, A)
		if rb != gb || (reb == nil) != (eb == nil) {
			c.Fail("converse", "A before B is %v (%v), B after A is %v (%v)", gb, eb, rb, reb)
		}
		if ga && gb && ea == nil && eb == nil && inOrder(ba) && inOrder(bb) {
			c.Fail("both", "A is both before and after B")
		}
	}
	return true
}

func inOrder(b [4]bound) bool {
	return b[0].kind == 't' && b[3].kind == 't' && b[0].sec <= b[3].sec
}

func checkBetween(c *Ctx, a []string) bool {
	D, I, C := a[0], a[1], a[2]
	if I == ".." {
		return false
	}
	dd, bd := quietParse(c, D)
	di, bi := quietParse(c, I)
	dc, bc := quietParse(c, C)
	w1 := wantCmp(false, D, I, dd, di, bd, bi)
	w2 := cmpWant{false, ref.No, true}
	if C != ".." {
		w2 = wantCmp(true, D, C, dd, dc, bd, bc)
	}
	got, err := cmp.IsBetween(D, I, C)
	var w cmpWant
	switch {
	case w1.err == ref.Yes:
		w = cmpWant{false, ref.Yes, true}
	case w1.err == ref.No && w1.val: // before the inception, whatever the cessation is
		w = cmpWant{false, w2.err, true}
		if w2.err == ref.Yes {
			w.err = ref.Maybe
		}
	case w2.err == ref.Yes && w1.err == ref.No:
		w = cmpWant{false, ref.Yes, true}
	case w1.err == ref.Maybe || w2.err == ref.Maybe || w2.err == ref.Yes:
		return false
	case w2.val:
		w = cmpWant{false, ref.No, true}
	default:
		w = cmpWant{true, ref.No, true}
	}
	w.check(c, "IsBetween", got, err)
	if w.err == ref.No {
		c.Count(fmt.Sprintf("between %v", w.val))
	}
	return true
}

// checkTransitive: before is transitive on three expressions with bounds in order.
func checkTransitive(c *Ctx, a []string) bool {
	_, b, ok := parseBounds(c, a[1])
	if !ok || !inOrder(b) {
		return false
	}
	x, e1 := cmp.IsBefore(a[0], a[1])
	y, e2 := cmp.IsBefore(a[1], a[2])
	if e1 != nil || e2 != nil || !x || !y {
		return false
	}
	if z, e := cmp.IsBefore(a[0], a[2]); e != nil || !z {
		c.Fail("transitive", "A before B and B before C, but A before C is %v, %v", z, e)
	}
	return true
}

// ------------------------------------------------------------- unix

func checkUnix(c *Ctx, a []string) bool {
	s := a[0]
	ok, r, err := unix.DeriveRanges(s)
	d, perr := parser.ParseString(s)
	none := func(what string) {
		if ok || r != nil || err != nil {
			c.Fail("unix", "%s, but DeriveRanges says %v, %v, %v", what, ok, r, err)
		}
		c.Count("no range")
	}
	switch {
	case s == ".." || s == "" || s == "open" || s == "uuuu":
		none("it is open or unknown")
	case perr != nil:
		if err == nil || ok || r != nil {
			c.Fail("unix", "it does not parse, but DeriveRanges says %v, %v, %v", ok, r, err)
		}
		c.Count("error")
	default:
		b, cok := boundsOf(d)
		if !cok {
			c.Fail("struct", "incomplete result")
			return true
		}
		for _, x := range b {
			if x.kind != 't' {
				none("it has an open or unknown end")
				return true
			}
		}
		if err != nil || !ok || r == nil || r.Outer == nil || r.Inner == nil {
			c.Fail("unix", "it parses as %s, but DeriveRanges says %v, %v, %v", render(d), ok, r, err)
			return true
		}
		if r.Outer.Start != b[0].sec || r.Inner.Start != b[1].sec || r.Inner.End != b[2].sec || r.Outer.End != b[3].sec {
			c.Fail("unix", "outer %d..%d inner %d..%d, but the bounds are %d, %d, %d, %d", r.Outer.Start, r.Outer.End, r.Inner.Start, r.Inner.End,
				b[0].sec, b[1].sec, b[2].sec, b[3].sec)
		}
		c.Count("range")
	}
	return true
}

// ------------------------------------------------------------- JSON

// checkJSONOf is the round trip of one result, and the shape of its JSON.
func checkJSONOf(c *Ctx, d *edtf.EDTFDate) {
	b, err := json.Marshal(d)
	if err != nil {
		c.Fail("json", "does not encode: %v", err)
		return
	}
	var back edtf.EDTFDate
	if err := json.Unmarshal(b, &back); err != nil {
		c.Fail("json", "does not decode: %v: %s", err, b)
		return
	}
	if !reflect.DeepEqual(d, &back) {
		c.Fail("json", "decoded result differs from the encoded one: %s against %s: %s", render(d), render(&back), b)
	}
	b2, err := json.Marshal(&back)
	if err != nil || string(b) != string(b2) {
		c.Fail("json", "encoded again: %s, before: %s", b2, b)
	}
	if ind, err := json.MarshalIndent(d, " ", "  "); err == nil {
		var back edtf.EDTFDate
		if err := json.Unmarshal(ind, &back); err != nil || !reflect.DeepEqual(d, &back) {
			c.Fail("json", "indented JSON decodes to %s, %v", render(&back), err)
		}
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	var m map[string]interface{}
	if err := dec.Decode(&m); err != nil {
		c.Fail("json", "is no JSON object: %v", err)
		return
	}
	keys := func(m map[string]interface{}, where string, must, may string) {
		for _, k := range strings.Fields(must) {
			if _, ok := m[k]; !ok {
				c.Fail("shape", "%s lacks %q: %s", where, k, b)
			}
		}
		for k := range m {
			if !strings.Contains(" "+must+" "+may+" ", " "+k+" ") {
				c.Fail("shape", "%s has %q: %s", where, k, b)
			}
		}
	}
	keys(m, "result", "start end edtf level feature", "")
	if m["edtf"] != d.EDTF || m["feature"] != d.Feature || fmt.Sprint(m["level"]) != strconv.Itoa(d.Level) {
		c.Fail("shape", "edtf, feature or level are not those of the result: %s", b)
	}
	for name, r := range map[string]*edtf.DateRange{"start": d.Start, "end": d.End} {
		rm, ok := m[name].(map[string]interface{})
		if !ok {
			c.Fail("shape", "%s is %T", name, m[name])
			continue
		}
		keys(rm, name, "edtf lower upper", "")
		if rm["edtf"] != r.EDTF {
			c.Fail("shape", "%s.edtf is %v", name, rm["edtf"])
		}
		for side, x := range map[string]*edtf.Date{"lower": r.Lower, "upper": r.Upper} {
			dm, ok := rm[side].(map[string]interface{})
			where := name + "." + side
			if !ok {
				c.Fail("shape", "%s is %T", where, rm[side])
				continue
			}
			keys(dm, where, "ymd", "datetime timestamp uncertain approximate unspecified precision open unknown inclusivity")
			ts, has := dm["timestamp"]
			if has != (x.Timestamp != nil) {
				c.Fail("shape", "%s: timestamp %v in JSON, %v in the result", where, ts, x.Timestamp)
			} else if has {
				if n, ok := ts.(json.Number); !ok || n.String() != strconv.FormatInt(x.Timestamp.Unix(), 10) {
					c.Fail("shape", "%s: timestamp is %T %v, should be the number %d", where, ts, ts, x.Timestamp.Unix())
				}
			}
			dt, has := dm["datetime"]
			if has != (x.DateTime != "") || has && dt != x.DateTime {
				c.Fail("shape", "%s: datetime %v in JSON, %q in the result", where, dt, x.DateTime)
			}
			if x.YMD == nil {
				if v, ok := dm["ymd"]; !ok || v != nil {
					c.Fail("shape", "%s: ymd is %v, should be null", where, v)
				}
			} else if ym, ok := dm["ymd"].(map[string]interface{}); !ok {
				c.Fail("shape", "%s: ymd is %T", where, dm["ymd"])
			} else {
				keys(ym, where+".ymd", "year month day", "")
				if fmt.Sprintf("%v %v %v", ym["year"], ym["month"], ym["day"]) != fmt.Sprintf("%d %d %d", x.YMD.Year, x.YMD.Month, x.YMD.Day) {
					c.Fail("shape", "%s: ymd is %v", where, ym)
				}
			}
			num := func(k string, p edtf.Precision) {
				v, has := dm[k]
				if has != (p != 0) || has && fmt.Sprint(v) != strconv.FormatUint(uint64(p), 10) {
					c.Fail("shape", "%s: %s is %v, should be %d", where, k, v, p)
				}
			}
			num("uncertain", x.Uncertain)
			num("approximate", x.Approximate)
			num("unspecified", x.Unspecified)
			num("precision", x.Precision)
			num("inclusivity", x.Inclusivity)
			boo := func(k string, p bool) {
				v, has := dm[k]
				if has != p || has && v != true {
					c.Fail("shape", "%s: %s is %v, should be %v", where, k, v, p)
				}
			}
			boo("open", x.Open)
			boo("unknown", x.Unknown)
		}
	}
	// timestamps as strings decode too
	if _, ok := corners(d); ok {
		str := string(b)
		for _, x := range []*edtf.Date{d.Start.Lower, d.Start.Upper, d.End.Lower, d.End.Upper} {
			if x.Timestamp != nil {
				n := strconv.FormatInt(x.Timestamp.Unix(), 10)
				str = strings.Replace(str, `"timestamp":`+n+`,`, `"timestamp":"`+n+`",`, 1)
			}
		}
		if str != string(b) {
			var back edtf.EDTFDate
			if err := json.Unmarshal([]byte(str), &back); err != nil || !reflect.DeepEqual(d, &back) {
				c.Fail("json", "with timestamps as strings it decodes to %s, %v", render(&back), err)
			}
		}
	}
}

func checkJSON(c *Ctx, a []string) bool {
	d, err := parser.ParseString(a[0])
	if err != nil || d == nil {
		return false
	}
	if _, ok := corners(d); !ok {
		c.Fail("struct", "incomplete result")
		return true
	}
	checkJSONOf(c, d)
	return true
}

// genMade makes a result by hand, with any field set.
func genMade(r *Rng) *edtf.EDTFDate {
	date := func() *edtf.Date {
		x := &edtf.Date{}
		p := func() edtf.Precision {
			if r.P(1, 2) {
				return 0
			}
			return edtf.Precision(uint32(r.U64()) >> uint(r.N(32)))
		}
		switch r.N(4) {
		case 0:
			x.Open = true
		case 1:
			x.Unknown = true
		default:
			t := time.Unix(anInstant(r), 0)
			x.SetTime(&t)
			if r.P(3, 4) {
				y, m, d := ref.CivilOf(floorDay(t.Unix()))
				x.YMD = &edtf.YMD{Year: y, Month: m, Day: d}
			}
		}
		x.Uncertain, x.Approximate, x.Unspecified, x.Precision, x.Inclusivity = p(), p(), p(), p(), p()
		return x
	}
	f := features[r.N(len(features))]
	return &edtf.EDTFDate{
		Start: &edtf.DateRange{EDTF: genAny(r), Lower: date(), Upper: date()},
		End:   &edtf.DateRange{EDTF: genAny(r), Lower: date(), Upper: date()},
		EDTF:  genAny(r), Level: f.level, Feature: f.name,
	}
}

func anInstant(r *Rng) int64 {
	switch r.N(6) {
	case 0:
		return int64(r.In(-3, 3))
	case 1:
		return int64(r.In(-200000, 200000))
	case 2: // around a year's end
		y := genYear(r)
		return ref.Unix(y, 1, 1, 0, 0, 0) + int64(r.In(-2, 2))
	}
	return ref.Unix(-9999, 1, 1, 0, 0, 0) + int64(r.U64()%uint64(ref.Unix(9999, 12, 31, 23, 59, 59)-ref.Unix(-9999, 1, 1, 0, 0, 0)+1))
}

func checkTimestampJSON(c *Ctx, a []string) bool {
	n, err := strconv.ParseInt(a[0], 10, 64)
	if err != nil {
		return false
	}
	for _, text := range []string{a[0], `"` + a[0] + `"`} {
		var ts edtf.Timestamp
		if err := json.Unmarshal([]byte(text), &ts); err != nil {
			c.Fail("decode", "%s does not decode: %v", text, err)
			continue
		}
		if ts.Unix() != n {
			c.Fail("decode", "%s decodes to %d", text, ts.Unix())
		}
		if t := ts.Time(); t.Unix() != n || t.Location() != time.UTC {
			c.Fail("time", "%d is the time %v", n, t)
		}
		b, err := json.Marshal(ts)
		if err != nil || string(b) != a[0] {
			c.Fail("encode", "%d encodes to %s, %v", n, b, err)
		}
		b, err = json.Marshal(&ts)
		if err != nil || string(b) != a[0] {
			c.Fail("encode", "%d encodes to %s, %v", n, b, err)
		}
		// in a date, over what was there before
		x := edtf.Date{}
		t := time.Unix(12345, 0)
		x.SetTime(&t)
		if err := json.Unmarshal([]byte(`{"timestamp":`+text+`,"ymd":null}`), &x); err != nil || x.Timestamp == nil || x.Timestamp.Unix() != n {
			c.Fail("decode", "in a date, %s decodes to %v, %v", text, x.Timestamp, err)
		}
	}
	return true
}

func checkBadTimestamp(c *Ctx, a []string) bool {
	if !json.Valid([]byte(a[0])) {
		return false
	}
	var ts edtf.Timestamp
	if err := json.Unmarshal([]byte(a[0]), &ts); err == nil {
		c.Fail("decode", "%s decodes to %d", a[0], ts.Unix())
	}
	var d edtf.EDTFDate
	if err := json.Unmarshal([]byte(`{"start":{"edtf":"","lower":{"timestamp":`+a[0]+`,"ymd":null},"upper":null},"end":null,"edtf":"","level":0,"feature":""}`), &d); err == nil {
		c.Fail("decode", "a result with the timestamp %s decodes", a[0])
	}
	return true
}

func anyInt64(r *Rng) int64 {
	switch r.N(5) {
	case 0:
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 1 << 31, -(1 << 31), 1<<32 + 1}[r.N(13)]
	case 1:
		return anInstant(r)
	}
	v := int64(r.U64() >> uint(r.N(64)))
	if r.P(1, 2) {
		v = -v
	}
	return v
}

// ------------------------------------------------------------- errors

var errPredicates = []struct {
	kind string
	is   func(error) bool
	make func(label, s string) error
}{
	{"notset", edtf.IsNotSet, func(l, s string) error { return edtf.NotSet() }},
	{"notimplemented", edtf.IsNotImplemented, edtf.NotImplemented},
	{"invalid", edtf.IsInvalid, edtf.Invalid},
	{"unsupported", edtf.IsUnsupported, edtf.Unsupported},
	{"unrecognized", edtf.IsUnrecognized, edtf.Unrecognized},
}

func checkErrTable(c *Ctx, a []string) bool {
	for _, p := range errPredicates {
		e := p.make(a[0], a[1])
		if e == nil {
			c.Fail("errors", "the %s error is nil", p.kind)
			continue
		}
		if e.Error() == "" {
			c.Fail("errors", "the %s error has no message", p.kind)
		}
		if p.kind != "notset" && !namesAll(e.Error(), a[1]) {
			c.Fail("errors", "the %s error does not name the string: %s", p.kind, head(e.Error(), 1000))
		}
		for _, q := range errPredicates {
			if q.is(e) != (q.kind == p.kind) {
				c.Fail("errors", "the predicate for %s says %v of the %s error", q.kind, q.is(e), p.kind)
			}
		}
	}
	for _, q := range errPredicates {
		for _, e := range []error{nil, errors.New(a[0]), fmt.Errorf("%s %s", a[0], a[1]), io.EOF, &strconv.NumError{Func: a[0], Num: a[1], Err: strconv.ErrRange}, errors.New("Unrecognized EDTF string 'x' (y)"), errors.New("Invalid EDTF string 'x' (y)"), errors.New("This property has not (or can not) been set"), errors.New("Not implemented 'x' (y)"), errors.New("Unsupported EDTF string 'x' (y)")} {
			if q.is(e) {
				c.Fail("errors", "the predicate for %s is true of %v", q.kind, e)
			}
		}
	}
	return true
}

// plainText is a string which no way of quoting changes.
func plainText(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e || s[i] == '\\' || s[i] == '"' || s[i] == '\'' {
			return false
		}
	}
	return true
}

// checkErrors is every error the library gives about one string.
func checkErrors(c *Ctx, a []string) bool {
	s := a[0]
	decided := checkParse(c, s, aErrKind)
	one := func(what string, err error) string {
		if err == nil {
			return "none"
		}
		n := 0
		for _, p := range errPredicates {
			if p.is(err) {
				n++
			}
		}
		if n > 1 {
			c.Fail("errors", "%s: the error is of %d kinds: %v", what, n, err)
		}
		if err.Error() == "" {
			c.Fail("errors", "%s: the error has no message", what)
		}
		k := errKind(err)
		c.counts["kind "+k]++
		return k
	}
	names := func(what string, err error) {
		if m := err.Error(); !namesAll(m, s) {
			c.Fail("errors", "%s: the error does not name the string: %s", what, head(m, 1000))
		}
	}
	d, perr := parser.ParseString(s)
	pk := one("parse", perr)
	_, _, merr := parser.Matches(s)
	mk := one("match", merr)
	if !parser.IsValid(s) {
		decided = true
		if pk != "unrecognized" {
			c.Fail("errors", "it is not valid, but parsing is the error %v, of the kind %s", perr, pk)
		} else {
			names("parse", perr)
		}
		if mk != "unrecognized" {
			c.Fail("errors", "it is not valid, but matching is the error %v, of the kind %s", merr, mk)
		} else {
			names("match", merr)
		}
	} else if pk == "unrecognized" {
		c.Fail("errors", "it is valid, but parsing it is 'unrecognized': %v", perr)
	}
	if perr != nil && pk != "unrecognized" {
		// the string, or a part of it, or a number it spells
		if !namesPart(perr.Error(), s) && (pk == "invalid" || pk == "notimplemented") && ref.Classify(s).Parse != ref.Maybe {
			c.Fail("errors", "the error names no part of the string: %v", perr)
		}
	}
	for i := range features {
		f := &features[i]
		if f.is(s) {
			continue
		}
		decided = true
		_, err := f.parse(s)
		if k := one(f.name, err); k != "invalid" {
			c.Fail("errors", "it is no %q, but its parser's error is %v, of the kind %s", f.name, err, k)
		} else {
			names(f.name, err)
		}
	}
	if perr == nil {
		if b, ok := boundsOf(d); ok {
			if t, err := d.Lower(); b[0].kind != 't' && one("Lower", err) != "notset" {
				c.Fail("errors", "Lower is %v, %v", t, err)
			}
			if t, err := d.Upper(); b[3].kind != 't' && one("Upper", err) != "notset" {
				c.Fail("errors", "Upper is %v, %v", t, err)
			}
		}
	}
	return decided
}

// namesAll: the message holds the string, or the string as it is written in quotes.
func namesAll(msg, s string) bool {
	if strings.Contains(msg, s) {
		return true
	}
	js, _ := json.Marshal(s)
	for _, q := range []string{strconv.Quote(s), strconv.QuoteToASCII(s), strconv.QuoteToGraphic(s), string(js)} {
		if strings.Contains(msg, q[1:len(q)-1]) {
			return true
		}
	}
	return false
}

// namesPart: the message holds the string or two adjacent characters of it within quotes or not.
func namesPart(msg, s string) bool {
	if !plainText(s) || len(s) < 2 {
		return true
	}
	if strings.Contains(msg, s) {
		return true
	}
	for i := 0; i+2 <= len(s); i++ {
		if strings.Contains(msg, s[i:i+2]) {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------- precision, predicates, deprecated, YMD

var precisions = []struct {
	name string
	p    edtf.Precision
	v    uint32
}{{"NONE", edtf.NONE, 0}, {"ALL", edtf.ALL, 2}, {"ANY", edtf.ANY, 4}, {"DAY", edtf.DAY, 8}, {"WEEK", edtf.WEEK, 16}, {"MONTH", edtf.MONTH, 32}, {"YEAR", edtf.YEAR, 64}, {"DECADE", edtf.DECADE, 128}, {"CENTURY", edtf.CENTURY, 256}, {"MILLENIUM", edtf.MILLENIUM, 512}}

func checkPrecision(c *Ctx, a []string) bool {
	n, err := strconv.ParseUint(a[0], 10, 32)
	if err != nil {
		return false
	}
	base := edtf.Precision(n)
	for _, x := range precisions {
		if uint32(x.p) != x.v {
			c.Fail("precision", "%s is %d, should be %d", x.name, x.p, x.v)
		}
		f := base
		if f.HasFlag(x.p) != (uint32(n)&x.v != 0) {
			c.Fail("precision", "%d has flag %s: %v", n, x.name, f.HasFlag(x.p))
		}
		ops := []struct {
			name string
			op   func(*edtf.Precision, edtf.Precision)
			want uint32
		}{
			{"AddFlag", (*edtf.Precision).AddFlag, uint32(n) | x.v},
			{"ClearFlag", (*edtf.Precision).ClearFlag, uint32(n) &^ x.v},
			{"ToggleFlag", (*edtf.Precision).ToggleFlag, uint32(n) ^ x.v},
		}
		for _, o := range ops {
			f := base
			o.op(&f, x.p)
			if uint32(f) != o.want {
				c.Fail("precision", "%d %s %s is %d, should be %d", n, o.name, x.name, f, o.want)
			}
			o.op(&f, x.p) // twice
			w := o.want
			if o.name == "ToggleFlag" {
				w = uint32(n)
			}
			if uint32(f) != w {
				c.Fail("precision", "%d twice %s %s is %d, should be %d", n, o.name, x.name, f, w)
			}
		}
		if f != base {
			c.Fail("precision", "testing %d changes it to %d", n, f)
		}
	}
	f := base
	if f.IsAnnual() != (n&64 != 0) || f.IsMonthly() != (n&32 != 0) || f.IsDaily() != (n&8 != 0) || f != base {
		c.Fail("precision", "%d is annual %v monthly %v daily %v", n, f.IsAnnual(), f.IsMonthly(), f.IsDaily())
	}
	return true
}

func checkPredicates(c *Ctx, a []string) bool {
	s := a[0]
	want := func(name string, got, w bool) {
		if got != w {
			c.Fail("predicate", "%s says %v", name, got)
		}
	}
	want("IsOpen", edtf.IsOpen(s), s == ".." || s == "open")
	want("IsUnspecified", edtf.IsUnspecified(s), s == "" || s == "uuuu")
	want("IsUnknown", edtf.IsUnknown(s), s == "" || s == "uuuu")
	want("IsDeprecated", edtf.IsDeprecated(s), s == "open" || s == "uuuu")
	r, err := edtf.ReplaceDeprecated(s)
	switch s {
	case "open":
		if r != ".." || err != nil {
			c.Fail("predicate", "is replaced by %q, %v", r, err)
		}
	case "uuuu":
		if r != "" || err != nil {
			c.Fail("predicate", "is replaced by %q, %v", r, err)
		}
	default:
		if err == nil {
			c.Fail("predicate", "is replaced by %q", r)
		} else if r != "" {
			c.Fail("predicate", "is an error, and replaced by %q", r)
		}
	}
	return true
}

func checkYMD(c *Ctx, a []string) bool {
	var v [6]int
	for i := range v {
		n, err := strconv.Atoi(a[i])
		if err != nil {
			return false
		}
		v[i] = n
	}
	x := &edtf.YMD{Year: v[0], Month: v[1], Day: v[2]}
	y := &edtf.YMD{Year: v[3], Month: v[4], Day: v[5]}
	w := *x == *y
	if x.Equals(y) != w || y.Equals(x) != w {
		c.Fail("ymd", "%v equals %v: %v, and the other way %v", x, y, x.Equals(y), y.Equals(x))
	}
	if !x.Equals(x) {
		c.Fail("ymd", "%v does not equal itself", x)
	}
	return true
}

// ------------------------------------------------------------- months

func checkDaysInMonth(c *Ctx, a []string) bool {
	y, e1 := strconv.Atoi(a[0])
	m, e2 := strconv.Atoi(a[1])
	if e1 != nil || e2 != nil {
		return false
	}
	for k := 0; k < 2; k++ {
		n, err := calendar.DaysInMonth(y, m)
		if m < 1 || m > 12 {
			if err == nil {
				c.Fail("days", "month %d of %d has %d days, should be an error", m, y, n)
			}
		} else if err != nil || n != ref.Dim(abs(y), m) {
			c.Fail("days", "%d-%d has %d days (%v), should be %d", y, m, n, err, ref.Dim(abs(y), m))
		}
	}
	return true
}

// checkDaysWide: a year beyond four digits is refused or answered rightly.
func checkDaysWide(c *Ctx, a []string) bool {
	y, e1 := strconv.Atoi(a[0])
	m, e2 := strconv.Atoi(a[1])
	if e1 != nil || e2 != nil || y > -10000 && y < 10000 {
		return false
	}
	n, err := calendar.DaysInMonth(y, m)
	checkWideMonth(c, a[0], a[1], n, err)
	return true
}

func checkWideMonth(c *Ctx, year, month string, n int, err error) {
	y, _ := strconv.Atoi(year)
	m, _ := strconv.Atoi(month)
	if err != nil {
		c.Count("years beyond: refused")
		return
	}
	c.Count("years beyond: answered")
	if m < 1 || m > 12 {
		c.Fail("days", "month %s of %s has %d days, should be an error", month, year, n)
	} else if w := ref.Dim(abs(y%400)+400, m); n != w {
		c.Fail("days", "%s-%s has %d days, should be %d or an error", year, month, n, w)
	}
}

func checkDaysInMonthString(c *Ctx, a []string) bool {
	for k := 0; k < 2; k++ {
		n, err := calendar.DaysInMonthWithString(a[0])
		if len(a) == 4 { // a year beyond the four digits
			checkWideMonth(c, a[1], a[2], n, err)
			continue
		}
		if len(a) == 3 { // year and month, as numbers
			y, _ := strconv.Atoi(a[1])
			m, _ := strconv.Atoi(a[2])
			if m < 1 || m > 12 {
				if err == nil {
					c.Fail("days", "has %d days, should be an error", n)
				}
			} else if w := ref.Dim(abs(y), m); err != nil || n != w {
				c.Fail("days", "has %d days (%v), should be %d", n, err, w)
			}
			continue
		}
		if err == nil {
			c.Fail("days", "is no year and month, but has %d days", n)
		}
	}
	return true
}

// ------------------------------------------------------------- timestamps and SetTime

// checkTime: args: unix seconds, nanoseconds, zone offset in seconds.
func checkTime(c *Ctx, a []string) bool {
	sec, e1 := strconv.ParseInt(a[0], 10, 64)
	ns, e2 := strconv.ParseInt(a[1], 10, 64)
	off, e3 := strconv.Atoi(a[2])
	if e1 != nil || e2 != nil || e3 != nil {
		return false
	}
	loc := time.FixedZone("zone", off)
	t := time.Unix(sec, ns).In(loc)
	keep := t
	ts := edtf.NewTimestampWithTime(&t)
	if ts == nil || ts.Unix() != sec {
		c.Fail("timestamp", "the timestamp of %v is %v, should be %d", t, ts, sec)
		return true
	}
	back := ts.Time()
	if back == nil || back.Unix() != sec || back.Nanosecond() != 0 || back.Location() != time.UTC {
		c.Fail("timestamp", "the timestamp of %v gives the time %v", t, back)
	} else {
		*back = time.Unix(7, 7)
		if ts.Unix() != sec || ts.Time().Unix() != sec {
			c.Fail("timestamp", "changing the time a timestamp gave changes the timestamp")
		}
	}
	for k := 0; k < 10; k++ {
		d := &edtf.Date{Uncertain: 3, Approximate: 5, Unspecified: 9, Precision: 17, Inclusivity: 33, Open: k%3 == 0, Unknown: k%3 == 1, YMD: &edtf.YMD{Year: 1, Month: 2, Day: 3}}
		ymd := d.YMD
		want := *d
		// what was there before
		same := time.Unix(sec, 0)
		switch k {
		case 1:
			o := time.Unix(-sec/3+77, 0)
			d.SetTime(&o)
		case 2: // the timestamp is the same, the text is not
			d.DateTime, d.Timestamp = "2003-01-01T00:00:00Z", edtf.NewTimestampWithTime(&same)
		case 3:
			d.Timestamp = edtf.NewTimestampWithTime(&same)
		case 4: // the text is the same, the timestamp is not
			o := time.Unix(sec^1, 0)
			d.DateTime, d.Timestamp = keep.UTC().Format(time.RFC3339), edtf.NewTimestampWithTime(&o)
		case 5:
			d.DateTime = keep.UTC().Format(time.RFC3339)
		case 6:
			d.SetTime(&t)
		case 7: // the text of another zone
			d.DateTime, d.Timestamp = keep.Format(time.RFC3339), edtf.NewTimestampWithTime(&same)
		case 8: // another second of the minute, another minute of the day
			o := time.Unix(sec-sec%86400+43, 0)
			d.SetTime(&o)
		case 9:
			d.DateTime = "not a date"
		}
		before, held := *d, d.Timestamp
		var heldSec int64
		if held != nil {
			heldSec = held.Unix()
		}
		d.SetTime(&t)
		if held != nil && held.Unix() != heldSec || before.Timestamp != held {
			c.Fail("settime", "SetTime changes a timestamp which was taken from the date before, from %d to %d", heldSec, held.Unix())
		}
		if t != keep {
			c.Fail("settime", "SetTime changes the time it is given from %v to %v", keep, t)
		}
		if d.Timestamp == nil || d.Timestamp.Unix() != sec {
			c.Fail("settime", "timestamp is %v, should be %d", d.Timestamp, sec)
			return true
		}
		if y := keep.UTC().Year(); y >= -9999 && y <= 9999 {
			if d.DateTime != ref.RFC3339(sec) {
				c.Fail("settime", "datetime is %q, should be %q", d.DateTime, ref.RFC3339(sec))
			}
		}
		if d.YMD != ymd || *ymd != (edtf.YMD{Year: 1, Month: 2, Day: 3}) || d.Uncertain != want.Uncertain || d.Approximate != want.Approximate || d.Unspecified != want.Unspecified ||
			d.Precision != want.Precision || d.Inclusivity != want.Inclusivity || d.Open != want.Open || d.Unknown != want.Unknown {
			c.Fail("settime", "SetTime changes another field: %+v, before %+v", *d, want)
		}
		// the date keeps the instant, whatever becomes of the variable
		t = time.Unix(5, 5)
		if d.Timestamp.Unix() != sec {
			c.Fail("settime", "the date follows changes of the time it was given")
		}
		t = keep
	}
	return true
}

// ------------------------------------------------------------- containment, tiling, notations

func outer(b [4]bound) (lo, hi bound) { return b[0], b[3] }

func checkWithin(c *Ctx, a []string) bool {
	_, x, ok1 := parseBounds(c, a[0])
	_, y, ok2 := parseBounds(c, a[1])
	if !ok1 || !ok2 {
		return false
	}
	xl, xu := outer(x)
	yl, yu := outer(y)
	if xl.kind != 't' || xu.kind != 't' {
		return false
	}
	dec := false
	if yl.kind == 't' {
		dec = true
		if xl.sec < yl.sec {
			c.Fail("within", "begins %v, before %q, at %v", xl, a[1], yl)
		}
	}
	if yu.kind == 't' {
		dec = true
		if xu.sec > yu.sec {
			c.Fail("within", "ends %v, after %q, at %v", xu, a[1], yu)
		}
	}
	return dec
}

func checkTile(c *Ctx, a []string) bool {
	_, x, ok1 := parseBounds(c, a[0])
	_, y, ok2 := parseBounds(c, a[1])
	if !ok1 || !ok2 {
		c.Fail("tile", "one of them does not parse")
		return true
	}
	if x[3].kind != 't' || y[0].kind != 't' || y[0].sec != x[3].sec+1 {
		c.Fail("tile", "the first ends %v, the second begins %v", x[3], y[0])
	}
	return true
}

func checkSame(c *Ctx, a []string) bool {
	_, x, ok1 := parseBounds(c, a[0])
	_, y, ok2 := parseBounds(c, a[1])
	if !ok1 && !ok2 {
		return false
	}
	if ok1 != ok2 {
		c.Fail("same", "one of them does not parse")
		return true
	}
	if x[0] != y[0] || x[3] != y[3] {
		c.Fail("same", "the first is %v..%v, the second %v..%v", x[0], x[3], y[0], y[3])
	}
	return true
}

// generalise masks a date: year digits from the right, month, day.
func generalise(r *Rng, y, m, d int) string {
	s := ys(y)
	if y >= 0 {
		if k := r.N(4); k > 0 {
			s = s[:4-k] + strings.Repeat("X", k)
		}
	}
	digits := func(n int) string {
		t := fmt.Sprintf("%02d", n)
		switch r.N(4) {
		case 0:
			return "XX"
		case 1:
			return t[:1] + "X"
		}
		return t
	}
	if m > 0 && r.P(4, 5) {
		s += "-" + digits(m)
		if d > 0 && r.P(4, 5) {
			s += "-" + digits(d)
		}
	}
	return s
}

func qualify(r *Rng, s string) string {
	if s[0] == '-' || r.P(1, 2) {
		return s + q1(r)
	}
	p := strings.Split(s, "-")
	i := r.N(len(p))
	if r.P(1, 2) {
		p[i] = q1(r) + p[i]
	} else {
		p[i] += q1(r)
	}
	return strings.Join(p, "-")
}
