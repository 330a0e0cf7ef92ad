package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/common"

	"verif/harness/ref"
)

// ------------------------------------------------------------- C25: the parts package common offers

func sameYMD(x *edtf.YMD, y, m, d int) bool {
	return x != nil && x.Year == y && x.Month == m && x.Day == d
}

func numbers(a []string) (n []int, ok bool) {
	for _, s := range a {
		i, err := strconv.Atoi(s)
		if err != nil {
			return nil, false
		}
		n = append(n, i)
	}
	return n, true
}

// checkPartsDay: year, month and day, which may not exist, and a time of day.
func checkPartsDay(c *Ctx, a []string) bool {
	n, ok := numbers(a[:6])
	if !ok {
		return false
	}
	y, m, d, hh, mm, ss := n[0], n[1], n[2], n[3], n[4], n[5]
	exists := y >= -9999 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= ref.Dim(abs(y), m)
	sy, sm, sd := ys(y), fmt.Sprintf("%02d", m), fmt.Sprintf("%02d", d)
	s := sy + "-" + sm + "-" + sd
	for _, x := range []*common.StringDate{{Year: sy, Day: sd}, {Month: sm, Day: sd}} {
		if d == 0 {
			break
		}
		if got, err := common.YMDFromStringDate(x); err == nil || got != nil {
			c.Fail("ymd", "the day %s of no month, or of no year, is %v (%v)", sd, got, err)
		}
	}
	hms := fmt.Sprintf("%02d:%02d:%02d", hh, mm, ss)
	clock := hh < 24 && mm < 60 && ss < 60

	// month 00 and day 00 stand for what is not given
	if m != 0 && d != 0 {
		for _, f := range []struct {
			name string
			call func() (*edtf.YMD, error)
		}{
			{"YMDFromString", func() (*edtf.YMD, error) { return common.YMDFromString(s) }},
			{"YMDFromStrings", func() (*edtf.YMD, error) { return common.YMDFromStrings(sy, sm, sd) }},
			{"YMDFromStringDate", func() (*edtf.YMD, error) {
				return common.YMDFromStringDate(&common.StringDate{Year: sy, Month: sm, Day: sd})
			}},
		} {
			x, err := f.call()
			c.Count("days from text")
			switch {
			case (x == nil) == (err == nil):
				c.Fail("ymd", "%s(%s) returned %v and error %v", f.name, s, x, err)
			case exists && !sameYMD(x, y, m, d):
				c.Fail("ymd", "%s(%s) is %v (%v)", f.name, s, x, err)
			case !exists && err == nil:
				c.Fail("ymd", "%s(%s) is %v, but there is no such day", f.name, s, x)
			}
		}
	}

	day := &edtf.YMD{Year: y, Month: m, Day: d}
	t, err := common.TimeWithYMD(day, hms)
	c.Count("times of days")
	if *day != (edtf.YMD{Year: y, Month: m, Day: d}) {
		c.Fail("time", "TimeWithYMD changed its day to %v", day)
	}
	var t2 *time.Time
	var err2 error
	if m != 0 && d != 0 {
		t2, err2 = common.TimeWithYMDString(sy, sm, sd, hms)
		if (err == nil) != (err2 == nil) || err == nil && t != nil && t2 != nil && !t.Equal(*t2) {
			c.Fail("time", "TimeWithYMD of %sT%s is %v (%v), but TimeWithYMDString %v (%v)", s, hms, t, err, t2, err2)
		}
	}
	switch {
	case (t == nil) == (err == nil):
		c.Fail("time", "TimeWithYMD of %sT%s returned %v and error %v", s, hms, t, err)
	case exists && clock:
		w := ref.Unix(y, m, d, hh, mm, ss)
		if err != nil {
			c.Fail("time", "TimeWithYMD of %sT%s fails: %v", s, hms, err)
		} else if t.Unix() != w || t.Nanosecond() != 0 {
			c.Fail("time", "TimeWithYMD of %sT%s is %s", s, hms, ref.RFC3339(t.Unix()))
		} else if _, off := t.Zone(); off != 0 {
			c.Fail("time", "TimeWithYMD of %sT%s is in the zone %v", s, hms, t.Location())
		}
	case err == nil:
		c.Fail("time", "TimeWithYMD of %sT%s is %v, but there is no such time", s, hms, t)
	}

	if exists && clock {
		from := time.Unix(ref.Unix(y, m, d, hh, mm, ss), 123456789).UTC()
		to := common.TimeToBCE(from)
		c.Count("times moved over the era")
		if w := ref.Unix(-y, m, d, hh, mm, ss); to.Unix() != w || to.Nanosecond() != 123456789 {
			c.Fail("bce", "TimeToBCE(%s) is %s, should be %s", ref.RFC3339(from.Unix()), ref.RFC3339(to.Unix()), ref.RFC3339(w))
		}
	}
	return true
}

// checkPartsMonth: a year and a month, whose day is the last.
func checkPartsMonth(c *Ctx, a []string) bool {
	n, ok := numbers(a)
	if !ok {
		return false
	}
	y, m := n[0], n[1]
	sm := fmt.Sprintf("%02d", m)
	exists := m >= 1 && m <= 12 && abs(y) <= 9999
	for _, s := range []string{ym(y, m), ""} {
		var x *edtf.YMD
		var err error
		if s != "" {
			x, err = common.YMDFromString(s)
		} else {
			x, err = common.YMDFromStrings(ys(y), sm, "")
		}
		switch {
		case (x == nil) == (err == nil):
			c.Fail("ymd", "the year and month %s: %v and error %v", ym(y, m), x, err)
		case exists && !sameYMD(x, y, m, ref.Dim(abs(y), m)):
			c.Fail("ymd", "the year and month %s is the day %v (%v)", ym(y, m), x, err)
		case !exists && m != 0 && err == nil:
			c.Fail("ymd", "the year and month %s is the day %v, but there is no such month", ym(y, m), x)
		}
	}
	return true
}

// checkPartsNot: text which is no date.
func checkPartsNot(c *Ctx, a []string) bool {
	if x, err := common.YMDFromString(a[0]); err == nil || x != nil {
		c.Fail("ymd", "YMDFromString(%q) is %v (%v), but it is no date", a[0], x, err)
	}
	return true
}

// checkPartsYear: any number.
func checkPartsYear(c *Ctx, a []string) bool {
	n, ok := numbers(a)
	if !ok {
		return false
	}
	y := n[0]
	if f := common.FlipYear(y); f != -y {
		c.Fail("flip", "FlipYear(%d) is %d", y, f)
	}
	return true
}

// partsOf are the families whose strings DateSpanFromEDTF understands itself.
var partsOf = map[ref.Family]bool{ref.FDate: true, ref.FInterval: true, ref.FQual: true, ref.FUnspec: true, ref.FExt: true, ref.FInterval2: true}

// checkPartsSpan: the span of a date or an interval, and the text of its bounds.
func checkPartsSpan(c *Ctx, a []string) bool {
	s := a[0]
	e := ref.Classify(s)
	if !partsOf[e.Family] || e.Parse == ref.Maybe {
		return false
	}
	sp, err := common.DateSpanFromEDTF(s)
	if (sp == nil) == (err == nil) {
		c.Fail("span", "DateSpanFromEDTF(%q) returned %v and error %v", s, sp, err)
		return true
	}
	c.Count("spans of the family " + string(e.Family))
	if e.Parse == ref.No {
		if err == nil {
			c.Fail("span", "DateSpanFromEDTF(%q) is %v, but it should not parse", s, sp)
		}
	} else if err != nil {
		c.Fail("span", "DateSpanFromEDTF(%q) fails: %v", s, err)
	} else {
		if t := sp.String(); t == "" {
			c.Fail("span", "the span of %q is written as nothing", s)
		}
		d := &edtf.EDTFDate{Start: sp.Start, End: sp.End, EDTF: s}
		cs, ok := corners(d)
		if !ok {
			c.Fail("span", "the span of %q lacks a date", s)
			return true
		}
		checkCorners(c, d, cs, &e, aOuter|aInner|aYMD|aOpen|aFlags|aPrec)
	}
	if e.IsInterval || e.Family == ref.FExt || strings.Contains(s, "/") {
		return true
	}
	r, err := common.StringRangeFromYMD(s)
	if (r == nil) == (err == nil) {
		c.Fail("range", "StringRangeFromYMD(%q) returned %v and error %v", s, r, err)
		return true
	}
	if e.Parse == ref.No {
		return true // a day which does not exist has text none the less
	}
	if err != nil || r.Start == nil || r.End == nil {
		c.Fail("range", "StringRangeFromYMD(%q) is %v (%v)", s, r, err)
		return true
	}
	c.Count("ranges of text")
	for i, x := range []*common.StringDate{r.Start, r.End} {
		p := e.C[i*3]
		if p.Kind != ref.KTime {
			continue
		}
		y, m, d := ref.CivilOf(floorDay(p.Sec))
		n, ok := numbers([]string{x.Year, x.Month, x.Day})
		if !ok || n[0] != y || n[1] != m || n[2] != d {
			c.Fail("range", "the range of %q has %v, should be %d-%d-%d", s, x, y, m, d)
		}
		if p.Flags && (int(r.Uncertain) != p.U || int(r.Approximate) != p.A) {
			c.Fail("range", "the range of %q is uncertain %d and approximate %d, should be %d and %d", s, r.Uncertain, r.Approximate, p.U, p.A)
		}
	}
	if r.EDTF != s {
		c.Fail("range", "the range of %q has the text %q", s, r.EDTF)
	}
	return true
}

// checkPartsExp: exponential notation without its letter.
func checkPartsExp(c *Ctx, a []string) bool {
	e := ref.Classify("Y" + a[0])
	if e.Family != ref.FExp || e.Parse == ref.Maybe {
		return false
	}
	y, err := common.ParseExponentialNotation(a[0])
	if e.Parse == ref.No {
		if err == nil {
			c.Fail("exponent", "ParseExponentialNotation(%q) is %d, but it is out of range", a[0], y)
		}
		return true
	}
	w, _, _ := ref.CivilOf(floorDay(e.C[0].Sec))
	if err != nil || y != w {
		c.Fail("exponent", "ParseExponentialNotation(%q) is %d (%v), should be %d", a[0], y, err, w)
	}
	return true
}

// checkPartsEquals: two dates of text.
func checkPartsEquals(c *Ctx, a []string) bool {
	x := &common.StringDate{Year: a[0], Month: a[1], Day: a[2]}
	y := &common.StringDate{Year: a[3], Month: a[4], Day: a[5]}
	same := *x == *y
	n, okx := numbers(a[:3])
	m, oky := numbers(a[3:])
	if !same && okx && oky && n[0] == m[0] && n[1] == m[1] && n[2] == m[2] {
		return false // 1 and 01
	}
	if x.Equals(y) != same || y.Equals(x) != same {
		c.Fail("equals", "%v and %v: equal is %v and %v", x, y, x.Equals(y), y.Equals(x))
	}
	return true
}

// checkPartsNew: the dates, ranges and spans which stand for nothing, the open
// and the unknown.
func checkPartsNew(c *Ctx, a []string) bool {
	one := func(name string, d *edtf.Date, open, unknown bool) {
		if d == nil {
			c.Fail("new", "%s lacks a date", name)
			return
		}
		if *d != (edtf.Date{Open: open, Unknown: unknown}) {
			c.Fail("new", "%s has the date %+v", name, *d)
		}
		// what one caller does with it is not seen by the next
		*d = edtf.Date{DateTime: "changed", Open: !open, Unknown: !unknown}
	}
	rng := func(name string, r *edtf.DateRange, open, unknown bool) {
		if r == nil || r.Lower == r.Upper && r.Lower != nil {
			c.Fail("new", "%s is %v", name, r)
			return
		}
		if r.EDTF != "" {
			c.Fail("new", "%s has the text %q", name, r.EDTF)
		}
		one(name, r.Lower, open, unknown)
		one(name, r.Upper, open, unknown)
		r.EDTF, r.Lower, r.Upper = "changed", nil, nil
	}
	span := func(name string, s *edtf.DateSpan, open, unknown bool) {
		if s == nil {
			c.Fail("new", "%s is nil", name)
			return
		}
		rng(name, s.Start, open, unknown)
		rng(name, s.End, open, unknown)
		s.Start, s.End = nil, nil
	}
	for k := 0; k < 3; k++ {
		rng("EmptyDateRange", common.EmptyDateRange(), false, false)
		rng("UnknownDateRange", common.UnknownDateRange(), false, true)
		rng("OpenDateRange", common.OpenDateRange(), true, false)
		span("EmptyDateSpan", common.EmptyDateSpan(), false, false)
		span("UnknownDateSpan", common.UnknownDateSpan(), false, true)
		span("OpenDateSpan", common.OpenDateSpan(), true, false)
	}
	return true
}

func init() {
	f := strconv.Itoa
	day := func(c *Ctx, y, m, d int) {
		h, mi, s := 0, 0, 0
		switch c.Rng.N(4) {
		case 0:
			h, mi, s = 23, 59, 59
		case 1, 2:
			h, mi, s = c.In(0, 23), c.In(0, 59), c.In(0, 59)
		}
		c.Case("day", f(y), f(m), f(d), f(h), f(mi), f(s))
	}
	register(&Prop{ID: "C25", Exhaust: true, Assume: []string{assumeGo},
		Rule: "package common by itself: every day of every year -9999..9999 and days which do not exist, with times of day; every month; numbers of any size; spans and text of dates, masks, qualified dates and intervals; exponential notation; text which is no date; decided when the answer was compared with the reference calendar or model",
		Kinds: map[string]Handler{"day": checkPartsDay, "month": checkPartsMonth, "not": checkPartsNot, "year": checkPartsYear, "span": checkPartsSpan,
			"exponent": checkPartsExp, "equals": checkPartsEquals, "new": checkPartsNew},
		Plan: func(tier string) []Task {
			return concat(
				yearTasks("every year", -9999, 9999, 200, func(c *Ctx, y int) {
					for m := 1; m <= 12; m++ {
						last := ref.Dim(abs(y), m)
						for d := 1; d <= 31; d++ {
							if tier == "thorough" || d == 1 || d >= last || (y*12+m+d)%5 == 0 {
								day(c, y, m, d)
							}
						}
						c.Case("month", f(y), f(m))
					}
					day(c, y, c.In(13, 99), c.In(1, 31))
					day(c, y, c.In(1, 12), c.In(32, 99))
					day(c, y, c.In(13, 99999), c.In(1, 31))
					day(c, y, c.In(1, 12), c.In(32, 99999))
					k := []int{100, 128, 256, 512, 1000, 1 << 15, 1 << 16, 1<<31 - 100, wide(1 << 32)}[c.Rng.N(9)]
					day(c, y, k+c.In(1, 12), c.In(1, 28))
					day(c, y, c.In(1, 12), k+c.In(1, 28))
					day(c, y, 0, 1)
					day(c, y, 1, 0)
					c.Case("month", f(y), f(c.In(13, 99)))
					c.Case("year", f(y))
					c.Case("span", ys(y))
					c.Case("span", ym(y, c.In(1, 12)))
					c.Case("span", ymd(y, 2, c.In(27, 30)))
					c.Case("exponent", f(y)+"E0")
					if y%10 == 0 {
						c.Case("exponent", f(y/10)+"E1")
					}
				}),
				[]Task{{"beyond", func(c *Ctx) {
					for _, y := range []int{10000, -10000, 10001, 99999, -99999, 12345, 1<<15 + 2004, 1<<16 + 2004, -1<<16 - 2004, 1<<16 - 2004, 100000 + 2004, wide(1<<32 + 2004), wide(-1<<32 - 2004), math.MaxInt32, -math.MaxInt32} {
						for m := 0; m <= 13; m++ {
							day(c, y, m, 1)
							c.Case("month", f(y), f(m))
						}
					}
					for _, y := range []int{2004, 2003, -4, -1, 0, 1, 1900, 9999, -9999} {
						for _, t := range [][3]int{{24, 0, 0}, {23, 60, 0}, {23, 59, 60}, {99, 99, 99}, {0, 0, 99}} {
							c.Case("day", f(y), "2", "28", f(t[0]), f(t[1]), f(t[2]))
						}
					}
					for k := 0; k < 62; k++ {
						for _, d := range []int{-1, 0, 1} {
							y := wide(1<<k + int64(d))
							c.Case("year", f(y))
							c.Case("year", f(-y))
						}
					}
					c.Case("new")
				}}, {"no dates", func(c *Ctx) {
					for _, s := range []string{"", "-", "--", "---", "----", "-----", "x", "2004-x", "2004-02-x", "x-02-03", "2004-02-03-04", "2004-02-03-04-05", "-2004-02-03-04", "--2004-02-03", "2004-13", "2004-13-01", "2004-02-30", "2003-02-29", "-2003-02-29", "-2004-13", "2004-04-31", "2004/05", "2004-0X", "2004-02-3X", "20X4", "..", "2004-02-03T00:00:00", "2004-02-03Z", " 2004", "2004 ", "2004-02-03 ", "2004- 02-03", "2004-Feb-03", "10000-01-01", "-10000-01-01", "99999999999999999999-01-01", "2004-99999999999999999999-01", "2004-02-99999999999999999999", "1E3-01-01", "0x7d4-01-01", "2004,02,03", "20O4-02-03", "２００４-02-03"} {
						c.Case("not", s)
					}
				}}},
				randTasks("spans", scale(tier, 60000, 20), func(c *Ctx) {
					r := c.Rng
					c.Case("span", c.Pick(genDate(r), genMask(r), genMask(r), genQualified(r), genGroup(r), genIndividual(r), genInterval0(r), genInterval2(r), genExt(r)))
				}),
				randTasks("exponents", scale(tier, 20000, 20), func(c *Ctx) {
					c.Case("exponent", strings.TrimPrefix(genExp(c.Rng), "Y"))
				}),
				randTasks("equal", scale(tier, 20000, 20), func(c *Ctx) {
					p := func() string { return c.Pick("", "1", "01", "2", "12", "2004", "-2004", "-1", "XX", "0X") }
					a := []string{p(), p(), p()}
					b := append([]string{}, a...)
					if c.Rng.N(4) > 0 {
						b[c.Rng.N(3)] = p()
					}
					c.Case("equals", append(a, b...)...)
				}),
				randTasks("no date, confusable", scale(tier, 20000, 20), func(c *Ctx) {
					r := c.Rng
					s := ymd(genYear(r), r.In(1, 12), r.In(1, 28))
					if x := confused(r, s); x != s {
						c.Case("not", x)
					}
				}),
				randTasks("no date", scale(tier, 20000, 20), func(c *Ctx) {
					r := c.Rng
					s := ymd(genYear(r), r.In(1, 12), r.In(1, 28))
					i := r.N(len(s) + 1)
					x := r.Pick("x", "X", "~", "?", ".", "/", ":", " ", "é", "\x00", ",", "T")
					c.Case("not", s[:i]+x+s[i:])
				}))
		}})
}
