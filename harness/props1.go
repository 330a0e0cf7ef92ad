package main

import (
	"fmt"
	"strings"

	"verif/harness/ref"
)

// ------------------------------------------------------------- workload helpers

// yearTasks splits lo..hi into n tasks.
func yearTasks(name string, lo, hi, n int, f func(c *Ctx, y int)) []Task {
	var ts []Task
	size := (hi - lo + n) / n
	for a := lo; a <= hi; a += size {
		b := a + size - 1
		if b > hi {
			b = hi
		}
		a := a
		ts = append(ts, Task{Name: name, Run: func(c *Ctx) {
			for y := a; y <= b; y++ {
				f(c, y)
			}
		}})
	}
	return ts
}

// dayTasks runs f on every day of the years 1500..2100 and on every fourth
// (thorough: every) other one of -9999..9999.
func dayTasks(tier string, f func(c *Ctx, y, m, d int)) []Task {
	return yearTasks("days", -9999, 9999, 200, func(c *Ctx, y int) {
		k := c.N(4)
		for m := 1; m <= 12; m++ {
			for d := 1; d <= ref.Dim(abs(y), m); d++ {
				if k++; tier == "thorough" || y >= 1500 && y <= 2100 || k%4 == 0 {
					f(c, y, m, d)
				}
			}
		}
	})
}

// laterDay is a day up to about 400 days after another.
func laterDay(r *Rng, y, m, d int) (int, int, int) {
	n := r.N(3)
	switch r.N(4) {
	case 0:
		n = r.N(40)
	case 1:
		n = r.N(400)
	}
	y2, m2, d2 := ref.CivilOf(ref.DayNumber(y, m, d) + int64(n))
	if y2 > 9999 {
		return y, m, d
	}
	return y2, m2, d2
}

// randTasks runs f n times in all, spread over chunks.
func randTasks(name string, n int, f func(c *Ctx)) []Task {
	chunk := n / 64
	if chunk < 20 {
		chunk = 20
	}
	if chunk > 4000 {
		chunk = 4000
	}
	var ts []Task
	for n > 0 {
		k := chunk
		if n < k {
			k = n
		}
		n -= k
		ts = append(ts, Task{Name: name, Run: func(c *Ctx) {
			for i := 0; i < k; i++ {
				f(c)
			}
		}})
	}
	return ts
}

func scale(tier string, quick, factor int) int {
	if tier == "thorough" {
		return quick * factor
	}
	return quick
}

func parseKind(aspects int) map[string]Handler {
	return map[string]Handler{"parse": func(c *Ctx, a []string) bool { return checkParse(c, a[0], aspects) }}
}

func withLong(k map[string]Handler) map[string]Handler {
	k["long"] = long(k["parse"])
	return k
}

// invalidDays are the well-formed days which do not exist in a year.
func invalidDays(y int, f func(s string)) {
	for m := 1; m <= 12; m++ {
		for d := ref.Dim(y, m) + 1; d <= 31; d++ {
			f(ymd(y, m, d))
		}
	}
}

func concat(ts ...[]Task) (out []Task) {
	for _, t := range ts {
		out = append(out, t...)
	}
	return
}

var assumeGo = "the Go 1.27 toolchain and standard library of the sandbox; the reference model in harness/ref, which is checked against package time for all 7.3 million days by its own test"

func init() {
	// ---------------------------------------------------------------- C03
	register(&Prop{ID: "C03", Assume: []string{assumeGo},
		Rule:  "strings: every feature's expressions (all years for fixed-width forms, random otherwise), the complete neighbourhood of one edit of a corpus of expressions over all 256 byte values, two characters of the alphabet anywhere in it (thorough: at any two places), its parts left out, doubled and exchanged, all strings of up to 4 (thorough: 5) characters over the EDTF alphabet, all two-character codes after a year, characters exchanged for others which look like them or which a change of case or width makes of them, and random mutations; a case is decided when the model gives a definite verdict (valid at level and feature, or not EDTF)",
		Kinds: withLong(parseKind(aValid | aMatch)),
		Plan: func(tier string) []Task {
			p := func(c *Ctx, s string) { c.Case("parse", s) }
			ts := concat(
				confuseTasks(tier, p),
				yearTasks("all years", -9999, 9999, 40, func(c *Ctx, y int) {
					s := ys(y)
					p(c, s)
					m, d := genMD(c.Rng, y)
					p(c, ym(y, m))
					p(c, ymd(y, m, d))
					for _, q := range []string{"?", "~", "%"} {
						p(c, s+q)
					}
					p(c, s+"/..")
					p(c, "../"+s)
					p(c, s+"/")
					p(c, "/"+s)
					p(c, "Y"+s)
					p(c, fmt.Sprintf("%sS%d", s, 1+abs(y)%4))
					p(c, fmt.Sprintf("%s-%d", s, 21+abs(y)%4))
					p(c, fmt.Sprintf("%s-%02d", s, abs(y)%100))
					p(c, fmt.Sprintf("%s-%02d-%02d", s, abs(y)%12+1, abs(y/7)%100))
					if y >= 0 {
						p(c, s[:3]+"X")
						p(c, s[:2]+"XX")
						p(c, s+"-XX")
						p(c, s+"-XX-XX")
						p(c, fmt.Sprintf("%s-%02d-XX", s, m))
						p(c, fmt.Sprintf("%s-%d", s, 25+y%17))
					}
				}),
				[]Task{{"two-character codes", func(c *Ctx) {
					for _, y := range []string{"2004", "-2004", "201X", "0000", "2004-02", "2004-12", "?2004", "2004~-06", "20XX-1X"} {
						for a := 0; a < 256; a++ {
							for b := 0; b < 256; b++ {
								if a > 32 && a < 127 && b > 32 && b < 127 || (a+b)%5 == 0 {
									p(c, y+"-"+string([]byte{byte(a), byte(b)}))
								}
							}
						}
					}
				}}, {"three-digit codes and short numbers", func(c *Ctx) {
					for n := 0; n < 1000; n++ {
						for _, f := range []string{"%d", "%03d", "2004-%d", "2004-%03d", "2004-06-%d", "2004-06-%03d", "20041-%02d", "%d-06", "%03d-06-06", "Y%d", "Y2E%d", "1950S%d", "[%d]", "2004/%d", "%d/2004", "-%d", "+%04d", "2004-06-11T%d:00:00", "Spring, %d"} {
							p(c, fmt.Sprintf(f, n))
						}
					}
				}}, {"times", func(c *Ctx) {
					for n := 0; n < 100; n++ {
						for _, f := range []string{"%02d:00:00", "00:%02d:00", "00:00:%02d", "00:00:00+%02d", "00:00:00-%02d", "00:00:00+%02d:00", "00:00:00-01:%02d", "00:00:00Z%02d", "%d:00:00", "00:00:00+%d", "00:00:00+01%02d", "00:00:00.%02d", "00:%02d", "%02d", "00:00:00+%02d:", "00:00:00 +%02d"} {
							p(c, "2004-02-29T"+fmt.Sprintf(f, n))
							p(c, "-2004-02-29T"+fmt.Sprintf(f, n))
							p(c, "2004-02T"+fmt.Sprintf(f, n))
							p(c, "2004T"+fmt.Sprintf(f, n))
						}
					}
				}}},
				longTasks(tier),
				shortStrings(tier, p),
				editTasks(tier, p),
				randTasks("expressions", scale(tier, 150000, 20), func(c *Ctx) { p(c, genAny(c.Rng)) }),
				randTasks("mutations", scale(tier, 500000, 20), func(c *Ctx) { p(c, genJunk(c.Rng)) }),
			)
			return ts
		}})

	// ---------------------------------------------------------------- C04
	register(&Prop{ID: "C04", Exhaust: true, Assume: []string{assumeGo},
		Rule:  "every year -9999..9999, every month of each, every day of each month (7.3 million) and every day up to 31 which a month lacks; each distinct date string is one case, decided when parsed bounds, calendar days and datetime strings of all four dates, or the error, were compared with the reference calendar",
		Kinds: parseKind(aParse | aOuter | aInner | aYMD | aOpen | aLevel),
		Plan: func(tier string) []Task {
			return concat(
				[]Task{{"minus zero", func(c *Ctx) {
					c.Case("parse", "-0000")
					c.Case("parse", "-0000-02-29")
				}}},
				yearTasks("all days", -9999, 9999, 400, func(c *Ctx, y int) {
					c.Case("parse", ys(y))
					for m := 1; m <= 12; m++ {
						c.Case("parse", ym(y, m))
						for d := 1; d <= 31; d++ {
							c.Case("parse", ymd(y, m, d))
						}
					}
				}))
		}})

	// ---------------------------------------------------------------- C05
	register(&Prop{ID: "C05", Assume: []string{assumeGo},
		Rule:  "all offsets of -23:59..+23:59 (and hours only) at instants next to day, month, year, leap-day and era boundaries, all 86400 seconds of days, every year's first and last second in several offset forms, every day of 1500..2100 and every fourth (thorough: every) other one at a time of it, invalid hours, minutes, seconds and days, and random date-times; decided when the four instants or the error were compared with the reference calendar",
		Kinds: parseKind(aParse | aOuter | aInner | aOpen | aLevel),
		Plan: func(tier string) []Task {
			p := func(c *Ctx, s string) { c.Case("parse", s) }
			var ts []Task
			days := []string{"1985-04-12", "2000-02-29", "2001-03-01", "0000-01-01", "-0001-12-31", "-0004-02-29", "-0100-03-01", "9999-12-30", "-9998-01-02", "1969-12-31", "1970-01-01", "0001-01-01", "-0001-01-01", "2004-12-31"}
			for _, d := range days {
				d := d
				ts = append(ts, Task{"all offsets", func(c *Ctx) {
					for _, t := range []string{"00:00:00", "23:59:59", "12:34:56"} {
						p(c, d+"T"+t)
						p(c, d+"T"+t+"Z")
						for _, sg := range []string{"+", "-"} {
							for h := 0; h < 24; h++ {
								p(c, fmt.Sprintf("%sT%s%s%02d", d, t, sg, h))
								for m := 0; m < 60; m++ {
									p(c, fmt.Sprintf("%sT%s%s%02d:%02d", d, t, sg, h, m))
								}
							}
						}
					}
				}}, Task{"bad times", func(c *Ctx) {
					for h := 0; h < 100; h++ {
						for _, z := range []string{"", "Z", "+01", "-02:30"} {
							p(c, fmt.Sprintf("%sT%02d:00:00%s", d, h, z))
							p(c, fmt.Sprintf("%sT00:%02d:00%s", d, h, z))
							p(c, fmt.Sprintf("%sT00:00:%02d%s", d, h, z))
							p(c, fmt.Sprintf("%sT23:59:%02d%s", d, h, z))
						}
					}
				}})
			}
			for i, d := range days {
				if tier != "thorough" && i > 3 {
					break
				}
				d := d
				for h := 0; h < 24; h++ {
					h := h
					ts = append(ts, Task{"all seconds", func(c *Ctx) {
						for s := 0; s < 3600; s++ {
							p(c, fmt.Sprintf("%sT%02d:%02d:%02d%s", d, h, s/60, s%60, c.Pick("", "Z", "+00", "-05:30", "+13:45")))
						}
					}})
				}
			}
			ts = append(ts, yearTasks("year boundaries", -9999, 9999, 60, func(c *Ctx, y int) {
				for _, z := range []string{"", "Z", "+01", "-01", "+05:30", "-11:15", "+14:00"} {
					p(c, ymd(y, 1, 1)+"T00:00:00"+z)
					p(c, ymd(y, 12, 31)+"T23:59:59"+z)
					p(c, ymd(y, 2, 28)+"T23:30:00"+z)
					p(c, ymd(y, 2, 29)+"T00:30:00"+z)
					p(c, ymd(y, 3, 1)+"T00:30:00"+z)
				}
				for _, z := range ownOffsets() {
					p(c, ymd(y, 1+abs(y)%12, 1)+"T00:05:00"+z)
					p(c, ymd(y, 1+abs(y)%12, 28)+"T23:55:00"+z)
				}
				invalidDays(y, func(s string) { p(c, s+"T10:20:30") })
			})...)
			ts = append(ts, dayTasks(tier, func(c *Ctx, y, m, d int) { p(c, ymd(y, m, d)+"T"+genTime(c.Rng)+genOffset(c.Rng)) })...)
			ts = append(ts, randTasks("random", scale(tier, 600000, 20), func(c *Ctx) {
				s := genDateTime(c.Rng)
				if c.P(1, 20) {
					s = genNoDay(c.Rng) + "T" + genTime(c.Rng) + genOffset(c.Rng)
				}
				p(c, s)
			})...)
			return ts
		}})

	// ---------------------------------------------------------------- C06
	register(&Prop{ID: "C06", Assume: []string{assumeGo},
		Rule: "pairs of endpoints (all pairs of a pool of about 190 endpoint forms, plus random pairs of plain, masked, negative and qualified dates, and an interval from every day of 1500..2100 and every fourth (thorough: every) other one); each pair is compared with the reference model and with its own endpoints parsed alone; decided when bounds, days, flags and EDTF strings of both sides, or the error, were compared",
		Kinds: map[string]Handler{
			"parse": func(c *Ctx, a []string) bool {
				return checkParse(c, a[0], aParse|aOuter|aInner|aYMD|aOpen|aFlags|aPrec|aRangeEDTF|aLevel)
			},
			"sides": checkSides,
		},
		Plan: func(tier string) []Task {
			var pool []string
			for _, y := range []string{"0000", "0001", "-0001", "1900", "1970", "2004", "-0004", "-0100", "9999", "-9999", "0980"} {
				pool = append(pool, y, y+"-02", y+"-12", y+"-01-01", y+"-02-28", y+"-12-31", y+"-03-31", "?"+y, y+"-~02", y+"-%02-?28")
			}
			pool = append(pool, "2004-02-29", "1969-12-31", "-0004-02-29", "2004-02-30", "2001-02-29", "1900-02-29", "201X", "20XX", "1XXX", "2004-XX", "2004-06-XX", "2004-XX-XX",
				"156X-12-25", "15XX-12-XX", "1984-1X", "1984-0X", "2004-06-2X", "2004-06-3X", "2001-02-2X", "2001-02-3X", "~201X", "?2004-XX", "2004-~06-XX", "%2004-?06-~2X", "196X-02-29", "190X-02-29", "X999", "XXXX",
				"2004-0X-31", "2004-1X-31", "2004-02-XX", "1900-02-XX", "000X", "00XX", "0XXX", "2004-XX-31", "?2004-~06-%11", "~2004-~06-~11", "2004-06-~01", "2004-06-~20")
			var ts []Task
			for i := range pool {
				i := i
				ts = append(ts, Task{"all pairs", func(c *Ctx) {
					for j := range pool {
						c.Case("parse", pool[i]+"/"+pool[j])
						c.Case("sides", pool[i], pool[j])
					}
				}})
			}
			return concat(ts,
				yearTasks("all years", -9999, 9999, 40, func(c *Ctx, y int) {
					z := genYear(c.Rng)
					for _, s := range [][2]string{{ys(y), ys(z)}, {ym(y, 2), genDateY(c.Rng, z)}, {genDateY(c.Rng, z), ym(y, 2)}, {ymd(y, 12, 31), ymd(clampYear(y+1), 1, 1)}, {ym(y, 11), ys(y)}} {
						c.Case("parse", s[0]+"/"+s[1])
						c.Case("sides", s[0], s[1])
					}
				}),
				dayTasks(tier, func(c *Ctx, y, m, d int) {
					y2, m2, d2 := laterDay(c.Rng, y, m, d)
					a, b := ymd(y, m, d), ymd(y2, m2, d2)
					switch c.N(8) {
					case 0:
						b = ym(y2, m2)
					case 1:
						a = ym(y, m)
					case 2:
						a = c.Pick("?", "~", "%") + a
					case 3:
						b = c.Pick("?", "~", "%") + b
					}
					c.Case("parse", a+"/"+b)
				}),
				randTasks("random level 0", scale(tier, 200000, 20), func(c *Ctx) {
					s := genInterval0(c.Rng)
					if c.P(1, 25) {
						s = genNoDay(c.Rng) + "/" + genDate(c.Rng)
					} else if c.P(1, 25) {
						s = genDate(c.Rng) + "/" + genNoDay(c.Rng)
					}
					c.Case("parse", s)
				}),
				randTasks("random level 2", scale(tier, 300000, 20), func(c *Ctx) { c.Case("parse", genInterval2(c.Rng)) }),
				randTasks("sides", scale(tier, 100000, 20), func(c *Ctx) { c.Case("sides", genSide(c.Rng), genSide(c.Rng)) }))
		}})

	// ---------------------------------------------------------------- C08
	register(&Prop{ID: "C08", Exhaust: true, Assume: []string{assumeGo},
		Rule:  "every year -9999..9999 with the season codes 21-24, every year 0..9999 with every grouping 25-41 and with every season word in four spellings; decided when the bounds and calendar days were compared with the model's months (year 9999's winters, which reach beyond Go's years, are undecided)",
		Kinds: parseKind(aParse | aOuter | aInner | aYMD | aOpen | aLevel),
		Plan: func(tier string) []Task {
			return concat(yearTasks("codes", -9999, 9999, 100, func(c *Ctx, y int) {
				hi := 24
				if y >= 0 {
					hi = 41
				}
				for k := 21; k <= hi; k++ {
					c.Case("parse", fmt.Sprintf("%s-%d", ys(y), k))
				}
			}), []Task{{"spellings", func(c *Ctx) {
				// every letter in both cases
				for _, w := range []string{"spring", "summer", "fall", "winter"} {
					for m := 0; m < 1<<uint(len(w)); m++ {
						b := []byte(w)
						for i := range b {
							if m>>uint(i)&1 == 1 {
								b[i] -= 32
							}
						}
						for _, y := range []int{0, 4, 999, 1900, 2002, 9998} {
							c.Case("parse", fmt.Sprintf("%s, %04d", b, y))
							c.Case("parse", fmt.Sprintf("%s,%04d", b, y))
						}
					}
				}
			}}}, yearTasks("words", 0, 9999, 100, func(c *Ctx, y int) {
				for _, w := range []string{"Spring", "Summer", "Fall", "Winter"} {
					for _, v := range []string{w, strings.ToLower(w), strings.ToUpper(w), strings.ToLower(w[:1]) + strings.ToUpper(w[1:])} {
						c.Case("parse", fmt.Sprintf("%s, %04d", v, y))
						if y%100 == 4 {
							c.Case("parse", fmt.Sprintf("%s,%04d", v, y))
							c.Case("parse", fmt.Sprintf("%s , %04d", v, y))
						}
					}
				}
			}))
		}})

	// ---------------------------------------------------------------- C09
	register(&Prop{ID: "C09", Exhaust: true, Assume: []string{assumeGo},
		Rule:  "all masks: every year 0..9999 and every year with its last one, two or three digits unspecified, with no month, each of the months 01-12, XX, 0X, 1X, and with no day, each of the days 01-31, XX, 0X, 1X, 2X, 3X; decided when bounds, calendar days and predicted precision, or the error and its kind, were compared with a search over the calendar",
		Kinds: parseKind(aParse | aErrKind | aOuter | aInner | aYMD | aPrec | aOpen | aFlags | aLevel),
		Plan: func(tier string) []Task {
			var months, days []string
			for m := 1; m <= 12; m++ {
				months = append(months, fmt.Sprintf("%02d", m))
			}
			months = append(months, "XX", "0X", "1X")
			for d := 1; d <= 31; d++ {
				days = append(days, fmt.Sprintf("%02d", d))
			}
			days = append(days, "XX", "0X", "1X", "2X", "3X")
			all := func(c *Ctx, y string) {
				masked := strings.IndexByte(y, 'X') >= 0
				if masked {
					c.Case("parse", y)
				}
				for _, m := range months {
					mm := masked || strings.IndexByte(m, 'X') >= 0
					if mm {
						c.Case("parse", y+"-"+m)
					}
					for _, d := range days {
						if mm || strings.IndexByte(d, 'X') >= 0 {
							c.Case("parse", y+"-"+m+"-"+d)
						}
					}
				}
			}
			ts := yearTasks("decades", 0, 999, 50, func(c *Ctx, n int) { all(c, fmt.Sprintf("%03dX", n)) })
			ts = append(ts, yearTasks("centuries", 0, 99, 50, func(c *Ctx, n int) { all(c, fmt.Sprintf("%02dXX", n)) })...)
			ts = append(ts, yearTasks("millenia", 0, 9, 10, func(c *Ctx, n int) { all(c, fmt.Sprintf("%dXXX", n)) })...)
			ts = append(ts, yearTasks("years", 0, 9999, 100, func(c *Ctx, y int) { all(c, ys(y)) })...)
			ts = append(ts, Task{"leading X", func(c *Ctx) {
				for _, y := range []string{"XXXX", "X999", "XX04", "XXX4", "X00X", "XX0X", "XX99", "X1XX"} {
					c.Case("parse", y)
					for _, m := range months {
						c.Case("parse", y+"-"+m)
						for _, d := range days {
							c.Case("parse", y+"-"+m+"-"+d)
						}
					}
				}
				for y := 0; y < 1000; y++ {
					c.Case("parse", fmt.Sprintf("X%03d", y))
				}
			}})
			ts = append(ts, randTasks("in intervals", scale(tier, 60000, 20), func(c *Ctx) {
				a, b := genMask(c.Rng), genMask(c.Rng)
				if c.P(1, 3) {
					b = genDate(c.Rng)
				} else if c.P(1, 2) {
					a = genDate(c.Rng)
				}
				c.Case("parse", a+"/"+b)
			})...)
			ts = append(ts, randTasks("any mask", scale(tier, 60000, 20), func(c *Ctx) { c.Case("parse", genOddMask(c.Rng)) })...)
			return ts
		}})

	// ---------------------------------------------------------------- C10
	register(&Prop{ID: "C10", Assume: []string{assumeGo},
		Rule: "all placements of the three qualifiers right (4^3) and left (4^3) of the components of dates of every precision for a range of dates, all complete-date qualifiers for every year, a placement for every day of 1500..2100 and every fourth (thorough: every) other one, all left placements on both sides of intervals, random ones, and unqualified strings of every feature; decided when the flags of all four dates were compared with the union of qualified components, and the bounds with those of the same string without qualifiers",
		Kinds: map[string]Handler{
			"parse":   func(c *Ctx, a []string) bool { return checkParse(c, a[0], aParse|aFlags|aOuter|aInner|aYMD|aLevel) },
			"flags":   func(c *Ctx, a []string) bool { return checkParse(c, a[0], aFlags) },
			"without": checkWithoutQualifiers,
		},
		Plan: func(tier string) []Task {
			qs := []string{"", "?", "~", "%"}
			place := func(y string, m, d int, left bool, i, j, k int) string {
				f := func(v, q string) string {
					if left {
						return q + v
					}
					return v + q
				}
				s := f(y, qs[i])
				if m > 0 {
					s += "-" + f(fmt.Sprintf("%02d", m), qs[j])
				}
				if d > 0 {
					s += "-" + f(fmt.Sprintf("%02d", d), qs[k])
				}
				return s
			}
			every := func(c *Ctx, y string, m, d int, f func(s string)) {
				for i := 0; i < 4; i++ {
					for j := 0; j < 4; j++ {
						for k := 0; k < 4; k++ {
							if m == 0 && j > 0 || d == 0 && k > 0 || i+j+k == 0 {
								continue
							}
							f(place(y, m, d, true, i, j, k))
							f(place(y, m, d, false, i, j, k))
						}
					}
				}
			}
			step := 37
			if tier == "thorough" {
				step = 1
			}
			ts := yearTasks("all placements", 0, 9999, 100, func(c *Ctx, y int) {
				if y%step != 0 {
					m, d := genMD(c.Rng, y)
					for _, s := range []string{ys(y), ym(y, m), ymd(y, m, d)} {
						for _, q := range qs[1:] {
							c.Case("parse", s+q)
						}
					}
					return
				}
				m, d := genMD(c.Rng, y)
				for _, md := range [][2]int{{0, 0}, {m, 0}, {m, d}} {
					every(c, ys(y), md[0], md[1], func(s string) {
						c.Case("parse", s)
						c.Case("without", s)
					})
				}
			})
			ts = append(ts, yearTasks("negative years", -9999, -1, 40, func(c *Ctx, y int) {
				for _, q := range qs[1:] {
					m, d := genMD(c.Rng, y)
					c.Case("parse", ys(y)+q)
					c.Case("parse", ym(y, m)+q)
					c.Case("parse", ymd(y, m, d)+q)
				}
			})...)
			ts = append(ts, dayTasks(tier, func(c *Ctx, y, m, d int) {
				i, j, k := c.N(4), c.N(4), c.N(4)
				if i+j+k == 0 {
					k = 3
				}
				if y < 0 {
					i, j = 0, 0
				}
				s := place(ys(y), m, d, y >= 0 && c.P(1, 2), i, j, k)
				c.Case("parse", s)
				if c.P(1, 8) {
					c.Case("without", s)
				}
			})...)
			ts = append(ts, Task{"both sides", func(c *Ctx) {
				// every left placement on one side against every one on the other
				var side []string
				every(c, "2004", 6, 11, func(s string) {
					if isLeft(s) {
						side = append(side, s)
					}
				})
				every(c, "1985", 4, 0, func(s string) {
					if isLeft(s) {
						side = append(side, s)
					}
				})
				side = append(side, "2004", "-0004-02", "201X", "2004-06-XX")
				for _, a := range side {
					for _, b := range side {
						c.Case("parse", a+"/"+b)
					}
				}
			}})
			ts = append(ts, randTasks("random", scale(tier, 100000, 20), func(c *Ctx) {
				s := genGroup(c.Rng)
				switch c.N(4) {
				case 0:
					s = genIndividual(c.Rng)
				case 1:
					s = genQualified(c.Rng)
				case 2:
					s = genInterval2(c.Rng)
				}
				c.Case("parse", s)
				c.Case("without", s)
			})...)
			ts = append(ts, randTasks("no qualifier, no flag", scale(tier, 100000, 20), func(c *Ctx) { c.Case("flags", genAny(c.Rng)) })...)
			return ts
		}})

	// ---------------------------------------------------------------- C11
	register(&Prop{ID: "C11", Assume: []string{assumeGo},
		Rule:  "every year -9999..9999 as Y year, as exponential year in every decomposition n*10^m, and with S1..S5 in all three notations; all mantissas 1..9999 with exponents 0..6, both signs; numerals of random magnitude up to thousands of digits and exponents up to and beyond 64 bits; decided when the year's bounds, or the error and its kind, were compared",
		Kinds: withLong(parseKind(aParse | aErrKind | aOuter | aInner | aYMD | aLevel)),
		Plan: func(tier string) []Task {
			p := func(c *Ctx, s string) { c.Case("parse", s) }
			return concat(
				longTasks(tier),
				yearTasks("all years", -9999, 9999, 100, func(c *Ctx, y int) {
					s := ys(y)
					p(c, "Y"+s)
					a, sg := abs(y), ""
					if y < 0 {
						sg = "-"
					}
					e := 0
					p(c, fmt.Sprintf("Y%s%dE0", sg, a))
					for n := a; n%10 == 0 && n > 0; {
						n /= 10
						e++
						p(c, fmt.Sprintf("Y%s%dE%d", sg, n, e))
					}
					for k := 1; k <= 5; k++ {
						p(c, fmt.Sprintf("%sS%d", s, k))
						p(c, fmt.Sprintf("Y%sS%d", s, k))
						p(c, fmt.Sprintf("Y%s%dE0S%d", sg, a, k))
						if a%10 == 0 {
							p(c, fmt.Sprintf("Y%s%dE1S%d", sg, a/10, k))
						}
						if a%100 == 0 {
							p(c, fmt.Sprintf("Y%s%dE2S%d", sg, a/100, k))
						}
					}
				}),
				yearTasks("mantissas", 1, 9999, 40, func(c *Ctx, n int) {
					for e := 0; e <= 6; e++ {
						p(c, fmt.Sprintf("Y%dE%d", n, e))
						p(c, fmt.Sprintf("Y-%dE%d", n, e))
					}
				}),
				[]Task{{"magnitudes", func(c *Ctx) {
					for k := 1; k <= 400; k++ {
						z := strings.Repeat("0", k)
						n := strings.Repeat("9", k)
						for _, s := range []string{"1" + z, n, "1" + z + "1", "10000", "18446744073709551616", "18446744073709553616", "9223372036854775808", "4294967296", "4294969296", "65536", "20000", "-1" + z, "-" + n, "-18446744073709553616"} {
							p(c, "Y"+s)
							p(c, "Y"+s+"E0")
							p(c, "Y"+s+"E2")
							p(c, "Y"+s+"S2")
							p(c, "Y"+s+"E1S3")
						}
						p(c, "Y1E"+fmt.Sprint(k))
						p(c, "Y-1E"+fmt.Sprint(k))
						p(c, "Y17E"+fmt.Sprint(k*k*k))
						p(c, "Y1950E"+fmt.Sprint(k)+"S2")
						p(c, "1950S"+fmt.Sprint(k))
						p(c, "-1950S"+fmt.Sprint(k))
						p(c, "1950S1"+z)
						p(c, "1950S0"+z+"2")
						p(c, "Y1E1"+z)
						p(c, "Y2E"+n)
						p(c, "Y-2E1"+z+"S1")
					}
					for _, e := range []string{"308", "309", "400", "1000", "9999", "65535", "65536", "131072", "1000000", "646456993", "99999999", "536870912", "999999999", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617"} {
						for _, n := range []string{"1", "2", "9", "17", "1950", "99999", "0"} {
							p(c, "Y"+n+"E"+e)
							p(c, "Y-"+n+"E"+e)
							p(c, "Y"+n+"E"+e+"S2")
							p(c, "1950S"+e)
						}
					}
				}}},
				randTasks("random", scale(tier, 200000, 30), func(c *Ctx) {
					switch c.N(3) {
					case 0:
						p(c, genYYear(c.Rng))
					case 1:
						p(c, genExp(c.Rng))
					default:
						p(c, genSig(c.Rng))
					}
				}))
		}})

	// ---------------------------------------------------------------- C12
	register(&Prop{ID: "C12", Assume: []string{assumeGo},
		Rule: "all sets of one to three members from a pool of 24 dates in both brackets with every placement of open ends, a set with every day of 1500..2100 and every fourth (thorough: every) other one, random sets of up to seven members, and of up to 700 (near each other and far apart, mixed precision and sign, ranges, open ends, non-existent members), each also with its members in another order; and strings of every other feature for the absence of inclusivity; decided when bounds, open ends and inclusivity of the four dates were compared with the model",
		Kinds: map[string]Handler{
			"parse": func(c *Ctx, a []string) bool {
				return checkParse(c, a[0], aParse|aOuter|aInner|aYMD|aOpen|aIncl|aLevel)
			},
			"incl": func(c *Ctx, a []string) bool { return checkParse(c, a[0], aIncl) },
			"long": long(func(c *Ctx, a []string) bool {
				return checkParse(c, a[0], aParse|aOuter|aInner|aYMD|aOpen|aIncl|aLevel)
			}),
			"order": checkSetOrder,
		},
		Plan: func(tier string) []Task {
			pool := []string{"1667", "1667-01", "1667-12", "1667-05", "1667-01-01", "1667-12-31", "1668", "1666-12-31", "0000", "-0001", "-0001-12", "-0100", "-0200", "-0200-01", "-0200-12-31", "0980", "0980-05", "9999", "-9999", "1970-01-01", "1969-12-31", "2004-02-29", "2001-02-29", "2004-02"}
			wrap := func(c *Ctx, s string) {
				c.Case("parse", "["+s+"]")
				c.Case("parse", "{"+s+"}")
			}
			ts := longTasks(tier)
			for i := range pool {
				i := i
				ts = append(ts, Task{"pool", func(c *Ctx) {
					a := pool[i]
					for _, f := range []string{"%s", "..%s", "%s.."} {
						wrap(c, fmt.Sprintf(f, a))
					}
					for _, b := range pool {
						for _, f := range []string{"%s,%s", "..%s,%s", "%s,%s..", "%s..%s", "..%s,%s.."} {
							wrap(c, fmt.Sprintf(f, a, b))
						}
						for _, d := range pool {
							for _, f := range []string{"%s,%s,%s", "..%s,%s,%s", "%s,%s,%s..", "%s..%s,%s", "%s,%s..%s"} {
								s := fmt.Sprintf(f, a, b, d)
								if c.P(1, 2) {
									c.Case("parse", "["+s+"]")
								} else {
									c.Case("parse", "{"+s+"}")
								}
							}
						}
					}
				}})
			}
			return concat(ts,
				dayTasks(tier, func(c *Ctx, y, m, d int) {
					y2, m2, d2 := laterDay(c.Rng, y, m, d)
					a, b := ymd(y, m, d), ymd(y2, m2, d2)
					switch c.N(6) {
					case 0:
						b = ym(y2, m2)
					case 1:
						a = ym(y, m)
					}
					s := c.Pick(a, a+".."+b, a+","+b, b+","+a, ".."+a, b+"..", ".."+a+","+b, a+","+b+"..")
					c.Case("parse", c.Pick("["+s+"]", "{"+s+"}"))
				}),
				randTasks("random", scale(tier, 250000, 20), func(c *Ctx) { c.Case("parse", genSet(c.Rng)) }),
				randTasks("big", scale(tier, 30000, 20), func(c *Ctx) { c.Case("parse", genBigSet(c.Rng)) }),
				[]Task{{"outermost member anywhere", func(c *Ctx) {
					for _, n := range []int{7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} {
						for k := 0; k < n; k++ {
							ms := make([]string, n)
							for i := range ms {
								ms[i] = fmt.Sprintf("%04d", 2000+i%50)
							}
							ms[k] = "1066"
							ms[c.N(n)] = c.Pick("3000", "2100-06", "-0300")
							c.Case("parse", "["+strings.Join(ms, ",")+"]")
						}
					}
				}}},
				randTasks("big order", scale(tier, 5000, 20), func(c *Ctx) {
					s := genBigSet(c.Rng)
					c.Case("order", s, shuffleSet(c.Rng, s))
				}),
				randTasks("order", scale(tier, 50000, 20), func(c *Ctx) {
					s := genSet(c.Rng)
					c.Case("order", s, shuffleSet(c.Rng, s))
				}),
				randTasks("no set, no inclusivity", scale(tier, 80000, 20), func(c *Ctx) { c.Case("incl", genAny(c.Rng)) }))
		}})
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func isLeft(s string) bool { return !strings.ContainsAny(s[len(s)-1:], "?~%") && !hasRight(s) }

func hasRight(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if strings.IndexByte("?~%", s[i]) >= 0 && s[i+1] == '-' {
			return true
		}
	}
	return false
}

// shortStrings is every string of up to four (thorough: five) characters of the EDTF alphabet.
func shortStrings(tier string, p func(c *Ctx, s string)) []Task {
	ab := "0129X-/.,?~%YESTZ:[]{} s\n"
	if tier != "thorough" {
		ab = "019X-/.?%YESTZ:,[]{} "
	}
	n := 4
	if tier == "thorough" {
		n = 5
	}
	var ts []Task
	for i := 0; i < len(ab); i++ {
		i := i
		ts = append(ts, Task{"short strings", func(c *Ctx) {
			var rec func(s []byte)
			rec = func(s []byte) {
				p(c, string(s))
				if len(s) == n {
					return
				}
				for j := 0; j < len(ab); j++ {
					rec(append(s, ab[j]))
				}
			}
			rec(append(make([]byte, 0, 8), ab[i]))
		}})
	}
	return ts
}

var corpus = []string{
	"1985", "1985-04", "1985-04-12", "-1985", "-1985-04-12", "1985-04-12T23:20:30", "1985-04-12T23:20:30Z", "1985-04-12T23:20:30-04", "1985-04-12T23:20:30+04:30", "-0004-02-29T00:00:00-01",
	"1964/2008", "2004-06/2006-08", "2004-02-01/2005-02-08", "-2004/2005-02", "Y1985", "Y-1985", "Y170000002", "2001-21", "-2001-24", "Spring, 2002", "winter, 2002", "1984?", "2004-06~", "2004-06-11%", "-2004-06-11%",
	"201X", "20XX", "2004-XX", "1985-04-XX", "1985-XX-XX", "1985-04-12/..", "1985/..", "../1985-04", "1985-04/", "/1985-04-12", "Y-17E2", "Y17E7", "1950S2", "Y1950S2", "Y-20E2S3", "2001-34", "2001-41",
	"[1667,1668,1670..1672]", "[..1760-12-03]", "{1760-12..}", "[1760-01,1760-02,1760-12..]", "{1960,1961-12}", "2004-06~-11", "2004?-06-11", "?2004-06-~11", "2004-%06-11", "156X-12-25", "15XX-12-XX", "1XXX-XX", "1984-1X",
	"2004-06-~01/2004-06-~20", "2004-06-XX/2004-07-03", "..", "?2004/~201X",
	"2004/?2005", "?2004/2005", "2004-02/2005-~03", "2004-%02/-2005", "%2004-?06-~11/~2005-%07-?12", "-2004-06-11/2005", "2004-1X/201X-XX-XX", "2004-06-11?/2005", "2004?/2005-06~", "2004~/..", "../2004-06%", "open/2004",
	"1985-04-12T23:20:30-04:30", "2001-22?", "Y-1985E3", "{..1984}", "[1984..]", "{1667,1668,-1670..1672,1760-12-03}", "[201X]", "{2004-06-11..2004-06-13}", "XXXX", "XX04-XX", "2004-06-11?~", "2004-2X", "1985-04-3X", "0000", "-0001", "FALL, 0999", "Y12345", "Y-0012E1S1", "-1950S2",
}

// pairs is the EDTF alphabet, in pairs.
const pairAlphabet = "0129X-/.,?~%YESTZ:[]{} +n"

// editTasks is every insertion, replacement and deletion of one byte in the corpus.
func editTasks(tier string, p func(c *Ctx, s string)) []Task {
	var ts []Task
	for _, s := range corpus {
		s := s
		ts = append(ts, Task{"one edit", func(c *Ctx) {
			p(c, s)
			for i := 0; i <= len(s); i++ {
				if i < len(s) {
					p(c, s[:i]+s[i+1:])
				}
				for b := 0; b < 256; b++ {
					if tier != "thorough" && (b >= 0x80 && b%16 != 3) {
						continue
					}
					p(c, s[:i]+string([]byte{byte(b)})+s[i:])
					if i < len(s) {
						p(c, s[:i]+string([]byte{byte(b)})+s[i+1:])
					}
				}
			}
			for _, a := range affixes {
				p(c, s+a)
				p(c, a+s)
			}
			for _, t := range corpus {
				p(c, s+t)
				p(c, s+"/"+t)
				p(c, s+","+t)
				p(c, s+" "+t)
				p(c, s+"\n"+t)
			}
		}}, Task{"two characters", func(c *Ctx) {
			// two characters of the alphabet, inserted beside each other or instead of one or two, and
			// (thorough) one at each of two places
			ab := pairAlphabet
			for i := 0; i <= len(s); i++ {
				for x := 0; x < len(ab); x++ {
					for y := 0; y < len(ab); y++ {
						xy := string([]byte{ab[x], ab[y]})
						p(c, s[:i]+xy+s[i:])
						if i < len(s) {
							p(c, s[:i]+xy+s[i+1:])
						}
						if i+1 < len(s) {
							p(c, s[:i]+xy+s[i+2:])
						}
						if tier == "thorough" {
							for j := i + 1; j <= len(s); j++ {
								p(c, s[:i]+xy[:1]+s[i:j]+xy[1:]+s[j:])
								if j < len(s) {
									p(c, s[:i]+xy[:1]+s[i+1:j]+xy[1:]+s[j+1:])
								}
							}
						}
					}
				}
				for j := i + 1; j <= len(s); j++ {
					p(c, s[:i]+s[j:])        // without a part
					p(c, s[:j]+s[i:j]+s[j:]) // a part twice
					for k := j + 1; k <= len(s); k++ {
						p(c, s[:i]+s[j:k]+s[i:j]+s[k:]) // two parts exchanged
					}
				}
			}
		}})
	}
	return ts
}
