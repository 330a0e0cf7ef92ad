package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"verif/harness/ref"
)

func init() {
	// ---------------------------------------------------------------- C01
	all := func(c *Ctx, s string) { c.Case("all", s) }
	register(&Prop{ID: "C01", Assume: []string{assumeGo, "time and memory are observed from outside, with bounds far above what is usual: 1 MiB and 8000 bytes per byte of input for each call, 20 s and 20 µs per byte; a call which does not return within 90 s is a hang"},
		Rule: "every entry point of the library (17 feature predicates and parsers, three levels, parser, ranges, comparisons with six partners in each position) on hostile strings of up to 8 KiB (thorough 32 KiB), on expressions of every feature for every year, on the one-edit neighbourhood of a corpus and short strings; and alone in the process, on strings of up to 256 KiB (thorough 4 MiB), the memory and time each call takes; decided when every call returned and every result was complete",
		Kinds: map[string]Handler{
			"all":        func(c *Ctx, a []string) bool { return answerAll(c, a[0]) },
			"cost":       checkCost,
			"cmp":        func(c *Ctx, a []string) bool { return checkCmp(c, a) },
			"growth":     checkGrowth,
			"kept":       checkKept,
			"goroutines": checkGoroutines,
		},
		Special: func(r *Run) {
			r.serial("kept", keptPlan)
			r.serial("cost", func(c *Ctx) {
				max := 1 << 18
				if c.Thorough() {
					max = 1 << 22
				}
				for _, s := range corpus {
					c.Case("cost", s)
				}
				for _, n := range []string{"Y1E999999999", "Y-1E999999999", "Y1E2147483647", "Y9E100000000S2", "Y1E308", "Y17E99999", "1950S999999999", "1950S18446744073709551617", "Y1E646456993"} {
					c.Case("cost", n)
				}
				for k := 10; k <= bits(max); k++ {
					if !c.Thorough() && k%4 != 2 {
						continue
					}
					n := 1 << uint(k)
					for _, f := range longForms {
						c.Case("cost", f.f(n))
					}
				}
				n := 3000
				if c.Thorough() {
					n = 30000
				}
				for i := 0; i < n; i++ {
					m := 1 << 10
					switch {
					case i%300 == 0:
						m = max
					case i%20 == 0:
						m = 1 << 14
					}
					c.Case("cost", hostile(c.Rng, m))
				}
				for i := 0; i < n; i++ {
					c.Case("cost", genAny(c.Rng))
				}
			})
		},
		Plan: func(tier string) []Task {
			max := 1 << 12
			if tier == "thorough" {
				max = 1 << 14
			}
			var ts []Task
			ts = append(ts, editTasks(tier, func(c *Ctx, s string) {
				if c.Thorough() && c.P(1, 4) || c.P(1, 40) {
					all(c, s)
				}
			})...)
			return concat(
				growthTasks(),
				randTasks("long", scale(tier, 2000, 10), func(c *Ctx) { all(c, hostile(c.Rng, max)) }),
				randTasks("hostile", scale(tier, 60000, 20), func(c *Ctx) { all(c, hostile(c.Rng, 64)) }),
				everyFeature("every year", map[bool]int{true: 1, false: 8}[tier == "thorough"], all),
				ts,
				yearTasks("numbers", 0, 9999, 40, func(c *Ctx, n int) {
					all(c, fmt.Sprintf("1950S%d", n))
					if n < 1000 {
						for _, f := range []string{"Y2E%d", "Y-19E%d", "%dS1", "Y%d", "%d", "%03d-12", "[%d..]", "{..%d}", "2004-%d", "2004-06-%d", "Y%dE3", "Y%dE0S2", "0%dS2", "%dXX"} {
							all(c, fmt.Sprintf(f, n))
						}
					}
				}),
				randTasks("junk", scale(tier, 100000, 30), func(c *Ctx) { all(c, genJunk(c.Rng)) }),
				randTasks("pairs", scale(tier, 60000, 20), func(c *Ctx) { c.Case("cmp", mixed(c.Rng), hostile(c.Rng, 32)) }),
			)
		}})

	// ---------------------------------------------------------------- C02
	coh := func(c *Ctx, s string) { c.Case("coherent", s) }
	register(&Prop{ID: "C02", Assume: []string{assumeGo},
		Rule:  "expressions of every feature for every year (quick: every fifth), the one-edit neighbourhood of a corpus, all strings of up to 3 (thorough: 4) characters, random expressions, mutations, characters exchanged for ones like them, and hostile strings, each through the parser, the three levels and the 17 features; every string decides",
		Kinds: map[string]Handler{"coherent": checkCoherent, "long": long(checkCoherent)},
		Plan: func(tier string) []Task {
			step := 5
			if tier == "thorough" {
				step = 1
			}
			return concat(
				longTasks(tier),
				[]Task{{"special", func(c *Ctx) {
					for _, s := range append([]string{"..", "", "open", "uuuu", "...", ".", "../..", "/", "../", "/..", "Open", "unknown", "*", "now"}, corpus...) {
						coh(c, s)
					}
				}}},
				everyFeature("every year", step, coh),
				confuseTasks(tier, coh),
				shortStringsN(3+map[bool]int{true: 1}[tier == "thorough"], coh),
				editTasks(tier, func(c *Ctx, s string) {
					if c.Thorough() && c.P(1, 2) || c.P(1, 4) {
						coh(c, s)
					}
				}),
				randTasks("expressions", scale(tier, 100000, 20), func(c *Ctx) { coh(c, genAny(c.Rng)) }),
				randTasks("odd masks", scale(tier, 20000, 20), func(c *Ctx) { coh(c, genOddMask(c.Rng)) }),
				randTasks("mutations", scale(tier, 150000, 20), func(c *Ctx) { coh(c, genJunk(c.Rng)) }),
				randTasks("hostile", scale(tier, 20000, 20), func(c *Ctx) { coh(c, hostile(c.Rng, 64)) }),
			)
		}})

	// ---------------------------------------------------------------- C07
	register(&Prop{ID: "C07", Exhaust: true, Assume: []string{assumeGo},
		Rule: "D/.., ../D, D/ and /D for every year and month -9999..9999 and for days (quick: every eleventh day, thorough: all 7.3 million), days which do not exist, '..' and the empty string, and expressions of every other feature; decided when the open and unknown flags, times and days of all four dates, Lower and Upper, and the EDTF strings of the sides were compared",
		Kinds: map[string]Handler{
			"parse":  func(c *Ctx, a []string) bool { return checkParse(c, a[0], aParse|aOpen|aOuter|aInner|aYMD|aLevel) },
			"notset": checkNotSet,
			"sides":  checkSideNames,
		},
		Plan: func(tier string) []Task {
			forms := func(c *Ctx, d string) {
				for _, s := range []string{d + "/..", d + "/", "../" + d, "/" + d} {
					c.Case("parse", s)
					c.Case("notset", s)
					if len(d) < 9 || c.Thorough() || c.P(1, 16) {
						c.Case("sides", s)
					}
				}
			}
			return concat(
				[]Task{{"special", func(c *Ctx) {
					for _, s := range []string{"..", "", "../..", "/", "../", "/.."} {
						c.Case("parse", s)
						c.Case("notset", s)
					}
				}}},
				yearTasks("all years", -9999, 9999, 200, func(c *Ctx, y int) {
					forms(c, ys(y))
					for m := 1; m <= 12; m++ {
						forms(c, ym(y, m))
						n := ref.Dim(y, m)
						for d := 1; d <= 31; d++ {
							if c.Thorough() || (d+m*3+abs(y))%11 == 0 || m == 2 && d >= 28 && y%4 == 0 {
								if d <= n {
									forms(c, ymd(y, m, d))
								} else {
									c.Case("parse", ymd(y, m, d)+"/..")
									c.Case("parse", "/"+ymd(y, m, d))
								}
							}
						}
					}
				}),
				randTasks("sets", scale(tier, 60000, 20), func(c *Ctx) {
					s := genSet(c.Rng)
					c.Case("parse", s)
					c.Case("notset", s)
				}),
				randTasks("every feature", scale(tier, 200000, 20), func(c *Ctx) {
					s := genAny(c.Rng)
					c.Case("parse", s)
					c.Case("notset", s)
				}))
		}})

	// ---------------------------------------------------------------- C13
	in := func(c *Ctx, s string) { c.Case("internal", s) }
	register(&Prop{ID: "C13", Assume: []string{assumeGo},
		Rule:  "expressions of every feature for every year (thorough: with every mask and sub-year grouping of it), every day of 1500..2100 and every fourth (thorough: every) other one, random ones and mutations; decided for every string that parses, when all relations within the result were evaluated",
		Kinds: map[string]Handler{"internal": checkInternal, "long": long(checkInternal)},
		Plan: func(tier string) []Task {
			return concat(
				longTasks(tier),
				everyFeature("every year", 1, in),
				dayTasks(tier, func(c *Ctx, y, m, d int) {
					s := ymd(y, m, d)
					if c.P(1, 4) {
						s += "T" + genTime(c.Rng) + genOffset(c.Rng)
					}
					in(c, s)
				}),
				yearTasks("masks and groupings", 0, 9999, 100, func(c *Ctx, y int) {
					if !c.Thorough() && y%7 != 0 {
						return
					}
					s := ys(y)
					for g := 21; g <= 41; g++ {
						in(c, fmt.Sprintf("%s-%d", s, g))
					}
					for k := 1; k <= 3; k++ {
						for _, md := range []string{"", "-XX", "-XX-XX", "-02-29", "-02-XX", "-12-31", "-1X", "-0X", "-02-2X", "-1X-3X", "-02-3X", "-0X-31"} {
							in(c, s[:4-k]+strings.Repeat("X", k)+md)
						}
					}
					for _, y2 := range []string{s[:2] + "X" + s[3:], s[:1] + "X" + s[2:], s[:1] + "XX" + s[3:], s[:1] + "X" + s[2:3] + "X"} {
						for _, md := range []string{"", "-02-29", "-XX", "-02-XX"} {
							in(c, y2+md)
						}
					}
					for m := 1; m <= 12; m++ {
						in(c, fmt.Sprintf("%s-%02d-XX", s, m))
					}
				}),
				randTasks("expressions", scale(tier, 400000, 20), func(c *Ctx) { in(c, genAny(c.Rng)) }),
				randTasks("sets", scale(tier, 100000, 20), func(c *Ctx) { in(c, genSet(c.Rng)) }),
				randTasks("odd masks", scale(tier, 60000, 20), func(c *Ctx) { in(c, genOddMask(c.Rng)) }),
				randTasks("mutations", scale(tier, 200000, 20), func(c *Ctx) { in(c, genJunk(c.Rng)) }),
			)
		}})

	// ---------------------------------------------------------------- C14
	register(&Prop{ID: "C14", Assume: []string{assumeGo},
		Rule: "pairs and triples of strings: adjacent days over every month and year boundary, every day of 1500..2100 and every fourth (thorough: every) other one with one soon after, dates which touch, overlap and contain one another, the same string, expressions of every feature against each other, open and unknown ends, strings which do not parse; decided when the answer was compared with the comparison of the parsed bounds, the converse included",
		Kinds: map[string]Handler{"cmp": checkCmp, "between": checkBetween, "transitive": checkTransitive,
			"long":      long(checkCmp),
			"long last": long(func(c *Ctx, a []string) bool { return checkCmp(c, []string{a[1], a[0]}) })},
		Plan: func(tier string) []Task {
			pool := []string{"..", "", "open", "uuuu", "garbage", "2021-02-30", "X999", "Y20040", "2004", "2004-06", "2004-06-11", "2004-06-30", "2004-07", "2004-07-01", "2005", "2003-12-31", "200X", "20XX", "2004-XX", "2004?", "2004-06~", "2004-06-11T23:59:59", "2004-06-11T00:00:00Z", "2004-06-12T00:00:00",
				"2004/2005", "2004/..", "2004/", "../2004", "/2004", "../2004-06-11", "2004-06-11/..", "2004-06-12/", "/2004-06-10", "-0001-12-31", "0000", "-2004", "1969-12-31", "1970-01-01", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "[2004,2006]", "{..2004}", "[2004..]", "[..2004..]", "2005/2004", "Spring, 2004", "2004-25", "2004-33", "1950S2", "Y2004", "Y2E3", "-9999", "9999", "?2004-06-~11", "2004-06~-11"}
			neighbour := func(r *Rng, s string) string { return nearby(r, s) }
			return concat(
				[]Task{{"pool pairs", func(c *Ctx) {
					for _, a := range pool {
						for _, b := range pool {
							c.Case("cmp", a, b)
						}
					}
				}}},
				poolTriples(pool),
				longTasks(tier, "2004-06"),
				[]Task{{"long last", func(c *Ctx) {
					for _, f := range longForms {
						c.Case("long last", f.name, "70000", "1950")
						c.Case("long last", f.name, "1100", "..")
					}
				}}},
				yearTasks("adjacent", -9999, 9998, 100, func(c *Ctx, y int) {
					m, d := genMD(c.Rng, y)
					c.Case("cmp", ys(y), ys(y+1))
					c.Case("cmp", ys(y), ys(y))
					c.Case("cmp", ys(y+1), ys(y))
					c.Case("cmp", ymd(y, 12, 31), ymd(y+1, 1, 1))
					c.Case("cmp", ymd(y, m, d), ym(y, m))
					c.Case("cmp", ys(y), ymd(y, m, d))
					if m < 12 {
						c.Case("cmp", ym(y, m), ym(y, m+1))
						c.Case("cmp", ymd(y, m+1, 1), ymd(y, m, ref.Dim(y, m)))
					}
					c.Case("cmp", ymd(y, m, d), ymd(y, m, d))
					c.Case("cmp", ymd(y, m, d)+"T23:59:59", ymd(y, m, d))
					c.Case("cmp", ymd(y, m, d)+"T00:00:00", ymd(y, m, d)+"T00:00:01")
					c.Case("between", ymd(y, m, d), ys(y), ys(y+1))
					c.Case("between", ymd(y, m, d), ymd(y, m, d), "..")
					c.Case("between", ys(y+1), ym(y, m), ys(y))
					c.Case("between", ys(y), ys(y+1), "..")
				}),
				dayTasks(tier, func(c *Ctx, y, m, d int) {
					y2, m2, d2 := laterDay(c.Rng, y, m, d)
					a, b := ymd(y, m, d), ymd(y2, m2, d2)
					if c.P(1, 6) {
						b = ym(y2, m2)
					}
					if c.P(1, 2) {
						a, b = b, a
					}
					if c.P(1, 8) {
						c.Case("between", a, b, c.Pick(a, b, "..", ys(y2)))
						return
					}
					c.Case("cmp", a, b)
				}),
				randTasks("pairs", scale(tier, 150000, 20), func(c *Ctx) {
					a := genAny(c.Rng)
					b := neighbour(c.Rng, a)
					c.Case("cmp", a, b)
					c.Case("cmp", b, a)
				}),
				randTasks("triples", scale(tier, 80000, 20), func(c *Ctx) {
					a := genAny(c.Rng)
					b, d := neighbour(c.Rng, a), neighbour(c.Rng, a)
					if c.P(1, 8) {
						d = ".."
					}
					c.Case("between", a, b, d)
					c.Case("transitive", a, b, d)
				}),
				randTasks("not dates", scale(tier, 30000, 20), func(c *Ctx) {
					c.Case("cmp", genJunk(c.Rng), mixed(c.Rng))
					c.Case("cmp", mixed(c.Rng), genJunk(c.Rng))
					c.Case("between", mixed(c.Rng), mixed(c.Rng), genJunk(c.Rng))
				}))
		}})

	// ---------------------------------------------------------------- C15
	un := func(c *Ctx, s string) { c.Case("unix", s) }
	register(&Prop{ID: "C15", Assume: []string{assumeGo},
		Rule:  "expressions of every feature for every year, every day of 1500..2100 and every fourth (thorough: every) other one, random ones, open and unknown strings and ends, and strings which do not parse; decided for every string, when the answer was compared with the parsed result (bounds themselves are C04 to C12)",
		Kinds: map[string]Handler{"unix": checkUnix, "long": long(checkUnix)},
		Plan: func(tier string) []Task {
			return concat(
				longTasks(tier),
				[]Task{{"special", func(c *Ctx) {
					for _, s := range append([]string{"..", "", "open", "uuuu", "/", "../..", "/..", "../", "1970-01-01", "1970-01-01T00:00:00", "1969-12-31T23:59:59", "1970", "1970/1970", "[1970,1970]", "1970-01-01T00:00:00/..", "open/2004", "2004/open", "uuuu/2004", "2004/uuuu", "OPEN", "unknown", "Y20000", "X999", "2021-02-30", "garbage"}, corpus...) {
						un(c, s)
					}
				}}},
				everyFeature("every year", 1, un),
				confuseTasks(tier, un),
				dayTasks(tier, func(c *Ctx, y, m, d int) {
					s := ymd(y, m, d)
					switch c.N(8) {
					case 0:
						s += "T" + genTime(c.Rng) + genOffset(c.Rng)
					case 1:
						s += "/" + ymd(laterDay(c.Rng, y, m, d))
					}
					un(c, s)
				}),
				randTasks("expressions", scale(tier, 300000, 20), func(c *Ctx) { un(c, genAny(c.Rng)) }),
				randTasks("mutations", scale(tier, 150000, 20), func(c *Ctx) { un(c, genJunk(c.Rng)) }),
				randTasks("around the epoch", scale(tier, 30000, 20), func(c *Ctx) {
					un(c, ref.RFC3339(int64(c.In(-100000, 100000))))
				}),
			)
		}})

	// ---------------------------------------------------------------- C16
	js := func(c *Ctx, s string) { c.Case("json", s) }
	register(&Prop{ID: "C16", Assume: []string{assumeGo},
		Rule: "results of expressions of every feature for every year and random ones; results made by hand with any combination of fields; every instant around the epoch; timestamps of all sizes as numbers and strings; JSON values which are no timestamps; decided when the decoded result was compared with the encoded one field by field, and the JSON's names, types and omissions with the result",
		Kinds: map[string]Handler{
			"json": checkJSON,
			"long": long(checkJSON),
			"made": func(c *Ctx, a []string) bool {
				n, _ := strconv.ParseUint(a[0], 10, 64)
				checkJSONOf(c, genMade(&Rng{n}))
				return true
			},
			"ts":  checkTimestampJSON,
			"bad": checkBadTimestamp,
		},
		Plan: func(tier string) []Task {
			return concat(
				[]Task{{"special", func(c *Ctx) {
					for _, s := range append([]string{"..", "", "1970-01-01", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59", "1970", "1969/1970-01-01", "../1970-01-01T00:00:00", "1970-01-01/..", "1970-01-01/", "1969-12-31/1970-01-01"}, corpus...) {
						js(c, s)
					}
					for i := -1000; i <= 1000; i++ {
						c.Case("ts", strconv.Itoa(i))
						js(c, strings.TrimSuffix(ref.RFC3339(int64(i)), "Z"))
					}
					for _, s := range badTimestamps {
						c.Case("bad", s)
					}
				}}},
				longTasks(tier),
				everyFeature("every year", map[bool]int{true: 1, false: 3}[tier == "thorough"], js),
				randTasks("expressions", scale(tier, 60000, 20), func(c *Ctx) { js(c, genAny(c.Rng)) }),
				randTasks("made", scale(tier, 40000, 20), func(c *Ctx) { c.Case("made", strconv.FormatUint(c.U64(), 10)) }),
				randTasks("timestamps", scale(tier, 60000, 20), func(c *Ctx) { c.Case("ts", strconv.FormatInt(anyInt64(c.Rng), 10)) }),
				randTasks("not timestamps", scale(tier, 20000, 20), func(c *Ctx) {
					s := strconv.FormatInt(anyInt64(c.Rng), 10)
					switch c.N(6) {
					case 0:
						s += "." + strconv.Itoa(c.N(100))
					case 1:
						s += "e" + strconv.Itoa(c.In(1, 9))
					case 2:
						s = strconv.Quote(s + c.Pick("x", " x", ".5", "e2", "Z", "-", "/"))
					case 3:
						s += "0000000000000000000000"
						if strings.TrimLeft(s, "-0") == "" {
							s = "1" + s
						}
						s = strings.Replace(s, "-0", "-10", 1)
						if s[0] == '0' {
							s = "1" + s
						}
					case 4:
						s = "[" + s + "]"
					case 5:
						s = `{"timestamp":` + s + "}"
					}
					c.Case("bad", s)
				}),
			)
		}})

	// ---------------------------------------------------------------- C18
	er := func(c *Ctx, s string) { c.Case("errors", s) }
	register(&Prop{ID: "C18", Assume: []string{assumeGo},
		Rule: "strings of every feature and of none through the parser, the matcher and the 17 feature parsers, with every error's kind against the predicates; years just in and out of range in every notation, of all magnitudes; all five constructors against all five predicates for random texts; decided when an error's kind was compared, or a feature's parser was given a string which is not its own",
		Kinds: map[string]Handler{"errors": checkErrors, "table": checkErrTable, "long": long(checkErrors),
			"long table": long(func(c *Ctx, a []string) bool { return checkErrTable(c, []string{a[1], a[0]}) && checkErrTable(c, a) })},
		Plan: func(tier string) []Task {
			return concat(
				longTasks(tier),
				confuseTasks(tier, er),
				[]Task{{"long constructors", func(c *Ctx) {
					for _, f := range longForms {
						c.Case("long table", f.name, "300", "2004")
						c.Case("long table", f.name, "12000", "2004")
						c.Case("long table", f.name, "70000", "x")
					}
				}}},
				[]Task{{"range", func(c *Ctx) {
					for _, s := range append([]string{"", "..", "/", "open"}, corpus...) {
						er(c, s)
					}
					for n := 9990; n <= 10010; n++ {
						for _, f := range []string{"Y%d", "Y-%d", "Y%dE0", "Y-%dE0", "Y%dS2", "Y-%dS2", "Y%dE0S2", "%d", "-%d"} {
							er(c, fmt.Sprintf(f, n))
						}
					}
					for e := 0; e < 400; e++ {
						for _, n := range []int{1, 9, 10, 99, 100, 999, 1000, 9999, 10000} {
							er(c, fmt.Sprintf("Y%dE%d", n, e))
							er(c, fmt.Sprintf("Y-%dE%d", n, e))
							er(c, fmt.Sprintf("Y%dE%dS2", n, e))
						}
					}
					for n := 5; n < 200; n++ {
						er(c, "Y"+strings.Repeat("9", n))
						er(c, "Y-1"+strings.Repeat("0", n))
						er(c, "Y1"+strings.Repeat("0", n)+"S3")
					}
					for y := 0; y < 1000; y++ {
						er(c, fmt.Sprintf("X%03d", y))
						er(c, fmt.Sprintf("X%03d-%02d", y, y%12+1))
						er(c, fmt.Sprintf("X%03d-%02d-%02d", y, y%12+1, y%28+1))
						er(c, fmt.Sprintf("XX%02d", y%100))
					}
				}}},
				everyFeature("every year", map[bool]int{true: 1, false: 11}[tier == "thorough"], er),
				randTasks("expressions", scale(tier, 60000, 20), func(c *Ctx) { er(c, genAny(c.Rng)) }),
				randTasks("odd masks", scale(tier, 20000, 20), func(c *Ctx) { er(c, genOddMask(c.Rng)) }),
				randTasks("magnitudes", scale(tier, 60000, 20), func(c *Ctx) {
					switch c.N(3) {
					case 0:
						er(c, genYYear(c.Rng))
					case 1:
						er(c, genExp(c.Rng))
					default:
						er(c, genSig(c.Rng))
					}
				}),
				randTasks("mutations", scale(tier, 100000, 20), func(c *Ctx) { er(c, genJunk(c.Rng)) }),
				randTasks("constructors", scale(tier, 20000, 20), func(c *Ctx) { c.Case("table", genJunk(c.Rng), mixed(c.Rng)) }),
			)
		}})

	// ---------------------------------------------------------------- C21
	register(&Prop{ID: "C21", Exhaust: true, Assume: []string{assumeGo},
		Rule:  "all 1024 sets of the low ten bits and random 32-bit ones with every operation and flag once and twice; all strings of up to three characters, the four special strings with affixes and case changes, and expressions; pairs of calendar days equal and differing in one or more components, also so that any packing of the three into one number or text would make them equal; each decides",
		Kinds: map[string]Handler{"bits": checkPrecision, "string": checkPredicates, "ymd": checkYMD},
		Plan: func(tier string) []Task {
			st := func(c *Ctx, s string) { c.Case("string", s) }
			return concat(
				[]Task{{"bits", func(c *Ctx) {
					for n := 0; n < 1024; n++ {
						c.Case("bits", strconv.Itoa(n))
					}
					for n := 0; n < 4096; n++ {
						c.Case("bits", strconv.FormatUint(c.U64()&0xffffffff, 10))
					}
				}}, {"special strings", func(c *Ctx) {
					for _, s := range []string{"..", "open", "", "uuuu"} {
						st(c, s)
						st(c, strings.ToUpper(s))
						st(c, strings.Title(s))
						for _, a := range affixes {
							st(c, s+a)
							st(c, a+s)
						}
						for i := 0; i < len(s); i++ {
							st(c, s[:i]+s[i+1:])
							for b := 0; b < 256; b++ {
								st(c, s[:i]+string([]byte{byte(b)})+s[i+1:])
								st(c, s[:i]+string([]byte{byte(b)})+s[i:])
							}
						}
						for _, t := range []string{"..", "open", "uuuu", "/"} {
							st(c, s+t)
							st(c, s+"/"+t)
						}
					}
				}}, {"small days", func(c *Ctx) {
					v := []string{"-1", "0", "1", "2"}
					for n := 0; n < 1<<12; n++ {
						c.Case("ymd", v[n&3], v[n>>2&3], v[n>>4&3], v[n>>6&3], v[n>>8&3], v[n>>10&3])
					}
				}}},
				shortStringsN(3, st),
				randTasks("strings", scale(tier, 100000, 20), func(c *Ctx) { st(c, mixed(c.Rng)) }),
				randTasks("days", scale(tier, 100000, 20), func(c *Ctx) {
					y := genYear(c.Rng)
					m, d := genMD(c.Rng, y)
					y2, m2, d2 := y, m, d
					switch c.N(8) {
					case 0:
						y2 = -y
					case 1:
						m2 = d
						d2 = m
					case 2:
						d2 += c.In(-1, 1)
					case 3:
						m2 += c.In(-1, 1)
					case 4:
						y2 += c.In(-1, 1)
					case 5: // same sums and products, other components
						m2, d2 = m+1, d-1
					case 6:
						y2, m2 = y+1, m-12
					}
					f := strconv.Itoa
					c.Case("ymd", f(y), f(m), f(d), f(y2), f(m2), f(d2))
				}),
				[]Task{{"packed days", func(c *Ctx) {
					// what one component has more, another has less, as often as a place value says
					f := strconv.Itoa
					for _, v := range [][3]int{{2004, 6, 11}, {0, 1, 1}, {-44, 3, 15}, {9999, 12, 31}, {-9999, 1, 1}} {
						for _, b := range placeValues {
							for _, k := range []int{1, -1, 2, 12} {
								for _, e := range [][3]int{{0, k, -k * b}, {k, -k * b, 0}, {k, 0, -k * b}, {0, k, k * b}, {k, k * b, 0}, {k, 0, k * b},
									{k * b, 0, 0}, {0, k * b, 0}, {0, 0, k * b}} {
									c.Case("ymd", f(v[0]), f(v[1]), f(v[2]), f(v[0]+e[0]), f(v[1]+e[1]), f(v[2]+e[2]))
								}
							}
						}
						for _, p := range [][3]int{{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
							c.Case("ymd", f(v[0]), f(v[1]), f(v[2]), f(v[p[0]]), f(v[p[1]]), f(v[p[2]]))
						}
					}
				}}})
		}})

	// ---------------------------------------------------------------- C22
	register(&Prop{ID: "C22", Exhaust: true, Assume: []string{assumeGo},
		Rule:  "every month of every year -9999..9999, as numbers and as string, each asked twice; months -100..200 of a range of years; strings of every other kind; decided when the number of days or the error was compared with the reference calendar",
		Kinds: map[string]Handler{"numbers": checkDaysInMonth, "string": checkDaysInMonthString, "wide": checkDaysWide},
		Plan: func(tier string) []Task {
			return concat(
				yearTasks("all months", -9999, 9999, 100, func(c *Ctx, y int) {
					f := strconv.Itoa
					for m := 1; m <= 12; m++ {
						c.Case("numbers", f(y), f(m))
						c.Case("string", ym(y, m), f(y), f(m))
					}
					for m := -20; m <= 40; m++ {
						if m < 1 || m > 12 {
							if y%10 == 0 || m == 0 || m == 13 || m == -1 {
								c.Case("numbers", f(y), f(m))
							}
							if m >= 0 && (y%10 == 0 || m == 0 || m == 13) {
								c.Case("string", ym(y, m), f(y), f(m))
							}
						}
					}
				}),
				[]Task{{"odd months", func(c *Ctx) {
					f := strconv.Itoa
					for _, y := range []int{-9999, -4, -1, 0, 1, 4, 100, 400, 1900, 2000, 2004, 2023, 9999} {
						for m := -100; m <= 200; m++ {
							c.Case("numbers", f(y), f(m))
						}
						for _, m := range []int{math.MaxInt, math.MinInt, math.MinInt32, math.MaxInt32, wide(1 << 31), wide(1<<32 + 2), wide(1<<32 + 12), 256 + 2, 65536 + 6} {
							c.Case("numbers", f(y), f(m))
						}
					}
					c.Case("string", "-0000-02", "0", "2")
				}}, {"not a month", func(c *Ctx) {
					for _, s := range []string{"", "-", "--", "---", "2004", "-2004", "2004-", "-2004-", "-02", "2004-02-01", "-2004-02-01", "2004-02-", "2004--02", "abcd-02", "2004-ab", "2004-0X", "200X-02", "2004/02", "200402", "2004-02Z", "x2004-02", "2004-02x", "-x004-02", "..", "2004-..", "/", "2004-02/2004-03", "--2004-02", "2004-June", "2004.5-02", "2004-2.5", "2004-00", "2004-13", "2004-99", "-2004-00", "-2004-13", "0000-00", "2004-02-29-01", "2004 02", "2004-02 29"} {
						c.Case("string", s)
					}
				}}},
				randTasks("years beyond", scale(tier, 60000, 20), func(c *Ctx) {
					// whole multiples of powers of two away from a usual year, or anything
					y := int64(c.In(-9999, 9999))
					switch c.N(4) {
					case 0, 1:
						y += int64(c.In(-9, 9)) << uint(c.In(13, 62))
					case 2:
						y += int64(c.In(-9, 9)) * []int64{10000, 100000, 1000000, 1000000000}[c.N(4)]
					default:
						y = int64(c.U64()) >> uint(c.N(50))
					}
					if wide(y) == 0 || y > -10000 && y < 10000 {
						return
					}
					ys, ms := strconv.Itoa(wide(y)), strconv.Itoa(c.In(0, 13))
					c.Case("wide", ys, ms)
					c.Case("string", ys+"-"+ms, ys, ms, "wide")
				}),
				randTasks("not a month", scale(tier, 100000, 20), func(c *Ctx) {
					s := c.Pick(genDateTime(c.Rng), genInterval0(c.Rng), genSet(c.Rng), genQualified(c.Rng), genSub(c.Rng), ymd(genPosYear(c.Rng), 2, c.In(1, 28)), ymd(-1-genPosYear(c.Rng)%9999, 2, 11), ys(genYear(c.Rng)), "Y"+ys(genYear(c.Rng)), genExt(c.Rng))
					c.Case("string", s)
				}))
		}})

	// ---------------------------------------------------------------- C23
	register(&Prop{ID: "C23", Assume: []string{assumeGo},
		Rule:  "instants at every year's boundaries -9999..9999 and random ones with nanoseconds, in zones of every hour and many odd offsets; timestamps of any 64-bit value; decided when seconds, datetime, other fields and the original were compared",
		Kinds: map[string]Handler{"time": checkTime, "ts": checkTimestampJSON},
		Plan: func(tier string) []Task {
			f := func(c *Ctx, sec int64, ns int, off int) {
				c.Case("time", strconv.FormatInt(sec, 10), strconv.Itoa(ns), strconv.Itoa(off))
			}
			off := func(r *Rng) int {
				switch r.N(4) {
				case 0:
					return 0
				case 1:
					return r.In(-14, 14) * 3600
				case 2:
					return r.In(-56, 56) * 900
				}
				return r.In(-86399, 86399)
			}
			ns := func(r *Rng) int { return []int{0, 0, 1, 500000000, 999999999, r.N(1000000000)}[r.N(6)] }
			return concat(
				yearTasks("every year", -9998, 9999, 100, func(c *Ctx, y int) {
					t := ref.Unix(y, 1, 1, 0, 0, 0)
					for _, d := range []int64{-1, 0, 1} {
						f(c, t+d, ns(c.Rng), 0)
						f(c, t+d, ns(c.Rng), off(c.Rng))
					}
				}),
				[]Task{{"epoch", func(c *Ctx) {
					for s := -5000; s <= 5000; s++ {
						f(c, int64(s), ns(c.Rng), off(c.Rng))
					}
					for h := -23; h <= 23; h++ {
						for _, s := range []int64{0, -1, 1, 86399, -86400, 951782400, -62135596800, -62167219200} {
							f(c, s, 0, h*3600)
							f(c, s, 999999999, h*3600+1800)
						}
					}
				}}},
				randTasks("instants", scale(tier, 150000, 30), func(c *Ctx) { f(c, anInstant(c.Rng), ns(c.Rng), off(c.Rng)) }),
				randTasks("far instants", scale(tier, 20000, 30), func(c *Ctx) {
					f(c, int64(c.U64())>>uint(c.In(3, 40)), ns(c.Rng), off(c.Rng))
				}),
				randTasks("values", scale(tier, 60000, 30), func(c *Ctx) { c.Case("ts", strconv.FormatInt(anyInt64(c.Rng), 10)) }),
			)
		}})

	// ---------------------------------------------------------------- C24
	register(&Prop{ID: "C24", Assume: []string{assumeGo},
		Rule:  "for every year -9999..9999: its months and (quick: sampled, thorough: all) days within it and its seasons, quarters, quadrimesters, halves, masks, significant-digit forms; consecutive days, months, years, quarters, quadrimesters, halves, decades and centuries; notations of the same thing; random members in sets, endpoints in intervals, dates in their masks and qualifications; decided when both parse and bounds were compared",
		Kinds: map[string]Handler{"within": checkWithin, "tile": checkTile, "same": checkSame},
		Plan: func(tier string) []Task {
			w := func(c *Ctx, a, b string) { c.Case("within", a, b) }
			t := func(c *Ctx, a, b string) { c.Case("tile", a, b) }
			e := func(c *Ctx, a, b string) { c.Case("same", a, b) }
			return concat(
				yearTasks("every year", -9999, 9999, 200, func(c *Ctx, y int) {
					s := ys(y)
					for m := 1; m <= 12; m++ {
						w(c, ym(y, m), s)
						if m < 12 {
							t(c, ym(y, m), ym(y, m+1))
						}
						if y >= 0 {
							w(c, ym(y, m), fmt.Sprintf("%s-%d", s, 33+(m-1)/3))
							w(c, ym(y, m), fmt.Sprintf("%s-%d", s, 37+(m-1)/4))
							w(c, ym(y, m), fmt.Sprintf("%s-%d", s, 40+(m-1)/6))
							e(c, ym(y, m), ym(y, m)+"-XX")
						}
						n := ref.Dim(y, m)
						for d := 1; d <= n; d++ {
							if !c.Thorough() && d != 1 && d != n && d != n-1 && (d+m+abs(y))%11 != 0 {
								continue
							}
							w(c, ymd(y, m, d), ym(y, m))
							if d < n {
								t(c, ymd(y, m, d), ymd(y, m, d+1))
							} else if m < 12 {
								t(c, ymd(y, m, d), ymd(y, m+1, 1))
							}
						}
					}
					if y < 9999 {
						t(c, s, ys(y+1))
						t(c, ym(y, 12), ym(y+1, 1))
						t(c, ymd(y, 12, 31), ymd(y+1, 1, 1))
					}
					e(c, s, "Y"+s)
					a, sg := abs(y), ""
					if y < 0 {
						sg = "-"
					}
					e(c, s, fmt.Sprintf("Y%s%dE0", sg, a))
					if a%10 == 0 && a > 0 {
						e(c, s, fmt.Sprintf("Y%s%dE1", sg, a/10))
					}
					if y >= 0 {
						e(c, s, s+"-XX")
						e(c, s, s+"-XX-XX")
						for k := 1; k <= 3; k++ {
							e(c, s+"S"+strconv.Itoa(k), s[:4-k]+strings.Repeat("X", k))
							w(c, s, s[:4-k]+strings.Repeat("X", k))
						}
						w(c, s[:3]+"X", s[:2]+"XX")
						w(c, s[:2]+"XX", s[:1]+"XXX")
						// halves within the year, quarters within halves, and all of them side by side
						for g := 33; g <= 41; g++ {
							w(c, fmt.Sprintf("%s-%d", s, g), s)
						}
						for q := 0; q < 4; q++ {
							w(c, fmt.Sprintf("%s-%d", s, 33+q), fmt.Sprintf("%s-%d", s, 40+q/2))
							if q < 3 {
								t(c, fmt.Sprintf("%s-%d", s, 33+q), fmt.Sprintf("%s-%d", s, 34+q))
							} else if y < 9999 {
								t(c, fmt.Sprintf("%s-%d", s, 36), fmt.Sprintf("%s-%d", ys(y+1), 33))
							}
						}
						t(c, s+"-37", s+"-38")
						t(c, s+"-38", s+"-39")
						t(c, s+"-40", s+"-41")
						if y < 9999 {
							t(c, s+"-39", ys(y+1)+"-37")
							t(c, s+"-41", ys(y+1)+"-40")
						}
						for g := 0; g < 4; g++ {
							e(c, fmt.Sprintf("%s-%d", s, 21+g), fmt.Sprintf("%s-%d", s, 25+g))
							e(c, fmt.Sprintf("%s-%d", s, 21+g), fmt.Sprintf("%s, %s", []string{"Spring", "Summer", "Fall", "Winter"}[g], s))
						}
						if y%10 == 0 && y < 9990 {
							t(c, s[:3]+"X", ys(y + 10)[:3]+"X")
						}
						if y%100 == 0 && y < 9900 {
							t(c, s[:2]+"XX", ys(y + 100)[:2]+"XX")
						}
					}
					for k := 1; k <= 4; k++ {
						w(c, s, fmt.Sprintf("%sS%d", s, k))
						e(c, fmt.Sprintf("%sS%d", s, k), fmt.Sprintf("Y%sS%d", s, k))
						if k > 1 {
							w(c, fmt.Sprintf("%sS%d", s, k-1), fmt.Sprintf("%sS%d", s, k))
						}
					}
				}),
				randTasks("masks", scale(tier, 200000, 20), func(c *Ctx) {
					y := genYear(c.Rng)
					m, d := genMD(c.Rng, y)
					switch c.N(3) {
					case 0:
						d = 0
					case 1:
						if c.P(1, 2) {
							m, d = 0, 0
						}
					}
					s := ys(y)
					if m > 0 {
						s = ym(y, m)
					}
					if d > 0 {
						s = ymd(y, m, d)
					}
					g := generalise(c.Rng, y, m, d)
					if g != s {
						w(c, s, g)
					}
					e(c, s, qualify(c.Rng, s))
				}),
				randTasks("sets", scale(tier, 60000, 20), func(c *Ctx) {
					s := genSet(c.Rng)
					ms := strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune("[]{},", r) })
					for _, m := range ms {
						for _, d := range strings.Split(m, "..") {
							if d != "" && !strings.Contains(s, ".."+"]") && !strings.Contains(s, "..}") && !strings.HasPrefix(s[1:], "..") {
								w(c, d, s)
							}
						}
					}
				}),
				randTasks("intervals", scale(tier, 100000, 20), func(c *Ctx) {
					a, b := genSide(c.Rng), genSide(c.Rng)
					if !c.P(1, 3) {
						y := genPosYear(c.Rng)
						a, b = genDateY(c.Rng, y), genDateY(c.Rng, clampYear(y+c.In(0, 20)))
					}
					if inOrderPair(a, b) {
						w(c, a, a+"/"+b)
						w(c, b, a+"/"+b)
						w(c, a+"/"+b, a+"/"+b)
					}
				}),
				randTasks("date and time", scale(tier, 60000, 20), func(c *Ctx) {
					y := clampYear(genYear(c.Rng))
					if y == 9999 || y == -9999 {
						y /= 2
					}
					m, d := genMD(c.Rng, y)
					day := ymd(y, m, d)
					sec := ref.Unix(y, m, d, c.N(24), c.N(60), c.N(60))
					u := strings.TrimSuffix(ref.RFC3339(sec), "Z")
					w(c, u, day)
					e(c, u, u+"Z")
					h, mi := c.N(24), c.N(60)
					p := strings.TrimSuffix(ref.RFC3339(sec+int64(h*3600+mi*60)), "Z")
					q := strings.TrimSuffix(ref.RFC3339(sec-int64(h*3600+mi*60)), "Z")
					e(c, u, fmt.Sprintf("%s+%02d:%02d", p, h, mi))
					e(c, u, fmt.Sprintf("%s-%02d:%02d", q, h, mi))
					if mi == 0 {
						e(c, u, fmt.Sprintf("%s+%02d", p, h))
					}
				}))
		}})
}

var badTimestamps = []string{"1.5", "-0.5", "1e3", "1E3", "true", "false", "[]", "{}", "[1]", `"abc"`, `""`, `"1.5"`, `"1e3"`, `"12x"`, `"x12"`, `"1970-01-01T00:00:00Z"`, "9223372036854775808", "-9223372036854775809", `"9223372036854775808"`, "1e400", "18446744073709551616", `"true"`, `"null"`, `"0x10"`, `"1 2"`, `"--1"`, `"-"`}

// nearby makes an expression which shares, touches or follows another's time.
func nearby(r *Rng, s string) string {
	e := ref.Classify(s)
	if e.Parse != ref.Yes || r.P(1, 6) {
		return mixed(r)
	}
	i := []int{0, 3}[r.N(2)]
	if e.C[i].Kind != ref.KTime {
		i = 3 - i
	}
	if e.C[i].Kind != ref.KTime {
		return mixed(r)
	}
	sec := e.C[i].Sec
	switch r.N(5) {
	case 0:
		sec += int64(r.In(-1, 1))
	case 1:
		sec += int64(r.In(-2, 2)) * 86400
	case 2:
		sec += int64(r.In(-400, 400)) * 86400
	}
	y, m, d := ref.CivilOf(floorDay(sec))
	if y < -9998 || y > 9998 {
		return mixed(r)
	}
	switch r.N(9) {
	case 0:
		return ys(y)
	case 1:
		return ym(y, m)
	case 2, 3:
		return ymd(y, m, d)
	case 4:
		return strings.TrimSuffix(ref.RFC3339(sec), "Z") + r.Pick("", "Z")
	case 5:
		return ymd(y, m, d) + "/" + r.Pick("..", "", genDate(r), ymd(y+1, m, 1))
	case 6:
		return r.Pick("..", "", genDate(r), ymd(y-1, m, 1)) + "/" + ymd(y, m, d)
	case 7:
		return "[" + ymd(y, m, d) + "," + ys(y) + "]"
	}
	return ymd(y, m, d) + q1(r)
}

func poolTriples(pool []string) []Task {
	var ts []Task
	for _, a := range pool {
		a := a
		ts = append(ts, Task{"pool triples", func(c *Ctx) {
			for _, b := range pool {
				for _, d := range pool {
					c.Case("between", a, b, d)
					if c.P(1, 4) {
						c.Case("transitive", a, b, d)
					}
				}
			}
		}})
	}
	return ts
}

func inOrderPair(a, b string) bool {
	x, y := ref.Classify(a), ref.Classify(b)
	return x.Parse == ref.Yes && y.Parse == ref.Yes && x.C[0].Kind == ref.KTime && x.C[3].Kind == ref.KTime && y.C[0].Kind == ref.KTime && y.C[3].Kind == ref.KTime &&
		x.C[0].Sec <= y.C[0].Sec && x.C[3].Sec <= y.C[3].Sec
}

// shortStringsN is every string of up to n characters of the EDTF alphabet.
func shortStringsN(n int, p func(c *Ctx, s string)) []Task {
	ab := "019X-/.?%YESTZ:,[]{} ou"
	var ts []Task
	for i := 0; i < len(ab); i++ {
		i := i
		ts = append(ts, Task{"short strings", func(c *Ctx) {
			var rec func(s []byte)
			rec = func(s []byte) {
				p(c, string(s))
				if len(s) == n {
					return
				}
				for j := 0; j < len(ab); j++ {
					rec(append(s, ab[j]))
				}
			}
			rec(append(make([]byte, 0, 8), ab[i]))
		}})
	}
	return ts
}

// wide is n, or what is left of it where an int has 32 bits.
func wide(n int64) int { return int(n) }

// placeValues are those with which year, month and day may be packed into a number.
var placeValues = []int{1, 8, 10, 12, 13, 16, 28, 29, 30, 31, 32, 33, 50, 64, 99, 100, 101, 128, 256, 365, 366, 372, 384, 400, 416, 500, 512,
	1000, 1024, 4096, 10000, 65536, 1 << 24, wide(1 << 32)}
