package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
)

// ------------------------------------------------------------- C01: growth

// longForm makes strings of about n bytes.
type longForm struct {
	name string
	f    func(n int) string
}

// members joins n bytes' worth of what f gives for 0, 1, 2...
func members(open, sep, shut string, n int, f func(i int) string) string {
	var sb strings.Builder
	sb.WriteString(open)
	for i := 0; sb.Len() < n; i++ {
		if i > 0 {
			sb.WriteString(sep)
		}
		sb.WriteString(f(i))
	}
	sb.WriteString(shut)
	return sb.String()
}

func scatter(i int) int { return int(hash64(strconv.Itoa(i)) % 10000) }

var longForms = []longForm{
	{"digits", func(n int) string { return strings.Repeat("9", n) }},
	{"Y digits", func(n int) string { return "Y" + strings.Repeat("9", n) }},
	{"Y -digits", func(n int) string { return "Y-" + strings.Repeat("7", n) }},
	{"Y zeros", func(n int) string { return "Y" + strings.Repeat("0", n) + "1" }},
	{"exponent digits", func(n int) string { return "Y1E" + strings.Repeat("9", n) }},
	{"exponent zeros", func(n int) string { return "Y1E" + strings.Repeat("0", n) + "2" }},
	{"mantissa", func(n int) string { return "Y" + strings.Repeat("1", n) + "E2" }},
	{"mantissa zeros", func(n int) string { return "Y" + strings.Repeat("0", n) + "12E2" }},
	{"mantissa of zeros", func(n int) string { return "Y-" + strings.Repeat("0", n) + "E2" }},
	{"mantissa and exponent", func(n int) string { return "Y" + strings.Repeat("8", n/2) + "E" + strings.Repeat("8", n/2) }},
	{"mantissa significant", func(n int) string { return "Y" + strings.Repeat("1", n) + "E2S3" }},
	{"Y significant", func(n int) string { return "Y" + strings.Repeat("3", n) + "S4" }},
	{"significant digits", func(n int) string { return "1950S" + strings.Repeat("1", n) }},
	{"significant zeros", func(n int) string { return "1950S" + strings.Repeat("0", n) + "2" }},
	{"set of one year", func(n int) string { return members("[", ",", "]", n, func(int) string { return "2004" }) }},
	{"set ascending", func(n int) string { return members("[", ",", "]", n, func(i int) string { return ys(i % 10000) }) }},
	{"set descending", func(n int) string { return members("{", ",", "}", n, func(i int) string { return ys(9999 - i%20000) }) }},
	{"set scattered", func(n int) string {
		return members("{", ",", "}", n, func(i int) string { return ymd(scatter(i)-5000, 1+i%12, 1+i%28) })
	}},
	{"set of months", func(n int) string {
		return members("[", ",", "..]", n, func(i int) string { return ym(scatter(i), 1+i%12) })
	}},
	{"set of ranges", func(n int) string {
		return members("[..", ",", "]", n, func(i int) string { return ys(scatter(i)%5000) + ".." + ys(5000+scatter(i)%5000) })
	}},
	{"set of ranges and days", func(n int) string {
		return members("{", ",", "..2005}", n, func(i int) string { return "2004-06-11..2005" })
	}},
	{"set, last bad", func(n int) string {
		return members("[", ",", ",2021-02-30]", n, func(i int) string { return ys(scatter(i)) })
	}},
	{"set unclosed", func(n int) string { return members("[", ",", "", n, func(i int) string { return ys(scatter(i)) }) }},
	{"set of one kind", func(n int) string { return members("[", ", ", "]", n, func(int) string { return "2004" }) }},
	{"set of open ranges", func(n int) string { return members("[", ",", "]", n, func(i int) string { return "1984.." }) }},
	{"set of reversed ranges", func(n int) string {
		return members("{", ",", "}", n, func(i int) string { return ys(9999-i%9999) + ".." + ys(-(i % 9999)) })
	}},
	{"year and junk", func(n int) string { return "2004" + strings.Repeat("\x80\xe2\x28", n/3) }},
	{"interval and zeros", func(n int) string { return "2004/" + strings.Repeat("0", n) + "2005" }},
	{"umlauts", func(n int) string { return strings.Repeat("ä2004", n/6) }},
	{"X", func(n int) string { return strings.Repeat("X", n) }},
	{"spaces after", func(n int) string { return "2004-06-11" + strings.Repeat(" ", n) }},
	{"season spaces", func(n int) string { return "Spring," + strings.Repeat(" ", n) + "2004" }},
	{"qualifiers", func(n int) string { return strings.Repeat("?2004-", n/6) }},
	{"years and slashes", func(n int) string { return strings.Repeat("2004/", n/5) }},
	{"dots", func(n int) string { return "[" + strings.Repeat(".", n) + "]" }},
	{"bad bytes", func(n int) string { return strings.Repeat("\xff", n) }},
	{"hyphens", func(n int) string { return strings.Repeat("-", n) + "2004" }},
	{"dates joined", func(n int) string { return strings.Repeat("2004-06-11", n/10) }},
	{"times", func(n int) string { return "2004-06-11T" + strings.Repeat("10:20:30+01:00", n/14) }},
	{"brackets", func(n int) string { return strings.Repeat("[", n/2) + strings.Repeat("]", n/2) }},
}

// long makes a kind of case of strings too long to be written down: a form and
// its size, and maybe strings before and after.
func long(h Handler) Handler {
	return func(c *Ctx, a []string) bool {
		f := longFormOf(a[0])
		n, err := strconv.Atoi(a[1])
		if f == nil || err != nil {
			panic("no such long form: " + a[0])
		}
		return h(c, append([]string{f.f(n)}, a[2:]...))
	}
}

// longTasks asks about every long form in sizes just above those at which a
// limit, a buffer or a shortcut could be.
func longTasks(tier string, more ...string) (ts []Task) {
	sizes := []int{250, 520, 1030, 2060, 4100, 5000, 8200, 10010, 16400, 33000, 66000, 100010}
	if tier == "thorough" {
		sizes = append(sizes, 132000, 263000, 525000, 1050000)
	}
	for i := len(sizes) - 1; i >= 0; i-- {
		n := strconv.Itoa(sizes[i])
		for j := range longForms {
			f := longForms[j].name
			ts = append(ts, Task{"long", func(c *Ctx) { c.Case("long", append([]string{f, n}, more...)...) }})
		}
	}
	return
}

func longFormOf(name string) *longForm {
	for i := range longForms {
		if longForms[i].name == name {
			return &longForms[i]
		}
	}
	return nil
}

// askLong is what growth and cost measure.
var askLong = []struct {
	name string
	f    func(s string)
}{
	{"IsValid", func(s string) { parser.IsValid(s) }},
	{"Matches", func(s string) { parser.Matches(s) }},
	{"ParseString", func(s string) { parser.ParseString(s) }},
	{"DeriveRanges", func(s string) { unix.DeriveRanges(s) }},
	{"IsBefore", func(s string) { cmp.IsBefore(s, "2004"); cmp.IsBefore("2004", s) }},
}

// threadCPU is the processor time this thread has had, which other load does not stretch.
func threadCPU() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(1, &u) // RUSAGE_THREAD
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

const (
	growSmall = 1 << 13
	growBig   = 1 << 19
	// growMost is how many times as long as its length says a call may take.
	// Caches which no longer hold the string make for a factor of two; a square
	// law for one of up to 64.
	growMost = 4
)

// checkGrowth: 64 times the length takes 64 times as long, give or take a factor.
func checkGrowth(c *Ctx, a []string) bool {
	form := longFormOf(a[0])
	small, big := form.f(growSmall), form.f(growBig)
	times := float64(len(big)) / float64(len(small))
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	for _, st := range askLong {
		// several calls at once, as the clock of a thread may tick slowly
		measure := func(s string, n int) time.Duration {
			t := threadCPU()
			for i := 0; i < n; i++ {
				st.f(s)
			}
			return (threadCPU() - t) / time.Duration(n)
		}
		suspicious := func(ts, tb time.Duration) bool {
			return tb > time.Second && float64(tb) > growMost*times*float64(ts)
		}
		tb := measure(big, 1)
		if tb > time.Second {
			ts := measure(small, 5)
			// again, with more care: the longest for the short, the shortest for the long
			for i := 0; i < 4 && suspicious(ts, tb); i++ {
				if t := measure(small, 20); t > ts {
					ts = t
				}
				if t := measure(big, 1); t < tb {
					tb = t
				}
			}
			if suspicious(ts, tb) {
				c.Fail("growth", "%s: %s of %d bytes takes %v of processor time, of %d bytes (%.0f times as many) %v", a[0], st.name, len(small), ts, len(big), times, tb)
			}
			if ts > 0 {
				k := int64(100 * float64(tb) / float64(ts) / times)
				if k > c.counts["largest growth of time beyond that of the length, percent"] {
					c.counts["largest growth of time beyond that of the length, percent"] = k
				}
			}
		}
		if k := int64(tb / time.Millisecond); k > c.counts["largest processor time of a long call, ms"] {
			c.counts["largest processor time of a long call, ms"] = k
		}
		c.Count("growths measured")
	}
	return true
}

// ------------------------------------------------------------- C01: what is kept

// liveBytes is what the process holds on to.
func liveBytes() uint64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	debug.FreeOSMemory()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc + m.StackInuse
}

// parts are few, so that tables the library may fill with what it knows of a
// date, a month or a side fill up soon; the strings made of them are many.
type parts struct{ dates, sides, missing, times, offsets []string }

func newParts(r *Rng) *parts {
	p := &parts{}
	for i := 0; i < 120; i++ {
		p.dates = append(p.dates, genDate(r))
		p.times = append(p.times, genTime(r))
		p.offsets = append(p.offsets, genOffset(r))
	}
	for i := 0; i < 500; i++ {
		p.sides = append(p.sides, genSide(r))
		p.missing = append(p.missing, genNoDay(r))
	}
	return p
}

func among(r *Rng, ss []string) string { return ss[r.N(len(ss))] }

// keptForms are families of distinct strings; what is kept of each string adds up.
var keptForms = map[string]func(r *Rng, p *parts) string{
	"sets": func(r *Rng, p *parts) string {
		s := among(r, p.dates)
		for i := 0; i < 5; i++ {
			s += "," + among(r, p.dates)
		}
		return r.Pick("["+s+"]", "{"+s+"}")
	},
	"intervals": func(r *Rng, p *parts) string { return among(r, p.sides) + "/" + among(r, p.sides) },
	"date-times": func(r *Rng, p *parts) string {
		d := among(r, p.dates)
		for len(strings.TrimPrefix(d, "-")) != 10 {
			d = among(r, p.dates)
		}
		return d + "T" + among(r, p.times) + among(r, p.offsets)
	},
	"invalid": func(r *Rng, p *parts) string {
		return among(r, p.sides) + r.Pick(" ", "/", "-", "") + strconv.FormatUint(r.U64(), 36) + strings.Repeat("x", 40)
	},
	"years": func(r *Rng, p *parts) string {
		return "Y" + strconv.FormatUint(r.U64(), 10) + strconv.FormatUint(r.U64(), 10) + r.Pick("", "E5", "S3", "E999")
	},
	"non-existent": func(r *Rng, p *parts) string { return among(r, p.missing) + "/" + among(r, p.missing) },
}

// checkKept: calls leave nothing behind. The library may fill bounded tables;
// what is kept may not go on growing with the number of calls.
func checkKept(c *Ctx, a []string) bool {
	gen := keptForms[a[0]]
	n, _ := strconv.Atoi(a[1])
	rng := &Rng{seedOf("kept", c.run.Seed, a[0])}
	pool := newParts(rng)
	phase := func() {
		for i := 0; i < n; i++ {
			s := gen(rng, pool)
			switch i % 4 {
			case 0:
				parser.IsValid(s)
				parser.Matches(s)
			case 1:
				unix.DeriveRanges(s)
			case 2:
				cmp.IsBefore(s, s)
			}
			parser.ParseString(s)
		}
	}
	phase()
	var kept [3]int64
	for try := 0; ; try++ {
		grown := true
		for k := range kept {
			before := liveBytes()
			phase()
			kept[k] = int64(liveBytes()) - int64(before)
			// 24 bytes: less than the header of a string in a map takes
			if kept[k] < int64(n)*24 {
				grown = false
				break
			}
		}
		if !grown {
			break
		}
		if try == 1 {
			c.Fail("kept", "%s: of %d calls with new strings each, after as many to begin with, the process keeps %d bytes, then %d, then %d more", a[0], n, kept[0], kept[1], kept[2])
			break
		}
	}
	c.CountN("calls after which what is kept was measured", int64(2*n))
	if k := kept[0]; k > c.counts["largest growth of what is kept, bytes"] {
		c.counts["largest growth of what is kept, bytes"] = k
	}
	return true
}

// checkGoroutines: a call leaves no goroutine behind.
func checkGoroutines(c *Ctx, a []string) bool {
	before := runtime.NumGoroutine()
	for i := 0; i < 3000; i++ {
		answerAll(c, mixed(c.Rng))
	}
	for _, f := range longForms {
		answerAll(c, f.f(2000))
	}
	var after int
	for i := 0; i < 100; i++ {
		if after = runtime.NumGoroutine(); after <= before+4 {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	c.Fail("goroutines", "there were %d goroutines before %d calls and there are %d after", before, 3000, after)
	return true
}

func keptPlan(c *Ctx) {
	n := 40000
	if c.Thorough() {
		n = 60000
	}
	for _, k := range []string{"sets", "intervals", "date-times", "invalid", "years", "non-existent"} {
		c.Case("kept", k, fmt.Sprint(n))
	}
	c.Case("goroutines")
}

func growthTasks() (ts []Task) {
	for _, f := range longForms {
		name := f.name
		ts = append(ts, Task{"growth", func(c *Ctx) { c.Case("growth", name) }})
	}
	return ts
}
