package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/ref"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
)

// ------------------------------------------------------------- C17: long histories

// brief is the better part of outcome, for processes which ask a lot.
func brief(s string) string {
	defer coldProgress.Add(1)
	var sb strings.Builder
	l, f, err := parser.Matches(s)
	fmt.Fprintln(&sb, "valid", parser.IsValid(s), "matches", l, f, errText(err))
	d, err := parser.ParseString(s)
	if err != nil {
		fmt.Fprintln(&sb, "parse", errKind(err), err)
	} else {
		b, jerr := json.Marshal(d)
		fmt.Fprintln(&sb, "parse", string(b), jerr, d.String())
	}
	ok, r, err := unix.DeriveRanges(s)
	if r != nil {
		fmt.Fprintln(&sb, "unix", ok, rng(r))
	} else {
		fmt.Fprintln(&sb, "unix", ok, errText(err))
	}
	b, err := cmp.IsBefore(s, "1985-04")
	fmt.Fprintln(&sb, "before", b, errText(err))
	if len(s) < 12 {
		n, err := calendar.DaysInMonthWithString(s)
		fmt.Fprintln(&sb, "days", n, errText(err))
		y, err := common.YMDFromString(s)
		fmt.Fprintln(&sb, "ymd", y, errText(err))
	}
	return sb.String()
}

func flipCase(s string) string {
	return strings.Map(func(c rune) rune {
		switch {
		case c >= 'a' && c <= 'z':
			return c - 32
		case c >= 'A' && c <= 'Z':
			return c + 32
		}
		return c
	}, s)
}

// longRepertoire is n strings, nearly all distinct, in which each has neighbours
// that a careless table might take for it.
func longRepertoire(seed string, n int) []string {
	if strings.HasPrefix(seed, "sweep") {
		return sweepRepertoire(n)
	}
	r := &Rng{seedOf("long", seed)}
	var ss []string
	for len(ss) < n {
		s := mixed(r)
		ss = append(ss, s)
		for k := r.N(4); k > 0; k-- {
			v := s
			switch r.N(16) {
			case 0:
				v = flipCase(s)
			case 1:
				v = s + r.Pick(" ", "\n", "\t", "\x00", "0", "Z", "?", "/", "/..")
			case 2:
				v = r.Pick(" ", "\n", "-", "+", "Y", "/", "../", "0") + s
			case 3:
				v = strings.TrimPrefix(s, "-")
			case 4:
				v = strings.NewReplacer("?", "~", "~", "%", "%", "?").Replace(s)
			case 5:
				v = strings.NewReplacer("[", "{", "]", "}", "{", "[", "}", "]").Replace(s)
			case 6:
				if i := strings.IndexByte(s, '/'); i >= 0 {
					v = s[i+1:] + "/" + s[:i]
				}
			case 7:
				// two characters change places: the sums of characters agree
				if len(s) > 2 {
					i := r.N(len(s) - 1)
					v = s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:]
				}
			case 8:
				if len(s) > 1 {
					v = s[:r.In(1, len(s)-1)]
				}
			case 9:
				v = strings.ReplaceAll(s, "-", "")
			case 10:
				v = strings.ReplaceAll(s, "X", "0")
			case 11:
				b := []byte(s)
				for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
				v = string(b)
			default:
				v = editOf(r, s)
			}
			ss = append(ss, v)
		}
	}
	return ss[:n]
}

// sweepRepertoire is n strings of the same form, more of them than small
// tables hold: every month, every year, every day.
func sweepRepertoire(n int) (ss []string) {
	add := func(s string) bool {
		ss = append(ss, s)
		return len(ss) < n
	}
	for _, sign := range []int{1, -1} {
		for y := 0; y <= 9999; y++ {
			for m := 1; m <= 12; m++ {
				if (sign == 1 || y > 0) && !add(ym(sign*y, m)) {
					return
				}
			}
		}
	}
	for y := -9999; y <= 9999; y++ {
		if !add(ys(y)) {
			return
		}
	}
	for y := 1600; y <= 2400; y++ {
		for m := 1; m <= 12; m++ {
			for d := 1; d <= ref.Dim(y, m); d++ {
				if !add(ymd(y, m, d)) {
					return
				}
			}
		}
	}
	return
}

// coldLong asks a process about very many strings and about them again.
func coldLong(job coldJob) (res coldResult) {
	ss := longRepertoire(job.Seed, job.N)
	n := len(ss)
	res.Hashes = make([]uint64, n)
	asked := make([]bool, n)
	order := orderOf(n, job.Order, job.Seed, 0)
	var mu sync.Mutex
	ask := func(i int, when string) {
		if h := hash64(brief(ss[i])); h != res.Hashes[i] {
			mu.Lock()
			res.NBad++
			if len(res.Bad) < 10 {
				res.Bad = append(res.Bad, fmt.Sprintf("%q, asked again %s: %s", head(ss[i], 200), when, head(brief(ss[i]), 600)))
			}
			mu.Unlock()
		}
	}
	r := &Rng{seedOf("again", job.Seed)}
	// results and errors which are kept while the rest is asked
	type keep struct {
		s    string
		h    held
		errs []error
		msgs []string
	}
	var kept []*keep
	for k, i := range order {
		if k%50 == 7 {
			x := &keep{s: ss[i]}
			d, err := parser.ParseString(ss[i])
			if err == nil {
				x.h.d = append(x.h.d, d)
			} else {
				x.errs = append(x.errs, err)
			}
			_, u, err := unix.DeriveRanges(ss[i])
			x.h.r = u
			if err != nil {
				x.errs = append(x.errs, err)
			}
			for _, e := range x.errs {
				x.msgs = append(x.msgs, e.Error())
			}
			x.h.snap = x.h.render()
			kept = append(kept, x)
		}
		if !asked[i] {
			res.Hashes[i] = hash64(brief(ss[i]))
			asked[i] = true
			res.Calls++
		}
		if k > 0 && k%8 == 0 {
			// one from long before, or one from just before
			j := order[r.N(k)]
			if k%16 == 0 {
				j = order[k-1-r.N(bits(k)+1)%k]
			}
			ask(j, "after "+strconv.Itoa(k)+" others")
			res.Calls++
		}
	}
	defer func() {
		for _, x := range kept {
			now := x.h.render()
			for k, e := range x.errs {
				if e.Error() != x.msgs[k] {
					now += "; error " + e.Error() + ", was " + x.msgs[k]
				}
			}
			if now != x.h.snap && len(res.Changed) < 10 {
				res.Changed = append(res.Changed, fmt.Sprintf("%q: was %s and is now %s", head(x.s, 200), head(x.h.snap, 400), head(now, 400)))
			}
		}
	}()
	if job.G == 0 {
		for _, i := range orderOf(n, "shuffled", job.Seed, 1) {
			ask(i, "at the end")
			res.Calls++
		}
		return res
	}
	var wg sync.WaitGroup
	for g := 0; g < job.G; g++ {
		p := orderOf(n, "shuffled", job.Seed, 2+g)[:n/3]
		res.Calls += int64(len(p))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, i := range p {
				ask(i, "at the end, with others at once")
			}
		}()
	}
	wg.Wait()
	return res
}

// longVariants are processes which ask the same many strings in other orders.
func longVariants(seed string, n int) []variant {
	self, env := harnessBin(), cleanEnv()
	return []variant{
		{"long history", self, coldJob{Seed: seed, N: n, Long: true, Order: "same", Timeout: 600}, env, "/"},
		{"long history reversed", self, coldJob{Seed: seed, N: n, Long: true, Order: "reversed", Timeout: 600}, env, "/"},
		{"long history shuffled, at once", self, coldJob{Seed: seed, N: n, Long: true, Order: "shuffled", G: 8, Timeout: 600}, env, "/"},
	}
}

// ------------------------------------------------------------- C17: few strings, very often

// hammerGroups are strings of one form whose answers differ in the part which
// a memo of the last one, or of the last few, would give.
var hammerGroups = [][]string{
	{"2003-01", "2003-02"}, {"2003-02", "2004-02"}, {"1999", "2000"}, {"2004-06-11", "2004-06-12"}, {"2003-02-28", "2004-02-29", "2003-02-29"},
	{"-0004-02", "0004-02", "-0003-02"}, {"2003-21", "2003-24"}, {"2003-24", "2004-24"}, {"Spring, 2003", "Winter, 2003"}, {"2003-33", "2003-34", "2003-40"},
	{"198X", "19XX", "1XXX"}, {"2003-XX", "2004-XX"}, {"2004-0X-31", "2004-0X-30"}, {"190X-02-29", "196X-02-29"}, {"2003-02-XX", "2004-02-XX"}, {"2003-02-2X", "2004-02-2X"},
	{"1985-04-12T23:20:30Z", "1985-04-12T23:20:30+01", "1985-04-12T23:20:30-04:30"}, {"2004-06-11T00:00:00", "2004-06-12T00:00:00"},
	{"Y2004", "Y3004"}, {"Y2E3", "Y3E3"}, {"1950S2", "1960S3"}, {"Y-2004", "-2004"}, {"Y17E7", "Y18E7", "Y2E3"},
	{"[1667,1668]", "{1667,1668}", "[1667,1669]"}, {"[..1984]", "[1984..]"}, {"[1760-01,1760-02,1760-12..]", "[1760-01,1760-03,1760-11..]"},
	{"2004?", "2004~", "2004%", "2004"}, {"2004-06~-11", "2004?-06-11"}, {"?2004-06-~11", "2004-%06-11"},
	{"2004/2005", "2005/2006"}, {"2004-02/2005-02", "2005-02/2004-02"}, {"../2004", "2004/..", "/2004", "2004/"}, {"2004-06-~01/2004-06-~20", "2004-06-XX/2004-07-03"},
	{"2004-13", "2003-13"}, {"2003-02-30", "2003-02-31"}, {"Y20000", "Y30000"}, {"X999", "X998"}, {"garbage", "rubbish"}, {"..", ""}, {"open", "uuuu"},
}

// quick is a number for the answers to one string, cheap to make.
func quick(s string, which int) uint64 {
	h := uint64(14695981039346656037)
	u := func(n uint64) { h = (h ^ n) * 1099511628211; h ^= h >> 29 }
	str := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		u(uint64(len(s)))
	}
	fail := func(err error) {
		if err == nil {
			u(1)
		} else {
			str(err.Error())
		}
	}
	bit := func(b bool) {
		if b {
			u(2)
		} else {
			u(3)
		}
	}
	switch which {
	case 0:
		bit(parser.IsValid(s))
		l, f, err := parser.Matches(s)
		u(uint64(l))
		str(f)
		fail(err)
	case 1:
		ok, r, err := unix.DeriveRanges(s)
		bit(ok)
		fail(err)
		if r != nil {
			u(uint64(r.Outer.Start))
			u(uint64(r.Outer.End))
			u(uint64(r.Inner.Start))
			u(uint64(r.Inner.End))
		}
	case 2:
		b, err := cmp.IsBefore(s, "2003-09")
		bit(b)
		fail(err)
		n, err := calendar.DaysInMonthWithString(s)
		u(uint64(n))
		fail(err)
	case 3:
		y, err := common.YMDFromString(s)
		fail(err)
		if y != nil {
			u(uint64(y.Year))
			u(uint64(y.Month)<<8 | uint64(y.Day))
			t, err := common.TimeWithYMD(y, "12:34:56")
			fail(err)
			if t != nil {
				u(uint64(t.Unix()))
			}
		}
	case 4:
		x, err := common.StringRangeFromYMD(s)
		fail(err)
		if x != nil {
			u(uint64(x.Uncertain)<<32 | uint64(x.Approximate))
			u(uint64(x.Precision))
			for _, d := range []*common.StringDate{x.Start, x.End} {
				str(d.Year)
				str(d.Month)
				str(d.Day)
			}
		}
		if len(s) > 0 && s[0] == 'Y' {
			n, err := common.ParseExponentialNotation(s[1:])
			fail(err)
			u(uint64(n))
		}
	default:
		d, err := parser.ParseString(s)
		fail(err)
		if d == nil {
			break
		}
		str(d.EDTF)
		str(d.Feature)
		u(uint64(d.Level))
		for _, r := range []*edtf.DateRange{d.Start, d.End} {
			str(r.EDTF)
			for _, x := range []*edtf.Date{r.Lower, r.Upper} {
				str(x.DateTime)
				if x.Timestamp != nil {
					u(uint64(x.Timestamp.Unix()))
				}
				if x.YMD != nil {
					u(uint64(x.YMD.Year))
					u(uint64(x.YMD.Month)<<8 | uint64(x.YMD.Day))
				}
				u(uint64(x.Uncertain)<<32 | uint64(x.Approximate))
				u(uint64(x.Unspecified)<<32 | uint64(x.Precision))
				u(uint64(x.Inclusivity))
				bit(x.Open)
				bit(x.Unknown)
			}
		}
	}
	return h
}

// coldHammer has all goroutines ask about the same few strings all the time.
func coldHammer(job coldJob) (res coldResult) {
	r := &Rng{seedOf("hammer", job.Seed)}
	for g := 0; g < job.N; g++ {
		var ss []string
		if g < len(hammerGroups) {
			ss = hammerGroups[g]
		} else {
			s := genAny(r)
			ss = []string{s, nearby(r, s), nearby(r, s)}
		}
		const kinds = 8 // three of them ParseString
		want := make([][kinds]uint64, len(ss))
		for i, s := range ss {
			for k := range want[i] {
				want[i][k] = quick(s, k)
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		until := time.Now().Add(time.Duration(job.Hammer) * time.Millisecond)
		for w := 0; w < job.G; w++ {
			q := &Rng{r.U64()}
			wg.Add(1)
			go func() {
				defer wg.Done()
				var n int64
				for bad := 0; bad < 3 && (n%32 != 0 || time.Now().Before(until)); n++ {
					x := q.U64()
					i, k := int(x>>8%(1<<20))%len(ss), int(x>>40)%kinds
					if h := quick(ss[i], k); h != want[i][k] {
						bad++
						mu.Lock()
						res.NBad++
						if len(res.Bad) < 6 {
							res.Bad = append(res.Bad, fmt.Sprintf("%q, asked about all the time together with %q, had another answer than before; %s", ss[i], ss, head(brief(ss[i]), 300)))
						}
						mu.Unlock()
					}
				}
				coldProgress.Add(1)
				mu.Lock()
				res.Calls += n
				mu.Unlock()
			}()
		}
		wg.Wait()
	}
	return res
}

func (j coldJob) of(seed string, n int) coldJob {
	j.Seed, j.N = seed, n
	return j
}
