package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	_ "time/tzdata"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
)

// ------------------------------------------------------------- C17

// held is what a call gave, kept to be looked at again later.
type held struct {
	d    []*edtf.EDTFDate
	r    *unix.DateRange
	snap string
}

func (h *held) render() string {
	defer coldProgress.Add(1)
	b, err := json.Marshal(h.d)
	if err != nil {
		return err.Error()
	}
	var u string
	if h.r != nil {
		u = fmt.Sprint(rng(h.r))
	}
	return string(b) + u
}

func rng(r *unix.DateRange) string {
	b, _ := json.Marshal(r)
	return string(b)
}

// outcome is all the library says about a string, and about it and a partner.
func outcome(s, partner string, keep *held) string {
	defer coldProgress.Add(1)
	var sb strings.Builder
	put := func(a ...interface{}) { fmt.Fprintln(&sb, a...) }
	date := func(what string, d *edtf.EDTFDate, err error) {
		if err != nil {
			put(what, errKind(err), err.Error())
			return
		}
		b, jerr := json.Marshal(d)
		put(what, string(b), jerr, d.String(), d.Start.String(), d.End.String())
		lo, e1 := d.Lower()
		up, e2 := d.Upper()
		put(what, lo, e1, up, e2)
		if keep != nil {
			keep.d = append(keep.d, d)
		}
	}
	put("valid", parser.IsValid(s))
	l, f, err := parser.Matches(s)
	put("matches", l, f, errText(err))
	d, err := parser.ParseString(s)
	date("parse", d, err)
	for i := range levels {
		v := &levels[i]
		put("level", i, v.is(s))
		d, err := v.parse(s)
		date("level "+strconv.Itoa(i), d, err)
	}
	h := hash64(s)
	for i := range features {
		v := &features[i]
		if ok := v.is(s); ok || h>>uint(i)&7 == 0 {
			d, err := v.parse(s)
			put(v.name, ok)
			date(v.name, d, err)
		}
	}
	ok, r, err := unix.DeriveRanges(s)
	if r != nil {
		put("unix", ok, rng(r))
	} else {
		put("unix", ok, errText(err))
	}
	if keep != nil {
		keep.r = r
	}
	b, err := cmp.IsBefore(s, partner)
	put("before", b, errText(err))
	b, err = cmp.IsAfter(s, partner)
	put("after", b, errText(err))
	b, err = cmp.IsBetween(s, "1900", partner)
	put("between", b, errText(err))
	n, err := calendar.DaysInMonthWithString(s)
	put("days", n, errText(err))
	put(edtf.IsOpen(s), edtf.IsUnknown(s), edtf.IsUnspecified(s), edtf.IsDeprecated(s))
	x, err := edtf.ReplaceDeprecated(s)
	put("deprecated", x, errText(err))
	span, err := common.DateSpanFromEDTF(s)
	if err != nil {
		put("span", errText(err))
	} else {
		b, jerr := json.Marshal(span)
		put("span", string(b), jerr)
	}
	ymd, err := common.YMDFromString(s)
	put("ymd", fmt.Sprint(ymd), errText(err))
	if keep != nil {
		keep.snap = keep.render()
	}
	return sb.String()
}

// repertoire is a list of strings which depends on the seed and nothing else.
func repertoire(seed string, n int) []string {
	r := &Rng{seedOf("repertoire", seed)}
	var ss []string
	for len(ss) < n {
		switch r.N(12) {
		case 0:
			ss = append(ss, corpus[r.N(len(corpus))])
		case 1:
			ss = append(ss, r.Pick("..", "", "open", "uuuu", "2004-06-11", "1950S2", "Y1E3", "2004-XX", "../2004", "2004/..", "[..2004]", "2004-31", "Spring, 2004", "-0001", "0000"))
		case 2:
			ss = append(ss, genJunk(r))
		case 3:
			ss = append(ss, hostile(r, 64))
		case 5:
			// an offset which a local time zone may have
			ss = append(ss, fmt.Sprintf("%s-%02d-%02dT%s%s", ys(genYear(r)), r.In(1, 12), r.In(1, 28), genTime(r),
				r.Pick("+05:45", "-03:30", "-02:30", "-05:00", "-04", "-05", "+13", "-11:00", "+14:00", "-10", "+05:30", "-08", "-07:00", "+00", "+01", "+02:00", "-00:44")))
		case 4:
			// again, so that a string's answer depends on having been seen before, if anything does
			if len(ss) > 0 {
				ss = append(ss, ss[r.N(len(ss))])
			}
		default:
			ss = append(ss, genAny(r))
		}
	}
	return ss
}

func partnerOf(ss []string, i int) string { return ss[(i*7+3)%len(ss)] }

// coldJob is what one fresh process does.
type coldJob struct {
	Seed    string
	N       int    // strings
	G       int    // goroutines; 0: the strings one by one
	Order   string // same, shuffled, reversed, rotated
	Pause   string // none, yield, sleep
	Mutate  bool   // change every field of every result once it is recorded
	GC      bool   // collect garbage all the time
	Procs   int
	Local   string // time.Local
	ChZone  bool   // change time.Local between calls (one goroutine only)
	Repeat  int
	Timeout int // seconds
	Hold    bool
	Long    bool // many strings, each asked about briefly
	Hammer  int  // milliseconds for each of N groups of a few strings, asked about by all goroutines all the time
}

type coldResult struct {
	Hashes    []uint64 // one by one, in order of the list
	Bad       []string // indexes of outcomes which differ
	NBad      int
	Calls     int64
	Overlaps  int64 // calls during which another goroutine's call ran
	Pairs     int64 // distinct pairs of strings which were asked about at once
	Same      int64 // overlaps of calls with the same string
	MaxAtOnce int64
	First     int64 // calls which began before any call had ended
	Changed   []string
	Mutated   int64
	Observes  bool     // the process notes what the library reads
	Seen      []string // and this is it
	State     []string // what of the process changed
	Zone      string   // the time zone at the start, after all of the library's packages were initialised
	Env       string
	Dir       string
}

func orderOf(n int, order string, seed string, g int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	switch order {
	case "shuffled":
		r := &Rng{seedOf("order", seed, strconv.Itoa(g))}
		for i := n - 1; i > 0; i-- {
			j := r.N(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	case "reversed":
		for i := range p {
			p[i] = n - 1 - i
		}
	case "rotated":
		for i := range p {
			p[i] = (i + g*n/13) % n
		}
	}
	return p
}

type callSpan struct {
	a, b int64
	g, i int
}

// coldProgress counts the answers given in this process, coldOver is set when no more are to come.
var coldProgress, coldOver atomic.Int64

const exitHung = 78

// coldWatch ends a process in which no call has returned for long. (Its ticks
// come from the runtime, which no change of the clock concerns.)
func coldWatch(idle int) {
	last, same := int64(-1), 0
	for range time.NewTicker(time.Second).C {
		if coldOver.Load() != 0 {
			return
		}
		if now := coldProgress.Load(); now != last {
			last, same = now, 0
			continue
		}
		if same++; same < idle {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		var of []string
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "sfomuseum/go-edtf") {
				of = append(of, g)
			}
		}
		fmt.Fprintf(os.Stderr, "no call has returned for %d s; %d goroutines are in the library, one of them:\n%s\n", idle, len(of), strings.Join(of[:min(1, len(of))], ""))
		os.Exit(exitHung)
	}
}

// cold runs in a process of its own, whose first calls of the library are the concurrent ones.
func cold(jobFile, out string) {
	var job coldJob
	b, err := os.ReadFile(jobFile)
	if err == nil {
		err = json.Unmarshal(b, &job)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitHarness)
	}
	if job.Procs > 0 {
		runtime.GOMAXPROCS(job.Procs)
	}
	if job.Local != "" {
		l, err := time.LoadLocation(job.Local)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitHarness)
		}
		time.Local = l
	}
	go coldWatch(75)
	was := stateOfProcess(job.Procs)
	if job.Long || job.Hammer > 0 {
		var res coldResult
		if job.Long {
			res = coldLong(job)
		} else {
			res = coldHammer(job)
		}
		coldOver.Store(1)
		res.State = was.changes(stateOfProcess(job.Procs))
		res.Zone, res.Env, res.Dir = was["time zone"], was["environment"], was["working directory"]
		if err := writeJSON(out, res); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitHarness)
		}
		return
	}
	ss := repertoire(job.Seed, job.N)
	if job.Repeat == 0 {
		job.Repeat = 1
	}
	var res coldResult
	outs := make([][]string, job.G)
	spans := make([][]callSpan, job.G)
	helds := make([][]*held, job.G)
	if job.G > 0 {
		if job.GC {
			debug.SetGCPercent(2)
		}
		orders := make([][]int, job.G)
		for g := range orders {
			orders[g] = orderOf(job.N, job.Order, job.Seed, g)
			outs[g] = make([]string, job.N*job.Repeat)
			spans[g] = make([]callSpan, 0, job.N*job.Repeat)
			helds[g] = make([]*held, job.N*job.Repeat)
		}
		start := make(chan struct{})
		t0 := time.Now()
		var wg sync.WaitGroup
		for g := 0; g < job.G; g++ {
			g := g
			wg.Add(1)
			r := &Rng{seedOf("pause", job.Seed, strconv.Itoa(g))}
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < job.Repeat; k++ {
					for _, i := range orders[g] {
						var h *held
						if job.Hold {
							h = &held{}
						}
						a := time.Since(t0)
						o := outcome(ss[i], partnerOf(ss, i), h)
						e := time.Since(t0)
						outs[g][k*job.N+i] = o
						spans[g] = append(spans[g], callSpan{int64(a), int64(e), g, i})
						if h != nil {
							helds[g][k*job.N+i] = h
							if job.Mutate {
								for _, d := range h.d {
									mutate(reflect.ValueOf(d), map[uintptr]bool{})
								}
								h.snap = ""
							}
						}
						switch job.Pause {
						case "yield":
							if r.P(1, 2) {
								runtime.Gosched()
							}
						case "sleep":
							if r.P(1, 8) {
								time.Sleep(time.Duration(r.N(200)) * time.Microsecond)
							}
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		debug.SetGCPercent(100)
		// what a goroutine was given has not changed since
		for g := range helds {
			for i, h := range helds[g] {
				if h == nil {
					continue
				}
				if job.Mutate {
					res.Mutated++
					continue
				}
				if now := h.render(); now != h.snap && len(res.Changed) < 10 {
					res.Changed = append(res.Changed, fmt.Sprintf("%q: was %s and is now %s", ss[i%job.N], head(h.snap, 400), head(now, 400)))
				}
			}
		}
	}
	// one by one
	seq := make([]string, job.N)
	res.Hashes = make([]uint64, job.N)
	order := orderOf(job.N, "same", "", 0)
	if job.G == 0 {
		order = orderOf(job.N, job.Order, job.Seed, 0)
	}
	zones := []string{"Pacific/Kiritimati", "America/St_Johns", "Asia/Kathmandu", "America/Los_Angeles", "Europe/London", "UTC"}
	var kept []*held
	for k := 0; k < job.Repeat; k++ {
		for j, i := range order {
			if job.ChZone {
				time.Local, _ = time.LoadLocation(zones[(j+k)%len(zones)])
			}
			h := &held{}
			l := time.Local
			o := outcome(ss[i], partnerOf(ss, i), h)
			if time.Local != l && len(res.State) < 10 {
				res.State = append(res.State, fmt.Sprintf("time.Local is %v after the calls about %q, and was %v", time.Local, head(ss[i], 200), l))
			}
			if job.Mutate {
				for _, d := range h.d {
					mutate(reflect.ValueOf(d), map[uintptr]bool{})
				}
				res.Mutated++
			} else if j%5 == 0 {
				kept = append(kept, h)
			}
			if k == 0 {
				seq[i] = o
				res.Hashes[i] = hash64(o)
			} else if o != seq[i] {
				res.NBad++
				if len(res.Bad) < 10 {
					res.Bad = append(res.Bad, fmt.Sprintf("%q, the time number %d: %s", ss[i], k+1, diff(seq[i], o)))
				}
			}
			if job.G == 0 {
				res.Calls++
			}
		}
	}
	coldOver.Store(1)
	for _, c := range was.changes(stateOfProcess(job.Procs)) {
		if !job.ChZone || !strings.HasPrefix(c, "time zone") {
			res.State = append(res.State, c)
		}
	}
	res.Zone, res.Env, res.Dir = was["time zone"], was["environment"], was["working directory"]
	for _, h := range kept {
		if now := h.render(); now != h.snap && len(res.Changed) < 10 {
			res.Changed = append(res.Changed, fmt.Sprintf("was %s and is now %s", head(h.snap, 400), head(now, 400)))
		}
	}
	if job.G > 0 {
		var all []callSpan
		for g := range outs {
			for i, o := range outs[g] {
				if o != seq[i%job.N] {
					res.NBad++
					if len(res.Bad) < 10 {
						res.Bad = append(res.Bad, fmt.Sprintf("%q in goroutine %d: %s", ss[i%job.N], g, diff(seq[i%job.N], o)))
					}
				}
				res.Calls++
			}
			all = append(all, spans[g]...)
		}
		res.overlaps(all, ss)
	}
	res.Seen, res.Observes = seenByLibrary()
	if err := writeJSON(out, res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitHarness)
	}
}

// overlaps counts which calls ran at once.
func (res *coldResult) overlaps(all []callSpan, ss []string) {
	sort.Slice(all, func(i, j int) bool { return all[i].a < all[j].a })
	firstEnd := int64(1 << 62)
	for _, c := range all {
		if c.b < firstEnd {
			firstEnd = c.b
		}
	}
	pairs := map[uint64]bool{}
	over := map[int]bool{}
	var live []int
	for k, c := range all {
		if c.a < firstEnd {
			res.First++
		}
		w := live[:0]
		for _, j := range live {
			if all[j].b > c.a {
				w = append(w, j)
			}
		}
		live = w
		for x, j := range live {
			if x >= 64 {
				// of a crowd not every pair is counted
				over[k] = true
				break
			}
			o := all[j]
			if o.g == c.g {
				continue
			}
			over[j], over[k] = true, true
			x, y := o.i, c.i
			if ss[x] == ss[y] {
				res.Same++
			}
			if x > y {
				x, y = y, x
			}
			if len(pairs) < 2000000 {
				pairs[uint64(x)<<32|uint64(y)] = true
			}
		}
		live = append(live, k)
		if int64(len(live)) > res.MaxAtOnce {
			res.MaxAtOnce = int64(len(live))
		}
	}
	res.Overlaps, res.Pairs = int64(len(over)), int64(len(pairs))
}

// diff shows the first line in which two outcomes differ.
func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("alone it is %s, here it is %s", head(p, 500), head(q, 500))
		}
	}
	return "no difference"
}

var timeType = reflect.TypeOf(time.Time{})

// mutate changes everything that can be reached from v and set.
func mutate(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		mutate(v.Elem(), seen)
		if !v.CanInterface() {
			return
		}
		// what cannot be set may be changed by a method
		switch x := v.Interface().(type) {
		case *edtf.Timestamp:
			x.UnmarshalJSON([]byte("-987654321"))
		case *edtf.Date:
			if x.Timestamp != nil {
				t := time.Unix(-5, 0)
				x.SetTime(&t)
				x.Timestamp.UnmarshalJSON([]byte("77"))
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			mutate(v.Elem(), seen)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(-1234567, 89)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			mutate(v.Field(i), seen)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			mutate(v.Index(i), seen)
		}
	case reflect.Map:
		if !v.CanInterface() {
			return
		}
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("changed " + v.String())
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 77)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 77)
		}
	}
}

// reach collects the memory a result is made of. What only hangs on unexported
// fields is left out: it may be shared as long as no method changes it.
func reach(v reflect.Value, m map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || m[v.Pointer()] || v.Type().Elem().Size() == 0 {
			return
		}
		m[v.Pointer()] = true
		reach(v.Elem(), m)
	case reflect.Interface:
		if !v.IsNil() {
			reach(v.Elem(), m)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return // its location is the only pointer, and cannot be changed
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				reach(v.Field(i), m)
			}
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			m[v.Pointer()] = true
		}
		for i := 0; i < v.Len(); i++ {
			reach(v.Index(i), m)
		}
	case reflect.Map:
		if !v.IsNil() {
			m[v.Pointer()] = true
		}
	}
}

// resultsOf is every mutable result a string has.
func resultsOf(s string) (names []string, rs []interface{}) {
	add := func(name string, r interface{}, err error) {
		if err == nil && !reflect.ValueOf(r).IsNil() {
			names = append(names, name)
			rs = append(rs, r)
		}
	}
	d, err := parser.ParseString(s)
	add("ParseString", d, err)
	d, err = parser.ParseString(s)
	add("ParseString again", d, err)
	for i := range levels {
		d, err := levels[i].parse(s)
		add(fmt.Sprintf("level%d.ParseString", i), d, err)
	}
	for i := range features {
		d, err := features[i].parse(s)
		add(features[i].name, d, err)
	}
	_, r, err := unix.DeriveRanges(s)
	add("DeriveRanges", r, err)
	_, r, err = unix.DeriveRanges(s)
	add("DeriveRanges again", r, err)
	sp, err := common.DateSpanFromEDTF(s)
	add("DateSpanFromEDTF", sp, err)
	sr, err := common.StringRangeFromYMD(s)
	add("StringRangeFromYMD", sr, err)
	sr, err = common.StringRangeFromYMD(s)
	add("StringRangeFromYMD again", sr, err)
	y, err := common.YMDFromString(s)
	add("YMDFromString", y, err)
	add("EmptyDateRange", common.EmptyDateRange(), nil)
	add("UnknownDateRange", common.UnknownDateRange(), nil)
	add("OpenDateRange", common.OpenDateRange(), nil)
	add("EmptyDateSpan", common.EmptyDateSpan(), nil)
	add("UnknownDateSpan", common.UnknownDateSpan(), nil)
	add("OpenDateSpan", common.OpenDateSpan(), nil)
	return
}

// checkShare: the results of strings (and of one string, asked for again and
// in other ways) share no memory, and changing one changes no other, nor a later one.
func checkShare(c *Ctx, a []string) bool {
	var names []string
	var rs []interface{}
	before := map[string]string{}
	for _, s := range a {
		n, r := resultsOf(s)
		for i := range n {
			names = append(names, fmt.Sprintf("%s(%q)", n[i], s))
		}
		rs = append(rs, r...)
		before[s] = outcome(s, a[0], nil)
	}
	owner := map[uintptr]int{}
	snaps := make([]string, len(rs))
	for i, r := range rs {
		m := map[uintptr]bool{}
		reach(reflect.ValueOf(r), m)
		for p := range m {
			if o, ok := owner[p]; ok {
				c.Fail("share", "%s and %s share memory", names[o], names[i])
				return true
			}
			owner[p] = i
		}
		c.CountN("objects", int64(len(m)))
		snaps[i] = snapshot(r)
	}
	// the times a result gives are the caller's
	for i, r := range rs {
		if d, ok := r.(*edtf.EDTFDate); ok {
			for k, f := range []func() (*time.Time, error){d.Lower, d.Upper} {
				t, err := f()
				if err != nil {
					continue
				}
				was := *t
				*t = time.Unix(99, 99)
				if t, err := f(); err != nil || !t.Equal(was) {
					c.Fail("share", "%s: after a change of the time it gave, its %s is %v, %v", names[i], []string{"lower", "upper"}[k], t, err)
					return true
				}
			}
		}
	}
	k := int(hash64(a...) % uint64(len(rs)))
	for j := 0; j < len(rs); j++ {
		v := (k + j) % len(rs)
		mutate(reflect.ValueOf(rs[v]), map[uintptr]bool{})
		snaps[v] = ""
		if j != 0 && j != len(rs)-1 && j != len(rs)/2 {
			continue
		}
		for i := range rs {
			if snaps[i] != "" && snapshot(rs[i]) != snaps[i] {
				c.Fail("share", "changing %s changed %s", names[v], names[i])
				return true
			}
		}
		for _, s := range a {
			if o := outcome(s, a[0], nil); o != before[s] {
				c.Fail("share", "after a change of %s, %q: %s", names[v], s, diff(before[s], o))
				return true
			}
		}
	}
	runtime.KeepAlive(rs)
	return true
}

// snapshot renders every field, those hidden from JSON as well.
func snapshot(r interface{}) string {
	var sb strings.Builder
	var w func(v reflect.Value)
	w = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil;")
				return
			}
			w(v.Elem())
		case reflect.Struct:
			if v.Type() == timeType && v.CanInterface() {
				sb.WriteString(v.Interface().(time.Time).String())
				return
			}
			sb.WriteString(v.Type().Name() + "{")
			for i := 0; i < v.NumField(); i++ {
				w(v.Field(i))
			}
			sb.WriteString("}")
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				w(v.Index(i))
			}
		default:
			fmt.Fprintf(&sb, "%v;", v)
		}
	}
	w(reflect.ValueOf(r))
	return sb.String()
}

// checkObserve: asking does not change what is asked.
func checkObserve(c *Ctx, a []string) bool {
	d, err1 := parser.ParseString(a[0])
	u, err2 := parser.ParseString(a[1])
	if err1 != nil || err2 != nil {
		return false
	}
	sd, su := snapshot(d), snapshot(u)
	var first string
	for k := 0; k < 2; k++ {
		var sb strings.Builder
		for _, p := range [][2]*edtf.EDTFDate{{d, u}, {u, d}, {d, d}} {
			x, e := p[0].After(p[1])
			fmt.Fprintln(&sb, "after", x, errText(e))
			x, e = p[0].Before(p[1])
			fmt.Fprintln(&sb, "before", x, errText(e))
			l, e := p[0].Lower()
			fmt.Fprintln(&sb, "lower", l, errText(e))
			l, e = p[0].Upper()
			fmt.Fprintln(&sb, "upper", l, errText(e), p[0].String(), p[0].Start.String(), p[0].End.String())
			b, e := json.Marshal(p[0])
			fmt.Fprintln(&sb, string(b), errText(e))
		}
		if snapshot(d) != sd || snapshot(u) != su {
			c.Fail("observe", "comparing, printing and encoding changed a result")
		}
		if k == 0 {
			first = sb.String()
		} else if sb.String() != first {
			c.Fail("observe", "the second time: %s", diff(first, sb.String()))
		}
	}
	return true
}

// checkHistory: a string's answer before and after others.
func checkHistory(c *Ctx, a []string) bool {
	s := a[0]
	before := outcome(s, a[len(a)-1], nil)
	for i, o := range a[1:] {
		outcome(o, a[i], nil)
		if i%4 == 0 || i == len(a)-2 {
			if now := outcome(s, a[len(a)-1], nil); now != before {
				c.Fail("history", "after %d other strings: %s", i+1, diff(before, now))
				return true
			}
		}
	}
	return true
}

// runCold starts a fresh process for a job.
func (r *Run) runCold(name, bin string, job coldJob, env []string, dir string) (res coldResult, ok bool) {
	if r.hung.Load() {
		// a library in which calls hang keeps each of these processes for minutes
		r.mu.Lock()
		r.counts["processes not started because another one hung"]++
		r.mu.Unlock()
		return res, false
	}
	base := filepath.Join(r.OutDir, strings.NewReplacer("/", "_", " ", "_").Replace(name))
	jf, of, race := base+".job", base+".result", base+".race"
	fail := func(cat, format string, a ...interface{}) {
		jb, _ := json.Marshal(job)
		r.report(Violation{Property: "C17", Kind: "cold", Args: []string{name, string(jb)}, Category: cat,
			Message: fmt.Sprintf(format, a...), Seed: r.Seed, Tier: r.Tier})
	}
	if err := writeJSON(jf, job); err != nil {
		panic(err)
	}
	defer os.Remove(jf)
	limit := 300 * time.Second
	if job.Timeout > 0 {
		limit = time.Duration(job.Timeout) * time.Second
	}
	races := func() (seen bool) {
		logs, _ := filepath.Glob(race + ".*")
		for _, l := range logs {
			t, _ := os.ReadFile(l)
			os.Remove(l)
			n := strings.Count(string(t), "WARNING: DATA RACE")
			if n > 0 && !seen {
				fail("race", "%s: %d reports of the race detector, the first:\n%s", name, n, head(string(t), 3500))
				seen = true
			}
		}
		return
	}
	var err error
	var stderr []byte
	for try := 1; ; try++ {
		cmd := exec.Command(bin, "cold", jf, of)
		cmd.Dir = dir
		cmd.Env = append(append([]string{}, env...), "GORACE=log_path="+race+" halt_on_error=0 exitcode=0 history_size=3", "GOTRACEBACK=all")
		errFile, _ := os.Create(base + ".stderr")
		cmd.Stdout, cmd.Stderr = errFile, errFile
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		go func() { done <- cmd.Wait() }()
		select {
		case err = <-done:
		case <-time.After(limit):
			cmd.Process.Kill()
			<-done
			errFile.Close()
			r.hung.Store(true)
			fail("hang", "%s: the calls did not return within %v", name, limit)
			return res, false
		}
		errFile.Close()
		stderr, _ = os.ReadFile(base + ".stderr")
		os.Remove(base + ".stderr")
		x, _ := err.(*exec.ExitError)
		if x == nil {
			break
		}
		if x.ExitCode() == exitHung {
			r.hung.Store(true)
			fail("hang", "%s: %s", name, head(string(stderr), 3000))
			return res, false
		}
		if strings.Contains(string(stderr), "go-edtf") {
			fail("crash", "%s: the process died: %v\n%s", name, err, head(string(stderr), 3000))
			return res, false
		}
		// one which reported races may also die of them, and one process may die for want of memory
		if races() {
			return res, false
		}
		ws, _ := x.Sys().(syscall.WaitStatus)
		if !ws.Signaled() {
			fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", name, err, head(string(stderr), 3000))
			os.Exit(exitHarness)
		}
		if try == 3 {
			if ws.Signal() == syscall.SIGKILL {
				fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", name, err, head(string(stderr), 3000))
				os.Exit(exitHarness)
			}
			fail("crash", "%s: the process died three times: %v\n%s", name, err, head(string(stderr), 3000))
			return res, false
		}
	}
	b, err := os.ReadFile(of)
	if err == nil {
		err = json.Unmarshal(b, &res)
	}
	os.Remove(of)
	if err != nil {
		fmt.Fprintln(os.Stderr, name, err)
		os.Exit(exitHarness)
	}
	races()
	if s := strings.TrimSpace(string(stderr)); s != "" {
		fail("process", "%s: the calls wrote to the standard output or error: %s", name, head(s, 1000))
	}
	res.State = append(res.State, stateFromStart(res, job, env, dir)...)
	if len(res.State) > 0 {
		fail("process", "%s: the calls changed the process: %s", name, strings.Join(res.State, "\n  "))
	}
	if res.NBad > 0 {
		fail("schedule", "%s: %d answers differ from those given alone: %s", name, res.NBad, strings.Join(res.Bad, "\n  "))
	}
	if len(res.Changed) > 0 {
		fail("share", "%s: results changed after they were given: %s", name, strings.Join(res.Changed, "\n  "))
	}
	return res, true
}

// stateFromStart compares a process, as it was before any call, with what it was started with.
func stateFromStart(res coldResult, job coldJob, env []string, dir string) (out []string) {
	if d, err := filepath.EvalSymlinks(dir); err == nil && res.Dir != d && res.Dir != dir {
		out = append(out, fmt.Sprintf("the working directory is %q and not %q from the start", res.Dir, dir))
	}
	tz := ""
	given := map[string]bool{}
	for _, e := range env {
		given[e] = true
		if strings.HasPrefix(e, "TZ=") {
			tz = e[3:]
		}
	}
	for _, e := range strings.Split(res.Env, "\n") {
		// (a value may have several lines)
		k := strings.SplitN(e, "=", 2)[0]
		if !given[e] && k != "GORACE" && k != "GOTRACEBACK" && k != "PWD" && !strings.Contains(strings.Join(env, "\n"), e) {
			out = append(out, fmt.Sprintf("the environment has %q from the start", head(e, 200)))
		}
	}
	for _, e := range env {
		if k := strings.SplitN(e, "=", 2)[0]; k != "" && !strings.Contains("\n"+res.Env, "\n"+k+"=") {
			out = append(out, fmt.Sprintf("the environment lacks %s from the start", k))
		}
	}
	if tz != "" && job.Local == "" {
		l, err := time.LoadLocation(tz)
		if err != nil {
			return
		}
		n, o := time.Date(2004, 7, 1, 0, 0, 0, 0, l).Zone()
		if want := fmt.Sprintf(" %s %d", n, o); !strings.HasSuffix(res.Zone, want) {
			out = append(out, fmt.Sprintf("the time zone is %q with TZ=%s from the start", res.Zone, tz))
		}
	}
	return
}

func registerC17() {
	register(&Prop{ID: "C17", Assume: []string{assumeGo,
		"the race detector sees the interleavings which occurred; the schedules are those the Go scheduler gives under the pauses, processor counts and garbage collections injected",
		"the environment is varied by TZ, time.Local, LANG, HOME, working directory, an empty environment, six clocks, and whatever variables and files (within its own folder) the library is seen to read; other users and machines are not"},
		Rule: "concurrent: fresh processes (race-detecting and plain) in which up to 48 goroutines start at once on a library not yet used and each ask everything about a list of strings; decided when each answer was compared with the one given alone in the same process, and this with those of processes which asked in other orders, zones and environments. alone: histories of strings before a string, results which must share no memory and survive the change of every field of another, and comparisons which must leave their operands as they were",
		Kinds: map[string]Handler{
			"share":   checkShare,
			"observe": checkObserve,
			"history": checkHistory,
			"cold":    checkCold,
		},
		Special: specialC17,
		Plan: func(tier string) []Task {
			return concat(
				[]Task{{"corpus", func(c *Ctx) {
					for i, s := range corpus {
						c.Case("share", s)
						c.Case("share", s, corpus[(i+1)%len(corpus)], corpus[(i*5+2)%len(corpus)])
						for j := 0; j < len(corpus); j += 1 + c.N(5) {
							c.Case("observe", s, corpus[j])
						}
					}
				}}},
				randTasks("share", scale(tier, 6000, 40), func(c *Ctx) {
					a := []string{genAny(c.Rng)}
					for c.P(1, 2) {
						a = append(a, mixed(c.Rng))
					}
					c.Case("share", dedup(a)...)
				}),
				randTasks("observe", scale(tier, 40000, 40), func(c *Ctx) { c.Case("observe", genAny(c.Rng), genAny(c.Rng)) }),
				randTasks("history", scale(tier, 2500, 40), func(c *Ctx) {
					a := []string{mixed(c.Rng)}
					for i := c.In(1, 24); i > 0; i-- {
						if c.P(1, 4) {
							// the same but for a detail
							a = append(a, editOf(c.Rng, a[0]))
						} else {
							a = append(a, mixed(c.Rng))
						}
					}
					c.Case("history", a...)
				}),
			)
		}})
}

func dedup(a []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range a {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// editOf changes one character.
func editOf(r *Rng, s string) string {
	if s == "" {
		return r.Pick("0", "X", "..")
	}
	b := []byte(s)
	i := r.N(len(b))
	b[i] = "0123456789-X?~%/.,[]{}SYETZ:+ "[r.N(30)]
	return string(b)
}

func cleanEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GORACE", "GOMAXPROCS", "GOTRACEBACK", "TZ", "GODEBUG", "GOGC":
			continue
		}
		env = append(env, e)
	}
	return env
}

// variant is a process which asks the strings one by one.
type variant struct {
	name, bin string
	job       coldJob
	env       []string
	dir       string
}

func coldVariants(seed string, n int, dir string) []variant {
	self, env := harnessBin(), cleanEnv()
	vs := []variant{
		{"alone", self, coldJob{}, env, "/"},
		{"reversed", self, coldJob{Order: "reversed"}, env, "/"},
		{"shuffled", self, coldJob{Order: "shuffled"}, env, "/"},
		{"three times", self, coldJob{Repeat: 3}, env, "/"},
		{"changed results", self, coldJob{Repeat: 2, Mutate: true}, env, "/"},
		{"one processor", self, coldJob{Procs: 1}, env, "/"},
		{"zone New York", self, coldJob{}, append(cleanEnv(), "TZ=America/New_York"), "/"},
		{"zone Apia", self, coldJob{}, append(cleanEnv(), "TZ=Pacific/Apia"), "/"},
		{"zone Monrovia", self, coldJob{Order: "shuffled"}, append(cleanEnv(), "TZ=Africa/Monrovia"), "/"},
		{"local Kolkata", self, coldJob{Local: "Asia/Kolkata"}, env, "/"},
		{"local Troll", self, coldJob{Local: "Antarctica/Troll"}, env, "/"},
		{"zones change", self, coldJob{ChZone: true, Repeat: 2}, env, "/"},
		{"language", self, coldJob{}, append(cleanEnv(), "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_TIME=th_TH"), "/tmp"},
		{"empty environment", self, coldJob{}, []string{}, dir},
	}
	for i, v := range vs {
		v.job.Seed, v.job.N = seed, n
		vs[i] = v
	}
	return vs
}

// reference is the answers others are compared with.
type reference struct {
	hashes []uint64
	from   string
}

func (r *Run) compareCold(ref *reference, name string, res coldResult, ss []string, job coldJob) {
	if ref.hashes == nil {
		ref.hashes, ref.from = res.Hashes, name
		return
	}
	var bad []string
	for i := range ref.hashes {
		if res.Hashes[i] != ref.hashes[i] {
			bad = append(bad, strconv.Quote(head(ss[i], 100)))
		}
	}
	if len(bad) > 0 {
		jb, _ := json.Marshal(job)
		r.report(Violation{Property: "C17", Kind: "cold", Args: []string{name, string(jb)}, Category: "environment",
			Message: fmt.Sprintf("%d answers of the process %q differ from those of the process %q, the first for %s", len(bad), name, ref.from, head(strings.Join(bad, ", "), 600)),
			Seed:    r.Seed, Tier: r.Tier})
	}
}

func specialC17(r *Run) {
	race, self := os.Getenv("HARNESS_RACE"), os.Args[0]
	if race == "" || os.Getenv("HARNESS_OBSERVE") == "" {
		fmt.Fprintln(os.Stderr, "C17 needs the binaries HARNESS_RACE and HARNESS_OBSERVE: use check.sh")
		os.Exit(exitHarness)
	}
	thorough := r.Tier == "thorough"
	n, rounds := 700, 1
	if thorough {
		n, rounds = 2500, 12
	}
	var total coldResult
	procs := 0
	add := func(res coldResult) {
		procs++
		total.Calls += res.Calls
		total.Overlaps += res.Overlaps
		total.Pairs += res.Pairs
		total.Same += res.Same
		total.First += res.First
		total.Mutated += res.Mutated
		if res.MaxAtOnce > total.MaxAtOnce {
			total.MaxAtOnce = res.MaxAtOnce
		}
	}
	raceProcs := 0
	for round := -1; round < (rounds+2)/3; round++ {
		m := 75000
		if thorough {
			m = 400000
		}
		seed := fmt.Sprintf("%s.long.%d", r.Seed, round)
		if round < 0 {
			seed = "sweep"
		}
		vs := longVariants(seed, m)
		results := make([]*coldResult, len(vs))
		parallel(len(vs), 8, func(i int) {
			v := vs[i]
			if res, ok := r.runCold(fmt.Sprintf("round %d %s", round, v.name), v.bin, v.job, v.env, v.dir); ok {
				results[i] = &res
			}
		})
		var ref reference
		ss := longRepertoire(seed, m)
		for i, v := range vs {
			if results[i] != nil {
				add(*results[i])
				r.counts["sets of calls in processes with a long history"] += results[i].Calls
				r.compareCold(&ref, v.name, *results[i], ss, v.job)
			}
		}
	}
	for round := 0; round < rounds; round++ {
		seed := r.Seed + "." + strconv.Itoa(round)
		ss := repertoire(seed, n)
		var ref reference
		// one by one, in other orders and environments
		vs := coldVariants(seed, n, r.OutDir)
		results := make([]*coldResult, len(vs))
		parallel(len(vs), 8, func(i int) {
			v := vs[i]
			if res, ok := r.runCold(fmt.Sprintf("round %d %s", round, v.name), v.bin, v.job, v.env, v.dir); ok {
				results[i] = &res
			}
		})
		for i, v := range vs {
			if results[i] != nil {
				add(*results[i])
				r.compareCold(&ref, v.name, *results[i], ss, v.job)
			}
		}
		for _, res := range r.surroundings(seed, n, "") {
			add(res)
		}
		// at once
		type conc struct {
			bin string
			job coldJob
		}
		var cs []conc
		for i, g := range []int{2, 8, 16, 48} {
			for j, o := range []string{"same", "shuffled", "rotated"} {
				for k, p := range []string{"none", "yield", "sleep"} {
					x := i*9 + j*3 + k
					if !thorough && (x+round)%3 != 0 && !(g == 16 && o == "same") {
						continue
					}
					job := coldJob{G: g, Order: o, Pause: p, Mutate: x%4 == 1, GC: x%5 == 2, Hold: x%2 == 1, Procs: []int{0, 2, 4, 1, 16}[x%5]}
					if job.Procs == 1 && g == 2 {
						job.Procs = 2
					}
					cs = append(cs, conc{race, job})
					job.Repeat = 2
					cs = append(cs, conc{self, job})
				}
			}
		}
		// a crowd: what is only refused or lost when very many are inside at once
		cs = append(cs, conc{self, coldJob{G: 1500, Order: "shuffled", Pause: "none", Procs: 8}})
		hammer := coldJob{G: 16, Hammer: 60}
		if thorough {
			hammer.Hammer = 400
		}
		if res, ok := r.runCold(fmt.Sprintf("round %d concurrent hammer", round), self, hammer.of(seed, len(hammerGroups)+40), cleanEnv(), "/"); ok {
			r.counts["calls on a few strings by 16 goroutines"] += res.Calls
			r.counts["fresh processes"]++
		}
		cs = append(cs, conc{race, coldJob{G: 400, Order: "same", Pause: "yield", Procs: 4}})
		cres := make([]*coldResult, len(cs))
		parallel(len(cs), 3, func(i int) {
			v := cs[i]
			if v.bin == race {
				v.job.N = 30 + n/2/v.job.G
			} else {
				v.job.N = 100 + n/v.job.G
			}
			// the strings of the first moments differ from process to process
			v.job.Seed = seed + "." + strconv.Itoa(i)
			name := fmt.Sprintf("round %d concurrent %d", round, i)
			if v.bin == race {
				name += " race"
			}
			if res, ok := r.runCold(name, v.bin, v.job, cleanEnv(), "/"); ok {
				cres[i] = &res
			}
		})
		for i, res := range cres {
			if res != nil {
				add(*res)
				if cs[i].bin == race {
					raceProcs++
				}
			}
		}
	}
	r.counts["evaluations"] += total.Calls
	r.counts["distinct"] += total.Overlaps
	r.counts["fresh processes"] += int64(procs)
	r.counts["fresh processes under the race detector"] += int64(raceProcs)
	r.counts["sets of calls in fresh processes"] += total.Calls
	r.counts["sets of calls which overlapped another goroutine's"] += total.Overlaps
	r.counts["distinct pairs of strings asked about at once"] += total.Pairs
	r.counts["overlaps on one string"] += total.Same
	r.counts["sets of calls begun before the first of its process ended"] += total.First
	r.counts["largest number of calls at once"] = total.MaxAtOnce
	r.counts["results changed in every field"] += total.Mutated
}

// parallel calls f for 0 to n-1, k at a time.
func parallel(n, k int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < k; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func harnessBin() string { return os.Args[0] }

// checkCold runs the fresh process of a violation again, and for comparison the one all are compared with.
func checkCold(c *Ctx, a []string) bool {
	var job coldJob
	if err := json.Unmarshal([]byte(a[1]), &job); err != nil {
		panic(err)
	}
	name := a[0]
	if f := strings.SplitN(name, " ", 3); len(f) == 3 && f[0] == "round" {
		name = f[2]
	}
	dir, err := os.MkdirTemp("", "cold")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	c.run.OutDir = dir
	if strings.HasPrefix(name, "concurrent") {
		bin := harnessBin()
		if strings.HasSuffix(name, " race") {
			bin = os.Getenv("HARNESS_RACE")
		}
		_, ok := c.run.runCold(name, bin, job, cleanEnv(), "/")
		return ok
	}
	for _, v := range []string{"clock", "variable", "without", "file"} {
		if strings.HasPrefix(name, v) {
			return c.run.surroundings(job.Seed, job.N, name) != nil
		}
	}
	vs := coldVariants(job.Seed, job.N, dir)
	ss := repertoire
	if job.Long {
		vs, ss = longVariants(job.Seed, job.N), longRepertoire
	}
	var ref reference
	for i, v := range vs {
		if i > 0 && v.name != name {
			continue
		}
		res, ok := c.run.runCold(v.name, v.bin, v.job, v.env, v.dir)
		if !ok {
			return false
		}
		c.run.compareCold(&ref, v.name, res, ss(job.Seed, job.N), v.job)
	}
	return true
}

func init() { registerC17() }
