package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ------------------------------------------------------------- randomness

// Rng is splitmix64: small, fast, and the same on every Go version.
type Rng struct{ s uint64 }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int         { return int(r.U64() % uint64(n)) }
func (r *Rng) In(a, b int) int     { return a + r.N(b-a+1) }
func (r *Rng) P(num, den int) bool { return r.N(den) < num }
func (r *Rng) Pick(ss ...string) string {
	return ss[r.N(len(ss))]
}

func hash64(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h ^= uint64(p[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	// avalanche
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func seedOf(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// ------------------------------------------------------------- properties

// Handler observes one case and reports violations through c.Fail. It returns
// true if the case was decided: some prediction was definite and was compared.
type Handler func(c *Ctx, args []string) bool

// Task is a unit of workload.
type Task struct {
	Name string
	Run  func(c *Ctx)
}

// Prop is one property's monitor and workload.
type Prop struct {
	ID      string
	Rule    string
	Kinds   map[string]Handler
	Plan    func(tier string) []Task
	Assume  []string
	Workers int // 0: one per core
	Exhaust bool
	Special func(run *Run) // replaces the worker pool
	Explain string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// ------------------------------------------------------------- violations

type Violation struct {
	Property string            `json:"property"`
	Kind     string            `json:"kind"`
	Args     []string          `json:"args"` // Go-quoted, as they may be any bytes
	Category string            `json:"category"`
	Message  string            `json:"message"`
	Seed     string            `json:"seed"`
	Tier     string            `json:"tier"`
	Extra    map[string]string `json:"extra,omitempty"`
}

// share32 is which cases of a property also run in a process whose int has 32
// bits (GOARCH=386): one in so many, and none of the properties not named.
var share32 = map[string]uint64{"C01": 4, "C02": 4, "C03": 4, "C04": 16, "C05": 2, "C06": 2, "C07": 8, "C08": 1, "C09": 2, "C10": 1, "C11": 1, "C12": 2,
	"C13": 4, "C14": 4, "C15": 2, "C16": 2, "C18": 1, "C21": 1, "C22": 1, "C23": 1, "C24": 8, "C25": 2}

// aloneKinds measure memory and time, and stay out of it.
var aloneKinds = map[string]bool{"cost": true, "kept": true, "growth": true, "goroutines": true}

// ------------------------------------------------------------- run state

type Run struct {
	Prop   *Prop
	Tier   string
	Seed   string
	OutDir string

	mu         sync.Mutex
	violations []Violation
	nviol      int64
	known      map[string]int // known findings that were seen

	// share is set where only one in so many cases runs: in the 32-bit process.
	share uint64

	// hung is set once a fresh process has hung.
	hung atomic.Bool

	bitmap  []uint32 // of the hashes of cases
	journal []byte

	counts  map[string]int64 // merged
	samples []string
	notes   map[string]interface{}
}

const slotSize = 8192

// Ctx is one worker's view.
type Ctx struct {
	*Rng
	run    *Run
	slot   []byte
	last   atomic.Int64 // unix nanoseconds at which the case began, for the watchdog
	counts map[string]int64
	nkind  map[string]*int64
	kind   string
	args   []string
	evals  int64
	dist   int64
	task   string
	samp   int
	tools  map[string]*driver
}

func (c *Ctx) Count(k string) { c.counts[k]++ }
func (c *Ctx) CountN(k string, n int64) {
	c.counts[k] += n
}

// Thorough reports whether the thorough tier runs.
func (c *Ctx) Thorough() bool { return c.run.Tier == "thorough" }

// Case runs one case of the workload under its monitor.
func (c *Ctx) Case(kind string, args ...string) {
	h := c.run.Prop.Kinds[kind]
	if h == nil {
		panic("no handler for " + kind)
	}
	if k := c.run.share; k != 0 {
		if aloneKinds[kind] || hash64(append([]string{kind}, args...)...)>>32%k != 0 {
			return
		}
	}
	c.kind, c.args = kind, args
	c.note(kind, args)
	c.evals++
	decided := c.guard(h, args)
	if decided {
		x := hash64(append([]string{kind}, args...)...)
		w := &c.run.bitmap[(x>>5)%uint64(len(c.run.bitmap))]
		b := uint32(1) << (x & 31)
		for {
			o := atomic.LoadUint32(w)
			if o&b != 0 {
				break
			}
			if atomic.CompareAndSwapUint32(w, o, o|b) {
				c.dist++
				break
			}
		}
		p := c.nkind[kind]
		if p == nil {
			p = new(int64)
			c.nkind[kind] = p
		}
		*p++
		n := *p
		// the 1st, 10th, 1000th... decided case of a kind is a sample
		if n == 1 || n == 50 || n == 5000 {
			if c.samp < 12 {
				c.samp++
				c.run.sample(fmt.Sprintf("[%s] %s %s", c.task, kind, quoteArgs(args)))
			}
		}
	} else {
		c.counts["undecided"]++
	}
	c.last.Store(0)
}

func quoteArgs(args []string) string {
	var q []string
	for _, a := range args {
		if len(a) > 120 {
			a = a[:120] + fmt.Sprintf("...(%d bytes)", len(a))
		}
		q = append(q, strconv.Quote(a))
	}
	return strings.Join(q, " ")
}

func (c *Ctx) guard(h Handler, args []string) (decided bool) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if !strings.Contains(st, "/go-edtf") && !strings.Contains(st, "/repo/") {
				panic(r) // a bug of the harness
			}
			c.Fail("panic", "panic: %v\n%s", r, trimStack(st))
			decided = true
		}
	}()
	return h(c, args)
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Fail reports a violation by the case which is running.
func (c *Ctx) Fail(category, format string, a ...interface{}) {
	c.run.report(Violation{
		Property: c.run.Prop.ID, Kind: c.kind, Args: append([]string(nil), c.args...),
		Category: category, Message: fmt.Sprintf(format, a...), Seed: c.run.Seed, Tier: c.run.Tier,
	})
}

func (r *Run) report(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if k := knownFinding(v); k != "" {
		r.known[k]++
		return
	}
	r.nviol++
	if len(r.violations) < 25 {
		for _, o := range r.violations {
			if o.Category == v.Category && o.Kind == v.Kind && len(r.violations) >= 10 {
				return
			}
		}
		r.violations = append(r.violations, v)
	}
}

func (r *Run) sample(s string) {
	r.mu.Lock()
	if len(r.samples) < 40 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// note writes the case to the journal, which survives the process.
func (c *Ctx) note(kind string, args []string) {
	c.last.Store(time.Now().UnixNano())
	if c.slot == nil {
		return
	}
	p, full := 4, 0
	put := func(s string) {
		if p+8 >= slotSize {
			full++ // the rest is not remembered
			return
		}
		if p+4+len(s) > slotSize-8 {
			if m := slotSize - 8 - p - 4; m > 0 {
				s = s[:m]
			} else {
				s = ""
			}
		}
		n := len(s)
		c.slot[p], c.slot[p+1], c.slot[p+2], c.slot[p+3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
		p += 4
		p += copy(c.slot[p:], s)
	}
	put(kind)
	for _, a := range args {
		put(a)
	}
	n := 1 + len(args) - full
	c.slot[0], c.slot[1], c.slot[2], c.slot[3] = byte(n), byte(n>>8), 0, 0
}

func readSlot(b []byte) (kind string, args []string, ok bool) {
	n := int(b[0]) | int(b[1])<<8
	if n == 0 {
		return
	}
	p := 4
	var out []string
	for i := 0; i < n; i++ {
		if p+4 > len(b) {
			break
		}
		l := int(b[p]) | int(b[p+1])<<8 | int(b[p+2])<<16 | int(b[p+3])<<24
		p += 4
		if l < 0 || p+l > len(b) {
			break
		}
		out = append(out, string(b[p:p+l]))
		p += l
	}
	if len(out) == 0 {
		return
	}
	return out[0], out[1:], true
}

// watchdogLimit is far beyond anything a call may take: a case takes microseconds.
const watchdogLimit = 90 * time.Second

// runPool runs the plan on all cores.
func (r *Run) runPool() (evals, dist int64) {
	tasks := r.Prop.Plan(r.Tier)
	nw := runtime.NumCPU()
	if nw > 16 {
		nw = 16
	}
	if r.Prop.Workers > 0 {
		nw = r.Prop.Workers
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	ctxs := make([]*Ctx, nw)
	for w := 0; w < nw; w++ {
		c := &Ctx{run: r, counts: map[string]int64{}, nkind: map[string]*int64{}}
		if r.journal != nil && (w+1)*slotSize <= len(r.journal) {
			c.slot = r.journal[w*slotSize : (w+1)*slotSize]
		}
		ctxs[w] = c
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				c.Rng = &Rng{seedOf(r.Seed, r.Prop.ID, strconv.Itoa(i))}
				c.task = tasks[i].Name
				c.counts["task "+tasks[i].Name]++
				t := time.Now()
				tasks[i].Run(c)
				c.counts["task "+c.task+", ms"] += time.Since(t).Milliseconds()
			}
		}()
	}
	done := make(chan struct{})
	go watchdog(ctxs, done)
	for i := range tasks {
		ch <- i
	}
	close(ch)
	wg.Wait()
	close(done)
	return r.merge(ctxs)
}

func (r *Run) merge(ctxs []*Ctx) (evals, dist int64) {
	for _, c := range ctxs {
		evals += c.evals
		dist += c.dist
		for k, v := range c.counts {
			if strings.HasPrefix(k, "largest ") {
				if v > r.counts[k] {
					r.counts[k] = v
				}
				continue
			}
			r.counts[k] += v
		}
		for k, v := range c.nkind {
			r.counts["decided "+k] += *v
		}
	}
	return
}

func watchdog(ctxs []*Ctx, done chan struct{}) {
	for {
		select {
		case <-done:
			return
		case <-time.After(5 * time.Second):
		}
		now := time.Now().UnixNano()
		for w, c := range ctxs {
			l := c.last.Load()
			if l != 0 && now-l > int64(watchdogLimit) {
				fmt.Fprintf(os.Stderr, "watchdog: worker %d has been busy with one case for more than %v\n", w, watchdogLimit)
				os.Exit(exitHang)
			}
		}
	}
}

// serial runs one workload alone in the process, so that what the process
// spends is what the case spends.
func (r *Run) serial(name string, f func(c *Ctx)) {
	c := &Ctx{run: r, counts: map[string]int64{}, nkind: map[string]*int64{}, task: name}
	if r.journal != nil {
		c.slot = r.journal[:slotSize]
	}
	c.Rng = &Rng{seedOf(r.Seed, r.Prop.ID, name)}
	done := make(chan struct{})
	go watchdog([]*Ctx{c}, done)
	t := time.Now()
	f(c)
	close(done)
	r.counts["task "+name+", ms"] += time.Since(t).Milliseconds()
	e, d := r.merge([]*Ctx{c})
	r.counts["evaluations"] += e
	r.counts["distinct"] += d
	r.counts["task "+name]++
}

const exitHang = 97

// exitHarness: the harness itself is at fault, or what it needs is missing.
const exitHarness = 3

// ------------------------------------------------------------- known findings

var knownList []knownEntry

type knownEntry struct {
	prop, kind, args string
	what             string
}

// known-findings.txt holds "fixed: ..." lines, which suppress nothing, and
// lines `finding: property=<id> kind=<kind> args=<Go-quoted args> <what fails>`.
func loadKnown(dir string) {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(l, " | ", 4)
		if len(f) != 4 {
			continue
		}
		knownList = append(knownList, knownEntry{
			prop: strings.TrimPrefix(f[0], "finding: property="), kind: f[1], args: f[2], what: f[3]})
	}
}

func knownFinding(v Violation) string {
	for _, k := range knownList {
		if k.prop == v.Property && k.kind == v.Kind && k.args == quoteArgs(v.Args) {
			return fmt.Sprintf("KNOWN-FINDING: property=%s %s", k.prop, k.what)
		}
	}
	return ""
}

// ------------------------------------------------------------- evidence

type childResult struct {
	Evals, Distinct int64
	Counts          map[string]int64
	Samples         []string
	Violations      []Violation
	NViol           int64
	Known           map[string]int
	Notes           map[string]interface{}
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func sortedKeys(m map[string]int64) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func mmapFile(path string, size int) ([]byte, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(int64(size)); err != nil {
		return nil, err
	}
	return syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
}
