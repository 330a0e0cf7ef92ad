package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/sfomuseum/go-edtf/parser"
)

// The tools are built by check.sh from /repo's working tree, into this directory.
func toolDir() string {
	d := os.Getenv("HARNESS_TOOLS")
	if d == "" {
		fmt.Fprintln(os.Stderr, "the tools' directory HARNESS_TOOLS is not set: use check.sh")
		os.Exit(exitHarness)
	}
	return d
}

// driver is a node process which answers lines of JSON.
type driver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
}

// Node's WASI crashes now and then where its calls are "fast API calls".
func startDriver(args ...string) *driver {
	d := &driver{cmd: exec.Command("node", append([]string{"--no-warnings", "--no-turbo-fast-api-calls"}, args...)...)}
	d.cmd.Env = cleanEnv()
	d.cmd.Stderr = &d.err
	var err error
	if d.in, err = d.cmd.StdinPipe(); err == nil {
		var o io.Reader
		if o, err = d.cmd.StdoutPipe(); err == nil {
			d.out = bufio.NewReaderSize(o, 1<<20)
			err = d.cmd.Start()
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "node:", err)
		os.Exit(exitHarness)
	}
	return d
}

// crash is the end of a node process by a signal. WebAssembly cannot do that to
// it: node has been seen to do so by itself (a segmentation fault in one of some
// thousand requests, and not for the same request again).
type crash struct{ error }

// again runs f, and does so once more, with a new driver, where node crashes. What
// crashes it five times is reported.
func (c *Ctx) again(kind string, f func() error) error {
	for i := 0; ; i++ {
		err := f()
		if err == nil {
			return nil
		}
		if _, ok := err.(*crash); !ok || i == 4 {
			return err
		}
		c.dropDriver(kind)
		c.Count("crashes of node, tried again")
	}
}

// died is how the process ended, which no longer reads or writes.
func (d *driver) died(cause error) error {
	d.in.Close()
	t := time.AfterFunc(5*time.Second, func() { d.cmd.Process.Signal(os.Interrupt) })
	werr := d.cmd.Wait()
	inTime := t.Stop()
	e := d.err.Bytes()
	if len(e) > 2000 {
		e = e[len(e)-2000:]
	}
	err := fmt.Errorf("the node process died: %v, %v %s", cause, werr, e)
	if st := d.cmd.ProcessState; inTime && st != nil && !st.Exited() {
		return &crash{err}
	}
	return err
}

// ask sends a request. The answer's "failed" and a silence are errors.
func (d *driver) ask(req, rsp interface{}) error {
	b, err := json.Marshal(req)
	if err != nil {
		panic(err)
	}
	if _, err := d.in.Write(append(b, '\n')); err != nil {
		return d.died(err)
	}
	type answer struct {
		b   []byte
		err error
	}
	ch := make(chan answer, 1)
	go func() {
		// what a program prints to the same stream may precede the answer
		for {
			l, err := d.out.ReadBytes('\n')
			if err != nil || bytes.HasPrefix(l, []byte("{")) {
				ch <- answer{l, err}
				return
			}
		}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			return d.died(a.err)
		}
		var f struct {
			Failed string `json:"failed"`
		}
		if err := json.Unmarshal(a.b, &f); err == nil && f.Failed != "" {
			return fmt.Errorf("%s", f.Failed)
		}
		return json.Unmarshal(a.b, rsp)
	case <-time.After(80 * time.Second):
		d.cmd.Process.Kill()
		return fmt.Errorf("no answer within 80 s")
	}
}

func (d *driver) stop() {
	d.in.Close()
	done := make(chan bool, 1)
	go func() { d.cmd.Wait(); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		d.cmd.Process.Kill()
		<-done
	}
}

// driverOf is this worker's driver of a kind; dead ones are replaced.
func (c *Ctx) driverOf(kind string) *driver {
	if c.tools == nil {
		c.tools = map[string]*driver{}
	}
	if d := c.tools[kind]; d != nil {
		return d
	}
	t := toolDir()
	js := filepath.Join(os.Getenv("HARNESS_JS"))
	var d *driver
	switch kind {
	case "wasi":
		d = startDriver(filepath.Join(js, "wasi.mjs"), filepath.Join(t, "parse-p1.wasm"))
	case "js":
		d = startDriver(filepath.Join(js, "js.mjs"), filepath.Join(t, "parse-js.wasm"), os.Getenv("HARNESS_WASM_EXEC"))
	case "page":
		d = startDriver(filepath.Join(js, "page.mjs"))
	}
	c.tools[kind] = d
	return d
}

func (c *Ctx) dropDriver(kind string) {
	if d := c.tools[kind]; d != nil {
		delete(c.tools, kind)
		d.cmd.Process.Kill()
		d.cmd.Wait()
	}
}

// want is what the library says of a string.
func want(s string) (js string, errMsg string) {
	d, err := parser.ParseString(s)
	if err != nil {
		return "", err.Error()
	}
	b, err := json.Marshal(d)
	if err != nil {
		return "", err.Error()
	}
	return string(b), ""
}

func sameJSON(a, b string) bool {
	if a == b {
		return true
	}
	dec := func(s string) (v interface{}, ok bool) {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		if d.Decode(&v) != nil {
			return nil, false
		}
		_, err := d.Token()
		return v, err == io.EOF
	}
	x, ok1 := dec(a)
	y, ok2 := dec(b)
	return ok1 && ok2 && reflect.DeepEqual(x, y)
}

// ------------------------------------------------------------- C19

type toolRun struct {
	stdout, stderr string
	code           int
}

func runTool(c *Ctx, name string, args []string) (r toolRun, ok bool) {
	cmd := exec.Command(filepath.Join(toolDir(), name), append([]string{"--"}, args...)...)
	cmd.Env = cleanEnv()
	// the surroundings differ from list to list; the same list has the same ones when it is run again
	h := fnv.New32a()
	for _, a := range args {
		h.Write([]byte(a + "\x00"))
	}
	x := h.Sum32() >> 3
	if v := []string{"", "TZ=America/St_Johns", "TZ=Asia/Kathmandu", "LANG=de_CH.UTF-8", "LC_ALL=tr_TR.UTF-8", "NO_COLOR=1", "DEBUG=1", "GOMAXPROCS=1", "TERM=xterm-256color", "COLUMNS=40", "EDTF=2004"}[x%11]; v != "" {
		cmd.Env = append(cmd.Env, v)
		c.Count("tools run with another environment")
	}
	cmd.Dir = []string{"/", "/tmp", ""}[x/11%3]
	if x/33%3 == 0 || len(args) == 0 {
		cmd.Stdin = strings.NewReader("2004-06-11\nbogus\n")
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, name, err)
		os.Exit(exitHarness)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		c.Fail("hang", "%s did not exit within 60 s", name)
		return r, false
	}
	if err != nil {
		if _, is := err.(*exec.ExitError); !is {
			fmt.Fprintln(os.Stderr, name, err)
			os.Exit(exitHarness)
		}
	}
	return toolRun{o.String(), e.String(), cmd.ProcessState.ExitCode()}, true
}

func checkParseTool(c *Ctx, a []string) bool {
	r, ok := runTool(c, "parse", a)
	if !ok {
		return true
	}
	bad := -1
	var js []string
	for i, s := range a {
		j, e := want(s)
		if e != "" {
			bad = i
			break
		}
		js = append(js, j)
	}
	if bad >= 0 {
		c.Count("parse: refused")
		if r.code == 0 {
			c.Fail("exit", "parse exits 0, but %q does not parse; it printed %s", a[bad], head(r.stdout, 500))
		}
		if !strings.Contains(r.stderr, a[bad]) {
			c.Fail("stderr", "parse does not name %q on standard error: %q", a[bad], head(r.stderr, 500))
		}
		return true
	}
	if r.code != 0 {
		c.Fail("exit", "parse exits %d, but every string parses: %s", r.code, head(r.stderr, 500))
		return true
	}
	var got []json.RawMessage
	d := json.NewDecoder(strings.NewReader(r.stdout))
	if err := d.Decode(&got); err != nil {
		c.Fail("json", "parse prints no JSON array: %v: %s", err, head(r.stdout, 500))
		return true
	}
	if _, err := d.Token(); err != io.EOF {
		c.Fail("json", "parse prints more than one array: %s", head(r.stdout, 500))
		return true
	}
	if got == nil || len(got) != len(a) {
		c.Fail("json", "parse prints %d objects for %d strings: %s", len(got), len(a), head(r.stdout, 500))
		return true
	}
	for i := range got {
		c.Count("parse: objects")
		if !sameJSON(string(got[i]), js[i]) {
			c.Fail("json", "object %d is %s, the library says %s", i, head(string(got[i]), 700), head(js[i], 700))
			return true
		}
	}
	return true
}

func checkMatchesTool(c *Ctx, a []string) bool {
	r, ok := runTool(c, "matches", a)
	if !ok {
		return true
	}
	var lines strings.Builder
	bad := -1
	for i, s := range a {
		l, f, err := parser.Matches(s)
		if err != nil {
			bad = i
			break
		}
		fmt.Fprintf(&lines, "%s level %d (%s)\n", s, l, f)
	}
	if strings.TrimSuffix(r.stdout, "\n") != strings.TrimSuffix(lines.String(), "\n") {
		c.Fail("lines", "matches prints %q, should print %q", head(r.stdout, 700), head(lines.String(), 700))
	}
	c.CountN("matches: lines", int64(strings.Count(lines.String(), "\n")))
	if bad >= 0 {
		c.Count("matches: refused")
		if r.code == 0 {
			c.Fail("exit", "matches exits 0, but %q does not match", a[bad])
		}
		if !strings.Contains(r.stderr, a[bad]) {
			c.Fail("stderr", "matches does not name %q on standard error: %q", a[bad], head(r.stderr, 500))
		}
	} else if r.code != 0 {
		c.Fail("exit", "matches exits %d, but every string matches: %s", r.code, head(r.stderr, 500))
	}
	return true
}

func checkWasi(c *Ctx, a []string) bool {
	var r struct {
		Code   int    `json:"code"`
		Stdout string `json:"stdout"`
		Stderr string `json:"stderr"`
	}
	err := c.again("wasi", func() error {
		return c.driverOf("wasi").ask(map[string]interface{}{"args": append([]string{"--"}, a...)}, &r)
	})
	if err != nil {
		c.Fail("wasi", "the WASI program: %v", err)
		c.dropDriver("wasi")
		return true
	}
	if r.Code != 0 {
		c.Fail("wasi", "the WASI program exits %d: %s", r.Code, head(r.Stderr, 1000))
		return true
	}
	rest := r.Stdout
	for i, s := range a {
		js, e := want(s)
		c.Count("wasi: answers")
		if e != "" {
			if !strings.HasPrefix(rest, e+"\n") {
				c.Fail("wasi", "line %d is %q, should be the error %q", i, head(rest, 500), e)
				return true
			}
			rest = rest[len(e)+1:]
			continue
		}
		l := strings.IndexByte(rest, '\n')
		if l < 0 {
			c.Fail("wasi", "there is no line %d: %q", i, head(rest, 500))
			return true
		}
		if !sameJSON(rest[:l], js) {
			c.Fail("wasi", "line %d is %s, the library says %s", i, head(rest[:l], 700), head(js, 700))
			return true
		}
		rest = rest[l+1:]
	}
	if rest != "" {
		c.Fail("wasi", "there are more lines than strings: %q", head(rest, 500))
	}
	return true
}

// checkJS: args[0] is how the calls are made.
func checkJS(c *Ctx, a []string) bool {
	var r struct {
		Results []struct {
			Promise bool   `json:"promise"`
			State   string `json:"state"`
			Type    string `json:"type"`
			Value   string `json:"value"`
		} `json:"results"`
		Exited bool `json:"exited"`
		Ready  bool `json:"ready"`
	}
	mode, ss := a[0], a[1:]
	err := c.again("js", func() error {
		return c.driverOf("js").ask(map[string]interface{}{"mode": mode, "strings": ss}, &r)
	})
	if err != nil {
		c.Fail("js", "calls of parse_edtf: %v\n%s", err, head(c.driverOf("js").err.String(), 2000))
		c.dropDriver("js")
		return true
	}
	if r.Exited || !r.Ready {
		c.Fail("js", "the program has exited, or never defined parse_edtf")
		c.dropDriver("js")
		return true
	}
	if len(r.Results) != len(ss) {
		c.Fail("js", "%d answers to %d calls", len(r.Results), len(ss))
		return true
	}
	for i, x := range r.Results {
		js, e := want(ss[i])
		c.Count("js: answers, calls made " + mode)
		switch {
		case !x.Promise:
			c.Fail("js", "parse_edtf(%q) is not a promise: %s %s", ss[i], x.State, head(x.Value, 500))
		case e == "" && (x.State != "resolved" || !sameJSON(x.Value, js)):
			c.Fail("js", "parse_edtf(%q) is %s with %s, should be resolved with %s", ss[i], x.State, head(x.Value, 700), head(js, 700))
		case e != "" && (x.State != "rejected" || !strings.Contains(x.Value, e) || !strings.Contains(x.Value, ss[i])):
			c.Fail("js", "parse_edtf(%q) is %s with %q, should be rejected with its name and %q", ss[i], x.State, head(x.Value, 700), e)
		default:
			continue
		}
		return true
	}
	return true
}

// argOK: what can be an argument of a process.
func argOK(s string) bool { return !strings.Contains(s, "\x00") && len(s) < 60000 }

func textOK(s string) bool { return utf8.ValidString(s) && argOK(s) }

func goodString(r *Rng) string {
	for {
		s := genAny(r)
		if _, err := parser.ParseString(s); err == nil && textOK(s) {
			return s
		}
	}
}

func oddString(r *Rng, ok func(string) bool) string {
	for {
		var s string
		switch r.N(10) {
		case 0:
			s = hostile(r, 128)
		case 1:
			s = r.Pick("", "..", " ", "'", "''", "%s", "%d%v", "100%", "2004%!", "\"2004\"", "`", "<b>", "日本", "２００４", "2004-06-11'", "\\", "2004\n", "\n", "a\nb", "🙂", "é", "--", "-h", "--help", "-1", "null", "[]", "2004,2005", "\u2028", "-", "@/etc/passwd", "/etc/passwd", "file:///etc/hostname", "$HOME", "~", "*", "2004 2005", "2004;2005", "{}", "[2004", "2004]", "0x7d4", "2004\t", "2004\r\n", "open", "uuuu", "2004/open", "ß", "ſpring, 2004", "İ")
		case 2, 3, 4:
			s = genJunk(r)
		case 5:
			s = genOddMask(r)
		case 6:
			s = editOf(r, genAny(r))
		default:
			s = genAny(r)
		}
		if ok(s) {
			return s
		}
	}
}

// batch is a list of arguments: all good, or with bad ones among them.
func batch(r *Rng, ok func(string) bool) []string {
	n := 0
	switch r.N(8) {
	case 0:
		n = r.N(3)
	case 1:
		n = r.In(100, 300)
	default:
		n = r.In(2, 40)
	}
	var a []string
	for i := 0; i < n; i++ {
		a = append(a, goodString(r))
	}
	if r.P(1, 2) && n > 0 {
		for k := r.In(1, 3); k > 0; k-- {
			a[r.N(n)] = oddString(r, ok)
		}
	}
	if r.P(1, 4) && n > 1 {
		a[r.N(n)] = a[r.N(n)]
	}
	if r.P(1, 4) && n > 1 {
		// the one before in other letters, where that parses too
		i := r.N(n - 1)
		v := r.Pick(strings.ToUpper(a[i]), strings.ToLower(a[i]), strings.ToUpper(a[i]))
		if strings.ContainsAny(a[i], "pring") {
			v = strings.ToUpper(a[i][:1]) + strings.ToLower(a[i][1:])
			if v == a[i] {
				v = strings.ToUpper(v)
			}
		}
		if _, err := parser.ParseString(v); err == nil {
			a[i+1] = v
		}
	}
	if r.P(1, 6) && n > 1 {
		// two spellings of one season
		w := r.Pick("Spring", "Summer", "Fall", "Winter")
		y := fmt.Sprintf(", %04d", r.N(10000))
		a[r.N(n)] = r.Pick(w, strings.ToLower(w), strings.ToUpper(w)) + y
		a[r.N(n)] = r.Pick(w, strings.ToLower(w), strings.ToUpper(w)) + y
	}
	return a
}

func registerC19() {
	args := func(c *Ctx) []string { return batch(c.Rng, argOK) }
	texts := func(c *Ctx) []string {
		var a []string
		for _, s := range batch(c.Rng, textOK) {
			if c.P(1, 3) {
				s = oddString(c.Rng, textOK)
			}
			a = append(a, s)
		}
		return a
	}
	register(&Prop{ID: "C19", Assume: []string{assumeGo, "node 22's WASI and WebAssembly stand for other hosts; wasm_exec.js is that of the toolchain", "arguments follow \"--\", so that those which begin with a hyphen are not options"},
		Rule: "the four programs, built from the working tree, run on lists of 0 to 300 strings of every feature, on lists with strings which do not parse at any place, and on each string of a corpus alone; parse_edtf of one instance is called in turn, all at once, and from within the delivery of the answer before; decided when the whole output, exit status and error stream were compared with the library's answers",
		Kinds: map[string]Handler{
			"parse": checkParseTool, "matches": checkMatchesTool, "wasi": checkWasi, "js": checkJS,
			"long parse": long(checkParseTool), "long matches": long(checkMatchesTool), "long wasi": long(checkWasi),
			"long js": long(func(c *Ctx, a []string) bool { return checkJS(c, []string{a[1], a[2], a[0], a[3]}) }),
		},
		Plan: func(tier string) []Task {
			return concat(
				[]Task{{"corpus", func(c *Ctx) {
					c.Case("parse")
					c.Case("matches")
					c.Case("wasi")
					c.Case("parse", corpus...)
					c.Case("matches", corpus...)
					c.Case("wasi", corpus...)
					for _, m := range []string{"each", "together", "nested"} {
						c.Case("js", append([]string{m}, corpus...)...)
					}
				}}, {"alone", func(c *Ctx) {
					for _, s := range append([]string{"", "..", "%s", "'", "2004\n", "-2004", "--", "-h"}, corpus...) {
						c.Case("parse", s)
						c.Case("matches", s)
						if c.P(1, 4) {
							c.Case("wasi", s)
						}
					}
				}}, {"bad at each place", func(c *Ctx) {
					for n := 1; n <= 12; n++ {
						for i := 0; i < n; i++ {
							var a []string
							for j := 0; j < n; j++ {
								a = append(a, goodString(c.Rng))
							}
							a[i] = c.Pick("bogus", "2004-13", "2004-02-30", "%s", "1990-XX-31-", "2004-06-11T25:00:00Z")
							c.Case("parse", a...)
							c.Case("matches", a...)
						}
					}
				}}, {"large", func(c *Ctx) {
					for _, n := range []int{255, 256, 1000, 3000} {
						var a []string
						for len(a) < n {
							a = append(a, goodString(c.Rng))
						}
						c.Case("parse", a...)
						c.Case("matches", a...)
						c.Case("wasi", a...)
						c.Case("js", append([]string{"together"}, a...)...)
						c.Case("js", append([]string{"each"}, a...)...)
					}
					c.Case("parse", strings.Repeat("9", 50000))
					c.Case("parse", "["+strings.Repeat("2004,", 8000)+"2005]")
					c.Case("matches", "["+strings.Repeat("2004,", 8000)+"2005]")
				}}},
				longToolTasks(tier),
				randTasks("parse", scale(tier, 1200, 60), func(c *Ctx) { c.Case("parse", args(c)...) }),
				randTasks("matches", scale(tier, 1200, 60), func(c *Ctx) { c.Case("matches", args(c)...) }),
				randTasks("wasi", scale(tier, 250, 80), func(c *Ctx) { c.Case("wasi", texts(c)...) }),
				randTasks("js", scale(tier, 900, 60), func(c *Ctx) {
					c.Case("js", append([]string{c.Pick("each", "together", "nested")}, texts(c)...)...)
				}),
			)
		}})
}

// longToolTasks gives each tool long strings, with others after them. (The
// system takes no argument of more than 128 KiB.)
func longToolTasks(tier string) (ts []Task) {
	for _, f := range longForms {
		f := f
		ts = append(ts, Task{"long", func(c *Ctx) {
			sizes := []int{250, 1030, 4100, 8200, 16400, 33000, 66000, 120000}
			for i, n := range sizes {
				if tier != "thorough" && (i+len(f.name))%2 == 0 {
					continue
				}
				s := strconv.Itoa(n)
				c.Case("long parse", f.name, s, "2004")
				c.Case("long matches", f.name, s, "2004-06")
				if utf8.ValidString(f.f(100)) {
					c.Case("long wasi", f.name, s, "2004?")
					c.Case("long js", f.name, s, c.Pick("each", "together", "nested"), "1990", "2004-06-11")
					if tier == "thorough" {
						c.Case("long js", f.name, s+"0", "each", "1990", "2004-06-11")
					}
				}
			}
		}})
	}
	return
}

// ------------------------------------------------------------- C20

type server struct {
	cmd  *exec.Cmd
	host string
	port int
	base string
}

var (
	serverMu sync.Mutex
	serverOf *server
)

// startServer starts the server on a free port of an address of the loopback network.
func startServer(host string, how int) (*server, error) {
	return startServerAt(host, 0, how, "/")
}

// errTaken: the port is not free.
var errTaken = errors.New("the port is taken")

// startServerAt starts it on a certain port, if that is not 0, and in a directory.
func startServerAt(host string, at, how int, dir string) (*server, error) {
	var last error
	for try := 0; try < 8; try++ {
		l, err := net.Listen("tcp", net.JoinHostPort(host, fmt.Sprint(at)))
		if err != nil {
			if at != 0 {
				return nil, errTaken
			}
			return nil, err
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		var args []string
		switch how % 3 {
		case 0:
			args = []string{"-host", host, "-port", fmt.Sprint(port)}
		case 1:
			args = []string{fmt.Sprintf("--port=%d", port), "--host=" + host}
		case 2:
			args = []string{"-port", fmt.Sprint(port)} // the host is localhost unless given
		}
		if port == 8080 && how%3 == 2 {
			args = nil // which is the port unless given
		}
		s := &server{cmd: exec.Command(filepath.Join(toolDir(), "server"), args...), host: host, port: port}
		s.cmd.Dir = dir
		s.cmd.Env = cleanEnv()
		if at != 0 {
			s.cmd.Env = append(s.cmd.Env, "PORT=1", "HOST=192.0.2.1", "ADDR=:1", "DEBUG=1", "ENV=development", "DEV=1")
		}
		var eb syncBuffer
		s.cmd.Stderr = &eb
		s.base = "http://" + net.JoinHostPort(host, fmt.Sprint(port))
		if err := s.cmd.Start(); err != nil {
			return nil, err
		}
		gone := make(chan error, 1)
		go func() { gone <- s.cmd.Wait() }()
		t0 := time.Now()
		for time.Since(t0) < 20*time.Second {
			select {
			case e := <-gone:
				last = fmt.Errorf("the server exited (%v): %s", e, head(eb.String(), 1000))
				t0 = time.Time{}
				continue
			default:
			}
			k, err := net.DialTimeout("tcp", net.JoinHostPort(host, fmt.Sprint(port)), time.Second)
			if err == nil {
				k.Close()
				return s, nil
			}
			last = fmt.Errorf("the server does not listen on %s:%d after 20 s: %v", host, port, err)
			time.Sleep(5 * time.Millisecond)
		}
		s.cmd.Process.Kill()
		if !strings.Contains(last.Error(), "address already in use") {
			return nil, last
		}
		if at != 0 {
			return nil, errTaken
		}
	}
	return nil, last
}

type syncBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuffer) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}
func (s *syncBuffer) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

func (s *server) stop() {
	s.cmd.Process.Kill()
}

// theServer is the server all cases share.
func theServer(c *Ctx) *server {
	serverMu.Lock()
	defer serverMu.Unlock()
	if serverOf == nil {
		s, err := startServer("127.0.0.1", 0)
		if err != nil {
			c.Fail("listen", "%v", err)
			return nil
		}
		serverOf = s
	}
	return serverOf
}

// assets are the files the server is to serve, by path.
var assets = sync.OnceValue(func() map[string][]byte {
	m := map[string][]byte{}
	root := "/repo/app/server/www"
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if strings.HasPrefix(filepath.Base(p), ".") || strings.HasPrefix(filepath.Base(p), "_") {
			return nil
		}
		if strings.HasPrefix(rel, "css/") || strings.HasPrefix(rel, "javascript/") || !strings.Contains(rel, "/") && strings.HasSuffix(rel, ".html") {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m["/"+rel] = b
			if rel == "index.html" {
				m["/"] = b
			}
		}
		return nil
	})
	for _, w := range []string{"parse-js.wasm", "parse-p1.wasm"} {
		b, err := os.ReadFile(filepath.Join(toolDir(), w))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitHarness)
		}
		m["/wasm/"+w] = b
	}
	if len(m["/"]) == 0 {
		fmt.Fprintln(os.Stderr, "no page in "+root)
		os.Exit(exitHarness)
	}
	return m
})

func assetPaths() []string {
	var ps []string
	for p := range assets() {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

func typeFits(path, ct string) bool {
	ct = strings.ToLower(strings.TrimSpace(strings.SplitN(ct, ";", 2)[0]))
	switch {
	case path == "/" || strings.HasSuffix(path, ".html"):
		return ct == "text/html"
	case strings.HasSuffix(path, ".css"):
		return ct == "text/css"
	case strings.HasSuffix(path, ".js"):
		return ct == "text/javascript" || ct == "application/javascript"
	case strings.HasSuffix(path, ".wasm"):
		return ct == "application/wasm"
	}
	return true
}

var client = &http.Client{
	Timeout: 60 * time.Second,
	Transport: &http.Transport{
		MaxIdleConnsPerHost: 64, DisableCompression: true,
	},
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
}

// checkAsset: one file, by a method, byte for byte. /index.html may lead to /.
func checkAsset(c *Ctx, a []string) bool {
	s := theServer(c)
	if s == nil {
		return true
	}
	method, path := a[0], a[1]
	body := assets()[path]
	req, err := http.NewRequest(method, s.base+path, nil)
	if err != nil {
		panic(err)
	}
	if len(a) > 2 && a[2] != "" {
		req.Header.Set("Range", a[2])
	}
	if len(a) > 3 {
		for _, h := range strings.Split(a[3], "\n") {
			if k, v, ok := strings.Cut(h, ": "); ok {
				req.Header.Set(k, v)
			}
		}
	}
	rsp, err := client.Do(req)
	if err != nil {
		c.Fail("asset", "%s %s: %v", method, path, err)
		return true
	}
	defer rsp.Body.Close()
	got, err := io.ReadAll(rsp.Body)
	if err == nil && rsp.Header.Get("Content-Encoding") == "gzip" && method != "HEAD" {
		// it was asked for
		var z *gzip.Reader
		if z, err = gzip.NewReader(bytes.NewReader(got)); err == nil {
			got, err = io.ReadAll(z)
		}
	}
	if err != nil {
		c.Fail("asset", "%s %s: %v", method, path, err)
		return true
	}
	c.Count("status " + fmt.Sprint(rsp.StatusCode))
	if path == "/index.html" && rsp.StatusCode/100 == 3 {
		if l := rsp.Header.Get("Location"); l != "./" && l != "/" {
			c.Fail("asset", "%s leads to %q", path, l)
		}
		return true
	}
	if len(a) > 2 && a[2] != "" && rsp.StatusCode == 206 {
		var from, to int
		fmt.Sscanf(a[2], "bytes=%d-%d", &from, &to)
		if to >= len(body) {
			to = len(body) - 1
		}
		if !bytes.Equal(got, body[from:to+1]) {
			c.Fail("asset", "%s %s, %s: other bytes", method, path, a[2])
		}
		return true
	}
	if rsp.StatusCode != 200 {
		c.Fail("asset", "%s %s has status %d", method, path, rsp.StatusCode)
		return true
	}
	if !typeFits(path, rsp.Header.Get("Content-Type")) {
		c.Fail("type", "%s %s has content type %q", method, path, rsp.Header.Get("Content-Type"))
	}
	if method == "HEAD" {
		if len(got) != 0 || rsp.Header.Get("Content-Encoding") == "" && rsp.ContentLength >= 0 && rsp.ContentLength != int64(len(body)) {
			c.Fail("asset", "HEAD %s: length %d, should be %d", path, rsp.ContentLength, len(body))
		}
		return true
	}
	if !bytes.Equal(got, body) {
		c.Fail("asset", "%s %s: %d bytes which are not the file's %d", method, path, len(got), len(body))
	}
	return true
}

func rawGet(s *server, path string) (rsp *http.Response, body []byte, err error) {
	return rawAsk(s, "GET", path, "")
}

// headersOf is what clients of different kinds send along.
func headersOf(r *Rng) string {
	all := []string{
		"Accept: text/html,application/xhtml+xml,application/xml;q=0.9,*/*;q=0.8",
		"Accept: */*", "Accept: application/json", "Accept: application/wasm", "Accept: text/css,*/*;q=0.1", "Accept: image/avif,image/webp",
		"Accept-Encoding: gzip", "Accept-Encoding: identity", "Accept-Language: de-CH, fr;q=0.5",
		"User-Agent: Mozilla/5.0 (X11; Linux x86_64; rv:128.0) Gecko/20100101 Firefox/128.0", "User-Agent: curl/8.5.0", "User-Agent: Googlebot/2.1 (+http://www.google.com/bot.html)",
		"Sec-Fetch-Mode: navigate", "Sec-Fetch-Mode: cors", "Sec-Fetch-Dest: document", "Upgrade-Insecure-Requests: 1",
		"Referer: http://localhost:8080/", "Origin: http://example.com", "Cookie: session=1; admin=true", "Authorization: Basic YTpi",
		"X-Forwarded-For: 10.0.0.1", "X-Forwarded-Host: example.com", "X-Forwarded-Proto: https", "X-Forwarded-Prefix: /..", "X-Original-URL: /index.html", "X-Rewrite-URL: /etc/passwd", "X-HTTP-Method-Override: PUT",
		"Cache-Control: no-cache", "Pragma: no-cache", "X-Requested-With: XMLHttpRequest", "DNT: 1", "Save-Data: on", "Purpose: prefetch",
	}
	if r.P(1, 4) {
		// a browser's own
		return strings.Join([]string{all[0], all[8], all[9], all[12], all[14], all[15]}, "\n")
	}
	var hs []string
	names := map[string]bool{}
	for i := r.In(1, 4); i > 0; i-- {
		h := r.Pick(all...)
		if k := strings.SplitN(h, ":", 2)[0]; !names[k] {
			names[k] = true
			hs = append(hs, h)
		}
	}
	return strings.Join(hs, "\n")
}

// rawAsk sends a path as it is.
func rawAsk(s *server, method, path, headers string) (rsp *http.Response, body []byte, err error) {
	k, err := net.DialTimeout("tcp", net.JoinHostPort(s.host, fmt.Sprint(s.port)), 10*time.Second)
	if err != nil {
		return nil, nil, err
	}
	defer k.Close()
	k.SetDeadline(time.Now().Add(30 * time.Second))
	if headers != "" {
		headers = strings.ReplaceAll(headers, "\n", "\r\n") + "\r\n"
	}
	if method != "GET" {
		headers += "Content-Length: 0\r\n"
	}
	fmt.Fprintf(k, "%s %s HTTP/1.1\r\nHost: %s:%d\r\n%sConnection: close\r\n\r\n", method, path, s.host, s.port, headers)
	rsp, err = http.ReadResponse(bufio.NewReader(k), nil)
	if err != nil {
		return nil, nil, err
	}
	body, err = io.ReadAll(rsp.Body)
	rsp.Body.Close()
	if err == nil && rsp.Header.Get("Content-Encoding") == "gzip" {
		var z *gzip.Reader
		if z, err = gzip.NewReader(bytes.NewReader(body)); err == nil {
			body, err = io.ReadAll(z)
		}
	}
	return
}

// checkOther: any path. Only the files and the listings of the served directories are found.
func checkOther(c *Ctx, a []string) bool {
	s := theServer(c)
	if s == nil {
		return true
	}
	path, headers, method := a[0], "", "GET"
	if len(a) > 1 {
		headers = a[1]
	}
	if len(a) > 2 {
		method = a[2]
	}
	with := ""
	if headers != "" {
		with = fmt.Sprintf(" (with %q)", headers)
	}
	for hop := 0; hop < 6; hop++ {
		rsp, body, err := rawAsk(s, method, path, headers)
		if err != nil {
			c.Fail("other", "%s %q%s: %v", method, path, with, err)
			return true
		}
		c.Count(fmt.Sprintf("status %d", rsp.StatusCode))
		switch {
		case rsp.StatusCode == 404 || rsp.StatusCode == 400 || rsp.StatusCode == 405 || rsp.StatusCode == 403 || rsp.StatusCode == 414 || method != "GET" && rsp.StatusCode == 501:
			if len(body) > 1000 {
				c.Fail("other", "%s %q%s: status %d with %d bytes: %q", method, path, with, rsp.StatusCode, len(body), head(string(body), 300))
			}
			return true
		case rsp.StatusCode/100 == 3:
			u, err := rsp.Location()
			if err != nil && err != http.ErrNoLocation {
				c.Fail("other", "%s %q%s: location %q: %v", method, path, with, rsp.Header.Get("Location"), err)
				return true
			}
			if err == http.ErrNoLocation {
				c.Fail("other", "%s %q%s: status %d leads nowhere", method, path, with, rsp.StatusCode)
				return true
			}
			if u.Host != "" && u.Host != fmt.Sprintf("%s:%d", s.host, s.port) {
				// it leads a browser elsewhere, but what it leads to is not this server's
				c.Count("redirected elsewhere")
				return false
			}
			p := u.EscapedPath()
			if !strings.HasPrefix(p, "/") {
				base := strings.SplitN(path, "?", 2)[0]
				p = base[:strings.LastIndexByte(base, '/')+1] + p
			}
			path = p
			continue
		case rsp.StatusCode == 200:
			for q, b := range assets() {
				if bytes.Equal(b, body) {
					if !foundAs(path, q) {
						c.Fail("other", "%s %q%s is found: it gives %s", method, path, with, q)
					}
					return true
				}
			}
			if listing(path, string(body)) {
				c.Count("listings")
				return true
			}
			c.Fail("other", "%s %q%s is found: %d bytes, %q", method, path, with, len(body), head(string(body), 300))
			return true
		default:
			c.Fail("other", "%s %q%s has status %d: %q", method, path, with, rsp.StatusCode, head(string(body), 300))
			return true
		}
	}
	c.Fail("other", "%s %q%s leads on and on", method, a[0], with)
	return true
}

// foundAs: the path is the asset's own name, with escapes, a query and steps back undone.
func foundAs(path, asset string) bool {
	p := strings.SplitN(strings.SplitN(path, "?", 2)[0], "#", 2)[0]
	for _, pre := range []string{"http://", "https://"} {
		if strings.HasPrefix(strings.ToLower(p), pre) {
			p = p[len(pre):]
			if i := strings.IndexByte(p, '/'); i >= 0 {
				p = p[i:]
			} else {
				p = "/"
			}
		}
	}
	if u, err := pathUnescape(p); err == nil {
		p = u
	}
	clean := func(p string) string { return filepath.Clean("/" + p) }
	if clean(p) == clean(asset) || asset == "/index.html" && clean(p) == "/" || asset == "/" && clean(p) == "/index.html" {
		return true
	}
	// steps back within the files of the handler of /wasm/ stay there
	if strings.HasPrefix(p, "/wasm/") && "/wasm"+clean(p[len("/wasm/"):]) == asset {
		return true
	}
	return false
}

func pathUnescape(p string) (string, error) {
	var sb strings.Builder
	for i := 0; i < len(p); i++ {
		if p[i] == '%' {
			var v int
			if i+2 >= len(p) {
				return "", fmt.Errorf("bad escape")
			}
			if n, err := fmt.Sscanf(p[i+1:i+3], "%02x", &v); n != 1 || err != nil {
				return "", fmt.Errorf("bad escape")
			}
			sb.WriteByte(byte(v))
			i += 2
			continue
		}
		sb.WriteByte(p[i])
	}
	return sb.String(), nil
}

// listing: the names in a directory which is served, and no others.
func listing(path, body string) bool {
	u, err := pathUnescape(strings.SplitN(path, "?", 2)[0])
	if err != nil {
		return false
	}
	dir := filepath.Clean("/" + u)
	if dir != "/css" && dir != "/javascript" && dir != "/wasm" && !strings.HasPrefix(u, "/wasm/") {
		return false
	}
	if !strings.Contains(body, "<pre>") {
		return false
	}
	for _, part := range strings.Split(body, "href=\"")[1:] {
		name := strings.SplitN(part, "\"", 2)[0]
		ok := false
		for p := range assets() {
			if strings.HasPrefix(p, "/css/") || strings.HasPrefix(p, "/javascript/") || strings.HasPrefix(p, "/wasm/") {
				if filepath.Base(p) == name {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// checkCrowd: many clients at once, some of which read late; each gets what it asked for.
//
// a: how many, which asset, milliseconds before each reads
func checkCrowd(c *Ctx, a []string) bool {
	s := theServer(c)
	if s == nil {
		return true
	}
	var n, hold int
	fmt.Sscan(a[0], &n)
	fmt.Sscan(a[2], &hold)
	path := a[1]
	body := assets()[path]
	addr := net.JoinHostPort(s.host, fmt.Sprint(s.port))
	var mu sync.Mutex
	bad, first := 0, ""
	note := func(i int, f string, v ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if bad == 0 {
			first = fmt.Sprintf("client %d: ", i) + fmt.Sprintf(f, v...)
		}
		bad++
	}
	asked, done := make(chan bool, n), make(chan bool)
	go func() {
		// all have asked before the first one reads
		for i := 0; i < n; i++ {
			<-asked
		}
		time.Sleep(time.Duration(hold) * time.Millisecond)
		close(done)
	}()
	parallel(n, n, func(i int) {
		d := net.Dialer{Timeout: 30 * time.Second, Control: func(network, address string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
		}}
		k, err := d.Dial("tcp", addr)
		if err != nil {
			asked <- true
			note(i, "%v", err)
			return
		}
		defer k.Close()
		k.SetDeadline(time.Now().Add(240 * time.Second))
		_, err = fmt.Fprintf(k, "GET %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", path, addr)
		asked <- true
		if err != nil {
			note(i, "%v", err)
			return
		}
		<-done
		rsp, err := http.ReadResponse(bufio.NewReader(k), nil)
		if err != nil {
			note(i, "%v", err)
			return
		}
		defer rsp.Body.Close()
		got, err := io.ReadAll(rsp.Body)
		switch {
		case rsp.StatusCode != 200:
			note(i, "status %d: %q", rsp.StatusCode, head(string(got), 300))
		case err != nil:
			note(i, "%d bytes, then %v", len(got), err)
		case !bytes.Equal(got, body):
			note(i, "%d bytes which are not the file's %d", len(got), len(body))
		}
	})
	c.CountN("clients in crowds", int64(n))
	if bad > 0 {
		c.Fail("crowd", "of %d clients which ask for %s at once and read after %d ms, %d are not served; %s", n, path, hold, bad, first)
	}
	return true
}

// checkListen: a server of its own, which listens where it was told to and nowhere else.
func checkListen(c *Ctx, a []string) bool {
	var how int
	fmt.Sscan(a[1], &how)
	port, dir := 0, "/"
	if len(a) > 2 {
		fmt.Sscan(a[2], &port)
		var err error
		if dir, err = os.MkdirTemp("", "decoys"); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		if err := decoys(dir); err != nil {
			panic(err)
		}
	}
	s, err := startServerAt(a[0], port, how, dir)
	if err == errTaken {
		return false
	}
	if err != nil {
		c.Fail("listen", "%v", err)
		return true
	}
	defer s.stop()
	for p, want := range assets() {
		if p == "/index.html" {
			continue
		}
		rsp, body, err := rawGet(s, p)
		if err != nil || rsp.StatusCode != 200 || !bytes.Equal(body, want) {
			c.Fail("listen", "the server on %s:%d, in %s, does not serve its %s: %v, %s", s.host, s.port, dir, p, err, strconv.Quote(head(string(body), 100)))
		}
	}
	others := []string{"127.0.0.1", "127.0.0.2", "127.77.0.3"}
	if ifs, err := net.InterfaceAddrs(); err == nil {
		for _, x := range ifs {
			if n, ok := x.(*net.IPNet); ok && !n.IP.IsLoopback() && !n.IP.IsLinkLocalUnicast() {
				others = append(others, n.IP.String())
			}
		}
	}
	for _, o := range others {
		if o == s.host || s.host == "localhost" && o == "127.0.0.1" {
			continue
		}
		k, err := net.DialTimeout("tcp", net.JoinHostPort(o, fmt.Sprint(s.port)), 2*time.Second)
		if err != nil {
			c.Count("refused elsewhere")
			continue
		}
		k.Close()
		// another program may have this port there
		rsp, body, err := rawGet(&server{host: o, port: s.port}, "/")
		if err == nil && rsp.StatusCode == 200 && bytes.Equal(body, assets()["/"]) {
			c.Fail("listen", "told to listen on %s, the server answers on %s", s.host, o)
		}
	}
	return true
}

type pageLoad struct {
	Initially bool     `json:"initially"`
	Enabled   bool     `json:"enabled"`
	EnabledAt int      `json:"enabledAt"`
	Label     string   `json:"label"`
	Log       []string `json:"log"`
	Fetched   []string `json:"fetched"`
	Unhandled []string `json:"unhandled"`
}

var pageN atomic.Int64

// checkPage: args[0] is the delay of the WebAssembly, args[1] a fault in its
// delivery, and the rest are entered one after another.
func checkPage(c *Ctx, a []string) bool {
	s := theServer(c)
	if s == nil {
		return true
	}
	if err := c.again("page", func() error { return aPage(c, s, a) }); err != nil {
		c.Fail("page", "the page: %v", err)
		c.dropDriver("page")
	}
	return true
}

// aPage returns what goes wrong in the browser's stand-in.
func aPage(c *Ctx, s *server, a []string) error {
	d := c.driverOf("page")
	id := pageN.Add(1)
	var delay int
	fmt.Sscan(a[0], &delay)
	fault, ss := a[1], a[2:]
	var l pageLoad
	if err := d.ask(map[string]interface{}{"load": true, "page": id, "url": s.base + "/", "delay": delay, "fault": fault}, &l); err != nil {
		return err
	}
	defer d.ask(map[string]interface{}{"drop": true, "page": id}, &struct{}{})
	c.Count("pages loaded")
	for _, m := range l.Log {
		if strings.Contains(m, " has status ") || strings.Contains(m, " has type ") {
			c.Fail("page", "%s", m)
		}
	}
	if !l.Initially {
		c.Fail("page", "the button is enabled before the WebAssembly is there")
	}
	if fault != "" {
		c.Count("faults: " + fault)
		if l.Enabled {
			c.Fail("page", "the button is enabled though the WebAssembly did not load (%s)", fault)
		}
		return nil
	}
	if !l.Enabled {
		c.Fail("page", "the button is never enabled: log %q, unhandled %q, fetched %q", l.Log, l.Unhandled, l.Fetched)
		return nil
	}
	if l.EnabledAt < delay-5 {
		c.Fail("page", "the button is enabled %d ms after the page loaded, but the WebAssembly came after %d", l.EnabledAt, delay)
	}
	type wanted struct {
		JSON string `json:"json,omitempty"`
		Err  string `json:"err,omitempty"`
	}
	var ws []wanted
	for _, x := range ss {
		j, e := want(x)
		ws = append(ws, wanted{j, e})
	}
	var r struct {
		Results []struct {
			Pressed   bool     `json:"pressed"`
			Shown     string   `json:"shown"`
			Navigated bool     `json:"navigated"`
			Unhandled []string `json:"unhandled"`
		} `json:"results"`
	}
	if err := d.ask(map[string]interface{}{"page": id, "strings": ss, "want": ws}, &r); err != nil {
		return err
	}
	for i, x := range r.Results {
		c.Count("strings entered")
		if !x.Pressed {
			c.Fail("page", "the button was disabled again before string %d, %q", i, ss[i])
			return nil
		}
		if x.Navigated {
			c.Fail("page", "the form was submitted, which leaves the page")
			return nil
		}
		if ws[i].Err != "" {
			c.Count("errors shown")
			// the message, and nothing of what was shown before
			if !strings.Contains(x.Shown, ws[i].Err) || len(x.Shown) > len(ws[i].Err)+len(ss[i])+200 || strings.Count(x.Shown, ws[i].Err) != 1 {
				c.Fail("page", "after %q, which was string %d, the page shows %q, should show one message with %q", ss[i], i, head(x.Shown, 700), ws[i].Err)
				return nil
			}
			if i > 0 && ws[i-1].Err != "" && !strings.Contains(ws[i].Err, ws[i-1].Err) && !strings.Contains(ss[i], ws[i-1].Err) && strings.Contains(x.Shown, ws[i-1].Err) {
				c.Fail("page", "after %q, the page still shows the message before: %q", ss[i], head(x.Shown, 700))
				return nil
			}
			continue
		}
		if !sameJSON(x.Shown, ws[i].JSON) {
			c.Fail("page", "after %q, which was string %d, the page shows %q, the library says %s (unhandled: %q)", ss[i], i, head(x.Shown, 700), head(ws[i].JSON, 700), x.Unhandled)
			return nil
		}
		c.Count("results shown")
	}
	if len(r.Results) != len(ss) {
		c.Fail("page", "%d answers to %d strings", len(r.Results), len(ss))
	}
	return nil
}

// lineOK: what can be entered in one line of text.
func lineOK(s string) bool {
	if !textOK(s) {
		return false
	}
	for _, r := range s {
		if r < 0x20 || r == 0x7f || r == 0x2028 || r == 0x2029 {
			return false
		}
	}
	return true
}

// someFile is a file of the machine or of the repository, not one to serve.
func genPath(r *Rng) string {
	files := []string{"etc/passwd", "etc/hostname", "repo/go.mod", "repo/wasm/wasm.go", "repo/README.md", "proc/self/environ", "proc/self/cmdline", "root/.bashrc", "repo/app/server/www/www.go", "www.go", "Makefile", "go.mod", "README.md", "wasm.go", "main.go", "app/server/www/index.html", "index.htm", "index.js", "index.css", "LICENSE", ".git/config", ".gitignore", "wasm/.gitignore", "debug/pprof/", "debug/vars", "metrics", "favicon.ico", "parse-js.wasm", "bootstrap.min.css", "javascript/index.ts", "css/index.css.map", "javascript/index.js/", "css/index.css/", "wasm/parse-js.wasm/", "wasm/parse.wasm", "css", "javascript", "wasm", "css/", "javascript/", "wasm/", "wasm/css/index.css", "css/wasm/parse-js.wasm", "javascript/index.html", "wasm/index.html"}
	up := []string{"../", "..%2f", "%2e%2e/", "%2e%2e%2f", "..\\", "..%5c", "./", "//", "%2f", "....//", "..;/", "%252e%252e/", "%c0%ae%c0%ae/", "..%00/", "/", "css/../", "wasm/../", "wasm/../../", "wasm/..%2f", "javascript/../"}
	ps := assetPaths()
	switch r.N(7) {
	case 0:
		return "/" + r.Pick(files...)
	case 1:
		return "/" + strings.Repeat(r.Pick(up...), r.In(1, 8)) + r.Pick(files...)
	case 2:
		return r.Pick("/css/", "/javascript/", "/wasm/") + strings.Repeat(r.Pick(up...), r.In(1, 8)) + r.Pick(files...)
	case 3: // an asset's name, changed
		p := r.Pick(ps...)
		if strings.ContainsAny(p, " ") {
			p = "/"
		}
		b := []byte(p)
		i := r.N(len(b))
		switch r.N(5) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] ^= 0x20
		case 2:
			b = append(b, "~/.%0?#a"[r.N(8)])
		case 3:
			return string(b[:i]) + fmt.Sprintf("%%%02x", b[i]) + string(b[i+1:])
		case 4:
			return string(b[:i]) + "/" + string(b[i:])
		}
		return pathByte(b)
	case 4:
		return r.Pick(ps...) + r.Pick("?", "?x=1", "?../../etc/passwd", "/", "/..", "/.", "//", "%00", ".gz", ".map", "~", "%20", "/../../../../etc/passwd")
	case 5:
		return r.Pick("http://x/", "http://x/etc/passwd", "/http://x/", "//x/..", "///etc/passwd", "/\\", "/%5c..%5cetc", "/.", "/..", "/...", "/%", "/%zz", "/%2f", "/%2e", "/wasm", "/wasm/", "/wasm//", "/wasm/.", "/wasm/..", "/wasm/%2e%2e/", "/index.html/", "/index.html/..", "/*", "/index.html?x", "/wasm/index.html", "//index.html", "/css/index.html", "/./index.html")
	}
	n := r.In(1, 40)
	b := []byte{'/'}
	for i := 0; i < n; i++ {
		b = append(b, "abcdefghijklmnopqrstuvwxyz0123456789-._~/%"[r.N(42)])
	}
	return string(b)
}

// pathByte keeps a request line one line.
func pathByte(b []byte) string {
	for i, x := range b {
		if x <= ' ' || x == 0x7f || x > 0x7f {
			b[i] = 'x'
		}
	}
	if len(b) == 0 || b[0] != '/' {
		return "/" + string(b)
	}
	return string(b)
}

func registerC20() {
	entered := func(c *Ctx, n int) []string {
		var a []string
		for i := 0; i < n; i++ {
			switch c.N(3) {
			case 0:
				a = append(a, oddString(c.Rng, lineOK))
			default:
				a = append(a, goodString(c.Rng))
			}
		}
		return a
	}
	register(&Prop{ID: "C20", Assume: []string{assumeGo,
		"the page runs in node 22 with a stand-in for the browser's document which has the parts a page like this may use; what is shown is the text of #result where it is not hidden",
		"a path is another than an asset's if, with escapes and steps back undone, it does not name it"},
		Rule: "the server, built from the working tree with the WebAssembly binaries built from it, asked at once by all cores for every asset by GET, HEAD and in parts, for paths of the machine, of the repository, changed asset names and random ones, unclean and escaped; servers of their own on three addresses and with the options in three forms; and the page loaded from the server, with a late, missing, refused or cut WebAssembly, and strings of every feature and hostile ones entered one after another; decided when status, type, bytes and what the page shows were compared",
		Kinds: map[string]Handler{
			"asset": checkAsset, "other": checkOther, "listen": checkListen, "page": checkPage, "crowd": checkCrowd,
			"wire":      checkWire,
			"long page": long(func(c *Ctx, a []string) bool { return checkPage(c, []string{"0", "", a[1], a[0], a[2], a[0]}) }),
		},
		Special: func(r *Run) {
			// the pool's cases follow; here the server is asked for everything at once
			r.serial("start", func(c *Ctx) {
				for i, h := range []string{"127.0.0.1", "127.0.0.2", "localhost", "127.0.0.1", "127.9.9.9"} {
					c.Case("listen", h, fmt.Sprint([]int{0, 0, 2, 1, 1}[i]))
				}
				for i, p := range []string{"8080", "1", "99", "777", "1024", "3000", "8081", "9999", "10000", "16384", "32767", "32768", "49151", "65535"} {
					c.Case("listen", []string{"localhost", "127.0.0.1"}[i%2], fmt.Sprint(2-i%3), p)
				}
			})
		},
		Plan: func(tier string) []Task {
			ps := assetPaths()
			return concat(
				[]Task{{"page", func(c *Ctx) {
					c.Case("page", append([]string{"0", ""}, filter(corpus, lineOK)...)...)
					c.Case("page", "0", "", "2004", "bogus", "2004", "bogus", "bogus2", "2005", "2004-13", "", "2006")
					c.Case("page", "120", "", "2004")
				}}, {"first on the page", func(c *Ctx) {
					for _, s := range []string{"", "..", "2004", "bogus", "open", "0", "2004/", "/", "null", "undefined", "2004-02-30", "Y20000", "[]", "{}", " "} {
						c.Case("page", "0", "", s, s, "2004", s, "x", s, s)
					}
					for _, s := range filter(corpus, lineOK) {
						if c.Thorough() || c.P(1, 6) {
							c.Case("page", "0", "", s, s, "bogus", s)
						}
					}
				}}, {"long", func(c *Ctx) {
					for i, f := range longForms {
						if !utf8.ValidString(f.f(100)) {
							continue
						}
						for j, n := range []string{"260", "1030", "2060", "5000", "16400", "66000"} {
							if c.Thorough() || (i+j)%3 == 0 {
								c.Case("long page", f.name, n, "2004", "1990-01")
							}
						}
					}
				}}, {"faults", func(c *Ctx) {
					for _, f := range []string{"missing", "refused", "cut"} {
						c.Case("page", "0", f)
					}
				}}},
				[]Task{{"slow", func(c *Ctx) {
					for _, p := range ps {
						if strings.HasPrefix(p, "/wasm/") {
							c.Case("crowd", "3", p, "12000")
						}
					}
				}}, {"crowd", func(c *Ctx) {
					for i, p := range ps {
						if p != "/index.html" { // which may redirect
							c.Case("crowd", fmt.Sprint(150+250*(i%2)), p, "50")
						}
					}
					c.Case("crowd", "700", "/", "300")
				}}},
				randTasks("page", scale(tier, 130, 40), func(c *Ctx) {
					c.Case("page", append([]string{fmt.Sprint(c.Pick("0", "0", "0", "30", "150")), ""}, entered(c, c.In(1, 30))...)...)
				}),
				wireTasks(tier),
				[]Task{{"every asset", func(c *Ctx) {
					for _, p := range ps {
						c.Case("asset", "GET", p)
						c.Case("asset", "HEAD", p)
					}
				}}},
				randTasks("assets", scale(tier, 2000, 20), func(c *Ctx) {
					p := c.Pick(ps...)
					switch c.N(8) {
					case 0:
						c.Case("asset", "HEAD", p)
					case 2, 3:
						c.Case("asset", c.Pick("GET", "GET", "HEAD"), p, "", headersOf(c.Rng))
					case 1:
						if n := len(assets()[p]); n > 2 && p != "/index.html" {
							a := c.N(n - 1)
							c.Case("asset", "GET", p, fmt.Sprintf("bytes=%d-%d", a, a+c.N(n-a)))
						}
					default:
						c.Case("asset", "GET", p)
					}
				}),
				randTasks("paths", scale(tier, 12000, 20), func(c *Ctx) {
					switch c.N(6) {
					case 0, 1:
						c.Case("other", genPath(c.Rng), headersOf(c.Rng))
					case 2:
						c.Case("other", genPath(c.Rng), headersOf(c.Rng), "POST")
					default:
						c.Case("other", genPath(c.Rng))
					}
				}),
			)
		}})
}

func filter(ss []string, ok func(string) bool) []string {
	var out []string
	for _, s := range ss {
		if ok(s) {
			out = append(out, s)
		}
	}
	return out
}

func init() { registerC19(); registerC20() }
