package main

import (
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ------------------------------------------------------------- C17: what of its surroundings the library reads
//
// A harness built with the tag "observe", and with an overlay of packages syscall
// and time (overlay.sh), notes which environment variables, files and clock were
// read with a function of the library on the stack, the initialisation of its
// packages included. What it reads is then varied: its answers may not follow.

// clocks are where else Now may be, in seconds since 1970.
var clocks = map[string]int64{
	"1970":             86399,
	"before 1970":      -86400 * 400,
	"a leap day":       951782400 + 43200, // 2000-02-29
	"before the turn":  1735689598,        // 2024-12-31T23:59:58
	"beyond 32 bits":   4102444800 + 86400*200,
	"beyond the years": 253402300800 + 1000, // 10000
}

// literals are up to n words which occur as strings in files, or in the other
// files of their folders: what a variable may be compared with.
func literals(files []string, n int) (words []string) {
	done := map[string]bool{}
	one := func(name string) {
		if done[name] || strings.HasSuffix(name, "_test.go") {
			return
		}
		done[name] = true
		file, err := goparser.ParseFile(token.NewFileSet(), name, nil, goparser.SkipObjectResolution)
		if err != nil {
			return
		}
		imports := map[*ast.BasicLit]bool{}
		for _, i := range file.Imports {
			imports[i.Path] = true
		}
		ast.Inspect(file, func(x ast.Node) bool {
			if l, ok := x.(*ast.BasicLit); ok && l.Kind == token.STRING && !imports[l] {
				if w, err := strconv.Unquote(l.Value); err == nil && w != "" && len(w) <= 40 && !strings.ContainsAny(w, " %\x00\n\\()") && !done["="+w] && len(words) < n {
					done["="+w] = true
					words = append(words, w)
				}
			}
			return true
		})
	}
	sort.Strings(files)
	for _, f := range files {
		one(f)
	}
	for _, f := range files {
		more, _ := filepath.Glob(filepath.Join(filepath.Dir(f), "*.go"))
		for _, m := range more {
			one(m)
		}
	}
	return words
}

// observedVariants are the processes whose surroundings differ in what the
// library was seen to read ("env NAME", "file PATH", "clock").
func observedVariants(seed string, n int, dir string, seen []string) []variant {
	bin := os.Getenv("HARNESS_OBSERVE")
	if bin == "" {
		return nil
	}
	job := coldJob{Seed: seed, N: n}
	var vs []variant
	add := func(name string, env ...string) {
		vs = append(vs, variant{name, bin, job, append(cleanEnv(), env...), dir})
	}
	var names []string
	for k := range clocks {
		names = append(names, k)
	}
	sort.Strings(names)
	sort.Strings(seen)
	from := map[string][]string{} // the files in which a variable is read
	for _, s := range seen {
		if strings.HasPrefix(s, "from ") {
			if f := strings.SplitN(s[5:], "|", 2); len(f) == 2 {
				from[f[0]] = append(from[f[0]], f[1])
			}
		}
	}
	for _, k := range names {
		add("clock: "+k, fmt.Sprintf("VERIF_CLOCK=%d", clocks[k]))
	}
	for _, s := range seen {
		switch f := strings.SplitN(s, " ", 2); f[0] {
		case "clock":
			for m := 0; m < 24; m++ {
				// every hour, day of the week and month
				add(fmt.Sprintf("clock: %d", m), fmt.Sprintf("VERIF_CLOCK=%d", 1600000000+m*(86400*31+3600)))
			}
		case "env":
			for _, v := range []string{"", "0", "1", "true", "false", "strict", "debug", "2004", "-1", "en_US.UTF-8", "/nonexistent", "UTC", "America/New_York", "js", "level2"} {
				add("variable "+f[1]+"="+v, f[1]+"="+v)
			}
			if f[1] != "TZ" {
				for _, v := range literals(from[f[1]], 40) {
					add("variable "+f[1]+"="+v, f[1]+"="+v)
				}
			}
			env := cleanEnv()
			var without []string
			for _, e := range env {
				if !strings.HasPrefix(e, f[1]+"=") {
					without = append(without, e)
				}
			}
			vs = append(vs, variant{"without the variable " + f[1], bin, job, without, dir})
		case "file":
			// only within the folder the processes run in
			rel, err := filepath.Rel(dir, f[1])
			if filepath.IsAbs(f[1]) && (err != nil || strings.HasPrefix(rel, "..")) {
				continue
			}
			if !filepath.IsAbs(f[1]) {
				rel = filepath.Clean(f[1])
				if strings.HasPrefix(rel, "..") {
					continue
				}
			}
			for i, v := range []string{"", "1", "true", "{}", "{\"strict\": true}", "2004\n"} {
				d := filepath.Join(dir, fmt.Sprintf("with-%d", i))
				os.MkdirAll(filepath.Dir(filepath.Join(d, rel)), 0o755)
				os.WriteFile(filepath.Join(d, rel), []byte(v), 0o644)
				vs = append(vs, variant{fmt.Sprintf("file %s with %q", rel, v), bin, job, append(cleanEnv(), "HOME="+d, "TMPDIR="+d, "XDG_CONFIG_HOME="+d), d})
			}
		}
	}
	return vs
}

// surroundings runs a list of strings in a process which notes what the library
// reads, and then in others where that is not what it was.
//
// Only, where it is not empty, is the one of the others which runs.
func (r *Run) surroundings(seed string, n int, only string) (results []coldResult) {
	bin := os.Getenv("HARNESS_OBSERVE")
	if bin == "" {
		return nil
	}
	dir := filepath.Join(r.OutDir, "surroundings")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	ss := repertoire(seed, n)
	var ref reference
	job := coldJob{Seed: seed, N: n}
	first, ok := r.runCold("observed", bin, job, append(cleanEnv(), "HOME="+dir, "TMPDIR="+dir, "XDG_CONFIG_HOME="+dir), dir)
	if !ok {
		return nil
	}
	results = append(results, first)
	r.compareCold(&ref, "observed", first, ss, job)
	if !first.Observes {
		fmt.Fprintln(os.Stderr, "the process which should observe does not")
		os.Exit(exitHarness)
	}
	for _, s := range first.Seen {
		if strings.HasPrefix(s, "from ") {
			continue
		}
		r.counts["read by the library: "+head(s, 100)]++
	}
	var vs []variant
	for _, v := range observedVariants(seed, n, dir, first.Seen) {
		if only == "" || only == v.name {
			vs = append(vs, v)
		}
	}
	if len(vs) > 250 {
		vs = vs[:250]
	}
	more := make([]*coldResult, len(vs))
	parallel(len(vs), 8, func(i int) {
		v := vs[i]
		if res, ok := r.runCold(fmt.Sprintf("surroundings %d", i), v.bin, v.job, v.env, v.dir); ok {
			more[i] = &res
		}
	})
	for i, v := range vs {
		if more[i] != nil {
			results = append(results, *more[i])
			r.compareCold(&ref, v.name, *more[i], ss, v.job)
			r.counts["processes in other surroundings"]++
		}
	}
	return results
}
