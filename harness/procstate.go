package main

import (
	"fmt"
	"log"
	"net/http"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

// What a library must leave as it found it: what belongs to the process as a whole.

type procState map[string]string

func stateOfProcess(procs int) procState {
	s := procState{}
	s["time zone"] = fmt.Sprintf("%p %s", time.Local, time.Local)
	for _, y := range []int{1900, 1950, 2004} {
		t := time.Date(y, 7, 1, 0, 0, 0, 0, time.Local)
		n, o := t.Zone()
		s["time zone"] += fmt.Sprintf(" %s %d", n, o)
	}
	s["UTC"] = fmt.Sprintf("%p %s", time.UTC, time.UTC)
	env := os.Environ()
	sort.Strings(env)
	s["environment"] = strings.Join(env, "\n")
	s["working directory"], _ = os.Getwd()
	s["arguments"] = strings.Join(os.Args, "\n")
	u := syscall.Umask(0o22)
	syscall.Umask(u)
	s["umask"] = fmt.Sprintf("%o", u)
	if procs > 0 {
		// where it was set the runtime does not change it
		s["processors"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	}
	s["memory limit"] = fmt.Sprint(debug.SetMemoryLimit(-1))
	g := debug.SetGCPercent(100)
	debug.SetGCPercent(g)
	s["garbage collection"] = fmt.Sprint(g)
	m := debug.SetMaxStack(1 << 30)
	debug.SetMaxStack(m)
	s["stack limit"] = fmt.Sprint(m)
	s["log"] = fmt.Sprintf("%d %q %p", log.Flags(), log.Prefix(), log.Writer())
	s["standard files"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	s["http client"] = fmt.Sprintf("%p %v", http.DefaultClient, reflect.ValueOf(http.DefaultTransport).Pointer())
	// of open files those which have a name: the runtime makes its own when it needs them
	fds, err := os.ReadDir("/proc/self/fd")
	if err == nil {
		var fs []string
		for _, f := range fds {
			if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && !strings.HasPrefix(l, "anon_inode:") && !strings.HasPrefix(l, "/proc/") &&
				!strings.HasPrefix(l, "/sys/") {
				fs = append(fs, f.Name()+" "+l)
			}
		}
		sort.Strings(fs)
		s["open files"] = strings.Join(fs, "\n")
	}
	return s
}

// changes says how the process differs.
func (a procState) changes(b procState) (out []string) {
	for k, x := range a {
		if y := b[k]; x != y {
			out = append(out, fmt.Sprintf("%s: was %s, is now %s", k, differing(x, y), differing(y, x)))
		}
	}
	sort.Strings(out)
	return
}

// differing are the lines of x which y lacks.
func differing(x, y string) string {
	has := map[string]bool{}
	for _, l := range strings.Split(y, "\n") {
		has[l] = true
	}
	var out []string
	for _, l := range strings.Split(x, "\n") {
		if !has[l] {
			out = append(out, l)
		}
	}
	return fmt.Sprintf("%q", head(strings.Join(out, "; "), 300))
}
