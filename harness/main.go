// The harness: runs the real library under workloads, with monitors which
// compare what it does with the properties in /verif/properties.jsonl.
//
//	harness run ID       decide property ID (VERIF_TIER, VERIF_SEED)
//	harness child ID ... what run starts, so that a crash is an observation
//	harness replay FILE  run the case of a violation again
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness run|child|replay ...")
		os.Exit(2)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	loadKnown(root)
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(root, os.Args[2]))
	case "child":
		child(root, os.Args[2], os.Args[3], os.Args[4])
	case "replay":
		os.Exit(replay(root, os.Args[2]))
	case "probe":
	case "cold":
		cold(os.Args[2], os.Args[3])
	case "classify":
		for _, s := range os.Args[2:] {
			dump(s)
		}
	default:
		os.Exit(2)
	}
}

const is32 = strconv.IntSize == 32

func tierOf() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seedEnv() string {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		return s
	}
	return "1"
}

func newRun(p *Prop, tier, seed string) *Run {
	return &Run{Prop: p, Tier: tier, Seed: seed, known: map[string]int{}, counts: map[string]int64{},
		notes: map[string]interface{}{}, bitmap: make([]uint32, 1<<24)}
}

// child runs the workload in this process and writes what it saw.
func child(root, id, journal, out string) {
	p := props[id]
	r := newRun(p, tierOf(), seedEnv())
	r.share, _ = strconv.ParseUint(os.Getenv("HARNESS_SHARE"), 10, 64)
	r.OutDir = filepath.Dir(out)
	if j, err := mmapFile(journal, 64*slotSize); err == nil {
		r.journal = j
	}
	var res childResult
	if p.Special != nil && r.share == 0 {
		p.Special(r)
		res.Evals, res.Distinct = r.counts["evaluations"], r.counts["distinct"]
		if p.Plan != nil {
			e, d := r.runPool()
			res.Evals += e
			res.Distinct += d
		}
	} else {
		res.Evals, res.Distinct = r.runPool()
	}
	delete(r.counts, "evaluations")
	delete(r.counts, "distinct")
	res.Counts, res.Samples, res.Violations, res.NViol = r.counts, r.samples, r.violations, r.nviol
	res.Known, res.Notes = r.known, r.notes
	if err := writeJSON(out, res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitHarness)
	}
}

// place is where a share of the cases runs again: in a process whose int has 32
// bits, or which is in another time zone.
type place struct {
	name, bin, tz string
	share         uint64 // one case in so many, 0: all, and nothing but the plain process
}

func (pl place) start(arg ...string) *exec.Cmd {
	cmd := exec.Command(pl.bin, arg...)
	cmd.Env = os.Environ()
	if pl.tz != "" {
		cmd.Env = append(cmd.Env, "TZ="+pl.tz, "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_TIME=th_TH.UTF-8", "LANGUAGE=tr")
	}
	if pl.share != 0 {
		cmd.Env = append(cmd.Env, "HARNESS_SHARE="+strconv.FormatUint(pl.share, 10))
	}
	return cmd
}

// farZones have offsets which are no whole hours, which many dates of the past lack, or which change often.
var farZones = []string{"America/St_Johns", "Africa/Monrovia", "Pacific/Apia", "Europe/Dublin", "Europe/London", "Antarctica/Troll", "Asia/Tehran", "Pacific/Kiritimati"}

func places(id, tier, seed string) (ps []place) {
	n := share32[id]
	if n == 0 {
		return
	}
	if bin := os.Getenv("HARNESS_32"); bin != "" {
		ps = append(ps, place{"where an int has 32 bits", bin, "", n})
	}
	zs := []string{"Asia/Kathmandu", "America/New_York", farZones[seedOf(seed, "zone")%uint64(len(farZones))]}
	if tier == "thorough" {
		zs = append([]string{"Asia/Kathmandu", "America/New_York"}, farZones...)
	}
	for _, z := range zs {
		ps = append(ps, place{"in the time zone " + z, os.Args[0], z, n * 4})
	}
	return
}

// workload runs the child which runs the cases. The second result is the exit
// status where there is no verdict, and 0 otherwise.
func workload(root string, p *Prop, pl place, outdir, tier, seed string) (res childResult, rc int) {
	journal := filepath.Join(outdir, "journal")
	out := filepath.Join(outdir, "result.json")
	os.Remove(journal)
	os.Remove(out)
	cmd := pl.start("child", p.ID, journal, out)
	var errb bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = &errb
	cmd.Env = append(cmd.Env, "VERIF_TIER="+tier, "VERIF_SEED="+seed, "GOTRACEBACK=all")
	if pl.bin != os.Args[0] {
		cmd.Env = append(cmd.Env, "GOMEMLIMIT=1500MiB")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	err := cmd.Start()
	if err == nil {
		err = cmd.Wait()
		// servers and drivers of the workload go with it
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		rerr = json.Unmarshal(b, &res)
	}
	stderr := errb.String()
	if err != nil || rerr != nil {
		// the process died: an observation, if a case of the journal brings it about again
		fmt.Fprintf(os.Stderr, "the workload process died: %v\n%s\n", err, head(stderr, 6000))
		if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == exitHarness {
			return res, 2
		}
		v := attribute(root, p, pl, journal, stderr, tier, seed, err)
		if v == nil && pl.bin != os.Args[0] {
			// its address space may be too small for what the cores do at once
			res = childResult{}
			return res, 0
		}
		if v == nil && strings.Contains(stderr, "fatal error:") && strings.Contains(stderr, "sfomuseum/go-edtf") {
			v = &Violation{Property: p.ID, Kind: "run", Category: "crash", Tier: tier, Seed: seed,
				Message: "the process died under the workload as a whole: " + head(stderr, 3000)}
		}
		if v == nil {
			fmt.Fprintln(os.Stderr, "no case accounts for it")
			return res, 2
		}
		res.Violations = append(res.Violations, *v)
		res.NViol++
	} else if stderr != "" {
		fmt.Fprint(os.Stderr, head(stderr, 4000))
	}
	os.Remove(journal)
	os.Remove(out)
	return res, 0
}

func supervise(root, id string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	start := time.Now()
	tier, seed := tierOf(), seedEnv()
	outdir := filepath.Join(root, "out", id)
	os.RemoveAll(outdir)
	if err := os.MkdirAll(outdir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	res, rc := workload(root, p, place{bin: os.Args[0]}, outdir, tier, seed)
	if rc != 0 {
		return rc
	}
	for _, pl := range places(id, tier, seed) {
		if res.NViol != 0 {
			break
		}
		if res.Notes == nil {
			res.Notes = map[string]interface{}{}
		}
		if err := pl.start("probe", "-").Run(); err != nil {
			res.Notes[pl.name] = "does not start here: " + err.Error()
			continue
		}
		more, rc := workload(root, p, pl, outdir, tier, seed)
		if rc != 0 {
			return rc
		}
		for i := range more.Violations {
			more.Violations[i].Message = pl.name + ": " + more.Violations[i].Message
			x := map[string]string{"tz": pl.tz}
			if pl.bin != os.Args[0] {
				x["goarch"] = "386"
			}
			more.Violations[i].Extra = x
		}
		res.Violations, res.NViol = more.Violations, more.NViol
		if res.Known == nil {
			res.Known = map[string]int{}
		}
		for k, n := range more.Known {
			res.Known[k] += n
		}
		res.Notes[pl.name] = fmt.Sprintf("%d evaluations, %d distinct and decided", more.Evals, more.Distinct)
	}
	seedN, _ := strconv.Atoi(seed)
	cov := map[string]interface{}{
		"evaluations": res.Evals, "distinct_nontrivial": res.Distinct, "rule": p.Rule,
		"samples": res.Samples, "counts": res.Counts,
	}
	if p.Exhaust {
		cov["exhaustive"] = true
	}
	for k, v := range res.Notes {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seedN, "level": "exploration", "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": res.NViol,
	}
	if res.Samples == nil {
		cov["samples"] = []string{}
	}
	if err := writeJSON(filepath.Join(root, "evidence", id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for k := range res.Known {
		fmt.Println(k)
	}
	fmt.Printf("property %s tier %s seed %s: %d evaluations, %d distinct and decided, %d violations, %.1fs\n",
		id, tier, seed, res.Evals, res.Distinct, res.NViol, time.Since(start).Seconds())
	if res.NViol > 0 {
		for i, v := range res.Violations {
			path := filepath.Join(outdir, fmt.Sprintf("violation-%d.json", i+1))
			vv := v
			for j := range vv.Args {
				vv.Args[j] = strconv.Quote(vv.Args[j])
			}
			writeJSON(path, vv)
			if i < 10 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
				fmt.Printf("  %s %s: [%s] %s\n", v.Kind, head(strings.Join(vv.Args, " "), 300), v.Category, head(v.Message, 1500))
			}
		}
		return 1
	}
	if res.Evals == 0 || res.Distinct == 0 {
		fmt.Fprintln(os.Stderr, "nothing was observed")
		return 2
	}
	return 0
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// attribute finds the case that killed the process, by running each case of the journal alone.
func attribute(root string, p *Prop, pl place, journal, stderr, tier, seed string, cause error) *Violation {
	if p.Kinds == nil {
		return nil
	}
	j, err := os.ReadFile(journal)
	if err != nil {
		return nil
	}
	for w := 0; (w+1)*slotSize <= len(j); w++ {
		kind, args, ok := readSlot(j[w*slotSize : (w+1)*slotSize])
		if !ok || p.Kinds[kind] == nil {
			continue
		}
		v := Violation{Property: p.ID, Kind: kind, Args: append([]string(nil), args...), Category: "crash", Tier: tier, Seed: seed,
			Message: fmt.Sprintf("the process died (%v) while it ran this case: %s", cause, head(stderr, 1500))}
		q := v
		q.Args = nil
		for _, a := range args {
			q.Args = append(q.Args, strconv.Quote(a))
		}
		f := filepath.Join(root, "out", p.ID, fmt.Sprintf("candidate-%d.json", w))
		writeJSON(f, q)
		pl.share = 0
		cmd := pl.start("replay", f)
		done := make(chan error, 1)
		cmd.Start()
		go func() { done <- cmd.Wait() }()
		var rerr error
		hang := false
		select {
		case rerr = <-done:
		case <-time.After(watchdogLimit):
			cmd.Process.Kill()
			<-done
			hang = true
		}
		os.Remove(f)
		if hang {
			v.Category = "hang"
			v.Message = fmt.Sprintf("this case alone did not return within %v", watchdogLimit)
			return &v
		}
		if rerr != nil {
			return &v
		}
	}
	return nil
}

// replay runs one recorded case again: exit 1 if it still violates.
func replay(root, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pl := place{bin: os.Args[0], tz: v.Extra["tz"]}
	if v.Extra["goarch"] == "386" && !is32 {
		pl.bin = os.Getenv("HARNESS_32")
	}
	if pl.bin != os.Args[0] || pl.tz != os.Getenv("TZ") {
		cmd := pl.start("replay", file)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		cmd.Run()
		return cmd.ProcessState.ExitCode()
	}
	p := props[v.Property]
	if p == nil || p.Kinds[v.Kind] == nil {
		fmt.Fprintf(os.Stderr, "this violation is of a whole run: run check.sh %s with VERIF_SEED=%s VERIF_TIER=%s\n", v.Property, v.Seed, v.Tier)
		return 2
	}
	var args []string
	for _, a := range v.Args {
		u, err := strconv.Unquote(a)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		args = append(args, u)
	}
	r := newRun(p, v.Tier, v.Seed)
	c := &Ctx{run: r, counts: map[string]int64{}, nkind: map[string]*int64{}, Rng: &Rng{seedOf(v.Seed)}}
	c.Case(v.Kind, args...)
	for _, w := range r.violations {
		fmt.Printf("VIOLATION property=%s replay=%s\n  [%s] %s\n", w.Property, file, w.Category, w.Message)
	}
	if len(r.violations) > 0 {
		return 1
	}
	fmt.Println("holds")
	return 0
}
