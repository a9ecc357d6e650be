// Command vsim runs one property's check: it rebuilds the simulator from /repo's working
// tree, searches schedules and fault sequences on all cores, and writes evidence.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const repo = "/repo"

var (
	root  string // /verif
	bdir  string
	bench string // harness binary
	start = time.Now()
)

type report struct {
	Runs, Nontrivial int64
	SimNanos         int64
	Steps            int64
	Hashes           []uint64
	Cov, Net, Sched  map[string]int64
	Other            map[string]int64
	Scn              map[string]int64
	Known            map[string]int64
	Samples          []json.RawMessage
	Violation        string
	Class            string
	Err              string
	Done             bool
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if bdir != "" {
		os.RemoveAll(bdir)
	}
}

func goEnv() []string {
	env := []string{}
	for _, v := range os.Environ() {
		k := strings.SplitN(v, "=", 2)[0]
		switch k {
		case "GOOS", "GOARCH", "SECS4GO_STRESS", "GOFLAGS", "GOWORK", "GOENV", "GOPROXY", "GOTOOLCHAIN", "GOMODCACHE", "GOPATH", "GOCACHE", "HOME", "CGO_ENABLED", "PATH":
			continue
		}
		env = append(env, v)
	}
	cache := "/root/.cache/go-build"
	if err := os.MkdirAll(cache, 0o755); err != nil || !writable(cache) {
		cache = filepath.Join(root, "build", "gocache")
	}
	return append(env, "HOME=/root", "PATH=/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOENV=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache, "CGO_ENABLED=1")
}

func writable(dir string) bool {
	f, err := os.CreateTemp(dir, ".w")
	if err != nil {
		return false
	}
	f.Close()
	os.Remove(f.Name())
	return true
}

func run(dir string, name string, args ...string) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = goEnv()
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Run(); err != nil {
		die("%s %s: %v\n%s", name, strings.Join(args, " "), err, out.String())
	}
}

func build() {
	os.MkdirAll(filepath.Join(root, "build"), 0o755)
	var err error
	bdir, err = os.MkdirTemp(filepath.Join(root, "build"), "w-")
	if err != nil {
		die("%v", err)
	}
	x := filepath.Join(bdir, "simxform")
	run(root, "go", "build", "-o", x, "./cmd/simxform")
	w := filepath.Join(bdir, "src")
	os.MkdirAll(filepath.Join(w, "verifsim"), 0o755)
	run(root, x, "-src", repo, "-out", w, "-dep", "github.com/looplab/fsm")
	for _, d := range []string{"harness", "shim", "simrt"} {
		run(root, "cp", "-r", filepath.Join(root, "tree", d), filepath.Join(w, "verifsim"))
	}
	run(root, "cp", filepath.Join(repo, "go.mod"), filepath.Join(repo, "go.sum"), w)
	bench = filepath.Join(bdir, "harness")
	run(w, "go", "build", "-trimpath", "-o", bench, "./verifsim/harness")
}

func worker(args ...string) (*exec.Cmd, *bytes.Buffer, *bytes.Buffer) {
	c := exec.Command(bench, args...)
	c.Dir = bdir
	c.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/root", "TZ=UTC", "GOMAXPROCS=1", "GOTRACEBACK=single"}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	return c, &o, &e
}

func main() {
	root = os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	if len(os.Args) < 2 {
		die("usage: vsim PROPERTY | build | replay FILE")
	}
	if os.Args[1] == "build" {
		build()
		cleanup()
		return
	}
	if os.Args[1] == "replay" {
		build()
		f, _ := filepath.Abs(os.Args[2])
		c, o, e := worker("-replay", f)
		err := c.Run()
		os.Stdout.Write(o.Bytes())
		os.Stderr.Write(e.Bytes())
		cleanup()
		if c.ProcessState.ExitCode() > 2 || c.ProcessState.ExitCode() < 0 {
			fmt.Printf("the simulated process crashed\nVIOLATION property=%s replay=%s\n", propOf(f), f)
			os.Exit(1)
		}
		if err != nil {
			os.Exit(c.ProcessState.ExitCode())
		}
		return
	}
	prop := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	build()
	buildS := time.Since(start).Seconds()
	rdir := filepath.Join(root, "replays")
	os.MkdirAll(rdir, 0o755)
	c, o, e := worker("-prop", prop, "-tier", tier, "-runs")
	if err := c.Run(); err != nil {
		die("%v %s", err, e.String())
	}
	count, _ := strconv.ParseInt(strings.TrimSpace(o.String()), 10, 64)
	if v, err := strconv.ParseInt(os.Getenv("VSIM_COUNT"), 10, 64); err == nil {
		count = v
	}
	budget := 75 * time.Second
	minb := 40 * time.Second
	if tier == "thorough" {
		budget = 40 * time.Minute
		minb = 4 * time.Minute
	}
	if v, err := time.ParseDuration(os.Getenv("VSIM_BUDGET")); err == nil {
		budget = v
	}
	n := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("VSIM_WORKERS")); err == nil {
		n = v
	}
	reps := make([]*report, n)
	cmds := make([]*exec.Cmd, n)
	var mu sync.Mutex
	var fatal, crash string
	stop := false
	searchStart := time.Now()
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		k := k
		st := filepath.Join(bdir, fmt.Sprintf("state-%d", k))
		args := []string{"-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(k), "-step", fmt.Sprint(n), "-count", fmt.Sprint(count),
			"-budget", budget.String(), "-min", minb.String(), "-dir", rdir, "-known", filepath.Join(root, "known_findings.json"), "-state", st}
		c, o, e := worker(args...)
		cmds[k] = c
		if err := c.Start(); err != nil {
			die("%v", err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Wait()
			var r report
			lines := bytes.Split(bytes.TrimSpace(o.Bytes()), []byte("\n"))
			ok := json.Unmarshal(lines[len(lines)-1], &r) == nil && r.Done
			mu.Lock()
			defer mu.Unlock()
			if ok {
				reps[k] = &r
				if r.Violation != "" && !stop {
					stop = true
					for _, x := range cmds {
						if x != c && x != nil && x.Process != nil {
							x.Process.Kill()
						}
					}
				}
				if r.Err != "" && fatal == "" {
					fatal = r.Err
				}
				return
			}
			if stop {
				return
			}
			b, _ := os.ReadFile(st)
			idx := strings.TrimSpace(string(b))
			msg := firstLines(e.String(), 60)
			// the process died: the same run again, alone
			c2, _, e2 := worker("-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-crash", idx, "-dir", rdir)
			mu.Unlock()
			c2.Run()
			mu.Lock()
			path := filepath.Join(rdir, fmt.Sprintf("%s-%d-%s.json", prop, seed, idx))
			if code := c2.ProcessState.ExitCode(); code == 0 || code == 2 {
				fatal = fmt.Sprintf("worker died in run %s, but the run alone does not: %s", idx, msg)
			} else if !strings.Contains(e2.String(), "younglifestyle") {
				fatal = fmt.Sprintf("worker died in run %s: %s", idx, msg)
			} else if crash == "" {
				crash = path
				fmt.Printf("run %s kills the process: %s\n", idx, firstLines(e2.String(), 12))
				if !stop {
					stop = true
					for _, x := range cmds {
						if x != nil && x.Process != nil {
							x.Process.Kill()
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(searchStart).Seconds()
	tot := report{Cov: map[string]int64{}, Net: map[string]int64{}, Sched: map[string]int64{}, Other: map[string]int64{}, Scn: map[string]int64{}, Known: map[string]int64{}}
	hs := map[uint64]bool{}
	viol, class := crash, ""
	if crash != "" {
		class = "process crash"
	}
	for _, r := range reps {
		if r == nil {
			continue
		}
		tot.Runs += r.Runs
		tot.Nontrivial += r.Nontrivial
		tot.SimNanos += r.SimNanos
		tot.Steps += r.Steps
		for _, h := range r.Hashes {
			hs[h] = true
		}
		for _, p := range [][2]map[string]int64{{tot.Cov, r.Cov}, {tot.Net, r.Net}, {tot.Sched, r.Sched}, {tot.Other, r.Other}, {tot.Scn, r.Scn}, {tot.Known, r.Known}} {
			for k, v := range p[1] {
				p[0][k] += v
			}
		}
		if len(tot.Samples) < 3 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		if r.Violation != "" && viol == "" {
			viol, class = r.Violation, r.Class
		}
	}
	// two executions of the same seeds in separate processes must agree event for event
	same, compared := 0, 0
	if viol == "" && fatal == "" {
		same, compared = recheck(prop, tier, seed)
	}
	if len(tot.Samples) > 3 {
		tot.Samples = tot.Samples[:3]
	}
	if len(tot.Samples) == 0 {
		tot.Samples = append(tot.Samples, json.RawMessage(fmt.Sprintf(`{"note":"no complete run before the search ended","replay":%q}`, viol)))
	}
	viols := 0
	if viol != "" {
		viols = 1
	}
	hours := searchS / 3600
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": time.Since(start).Seconds(), "violations": viols,
		"coverage": map[string]any{
			"evaluations":         tot.Runs,
			"distinct_nontrivial": len(hs),
			"rule": "One case is one simulated execution: workload, configuration, fault sequence, network behaviour and every scheduling decision are drawn from (VERIF_SEED, property, run index). " +
				"A run counts as non-trivial if the code under test did observable work in it (an application call completed, a handler or callback ran, a protocol exchange took place); " +
				"distinct means a different 64-bit hash over the run's whole sequence of scheduling decisions, timer firings and network events.",
			"samples":              tot.Samples,
			"seeds_per_hour":       int64(float64(tot.Runs) / hours),
			"simulated_seconds":    float64(tot.SimNanos) / 1e9,
			"scheduler_steps":      tot.Steps,
			"schedule":             tot.Sched,
			"network_and_faults":   tot.Net,
			"workload_and_faults":  tot.Cov,
			"scenarios":            tot.Scn,
			"distinct_measure":     "64-bit hash of the complete event history of a run",
			"determinism_recheck":  map[string]int{"runs_executed_twice_in_separate_processes": compared, "identical": same},
			"build_seconds":        buildS,
			"search_seconds":       searchS,
			"workers":              n,
			"runs_planned":         count,
			"known_findings_seen":  tot.Known,
			"noticed_but_other_properties": tot.Other,
			"real_code":            "all packages of the repository (root link package, codec, gem, hsms, utils, lib-secs2-hsms-go) and github.com/looplab/fsm, rebuilt from the working tree by source transformation",
			"stubbed":              "Go runtime scheduling of goroutines, channels, select, sync, context, time, net (TCP over a simulated network), math/rand, maps and map iteration order; sync/atomic, bufio, encoding/*, logging run for real; peers that are not a second endpoint under test are models",
		},
		"assumptions": []string{
			"interleaving granularity is one statement (plus split read-modify-writes); weak-memory effects below that are not explored",
			"the simulated TCP delivers bytes in order without corruption until the connection is lost, as the kernel does",
			"sampling: absence of a violation is evidence for the explored runs only",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	for _, k := range sorted(tot.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", prop, k, tot.Known[k])
	}
	fmt.Printf("%s: %d runs (%d distinct non-trivial), %.0f simulated s, %d steps, %.1f s wall\n", prop, tot.Runs, len(hs), float64(tot.SimNanos)/1e9, tot.Steps, time.Since(start).Seconds())
	if viol != "" {
		fmt.Printf("violation: %s\n", class)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, viol)
		cleanup()
		os.Exit(1)
	}
	if fatal != "" {
		die("%s", fatal)
	}
	if tot.Runs == 0 {
		die("no runs")
	}
	cleanup()
}

func recheck(prop, tier string, seed int64) (same, n int) {
	var res [2][]string
	for k := range res {
		c, o, _ := worker("-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-count", "24", "-hashes", "-all")
		c.Run()
		for _, l := range strings.Split(o.String(), "\n") {
			if len(l) > 0 && l[0] != '{' {
				res[k] = append(res[k], l)
			}
		}
	}
	for i := range res[0] {
		if i < len(res[1]) {
			n++
			if res[0][i] == res[1][i] {
				same++
			}
		}
	}
	return
}

func propOf(f string) string {
	var r struct{ Property string }
	b, _ := os.ReadFile(f)
	json.Unmarshal(b, &r)
	return r.Property
}

func sorted(m map[string]int64) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
