// Command mc explores the properties of libsv/libsv exhaustively within stated
// bounds.
//
//	mc run ID quick|thorough     supervise an exploration, write evidence
//	mc child ID TIER JOURNAL OUT (internal) explore
//	mc replay FILE               re-run one recorded violation
//	mc list                      list properties and scenarios
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif/mc/checks"
	"verif/mc/engine"
)

const workers = 8

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func find(id string) *engine.Property {
	for _, p := range checks.All() {
		if p.ID == id {
			q := p
			return &q
		}
	}
	return nil
}

// known findings: lines "finding: property=<id> key=<scenario|key> :: <what>".
// Lines starting with "fixed:" suppress nothing.
func knownFindings(id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<20)
	for s.Scan() {
		l := s.Text()
		p := "finding: property=" + id + " key="
		if strings.HasPrefix(l, p) {
			r := strings.SplitN(l[len(p):], " :: ", 2)
			if len(r) == 2 {
				m[r[0]] = r[1]
			}
		}
	}
	return m
}

func openJournal(path string) []int32 {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		panic(err)
	}
	n := workers * engine.JournalWords * 4
	if err := f.Truncate(int64(n)); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	f.Close()
	return unsafe.Slice((*int32)(unsafe.Pointer(&b[0])), n/4)
}

func limits() {
	lim := uint64(24 << 30)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	debug.SetGCPercent(200)
}

func child(id, tier, journal, out string) int {
	limits()
	p := find(id)
	budget := 780 * time.Second
	if tier == "thorough" {
		budget = 6 * time.Hour
	}
	known := map[string]bool{}
	for k := range knownFindings(id) {
		known[k] = true
	}
	nw := workers
	if os.Getenv("MC_SERIAL") != "" {
		nw = 1
	}
	if only := os.Getenv("MC_ONLY"); only != "" { // for trying out one scenario
		var l []engine.Scenario
		for _, s := range p.Scenarios {
			if strings.Contains(","+only+",", ","+s.Name+",") {
				l = append(l, s)
			}
		}
		p.Scenarios = l
	}
	e := &engine.Explorer{P: *p, Tier: tier, Workers: nw, Deadline: time.Now().Add(budget), Known: known, Journal: openJournal(journal)}
	r := e.Explore()
	if err := engine.WriteJSON(out, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

func saveReplay(f engine.Failed) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, f.Property+"-"+f.Tier+".json")
	engine.WriteJSON(path, f)
	return path
}

func isolated(f engine.Failed, d time.Duration) (bad bool, how string) {
	path := saveReplay(f)
	cmd := exec.Command(os.Args[0], "replay", path)
	var sb strings.Builder
	cmd.Stdout, cmd.Stderr = &sb, &sb
	if err := cmd.Start(); err != nil {
		return false, err.Error()
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case err := <-ch:
		if err != nil {
			s := sb.String()
			if len(s) > 2000 {
				s = s[:2000]
			}
			return true, "process died or failed: " + err.Error() + "\n" + s
		}
		return false, ""
	case <-time.After(d):
		cmd.Process.Kill()
		<-ch
		return true, fmt.Sprintf("the call did not return within %v", d)
	}
}

func candidates(p *engine.Property, tier string, j []int32) []engine.Failed {
	var fs []engine.Failed
	for w := 0; w < workers; w++ {
		s := j[w*engine.JournalWords : (w+1)*engine.JournalWords]
		if s[0] == 0 || int(s[1]) >= len(p.Scenarios) {
			continue
		}
		fs = append(fs, engine.Failed{Property: p.ID, Scenario: p.Scenarios[s[1]].Name, Tier: tier,
			Choices: append([]int32{}, s[3:3+s[2]]...), Key: "crash-or-hang"})
	}
	return fs
}

func run(id, tier string) int {
	p := find(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	jpath, out := filepath.Join(tmp, "journal"), filepath.Join(tmp, "out.json")
	j := openJournal(jpath)
	cmd := exec.Command(os.Args[0], "child", id, tier, jpath, out)
	var sb strings.Builder
	cmd.Stdout, cmd.Stderr = os.Stdout, &sb
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	// supervise: a worker whose execution counter stands still for 100 s hangs
	var last [workers]int32
	var since [workers]time.Time
	for i := range since {
		since[i] = time.Now()
	}
	var werr error
	hung := -1
loop:
	for {
		select {
		case werr = <-ch:
			break loop
		case <-time.After(2 * time.Second):
			anyAlive := false
			for i := 0; i < workers; i++ {
				c := atomic.LoadInt32(&j[i*engine.JournalWords])
				if c != last[i] {
					last[i], since[i] = c, time.Now()
				}
				if time.Since(since[i]) < 100*time.Second {
					anyAlive = true
				}
			}
			// idle workers also stand still, so only a whole-process standstill counts
			if !anyAlive {
				hung = 1
				cmd.Process.Kill()
				werr = <-ch
				break loop
			}
		}
	}
	var res engine.Result
	if werr != nil {
		s := sb.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		fmt.Fprintf(os.Stderr, "exploration process ended abnormally (%v, hang=%v)\n%s\n", werr, hung > 0, s)
		for _, f := range candidates(p, tier, j) {
			if bad, how := isolated(f, 90*time.Second); bad {
				f.Message, f.Repro = how, "1/1"
				res.Failures = append(res.Failures, f)
				break
			}
		}
		if len(res.Failures) == 0 && os.Getenv("MC_SERIAL") == "" {
			// e.g. "concurrent map writes": the library does not survive parallel
			// exploration of independent values; explore on one worker instead
			fmt.Fprintln(os.Stderr, "no candidate execution reproduced it alone: exploring again on one worker")
			os.Setenv("MC_SERIAL", "1")
			return run(id, tier)
		}
		if len(res.Failures) == 0 && (hung > 0 || strings.Contains(sb.String(), "all goroutines are asleep")) {
			// on one worker: the calls made before are what it takes
			for _, f := range candidates(p, tier, j) {
				f.Key, f.Message, f.Repro = "hang after other executions", "the call does not return in the process which ran the executions before this one, in order, on one worker", "2/2 explorations, 0/1 alone"
				res.Failures = append(res.Failures, f)
				break
			}
		}
		if len(res.Failures) == 0 {
			fmt.Fprintln(os.Stderr, "no candidate execution reproduced it: error of the check")
			return 3
		}
	} else {
		b, err := os.ReadFile(out)
		if err == nil {
			err = json.Unmarshal(b, &res)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	if res.Diverged != "" {
		fmt.Fprintln(os.Stderr, "harness divergence:", res.Diverged)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	outc := map[string]int64{}
	for k, v := range res.Outcomes {
		if len(outc) < 400 {
			outc[k] = v
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]interface{}{
			"states": res.States, "transitions": res.Transitions,
			"traces_validated_against_impl": res.Traces,
			"rule":                          p.Rule,
			"exhaustive":                    res.Exhaustive, "max_choice_depth": res.MaxDepth, "pruned": res.Pruned,
			"scenarios": res.PerScenario, "outcomes": outc, "samples": res.Samples,
			"conformance": "every explored model trace is executed on the library built from /repo's working tree and compared step by step; nothing is checked on the model alone",
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(res.Failures),
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	if err := engine.WriteJSON(filepath.Join(verifDir(), "evidence", id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d executions=%d outcomes=%d exhaustive=%v wall=%.1fs\n", id, tier,
		res.States, res.Transitions, res.Traces, res.Executions, len(res.Outcomes), res.Exhaustive, time.Since(t0).Seconds())
	kf := knownFindings(id)
	for k := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf[k])
	}
	if len(res.Failures) > 0 {
		f := res.Failures[0]
		path := saveReplay(f)
		fmt.Printf("scenario %s choices %v key %q reproduced %s\n%s\n", f.Scenario, f.Choices, f.Key, f.Repro, f.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if res.Diverged != "" {
		return 3
	}
	return 0
}

func replay(path string) int {
	limits()
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f engine.Failed
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := find(f.Property)
	for i := range p.Scenarios {
		if p.Scenarios[i].Name == f.Scenario {
			key, msg, log := engine.Replay(&p.Scenarios[i], f.Tier, f.Choices)
			for _, l := range log {
				fmt.Println("  " + l)
			}
			if key != "" {
				fmt.Printf("reproduced: %s\n%s\n", key, msg)
				return 1
			}
			fmt.Println("not reproduced")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	return 2
}

func main() {
	a := os.Args
	switch {
	case len(a) == 4 && a[1] == "run":
		os.Exit(run(a[2], a[3]))
	case len(a) == 6 && a[1] == "child":
		os.Exit(child(a[2], a[3], a[4], a[5]))
	case len(a) == 3 && a[1] == "replay":
		os.Exit(replay(a[2]))
	case len(a) == 3 && a[1] == "op": // one call in a fresh process (C26)
		n, err := strconv.Atoi(a[2])
		if err != nil {
			os.Exit(2)
		}
		fmt.Print(checks.OpResult(n))
	case len(a) == 4 && a[1] == "twin": // one call of a twin group in a fresh process
		g, err := strconv.Atoi(a[2])
		v, err2 := strconv.Atoi(a[3])
		if err != nil || err2 != nil {
			os.Exit(2)
		}
		fmt.Print(checks.TwinResult(g, v))
	case len(a) == 2 && a[1] == "shapes": // writes checks/shapes_data.go
		checks.GenShapes(os.Stdout, os.Stderr)
	case len(a) == 2 && a[1] == "list":
		for _, p := range checks.All() {
			fmt.Println(p.ID)
			for _, s := range p.Scenarios {
				fmt.Printf("   %-32s %s\n", s.Name, s.Bound)
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "usage: mc run ID quick|thorough | mc replay FILE | mc list")
		os.Exit(2)
	}
}
