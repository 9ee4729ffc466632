//go:build race

// Command c27 decides property C27: it explores the schedules of two concurrent
// calls of the instrumented library under a preemption bound.
//
//	c27 run quick|thorough
//	c27 baseline            (internal) results of every call run alone
//	c27 worker BASE         (internal) tasks on stdin, results on stdout
//	c27 replay FILE
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/mc/ops"
	"verif/mc/sched"
)

// Task is one pair of calls to explore.
type Task struct {
	Shared bool  // both calls read the same values
	Fresh  bool  // the process was started for this schedule
	A, B   int   // indices
	Bound  int   // preemptions
	Cap1   int   // 1 preemption only if at most this many points overlap
	Cap2   int   // 2 preemptions only if at most this many points overlap
	Only   *Plan // run just this schedule
	Twin   bool  // A and B are argument tuples of group G, called again afterwards
	G      int
	R      []int // tuples called beforehand
	Sync   bool  // threads are switched at operations on atomics, locks and pools
	Warm   bool  // the process has made every call before
	Pair   bool  // two threads with the calls A and B
	N, K   int   // threads, and calls by each
	L      []int // argument tuples of the threads
	Cap    int64 // schedules
	Until  int64 // when to stop (Unix time, ns), 0: never
}

// Plan is one schedule.
type Plan struct {
	Start  int
	Pre    []int
	Ev, To []int `json:",omitempty"` // deviations from the default schedule
}

// Fail is a violation.
type Fail struct {
	Property string
	Task     Task
	Plan     Plan
	Names    [2]string
	Message  string
}

// Done is what exploring a task gave.
type Done struct {
	Schedules, Steps, States, Switched int64
	MaxBoth                            int
	Both                               [2]int // last step with both alive, without preemption, per start
	Fail                               *Fail
	Hang                               bool
	Bound                              int    // preemption bound completed
	Ops                                int    // operations on atomics, locks and pools
	Cut                                bool   // stopped before the end
	Alt                                []Plan // the schedules with one more deviation
}

// text survives JSON whatever its bytes are.
type text string

// MarshalJSON encodes it.
func (t text) MarshalJSON() ([]byte, error) { return json.Marshal([]byte(t)) }

// UnmarshalJSON decodes it.
func (t *text) UnmarshalJSON(b []byte) error {
	var v []byte
	err := json.Unmarshal(b, &v)
	*t = text(v)
	return err
}

// canon is what a call returned; long results are cut and their hash appended.
func canon(r *ops.Res) text {
	s := r.Canon()
	if len(s) <= 3000 {
		return text(s)
	}
	h := sha256.Sum256([]byte(s))
	return text(fmt.Sprintf("%s... %x", s[:1500], h))
}

// Base holds the results of the calls run alone.
type Base struct {
	Own, Shared []text
	Twin        [][]text
}

var (
	own    = append(ops.All(), ops.Large()...)
	nSmall = len(ops.All())
	shared = ops.AllShared()
	groups []ops.Group
	base   Base
	warm   bool
)

func name(t Task) [2]string {
	if t.Pair {
		return [2]string{own[t.A].Name, own[t.B].Name}
	}
	if t.Sync && t.Twin {
		n := groups[t.G].Name
		return [2]string{fmt.Sprintf("%s with arguments #%v, %d threads, %d calls by each", n, t.L, t.N, t.K), "themselves"}
	}
	if t.Sync {
		return [2]string{fmt.Sprintf("%s, %d threads, %d calls by each", own[t.A].Name, t.N, t.K), "itself"}
	}
	if t.Twin {
		n := groups[t.G].Name
		return [2]string{fmt.Sprintf("%s with arguments #%d", n, t.A), fmt.Sprintf("%s with arguments #%d", n, t.B)}
	}
	if t.Shared {
		return [2]string{shared[t.A].Name, shared[t.B].Name}
	}
	return [2]string{own[t.A].Name, own[t.B].Name}
}

// ---- the two controlled threads ------------------------------------------------

type job struct {
	f    func() *ops.Res
	more []func() *ops.Res // further calls
	r    []*ops.Res
}

var (
	work [sched.MaxThreads]chan *job
	done [sched.MaxThreads]chan bool
)

func thread(me int) {
	sched.Register(me)
	done[me] <- true
	for j := range work[me] {
		sched.Start(me)
		j.r = append(j.r, j.f())
		for _, f := range j.more {
			j.r = append(j.r, f())
		}
		sched.Finish(me)
		done[me] <- true
	}
}

func threads() {
	for i := range work {
		work[i], done[i] = make(chan *job), make(chan bool, 1)
		go thread(i)
		<-done[i]
	}
}

type hang struct{}

// cpu is the time this process has computed.
func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// execute runs one schedule and returns what is wrong with it.
func execute(t Task, p Plan) (msg string) {
	js := make([]*job, 2)
	want := make([]text, 2)
	again := func() string { return "" }
	threads := 2
	calls := 1
	if t.Sync {
		threads, calls = t.N, t.K
		js, want = make([]*job, threads), make([]text, threads)
	}
	if t.Twin {
		g := &groups[t.G]
		call := func(v int) func() *ops.Res {
			ar := &ops.Arena{}
			ar.Set(g.Tuple(v))
			return func() *ops.Res { return g.Call(ar) }
		}
		alone := func(when string, vs ...int) string {
			for _, v := range vs {
				if c := canon(call(v)()); c != base.Twin[t.G][v] {
					return fmt.Sprintf("%s with arguments #%d gives another result %s: %s", g.Name, v, when, diffAt(c, base.Twin[t.G][v]))
				}
			}
			return ""
		}
		if m := alone("before the concurrent calls", t.R...); m != "" {
			return m
		}
		l := t.L
		if !t.Sync {
			l = []int{t.A, t.B}
		}
		for i, v := range l {
			js[i], want[i] = &job{f: call(v)}, base.Twin[t.G][v]
			for len(js[i].more) < calls-1 {
				js[i].more = append(js[i].more, call(v))
			}
		}
		again = func() string {
			for i := len(l) - 1; i >= 0; i-- {
				if m := alone("after the concurrent calls", l[i]); m != "" {
					return m
				}
			}
			return ""
		}
	} else if t.Sync {
		for i := range js {
			c := t.A
			if t.Pair && i == 1 {
				c = t.B
			}
			js[i], want[i] = &job{f: own[c].Do}, base.Own[c]
			for len(js[i].more) < calls-1 {
				js[i].more = append(js[i].more, own[c].Do)
			}
		}
	} else if t.Shared {
		s := ops.NewShared()
		again = func() string {
			for k, o := range []*ops.SharedOp{&shared[t.A], &shared[t.B]} {
				if c := canon(o.Do(s)); c != want[k] {
					return fmt.Sprintf("%s gives another result when repeated after the concurrent calls: %s", o.Name, diffAt(c, want[k]))
				}
			}
			return ""
		}
		a, b := &shared[t.A], &shared[t.B]
		js[0] = &job{f: func() *ops.Res { return a.Do(s) }}
		js[1] = &job{f: func() *ops.Res { return b.Do(s) }}
		want = []text{base.Shared[t.A], base.Shared[t.B]}
	} else {
		js[0], js[1] = &job{f: own[t.A].Do}, &job{f: own[t.B].Do}
		want = []text{base.Own[t.A], base.Own[t.B]}
	}
	races := runtime.RaceErrors()
	if t.Sync {
		sched.SetupSync(threads, p.Start, p.Ev, p.To)
	} else {
		sched.Setup(p.Start, p.Pre)
	}
	for i, j := range js {
		work[i] <- j
	}
	left := threads
	last, since, used := -1, time.Now(), cpu()
	unstuck := since
	tick := time.NewTicker(2 * time.Millisecond)
	defer tick.Stop()
	for left > 0 {
		select {
		case <-done[0]:
			left--
		case <-done[1]:
			left--
		case <-done[2]:
			left--
		case <-done[3]:
			left--
		case <-tick.C:
			if n := sched.Steps(); n != last {
				last, since, used = n, time.Now(), cpu()
				unstuck = since
			} else if d := time.Since(since); d > time.Minute {
				panic(hang{})
			} else if d > 5*time.Millisecond && time.Since(unstuck) > 5*time.Millisecond && cpu()-used < d/4 || time.Since(unstuck) > 4*time.Second {
				// the running thread waits for something which the scheduler does not see
				sched.Unstick()
				unstuck = time.Now()
			}
		}
	}
	sched.Stop()
	if n := runtime.RaceErrors() - races; n > 0 {
		return fmt.Sprintf("data race (%d reports)", n)
	}
	n := name(t)
	for i, j := range js {
		for _, r := range j.r {
			if c := canon(r); c != want[i] {
				return fmt.Sprintf("%s gave another result when run beside %s: %s", n[i%2], n[1-i%2], diffAt(c, want[i]))
			}
		}
	}
	return again()
}

func diffAt(a, b text) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s text) text {
		lo, hi := i-10, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at character %d ...%s... instead of ...%s...", i, cut(a), cut(b))
}

// explore runs every schedule of a task with at most Bound preemptions.
func explore(t Task, emit func(Done)) {
	if t.Warm && !warm {
		warm = true
		for i := range own {
			own[i].Do()
		}
		for i := range shared {
			shared[i].Do(ops.NewShared())
		}
		for i := range groups {
			for v := 0; v < groups[i].Variants(); v++ {
				ar := &ops.Arena{}
				ar.Set(groups[i].Tuple(v))
				groups[i].Call(ar)
			}
		}
	}
	var d Done
	seen := map[[3]int]bool{}
	finish := func() { d.States = int64(len(seen)); emit(d) }
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(hang); !ok {
				panic(r)
			}
			d.Hang = true
			finish()
			os.Exit(0)
		}
	}()
	one := func(p Plan) (both int, ok bool) {
		d.Fail = &Fail{Property: "C27", Task: t, Plan: p, Names: name(t), Message: "the calls never return (deadlock)"}
		msg := execute(t, p)
		total, both, sw, dead, _ := sched.Stats()
		d.Fail = nil
		d.Schedules++
		d.Steps += int64(total)
		if sw > 1 {
			d.Switched++
		}
		if both > d.MaxBoth {
			d.MaxBoth = both
		}
		for k := range p.Pre {
			a, b := sched.At(k)
			seen[[3]int{a, b, p.Start}] = true
		}
		seen[[3]int{-1, total, p.Start}] = true
		if dead && msg == "" {
			msg = "deadlock"
		}
		if msg != "" {
			d.Fail = &Fail{Property: "C27", Task: t, Plan: p, Names: name(t), Message: msg}
			return both, false
		}
		return both, true
	}
	if t.Sync {
		exploreSync(t, &d, seen, finish)
		return
	}
	if t.Only != nil {
		both, _ := one(*t.Only)
		d.Both[t.Only.Start] = both
		finish()
		return
	}
	bound := t.Bound
	for start := 0; start < 2; start++ {
		var rec func(pre []int) bool
		rec = func(pre []int) bool {
			both, ok := one(Plan{Start: start, Pre: pre})
			if !ok {
				return false
			}
			if len(pre) == 0 {
				d.Both[start] = both
				if bound >= 2 && both > t.Cap2 {
					bound = 1
				}
				if bound >= 1 && both > t.Cap1 {
					bound = 0
				}
			}
			if len(pre) == bound {
				return true
			}
			from := 1
			if len(pre) > 0 {
				from = pre[len(pre)-1] + 1
			}
			for k := from; k <= both; k++ {
				if !rec(append(append([]int{}, pre...), k)) {
					return false
				}
			}
			return true
		}
		if !rec(nil) {
			break
		}
	}
	d.Bound = bound
	finish()
}

const maxSyncBound = 5

// exploreSync runs every schedule of a task with several threads in which at most
// bound switches are not forced, bound after bound as long as the next one will
// not take more schedules than the task's cap. Which thread follows one that has
// finished is always chosen in every way.
func exploreSync(t Task, d *Done, seen map[[3]int]bool, finish func()) {
	var buf []sched.Event
	one := func(p Plan) ([]sched.Event, bool) {
		d.Fail = &Fail{Property: "C27", Task: t, Plan: p, Names: name(t), Message: "the calls never return (deadlock)"}
		msg := execute(t, p)
		total, _, sw, dead, _ := sched.Stats()
		ev, nops, _ := sched.Events(buf)
		buf = ev
		d.Fail = nil
		d.Schedules++
		d.Steps += int64(total)
		if nops > d.Ops {
			d.Ops = nops
		}
		if len(ev) > d.MaxBoth {
			d.MaxBoth = len(ev)
		}
		if sw > t.N-1 {
			d.Switched++
		}
		if dead && msg == "" {
			msg = "deadlock"
		}
		if msg != "" {
			d.Fail = &Fail{Property: "C27", Task: t, Plan: p, Names: name(t), Message: msg}
			return nil, false
		}
		return append([]sched.Event{}, ev...), true
	}
	if t.Only != nil {
		if ev, ok := one(*t.Only); ok && t.Fresh && len(t.Only.Ev) == 0 && d.Ops > 0 {
			for e := range ev {
				for o := 0; o < t.N; o++ {
					if ev[e].Enabled&(1<<o) != 0 && o != int(ev[e].Def) {
						d.Alt = append(d.Alt, Plan{Start: t.Only.Start, Ev: []int{e}, To: []int{o}})
					}
				}
			}
		}
		finish()
		return
	}
	starts := 1
	if t.Twin || t.Pair {
		starts = t.N
	}
	var level, next []Plan
	for i := 0; i < starts; i++ {
		level = append(level, Plan{Start: i})
	}
	for bound := 0; ; bound++ {
		for len(level) > 0 {
			p := level[len(level)-1]
			level = level[:len(level)-1]
			if t.Until != 0 && time.Now().UnixNano() > t.Until {
				d.Cut = true
				finish()
				return
			}
			ev, ok := one(p)
			if !ok {
				finish()
				return
			}
			if d.Ops == 0 && t.Pair {
				continue
			}
			if d.Ops == 0 {
				break
			}
			if len(p.Ev) == sched.MaxDev {
				continue
			}
			from := 0
			if k := len(p.Ev); k > 0 {
				from = p.Ev[k-1] + 1
			}
			for e := from; e < len(ev); e++ {
				g := ev[e].Prog
				seen[[3]int{int(g[0])<<16 | int(g[1]), int(g[2])<<16 | int(g[3]), int(ev[e].Me)}] = true
				fresh := false
				for o := 0; o < t.N; o++ {
					if ev[e].Enabled&(1<<o) == 0 || o == int(ev[e].Def) {
						continue
					}
					if !t.Twin && !t.Pair && ev[e].Started&(1<<o) == 0 { // threads which have not started are alike
						if fresh || ev[e].Started&(1<<ev[e].Def) == 0 {
							continue
						}
						fresh = true
					}
					q := Plan{Start: p.Start, Ev: append(append(make([]int, 0, len(p.Ev)+1), p.Ev...), e), To: append(append(make([]int, 0, len(p.To)+1), p.To...), o)}
					if ev[e].Kind == sched.AtFinish {
						level = append(level, q)
					} else if bound < maxSyncBound {
						next = append(next, q)
					}
				}
			}
		}
		d.Bound = bound
		if d.Ops == 0 || len(next) == 0 || d.Schedules+int64(len(next)) > t.Cap {
			break
		}
		level, next = next, nil
	}
	finish()
}

func worker(basePath string) {
	if filepath.Base(basePath) != "small.json" {
		groups = ops.Groups()
	}
	b, err := os.ReadFile(basePath)
	if err == nil {
		err = json.Unmarshal(b, &base)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	threads()
	in := bufio.NewReader(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var t Task
		if err := json.Unmarshal(l, &t); err != nil {
			os.Exit(2)
		}
		explore(t, func(d Done) { out.Encode(d) })
	}
}

func baselines() {
	groups = ops.Groups()
	for i := range own {
		base.Own = append(base.Own, canon(own[i].Do()))
	}
	for i := range shared {
		base.Shared = append(base.Shared, canon(shared[i].Do(ops.NewShared())))
	}
	for i := range groups {
		var r []text
		for v := 0; v < groups[i].Variants(); v++ {
			ar := &ops.Arena{}
			ar.Set(groups[i].Tuple(v))
			r = append(r, canon(groups[i].Call(ar)))
		}
		base.Twin = append(base.Twin, r)
	}
	json.NewEncoder(os.Stdout).Encode(base)
}

// bases has the results of all calls run alone computed in another process, for
// this one and for the workers.
func bases(tmp string) error {
	var first []byte
	for k := 0; k < 2; k++ {
		log := filepath.Join(tmp, "alone")
		c := exec.Command(os.Args[0], "baseline")
		c.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+log)
		var errs bytes.Buffer
		c.Stderr = &errs
		b, err := c.Output()
		if m, _ := filepath.Glob(log + ".*"); len(m) > 0 {
			r, _ := os.ReadFile(m[0])
			if len(r) > 6000 {
				r = r[:6000]
			}
			return aloneError("calls made one after the other by a single goroutine have a data race among themselves (the library's own goroutines)\n" + string(r))
		}
		if err != nil {
			e := errs.String()
			if len(e) > 6000 {
				e = e[:6000]
			}
			if strings.Contains(e, "fatal error:") || strings.Contains(e, "panic:") {
				return aloneError("calls made one after the other by a single goroutine end the process: " + err.Error() + "\n" + e)
			}
			fmt.Fprint(os.Stderr, e)
			return err
		}
		if k == 0 {
			first = b
		} else if !bytes.Equal(first, b) {
			x, y := text(first), text(b)
			return aloneError("calls made one after the other by a single goroutine give other results in a second process: " + diffAt(y, x))
		}
	}
	err := json.Unmarshal(first, &base)
	if err == nil {
		err = os.WriteFile(filepath.Join(tmp, "base.json"), first, 0644)
	}
	if err == nil {
		small := base
		small.Twin = nil
		b, _ := json.Marshal(small)
		err = os.WriteFile(filepath.Join(tmp, "small.json"), b, 0644)
	}
	return err
}

// aloneError is a violation which shows without a second thread.
type aloneError string

func (e aloneError) Error() string { return string(e) }

// ---- supervisor ------------------------------------------------------------------

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	log string
}

func spawn(tmp, log, base string) (*proc, error) {
	p := &proc{log: filepath.Join(tmp, log)}
	p.cmd = exec.Command(os.Args[0], "worker", filepath.Join(tmp, base))
	p.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+p.log, "GOMAXPROCS=1", "GOGC=200")
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<16)
	f, err := os.Create(p.log + ".err")
	if err != nil {
		return nil, err
	}
	p.cmd.Stderr = f
	err = p.cmd.Start()
	f.Close()
	return p, err
}

func (p *proc) do(t Task) (d Done, err error) {
	b, _ := json.Marshal(t)
	if _, err = p.in.Write(append(b, '\n')); err != nil {
		return
	}
	l, err := p.out.ReadBytes('\n')
	if err != nil {
		return d, err
	}
	return d, json.Unmarshal(l, &d)
}

func (p *proc) close() {
	p.in.Close()
	ch := make(chan bool)
	go func() { p.cmd.Wait(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(5 * time.Second):
		p.cmd.Process.Kill()
		<-ch
	}
}

func (p *proc) races() string {
	var sb strings.Builder
	m, _ := filepath.Glob(p.log + ".*")
	sort.Strings(m)
	for _, f := range m {
		b, _ := os.ReadFile(f)
		if len(b) > 6000 {
			b = b[:6000]
		}
		sb.Write(b)
	}
	return sb.String()
}

// alone runs one schedule in a process of its own.
func alone(tmp string, t Task, p Plan, tag string) (d Done, races string, err error) {
	bf := "small.json"
	if t.Twin || t.Warm {
		bf = "base.json"
	}
	pr, err := spawn(tmp, tag, bf)
	if err != nil {
		return d, "", err
	}
	t.Only = &p
	d, err = pr.do(t)
	pr.close()
	races = pr.races()
	for _, f := range func() []string { m, _ := filepath.Glob(pr.log + "*"); return m }() {
		os.Remove(f)
	}
	return d, races, err
}

type totals struct {
	Schedules, Steps, States, Switched, Tasks int64
	MaxBoth                                   int
	ByBound                                   [maxSyncBound + 1]int64 // pairs by completed preemption bound
}

type group struct {
	Name  string
	Bound string
	tasks []Task
	totals
	exhaustive bool
	wall       float64
	ops        map[int][2]int // task: operations on atomics, locks and pools; events
}

func run(tier string) int {
	t0 := time.Now()
	groups = ops.Groups()
	thorough := tier == "thorough"
	budget := 700 * time.Second
	if thorough {
		budget = 6 * time.Hour
	}
	tmp, err := os.MkdirTemp("", "mc-C27-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	err = bases(tmp)
	if e, ok := err.(aloneError); ok {
		n := 0
		for i := 0; i < 5; i++ {
			if _, again := bases(tmp).(aloneError); again {
				n++
			}
			m, _ := filepath.Glob(filepath.Join(tmp, "alone.*"))
			for _, f := range m {
				os.Remove(f)
			}
		}
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, "C27-"+tier+".json")
		fb, _ := json.MarshalIndent(Fail{Property: "C27", Message: string(e)}, "", " ")
		os.WriteFile(path, append(fb, '\n'), 0644)
		ev := map[string]interface{}{"property": "C27", "tier": tier, "seed": 0, "level": "model_checking", "coverage": map[string]interface{}{"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "exhaustive": false, "rule": "every call made alone twice, in two processes"}, "wall_s": time.Since(t0).Seconds(), "violations": 1}
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
		eb, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir(), "evidence", "C27.json"), append(eb, '\n'), 0644)
		fmt.Printf("%s\nreproduced %d/5\nVIOLATION property=C27 replay=%s\n", e, n, path)
		return 1
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "baseline:", err)
		return 3
	}
	var gs []*group
	mk := func(name, bound string) *group {
		g := &group{Name: name, Bound: bound}
		gs = append(gs, g)
		return g
	}
	cap1, cap2, twinCap := 1000, 80, 1200
	if thorough {
		cap1, cap2, twinCap = 6000, 250, 6000
	}
	g := mk("fresh-process", fmt.Sprintf("each of %d calls beside itself as the first thing a process does, no preemption, each schedule in a fresh process", len(own)))
	for i := range own {
		for s := 0; s < 1; s++ {
			g.tasks = append(g.tasks, Task{Fresh: true, A: i, B: i, Only: &Plan{Start: s}})
		}
	}
	g = mk("same-call", fmt.Sprintf("each of %d calls beside itself, every schedule with at most 1 preemption (when at most %d points overlap), 2 when at most %d points overlap; %d on large arguments without preemption", len(own), cap1, cap2, len(own)-nSmall))
	for i := range own {
		b := 2
		if i >= nSmall {
			b = 0
		}
		g.tasks = append(g.tasks, Task{A: i, B: i, Bound: b, Cap1: cap1, Cap2: cap2})
	}
	sb := 2
	g = mk("shared-values", fmt.Sprintf("every pair of %d read-only calls on the same values, every schedule with at most 1 preemption, 2 when at most %d points overlap", len(shared), cap2))
	for i := range shared {
		for j := i; j < len(shared); j++ {
			g.tasks = append(g.tasks, Task{Shared: true, A: i, B: j, Bound: sb, Cap1: 100000, Cap2: cap2})
		}
	}
	g = mk("twin-threads", "each of %d functions: two threads call it with the same or with different arguments (the base tuple beside itself and beside the first change of every argument; thorough: beside every change), after up to three calls with other arguments, every schedule with at most 1 preemption, 2 when at most %d points overlap; both calls repeated alone afterwards")
	g.Bound = fmt.Sprintf(g.Bound, len(groups), cap2)
	for i := range groups {
		n := groups[i].Variants()
		seen := map[int]bool{}
		bs := []int{0}
		for v, k := 1, 0; k < len(groups[i].Args); k++ {
			if len(groups[i].Args[k]) > 1 {
				bs = append(bs, v)
			}
			v += len(groups[i].Args[k]) - 1
		}
		if thorough {
			for v := 1; v < n; v++ {
				bs = append(bs, v)
			}
		}
		for _, b := range bs {
			if !seen[b] {
				seen[b] = true
				var r []int
				for _, v := range []int{1, n / 2, n - 1} {
					if v != b && v < n && v > 0 {
						r = append(r, v)
					}
				}
				g.tasks = append(g.tasks, Task{Twin: true, G: i, A: 0, B: b, R: r, Bound: sb, Cap1: twinCap, Cap2: cap2})
			}
		}
	}
	syncCap, syncDeep, syncFirst, syncUntil := int64(150000), int64(2000000), 450*time.Second, 540*time.Second
	pairCap, pairUntil := int64(400), 330*time.Second
	if thorough {
		syncCap, syncDeep, syncFirst, syncUntil = 3000000, 100000000, 4*time.Hour, 5*time.Hour
		pairCap, pairUntil = 20000, 3*time.Hour
	}
	gs1 := mk("sync-points-default", fmt.Sprintf("each of %d calls by 4 threads once, 3 threads twice and 2 threads three times, and each of %d functions with different arguments by 3 threads once and 2 threads twice, without preemption: counts the operations on atomics, locks, pools and maps of package sync", len(own), len(groups)))
	for i := range own {
		for n := 4; n >= 2; n-- {
			gs1.tasks = append(gs1.tasks, Task{Sync: true, A: i, B: i, N: n, K: 5 - n})
		}
	}
	for i := range groups {
		n := groups[i].Variants()
		if n < 2 {
			continue
		}
		gs1.tasks = append(gs1.tasks, Task{Sync: true, Twin: true, G: i, N: 3, K: 1, L: []int{0, 1, n - 1}}, Task{Sync: true, Twin: true, G: i, N: 2, K: 2, L: []int{0, 1}}, Task{Sync: true, Twin: true, G: i, N: 2, K: 2, L: []int{0, n - 1}})
	}
	gs2 := mk("sync-points", fmt.Sprintf("those of the above in which such operations occur: threads switched before these operations, every schedule with at most b switches which are not forced, b (at most %d) as large as a limit of about %d schedules in all allows", maxSyncBound, syncCap))
	gs3 := mk("sync-points-deeper", fmt.Sprintf("the same with %d schedules, as far as they can be run before second %d of the check", syncDeep, int(syncUntil.Seconds())))
	gp := mk("all-pairs", fmt.Sprintf("every pair of %d calls on independent values, both orders, switched before operations on atomics, locks, pools and channels: every schedule with at most b switches which are not forced, b as large as a limit of %d schedules for each pair allows", nSmall, pairCap))
	for i := range own[:nSmall] {
		for j := i + 1; j < nSmall; j++ {
			gp.tasks = append(gp.tasks, Task{Sync: true, Pair: true, A: i, B: j, N: 2, K: 1, Cap: pairCap, Until: t0.Add(pairUntil).UnixNano()})
		}
	}
	freshUntil := 400 * time.Second
	if thorough {
		freshUntil = 4 * time.Hour
	}
	gz := mk("all-pairs-fresh", "every pair of different calls (on small arguments) in both of which operations on atomics, locks, pools or channels occur, both orders, each schedule in a fresh process: every schedule with at most one switch which is not forced")
	gq := mk("all-pairs-preempted", "thorough only: every pair of calls on independent values, every schedule with at most one preemption anywhere, when at most 1000 points overlap")
	if thorough {
		for i := range own[:nSmall] {
			for j := i + 1; j < nSmall; j++ {
				gq.tasks = append(gq.tasks, Task{A: i, B: j, Bound: 1, Cap1: 1000})
			}
		}
	}
	gw := mk("after-everything", "each call on small arguments beside itself and beside the next one in a process which has made every call (large arguments and all tuples of the twins too) before, every schedule with at most 1 preemption when at most 150 points overlap (thorough: 1000)")
	warmCap := 150
	if thorough {
		warmCap = 1000
	}
	for i := 0; i < nSmall; i++ {
		gw.tasks = append(gw.tasks, Task{Warm: true, A: i, B: i, Bound: 1, Cap1: warmCap}, Task{Warm: true, A: i, B: (i + 1) % nSmall, Bound: 1, Cap1: warmCap})
	}
	gf := mk("fresh-process-preempted", "each call beside itself in a fresh process per schedule, one preemption at every scheduling point (quick: calls with at most 100 points)")

	var mu sync.Mutex
	var fail *Fail
	var failRaces string
	exhaustive := true
	var errs []string
	report := func(f *Fail, races string) {
		mu.Lock()
		if fail == nil {
			fail, failRaces = f, races
		}
		mu.Unlock()
	}
	stop := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return fail != nil || len(errs) > 0
	}
	bothOf := make([]int, len(own))
	seq := 0
	runGroup := func(g *group) {
		if o := os.Getenv("MC_ONLY"); o != "" && !strings.Contains(","+o+",", ","+g.Name+",") { // for development
			return
		}
		g0 := time.Now()
		g.exhaustive = true
		g.ops = map[int][2]int{}
		var next int
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var p *proc
				defer func() {
					if p != nil {
						p.close()
					}
				}()
				for {
					mu.Lock()
					if next >= len(g.tasks) || fail != nil || len(errs) > 0 {
						mu.Unlock()
						return
					}
					if n := len(g.tasks); n > next && g.tasks[next].Until != 0 && time.Now().UnixNano() > g.tasks[next].Until {
						g.exhaustive = false
						mu.Unlock()
						return
					}
					if time.Since(t0) > budget {
						g.exhaustive, exhaustive = false, false
						mu.Unlock()
						return
					}
					t := g.tasks[next]
					ti := next
					next++
					seq++
					id := seq
					mu.Unlock()
					var d Done
					var err error
					var races string
					if t.Fresh {
						d, races, err = alone(tmp, t, *t.Only, "f"+strconv.Itoa(id))
					} else {
						if p == nil {
							if p, err = spawn(tmp, "w"+strconv.Itoa(id), "base.json"); err != nil {
								mu.Lock()
								errs = append(errs, err.Error())
								mu.Unlock()
								return
							}
						}
						d, err = p.do(t)
					}
					if err != nil {
						// the process died: which schedule does it?
						died := ""
						if p != nil {
							p.close()
							died = p.races()
							p = nil
						} else {
							died = races
						}
						f := &Fail{Property: "C27", Task: t, Names: name(t), Message: "the process died: " + err.Error() + "\n" + died}
						if t.Only != nil {
							f.Plan = *t.Only
						}
						report(f, "")
						return
					}
					if d.Hang && p != nil {
						p.close()
						p = nil
					}
					mu.Lock()
					g.Schedules += d.Schedules
					g.Steps += d.Steps
					g.States += d.States
					g.Switched += d.Switched
					g.Tasks++
					g.ByBound[d.Bound]++
					if d.Cut {
						g.exhaustive = false
					}
					if d.Ops > 0 {
						g.ops[ti] = [2]int{d.Ops, d.MaxBoth}
					}
					if d.MaxBoth > g.MaxBoth {
						g.MaxBoth = d.MaxBoth
					}
					for i := range d.Alt {
						a := t
						a.Only = &d.Alt[i]
						g.tasks = append(g.tasks, a)
					}
					if t.Fresh && !t.Pair && t.A == t.B && len(t.Only.Pre) == 0 {
						bothOf[t.A] = d.Both[0]
					}
					mu.Unlock()
					if d.Fail != nil {
						if p != nil {
							p.close()
							races = p.races()
							p = nil
						}
						report(d.Fail, races)
						return
					}
				}
			}()
		}
		wg.Wait()
		g.wall = time.Since(g0).Seconds()
	}
	for _, g := range gs[:5] { // up to sync-points-default
		if !stop() {
			runGroup(g)
		}
	}
	deepen := func(g *group, total, until int64) {
		// the tasks with the fewest operations get the deepest bounds
		var l []int
		for k := range gs1.ops {
			if gs1.ops[k][1] < 1000 {
				l = append(l, k)
			}
		}
		sort.Slice(l, func(i, j int) bool {
			a, b := gs1.ops[l[i]], gs1.ops[l[j]]
			return a[1] < b[1] || a[1] == b[1] && l[i] < l[j]
		})
		for i, k := range l {
			t := gs1.tasks[k]
			t.Until = until
			t.Cap = total / 2 / int64(len(l))
			if i < 8 {
				t.Cap += total / 16
			}
			if !t.Twin && t.A >= nSmall {
				t.Cap /= 20
			}
			g.tasks = append(g.tasks, t)
		}
		if !stop() {
			runGroup(g)
		}
	}
	for _, g := range []*group{gw, gp} {
		if !stop() {
			runGroup(g)
		}
	}
	if !stop() {
		var l []int
		seen := map[int]bool{}
		for k := range gs1.ops {
			if t := gs1.tasks[k]; !t.Twin && t.A < nSmall && !seen[t.A] {
				seen[t.A] = true
				l = append(l, t.A)
			}
		}
		sort.Ints(l)
		for d := 1; d < len(l); d++ {
			for i := 0; i+d < len(l); i++ {
				for s := 0; s < 2; s++ {
					gz.tasks = append(gz.tasks, Task{Sync: true, Pair: true, Fresh: true, A: l[i], B: l[i+d], N: 2, K: 1, Only: &Plan{Start: s}, Until: t0.Add(freshUntil).UnixNano()})
				}
			}
		}
		runGroup(gz)
	}
	deepen(gs2, syncCap, t0.Add(syncFirst).UnixNano())
	if !stop() {
		for i := range own {
			if n := bothOf[i]; n > 0 && (thorough || n <= 100) {
				for k := 1; k <= n; k++ {
					gf.tasks = append(gf.tasks, Task{Fresh: true, A: i, B: i, Only: &Plan{Pre: []int{k}}})
				}
			}
		}
		runGroup(gf)
	}
	if !stop() {
		runGroup(gq)
	}
	if !stop() {
		deepen(gs3, syncDeep, t0.Add(syncUntil).UnixNano())
	}
	var tot totals
	var per []map[string]interface{}
	for _, g := range gs {
		tot.Schedules += g.Schedules
		tot.Steps += g.Steps
		tot.States += g.States
		tot.Switched += g.Switched
		tot.Tasks += g.Tasks
		if g.MaxBoth > tot.MaxBoth {
			tot.MaxBoth = g.MaxBoth
		}
		per = append(per, map[string]interface{}{"scenario": g.Name, "bound": g.Bound, "pairs": g.Tasks, "pairs_by_completed_preemption_bound": g.ByBound, "schedules": g.Schedules,
			"steps": g.Steps, "states": g.States, "schedules_with_interleaving": g.Switched, "longest_overlap_steps": g.MaxBoth, "exhaustive": g.exhaustive, "wall_s": float64(int(g.wall*100)) / 100})
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	viol := 0
	if fail != nil {
		viol = 1
	}
	var samples []interface{}
	for _, g := range gs {
		if n := len(g.tasks); n > 0 {
			for _, t := range []Task{g.tasks[n/3], g.tasks[2*n/3]} {
				samples = append(samples, map[string]interface{}{"scenario": g.Name, "calls": name(t), "preemption_bound": t.Bound, "plan": t.Only, "alone_results": results(t)})
			}
		}
	}
	ev := map[string]interface{}{
		"property": "C27", "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": tot.States, "transitions": tot.Steps, "traces_validated_against_impl": tot.Schedules,
			"schedules_with_interleaving": tot.Switched, "pairs": tot.Tasks,
			"exhaustive": exhaustive && fail == nil, "scenarios": per, "samples": samples,
			"instrumentation": os.Getenv("C27_POINTS"),
			"rule":            "two threads run one library call each (up to four and three in the sync-points scenarios); a scheduling point stands before every statement of the library; every schedule within the preemption bound is executed on the real code; results are compared with the calls run alone and every schedule is watched by the happens-before race detector, to which the scheduler's hand-overs are invisible; a state is a distinct pair of positions of the two threads at a switch",
			"conformance":     "there is no separate model: the schedules run on the library built from /repo's working tree",
		},
		"assumptions": []string{"interleavings below statement level are covered by race freedom only", "sync.Pool is replaced by a deterministic last-in first-out pool, mutexes and once by ones whose waiting is visible", "code of dependencies and of the standard library runs without scheduling points", "two threads, one call each; up to four threads and three calls where the library uses atomics, locks or pools"},
		"wall_s":      time.Since(t0).Seconds(), "violations": viol,
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", "C27.json"), append(eb, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("C27 %s: pairs=%d schedules=%d interleaved=%d steps=%d states=%d exhaustive=%v wall=%.1fs\n", tier, tot.Tasks, tot.Schedules, tot.Switched, tot.Steps, tot.States, exhaustive, time.Since(t0).Seconds())
	for _, g := range gs {
		fmt.Printf("  %-24s pairs=%d bounds=%v schedules=%d steps=%d longest=%d wall=%.1fs\n", g.Name, g.Tasks, g.ByBound, g.Schedules, g.Steps, g.MaxBoth, g.wall)
	}
	if len(errs) > 0 {
		fmt.Fprintln(os.Stderr, errs)
		return 3
	}
	if fail != nil {
		// re-run alone five times
		n := 0
		for i := 0; i < 5; i++ {
			d, r, err := alone(tmp, fail.Task, fail.Plan, "r"+strconv.Itoa(i))
			if err != nil || d.Fail != nil || d.Hang {
				n++
				if failRaces == "" {
					failRaces = r
				}
			}
		}
		if n == 0 && (fail.Message == "the calls never return (deadlock)" || strings.HasPrefix(fail.Message, "the process died")) {
			fmt.Fprintln(os.Stderr, "not reproduced, not reported:", fail.Message)
			return 3
		}
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, "C27-"+tier+".json")
		fb, _ := json.MarshalIndent(fail, "", " ")
		os.WriteFile(path, append(fb, '\n'), 0644)
		fmt.Printf("calls %q and %q, start %d, preempted at steps %v%s, reproduced alone %d/5 (what a schedule does may depend on those before it: replay then runs them all)\n%s\n%s\n", fail.Names[0], fail.Names[1], fail.Plan.Start, fail.Plan.Pre, deviations(fail.Plan), n, fail.Message, failRaces)
		fmt.Printf("VIOLATION property=C27 replay=%s\n", path)
		return 1
	}
	return 0
}

func deviations(p Plan) (s string) {
	for i, e := range p.Ev {
		s += fmt.Sprintf(", thread %d goes on at operation %d", p.To[i], e)
	}
	return s
}

func results(t Task) []string {
	var r []string
	l, i := base.Own, []int{t.A, t.B}
	if t.Shared {
		l = base.Shared
	}
	if t.Twin {
		l = base.Twin[t.G]
	}
	for _, k := range i {
		s := l[k]
		if len(s) > 120 {
			s = s[:120] + "..."
		}
		r = append(r, string(s))
	}
	return r
}

func replay(path string) int {
	groups = ops.Groups()
	b, err := os.ReadFile(path)
	var f Fail
	if err == nil {
		err = json.Unmarshal(b, &f)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "mc-C27-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(tmp)
	err = bases(tmp)
	if _, ok := err.(aloneError); ok {
		fmt.Println("reproduced:", err)
		return 1
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if f.Task.N == 0 && f.Names[0] == "" {
		fmt.Println("not reproduced")
		return 0
	}
	d, r, err := alone(tmp, f.Task, f.Plan, "r")
	fmt.Println(r)
	if err != nil || d.Fail != nil || d.Hang {
		fmt.Println("reproduced:", f.Message)
		if d.Fail != nil {
			fmt.Println(d.Fail.Message)
		}
		return 1
	}
	fmt.Println("not reproduced by this schedule alone; running all schedules of the calls")
	p, err := spawn(tmp, "all", "base.json")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	d, err = p.do(f.Task)
	p.close()
	if err != nil || d.Fail != nil || d.Hang {
		fmt.Println(p.races())
		fmt.Println("reproduced:", f.Message)
		if d.Fail != nil {
			fmt.Println(d.Fail.Message)
		}
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func main() {
	a := os.Args
	switch {
	case len(a) == 3 && a[1] == "run":
		os.Exit(run(a[2]))
	case len(a) == 2 && a[1] == "baseline":
		baselines()
	case len(a) == 3 && a[1] == "worker":
		worker(a[2])
	case len(a) == 3 && a[1] == "replay":
		os.Exit(replay(a[2]))
	default:
		os.Exit(2)
	}
}
