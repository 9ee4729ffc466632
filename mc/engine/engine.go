// Package engine is a small stateless model checker for sequential code: a
// scenario is an ordinary function that asks the engine for every
// nondeterministic decision (X.Choose) and drives the real library code; the
// explorer enumerates every sequence of decisions. Nothing is sampled.
package engine

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Scenario is one closed driver.
type Scenario struct {
	Name         string
	Bound        string // human-readable alphabet and bound
	ThoroughOnly bool
	Serial       bool // explore on one worker (the scenario changes process-global environment)
	Run          func(x *X)
}

// Property groups the scenarios which decide one property.
type Property struct {
	ID          string
	Level       string // evidence level
	Rule        string
	Assumptions []string
	Scenarios   []Scenario
}

// X is the handle a running scenario uses.
type X struct {
	w        *worker
	Thorough bool
	choices  []int32
	arity    []int32
	limit    []int32
	prefix   int // number of leading fixed choices
	first    int // start value for the level right after the prefix
	pos      int
	Verbose  bool
	log      []string
	replayed bool
	h        maphash.Hash
}

type failure struct {
	key string
	msg string
}

// Failed is a violation found.
type Failed struct {
	Property string  `json:"property"`
	Scenario string  `json:"scenario"`
	Tier     string  `json:"tier"`
	Choices  []int32 `json:"choices"`
	Key      string  `json:"key"`
	Message  string  `json:"message"`
	Repro    string  `json:"reproduced"`
}

type divergence struct{ msg string }

// Choose asks the explorer for a value in [0,n). Every value is explored.
func (x *X) Choose(n int) int {
	if n <= 0 {
		panic(divergence{fmt.Sprintf("Choose(%d): empty domain", n)})
	}
	p := x.pos
	x.pos++
	if p < len(x.choices) {
		if int(x.choices[p]) >= n || (x.arity[p] != 0 && int(x.arity[p]) != n) {
			panic(divergence{fmt.Sprintf("replay diverged at choice %d: arity was %d, now %d, choice %d", p, x.arity[p], n, x.choices[p])})
		}
		x.arity[p] = int32(n)
		return int(x.choices[p])
	}
	x.choices = append(x.choices, 0)
	x.arity = append(x.arity, int32(n))
	x.limit = append(x.limit, int32(n))
	if x.w != nil {
		x.w.transitions++
		x.w.journal(x)
	}
	return 0
}

// Pick returns one of the given values.
func Pick[T any](x *X, vs []T) T { return vs[x.Choose(len(vs))] }

// Bool chooses false then true.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Step counts n model transitions beyond the choices themselves (for example
// the elements of an inner exhaustive loop).
func (x *X) Step(n int) {
	if x.w != nil {
		x.w.transitions += int64(n)
	}
}

// State records an abstract (canonical) model state that was visited and on
// which the oracle was evaluated against the implementation.
func (x *X) State(b []byte) {
	if x.Verbose && len(x.log) < 40 {
		x.log = append(x.log, fmt.Sprintf("state: %x", b))
	}
	if x.w == nil {
		return
	}
	x.w.e.addState(maphash.Bytes(x.w.e.seed, b))
}

// StateS is State for strings.
func (x *X) StateS(s string) {
	if x.Verbose && len(x.log) < 40 {
		x.log = append(x.log, "state: "+s)
	}
	if x.w == nil {
		return
	}
	x.w.e.addState(maphash.String(x.w.e.seed, s))
}

// Statef formats a canonical state.
func (x *X) Statef(f string, a ...interface{}) { x.StateS(fmt.Sprintf(f, a...)) }

// Distinct adds n states that are distinct by construction (an inner loop over
// a numeric range that no other scenario of the property visits).
func (x *X) Distinct(n int) {
	if x.w != nil {
		x.w.distinct += int64(n)
	}
}

// Validated counts additional model traces compared with the implementation
// inside one execution (inner loops, or the prefixes of a history).
func (x *X) Validated(n int) {
	if x.w != nil {
		x.w.traces += int64(n)
	}
}

// Outcome classifies the execution (read to spot vacuous exploration).
func (x *X) Outcome(s string) {
	if x.w != nil {
		x.w.outcomes[s]++
	}
	if x.Verbose {
		x.log = append(x.log, "outcome: "+s)
	}
}

// Logf is kept only in replays and samples.
func (x *X) Logf(f string, a ...interface{}) {
	if x.Verbose {
		x.log = append(x.log, fmt.Sprintf(f, a...))
	}
}

// Failf reports a violation. key identifies the specific failure (used to match
// known findings) and is stable between runs.
func (x *X) Failf(key, f string, a ...interface{}) {
	panic(failure{key, fmt.Sprintf(f, a...)})
}

// Prune abandons an execution that is outside the bound.
func (x *X) Prune() { panic(pruned{}) }

type pruned struct{}

// IsControl tells whether a recovered value belongs to the explorer (and must
// be re-panicked by a harness which recovers panics of the library).
func IsControl(r interface{}) bool {
	switch r.(type) {
	case failure, divergence, pruned:
		return true
	}
	return false
}

type job struct {
	prefix []int32
	arity  []int32
	lo, hi int32 // range at level len(prefix); hi==-1: whole level
}

type worker struct {
	e           *Explorer
	id          int
	traces      int64
	transitions int64
	distinct    int64
	executions  int64
	prunes      int64
	maxDepth    int
	outcomes    map[string]int64
	j           []int32
}

// Explorer explores one property.
type Explorer struct {
	P        Property
	Tier     string
	Workers  int
	Deadline time.Time
	Known    map[string]bool // known finding keys: scenario|key
	Journal  []int32         // shared memory, Workers*JournalWords
	seed     maphash.Seed
	shards   [256]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	mu        sync.Mutex
	cond      *sync.Cond
	queue     []job
	idle      int
	done      bool
	qlen      int32
	stop      int32
	cur       *Scenario
	curIdx    int
	failures  []Failed
	knownHit  map[string]int64
	diverged  string
	truncated bool
	Totals    Result
}

// JournalWords is the number of int32 of journal per worker.
const JournalWords = 64

// Result is what a run measured.
type Result struct {
	States, Transitions, Traces, Executions, Pruned int64
	MaxDepth                                        int
	Outcomes                                        map[string]int64
	PerScenario                                     []map[string]interface{}
	Samples                                         []interface{}
	Failures                                        []Failed
	Known                                           map[string]int64
	Exhaustive                                      bool
	Diverged                                        string
}

func (e *Explorer) addState(h uint64) {
	s := &e.shards[h&255]
	s.mu.Lock()
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	s.m[h] = struct{}{}
	s.mu.Unlock()
}

func (e *Explorer) countStates() int64 {
	var n int64
	for i := range e.shards {
		n += int64(len(e.shards[i].m))
	}
	return n
}

func (w *worker) journal(x *X) {
	if w.j == nil {
		return
	}
	n := len(x.choices)
	if n > JournalWords-3 {
		n = JournalWords - 3
	}
	w.j[1] = int32(w.e.curIdx)
	w.j[2] = int32(n)
	copy(w.j[3:3+n], x.choices[:n])
}

func (w *worker) begin(x *X) {
	if w.j == nil {
		return
	}
	w.journal(x)
	atomic.AddInt32(&w.j[0], 1)
}

// runOnce executes the scenario body once.
func runOnce(sc *Scenario, x *X) (f *failure, d *divergence, pr bool) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failure:
				f = &v
			case divergence:
				d = &v
			case pruned:
				pr = true
			default:
				msg := fmt.Sprint(r)
				key := "panic: " + msg
				if len(key) > 120 {
					key = key[:120]
				}
				f = &failure{key, "panic: " + msg + "\n" + trimStack(string(debug.Stack()))}
			}
		}
	}()
	x.pos = 0
	sc.Run(x)
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "checks/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

func (w *worker) run() {
	e := w.e
	for {
		e.mu.Lock()
		for len(e.queue) == 0 && !e.done {
			e.idle++
			if e.idle == e.Workers {
				e.done = true
				e.cond.Broadcast()
				e.mu.Unlock()
				return
			}
			e.cond.Wait()
			e.idle--
		}
		if e.done {
			e.mu.Unlock()
			return
		}
		j := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		atomic.StoreInt32(&e.qlen, int32(len(e.queue)))
		e.mu.Unlock()
		w.explore(j)
	}
}

func (w *worker) explore(j job) {
	e := w.e
	x := &X{w: w, Thorough: e.Tier == "thorough"}
	x.prefix = len(j.prefix)
	x.choices = append(x.choices, j.prefix...)
	x.arity = append(x.arity, j.arity...)
	x.limit = append(x.limit, j.prefix...) // never advanced
	if j.hi >= 0 {
		x.choices = append(x.choices, j.lo)
		x.arity = append(x.arity, 0)
		x.limit = append(x.limit, j.hi)
		w.transitions++
	}
	for n := 0; ; n++ {
		if atomic.LoadInt32(&e.stop) != 0 {
			return
		}
		if n&255 == 255 && time.Now().After(e.Deadline) {
			e.mu.Lock()
			e.truncated = true
			e.mu.Unlock()
			atomic.StoreInt32(&e.stop, 1)
			return
		}
		w.begin(x)
		f, d, pr := runOnce(e.cur, x)
		w.executions++
		if d == nil && f == nil && x.pos < len(x.choices) {
			d = &divergence{fmt.Sprintf("execution consumed %d of %d recorded choices", x.pos, len(x.choices))}
		}
		if d != nil {
			e.mu.Lock()
			e.diverged = fmt.Sprintf("%s: %s (choices %v)", e.cur.Name, d.msg, x.choices)
			e.mu.Unlock()
			atomic.StoreInt32(&e.stop, 1)
			return
		}
		if len(x.choices) > w.maxDepth {
			w.maxDepth = len(x.choices)
		}
		if pr {
			w.prunes++
		} else {
			w.traces++
		}
		if f != nil {
			if !e.report(x, f) {
				return
			}
			// the run ended early: deeper recorded choices were not consumed
			if x.pos < len(x.choices) {
				x.choices = x.choices[:x.pos]
				x.arity = x.arity[:x.pos]
				x.limit = x.limit[:x.pos]
			}
		}
		// donate work when others are hungry
		if atomic.LoadInt32(&e.qlen) < int32(e.Workers) && !e.cur.Serial {
			for d := x.prefix; d < len(x.choices); d++ {
				if x.choices[d]+1 < x.limit[d] {
					lo, hi := x.choices[d]+1, x.limit[d]
					mid := lo + (hi-lo)/2
					// give away the upper half (or the single remaining value)
					if hi-lo == 1 {
						mid = lo
					}
					nj := job{append([]int32{}, x.choices[:d]...), append([]int32{}, x.arity[:d]...), mid, hi}
					x.limit[d] = mid
					e.mu.Lock()
					e.queue = append(e.queue, nj)
					atomic.StoreInt32(&e.qlen, int32(len(e.queue)))
					e.cond.Signal()
					e.mu.Unlock()
					break
				}
			}
		}
		// next
		d2 := len(x.choices) - 1
		for d2 >= x.prefix && x.choices[d2]+1 >= x.limit[d2] {
			d2--
		}
		if d2 < x.prefix {
			return
		}
		x.choices = x.choices[:d2+1]
		x.arity = x.arity[:d2+1]
		x.limit = x.limit[:d2+1]
		x.choices[d2]++
		w.transitions++
	}
}

// report returns false when exploration must stop.
func (e *Explorer) report(x *X, f *failure) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := e.cur.Name + "|" + f.key
	if e.Known[k] {
		e.knownHit[k]++
		return true
	}
	e.failures = append(e.failures, Failed{e.P.ID, e.cur.Name, e.Tier, append([]int32{}, x.choices...), f.key, f.msg, ""})
	atomic.StoreInt32(&e.stop, 1)
	return false
}

// Replay runs one choice vector and returns failure text ("" if none) and log.
func Replay(sc *Scenario, tier string, choices []int32) (string, string, []string) {
	x := &X{Thorough: tier == "thorough", Verbose: true}
	x.choices = append(x.choices, choices...)
	x.arity = make([]int32, len(choices))
	x.limit = append(x.limit, choices...)
	f, d, _ := runOnce(sc, x)
	if d != nil {
		return "divergence", d.msg, x.log
	}
	if f != nil {
		return f.key, f.msg, x.log
	}
	return "", "", x.log
}

// Explore runs every scenario.
func (e *Explorer) Explore() Result {
	e.seed = maphash.MakeSeed()
	e.cond = sync.NewCond(&e.mu)
	e.knownHit = map[string]int64{}
	if e.Workers == 0 {
		e.Workers = runtime.NumCPU()
	}
	res := Result{Outcomes: map[string]int64{}, Known: e.knownHit, Exhaustive: true}
	for i := range e.P.Scenarios {
		sc := &e.P.Scenarios[i]
		if sc.ThoroughOnly && e.Tier != "thorough" {
			continue
		}
		if atomic.LoadInt32(&e.stop) != 0 {
			break
		}
		t0 := time.Now()
		e.cur, e.curIdx = sc, i
		e.queue = []job{{nil, nil, 0, -1}}
		e.idle, e.done = 0, false
		saved := e.Workers
		if sc.Serial {
			e.Workers = 1
		}
		atomic.StoreInt32(&e.qlen, 1)
		before := e.countStates()
		var ws []*worker
		var wg sync.WaitGroup
		for k := 0; k < e.Workers; k++ {
			w := &worker{e: e, id: k, outcomes: map[string]int64{}}
			if e.Journal != nil {
				w.j = e.Journal[k*JournalWords : (k+1)*JournalWords]
			}
			ws = append(ws, w)
			wg.Add(1)
			go func() { defer wg.Done(); w.run() }()
		}
		wg.Wait()
		e.Workers = saved
		var ex, tr, st, tv, dis, pr int64
		oc := map[string]int64{}
		for _, w := range ws {
			ex += w.executions
			st += w.transitions
			tv += w.traces
			dis += w.distinct
			pr += w.prunes
			if w.maxDepth > res.MaxDepth {
				res.MaxDepth = w.maxDepth
			}
			for k, v := range w.outcomes {
				oc[k] += v
				res.Outcomes[sc.Name+": "+k] += v
			}
		}
		_ = tr
		if st < tv { // each trace validated is at least one transition
			st = tv
		}
		ns := e.countStates() - before + dis
		res.Executions += ex
		res.Transitions += st
		res.Traces += tv
		res.States += ns
		res.Pruned += pr
		res.PerScenario = append(res.PerScenario, map[string]interface{}{
			"scenario": sc.Name, "bound": sc.Bound, "executions": ex, "new_states": ns,
			"transitions": st, "traces_validated": tv, "distinct_outcomes": len(oc),
			"wall_s": float64(int(time.Since(t0).Seconds()*1000)) / 1000,
		})
		if s := e.sample(sc); s != nil {
			res.Samples = append(res.Samples, s)
		}
		if e.diverged != "" {
			break
		}
	}
	res.Diverged = e.diverged
	res.Exhaustive = !e.truncated && e.diverged == ""
	if len(e.failures) > 0 {
		res.Exhaustive = false
	}
	for i := range e.failures {
		f := &e.failures[i]
		k := 0
		var sc *Scenario
		for j := range e.P.Scenarios {
			if e.P.Scenarios[j].Name == f.Scenario {
				sc = &e.P.Scenarios[j]
			}
		}
		for r := 0; r < 5; r++ {
			if key, _, _ := Replay(sc, e.Tier, f.Choices); key != "" && key != "divergence" {
				k++
			}
		}
		f.Repro = fmt.Sprintf("%d/5", k)
	}
	res.Failures = e.failures
	sort.Slice(res.Failures, func(i, j int) bool { return len(res.Failures[i].Choices) < len(res.Failures[j].Choices) })
	return res
}

// sample re-executes the first and one late execution in verbose mode.
func (e *Explorer) sample(sc *Scenario) interface{} {
	if atomic.LoadInt32(&e.stop) != 0 {
		return nil
	}
	x := &X{Thorough: e.Tier == "thorough", Verbose: true}
	runOnce(sc, x)
	// a second sample: middle value at each choice, as far as it stays in range
	y := &X{Thorough: e.Tier == "thorough", Verbose: true}
	ch := make([]int32, 0)
	for tries := 0; tries < 64; tries++ {
		y = &X{Thorough: e.Tier == "thorough", Verbose: true}
		y.choices = append([]int32{}, ch...)
		y.arity = make([]int32, len(ch))
		y.limit = append([]int32{}, ch...)
		runOnce(sc, y)
		if y.pos <= len(ch) {
			break
		}
		ch = append(ch, y.arity[len(ch)]*2/3)
	}
	lim := func(l []string) []string {
		if len(l) > 12 {
			l = l[:12]
		}
		for i := range l {
			if len(l[i]) > 300 {
				l[i] = l[i][:300] + "..."
			}
		}
		return l
	}
	return map[string]interface{}{"scenario": sc.Name,
		"first":  map[string]interface{}{"choices": x.choices, "log": lim(x.log)},
		"middle": map[string]interface{}{"choices": y.choices, "log": lim(y.log)}}
}

// WriteJSON writes v to path.
func WriteJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}
