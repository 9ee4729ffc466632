// Package sched is a cooperative scheduler for a few threads. The instrumented
// library calls P before every statement. Hand-overs use plain memory and the
// runtime's semaphores, which the race detector does not see, so they create no
// happens-before edges: the detector judges the program as if the threads were
// not synchronised at all, on exactly the schedule chosen here.
package sched

import (
	"runtime"
	_ "unsafe" // linkname
)

// MaxPre is the largest number of preemptions in a schedule.
const MaxPre = 4

// MaxThreads is the largest number of threads, MaxDev that of deviations from
// the default schedule and MaxEvents that of recorded events.
const (
	MaxThreads = 4
	MaxDev     = 16
	MaxEvents  = 4096
)

// The kinds of event.
const (
	AtOp = iota // before an operation on an atomic, a lock or a pool
	AtBlock
	AtFinish
)

// Event is a point of a schedule at which several threads could go on.
type Event struct {
	Kind, Me, Def    uint8 // Def: which thread goes on unless the plan says otherwise
	Enabled, Started uint8 // sets of threads
	To               uint8
	Prog             [MaxThreads]uint16 // operations done by each thread
}

var (
	active    bool
	n         = 2
	turn      int32
	gs        [MaxThreads]uintptr
	sem       [MaxThreads]uint32
	finished  [MaxThreads]bool
	stuck     [MaxThreads]bool
	blocked   [MaxThreads]bool
	started   [MaxThreads]bool
	steps     int
	ticks     int
	alone     int // operations by the running thread since the last switch
	lastBoth  int
	prog      [MaxThreads]int
	pre       [MaxPre]int
	npre      int
	nextPre   int
	spins     int
	deadlock  bool
	switches  int
	idle      int
	waits     int // by goroutines of the library's own, since seenTicks
	seenTicks int
	at        [MaxPre][2]int

	syncOnly bool // events are operations on atomics, locks and pools only
	events   [MaxEvents]Event
	nev      int
	ops      int
	devEv    [MaxDev]int
	devTo    [MaxDev]int
	ndev     int
	nextDev  int
	diverged bool
)

//go:linkname semacquire sync.runtime_Semacquire
func semacquire(s *uint32)

//go:linkname semrelease sync.runtime_Semrelease
func semrelease(s *uint32, handoff bool, skip int)

// gptr identifies the calling goroutine.
func gptr() uintptr

// self is the index of the calling controlled thread, or -1.
//
//go:norace
func self() int {
	t := gptr()
	for i := 0; i < n; i++ {
		if t == gs[i] {
			return i
		}
	}
	return -1
}

// Controlled tells whether the caller is a controlled thread of a schedule.
//
//go:norace
func Controlled() bool { return active && self() >= 0 }

//go:norace
func waitFor(me int32) {
	for turn != me {
		semacquire(&sem[me])
	}
}

//go:norace
func switchTo(o int) {
	switches++
	alone = 0
	turn = int32(o)
	semrelease(&sem[o], false, 0)
}

// enter is the index of the calling thread once it has the turn, or -1.
//
//go:norace
func enter() int {
	if !active {
		return -1
	}
	me := self()
	if me < 0 {
		return -1
	}
	if turn != int32(me) { // resumed after blocking outside the scheduler's view
		stuck[me] = false
		waitFor(int32(me))
	}
	ticks++
	started[me] = true
	return me
}

// P is a scheduling point: it stands before every statement.
//
//go:norace
func P() {
	me := enter()
	if me < 0 || syncOnly {
		return
	}
	step(me)
}

//go:norace
func step(me int) {
	steps++
	prog[me]++
	spins = 0
	if finished[1-me] || stuck[1-me] {
		return
	}
	lastBoth = steps
	if nextPre < npre && pre[nextPre] == steps {
		at[nextPre][0], at[nextPre][1] = prog[0], prog[1]
		nextPre++
		switchTo(1 - me)
		waitFor(int32(me))
	}
}

// S is a scheduling point: it stands before every operation on an atomic, a lock
// or a pool.
//
//go:norace
func S() {
	me := enter()
	if me < 0 {
		return
	}
	spins = 0
	for i := 0; i < n; i++ {
		blocked[i] = false
	}
	if alone++; alone > 20000 { // it may be waiting for another thread
		alone = 0
		block(me)
		return
	}
	if !syncOnly {
		step(me)
		return
	}
	steps++
	ops++
	prog[me]++
	if o := choose(AtOp, me, me); o != me {
		switchTo(o)
		waitFor(int32(me))
	}
}

// enabled is the set of the other threads which could go on.
//
//go:norace
func enabled(me int) (m uint8) {
	for i := 0; i < n; i++ {
		if i != me && !finished[i] && !stuck[i] && !blocked[i] {
			m |= 1 << i
		}
	}
	return m
}

// choose records an event and tells which thread goes on.
//
//go:norace
func choose(kind, me, def int) int {
	en := enabled(me)
	if en == 0 {
		return def
	}
	to := def
	if nextDev < ndev && devEv[nextDev] == nev {
		to = devTo[nextDev]
		if to < 0 || to >= n || to != me && en&(1<<to) == 0 || to == me && kind != AtOp {
			diverged = true
			to = def
		}
		nextDev++
	}
	if nev < MaxEvents {
		var st uint8
		for i := 0; i < n; i++ {
			if started[i] {
				st |= 1 << i
			}
		}
		e := &events[nev]
		e.Kind, e.Me, e.Def, e.Enabled, e.Started, e.To = uint8(kind), uint8(me), uint8(def), en, st, uint8(to)
		for i := 0; i < MaxThreads; i++ {
			e.Prog[i] = uint16(prog[i])
		}
	}
	nev++
	return to
}

// after is the next thread in turn among those which could go on, or -1.
//
//go:norace
func after(me int) int {
	en := enabled(me)
	for i := 1; i < n; i++ {
		if o := (me + i) % n; en&(1<<o) != 0 {
			return o
		}
	}
	return -1
}

// Failed tells of an operation which may be repeated until it succeeds.
//
//go:norace
func Failed() {
	if !active || self() < 0 {
		return
	}
	if alone++; alone%64 == 0 {
		block(self())
	}
}

// Block is called by a thread which waits for another one (a lock is taken).
//
//go:norace
func Block() {
	if !active {
		if idle++; idle > 1<<20 { // nobody else is running
			panic("deadlock: a lock is never released")
		}
		runtime.Gosched()
		return
	}
	idle = 0
	me := self()
	if me < 0 { // a goroutine of the library's own
		if ticks != seenTicks {
			seenTicks, waits = ticks, 0
		} else if waits++; waits > 500 {
			waits = 0
			Unstick()
		}
		runtime.Gosched()
		return
	}
	spins++
	if spins > 3000 {
		deadlock = true
		panic("deadlock: every thread waits for a lock")
	}
	block(me)
}

//go:norace
func block(me int) {
	blocked[me] = true
	o := after(me)
	if o < 0 { // all others wait as well
		for i := 0; i < n; i++ {
			blocked[i] = i == me
		}
		if o = after(me); o < 0 {
			blocked[me] = false
			runtime.Gosched()
			return
		}
	} else if syncOnly {
		o = choose(AtBlock, me, o)
	}
	switchTo(o)
	waitFor(int32(me))
	blocked[me] = false
}

//go:norace
func reset(threads, start int) {
	active = false
	n = threads
	for i := 0; i < MaxThreads; i++ {
		finished[i], stuck[i], blocked[i], started[i], prog[i] = false, false, false, false, 0
	}
	steps, ticks, alone, lastBoth = 0, 0, 0, 0
	spins, deadlock, switches = 0, false, 0
	npre, nextPre, nev, ops, ndev, nextDev, diverged = 0, 0, 0, 0, 0, 0, false
	turn = int32(start)
	for i := 0; i < MaxThreads; i++ {
		sem[i] = 0
	}
}

// Setup prepares one schedule of two threads, preempted at the given steps; the
// threads are not running yet.
//
//go:norace
func Setup(start int, preempt []int) {
	reset(2, start)
	syncOnly = false
	npre = len(preempt)
	for i := 0; i < len(preempt); i++ {
		pre[i] = preempt[i]
	}
	active = true
}

// SetupSync prepares one schedule of several threads which differs from the
// default one at the given events: there the given threads go on.
//
//go:norace
func SetupSync(threads, start int, ev, to []int) {
	reset(threads, start)
	syncOnly = true
	ndev = len(ev)
	for i := 0; i < len(ev); i++ {
		devEv[i], devTo[i] = ev[i], to[i]
	}
	active = true
}

// Events tells the events of the schedule just run, and how many operations on
// atomics, locks and pools there were.
//
//go:norace
func Events(buf []Event) (l []Event, operations int, div bool) {
	k := nev
	if k > MaxEvents {
		k = MaxEvents
	}
	buf = buf[:0]
	for i := 0; i < k; i++ {
		buf = append(buf, events[i])
	}
	return buf, ops, diverged || nextDev < ndev
}

// Register binds the calling goroutine to a slot.
//
//go:norace
func Register(me int) { gs[me] = gptr() }

// Start waits for the first turn.
//
//go:norace
func Start(me int) {
	waitFor(int32(me))
	started[me] = true
}

// Finish ends the thread's part of the schedule.
//
//go:norace
func Finish(me int) {
	if turn != int32(me) {
		stuck[me] = false
		waitFor(int32(me))
	}
	finished[me] = true
	for i := 0; i < n; i++ {
		blocked[i] = false
	}
	o := after(me)
	if o >= 0 {
		if syncOnly {
			o = choose(AtFinish, me, o)
		}
		switchTo(o)
		return
	}
	for i := 0; i < n; i++ {
		if !finished[i] { // it goes on when it wakes up
			switchTo(i)
			return
		}
	}
}

// Stop ends a schedule.
//
//go:norace
func Stop() { active = false }

// Stats of the schedule just run.
//
//go:norace
func Stats() (total, both, sw int, dead bool, taken int) {
	return steps, lastBoth, switches, deadlock, nextPre
}

// At tells the progress of the two threads at the k-th preemption.
//
//go:norace
func At(k int) (int, int) { return at[k][0], at[k][1] }

// Steps is the progress counter read by the watchdog.
//
//go:norace
func Steps() int { return ticks }

// Unstick hands the turn over when the running thread blocks outside the
// scheduler's view (a channel, a condition variable); false if nothing is left.
//
//go:norace
func Unstick() bool {
	w := turn
	if w < 0 || int(w) >= n {
		return false
	}
	o := after(int(w))
	if o < 0 {
		return false
	}
	stuck[w] = true
	switchTo(o)
	return true
}
