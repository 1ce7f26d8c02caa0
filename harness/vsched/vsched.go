// Package vsched is a controlled scheduler: it runs a few threads (goroutines) one at a time, decides at every scheduling
// point who continues, and enumerates all decisions up to a preemption bound by depth first search. The code under test
// gets its scheduling points from an instrumenting overlay (cmd/instr).
//
// The hand-over is plain memory the race detector does not see, so in a race build it reports accesses that are ordered
// only by the schedule and not by the synchronisation of the code under test.
package vsched

import (
	"fmt"
	"os"
	"runtime"
)

func getg() uintptr

const (
	maxThreads = 5
	maxChoices = 1 << 14
	extSpins   = 200000
)

type thread struct {
	g        uintptr
	done     bool
	waitsFor *int32 // address of the lock word it waits for
	ext      bool   // blocked in something the scheduler does not know
	work     chan func()
	ended    chan bool
}

var (
	threads  [maxThreads]thread
	nThreads int
	active   bool
	cur      int
	seq      int64 // counts steps, for the detection of external blocking

	choices  [maxChoices]int8
	counts   [maxChoices]int8
	nChoices int // decisions made in this execution
	prefix   int // decisions to replay
	used     int // preemptions used
	bound    int
	steps    int64
	bad      bool // the execution did not follow its prefix
	overflow bool
)

// Result of an exploration.
type Result struct {
	Schedules int64
	Steps     int64
	Complete  bool
	Diverged  int64
}

//go:norace
func self() int {
	g := getg()
	for i := 0; i < nThreads; i++ {
		if threads[i].g == g && !threads[i].done {
			return i
		}
	}
	return -1
}

// Point is a scheduling point: any other thread may run before the caller goes on.
//
//go:norace
func Point() {
	if !active {
		return
	}
	if t := self(); t >= 0 {
		step(t)
	}
}

// Here tells the number of the calling thread, -1 if it is none.
//
//go:norace
func Here() int {
	if !active {
		return -1
	}
	return self()
}

// Now is a clock that only the schedule advances.
//
//go:norace
func Now() int64 { seq++; return seq }

//go:norace
func step(t int) {
	seq++
	steps++
	if threads[t].ext {
		threads[t].ext = false
		wait(t)
		return
	}
	next := pick(t)
	if next != t {
		cur = next
		wait(t)
	}
}

//go:norace
func enabled(i int) bool {
	th := &threads[i]
	return !th.done && !th.ext && (th.waitsFor == nil || *th.waitsFor == 0)
}

// pick decides who runs next; t is the thread that just ran.
//
//go:norace
func pick(t int) int {
	var opt [maxThreads]int
	n := 0
	free := true
	if !threads[t].done && enabled(t) {
		opt[0] = t
		n = 1
		free = false
	}
	if free || used < bound {
		for i := 0; i < nThreads; i++ {
			if i != t && enabled(i) {
				opt[n] = i
				n++
			}
		}
	}
	if n == 0 {
		return -1
	}
	if n == 1 {
		return opt[0]
	}
	c := 0
	if nChoices >= maxChoices {
		overflow = true
		return opt[0]
	}
	if nChoices < prefix {
		c = int(choices[nChoices])
		if int(counts[nChoices]) != n {
			bad = true
			if c >= n {
				c = 0
			}
		}
	} else {
		choices[nChoices] = 0
	}
	counts[nChoices] = int8(n)
	nChoices++
	if !free && c > 0 {
		used++
	}
	return opt[c]
}

// wait returns when it is t's turn.
//
//go:norace
func wait(t int) {
	last, spins := seq, 0
	for cur != t {
		runtime.Gosched()
		if seq != last {
			last, spins = seq, 0
			continue
		}
		if spins++; spins > extSpins {
			spins = 0
			// the running thread is blocked in something unknown: go on without it until it comes back
			if c := cur; c >= 0 && !threads[c].done && !threads[c].ext {
				threads[c].ext = true
				if next := pick(c); next >= 0 {
					seq++
					cur = next
				} else {
					stuck()
				}
			}
		}
	}
}

//go:norace
func stuck() {
	msg := "deadlock:"
	for i := 0; i < nThreads; i++ {
		s := "ended"
		if threads[i].ext {
			s = "blocked"
		} else if !threads[i].done {
			s = "waits for a lock"
		}
		msg += fmt.Sprintf(" thread %d %s;", i, s)
	}
	fmt.Fprintln(os.Stderr, msg, "schedule", Schedule())
	os.Exit(3)
}

// Block waits until *word is 0 and makes it 1 if set.
//
//go:norace
func Block(t int, word *int32, set int32) {
	for *word != 0 {
		threads[t].waitsFor = word
		seq++
		next := pick(t)
		if next < 0 {
			stuck()
		}
		if next != t {
			cur = next
			wait(t)
		}
		threads[t].waitsFor = nil
	}
	*word = set
}

//go:norace
func Clear(word *int32) { *word = 0 }

//go:norace
func Get(word *int32) int32 { return *word }

//go:norace
func Add(word *int32, n int32) { *word += n }

//go:norace
func begin(t int) {
	threads[t].g = getg()
	wait(t)
}

//go:norace
func end(t int) {
	seq++
	threads[t].done = true
	if next := pick(t); next >= 0 {
		cur = next
		return
	}
	for i := 0; i < nThreads; i++ {
		if !threads[i].done {
			if threads[i].ext { // it may come back
				cur = i
				return
			}
			stuck()
		}
	}
	cur = -1
}

// Schedule is the current one: the decision taken where there was a choice.
func Schedule() string {
	s := ""
	for i := 0; i < nChoices; i++ {
		if choices[i] != 0 {
			s += fmt.Sprintf(" %d:%d", i, choices[i])
		}
	}
	return fmt.Sprintf("[%d decisions, not the default at%s]", nChoices, s)
}

// Stack prepares the stack of a thread.
var Stack = func() {}

func start(i int) {
	th := &threads[i]
	th.work, th.ended = make(chan func()), make(chan bool)
	ready := make(chan bool)
	go func() {
		Stack()
		ready <- true
		for f := range th.work {
			begin(i)
			f()
			end(i)
			th.ended <- true
		}
	}()
	<-ready
}

//go:norace
func arm(n int) {
	nThreads, nChoices, used, cur, bad = n, 0, 0, -1, false
	for i := 0; i < n; i++ {
		threads[i].done, threads[i].ext, threads[i].waitsFor, threads[i].g = false, false, nil, 0
	}
	active = true
}

//go:norace
func allReady(n int) bool {
	for i := 0; i < n; i++ {
		if threads[i].g == 0 {
			return false
		}
	}
	return true
}

//go:norace
func first() {
	if next := pick0(); next >= 0 {
		cur = next
	}
}

// pick0 decides which thread starts.
//
//go:norace
func pick0() int {
	n := nThreads
	if n == 1 {
		return 0
	}
	c := 0
	if nChoices < prefix {
		c = int(choices[nChoices])
	} else {
		choices[nChoices] = 0
	}
	counts[nChoices] = int8(n)
	nChoices++
	return c
}

// Run executes the bodies once under the schedule given by the current prefix.
func run(bodies []func()) {
	for i := range bodies {
		if threads[i].work == nil {
			start(i)
		}
	}
	arm(len(bodies))
	for i := range bodies {
		threads[i].work <- bodies[i]
	}
	for !allReady(len(bodies)) {
		runtime.Gosched()
	}
	first()
	for i := range bodies {
		<-threads[i].ended
	}
	disarm()
}

//go:norace
func disarm() { active = false }

// Explore runs the program made by setup under every schedule with at most preemptions preemptive switches, starting each
// execution from setup. after judges an execution and returns false to stop.
func Explore(preemptions int, limit int64, setup func() []func(), after func() bool) Result {
	var r Result
	bound = preemptions
	prefix, overflow = 0, false
	steps = 0
	for {
		run(setup())
		r.Schedules++
		if bad {
			r.Diverged++
		}
		r.Steps = steps
		if !after() {
			return r
		}
		n := nChoices
		if bad {
			n = prefix // forget what a diverged execution decided beyond its prefix
			if n > nChoices {
				n = nChoices
			}
		}
		for n > 0 && choices[n-1]+1 >= counts[n-1] {
			n--
		}
		if n == 0 {
			r.Complete = !overflow && r.Diverged == 0
			return r
		}
		choices[n-1]++
		prefix = n
		if limit > 0 && r.Schedules >= limit {
			return r
		}
	}
}

// RunWith executes the program once under the default schedule (warm-up).
func RunWith(bodies []func()) {
	prefix, bound = 0, 0
	run(bodies)
}
