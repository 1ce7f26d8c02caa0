// Package zz is the engine of the bounded exhaustive checks: it walks a deterministic enumeration of cases, runs those
// of its shard against the real mockey, and reports what was covered and the first failure.
package zz

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Case is one bounded behaviour: a program of operations, an input, a layout.
type Case struct {
	Text func() string
	Run  func(c *Ctx)
	// Own asks for a fresh goroutine (the case ends its goroutine)
	Own bool
}

// Env tells a generator how far to go.
type Env struct {
	Prop  string
	Tier  string // quick, thorough, mini (used for other configurations)
	Scale int
}

func (e *Env) Thorough() bool { return e.Tier == "thorough" }
func (e *Env) Mini() bool     { return e.Tier == "mini" }

// Pick returns the bound for the tier.
func (e *Env) Pick(mini, quick, thorough int) int {
	switch e.Tier {
	case "mini":
		return mini
	case "thorough":
		return thorough
	}
	return quick
}

// Suite is a named enumeration.
type Suite struct {
	Name  string
	Bound func(e *Env) string
	Gen   func(e *Env, yield func(Case) bool)
	// Post runs once per worker after the suite's cases of the shard
	Post func(c *Ctx)
}

var registry = map[string][]Suite{}

// suitesOf returns the suites of a property; C19 (the same behaviour in every configuration) adds those of all others.
func suitesOf(prop string) (ss []Suite, envs []string) {
	for _, s := range registry[prop] {
		ss, envs = append(ss, s), append(envs, prop)
	}
	if prop != "C19" {
		return
	}
	var others []string
	for p := range registry {
		if only := os.Getenv("ZZ_ONLY"); p != prop && (only == "" || strings.Contains(only, p)) {
			others = append(others, p)
		}
	}
	sort.Strings(others)
	for _, p := range others {
		for _, s := range registry[p] {
			s.Name = p + ": " + s.Name
			ss, envs = append(ss, s), append(envs, p)
		}
	}
	return
}

func Register(prop string, s ...Suite) { registry[prop] = append(registry[prop], s...) }

// Ctx is the context of a running case.
type Ctx struct {
	Err    string
	worker *worker
	trace  []string
	Trace  bool
}

// Fail records the first failure of a case. It does not unwind: scope bodies run under recover.
func (c *Ctx) Fail(format string, a ...interface{}) {
	if c.Err == "" {
		c.Err = fmt.Sprintf(format, a...)
	}
}

func (c *Ctx) Failed() bool { return c.Err != "" }

// State records a model state reached (and agreed upon by the implementation).
func (c *Ctx) State(h uint64) { c.worker.states[h] = struct{}{} }

// Step records a transition executed on both model and implementation.
func (c *Ctx) Step() {
	c.worker.steps++
	Point()
}

var gcPoints = os.Getenv("ZZ_GC") != ""

// Point is a place (between operations, in hooks and conditions) where a complete garbage collection, with finalizers,
// takes place in the configurations that ask for it.
func Point() {
	if gcPoints {
		collect()
	}
}

//go:noinline
func collect() {
	done := make(chan bool)
	sentinel(done)
	runtime.GC()
	<-done
}

//go:noinline
func sentinel(done chan bool) {
	type big struct {
		a [64]int
		p *int
	}
	runtime.SetFinalizer(&big{p: new(int)}, func(*big) { close(done) })
}

// Steps records several.
func (c *Ctx) Steps(n int) { c.worker.steps += int64(n) }

// Beat shows that a long case makes progress; it returns false when the time is up (the case is then incomplete).
func (c *Ctx) Beat() bool {
	w := c.worker
	*(*int64)(unsafe.Pointer(&w.prog[16]))++
	if time.Since(w.start).Seconds() > w.deadline {
		w.late = true
	}
	return !w.late
}

// Schedules counts explored schedules of a program.
func (c *Ctx) Schedules(n int64) { c.worker.outcomes["schedules"] += n }

// Outcome counts an observable outcome class.
func (c *Ctx) Outcome(s string) { c.worker.outcomes[s]++ }

// Log adds a line to the trace shown with a replay.
func (c *Ctx) Log(format string, a ...interface{}) {
	if c.Trace {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
}

func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// HashBytes mixes without allocating.
func HashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h ^= uint64(x)
		h *= 1099511628211
	}
	return h
}

type worker struct {
	start    time.Time
	deadline float64
	late     bool
	states   map[uint64]struct{}
	steps    int64
	cases    int64
	outcomes map[string]int64
	prog     []byte
	printed  *os.File // what goes to the standard output, where nothing should
}

type suiteReport struct {
	Name     string `json:"name"`
	Bound    string `json:"bound"`
	Cases    int64  `json:"cases"`
	Complete bool   `json:"complete"`
}

type failure struct {
	Idx   int64    `json:"idx"`
	Suite string   `json:"suite"`
	Text  string   `json:"text"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace,omitempty"`
}

type report struct {
	Prop     string           `json:"prop"`
	Tier     string           `json:"tier"`
	Done     bool             `json:"done"`
	Next     int64            `json:"next"`
	Cases    int64            `json:"cases"`
	Steps    int64            `json:"steps"`
	States   int              `json:"states"`
	Suites   []suiteReport    `json:"suites"`
	Samples  []string         `json:"samples"`
	Outcomes map[string]int64 `json:"outcomes"`
	Failure  *failure         `json:"failure,omitempty"`
	WallS    float64          `json:"wall_s"`
}

//go:noinline
func grow(n int) byte {
	var b [4096]byte
	b[n%4096] = byte(n)
	if n > 0 {
		return b[(n*7)%4096] + grow(n-1)
	}
	return b[0]
}

// Grow makes the stack of the calling goroutine big enough for every case (stacks are not shrunk, see GODEBUG), so that
// no stack growth is due inside a relocated function entry.
func Grow() { grow(200) }

func samplePick(cases int64) bool {
	return cases == 1 || cases == 37 || cases == 1009 || cases == 20011
}

// Main is the entry point of a worker process.
func Main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int64("shard", 0, "")
	n := flag.Int64("n", 1, "")
	from := flag.Int64("from", 0, "")
	to := flag.Int64("to", 1<<62, "")
	deadline := flag.Float64("deadline", 1e9, "seconds")
	progress := flag.String("progress", "", "")
	out := flag.String("out", "", "")
	statesOut := flag.String("states", "", "")
	only := flag.String("suite", "", "")
	list := flag.Bool("list", false, "print the cases instead of running them")
	trace := flag.Bool("trace", false, "")
	cpuprof := flag.String("cpuprofile", "", "")
	repeat := flag.Int("repeat", 1, "run every case this often (replays)")
	keepStdout := flag.Bool("stdout", false, "")
	flag.Parse()

	if *cpuprof != "" {
		f, err := os.Create(*cpuprof)
		must(err)
		must(pprof.StartCPUProfile(f))
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(-1)
	start := time.Now()
	w := &worker{states: map[uint64]struct{}{}, outcomes: map[string]int64{}, prog: make([]byte, 24), start: start, deadline: *deadline}
	if *progress != "" {
		f, err := os.OpenFile(*progress, os.O_RDWR|os.O_CREATE, 0644)
		must(err)
		must(f.Truncate(4096))
		w.prog, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		must(err)
	}
	if !*keepStdout && !*list {
		if os.Getenv("ZZ_STDOUT") == "pipe" {
			busyStdout()
		}
		to, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		must(err)
		if *prop == "C19" && os.Getenv("MOCKEY_DEBUG") != "true" && flag.Set("convey-silent", "true") == nil {
			to, err = os.CreateTemp(".", "printed")
			must(err)
			must(os.Remove(to.Name()))
			w.printed = to
		}
		must(syscall.Dup2(int(to.Fd()), 1))
	}
	rep := &report{Prop: *prop, Tier: *tier, Done: true}
	idx := int64(-1)
	stop := false
	write := func() {
		rep.Next = idx
		rep.Cases, rep.Steps, rep.States, rep.Outcomes = w.cases, w.steps, len(w.states), w.outcomes
		rep.WallS = time.Since(start).Seconds()
		b, err := json.MarshalIndent(rep, "", " ")
		must(err)
		if *out == "" {
			os.Stderr.Write(append(b, '\n'))
		} else {
			must(os.WriteFile(*out, b, 0644))
		}
		if *statesOut != "" {
			buf := make([]byte, 0, 8*len(w.states))
			for h := range w.states {
				buf = binary.LittleEndian.AppendUint64(buf, h)
			}
			must(os.WriteFile(*statesOut, buf, 0644))
		}
	}
	body := func() {
		Grow()
		suites, props := suitesOf(*prop)
		for si, s := range suites {
			env := &Env{Prop: props[si], Tier: *tier}
			if *only != "" && s.Name != *only {
				continue
			}
			sr := suiteReport{Name: s.Name, Complete: true}
			if s.Bound != nil {
				sr.Bound = s.Bound(env)
			}
			if stop {
				sr.Complete = false
				rep.Suites = append(rep.Suites, sr)
				continue
			}
			s.Gen(env, func(cs Case) bool {
				idx++
				if idx%*n != *shard || idx < *from {
					return true
				}
				if idx >= *to {
					stop = true
					sr.Complete = false
					return false
				}
				if *list {
					fmt.Printf("%d %s %s\n", idx, s.Name, cs.Text())
					return true
				}
				if w.cases%16 == 0 && time.Since(start).Seconds() > *deadline {
					stop, rep.Done = true, false
					sr.Complete = false
					return false
				}
				*(*int64)(unsafe.Pointer(&w.prog[8])) = idx
				*(*int64)(unsafe.Pointer(&w.prog[0]))++
				w.cases++
				sr.Cases++
				if samplePick(sr.Cases) {
					rep.Samples = append(rep.Samples, s.Name+": "+clip(cs.Text(), 600))
				}
				ctx := &Ctx{worker: w, Trace: *trace}
				for i := 0; i < *repeat && ctx.Err == ""; i++ {
					ctx.trace = nil
					runCase(cs, ctx)
					w.silent(ctx)
				}
				if ctx.Err != "" {
					rep.Failure = &failure{Idx: idx, Suite: s.Name, Text: cs.Text(), Msg: ctx.Err, Trace: ctx.trace}
					stop, rep.Done = true, false
					sr.Complete = false
					return false
				}
				if w.late {
					stop, rep.Done = true, false
					sr.Complete = false
					return false
				}
				if *trace {
					rep.Samples = append(rep.Samples, ctx.trace...)
				}
				if w.cases%128 == 0 {
					runtime.GC()
				}
				return true
			})
			if s.Post != nil && !stop && !*list {
				ctx := &Ctx{worker: w}
				s.Post(ctx)
				if ctx.Err != "" {
					rep.Failure = &failure{Idx: idx, Suite: s.Name, Text: "after all cases of the shard", Msg: ctx.Err}
					stop, rep.Done = true, false
				}
			}
			rep.Suites = append(rep.Suites, sr)
		}
	}
	done := make(chan bool)
	go func() { defer close(done); body() }()
	<-done
	if !*list {
		write()
	}
}

// busyStdout makes the standard output a small pipe that another goroutine fills and a slow reader drains, so that who
// writes to it has to wait for other goroutines.
func busyStdout() {
	r, w, err := os.Pipe()
	must(err)
	conn, err := w.SyscallConn()
	must(err)
	must(conn.Control(func(fd uintptr) { syscall.Syscall(syscall.SYS_FCNTL, fd, 1031 /* F_SETPIPE_SZ */, 4096) }))
	os.Stdout = w
	go func() {
		junk := make([]byte, 4000)
		for {
			w.Write(junk)
			time.Sleep(time.Microsecond) // lets others have their turn
		}
	}()
	go func() {
		b := make([]byte, 4096)
		for {
			r.Read(b)
		}
	}()
}

// silent fails a case in which something was printed, where nothing should be.
func (w *worker) silent(c *Ctx) {
	if w.printed == nil {
		return
	}
	if st, err := w.printed.Stat(); err != nil || st.Size() == 0 {
		return
	}
	b := make([]byte, 1<<16)
	n, _ := w.printed.ReadAt(b, 0)
	w.printed.Truncate(0)
	w.printed.Seek(0, 0)
	t := string(b[:n])
	if (strings.Contains(t, "Errors:\n") || strings.Contains(t, "Failures:\n")) && !strings.Contains(t, "MOCKEY") {
		return // goconvey reports what ended a scope
	}
	c.Fail("debug output is not enabled, but this is printed: %q", clip(t, 300))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func runCase(cs Case, ctx *Ctx) {
	runtime.Gosched() // a fresh time slice: no preemption request is due during the case
	if cs.Own {
		done := make(chan bool)
		go func() {
			defer close(done)
			Grow()
			safeRun(cs, ctx)
		}()
		<-done
		return
	}
	runner <- func() { safeRun(cs, ctx) }
	<-runnerDone
}

// The runner goroutine keeps the stack below a case shallow (the generators are deeply recursive, and stack walks are the
// main cost of a scope).
var runner, runnerDone = make(chan func()), make(chan bool)

func init() {
	go func() {
		Grow()
		for f := range runner {
			f()
			runnerDone <- true
		}
	}()
}

func safeRun(cs Case, ctx *Ctx) {
	defer func() {
		if r := recover(); r != nil {
			ctx.Fail("panic: %v\n%s", r, clip(string(debug.Stack()), 3000))
		}
	}()
	cs.Run(ctx)
}

// Catch runs f and returns what it panicked with (nil if it returned).
func Catch(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

// PanicText is Catch as a string, "" if f returned.
func PanicText(f func()) string {
	ok := false
	r := Catch(func() { f(); ok = true })
	if ok {
		return ""
	}
	s := fmt.Sprint(r)
	if s == "" {
		s = "(empty)"
	}
	return s
}

func Short(s string) string {
	if i := strings.IndexByte(s, '\n'); i > 0 {
		s = s[:i]
	}
	return clip(s, 200)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Must panics on error.
func Must(err error) { must(err) }
