package core

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/sim/simrt"
)

// Violation describes a property violation found in a run.
type Violation struct {
	Kind string `json:"kind"` // stable class, used by minimisation and known findings
	Msg  string `json:"msg"`
}

// World is one simulated run.
type World struct {
	C        *Choices
	Property string

	concurrent bool // park at I/O
	noEmpty    bool
	cuts       []int // where the entries of the body encoded last end
	parkPoints bool  // park at instrumentation points
	gapMean    int
	gap        int

	parked   []*parkRec
	live     int
	parkMu   sync.Mutex // tasks that run at the same time may be preempted by the garbage collector
	sleepSeq int
	sleepN   int
	violate  *Violation
	only     map[string]bool
	muted    bool
	aborted  bool

	faults   map[string]int
	dims     map[string]struct{}
	nontriv  bool
	logHash  uint64
	logN     int
	schedH   uint64
	schedN   int
	trace    []string
	tracing  bool
	leaked   bool
	checkEnd []func()
	simTime  time.Duration
}

type parkRec struct {
	c    chan struct{}
	what string
	id   int
}

type abortRun struct{}

// Fail records a violation and abandons the run.
func (w *World) Fail(kind, format string, args ...any) {
	if w.only != nil && !w.only[kind] {
		w.muted = true
		w.aborted = true
		w.Event("outside this property: %s", kind)
		panic(abortRun{})
	}
	if w.violate == nil {
		w.violate = &Violation{Kind: kind, Msg: fmt.Sprintf(format, args...)}
		w.Event("VIOLATION %s: %s", kind, w.violate.Msg)
	}
	w.aborted = true
	panic(abortRun{})
}

// Note records a violation from a context that cannot unwind.
func (w *World) Note(kind, format string, args ...any) {
	if w.only != nil && !w.only[kind] {
		w.muted = true
		return
	}
	if w.violate == nil {
		w.violate = &Violation{Kind: kind, Msg: fmt.Sprintf(format, args...)}
		w.Event("VIOLATION %s: %s", kind, w.violate.Msg)
	}
}

// Only restricts the run to violations of the given kinds. A violation of
// another kind ends the run without a verdict: it belongs to the property whose
// scenario is being reused.
func (w *World) Only(kinds ...string) {
	w.only = map[string]bool{}
	for _, k := range kinds {
		w.only[k] = true
	}
}

// Failed tells whether a violation was recorded.
func (w *World) Failed() bool { return w.violate != nil }

// Event adds to the run's history.
func (w *World) Event(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	h.Write([]byte(s))
	w.logHash = mix(w.logHash ^ h.Sum64())
	w.logN++
	if w.tracing && len(w.trace) < 4000 {
		w.trace = append(w.trace, s)
	}
}

// Fault counts an injected fault.
func (w *World) Fault(kind string) {
	w.faults[kind]++
	w.nontriv = true
	w.Event("fault %s", kind)
}

// Dim adds an element to the run's state signature.
func (w *World) Dim(format string, args ...any) {
	w.dims[fmt.Sprintf(format, args...)] = struct{}{}
}

// NonTrivial marks the run as having exercised something beyond the plain path.
func (w *World) NonTrivial() { w.nontriv = true }

// Concurrent makes simulated I/O a scheduling point; withPoints makes every
// statement of the code under test one too.
func (w *World) Concurrent(withPoints bool, gapMean int) {
	w.concurrent = true
	w.parkPoints = withPoints
	w.gapMean = gapMean
	if withPoints {
		simrt.Yield = func(id int) {
			if w.gap > 0 {
				w.gap--
				return
			}
			w.gap = w.C.Src("gap").Intn(w.gapMean + 1)
			w.park("P", id)
		}
	}
}

func (w *World) park(what string, id int) {
	r := &parkRec{c: make(chan struct{}), what: what, id: id}
	w.parkMu.Lock()
	w.parked = append(w.parked, r)
	w.parkMu.Unlock()
	<-r.c
}

// IO is a scheduling point at a simulated I/O operation.
func (w *World) IO(what string) {
	simrt.Step()
	if w.concurrent {
		w.park(what, -1)
	}
}

// Sleep stalls the caller on the simulated clock.
func (w *World) Sleep(d time.Duration) {
	w.sleepN++
	w.sleepSeq++
	id := w.sleepSeq
	time.Sleep(d)
	w.sleepN--
	if w.concurrent {
		// sleepers that wake at the same instant do so in no particular order
		w.park(fmt.Sprintf("wake:%06d", id), -3)
	}
}

// Task is a simulated client.
type Task struct {
	done chan struct{}
	w    *World
	name string
}

// Go starts a task.
func (w *World) Go(name string, fn func()) *Task {
	t := &Task{done: make(chan struct{}), w: w, name: name}
	w.live++
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortRun); !ok {
					w.Note("panic", "task %s panicked: %v\n%s", name, r, shortStack())
				}
			}
			w.live--
			close(t.done)
		}()
		if w.concurrent {
			w.park("start:"+name, -2)
		}
		fn()
	}()
	return t
}

// Wait blocks the calling task until t is done.
func (t *Task) Wait() {
	<-t.done
	if t.w.violate != nil || t.w.muted {
		panic(abortRun{})
	}
}

func shortStack() string { return repoFrames(string(debug.Stack())) }

func repoFrames(stack string) string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/pkg/mod/") || strings.Contains(l, "ov/") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, " <- ")
}

// Result is what one run produced.
type Result struct {
	Violation *Violation
	Recorded  map[string][]uint32
	LogHash   uint64
	LogN      int
	Sig       uint64
	SchedHash uint64
	SchedN    int
	NonTriv   bool
	Faults    map[string]int
	Dims      []string
	Steps     int64
	SimTime   time.Duration
	Trace     []string
	Leaked    bool
}

// Scenario is the workload and checks of one property.
type Scenario func(w *World)

// RunOpts tunes a run.
type RunOpts struct {
	Budget  int64
	Tracing bool
	// LeakIsViolation makes goroutines left behind a violation.
	LeakIsViolation bool
}

// Run executes one simulated run inside a bubble with its own clock.
func Run(t *testing.T, prop string, ch *Choices, sc Scenario, o RunOpts) *Result {
	w := &World{C: ch, Property: prop, faults: map[string]int{}, dims: map[string]struct{}{}, tracing: o.Tracing}
	simrt.Steps, simrt.Exceeded = 0, false
	simrt.Budget = o.Budget
	if simrt.Budget == 0 {
		simrt.Budget = 20_000_000
	}
	simrt.Yield = nil
	mapMode := -1
	simrt.Perm = func(n int) []int {
		s := w.C.Src("map")
		if mapMode < 0 {
			mapMode = s.Weighted(1, 1, 4)
		}
		p := make([]int, n)
		switch mapMode {
		case 0:
			for i := range p {
				p[i] = i
			}
		case 1:
			for i := range p {
				p[i] = n - 1 - i
			}
		default:
			w.faults["map-order-shuffle"]++
			return s.Perm(n)
		}
		return p
	}
	var leakMsg string
	func() {
		defer func() {
			if r := recover(); r != nil {
				leakMsg = fmt.Sprint(r)
				if !strings.Contains(leakMsg, "blocked goroutines remain") && !strings.Contains(leakMsg, "deadlock") {
					panic(r)
				}
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			start := time.Now()
			simrt.Active = true
			defer func() { simrt.Active = false }()
			w.Go("main", func() { sc(w) })
			w.root()
			w.simTime = time.Since(start)
			simrt.Active = false
			simrt.Yield = nil
			w.concurrent = false
			// let everything that was parked run to its end so that nothing
			// is left behind except real leaks
			for len(w.parked) > 0 {
				p := w.parked
				w.parked = nil
				for _, r := range p {
					close(r.c)
				}
				synctest.Wait()
			}
			synctest.Wait()
		})
	}()
	simrt.Active = false
	if leakMsg != "" {
		w.leaked = true
		if o.LeakIsViolation && w.violate == nil && !w.muted {
			w.Note("goroutine-leak", "goroutines are still blocked after the operation finished and everything was closed")
		}
	}
	dims := make([]string, 0, len(w.dims))
	for d := range w.dims {
		dims = append(dims, d)
	}
	sort.Strings(dims)
	fk := make([]string, 0)
	for k := range w.faults {
		fk = append(fk, k)
	}
	sort.Strings(fk)
	h := fnv.New64a()
	fmt.Fprint(h, dims, fk, w.schedH)
	return &Result{Violation: w.violate, Recorded: ch.Recorded(), LogHash: w.logHash, LogN: w.logN, Sig: h.Sum64(),
		SchedHash: w.schedH, SchedN: w.schedN, NonTriv: w.nontriv || w.schedN > 0, Faults: w.faults, Dims: dims,
		Steps: simrt.Steps, SimTime: w.simTime, Trace: w.trace, Leaked: w.leaked}
}

// root is the scheduler: whenever everything in the bubble is blocked it picks
// one parked operation and lets it go on.
func (w *World) root() {
	idle := 0
	for {
		synctest.Wait()
		if simrt.Exceeded {
			w.Note("no-progress", "step budget of %d exhausted: the operation does not terminate (%s)", simrt.Budget, repoFrames(simrt.Where))
			return
		}
		if w.live == 0 {
			return
		}
		if len(w.parked) == 0 {
			// time may still have to pass
			if idle < 4 {
				before := w.schedN
				time.Sleep([]time.Duration{time.Millisecond, time.Second, time.Minute, 24 * time.Hour}[idle])
				synctest.Wait()
				if len(w.parked) > 0 || w.live == 0 || w.schedN != before {
					idle = 0
				} else {
					idle++
				}
				continue
			}
			w.Note("deadlock", "every simulated goroutine is blocked and %d operation(s) never returned", w.live)
			return
		}
		idle = 0
		i := 0
		if len(w.parked) > 1 {
			// goroutines that ran at the same time arrive in any order
			sort.SliceStable(w.parked, func(a, b int) bool {
				x, y := w.parked[a], w.parked[b]
				return x.what < y.what || x.what == y.what && x.id < y.id
			})
			i = w.C.Src("sched").Intn(len(w.parked))
		}
		r := w.parked[i]
		w.parked = append(w.parked[:i], w.parked[i+1:]...)
		w.schedN++
		w.schedH = mix(w.schedH ^ uint64(r.id+7) ^ uint64(i)<<32)
		if w.tracing && len(w.trace) < 4000 {
			if r.id >= 0 {
				w.trace = append(w.trace, fmt.Sprintf("sched: resume %s (%d of %d)", PointName(r.id), i, len(w.parked)+1))
			} else {
				w.trace = append(w.trace, fmt.Sprintf("sched: resume %s (%d of %d)", r.what, i, len(w.parked)+1))
			}
		}
		close(r.c)
	}
}

// PointNames maps instrumentation points to source positions.
var PointNames []string

// PointName names a point.
func PointName(id int) string {
	if id >= 0 && id < len(PointNames) {
		return PointNames[id]
	}
	return fmt.Sprint("point ", id)
}
