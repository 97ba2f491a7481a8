package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verif/sim/simrt"
)

// Prop is one property's check.
type Prop struct {
	ID        string
	Title     string
	Run       Scenario
	Quick     int // runs in the quick tier
	Thorough  int
	Opts      RunOpts
	Rule      string // what makes a run count as distinct
	Real      []string
	Stub      []string
	Assume    []string
	Technique string
}

// Props is the registry.
var Props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { Props[p.ID] = p }

type workerSpec struct {
	Prop     string `json:"prop"`
	Base     uint64 `json:"base"`
	From     int    `json:"from"`
	To       int    `json:"to"`
	Stride   int    `json:"stride"`
	Deadline int64  `json:"deadline"`
	Progress string `json:"progress"`
	Points   string `json:"points"`
	Known    string `json:"known"`
}

type workerOut struct {
	Runs     int            `json:"runs"`
	NonTriv  int            `json:"nontriv"`
	Steps    int64          `json:"steps"`
	SimNanos int64          `json:"sim_ns"`
	SchedN   int64          `json:"sched_n"`
	Leaks    int            `json:"leaks"`
	Faults   map[string]int `json:"faults"`
	Dims     map[string]int `json:"dims"`
	Sigs     []uint64       `json:"sigs"`
	Scheds   []uint64       `json:"scheds"`
	Hits     []int          `json:"hits"`
	LogHash  map[int]uint64 `json:"log_hash"` // sampled runs, for the determinism proof
	Viol     []*found       `json:"viol"`
	Known    map[string]int `json:"known"` // listed findings met, by description
	Timeout  bool           `json:"timeout"`
	Last     int            `json:"last"`
}

type found struct {
	Index     int                 `json:"index"`
	Seed      uint64              `json:"seed"`
	Violation *Violation          `json:"violation"`
	Recorded  map[string][]uint32 `json:"choices"`
	Crash     string              `json:"crash,omitempty"`
	From      int                 `json:"-"` // first run of the process that met it
}

// Replay is the replay file.
type Replay struct {
	Property  string              `json:"property"`
	Seed      uint64              `json:"seed"`
	SeedIndex int                 `json:"seed_index"`
	VerifSeed uint64              `json:"verif_seed"`
	Violation *Violation          `json:"violation"`
	Choices   map[string][]uint32 `json:"choices"`
	Original  int                 `json:"decisions_before_minimising"`
	Minimised int                 `json:"decisions_after_minimising"`
	Trace     []string            `json:"trace"`
	HowTo     string              `json:"how_to_replay"`
	Crash     string              `json:"crash,omitempty"`
	History   []uint64            `json:"earlier_runs,omitempty"` // seeds of runs the same process makes first
}

func seedFor(base uint64, prop string, i int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return mix(mix(base^h.Sum64()) + uint64(i))
}

// Main dispatches on SIM_CMD. It is called from TestMain; t runs a function
// with a *testing.T available.
func Main(withT func(func(t *testing.T)) int) int {
	switch os.Getenv("SIM_CMD") {
	case "worker":
		return withT(workerMain)
	case "one":
		return withT(oneMain)
	case "drive":
		return driveMain()
	}
	fmt.Fprintln(os.Stderr, "SIM_CMD must be set")
	return 2
}

func setupWorker(points string) {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(256 << 20)
	// collections happen between runs: one in the middle of a run may suspend
	// a task and let another one overtake it
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	lim := uint64(6 << 30)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	loadPoints(points)
	InitCodecs()
}

var lastGC uint64

// collect frees the garbage of past runs once there is enough of it.
func collect() {
	allocSample[0].Name = "/gc/heap/allocs:bytes"
	metrics.Read(allocSample)
	if n := allocSample[0].Value.Uint64(); n-lastGC > 128<<20 {
		runtime.GC()
		lastGC = n
	}
}

var allocSample = make([]metrics.Sample, 1)

func loadPoints(path string) {
	if b, err := os.ReadFile(path); err == nil {
		json.Unmarshal(b, &PointNames)
	}
}

func workerMain(t *testing.T) {
	var sp workerSpec
	if err := json.Unmarshal([]byte(os.Getenv("SIM_SPEC")), &sp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	setupWorker(sp.Points)
	p := Props[sp.Prop]
	prog, err := os.OpenFile(sp.Progress, os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := &workerOut{Faults: map[string]int{}, Dims: map[string]int{}, LogHash: map[int]uint64{}, Known: map[string]int{}, Last: -1}
	known := loadKnown(sp.Known)
	sigs := map[uint64]struct{}{}
	scheds := map[uint64]struct{}{}
	kinds := map[string]int{}
	for i := sp.From; i < sp.To; i += sp.Stride {
		if time.Now().Unix() > sp.Deadline {
			out.Timeout = true
			break
		}
		prog.WriteAt([]byte(fmt.Sprintf("%10d", i)), 0)
		r := Run(t, p.ID, NewChoices(seedFor(sp.Base, p.ID, i)), p.Run, p.Opts)
		out.Last = i
		out.Runs++
		collect()
		if r.NonTriv {
			out.NonTriv++
			sigs[r.Sig] = struct{}{}
		}
		if r.SchedN > 0 {
			scheds[r.SchedHash] = struct{}{}
		}
		out.Steps += r.Steps
		out.SimNanos += int64(r.SimTime)
		out.SchedN += int64(r.SchedN)
		if r.Leaked {
			out.Leaks++
		}
		for k, n := range r.Faults {
			out.Faults[k] += n
		}
		for _, d := range r.Dims {
			out.Dims[d]++
		}
		if i%97 < 8 && len(out.LogHash) < 200 {
			out.LogHash[i] = r.LogHash ^ r.SchedHash ^ uint64(r.Steps)
		}
		if r.Violation != nil {
			if k := known.match(p.ID, r.Violation); k != "" {
				out.Known[k]++
				continue
			}
		}
		if r.Violation != nil && kinds[r.Violation.Kind] < 4 {
			kinds[r.Violation.Kind]++
			out.Viol = append(out.Viol, &found{Index: i, Seed: seedFor(sp.Base, p.ID, i), Violation: r.Violation, Recorded: r.Recorded})
			if len(out.Viol) >= 6 {
				break
			}
		}
	}
	for s := range sigs {
		out.Sigs = append(out.Sigs, s)
	}
	for s := range scheds {
		out.Scheds = append(out.Scheds, s)
	}
	for i, h := range simrt.Hits {
		if h {
			out.Hits = append(out.Hits, i)
		}
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(append([]byte("SIMOUT "), append(b, '\n')...))
}

type oneSpec struct {
	Prop   string              `json:"prop"`
	Seed   uint64              `json:"seed"`
	Replay map[string][]uint32 `json:"replay"`
	Use    bool                `json:"use_replay"`
	Trace  bool                `json:"trace"`
	Points string              `json:"points"`
	Shrink int                 `json:"shrink_seconds"`
	Kind   string              `json:"kind"`
	// History lists the seeds of runs made first, in the same process: what
	// the code under test keeps from one use to the next is part of the
	// history a violation needs.
	History []uint64 `json:"history"`
}

type oneOut struct {
	Violation *Violation          `json:"violation"`
	Recorded  map[string][]uint32 `json:"choices"`
	Trace     []string            `json:"trace"`
	LogHash   uint64              `json:"log_hash"`
	Attempts  int                 `json:"attempts"`
	Faults    map[string]int      `json:"faults"`
	Dims      []string            `json:"dims"`
}

func oneMain(t *testing.T) {
	var sp oneSpec
	if err := json.NewDecoder(os.Stdin).Decode(&sp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	setupWorker(sp.Points)
	p := Props[sp.Prop]
	mk := func() *Choices {
		if sp.Use {
			return ReplayChoices(sp.Replay)
		}
		return NewChoices(sp.Seed)
	}
	var o oneOut
	if sp.Shrink > 0 {
		o = shrink(t, p, mk(), sp.Kind, time.Duration(sp.Shrink)*time.Second)
	} else {
		for _, h := range sp.History {
			Run(t, p.ID, NewChoices(h), p.Run, p.Opts)
			collect()
		}
		opts := p.Opts
		opts.Tracing = sp.Trace
		r := Run(t, p.ID, mk(), p.Run, opts)
		o = oneOut{Violation: r.Violation, Recorded: r.Recorded, Trace: r.Trace, LogHash: r.LogHash ^ r.SchedHash, Faults: r.Faults, Dims: r.Dims}
	}
	b, _ := json.Marshal(o)
	os.Stdout.Write(append([]byte("SIMOUT "), append(b, '\n')...))
}

// shrink minimises the decisions that lead to a violation of the same kind.
func shrink(t *testing.T, p *Prop, ch *Choices, kind string, budget time.Duration) oneOut {
	end := time.Now().Add(budget)
	r := Run(t, p.ID, ch, p.Run, p.Opts)
	best := r
	if r.Violation == nil {
		return oneOut{}
	}
	attempts := 0
	try := func(rec map[string][]uint32) bool {
		if time.Now().After(end) {
			return false
		}
		attempts++
		n := Run(t, p.ID, ReplayChoices(rec), p.Run, p.Opts)
		collect()
		if n.Violation != nil && n.Violation.Kind == kind && smaller(n.Recorded, best.Recorded) {
			best = n
			return true
		}
		return false
	}
	clone := func() map[string][]uint32 {
		c := map[string][]uint32{}
		for k, v := range best.Recorded {
			c[k] = append([]uint32(nil), v...)
		}
		return c
	}
	for improved := true; improved && time.Now().Before(end); {
		improved = false
		for _, name := range StreamNames(best.Recorded) {
			// drop a whole stream
			c := clone()
			delete(c, name)
			if try(c) {
				improved = true
				continue
			}
			// cut tails, remove and zero chunks
			for size := len(best.Recorded[name]); size >= 1 && time.Now().Before(end); size /= 2 {
				for at := 0; at+size <= len(best.Recorded[name]) && time.Now().Before(end); {
					c := clone()
					s := c[name]
					c[name] = append(append([]uint32(nil), s[:at]...), s[at+size:]...)
					if try(c) {
						improved = true
						continue
					}
					c = clone()
					s = c[name]
					nz := false
					for i := at; i < at+size; i++ {
						nz = nz || s[i] != 0
						s[i] = 0
					}
					if nz && try(c) {
						improved = true
						continue
					}
					at += size
				}
			}
			// lower single values
			for i := 0; i < len(best.Recorded[name]) && time.Now().Before(end); i++ {
				v := best.Recorded[name][i]
				for _, nv := range []uint32{v / 2, v - 1} {
					if v == 0 || nv == v {
						continue
					}
					c := clone()
					if i >= len(c[name]) {
						break
					}
					c[name][i] = nv
					if try(c) {
						improved = true
						break
					}
				}
			}
		}
	}
	opts := p.Opts
	opts.Tracing = true
	fin := Run(t, p.ID, ReplayChoices(best.Recorded), p.Run, opts)
	return oneOut{Violation: fin.Violation, Recorded: best.Recorded, Trace: fin.Trace, Attempts: attempts, Faults: fin.Faults, Dims: fin.Dims}
}

func smaller(a, b map[string][]uint32) bool {
	ta, tb := Total(a), Total(b)
	if ta != tb {
		return ta < tb
	}
	var sa, sb uint64
	for _, v := range a {
		for _, x := range v {
			sa += uint64(x)
		}
	}
	for _, v := range b {
		for _, x := range v {
			sb += uint64(x)
		}
	}
	return sa < sb
}

// ---------------------------------------------------------------- driver

// runLimit is far more than any run takes; a run that takes longer is stuck in
// code that counts no steps.
const runLimit = 100 * time.Second

// memLimit is far more memory than any worker uses.
const memLimit = 3 << 30

func resident(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize()
}

func sub(cmd string, spec any, stdin []byte, timeout time.Duration) (out []byte, stderr string, err error, timedOut bool) {
	exe, _ := os.Executable()
	c := exec.Command(exe, "-test.timeout=0")
	c.Env = append(os.Environ(), "SIM_CMD="+cmd, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all", "GOLOG_LOG_LEVEL=fatal", "GOLOG_FILE=/dev/null")
	if spec != nil {
		b, _ := json.Marshal(spec)
		c.Env = append(c.Env, "SIM_SPEC="+string(b))
	}
	if stdin != nil {
		c.Stdin = bytes.NewReader(stdin)
	}
	var so, se bytes.Buffer
	c.Stdout = &so
	c.Stderr = &limitedBuf{b: &se, n: 1 << 20}
	if err := c.Start(); err != nil {
		return nil, "", err, false
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	end := time.After(timeout)
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for waiting := true; waiting; {
		select {
		case err = <-done:
			waiting = false
		case <-end:
			c.Process.Kill()
			err = <-done
			timedOut, waiting = true, false
		case <-tick.C:
			stuck := resident(c.Process.Pid) > memLimit
			if sp, ok := spec.(workerSpec); ok && !stuck {
				fi, e := os.Stat(sp.Progress)
				stuck = e == nil && time.Since(fi.ModTime()) > runLimit
			}
			if stuck {
				c.Process.Kill()
				err = <-done
				timedOut, waiting = true, false
			}
		}
	}
	sc := bufio.NewReader(&so)
	for {
		l, e := sc.ReadBytes('\n')
		if bytes.HasPrefix(l, []byte("SIMOUT ")) {
			out = bytes.TrimPrefix(l, []byte("SIMOUT "))
		}
		if e != nil {
			break
		}
	}
	return out, se.String(), err, timedOut
}

type limitedBuf struct {
	b *bytes.Buffer
	n int
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p[:min(len(p), l.n-l.b.Len())])
	}
	return len(p), nil
}

func driveMain() int {
	id := os.Getenv("SIM_PROP")
	tier := os.Getenv("SIM_TIER")
	outDir := os.Getenv("SIM_OUT") // /verif
	points := os.Getenv("SIM_POINTS")
	scratch := os.Getenv("SIM_SCRATCH")
	p := Props[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		return 2
	}
	loadPoints(points)
	base := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			base = v
		} else {
			h := fnv.New64a()
			h.Write([]byte(s))
			base = h.Sum64()
		}
	}
	if rp := os.Getenv("SIM_REPLAY"); rp != "" {
		return replayMain(p, rp, points)
	}
	runs, capS := p.Quick, 240
	if tier == "thorough" {
		runs, capS = p.Thorough, 3*3600
	}
	if v := os.Getenv("SIM_RUNS"); v != "" {
		runs, _ = strconv.Atoi(v)
	}
	if v := os.Getenv("SIM_CAP"); v != "" {
		capS, _ = strconv.Atoi(v)
	}
	knownPath := os.Getenv("SIM_KNOWN")
	known := loadKnown(knownPath)

	start := time.Now()
	deadline := start.Add(time.Duration(capS) * time.Second)
	nw := runtime.NumCPU()
	if v := os.Getenv("SIM_WORKERS"); v != "" {
		nw, _ = strconv.Atoi(v)
	}
	agg := &workerOut{Faults: map[string]int{}, Dims: map[string]int{}, LogHash: map[int]uint64{}, Known: map[string]int{}}
	sigs := map[uint64]struct{}{}
	scheds := map[uint64]struct{}{}
	hits := map[int]struct{}{}
	var mu sync.Mutex
	var viols []*found
	trouble := ""
	// chunks of seeds, handed to workers
	chunk := max(20, min(2000, runs/(nw*4)+1))
	type job struct{ from, to int }
	var jobs []job
	for f := 0; f < runs; f += chunk {
		jobs = append(jobs, job{f, min(runs, f+chunk)})
	}
	next := 0
	stop := false
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(jobs) || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				progress := filepath.Join(scratch, fmt.Sprintf("progress%d", k))
				os.WriteFile(progress, nil, 0o644)
				sp := workerSpec{Prop: id, Base: base, From: j.from, To: j.to, Stride: 1, Deadline: deadline.Unix(), Progress: progress, Points: points, Known: knownPath}
				out, se, err, timedOut := sub("worker", sp, nil, time.Until(deadline)+120*time.Second)
				mu.Lock()
				if out != nil {
					var o workerOut
					if e := json.Unmarshal(out, &o); e != nil {
						trouble = e.Error()
					}
					merge(agg, &o, sigs, scheds, hits)
					for _, v := range o.Viol {
						v.From = j.from
					}
					viols = append(viols, o.Viol...)
					if len(o.Viol) > 0 && tier != "thorough" {
						stop = true
					}
					if o.Timeout {
						agg.Timeout = true
					}
				} else if timedOut {
					b, _ := os.ReadFile(progress)
					if i, e := strconv.Atoi(strings.TrimSpace(string(b))); e == nil {
						viols = append(viols, &found{Index: i, Seed: seedFor(base, id, i), Crash: "hang",
							Violation: &Violation{Kind: "hang", Msg: "a run does not end, or takes ever more memory"}})
					} else {
						trouble = "worker stopped responding: " + tail(se)
					}
					stop = true
				} else {
					// the process died: a panic in a goroutine of the code under
					// test, a stack overflow or an impossible allocation
					b, _ := os.ReadFile(progress)
					i, e := strconv.Atoi(strings.TrimSpace(string(b)))
					if e != nil {
						trouble = fmt.Sprintf("worker failed before its first run: %v %s", err, tail(se))
					} else {
						viols = append(viols, &found{Index: i, Seed: seedFor(base, id, i), Crash: crashLine(se),
							Violation: &Violation{Kind: "crash", Msg: crashLine(se)}})
					}
					stop = true
				}
				mu.Unlock()
			}
		}(k)
	}
	wg.Wait()
	searchWall := time.Since(start)
	if trouble != "" && len(viols) == 0 {
		fmt.Fprintln(os.Stderr, "check could not run:", trouble)
		return 2
	}

	// determinism: run a sample of the seeds again in fresh processes
	detN, detBad := determinism(id, base, agg.LogHash, scratch, points)
	if detBad != "" {
		fmt.Fprintln(os.Stderr, "warning: run not repeatable:", detBad)
	}

	// known findings and violations
	sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	exit := 0
	nviol := 0
	seen := map[string]bool{}
	for _, k := range SortedKeys(agg.Known) {
		seen["known:"+k] = true
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", id, k, agg.Known[k])
	}
	var reports []string
	histTries := 0
	for _, v := range viols {
		if seen[v.Violation.Kind] || nviol >= 3 {
			continue
		}
		if k := known.match(id, v.Violation); k != "" {
			if !seen["known:"+k] {
				seen["known:"+k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			}
			continue
		}
		seen[v.Violation.Kind] = true
		rp := &Replay{Property: id, Seed: v.Seed, SeedIndex: v.Index, VerifSeed: base, Violation: v.Violation, Choices: v.Recorded,
			HowTo: "bash /verif/check.sh " + id + " replay <this file>", Crash: v.Crash}
		ok := false
		if v.Crash == "hang" {
			for n := 0; n < 2; n++ {
				in, _ := json.Marshal(oneSpec{Prop: id, Seed: v.Seed, Points: points})
				_, _, _, to := sub("one", nil, in, 60*time.Second)
				if ok = to; !ok {
					break
				}
			}
		} else if v.Crash != "" {
			// confirm in a fresh process
			for n := 0; n < 3 && !ok; n++ {
				in, _ := json.Marshal(oneSpec{Prop: id, Seed: v.Seed, Points: points})
				out, _, err, to := sub("one", nil, in, 120*time.Second)
				ok = out == nil && err != nil && !to
			}
		} else {
			rp.Original = Total(v.Recorded)
			budget := 20
			if tier == "thorough" {
				budget = 120
			}
			in, _ := json.Marshal(oneSpec{Prop: id, Replay: v.Recorded, Use: true, Points: points, Shrink: budget, Kind: v.Violation.Kind})
			out, se, err, _ := sub("one", nil, in, time.Duration(budget+90)*time.Second)
			var o oneOut
			if out != nil && json.Unmarshal(out, &o) == nil && o.Violation != nil {
				rp.Violation, rp.Choices, rp.Trace, rp.Minimised = o.Violation, o.Recorded, o.Trace, Total(o.Recorded)
			} else if out == nil {
				fmt.Fprintln(os.Stderr, "minimiser failed:", err, tail(se))
			}
			for n := 0; n < 6 && !ok; n++ {
				if n == 3 {
					rp.Choices = v.Recorded // the minimised one does not hold up
				}
				in, _ := json.Marshal(oneSpec{Prop: id, Replay: rp.Choices, Use: true, Points: points, Trace: true})
				out, _, _, _ := sub("one", nil, in, 120*time.Second)
				var o oneOut
				if out != nil && json.Unmarshal(out, &o) == nil && o.Violation != nil {
					ok = true
					rp.Trace = o.Trace
					rp.Violation = o.Violation
				}
			}
			if k := known.match(id, rp.Violation); ok && k != "" {
				if !seen["known:"+k] {
					seen["known:"+k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
				}
				continue
			}
		}
		if !ok && v.Crash == "" && histTries < 2 {
			histTries++
			// alone the run is quiet: what earlier runs of the same process
			// left behind may be what it takes
			if hist, o := withHistory(id, base, v, points); o != nil {
				if k := known.match(id, o.Violation); k != "" {
					continue
				}
				ok = true
				rp.History, rp.Choices = hist, nil
				rp.Violation, rp.Trace = o.Violation, o.Trace
				rp.Original, rp.Minimised = Total(v.Recorded), Total(v.Recorded)
			}
		}
		if !ok {
			// without a replay there is no verdict
			fmt.Fprintf(os.Stderr, "seed %d index %d: violation %q did not reproduce on replay\n", v.Seed, v.Index, v.Violation.Kind)
			seen[v.Violation.Kind] = false
			continue
		}
		nviol++
		dir := filepath.Join(outDir, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, sanitize(v.Violation.Kind), v.Index))
		b, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s\n  seed %d (index %d), %d decisions minimised to %d\n", rp.Violation.Kind, clipN(rp.Violation.Msg, 1200), v.Seed, v.Index, rp.Original, rp.Minimised)
		reports = append(reports, fmt.Sprintf("VIOLATION property=%s replay=%s", id, path))
		exit = 1
	}
	for _, r := range reports {
		fmt.Println(r)
	}
	writeEvidence(p, tier, base, agg, sigs, scheds, hits, searchWall, start, runs, nviol, detN, detBad, outDir)
	if exit == 0 && agg.Runs == 0 {
		fmt.Fprintln(os.Stderr, "no runs completed")
		return 2
	}
	fmt.Printf("%s %s: %d runs (%d non-trivial, %d distinct) in %.1fs, determinism re-check of %d runs: %s\n", id, tier, agg.Runs, agg.NonTriv, len(sigs), searchWall.Seconds(), detN, map[bool]string{true: "identical", false: "DIFFERS " + detBad}[detBad == ""])
	return exit
}

// withHistory looks for the earlier runs a violation needs, and cuts their
// list down for as long as the violation stays and the time allows.
func withHistory(id string, base uint64, v *found, points string) ([]uint64, *oneOut) {
	end := time.Now().Add(100 * time.Second)
	try := func(h []uint64) *oneOut {
		in, _ := json.Marshal(oneSpec{Prop: id, Seed: v.Seed, Points: points, Trace: true, History: h})
		out, _, _, _ := sub("one", nil, in, 120*time.Second)
		var o oneOut
		if out == nil || json.Unmarshal(out, &o) != nil || o.Violation == nil || o.Violation.Kind != v.Violation.Kind {
			return nil
		}
		return &o
	}
	var h []uint64
	for i := v.From; i < v.Index; i++ {
		h = append(h, seedFor(base, id, i))
	}
	if len(h) == 0 {
		return nil, nil
	}
	best := try(h)
	if best == nil {
		return nil, nil
	}
	for size := (len(h) + 1) / 2; size >= 1 && time.Now().Before(end); {
		cut := false
		for at := 0; at < len(h) && time.Now().Before(end); {
			c := append(append([]uint64(nil), h[:at]...), h[min(len(h), at+size):]...)
			if o := try(c); o != nil {
				h, best, cut = c, o, true
			} else {
				at += size
			}
		}
		if size == 1 && !cut || len(h) <= 1 {
			break
		}
		size = max(1, size/2)
	}
	// twice more, exactly as the replay file will run it
	for n := 0; n < 2; n++ {
		if best = try(h); best == nil {
			return nil, nil
		}
	}
	return h, best
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func replayMain(p *Prop, path, points string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	spec := oneSpec{Prop: p.ID, Replay: rp.Choices, Use: rp.Crash == "" && rp.History == nil, Seed: rp.Seed, History: rp.History, Points: points, Trace: true}
	in, _ := json.Marshal(spec)
	out, se, err, _ := sub("one", nil, in, 300*time.Second)
	if out == nil {
		fmt.Printf("crash: %v\n%s\n", err, tail(se))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	var o oneOut
	json.Unmarshal(out, &o)
	for _, l := range o.Trace {
		fmt.Println("  " + clipN(l, 300))
	}
	if o.Violation == nil {
		fmt.Println("the replay file does not lead to a violation on this tree")
		return 0
	}
	fmt.Printf("%s: %s\n", o.Violation.Kind, o.Violation.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

func merge(a, o *workerOut, sigs, scheds map[uint64]struct{}, hits map[int]struct{}) {
	a.Runs += o.Runs
	a.NonTriv += o.NonTriv
	a.Steps += o.Steps
	a.SimNanos += o.SimNanos
	a.SchedN += o.SchedN
	a.Leaks += o.Leaks
	for k, v := range o.Faults {
		a.Faults[k] += v
	}
	for k, v := range o.Dims {
		a.Dims[k] += v
	}
	for _, s := range o.Sigs {
		sigs[s] = struct{}{}
	}
	for _, s := range o.Scheds {
		scheds[s] = struct{}{}
	}
	for _, h := range o.Hits {
		hits[h] = struct{}{}
	}
	for k, n := range o.Known {
		a.Known[k] += n
	}
	for i, h := range o.LogHash {
		if len(a.LogHash) < 400 {
			a.LogHash[i] = h
		}
	}
}

func determinism(id string, base uint64, want map[int]uint64, scratch, points string) (int, string) {
	idx := make([]int, 0, len(want))
	for i := range want {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	n := 0
	bad := ""
	// consecutive groups in fresh processes
	for g := 0; g < len(idx) && n < 24; {
		h := g
		for h+1 < len(idx) && idx[h+1] == idx[h]+1 {
			h++
		}
		sp := workerSpec{Prop: id, Base: base, From: idx[g], To: idx[h] + 1, Stride: 1, Deadline: time.Now().Add(60 * time.Second).Unix(),
			Progress: filepath.Join(scratch, "progress-det"), Points: points}
		out, _, _, _ := sub("worker", sp, nil, 90*time.Second)
		var o workerOut
		if out != nil && json.Unmarshal(out, &o) == nil {
			for i, v := range o.LogHash {
				n++
				if want[i] != v {
					bad = fmt.Sprintf("run %d of %s", i, id)
				}
			}
		}
		g = h + 1
	}
	return n, bad
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

func crashLine(se string) string {
	var out []string
	for _, l := range strings.Split(se, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 6 {
			break
		}
	}
	if len(out) == 0 {
		return "process died: " + tail(se)
	}
	return strings.Join(out, " | ")
}

// ---------------------------------------------------------------- known findings

type knownFinding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func loadKnown(path string) knownFile {
	var k knownFile
	if b, err := os.ReadFile(path); err == nil {
		json.Unmarshal(b, &k)
	}
	return k
}

func (k knownFile) match(prop string, v *Violation) string {
	for _, f := range k.Findings {
		if f.Property == prop && f.Kind == v.Kind && f.Contains != "" && strings.Contains(v.Msg, f.Contains) {
			return f.What
		}
	}
	return ""
}

// ---------------------------------------------------------------- evidence

func writeEvidence(p *Prop, tier string, base uint64, a *workerOut, sigs, scheds map[uint64]struct{}, hits map[int]struct{}, search time.Duration, start time.Time, planned, nviol, detN int, detBad, outDir string) {
	if tier != "thorough" {
		tier = "quick"
	}
	type kv struct {
		K string
		N int
	}
	var dims []kv
	for k, n := range a.Dims {
		dims = append(dims, kv{k, n})
	}
	sort.Slice(dims, func(i, j int) bool { return dims[i].N > dims[j].N || dims[i].N == dims[j].N && dims[i].K < dims[j].K })
	dimCounts := map[string]int{}
	for i := 0; i < len(dims) && i < 60; i++ {
		dimCounts[dims[i].K] = dims[i].N
	}
	// three actual runs, written out
	samples := []any{}
	for _, i := range []int{1, planned / 2, planned - 1} {
		in, _ := json.Marshal(oneSpec{Prop: p.ID, Seed: seedFor(base, p.ID, i), Points: os.Getenv("SIM_POINTS"), Trace: true})
		out, _, _, _ := sub("one", nil, in, 60*time.Second)
		var o oneOut
		if out != nil && json.Unmarshal(out, &o) == nil {
			tr := o.Trace
			for k := range tr {
				tr[k] = clipN(tr[k], 160)
			}
			if len(tr) > 24 {
				tr = append(append([]string{}, tr[:16]...), append([]string{fmt.Sprintf("... %d more events ...", len(tr)-24)}, tr[len(tr)-8:]...)...)
			}
			samples = append(samples, map[string]any{"seed_index": i, "dimensions": o.Dims, "faults": o.Faults, "decisions": Total(o.Recorded), "history": tr})
		}
	}
	hours := search.Hours()
	perHour := func(n int) float64 {
		if hours <= 0 {
			return 0
		}
		return float64(int(float64(n) / hours))
	}
	if f := os.Getenv("SIM_HITS"); f != "" { // for finding code no check reaches
		names := map[string]bool{}
		for i, n := range PointNames {
			_, names[n] = hits[i]
		}
		b, _ := json.Marshal(names)
		os.WriteFile(f, b, 0o644)
	}
	covered := map[string]int{}
	for h := range hits {
		n := PointName(h)
		if i := strings.Index(n, ":"); i > 0 {
			covered[n[:i]]++
		}
	}
	total := map[string]int{}
	for _, n := range PointNames {
		if i := strings.Index(n, ":"); i > 0 {
			total[n[:i]]++
		}
	}
	cov := map[string]string{}
	for f, n := range covered {
		cov[f] = fmt.Sprintf("%d/%d", n, total[f])
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": base, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":                a.Runs,
			"distinct_nontrivial":        len(sigs),
			"rule":                       p.Rule,
			"samples":                    samples,
			"runs_planned":               planned,
			"time_cap_hit":               a.Timeout,
			"runs_and_seeds_per_hour":    perHour(a.Runs),
			"simulated_seconds":          float64(a.SimNanos) / 1e9,
			"steps":                      a.Steps,
			"scheduling_decisions":       a.SchedN,
			"distinct_interleavings":     len(scheds),
			"dimension_counts":           dimCounts,
			"faults_injected":            a.Faults,
			"statements_reached_by_file": cov,
			"components_real":            p.Real,
			"components_stubbed":         p.Stub,
			"determinism_runs_rechecked": detN,
			"determinism_runs_differing": map[bool]int{true: 0, false: 1}[detBad == ""],
			"runs_leaving_goroutines":    a.Leaks,
			"go_maxprocs_per_worker":     1,
			"search_wall_s":              search.Seconds(),
			"known_findings_met":         a.Known,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
	}
	if len(p.Assume) == 0 {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(outDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0o644)
}

var _ = io.EOF
