package props

import (
	"os"
	"path/filepath"
	"runtime/debug"

	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/stepfile"

	"verif/sim/core"
)

func init() {
	reg("C12", "Closed or failed operations leave nothing running",
		cfg{quick: 120000, thorough: 2000000, leak: true, budget: 200_000_000}, c12)
}

// c12 opens, partly uses and closes readers and writers, and reuses the other
// scenarios' operations, judging only that everything returns and that no
// goroutine is left blocked.
func c12(w *core.World) {
	w.Only("panic", "deadlock", "no-progress", "goroutine-leak", "open-leak", "close-failed", "handle-leak")
	s := w.C.Src("gen")
	pick := s.Weighted(12, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1)
	w.Dim("op%d", pick)
	switch pick {
	case 0:
		c12reader(w, s)
	case 1:
		c12writer(w, s)
	case 2:
		c12refused(w, s)
	case 3:
		c02(w)
	case 4:
		c05(w)
	case 5:
		c06(w)
	case 6:
		c07(w)
	case 7:
		c08(w)
	case 8:
		c09(w)
	case 9:
		c10(w)
	case 10:
		c12files(w, s)
	}
}

func c12reader(w *core.World, s *core.Src) {
	b := core.GenBody(w, core.BodyOpts{})
	if b.Comp == "" && b.Format != "xlsx" && s.Chance(1, 2) {
		b = retarget(s, b, b.Format, core.Pick(s, "zst", "zstd", "gzip"))
	}
	schedFor(w, b.Comp)
	data := core.RefEncode(w, b)
	plan := w.GenFrag("body")
	if s.Chance(1, 2) {
		plan = w.WithFault("body", plan, len(data), core.RTruncate, core.RError, core.RGlitch)
	}
	src := w.NewReader("body", data, plan)
	st := core.CloneStructure(b.St)
	r, err := dsio.NewEntryReader(st, src)
	if err != nil {
		return // nothing to close: whatever was started must be gone
	}
	n := s.Intn(len(b.Entries) + 2)
	w.Event("read %d of %d", n, len(b.Entries))
	var er dsio.EntryReader = r
	switch s.Weighted(4, 1, 1) {
	case 0:
		for i := 0; i < n; i++ {
			if _, err := er.ReadEntry(); err != nil {
				break
			}
		}
	case 1:
		er = &dsio.PagedReader{Reader: r, Offset: s.Intn(n + 1), Limit: n}
		for {
			if _, err := er.ReadEntry(); err != nil {
				break
			}
		}
	case 2:
		dsio.EachEntry(r, func(i int, e dsio.Entry, err error) error {
			if i >= n {
				return core.ErrInjected
			}
			return nil
		})
	}
	err = er.Close()
	if err != nil && !src.Fired() && plan.Fault == core.RNone && !(b.Comp == "gz" || b.Comp == "gzip") {
		w.Fail("close-failed", "closing a reader of a healthy %s %s body after %d entries: %v", b.Format, b.Comp, n, err)
	}
	if s.Chance(1, 3) {
		er.Close()
	}
}

func c12writer(w *core.World, s *core.Src) {
	b := core.GenBody(w, core.BodyOpts{})
	if b.Comp == "" && b.Format != "xlsx" && s.Chance(2, 3) {
		b = retarget(s, b, b.Format, core.Pick(s, "zst", "zstd", "gzip"))
	}
	if s.Chance(1, 2) {
		w.Concurrent(false, 0)
	}
	sink := w.NewFaultyWriter("sink", 64+s.Intn(4000))
	wr, err := dsio.NewEntryWriter(core.CloneStructure(b.St), sink)
	if err != nil {
		return
	}
	n := s.Intn(len(b.Entries) + 1)
	for _, e := range b.Entries[:n] {
		if err := wr.WriteEntry(copyEntry(e)); err != nil && s.Chance(1, 2) {
			break
		}
	}
	wr.Close()
}

// c12refused opens bodies that cannot be opened.
func c12refused(w *core.World, s *core.Src) {
	b := core.GenBody(w, core.BodyOpts{})
	if b.Format == "xlsx" {
		return
	}
	comp := core.Pick(s, "zst", "zstd", "gzip", "gz", "lz4")
	st := core.CloneStructure(b.St)
	st.Compression = comp
	switch s.Intn(5) {
	case 0:
		st.Schema = nil
	case 1:
		st.Schema = map[string]interface{}{"type": core.Pick[interface{}](s, "string", 3, nil, []interface{}{"array"}, "integer")}
	case 2:
		st.Schema = map[string]interface{}{"type": core.Pick(s, "array", "object"), "items": map[string]interface{}{"type": "array", "items": core.Pick[interface{}](s, nil, "x", []interface{}{3}, []interface{}{})}}
	case 3:
		st.Format = core.Pick(s, "", "html", "cbor", "csv", "json", "ndjson", "xml")
	}
	var data []byte
	if s.Chance(1, 2) && comp != "lz4" {
		data = core.Compress(comp, core.RefEncodePlain(w, b))
	} else {
		data = core.RefEncodePlain(w, b)
	}
	schedFor(w, "zst")
	plan := w.GenFrag("body")
	if s.Chance(1, 2) {
		plan = w.WithFault("body", plan, len(data), core.RTruncate, core.RError)
	}
	w.Event("refused %s %s", st.Format, st.Compression)
	if s.Chance(1, 4) {
		if wr, err := dsio.NewEntryWriter(st, w.NewWriter("sink")); err == nil {
			wr.Close()
		}
		return
	}
	var r dsio.EntryReader
	var err error
	if s.Chance(1, 4) && !zst(comp) { // buffers of zstd bodies are a known finding of C01
		r, err = dsio.NewEntryBuffer(st)
		if err != nil {
			return
		}
		r.Close()
		return
	}
	r, err = dsio.NewEntryReader(st, w.NewReader("body", data, plan))
	if err != nil {
		w.Fault("open-refused")
		return
	}
	for i := 0; i < 3; i++ {
		if _, err := r.ReadEntry(); err != nil {
			break
		}
	}
	r.Close()
}

// c12files lets operations that open files of their own open some, and counts
// the file handles the process is left with.
func c12files(w *core.World, s *core.Src) {
	dir, err := os.MkdirTemp(os.Getenv("SIM_SCRATCH"), "rel")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	b := core.GenBody(w, core.BodyOpts{MaxRows: 20})
	schedFor(w, b.Comp)
	data := core.RefEncode(w, b)
	if s.Chance(1, 3) {
		data = data[:s.Intn(len(data)+1)]
	}
	p := filepath.Join(dir, core.Pick(s, fileName(b), fileName(b), "body", "body.csv", "body.json.gzip", "body.txt"))
	if os.WriteFile(p, data, 0o644) != nil {
		return
	}
	if s.Chance(1, 6) {
		p = core.Pick(s, dir, p+".json", p+"/x.csv")
	}
	// a finalizer must not close what the operation left open
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	before := handles()
	what := "detecting a structure"
	if s.Chance(1, 3) {
		what = "reading a step file"
		_, err = stepfile.ReadFile(p)
	} else {
		_, err = detect.FromFile(p)
	}
	w.NonTrivial()
	w.Event("%s -> %v", what, err != nil)
	if n := handles(); n > before {
		w.Fail("handle-leak", "%s left %d file handles open (error: %v)", what, n-before, err)
	}
}

func handles() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(es)
}
