package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/dataset/validate"

	"verif/sim/core"
)

func init() {
	reg("C13", "Concurrent operations do not affect each other",
		cfg{quick: 24000, thorough: 1000000, budget: 400_000_000, assume: []string{
			"operations run concurrently on their own files and datasets; they share structures, schemas, entry values and the packages' globals, all of which they only read",
		}}, c13)
	reg("C14", "Entries handed over stay what they were",
		cfg{quick: 100000, thorough: 2000000}, c14)
}

var (
	baseArray  = core.DeepCopy(dataset.BaseSchemaArray).(map[string]interface{})
	baseObject = core.DeepCopy(dataset.BaseSchemaObject).(map[string]interface{})
)

// checkGlobals compares the package-level schemas with what they were.
func checkGlobals(w *core.World) {
	if d := core.DiffValue(baseArray, map[string]interface{}(dataset.BaseSchemaArray)); d != "" {
		defer func() { dataset.BaseSchemaArray = core.DeepCopy(baseArray).(map[string]interface{}) }()
		w.Fail("global-changed", "the shared base schema for arrays was changed%s", d)
	}
	if d := core.DiffValue(baseObject, map[string]interface{}(dataset.BaseSchemaObject)); d != "" {
		defer func() { dataset.BaseSchemaObject = core.DeepCopy(baseObject).(map[string]interface{}) }()
		w.Fail("global-changed", "the shared base schema for objects was changed%s", d)
	}
}

// opOn makes an operation over a body whose result is a text that must not
// depend on what else runs.
func opOn(w *core.World, s *core.Src, b *core.Body, st *dataset.Structure, name string) (string, func() string) {
	data := core.RefEncode(w, b)
	plan := w.GenFrag(name)
	script, _, _ := renderScript(s, len(b.Entries))
	newDs := func() *dataset.Dataset {
		ds := &dataset.Dataset{Name: name, Peername: "peer", Structure: st, Readme: &dataset.Readme{Format: "md"}, Viz: &dataset.Viz{Format: "html"}}
		ds.SetBodyFile(core.NewFile(w.NewReader(name, data, plan), "/sim/"+fileName(b)))
		ds.Readme.SetScriptFile(core.NewFile(w.NewReader(name+"r", []byte("# readme of "+name), plan), "/sim/readme.md"))
		ds.Viz.SetScriptFile(core.NewFile(w.NewReader(name+"v", []byte(script), plan), "/sim/viz.html"))
		return ds
	}
	asText := func(v interface{}, err error) string {
		if err != nil {
			return "error: " + err.Error()
		}
		j, err := json.Marshal(v)
		if err != nil {
			return "unmarshalable: " + err.Error()
		}
		return string(j)
	}
	kind := s.Weighted(4, 4, 2, 2, 2, 2, 2, 2, 1)
	switch kind {
	case 0:
		return "read", func() string {
			r, err := dsio.NewEntryReader(st, w.NewReader(name, data, plan))
			if err != nil {
				return "error: " + err.Error()
			}
			es, err := drain(w, r, len(b.Entries)+1)
			r.Close()
			if err != io.EOF {
				return fmt.Sprintf("error after %d: %v", len(es), err)
			}
			if d := core.CompareEntries(b, b.Expected(), es, false); d != "" {
				return "wrong entries: " + d
			}
			return "entries as written"
		}
	case 1:
		return "write", func() string {
			sink := w.NewWriter(name)
			wr, err := dsio.NewEntryWriter(st, sink)
			if err != nil {
				return "error: " + err.Error()
			}
			for _, e := range b.Entries {
				if err := wr.WriteEntry(e); err != nil {
					return "error: " + err.Error()
				}
			}
			if err := wr.Close(); err != nil {
				return "error: " + err.Error()
			}
			if b.Format == "xlsx" {
				checkStandard(w, b, sink.Data)
				return "xlsx"
			}
			if b.Format == "cbor" && b.TLT == "object" || b.Comp != "" {
				// the writer may choose the order of keys; compressors may choose their blocks
				checkStandard(w, b, sink.Data)
				return "checked"
			}
			return string(sink.Data)
		}
	case 2:
		return "stats", func() string {
			v, err := dsstats.Calculate(newDs())
			if err != nil {
				return "error: " + err.Error()
			}
			return asText(v.Stats, nil)
		}
	case 3:
		return "preview", func() string {
			ds := newDs()
			p, err := preview.Create(context.Background(), ds)
			if err != nil {
				return "error: " + err.Error()
			}
			rest, _ := io.ReadAll(ds.BodyFile())
			return fmt.Sprintf("%s / %s / body intact %v", p.Readme.Text, asText(p.Body, nil), bytes.Equal(rest, data))
		}
	case 4:
		return "detect", func() string {
			ds := newDs()
			ds.Structure = nil
			err := detect.Structure(ds)
			if err != nil {
				return "error: " + err.Error()
			}
			// the detected structure is the caller's own: using it must not
			// reach anybody else
			txt := asText(ds.Structure, nil)
			if ds.Structure.Schema != nil {
				ds.Structure.Schema["title"] = name
			}
			return txt
		}
	case 5:
		return "validate", func() string {
			r, err := dsio.NewEntryReader(st, w.NewReader(name, data, plan))
			if err != nil {
				return "error: " + err.Error()
			}
			ks, err := validate.EntryReader(r)
			r.Close()
			if err != nil {
				return "error: " + err.Error()
			}
			var l []string
			for _, k := range ks {
				l = append(l, fmt.Sprintf("%s %v %s", k.PropertyPath, core.Show(k.InvalidValue), k.Message))
			}
			sort.Strings(l)
			return strings.Join(l, "\n")
		}
	case 6:
		return "render", func() string {
			f, err := dsviz.Render(newDs())
			if err != nil {
				return "error: " + err.Error()
			}
			out, err := io.ReadAll(f)
			return asText(string(out), err)
		}
	case 7:
		out := &dataset.Structure{Format: "json", Schema: st.Schema}
		off, lim := window(s, len(b.Entries))
		all := s.Chance(1, 2)
		return "convert", func() string {
			d, err := dsio.ConvertFile(core.NewFile(w.NewReader(name, data, plan), "/sim/"+fileName(b)), st, out, lim, off, all)
			if err != nil {
				return "error: " + err.Error()
			}
			return string(d)
		}
	}
	return "identity", func() string {
		var in interface{}
		if b.TLT == "object" {
			m := map[string]interface{}{}
			for _, e := range b.Entries {
				m[e.Key] = e.Value
			}
			in = m
		} else {
			l := []interface{}{}
			for _, e := range b.Entries {
				l = append(l, e.Value)
			}
			in = l
		}
		r, err := dsio.NewIdentityReader(st, in)
		if err != nil {
			return "error: " + err.Error()
		}
		es, err := drain(w, r, len(b.Entries))
		if err != io.EOF {
			return "error: " + err.Error()
		}
		sort.Slice(es, func(i, j int) bool {
			if es[i].Key != es[j].Key {
				return es[i].Key < es[j].Key
			}
			return es[i].Index < es[j].Index
		})
		return core.Show(es)
	}
}

func c13(w *core.World) {
	s := w.C.Src("gen")
	w.Concurrent(true, core.Pick(s, 2, 8, 30, 120))
	w.NoEmptyReads()
	var b *core.Body
	k := 2 + s.Intn(3)
	shared := s.Chance(2, 3)
	type op struct {
		kind string
		fn   func() string
		solo string
		got  string
		b    *core.Body
		st   *dataset.Structure
		snap *dataset.Structure
	}
	var ops []*op
	for i := 0; i < k; i++ {
		if b == nil || !shared {
			if s.Chance(1, 2) {
				b = plainBody(w, 25)
			} else {
				b = core.GenBody(w, core.BodyOpts{MaxRows: 25, Small: true, NoBytes: true})
			}
			b.AnyOrder = b.Format == "cbor" && b.TLT == "object"
		}
		o := &op{b: b}
		if len(ops) > 0 && shared {
			o.st, o.snap = ops[0].st, ops[0].snap
		} else {
			o.st = core.CloneStructure(b.St)
			if s.Chance(1, 2) && b.Format != "csv" && b.Format != "xlsx" {
				o.st.Schema = dataset.BaseSchemaArray
				if b.TLT == "object" {
					o.st.Schema = dataset.BaseSchemaObject
				}
			}
			o.snap = core.CloneStructure(o.st)
		}
		o.kind, o.fn = opOn(w, s, b, o.st, fmt.Sprint("op", i))
		ops = append(ops, o)
		w.Dim("op:%s", o.kind)
	}
	soloFirst := s.Chance(1, 2)
	solo := func() {
		for _, o := range ops {
			o.solo = o.fn()
			w.Event("solo %s -> %d bytes", o.kind, len(o.solo))
		}
	}
	if soloFirst {
		solo()
	}
	var tasks []*core.Task
	for i, o := range ops {
		tasks = append(tasks, w.Go(fmt.Sprint("op", i), func() { o.got = o.fn() }))
	}
	for _, t := range tasks {
		t.Wait()
	}
	checkGlobals(w)
	for _, o := range ops {
		if !structEqual(o.st, o.snap) {
			w.Fail("shared-structure-changed", "operations (%s and others) on a shared structure changed it", o.kind)
		}
	}
	if !soloFirst {
		solo()
	}
	for _, o := range ops {
		if o.solo != o.got {
			w.Fail("interference", "%s of a %s %s body gives %s alone and %s next to %d other operations", o.kind, o.b.Format, o.b.Comp, core.Show(o.solo), core.Show(o.got), k-1)
		}
		if o.kind == "read" && o.got != "entries as written" {
			w.Fail("interference", "%s", o.got)
		}
	}
}

// vandalise overwrites everything reachable in a value its owner may change.
func vandalise(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		for i := range x {
			vandalise(x[i])
			x[i] = "overwritten"
		}
		return append(x, "appended")
	case map[string]interface{}:
		for _, k := range core.SortedKeys(x) {
			vandalise(x[k])
			x[k] = "overwritten"
		}
		x["added"] = true
	case []byte:
		for i := range x {
			x[i] = 0xee
		}
	}
	return v
}

// c14 keeps entries while reading goes on, and checks they stay what they were.
func c14(w *core.World) {
	s := w.C.Src("gen")
	b := core.GenBody(w, core.BodyOpts{MaxRows: 300})
	if s.Chance(1, 4) {
		given14(w, s, b)
		return
	}
	schedFor(w, b.Comp)
	data := core.RefEncode(w, b)
	plan := w.GenFrag("body")
	if s.Chance(1, 4) {
		plan = w.WithFault("body", plan, len(data), core.RTruncate, core.RError)
	}
	src := w.NewReader("body", data, plan)
	r, err := newReader(w, b, src)
	if err != nil {
		return
	}
	want := b.Expected()
	var kept, snap []dsio.Entry
	var vandals int
	rough := s.Chance(1, 2)
	for len(kept) <= len(want) {
		e, err := r.ReadEntry()
		if err != nil {
			break
		}
		snap = append(snap, copyEntry(e))
		if rough && s.Chance(1, 3) {
			e.Value = vandalise(e.Value)
			snap[len(snap)-1].Value = core.DeepCopy(e.Value)
			vandals++
		}
		kept = append(kept, e)
		if !rough && len(kept) <= len(want) && plan.Fault == core.RNone && !b.AnyOrder && !(b.Format == "cbor" && b.TLT == "object") {
			if d := core.DiffValue(want[len(kept)-1].Value, e.Value); d != "" {
				w.Fail("wrong-entry", "entry %d%s", len(kept)-1, d)
			}
		}
	}
	if s.Chance(1, 2) {
		r.Close()
	} else {
		defer r.Close()
	}
	// another body through the same package, for anything shared between readers
	if s.Chance(1, 3) {
		b2 := core.GenBody(w, core.BodyOpts{MaxRows: 30, Formats: []string{b.Format}, Comps: []string{""}})
		if r2, err := dsio.NewEntryReader(b2.St, w.NewReader("other", core.RefEncode(w, b2), w.GenFrag("other"))); err == nil {
			drain(w, r2, len(b2.Entries))
			r2.Close()
		}
	}
	for i := range data {
		data[i] = 'Z' // the source's memory is reused
	}
	for i := range kept {
		if kept[i].Key != snap[i].Key || kept[i].Index != snap[i].Index {
			w.Fail("entry-changed", "key or index of entry %d changed after it was returned", i)
		}
		if d := core.DiffValue(snap[i].Value, kept[i].Value); d != "" {
			w.Fail("entry-changed", "%s %s entry %d changed after it was returned%s", b.Format, b.Comp, i, d)
		}
	}
	if rough && plan.Fault == core.RNone {
		// untouched entries are right although others were overwritten
		if len(kept) != len(want) {
			w.Fail("entries-lost", "%d of %d entries read while earlier ones were being changed by their owner", len(kept), len(want))
		}
		byKey := map[string]interface{}{}
		for _, e := range want {
			byKey[e.Key] = e.Value
		}
		for i := range kept {
			v := want[i].Value
			if b.TLT == "object" {
				v = byKey[kept[i].Key]
			}
			if core.DiffValue(v, kept[i].Value) != "" && !touched(kept[i].Value) {
				w.Fail("entry-changed", "%s entry %d is wrong after other entries were changed by their owner%s", b.Format, i, core.DiffValue(v, kept[i].Value))
			}
		}
	}
}

// given14 is the side of those who take entries: entries are only looked at,
// and what was recorded of them stays when their owner changes them.
func given14(w *core.World, s *core.Src, b *core.Body) {
	st := core.CloneStructure(b.St)
	variant := s.Weighted(4, 2, 2, 2)
	if variant == 1 && (b.Comp != "" || b.Format == "xlsx") {
		variant = 0
	}
	if variant == 2 {
		b = statBody(w)
		st = core.CloneStructure(b.St)
	}
	if variant == 3 {
		// validation works on JSON, which has neither bytes nor infinities
		b = core.GenBody(w, core.BodyOpts{MaxRows: 300, NoBytes: true})
		st = core.CloneStructure(b.St)
	}
	w.Dim("given%d", variant)
	// reuse: one entry value for all rows, as a caller with a row buffer has
	give := func(what string, put func(dsio.Entry) error) (ok bool) {
		for i, e := range b.Entries {
			c := copyEntry(e)
			err := put(c)
			if d := core.DiffValue(e.Value, c.Value); d != "" {
				w.Fail("given-entry-changed", "%s changed entry %d%s", what, i, d)
			}
			if err != nil {
				return false
			}
			vandalise(c.Value)
		}
		return true
	}
	switch variant {
	case 0:
		sink := w.NewWriter("sink")
		faulty := s.Chance(1, 3)
		if faulty {
			sink = w.NewFaultyWriter("sink", 40+s.Intn(3000))
		}
		wr, err := dsio.NewEntryWriter(st, sink)
		if err != nil {
			w.Fail("writer", "%v", err)
		}
		ok := give("writing", wr.WriteEntry)
		err = wr.Close()
		if !faulty {
			if !ok || err != nil {
				w.Fail("write-refused", "writing entries changed afterwards by their owner failed: %v", err)
			}
			checkStandard(w, b, sink.Data)
		}
	case 1:
		buf, err := dsio.NewEntryBuffer(st)
		if err != nil {
			w.Fail("buffer", "%v", err)
		}
		if !give("buffering", buf.WriteEntry) {
			w.Fail("write-refused", "an entry buffer refused an entry")
		}
		if err := buf.Close(); err != nil {
			w.Fail("close-failed", "%v", err)
		}
		checkStandard(w, b, buf.Bytes())
	case 2:
		acc := dsstats.NewAccumulator(st)
		if !give("counting", acc.WriteEntry) {
			w.Fail("write-refused", "statistics refused an entry")
		}
		acc.Close()
		if d := diffStats(b, dsstats.ToMap(acc)); d != "" {
			w.Fail("recorded-changed", "statistics of entries changed afterwards by their owner: %s", d)
		}
	case 3:
		given := make([]dsio.Entry, len(b.Entries))
		for i, e := range b.Entries {
			given[i] = copyEntry(e)
		}
		if _, err := validate.EntryReader(&givenReader{st: st, es: given}); err != nil {
			w.Fail("validate", "validating entries in memory failed: %v", err)
		}
		for i, e := range b.Entries {
			if d := core.DiffValue(e.Value, given[i].Value); d != "" {
				w.Fail("given-entry-changed", "validating changed entry %d%s", i, d)
			}
		}
	}
	if !structEqual(st, b.St) {
		w.Fail("structure-changed", "taking entries changed the structure")
	}
	checkGlobals(w)
}

// givenReader hands out the entries it holds.
type givenReader struct {
	st *dataset.Structure
	es []dsio.Entry
	n  int
}

func (g *givenReader) Structure() *dataset.Structure { return g.st }

func (g *givenReader) ReadEntry() (dsio.Entry, error) {
	if g.n >= len(g.es) {
		return dsio.Entry{}, io.EOF
	}
	g.n++
	return g.es[g.n-1], nil
}

func (g *givenReader) Close() error { return nil }

// touched tells whether vandalise could have been here.
func touched(v interface{}) bool {
	switch x := v.(type) {
	case []interface{}:
		return len(x) > 0 && x[len(x)-1] == "appended"
	case map[string]interface{}:
		return x["added"] == true
	case []byte:
		return len(x) == 0 || x[0] == 0xee
	}
	return false
}
