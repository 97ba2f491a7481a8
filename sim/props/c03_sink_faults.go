package props

import (
	"bytes"
	"io"
	"math"
	"strings"

	"github.com/qri-io/dataset/dsio"

	"verif/sim/core"
)

func init() {
	reg("C03", "A failing sink is always reported before the writer claims success",
		cfg{quick: 150000, thorough: 4000000}, c03)
	reg("C04", "A refused entry leaves the rest of the body intact",
		cfg{quick: 150000, thorough: 4000000}, c04)
}

// newWriter opens a writer the way users do.
func newWriter(w *core.World, b *core.Body, sink io.Writer) dsio.EntryWriter {
	s := w.C.Src("gen")
	var wr dsio.EntryWriter
	var e error
	if b.Format == "json" && b.St.FormatConfig["pretty"] == true {
		wr, e = dsio.NewJSONPrettyWriter(core.CloneStructure(b.St), sink, core.Pick(s, " ", "  ", "\t"))
	} else {
		wr, e = dsio.NewEntryWriter(core.CloneStructure(b.St), sink)
	}
	if e != nil {
		w.Fail("writer", "creating %s writer: %v", b.Format, e)
	}
	return wr
}

func c03(w *core.World) {
	s := w.C.Src("gen")
	variant := s.Weighted(3, 2, 2)
	b := core.GenBody(w, core.BodyOpts{NoBytes: variant == 2, Huge: true})
	// about how long the output will be, so that the fault lands anywhere
	size := len(core.RefEncode(w, b))
	sink := w.NewFaultyWriter("sink", size)
	w.Dim("sink%d", sink.Fault)
	w.Dim("write%d", variant)
	w.Event("body %s %s %d entries, sink fault %d at %d", b.Format, b.Comp, len(b.Entries), sink.Fault, sink.At)
	wr := newWriter(w, b, sink)
	failed := false
	switch variant {
	case 0, 1: // 0 gives up at the first error, 1 carries on
		for i, e := range b.Entries {
			if err := wr.WriteEntry(copyEntry(e)); err != nil {
				w.Event("write of entry %d: %v", i, err)
				if !sink.Fired() {
					w.Fail("write-refused", "writing valid %s entry %d to a healthy sink failed: %v", b.Format, i, err)
				}
				failed = true
				if variant == 0 {
					break
				}
			}
		}
	case 2: // copying from a reader
		src, err := dsio.NewEntryReader(core.CloneStructure(plainJSON(b)), bytes.NewReader(core.RefEncodePlain(w, asJSON(b))))
		if err != nil {
			w.Fail("reader", "%v", err)
		}
		if err := dsio.Copy(src, wr); err != nil {
			w.Event("copy: %v", err)
			if !sink.Fired() {
				w.Fail("write-refused", "copying to a healthy %s sink failed: %v", b.Format, err)
			}
			failed = true
		}
	}
	if err := wr.Close(); err != nil {
		w.Event("close: %v", err)
		if !sink.Fired() {
			w.Fail("close-failed", "closing a %s writer on a healthy sink: %v", b.Format, err)
		}
		failed = true
	}
	if sink.Fired() && !failed {
		w.Fail("lost-write", "the sink failed (fault %d at byte %d) while writing a %s %s body of %d entries and neither the writes nor Close reported it",
			sink.Fault, sink.At, b.Format, b.Comp, len(b.Entries))
	}
	if !failed {
		checkStandard(w, b, sink.Data)
	}
}

func c04(w *core.World) {
	s := w.C.Src("gen")
	b := core.GenBody(w, core.BodyOpts{MaxRows: 60})
	schedFor(w, b.Comp)
	sink := w.NewWriter("sink")
	wr := newWriter(w, b, sink)
	refuse := func(pos int) {
		e := badEntry(s, b, pos)
		if e == nil {
			return
		}
		w.Fault("entry-refused")
		if err := wr.WriteEntry(*e); err == nil {
			w.Fail("bad-entry-accepted", "%s writer accepted an entry it cannot represent: %s", b.Format, core.Show(e.Value))
		}
	}
	for i, e := range b.Entries {
		for s.Chance(1, 4) {
			refuse(i)
		}
		if err := wr.WriteEntry(copyEntry(e)); err != nil {
			w.Fail("write-refused", "valid %s entry %d refused: %v", b.Format, i, err)
		}
	}
	for s.Chance(1, 3) {
		refuse(len(b.Entries))
	}
	if err := wr.Close(); err != nil {
		w.Fail("close-failed", "closing a %s writer after refused entries: %v", b.Format, err)
	}
	b.AnyOrder = b.Format == "cbor" && b.TLT == "object"
	checkStandard(w, b, sink.Data)
	r, err := newReader(w, b, w.NewReader("body", sink.Data, w.GenFrag("body")))
	if err != nil {
		w.Fail("reader", "opening the %s body: %v", b.Format, err)
	}
	want := b.Expected()
	got, err := drain(w, r, len(want))
	if err != io.EOF {
		w.Fail("read-failed", "the %s body written around refused entries fails after %d of %d entries: %v", b.Format, len(got), len(want), err)
	}
	r.Close()
	if d := core.CompareEntries(b, want, got, false); d != "" {
		w.Fail("wrong-entries", "%s body written around refused entries: %s", b.Format, d)
	}
}

// badEntry makes an entry the writer must refuse, or nil.
func badEntry(s *core.Src, b *core.Body, pos int) *dsio.Entry {
	bad := []interface{}{make(chan int), math.NaN(), math.Inf(1), func() {}, map[string]interface{}{"a": make(chan int)}, []interface{}{int64(1), math.NaN()}, complex(1, 2)}
	v := bad[s.Intn(len(bad))]
	switch b.Format {
	case "json":
		if b.TLT == "object" {
			switch s.Weighted(2, 1, 1) {
			case 1:
				return &dsio.Entry{Key: "", Value: "x"}
			case 2:
				if pos > 0 {
					return &dsio.Entry{Key: b.Entries[s.Intn(pos)].Key, Value: "again"}
				}
			}
			// the key of the entry about to be written: its refusal must not
			// claim the key
			k := "refused"
			if pos < len(b.Entries) && s.Chance(1, 2) {
				k = b.Entries[pos].Key
			}
			return &dsio.Entry{Key: k, Value: v}
		}
		return &dsio.Entry{Index: pos, Value: v}
	case "ndjson":
		return &dsio.Entry{Index: pos, Value: v}
	case "cbor":
		v = core.Pick[interface{}](s, complex(1, 2), map[string]interface{}{"a": complex(1, 2)}, []interface{}{int64(1), complex(1, 2)})
		if b.TLT != "object" {
			return &dsio.Entry{Index: pos, Value: v}
		}
		if s.Chance(1, 2) {
			k := "refused"
			if pos < len(b.Entries) && s.Chance(1, 2) {
				k = b.Entries[pos].Key
			}
			return &dsio.Entry{Key: k, Value: v}
		}
		if pos > 0 && s.Chance(1, 2) {
			return &dsio.Entry{Key: b.Entries[s.Intn(pos)].Key, Value: "again"}
		}
		return &dsio.Entry{Key: "", Value: "x"}
	default:
		if s.Chance(1, 3) {
			if b.Format == "csv" && s.Chance(1, 4) {
				// a blank line is no row
				return &dsio.Entry{Index: pos, Value: []interface{}{}}
			}
			return &dsio.Entry{Index: pos, Value: core.Pick[interface{}](s, "not a row", int64(3), map[string]interface{}{"a": int64(1)}, nil)}
		}
		cell := core.Pick[interface{}](s, make(chan int), func() {}, map[string]interface{}{"a": make(chan int)}, []interface{}{int64(1), math.NaN()})
		if b.Format == "xlsx" && s.Chance(1, 2) {
			// more than a cell can hold, and what XML cannot hold
			cell = core.Pick[interface{}](s, strings.Repeat("x", 32768), strings.Repeat("é", 17000), "\x00", "a\x01", "\x1b[0m", "\ufffe", []interface{}{strings.Repeat("long ", 7000)})
		}
		row := []interface{}{}
		for i := 0; i < len(b.Cols); i++ {
			row = append(row, "z")
		}
		row[s.Intn(len(row))] = cell
		return &dsio.Entry{Index: pos, Value: row}
	}
}
