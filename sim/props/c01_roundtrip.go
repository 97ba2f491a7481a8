package props

import (
	"io"

	"github.com/qri-io/dataset/dsio"

	"verif/sim/core"
)

func init() {
	reg("C01", "Write then read returns the same entries in every format",
		cfg{quick: 100000, thorough: 1500000}, c01)
}

func c01(w *core.World) {
	s := w.C.Src("gen")
	b := core.GenBody(w, core.BodyOpts{Huge: true})
	schedFor(w, b.Comp)
	deepen01(w, s, b)
	want := b.Expected()
	b.AnyOrder = b.Format == "cbor" && b.TLT == "object"
	variant := s.Weighted(6, 2, 1)
	unopened := b.Comp != "" || b.Format == "xlsx" // readers that need bytes to be opened
	if variant == 2 && unopened && !s.Chance(1, 40) {
		variant = 0
	}
	w.Dim("variant%d", variant)
	if variant == 0 && s.Chance(1, 60) {
		impossible01(w, s, b)
		return
	}
	var got []dsio.Entry
	var err error
	if variant == 2 {
		// in-memory buffer: write, close, read back
		buf, e := dsio.NewEntryBuffer(pastOf(w, b.St))
		if e != nil && unopened {
			w.Fail("buffer-unopened", "an entry buffer of a %s %s body can't be used: %v", b.Format, b.Comp, e)
		}
		if e != nil {
			w.Fail("buffer", "creating entry buffer for %s: %v", b.Format, e)
		}
		writeAll(w, buf, b)
		if e := buf.Close(); e != nil {
			w.Fail("close-failed", "closing buffer: %v", e)
		}
		checkStandard(w, b, buf.Bytes())
		got, err = drain(w, buf, len(want))
		if unopened && (err != io.EOF || len(got) != len(want)) {
			w.Fail("buffer-unopened", "an entry buffer of a %s %s body can't be used: %d of %d entries read, %v", b.Format, b.Comp, len(got), len(want), err)
		}
	} else {
		sink := w.NewWriter("sink")
		var wr dsio.EntryWriter
		var e error
		if b.Format == "json" && b.St.FormatConfig["pretty"] == true {
			wr, e = dsio.NewJSONPrettyWriter(pastOf(w, b.St), sink, core.Pick(s, " ", "  ", "\t"))
		} else {
			wr, e = dsio.NewEntryWriter(pastOf(w, b.St), sink)
		}
		if e != nil {
			w.Fail("writer", "creating %s writer: %v", b.Format, e)
		}
		writeAll(w, wr, b)
		if e := wr.Close(); e != nil {
			w.Fail("close-failed", "closing %s writer on a healthy sink: %v", b.Format, e)
		}
		w.Event("body %s %s %d entries %d bytes", b.Format, b.Comp, len(b.Entries), len(sink.Data))
		checkStandard(w, b, sink.Data)
		src := w.NewReader("body", sink.Data, w.GenFrag("body"))
		r, e := newReader(w, b, src)
		if e != nil {
			w.Fail("reader", "opening a healthy %s %s body: %v", b.Format, b.Comp, e)
		}
		if variant == 1 {
			all, e := dsio.ReadAll(r)
			if e != nil {
				w.Fail("read-failed", "reading a healthy %s body: %v", b.Format, e)
			}
			if b.TLT == "object" {
				m, _ := all.(map[string]interface{})
				for _, k := range core.SortedKeys(m) {
					got = append(got, dsio.Entry{Key: k, Value: m[k]})
				}
				if len(got) != len(want) {
					w.Fail("round-trip", "%d keys read, %d written", len(got), len(want))
				}
				for _, e := range want {
					if d := core.DiffValue(e.Value, m[e.Key]); d != "" {
						w.Fail("round-trip", "key %s%s", core.Show(e.Key), d)
					}
				}
				if e := r.Close(); e != nil {
					w.Fail("close-failed", "closing reader: %v", e)
				}
				return
			}
			arr, _ := all.([]interface{})
			for i, v := range arr {
				got = append(got, dsio.Entry{Index: i, Value: v})
			}
			err = io.EOF
		} else {
			got, err = drain(w, r, len(want))
		}
		if e := r.Close(); e != nil {
			w.Fail("close-failed", "closing reader of a healthy %s %s body: %v", b.Format, b.Comp, e)
		}
	}
	if err != io.EOF {
		w.Fail("read-failed", "reading back a healthy %s %s body failed after %d of %d entries: %v", b.Format, b.Comp, len(got), len(want), err)
	}
	if d := core.CompareEntries(b, want, got, false); d != "" {
		w.Fail("round-trip", "%s %s body: %s", b.Format, b.Comp, d)
	}
	if b.TLT == "array" && b.Format != "csv" {
		for i, e := range got {
			if e.Index != i {
				w.Fail("index", "%s entry %d carries index %d", b.Format, i, e.Index)
			}
		}
	}
}

// deepen01 now and then nests a value of the body deeply.
func deepen01(w *core.World, s *core.Src, b *core.Body) {
	if len(b.Entries) == 0 || b.Format != "json" && b.Format != "cbor" && b.Format != "ndjson" || !s.Chance(1, 60) {
		return
	}
	depth := core.Pick(s, 40, 100, 200, 260, 500, 600, 1000, 1100, 2000, 5000, 9900)
	if b.St.FormatConfig["pretty"] == true {
		depth = min(depth, 600) // indentation grows with every level
	}
	v := core.Pick[interface{}](s, int64(7), "x", nil, []interface{}{}, map[string]interface{}{})
	how := s.Intn(3)
	for i := 0; i < depth; i++ {
		if how == 0 || how == 2 && i%2 == 0 {
			v = []interface{}{v}
		} else {
			v = map[string]interface{}{"d": v}
		}
	}
	b.Entries[s.Intn(len(b.Entries))].Value = v
	w.Dim("deep:%d/%d", depth, how)
}

// newReader opens a reader, sometimes with an explicit buffer size.
func newReader(w *core.World, b *core.Body, src io.Reader) (dsio.EntryReader, error) {
	s := w.C.Src("gen")
	st := pastOf(w, b.St)
	if s.Chance(1, 3) {
		size := core.Pick(s, 4096, 4097, 8192, 16384)
		switch b.Format {
		case "json":
			return dsio.NewJSONReaderSize(st, src, size)
		case "csv":
			return dsio.NewCSVReaderSize(st, src, core.Pick(s, 16, 64, 4096, size))
		}
	}
	return dsio.NewEntryReader(st, src)
}

// impossible01 asks for a writer whose structure nobody can honour. Either
// there is none, or what it writes is what the structure says.
func impossible01(w *core.World, s *core.Src, b *core.Body) {
	st := core.CloneStructure(b.St)
	if b.Format == "xlsx" {
		st.Compression = core.Pick(s, "gzip", "zst", "gz", "zip")
		if s.Chance(1, 3) {
			st.Compression = b.Comp
			st.FormatConfig = map[string]interface{}{"sheetName": core.Pick[interface{}](s, 3, true, []interface{}{})}
		}
	} else {
		st.Compression = core.Pick(s, "bogus", "zip", "lz4", "GZIP", "none", "bz2", " gzip")
	}
	w.Dim("impossible:%s", st.Compression)
	sink := w.NewWriter("sink")
	wr, err := dsio.NewEntryWriter(st, sink)
	if err != nil {
		if _, err := dsio.NewEntryReader(st, w.NewReader("body", core.RefEncode(w, b), w.GenFrag("body"))); err == nil && b.Format != "xlsx" {
			w.Fail("compression-ignored", "a reader of %s data with compression %q exists, a writer does not", b.Format, st.Compression)
		}
		return
	}
	writeAll(w, wr, b)
	if wr.Close() != nil {
		return
	}
	nb := *b
	nb.Comp = st.Compression
	checkStandard(w, &nb, sink.Data)
}
