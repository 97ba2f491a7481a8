package props

import (
	"fmt"
	"io"

	"github.com/qri-io/dataset/dsio"

	"verif/sim/core"
)

func init() {
	reg("C02", "A failing or cut-short source is never mistaken for a complete body",
		cfg{quick: 200000, thorough: 4000000, assume: []string{
			"a source never returns (0, nil) below a zstd decoder: the zstd library takes that for the end of a frame",
			"the zstd library takes a stream that ends within its first bytes, up to its header, for an empty one, so such cuts are not required to fail for CSV and NDJSON",
			"a cut at the end of a line of plain CSV or NDJSON cannot be told from a complete body, so such cuts only have to deliver every complete row",
			"a plain JSON body cut in the middle of its last value may deliver a shortened last value before the failure is reported: the repository's tests pin that behaviour",
		}}, c02)
}

// faultySource draws a fault and builds the source for an encoded body.
func faultySource(w *core.World, b *core.Body, data []byte) *core.Reader {
	plan := w.WithFault("body", w.GenFrag("body"), len(data), core.RTruncate, core.RError, core.RGlitch)
	if zst(b.Comp) && plan.Err == io.ErrUnexpectedEOF {
		// the zstd library reports this error at a frame boundary as the end
		plan.Err = core.ErrInjected
	}
	w.Dim("fault%d", plan.Fault)
	return w.NewReader("body", data, plan)
}

// judgeRead decides whether what a reader delivered from a possibly failing
// source is acceptable. ended is true when it reported a clean end.
func judgeRead(w *core.World, b *core.Body, src *core.Reader, got []dsio.Entry, err error) {
	want := b.Expected()
	ended := err == io.EOF
	p := src.Plan
	plainText := b.Comp == "" && (b.Format == "csv" || b.Format == "ndjson")
	cut := p.Fault == core.RTruncate && p.At < len(src.Data)
	if !cut && p.Fault != core.RError && p.Fault != core.RGlitch {
		// nothing went wrong at all
		if !ended {
			w.Fail("read-failed", "reading a healthy %s %s body failed after %d of %d entries: %v", b.Format, b.Comp, len(got), len(want), err)
		}
		if d := core.CompareEntries(b, want, got, false); d != "" {
			w.Fail("wrong-entries", "%s %s body: %s", b.Format, b.Comp, d)
		}
		return
	}
	relaxed := cut && b.Comp == "" && (b.Format == "json" || plainText)
	exact := got
	if relaxed && len(got) > 0 {
		// the entry at the cut may be shortened
		if len(got) > len(want)+1 || len(got) > len(want) && b.Format != "json" {
			w.Fail("invented-entry", "%d entries read from a cut %s body of %d", len(got), b.Format, len(want))
		}
		exact = got[:len(got)-1]
		if i := len(exact); i < len(want) && !b.AnyOrder && core.DiffValue(want[i].Value, got[i].Value) != "" {
			if d := shortened(b.Format, want[i], got[i]); d != "" {
				w.Fail("wrong-last-entry", "%s body cut at byte %d: %s", b.Format, p.At, d)
			}
		}
	}
	if d := core.CompareEntries(b, want, exact, true); d != "" {
		w.Fail("wrong-prefix", "%s %s body with a failing source (%s): %s", b.Format, b.Comp, p.String(), d)
	}
	if relaxed && plainText {
		n := 0
		for n < len(b.Ends) && b.Ends[n] <= p.At {
			n++
		}
		if len(got) < n && ended {
			w.Fail("rows-lost", "%s body cut at byte %d holds %d complete rows, %d were read before a clean end", b.Format, p.At, n, len(got))
		}
		if len(got) <= n {
			if d := core.CompareEntries(b, want, got, true); d != "" {
				w.Fail("wrong-prefix", "cut %s body: %s", b.Format, d)
			}
		}
		if b.Format == "ndjson" && ended && len(got) == n && n < len(want) {
			start := 0
			if n > 0 {
				start = b.Ends[n-1]
			}
			if p.At > start {
				w.Fail("partial-line-dropped", "NDJSON body cut at byte %d, inside line %d, ended cleanly without that line", p.At, n)
			}
		}
		return
	}
	if !ended {
		return
	}
	if cut && p.At <= 8 && zst(b.Comp) && len(got) == 0 && (b.Format == "csv" || b.Format == "ndjson") {
		return // the zstd library takes a stream cut in its first bytes, up to its header, for an empty one
	}
	if len(got) != len(want) {
		w.Fail("silent-truncation", "%s %s body with a failing source (%s) ended cleanly after %d of %d entries", b.Format, b.Comp, p.String(), len(got), len(want))
	}
	if src.Fired() && p.Fault == core.RError && !b.SelfDelimiting() {
		w.Fail("error-swallowed", "%s body: the source failed (%s) and the reader reported a clean end", b.Format, p.String())
	}
	if cut && b.Comp == "" {
		// json and cbor: the closing token was never delivered
		if b.Format == "cbor" && p.At >= len(src.Data) {
			return
		}
		plainEnd := len(src.Data)
		for plainEnd > 0 && b.Format == "json" && (src.Data[plainEnd-1] == '\n' || src.Data[plainEnd-1] == ' ' || src.Data[plainEnd-1] == '\t') {
			plainEnd--
		}
		if p.At < plainEnd {
			w.Fail("silent-truncation", "%s body cut at byte %d of %d ended cleanly", b.Format, p.At, len(src.Data))
		}
	}
}

func c02(w *core.World) {
	s := w.C.Src("gen")
	b := core.GenBody(w, core.BodyOpts{Huge: true})
	schedFor(w, b.Comp)
	data := core.RefEncode(w, b)
	src := faultySource(w, b, data)
	w.Event("body %s %s %d entries %d bytes %s", b.Format, b.Comp, len(b.Entries), len(data), src.Plan.String())
	r, err := newReader(w, b, src)
	if err != nil {
		if !src.Fired() {
			w.Fail("reader", "opening a healthy %s %s body: %v", b.Format, b.Comp, err)
		}
		return
	}
	var got []dsio.Entry
	variant := s.Weighted(5, 2, 2, 1)
	w.Dim("read%d", variant)
	want := b.Expected()
	switch variant {
	case 0:
		got, err = drain(w, r, len(want)+1)
	case 1:
		var all interface{}
		all, err = dsio.ReadAll(r)
		if err == nil {
			err = io.EOF
			if m, ok := all.(map[string]interface{}); ok {
				b.AnyOrder = true
				for _, k := range core.SortedKeys(m) {
					got = append(got, dsio.Entry{Key: k, Value: m[k]})
				}
			} else {
				for i, v := range all.([]interface{}) {
					got = append(got, dsio.Entry{Index: i, Value: v})
				}
			}
		}
	case 2:
		err = dsio.EachEntry(r, func(i int, e dsio.Entry, err error) error {
			if i != len(got) {
				w.Fail("row-number", "callback %d was told row %d", len(got), i)
			}
			got = append(got, e)
			return nil
		})
		if err == nil {
			err = io.EOF
		}
	case 3:
		st := core.CloneStructure(b.St)
		st.Compression = ""
		out := &memWriter{st: st}
		err = dsio.Copy(r, out)
		got = out.es
		if err == nil {
			err = io.EOF
		}
	}
	r.Close()
	judgeRead(w, b, src, got, err)
}

// shortened tells whether got is what a cut in the text of an entry can leave
// of it: a number with fewer digits, nothing, or a row that ends early.
func shortened(format string, want, got dsio.Entry) string {
	wrong := func(what string) string {
		return fmt.Sprintf("the last entry is %s, %s of %s", core.Show(got.Value), what, core.Show(want.Value))
	}
	number := func(v interface{}) bool {
		switch v.(type) {
		case int64, float64:
			return true
		}
		return false
	}
	if want.Key != got.Key {
		return wrong("another entry than that of key " + core.Show(want.Key) + ",")
	}
	switch format {
	case "json":
		if got.Value == nil || number(got.Value) && number(want.Value) {
			return ""
		}
		return wrong("no number cut short")
	case "ndjson":
		if number(got.Value) && number(want.Value) {
			return ""
		}
		return wrong("no number cut short")
	}
	row, ok := got.Value.([]interface{})
	full := want.Value.([]interface{})
	if !ok || len(row) > len(full) {
		return wrong("no part")
	}
	for i := range row {
		if i < len(row)-1 && core.DiffValue(full[i], row[i]) != "" {
			return wrong("no beginning")
		}
	}
	return ""
}
