package props

import (
	"bytes"
	"io"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"

	"verif/sim/core"
)

func init() {
	reg("C05", "A page holds exactly the requested window of entries",
		cfg{quick: 150000, thorough: 4000000}, c05)
	reg("C06", "A conversion is complete and faithful, or fails",
		cfg{quick: 120000, thorough: 3000000, assume: []string{
			"values are restricted to what both formats of a conversion can represent: CSV and XLSX cells hold no nulls, carriage returns or (XLSX) empty strings, JSON-like to NDJSON integers stay within 2^53",
		}}, c06)
}

// window draws an offset and a limit with a bias to the edges.
func window(s *core.Src, n int) (offset, limit int) {
	switch s.Weighted(4, 2, 1, 1) {
	case 0:
		offset = s.Intn(n + 1)
	case 1:
		offset = 0
	case 2:
		offset = n
	case 3:
		offset = n + s.Intn(5)
	}
	rest := max(0, n-offset)
	switch s.Weighted(4, 2, 1, 1, 1) {
	case 0:
		limit = s.Intn(rest + 1)
	case 1:
		limit = rest
	case 2:
		limit = rest + 1 + s.Intn(5)
	case 3:
		limit = 0
	case 4:
		limit = 1
	}
	return
}

func clipWindow(n, offset, limit int) (lo, hi int) {
	lo = min(n, offset)
	hi = min(n, lo+limit)
	return
}

// sub is a body holding entries [lo,hi).
func subBody(b *core.Body, lo, hi int) *core.Body {
	c := *b
	c.Entries = b.Entries[lo:hi]
	return &c
}

// mayBeShort tells whether entry i of a plain JSON-like body cut at a byte may
// be delivered shortened.
func mayBeShort(b *core.Body, src *core.Reader, i int) bool {
	p := src.Plan
	if b.Comp != "" || p.Fault != core.RTruncate || p.At >= len(src.Data) {
		return false
	}
	return b.Format != "cbor" && b.Format != "xlsx" && i < len(b.Ends) && b.Ends[i] >= p.At
}

func c05(w *core.World) {
	s := w.C.Src("gen")
	variant := s.Weighted(4, 2, 1, 3, 2, 1, 1)
	opts := core.BodyOpts{MaxRows: 300, Huge: true}
	if variant == 4 {
		opts.NoBytes, opts.SafeInt = true, true
	}
	b := core.GenBody(w, opts)
	schedFor(w, b.Comp)
	data := core.RefEncode(w, b)
	n := len(b.Entries)
	w.Dim("page%d", variant)
	open := func(src io.Reader) dsio.EntryReader {
		r, err := newReader(w, b, src)
		if err != nil {
			w.Fail("reader", "opening a healthy %s %s body: %v", b.Format, b.Comp, err)
		}
		return r
	}
	read := func(r dsio.EntryReader, lo, hi int) {
		got, err := drain(w, r, n)
		if err != io.EOF {
			w.Fail("page-failed", "page [%d,%d) of a healthy %s %s body of %d entries failed: %v", lo, hi, b.Format, b.Comp, n, err)
		}
		if d := core.CompareEntries(b, b.Entries[lo:hi], got, false); d != "" {
			w.Fail("wrong-window", "page [%d,%d) of a %s %s body of %d entries: %s", lo, hi, b.Format, b.Comp, n, d)
		}
		// the end of the page stays the end
		if e, err := r.ReadEntry(); err == nil {
			w.Fail("read-past-page", "after the end of page [%d,%d) another entry was produced: %s", lo, hi, core.Show(e.Value))
		}
		if err := r.Close(); err != nil {
			w.Fail("close-failed", "closing a page: %v", err)
		}
	}
	switch variant {
	case 0:
		off, lim := window(s, n)
		lo, hi := clipWindow(n, off, lim)
		read(&dsio.PagedReader{Reader: open(w.NewReader("body", data, w.GenFrag("body"))), Limit: lim, Offset: off}, lo, hi)
	case 1: // a page of a page
		off, lim := window(s, n)
		lo, hi := clipWindow(n, off, lim)
		off2, lim2 := window(s, hi-lo)
		lo2, hi2 := clipWindow(hi-lo, off2, lim2)
		inner := &dsio.PagedReader{Reader: open(w.NewReader("body", data, w.GenFrag("body"))), Limit: lim, Offset: off}
		read(&dsio.PagedReader{Reader: inner, Limit: lim2, Offset: off2}, lo+lo2, lo+hi2)
	case 2: // pages tile the body
		if n == 0 {
			return
		}
		size := 1 + s.Intn(n)
		if n/size > 12 {
			size = n/12 + 1
		}
		for off := 0; off < n; off += size {
			lo, hi := clipWindow(n, off, size)
			read(&dsio.PagedReader{Reader: open(w.NewReader("body", data, w.GenFrag("body"))), Limit: size, Offset: off}, lo, hi)
		}
	case 3: // a page over a failing source
		off, lim := window(s, n)
		lo, hi := clipWindow(n, off, lim)
		src := faultySource(w, b, data)
		r, err := newReader(w, b, src)
		if err != nil {
			if !src.Fired() {
				w.Fail("reader", "opening a healthy %s body: %v", b.Format, err)
			}
			return
		}
		pr := &dsio.PagedReader{Reader: r, Limit: lim, Offset: off}
		got, err := drain(w, pr, n+1)
		pr.Close()
		judgeWindow(w, b, src, lo, hi, got, err)
	case 4: // a window cut out as a body of its own
		off, lim := window(s, n)
		if s.Chance(1, 8) {
			off, lim = 0, 0
		}
		lo, hi := clipWindow(n, off, lim)
		o := retarget(s, b, b.Format, "")
		res, err := dsio.ConvertFile(core.NewFile(w.NewReader("body", data, w.GenFrag("body")), "/sim/body."+b.Format), core.CloneStructure(b.St), core.CloneStructure(o.St), lim, off, false)
		if err != nil {
			w.Fail("page-failed", "cutting window %d+%d out of a healthy %s %s body of %d entries: %v", off, lim, b.Format, b.Comp, n, err)
		}
		checkStandard(w, subBody(o, lo, hi), res)
	case 5: // page after page from one reader
		r := open(w.NewReader("body", data, w.GenFrag("body")))
		for at, k := 0, 0; at < n && k < 12; k++ {
			off, lim := s.Intn(3), 1+s.Intn(max(1, min(n, 40)))
			lo, hi := clipWindow(n-at, off, lim)
			got, err := drain(w, &dsio.PagedReader{Reader: r, Limit: lim, Offset: off}, n)
			if err != io.EOF {
				w.Fail("page-failed", "page %d of a healthy %s %s body of %d entries failed: %v", k, b.Format, b.Comp, n, err)
			}
			if d := core.CompareEntries(b, b.Entries[at+lo:at+hi], got, false); d != "" {
				w.Fail("wrong-window", "page %d (%d+%d) after %d entries of a %s %s body of %d: %s", k, off, lim, at, b.Format, b.Comp, n, d)
			}
			at += hi
			if hi-lo < lim {
				break
			}
		}
		r.Close()
	case 6: // entries from a source that fails now and then and goes on when asked again
		off, lim := window(s, n)
		lo, hi := clipWindow(n, off, lim)
		src := &flakySource{st: core.CloneStructure(b.St), es: b.Entries, s: s, left: 1 + s.Intn(6)}
		src.when = []int{s.Intn(lo + 1), s.Intn(hi + 1), s.Intn(n + 1)}
		w.Fault("transient entry error")
		pr := &dsio.PagedReader{Reader: src, Limit: lim, Offset: off}
		next := lo
		for tries := 0; tries < 2*n+30; tries++ {
			e, err := pr.ReadEntry()
			if err == io.EOF {
				break
			}
			if err != nil {
				if err != core.ErrInjected {
					w.Fail("page-failed", "page [%d,%d): %v", lo, hi, err)
				}
				continue
			}
			// a failed read may use up its place, it may not bring in others
			for next < hi && core.DiffValue(b.Entries[next].Value, e.Value) != "" {
				next++
			}
			if next >= hi {
				w.Fail("wrong-window", "page [%d,%d) of %d entries, over a source that fails now and then: got %s", lo, hi, n, core.Show(e.Value))
			}
			next++
		}
		if src.closed = 0; pr.Close() != nil || src.closed != 1 {
			w.Fail("close-lost", "closing a page closed its source %d times", src.closed)
		}
	}
}

// flakySource is an entry source that fails before some entries, without losing them.
type flakySource struct {
	st     *dataset.Structure
	es     []dsio.Entry
	s      *core.Src
	at     int
	left   int
	when   []int
	closed int
}

func (f *flakySource) Structure() *dataset.Structure { return f.st }

func (f *flakySource) ReadEntry() (dsio.Entry, error) {
	for i, k := range f.when {
		if k == f.at && f.left > 0 {
			f.left--
			if f.s.Chance(1, 2) {
				f.when[i] = -1
			}
			return dsio.Entry{}, core.ErrInjected
		}
	}
	if f.at >= len(f.es) {
		return dsio.Entry{}, io.EOF
	}
	f.at++
	return copyEntry(f.es[f.at-1]), nil
}

func (f *flakySource) Close() error { f.closed++; return nil }

// judgeWindow decides about a page read from a possibly failing source.
func judgeWindow(w *core.World, b *core.Body, src *core.Reader, lo, hi int, got []dsio.Entry, err error) {
	p := src.Plan
	cut := p.Fault == core.RTruncate && p.At < len(src.Data)
	plainText := b.Comp == "" && (b.Format == "csv" || b.Format == "ndjson")
	want := b.Entries[lo:hi]
	exact := got
	for len(exact) > 0 && mayBeShort(b, src, lo+len(exact)-1) {
		exact = exact[:len(exact)-1]
	}
	if len(got) > len(want) {
		// an empty JSON body that is cut delivers one empty value
		if !(cut && b.Format == "json" && len(got) == len(want)+1 && hi == len(b.Entries)) {
			w.Fail("read-past-page", "page [%d,%d) delivered %d entries", lo, hi, len(got))
		}
		exact = got[:len(want)]
		for len(exact) > 0 && mayBeShort(b, src, lo+len(exact)-1) {
			exact = exact[:len(exact)-1]
		}
	}
	if d := core.CompareEntries(b, want, exact, true); d != "" {
		w.Fail("wrong-window", "page [%d,%d) of a %s %s body with a failing source (%s): %s", lo, hi, b.Format, b.Comp, p.String(), d)
	}
	if err != io.EOF {
		if !src.Fired() {
			w.Fail("page-failed", "page [%d,%d) of a healthy %s %s body failed: %v", lo, hi, b.Format, b.Comp, err)
		}
		return
	}
	if len(got) >= len(want) {
		return
	}
	if cut && plainText {
		complete := 0
		for complete < len(b.Ends) && b.Ends[complete] <= p.At {
			complete++
		}
		if lo+len(got) < min(hi, complete) {
			w.Fail("rows-lost", "page [%d,%d) of a %s body holding %d complete rows delivered %d", lo, hi, b.Format, complete, len(got))
		}
		return
	}
	if cut && p.At <= 8 && zst(b.Comp) && len(got) == 0 && (b.Format == "csv" || b.Format == "ndjson") {
		return
	}
	w.Fail("silent-truncation", "page [%d,%d) of a %s %s body with a failing source (%s) ended cleanly after %d entries", lo, hi, b.Format, b.Comp, p.String(), len(got))
}

var strict = map[string]int{"cbor": 0, "json": 1, "ndjson": 2, "csv": 3, "xlsx": 4}

// retarget gives the same entries as a body of another format.
func retarget(s *core.Src, b *core.Body, format, comp string) *core.Body {
	c := *b
	c.Format, c.Comp = format, comp
	c.St = &dataset.Structure{Format: format, Compression: comp, Schema: core.DeepCopy(b.St.Schema).(map[string]interface{})}
	switch format {
	case "csv":
		fc := map[string]interface{}{}
		if b.Format == "csv" {
			if b.St.FormatConfig != nil {
				fc = core.DeepCopy(b.St.FormatConfig).(map[string]interface{})
			}
		} else {
			if s.Chance(1, 2) {
				fc["headerRow"] = true
			}
			if s.Chance(1, 3) {
				fc["separator"] = core.Pick(s, ";", "\t", "|")
			}
		}
		c.St.FormatConfig = fc
	case "xlsx":
		if b.Format == "xlsx" && b.St.FormatConfig != nil {
			c.St.FormatConfig = core.DeepCopy(b.St.FormatConfig).(map[string]interface{})
		}
	case "json":
		if s.Chance(1, 4) {
			c.St.FormatConfig = map[string]interface{}{"pretty": true}
		}
	}
	return &c
}

func c06(w *core.World) {
	s := w.C.Src("gen")
	in := core.Pick(s, "json", "csv", "cbor", "ndjson", "json", "csv", "cbor", "ndjson", "xlsx")
	out := core.Pick(s, "json", "csv", "cbor", "ndjson", "json", "csv", "cbor", "ndjson", "xlsx")
	comps := []string{"", "", "", "gzip", "zst", "gz", "zstd"}
	inC, outC := comps[s.Intn(len(comps))], comps[s.Intn(len(comps))]
	if in == "xlsx" {
		inC = ""
	}
	if out == "xlsx" {
		outC = ""
	}
	gen := in
	if strict[out] > strict[in] {
		gen = out
	}
	w.Dim("convert:%s.%s-%s.%s", in, inC, out, outC)
	tab := strict[gen] >= strict["csv"]
	base := core.GenBody(w, core.BodyOpts{Formats: []string{gen}, Comps: []string{""}, NoBytes: true, SafeInt: true, ArraysOnly: tab || gen == "ndjson", Tabular: tab, MaxRows: core.Pick(s, 200, 200, 1200), Huge: true})
	b := retarget(s, base, in, inC)
	if b.Format == "json" {
		b.St.FormatConfig = nil
	}
	schedFor(w, inC)
	if zst(outC) {
		w.NoEmptyReads()
	}
	o := retarget(s, base, out, outC)
	data := core.RefEncode(w, b)
	n := len(b.Entries)
	off, lim := window(s, n)
	all := s.Chance(1, 3)
	lo, hi := clipWindow(n, off, lim)
	if all {
		lo, hi = 0, n
	}
	var src *core.Reader
	if s.Chance(1, 2) {
		src = w.NewReader("body", data, w.GenFrag("body"))
	} else {
		kinds := []core.ReadFault{core.RError, core.RGlitch, core.RTruncate}
		if inC == "" && (in == "csv" || in == "ndjson") {
			kinds = kinds[:2]
		}
		plan := w.WithFault("body", w.GenFrag("body"), len(data), kinds...)
		if zst(inC) && plan.Err == io.ErrUnexpectedEOF {
			plan.Err = core.ErrInjected
		}
		src = w.NewReader("body", data, plan)
		w.Dim("fault%d", plan.Fault)
	}
	bare := s.Chance(1, 40) // the target has no schema: the conversion may be refused
	if bare {
		o.St.Schema = nil
	}
	if s.Chance(1, 50) {
		// a structure nobody can honour
		st := b.St
		if s.Chance(1, 2) {
			st = o.St
		}
		switch {
		case s.Chance(1, 3):
			st.Format = core.Pick(s, "", "xml", "html", "CSV")
		case st.Format == "xlsx":
			st.Compression = core.Pick(s, "gzip", "zst")
		default:
			st.Compression = core.Pick(s, "bogus", "zip", "bz2")
		}
		if res, err := dsio.ConvertFile(core.NewFile(src, "/sim/body."+in), b.St, o.St, lim, off, all); err == nil {
			w.Fail("impossible-converted", "a conversion from %q %q to %q %q gave %d bytes and no error", b.St.Format, b.St.Compression, o.St.Format, o.St.Compression, len(res))
		}
		return
	}
	inSt, outSt := pastOf(w, b.St), pastOf(w, o.St)
	w.Event("convert %s.%s to %s.%s entries %d window %d+%d all=%v %s", in, inC, out, outC, n, off, lim, all, src.Plan.String())
	res, err := dsio.ConvertFile(core.NewFile(src, "/sim/body."+in), inSt, outSt, lim, off, all)
	if !structEqual(inSt, b.St) || !structEqual(outSt, o.St) {
		w.Fail("structure-changed", "a conversion changed the structure it was given")
	}
	if err != nil {
		w.Event("convert: %v", err)
		if !src.Fired() && !bare {
			w.Fail("conversion-failed", "converting a healthy %s %s body (window [%d,%d) of %d) to %s %s failed: %v", in, inC, lo, hi, n, out, outC, err)
		}
		return
	}
	cut := src.Plan.Fault == core.RTruncate && src.Plan.At < len(data)
	if cut && src.Plan.At <= 8 && zst(inC) && (in == "csv" || in == "ndjson") {
		return
	}
	if cut && inC == "" && (in == "json" || in == "cbor" || in == "xlsx") && (all || off+lim > n+1 && lim > 1) && src.Plan.At < len(bytes.TrimRight(data, " \n\t")) {
		w.Fail("silent-truncation", "converting a %s body cut at byte %d of %d to %s succeeded", in, src.Plan.At, len(data), out)
	}
	if cut && hi > lo && mayBeShort(b, src, hi-1) {
		return
	}
	if cut && hi == lo {
		return // nothing of the body had to be read
	}
	checkStandard(w, subBody(o, lo, hi), res)
	if s.Chance(1, 8) {
		// what one conversion returned is not touched by the next
		kept := append([]byte(nil), res...)
		again := w.NewReader("again", data, w.GenFrag("again"))
		if _, err := dsio.ConvertFile(core.NewFile(again, "/sim/body."+in), inSt, outSt, 1, 0, s.Chance(1, 2)); err != nil && !bare {
			w.Fail("conversion-failed", "converting a healthy %s %s body to %s %s a second time failed: %v", in, inC, out, outC, err)
		}
		if !bytes.Equal(kept, res) {
			w.Fail("result-changed", "the result of converting a %s %s body to %s %s changed when another was converted", in, inC, out, outC)
		}
	}
}
