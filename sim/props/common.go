// Package props holds one scenario per property.
package props

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/360EntSecGroup-Skylar/excelize"
	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/ugorji/go/codec"

	"verif/sim/core"
)

const rule = "a run counts as non-trivial when it injected a fault, split a read, permuted a map or took a scheduling decision; distinct by the set of dimensions (format, compression, shape, size class, delivery pattern, fault kinds, operation variant) together with the hash of its interleaving"

var realAll = []string{"all packages of qri-io/dataset (instrumented copy of the working tree)", "klauspost gzip and zstd", "ugorji codec", "excelize", "qri-io/jsonschema", "qfs memory files"}

var stubAll = []string{"byte sources, sinks and files (simulated streams with scripted delivery and faults)", "content store behind qfs.PathResolver (simulated)", "clock (synctest bubble)", "goroutine scheduler (simulator releases one parked operation at a time)", "map iteration order (simulator-chosen)"}

type cfg struct {
	quick, thorough int
	budget          int64
	leak            bool
	assume          []string
}

func reg(id, title string, c cfg, sc core.Scenario) {
	core.Register(&core.Prop{ID: id, Title: title, Run: sc, Quick: c.quick, Thorough: c.thorough,
		Opts: core.RunOpts{Budget: c.budget, LeakIsViolation: c.leak}, Rule: rule, Real: realAll, Stub: stubAll, Assume: c.assume})
}

// zst tells whether a compression name means zstd, whose decoder reads ahead
// in its own goroutines.
func zst(comp string) bool { return comp == "zst" || comp == "zstd" }

// schedFor makes source reads scheduling points when a background goroutine
// consumes the source.
func schedFor(w *core.World, comp string) {
	if zst(comp) {
		w.Concurrent(false, 0)
		w.NoEmptyReads()
	}
}

func copyEntry(e dsio.Entry) dsio.Entry {
	return dsio.Entry{Index: e.Index, Key: strings.Clone(e.Key), Value: core.DeepCopy(e.Value)}
}

// drain reads entries until an error. max bounds it.
func drain(w *core.World, r dsio.EntryReader, max int) (es []dsio.Entry, err error) {
	for {
		var e dsio.Entry
		e, err = r.ReadEntry()
		if err != nil {
			w.Event("entry error %v", err)
			return
		}
		es = append(es, e)
		if len(es) > max {
			w.Fail("too-many-entries", "reader produced more than %d entries from a body of %d", len(es)-1, max)
		}
	}
}

// writeAll writes the body's entries, failing the run on any error.
func writeAll(w *core.World, wr dsio.EntryWriter, b *core.Body) {
	s := w.C.Src("gen")
	ints := s.Chance(1, 5)
	refusals := 0
	if s.Chance(1, 6) {
		refusals = 1 + s.Intn(4)
	}
	for i, e := range b.Entries {
		e = copyEntry(e)
		if refusals > 0 && (b.Format != "cbor" || b.TLT == "object") && s.Chance(1, 3) {
			refusals--
			bad, why := unwritable(s, b, i)
			w.Dim("refused:%s", why)
			if err := wr.WriteEntry(bad); err == nil {
				w.Fail("impossible-accepted", "a %s writer accepted an entry it can't represent: %s", b.Format, why)
			}
		}
		if ints {
			e.Value = goInts(e.Value)
		}
		if err := wr.WriteEntry(e); err != nil {
			w.Fail("write-refused", "writing valid %s entry %d (%s) failed: %v", b.Format, i, core.Show(e.Value), err)
		}
	}
}

// unwritable is an entry that b's format has no way to hold, offered just
// before entry i. Refusing it must leave no trace: not in the output, and not
// in what the writer thinks it has written. CBOR holds any value, so only keys
// are refused there.
func unwritable(s *core.Src, b *core.Body, i int) (dsio.Entry, string) {
	e := dsio.Entry{Index: b.Entries[i].Index, Key: b.Entries[i].Key}
	if b.TLT == "object" && (b.Format == "cbor" || s.Chance(1, 2)) {
		e.Value = "value"
		if i > 0 && s.Chance(1, 2) {
			e.Key = b.Entries[s.Intn(i)].Key
			return e, "repeated key"
		}
		e.Key = ""
		return e, "no key"
	}
	var v interface{} = func() {}
	why := "function"
	if s.Chance(2, 3) {
		v, why = core.Pick(s, math.NaN(), math.Inf(1), math.Inf(-1)), "not finite"
	}
	nested := why == "not finite" && (b.Format == "csv" || b.Format == "xlsx") || s.Chance(1, 2)
	if nested {
		why += " inside"
		if s.Chance(1, 2) {
			v = []interface{}{"a", v}
		} else {
			v = map[string]interface{}{"a": v}
		}
	}
	if b.Format == "csv" || b.Format == "xlsx" {
		if s.Chance(1, 4) {
			return dsio.Entry{Value: core.Pick[interface{}](s, "a,b", int64(3), nil, map[string]interface{}{"a": int64(1)})}, "not a row"
		}
		v = []interface{}{"first", v}
	}
	e.Value = v
	return e, why
}

// goInts gives whole numbers the type Go programs most often have them in.
func goInts(v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		return int(x)
	case []interface{}:
		for i := range x {
			x[i] = goInts(x[i])
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = goInts(x[k])
		}
	}
	return v
}

// checkStandard decodes the bytes with decoders independent of the repository
// and compares them with the model.
func checkStandard(w *core.World, b *core.Body, data []byte) {
	plain, err := core.Decompress(b.Comp, data)
	if err != nil {
		w.Fail("not-standard", "written %s body is not valid %s: %v", b.Format, b.Comp, err)
	}
	want := b.Expected()
	switch b.Format {
	case "json":
		var v interface{}
		d := json.NewDecoder(bytes.NewReader(plain))
		d.UseNumber()
		if err := d.Decode(&v); err != nil {
			w.Fail("not-standard", "written body is not valid JSON: %v", err)
		}
		if _, err := d.Token(); err != io.EOF {
			w.Fail("not-standard", "written JSON body has trailing data")
		}
		if b.TLT == "object" {
			m, ok := v.(map[string]interface{})
			if !ok || len(m) != len(want) {
				w.Fail("not-standard", "written JSON object has %d keys, wrote %d", len(m), len(want))
			}
			for _, e := range want {
				if d := core.DiffValue(e.Value, unnumber(m[e.Key])); d != "" {
					w.Fail("not-standard", "written JSON differs at key %s%s", core.Show(e.Key), d)
				}
			}
			return
		}
		arr, ok := v.([]interface{})
		if !ok || len(arr) != len(want) {
			w.Fail("not-standard", "written JSON array has %d elements, wrote %d", len(arr), len(want))
		}
		for i, e := range want {
			if d := core.DiffValue(e.Value, unnumber(arr[i])); d != "" {
				w.Fail("not-standard", "written JSON differs at %d%s", i, d)
			}
		}
	case "ndjson":
		lines := bytes.Split(plain, []byte("\n"))
		if len(lines) > 0 && len(lines[len(lines)-1]) == 0 {
			lines = lines[:len(lines)-1]
		}
		if len(lines) != len(want) {
			w.Fail("not-standard", "written NDJSON has %d lines, wrote %d", len(lines), len(want))
		}
		for i, l := range lines {
			var v interface{}
			d := json.NewDecoder(bytes.NewReader(l))
			d.UseNumber()
			if err := d.Decode(&v); err != nil {
				w.Fail("not-standard", "NDJSON line %d is not JSON: %v", i, err)
			}
			if d := core.DiffValue(want[i].Value, unnumber(v)); d != "" {
				w.Fail("not-standard", "written NDJSON differs at %d%s", i, d)
			}
		}
	case "csv":
		cr := csv.NewReader(bytes.NewReader(plain))
		cr.FieldsPerRecord = -1
		if sep, ok := b.St.FormatConfig["separator"].(string); ok {
			cr.Comma = rune(sep[0])
		}
		rows, err := cr.ReadAll()
		if err != nil {
			w.Fail("not-standard", "written body is not valid CSV: %v", err)
		}
		if b.St.FormatConfig["headerRow"] == true {
			if len(rows) == 0 {
				w.Fail("not-standard", "header row missing")
			}
			for i := range b.Cols {
				if i >= len(rows[0]) || rows[0][i] != columnTitle(b.St, i) {
					w.Fail("not-standard", "header row is %v", rows[0])
				}
			}
			rows = rows[1:]
		}
		if len(rows) != len(want) {
			w.Fail("not-standard", "written CSV has %d rows, wrote %d", len(rows), len(want))
		}
		for i, e := range want {
			if len(rows[i]) != len(e.Value.([]interface{})) {
				w.Fail("not-standard", "CSV row %d has %d cells, wrote %d", i, len(rows[i]), len(e.Value.([]interface{})))
			}
			for j, c := range e.Value.([]interface{}) {
				if d := diffCell(c, rows[i][j]); d != "" {
					w.Fail("not-standard", "CSV row %d cell %d%s", i, j, d)
				}
			}
		}
	case "xlsx":
		f, err := excelize.OpenReader(bytes.NewReader(plain))
		if err != nil {
			w.Fail("not-standard", "written body is not a valid XLSX file: %v", err)
		}
		sheet := "Sheet1"
		if n, ok := b.St.FormatConfig["sheetName"].(string); ok {
			sheet = n
		}
		rows := f.GetRows(sheet)
		if len(rows) > len(want) {
			w.Fail("not-standard", "written XLSX has %d rows, wrote %d", len(rows), len(want))
		}
		for i, e := range want {
			row := e.Value.([]interface{})
			for j, c := range row {
				// excelize leaves out trailing rows and cells that hold nothing
				got := ""
				if i < len(rows) && j < len(rows[i]) {
					got = rows[i][j]
				}
				if d := diffCell(c, got); d != "" {
					w.Fail("not-standard", "XLSX row %d cell %d%s", i, j, d)
				}
			}
		}
	case "cbor":
		h := &codec.CborHandle{}
		h.MaxDepth = 32000
		h.MapType = reflect.TypeOf(map[string]interface{}(nil))
		var v interface{}
		if err := codec.NewDecoderBytes(plain, h).Decode(&v); err != nil {
			w.Fail("not-standard", "written body is not valid CBOR: %v", err)
		}
		if b.TLT == "object" {
			m, ok := v.(map[string]interface{})
			if !ok || len(m) != len(want) {
				w.Fail("not-standard", "written CBOR map has %d keys, wrote %d", len(m), len(want))
			}
			for _, e := range want {
				if d := core.DiffValue(e.Value, m[e.Key]); d != "" {
					w.Fail("not-standard", "written CBOR differs at key %s%s", core.Show(e.Key), d)
				}
			}
			return
		}
		arr, ok := v.([]interface{})
		if !ok || len(arr) != len(want) {
			w.Fail("not-standard", "written CBOR array has %d elements, wrote %d", len(arr), len(want))
		}
		for i, e := range want {
			if d := core.DiffValue(e.Value, arr[i]); d != "" {
				w.Fail("not-standard", "written CBOR differs at %d%s", i, d)
			}
		}
	}
}

// diffCell compares a model value with the text of a cell.
func diffCell(want interface{}, text string) string {
	switch x := want.(type) {
	case string:
		return core.DiffValue(x, text)
	case nil:
		return core.DiffValue("", text)
	case bool:
		return core.DiffValue(fmt.Sprint(x), text)
	}
	var v interface{}
	d := json.NewDecoder(bytes.NewReader([]byte(text)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return fmt.Sprintf(": want %s, cell holds %s", core.Show(want), core.Show(text))
	}
	return core.DiffValue(want, unnumber(v))
}

// unnumber turns json.Number into int64 or float64.
func unnumber(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		if i, err := x.Int64(); err == nil {
			return i
		}
		f, _ := x.Float64()
		return f
	case []interface{}:
		for i := range x {
			x[i] = unnumber(x[i])
		}
		return x
	case map[string]interface{}:
		for k := range x {
			x[k] = unnumber(x[k])
		}
		return x
	}
	return v
}

// structEqual compares two structures by value.
func structEqual(a, b *dataset.Structure) bool {
	if a.Checksum != b.Checksum || a.Depth != b.Depth || a.Entries != b.Entries || a.ErrCount != b.ErrCount || a.Length != b.Length ||
		a.Encoding != b.Encoding || a.Strict != b.Strict || a.Path != b.Path || a.Qri != b.Qri || (a.Schema == nil) != (b.Schema == nil) {
		return false
	}
	x, _ := json.Marshal([]interface{}{a.Format, a.Compression, a.FormatConfig, a.Schema})
	y, _ := json.Marshal([]interface{}{b.Format, b.Compression, b.FormatConfig, b.Schema})
	return bytes.Equal(x, y)
}

// memWriter is an entry writer that keeps what it is given.
type memWriter struct {
	st     *dataset.Structure
	es     []dsio.Entry
	closed int
	// failAt makes the write of that entry fail when positive (1-based)
	failAt int
	err    error
}

func (m *memWriter) Structure() *dataset.Structure { return m.st }

func (m *memWriter) WriteEntry(e dsio.Entry) error {
	if m.failAt > 0 && len(m.es)+1 == m.failAt {
		return m.err
	}
	m.es = append(m.es, e)
	return nil
}

func (m *memWriter) Close() error { m.closed++; return nil }

// asJSON is the same entries as a JSON body.
func asJSON(b *core.Body) *core.Body {
	c := *b
	c.Format, c.Comp = "json", ""
	c.St = plainJSON(b)
	return &c
}

func plainJSON(b *core.Body) *dataset.Structure {
	return &dataset.Structure{Format: "json", Schema: b.St.Schema}
}

// columnTitle is the title the schema of a table gives a column.
func columnTitle(st *dataset.Structure, i int) string {
	if items, ok := st.Schema["items"].(map[string]interface{}); ok {
		if cols, ok := items["items"].([]interface{}); ok && i < len(cols) {
			if col, ok := cols[i].(map[string]interface{}); ok {
				if t, ok := col["title"].(string); ok {
					return t
				}
			}
		}
	}
	return fmt.Sprintf("col_%d", i)
}
