package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/jsonschema"

	"verif/sim/core"
)

func init() {
	reg("C10", "Validation reports each invalid entry exactly once, at its position",
		cfg{quick: 80000, thorough: 300000, budget: 200_000_000, assume: []string{
			"the jsonschema library applied to the whole body in one pass is the reference; its own verdicts are trusted",
		}}, c10)
}

func c10(w *core.World) {
	s := w.C.Src("gen")
	if s.Chance(1, 6) {
		c10rows(w, s)
		return
	}
	b := &core.Body{Format: core.Pick(s, "json", "csv", "cbor", "ndjson"), Comp: core.Pick(s, "", "", "gzip", "zst"), TLT: "array"}
	schedFor(w, b.Comp)
	n := 0
	big := false
	switch s.Weighted(30, 20, 2) {
	case 0:
		n = s.Intn(8)
	case 1:
		n = s.Intn(120)
	case 2:
		big = true
		n = core.Pick(s, 4999, 5000, 5001, 5002, 9999, 10000, 10001, 10003, 15001)
	}
	w.Dim("rows:%v/%d", big, n%5000)
	b.St = &dataset.Structure{Format: b.Format, Compression: b.Comp}
	// columns, each with one constraint
	type col struct {
		typ     string
		sch     map[string]interface{}
		ok, bad func() interface{}
	}
	word := func(n int) string { return strings.Repeat("w", n) }
	mk := func(i int) col {
		t := fmt.Sprintf("c%d", i)
		switch s.Intn(7) {
		case 0:
			return col{"integer", map[string]interface{}{"title": t, "type": "integer"}, func() interface{} { return int64(s.Intn(1000)) }, func() interface{} { return "x" + word(s.Intn(3)) }}
		case 1:
			return col{"string", map[string]interface{}{"title": t, "type": "string", "maxLength": 3}, func() interface{} { return word(1 + s.Intn(3)) }, func() interface{} { return word(4 + s.Intn(3)) }}
		case 2:
			return col{"integer", map[string]interface{}{"title": t, "type": "integer", "maximum": 10}, func() interface{} { return int64(s.Intn(11)) }, func() interface{} { return int64(11 + s.Intn(9)) }}
		case 3:
			return col{"string", map[string]interface{}{"title": t, "type": "string", "enum": []interface{}{"a", "b"}}, func() interface{} { return core.Pick(s, "a", "b") }, func() interface{} { return "q" }}
		case 4:
			return col{"boolean", map[string]interface{}{"title": t, "type": "boolean"}, func() interface{} { return s.Chance(1, 2) }, func() interface{} { return "maybe" }}
		case 5:
			return col{"number", map[string]interface{}{"title": t, "type": "number", "minimum": 0}, func() interface{} { return float64(s.Intn(9)) + 0.5 }, func() interface{} { return -float64(s.Intn(9)) - 0.5 }}
		}
		return col{"string", map[string]interface{}{"title": t, "type": "string", "pattern": "^a"}, func() interface{} { return "a" + word(s.Intn(2)) }, func() interface{} { return "b" }}
	}
	nc := 1 + s.Intn(3)
	if big {
		nc = 1
	}
	cols := make([]col, nc)
	items := make([]interface{}, nc)
	for i := range cols {
		cols[i] = mk(i)
		items[i] = cols[i].sch
		b.Cols = append(b.Cols, cols[i].typ)
	}
	var entrySchema map[string]interface{}
	tabular := b.Format == "csv" || s.Chance(1, 2)
	if tabular {
		entrySchema = map[string]interface{}{"type": "array", "items": items}
	} else if s.Chance(1, 2) {
		props := map[string]interface{}{}
		req := []interface{}{}
		for i := range cols {
			props[fmt.Sprintf("c%d", i)] = cols[i].sch
			req = append(req, fmt.Sprintf("c%d", i))
		}
		entrySchema = map[string]interface{}{"type": "object", "properties": props, "required": req}
	} else {
		entrySchema = cols[0].sch
	}
	if b.Format != "csv" && b.Format != "ndjson" && s.Chance(1, 4) {
		b.TLT = "object"
		b.St.Schema = map[string]interface{}{"type": "object", "additionalProperties": entrySchema}
	} else {
		b.St.Schema = map[string]interface{}{"type": "array", "items": entrySchema}
	}
	whole := ""
	if s.Chance(1, 6) {
		// a constraint on the body as a whole
		whole = core.Pick(s, "min", "max")
		v := max(0, n-1+s.Intn(3))
		key := map[bool]string{true: "Items", false: "Properties"}[b.TLT == "array"]
		b.St.Schema[whole+key] = v
		w.Dim("whole:%s", whole)
	}
	if b.Format == "csv" {
		b.St.FormatConfig = map[string]interface{}{"headerRow": s.Chance(1, 2)}
	}
	// a few bad cells anywhere
	bad := map[int]bool{}
	if n > 0 {
		for k := s.Intn(6); k > 0; k-- {
			i := s.Intn(n)
			if big && s.Chance(1, 2) {
				i = core.Pick(s, 0, 4999, 5000, 5000, 5001, 9999, 10000, n-1)
			}
			bad[min(i, n-1)] = true
		}
	}
	var shared []interface{}
	for i := 0; i < n; i++ {
		e := dsio.Entry{Index: i}
		if b.TLT == "object" {
			e.Index, e.Key = 0, fmt.Sprintf("k%d", i)
		}
		var vs []interface{}
		if big && !bad[i] && shared != nil {
			vs = shared // draws for every row of a large body would dominate
		} else {
			vs = make([]interface{}, nc)
			for j := range cols {
				if bad[i] && s.Chance(1, 2) {
					vs[j] = cols[j].bad()
				} else {
					vs[j] = cols[j].ok()
				}
			}
			if !bad[i] {
				shared = vs
			}
		}
		switch entrySchema["type"] {
		case "array":
			e.Value = append([]interface{}(nil), vs...)
		case "object":
			m := map[string]interface{}{}
			for j, v := range vs {
				if bad[i] && s.Chance(1, 4) {
					continue
				}
				m[fmt.Sprintf("c%d", j)] = v
			}
			e.Value = m
		default:
			e.Value = vs[0]
		}
		if bad[i] && b.Format != "csv" && s.Chance(1, 3) {
			// not just a bad cell: the entry is something else altogether
			e.Value = core.Pick[interface{}](s, nil, nil, nil, false, "w", []interface{}{}, map[string]interface{}{})
		}
		b.Entries = append(b.Entries, e)
	}
	refused := -1
	if n > 0 && !big && whole == "" && s.Chance(1, 12) && (b.Format == "cbor" || b.Format == "json" && b.TLT == "object") {
		// an entry that breaks the schema and that not every format can hold
		refused = s.Intn(n)
		e := &b.Entries[refused]
		if b.TLT == "object" && (b.Format == "json" || s.Chance(1, 2)) {
			e.Key, e.Value = "", wrongKind(entrySchema, "x")
		} else {
			e.Value = wrongKind(entrySchema, core.Pick(s, math.NaN(), math.Inf(1), math.Inf(-1)))
		}
	}
	w.Dim("fmt:%s/%s/%s tab%v refused%v", b.Format, b.Comp, b.TLT, tabular, refused >= 0)
	badSchema := ""
	if b.Format != "csv" && s.Chance(1, 40) {
		// no verdict without a schema to give it by
		badSchema = core.Pick(s, "required", "minItems", "enum", "maxItems", "properties", "allOf", "pattern", "additionalProperties")
		b.St.Schema[badSchema] = core.Pick[interface{}](s, "no", 3.5, []interface{}{3.5, "*"}, nil)
		if raw, err := json.Marshal(b.St.Schema); err == nil && json.Unmarshal(raw, &jsonschema.Schema{}) == nil {
			return // it is one after all
		}
		w.Dim("bad schema %s", badSchema)
	}
	data := core.RefEncode(w, b)
	plan := w.GenFrag("body")
	if s.Chance(1, 3) {
		plan = w.WithFault("body", plan, len(data), core.RError, core.RGlitch, core.RTruncate)
		if zst(b.Comp) && plan.Err == io.ErrUnexpectedEOF {
			plan.Err = core.ErrInjected
		}
	}
	src := w.NewReader("body", data, plan)
	w.Event("validate %s %s %d entries %d bad %s", b.Format, b.Comp, n, len(bad), plan.String())
	st := pastOf(w, b.St)
	r, err := dsio.NewEntryReader(st, src)
	if err != nil {
		if !src.Fired() {
			w.Fail("reader", "opening a healthy %s body: %v", b.Format, err)
		}
		return
	}
	got, err := validate.EntryReader(r)
	r.Close()
	if !structEqual(st, b.St) {
		w.Fail("structure-changed", "validation changed the structure")
	}
	cut := plan.Fault == core.RTruncate && plan.At < len(data)
	if err != nil {
		if !src.Fired() && !cut && refused < 0 && badSchema == "" {
			w.Fail("validation-failed", "validating a healthy %s %s body of %d entries failed: %v", b.Format, b.Comp, n, err)
		}
		return
	}
	if badSchema != "" {
		w.Fail("bad-schema", "a body was validated against a schema that is none (%s: %s): %v", badSchema, core.Show(b.St.Schema[badSchema]), got)
	}
	if src.Fired() && plan.Fault == core.RError && !b.SelfDelimiting() {
		w.Fail("error-swallowed", "the source of a %s body failed (%s) and validation reported a result", b.Format, plan.String())
	}
	if cut {
		end := len(data)
		for end > 0 && b.Format == "json" && b.Comp == "" && strings.IndexByte(" \t\r\n", data[end-1]) >= 0 {
			end--
		}
		if b.Comp == "" && b.SelfDelimiting() && plan.At < end {
			w.Fail("silent-truncation", "a %s body cut at byte %d of %d was validated as a complete one", b.Format, plan.At, len(data))
		}
		if !b.SelfDelimiting() || zst(b.Comp) && plan.At <= 8 {
			return
		}
		// the compressed bytes up to the cut may hold the whole body
	}
	if refused >= 0 {
		if len(got) == 0 {
			w.Fail("entry-skipped", "entry %d of a %s body, %s, breaks the schema and validation reported nothing", refused, b.Format, core.Show(b.Entries[refused].Value))
		}
		return
	}
	want := refValidate(w, b)
	if n == 0 && whole == "" && len(got) == 0 {
		return
	}
	if d := diffErrs(want, got); d != "" {
		if whole != "" && n != 0 {
			// does it only concern the body as a whole?
			if d2 := diffErrs(entryLevel(want), entryLevel(got)); d2 == "" {
				if n > 5000 {
					w.Fail("body-constraint-per-batch", "a constraint on a whole body is applied to each batch of 5000 entries: %s", d)
				}
				w.Fail("body-constraint", "%s body of %d entries, %s constraint: %s", b.Format, n, whole, d)
			} else {
				d = d2
			}
		} else if whole != "" {
			w.Fail("body-constraint-empty", "a constraint on a whole body is not applied to an empty body: %s", d)
		}
		w.Fail("wrong-errors", "validating a %s %s body of %d entries: %s", b.Format, b.Comp, n, d)
	}
}

// wrongKind wraps a value in a kind of value the schema doesn't ask for.
func wrongKind(sch map[string]interface{}, v interface{}) interface{} {
	if sch["type"] == "array" {
		return map[string]interface{}{"c0": v}
	}
	return []interface{}{v}
}

// refValidate validates the whole body in one pass.
func refValidate(w *core.World, b *core.Body) []jsonschema.KeyError {
	raw, _ := json.Marshal(b.St.Schema)
	sch := &jsonschema.Schema{}
	if err := json.Unmarshal(raw, sch); err != nil {
		w.Fail("harness", "schema: %v", err)
	}
	var doc interface{}
	if b.TLT == "object" {
		m := map[string]interface{}{}
		for _, e := range b.Entries {
			m[e.Key] = e.Value
		}
		doc = m
	} else {
		a := make([]interface{}, len(b.Entries))
		for i, e := range b.Entries {
			a[i] = e.Value
		}
		doc = a
	}
	raw, _ = json.Marshal(doc)
	doc = nil
	json.Unmarshal(raw, &doc)
	st := sch.Validate(context.Background(), doc)
	return *st.Errs
}

func entryLevel(es []jsonschema.KeyError) (out []jsonschema.KeyError) {
	for _, e := range es {
		if e.PropertyPath != "/" && e.PropertyPath != "" {
			out = append(out, e)
		}
	}
	return
}

func diffErrs(want, got []jsonschema.KeyError) string {
	key := func(es []jsonschema.KeyError) []string {
		out := make([]string, len(es))
		for i, e := range es {
			out[i] = e.PropertyPath + ": " + e.Message
		}
		sort.Strings(out)
		return out
	}
	a, b := key(want), key(got)
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Sprintf("reported %d errors, there are %d; extra: %s", len(b), len(a), core.Show(b[i]))
		case i >= len(b):
			return fmt.Sprintf("reported %d errors, there are %d; missing: %s", len(b), len(a), core.Show(a[i]))
		case a[i] != b[i]:
			return fmt.Sprintf("reported %d errors, there are %d; want %s, got %s", len(b), len(a), core.Show(a[i]), core.Show(b[i]))
		}
	}
	return ""
}

// c10rows checks the row length check of CSV text.
func c10rows(w *core.World, s *core.Src) {
	w.Dim("row-lengths")
	rows := 1 + s.Intn(40)
	nc := 1 + s.Intn(4)
	odd := -1
	if s.Chance(1, 2) && rows > 1 {
		odd = 1 + s.Intn(rows-1)
	}
	var buf bytes.Buffer
	for i := 0; i < rows; i++ {
		k := nc
		if i == odd {
			k = nc + 1 + s.Intn(2)
			if nc > 1 && s.Chance(1, 2) {
				k = nc - 1
			}
			if nc > 1 && s.Chance(1, 4) {
				buf.WriteString("\"\"\n") // a single empty cell
				continue
			}
		}
		for j := 0; j < k; j++ {
			if j > 0 {
				buf.WriteByte(',')
			}
			buf.WriteString(core.Pick(s, "a", "bc", "\"q,q\"", "1", "\"l\nl\"", "\"\"", "\"q\"\"q\""))
		}
		buf.WriteByte('\n')
	}
	plan := w.GenFrag("body")
	if s.Chance(1, 2) {
		plan = w.WithFault("body", plan, buf.Len(), core.RError)
	}
	src := w.NewReader("body", buf.Bytes(), plan)
	err := validate.CheckCsvRowLengths(src)
	w.Event("row lengths: %v", err)
	if err == nil && src.Fired() {
		w.Fail("error-swallowed", "the source failed (%s) and the row lengths were found consistent", plan.String())
	}
	if src.Fired() {
		return
	}
	if (err != nil) != (odd >= 0) {
		w.Fail("row-lengths", "%d rows of %d cells, odd row %d: %v", rows, nc, odd, err)
	}
}
