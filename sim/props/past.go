package props

import (
	"bytes"
	"io"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/tabular"
	"github.com/qri-io/dataset/validate"

	"verif/sim/core"
)

// pastOf returns a structure that says what st says. Now and then it is one
// that said something else before and was put to use then: callers edit the
// structures they hold, and what was worked out for the old one must not be
// taken for the new one.
func pastOf(w *core.World, st *dataset.Structure) *dataset.Structure {
	s := w.C.Src("past")
	if !s.Chance(1, 12) {
		return core.CloneStructure(st)
	}
	w.Dim("past")
	b := &core.Body{Format: core.Pick(s, "json", "csv", "cbor", "ndjson", st.Format), TLT: "array"}
	if b.Format == "xlsx" {
		b.Format = "csv"
	}
	nc := 1 + s.Intn(4)
	items := make([]interface{}, nc)
	row := make([]interface{}, nc)
	for i := range items {
		typ := core.Pick(s, "integer", "string", "boolean", "number")
		items[i] = map[string]interface{}{"title": "p" + string(rune('a'+i)), "type": typ}
		row[i] = map[string]interface{}{"integer": int64(i), "string": "p", "boolean": true, "number": 1.5}[typ]
	}
	b.St = &dataset.Structure{Format: b.Format, Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}}
	if b.Format == "csv" {
		b.St.FormatConfig = map[string]interface{}{"headerRow": s.Chance(1, 2), "separator": core.Pick(s, ",", ";")}
	}
	b.Entries = []dsio.Entry{{Value: row}}
	old := b.St
	data := core.RefEncodePlain(w, b)
	for k := 1 + s.Intn(3); k > 0; k-- {
		switch s.Intn(6) {
		case 0:
			if r, err := dsio.NewEntryReader(old, bytes.NewReader(data)); err == nil {
				drain(w, r, 4)
				r.Close()
			}
		case 1:
			if wr, err := dsio.NewEntryWriter(old, io.Discard); err == nil {
				wr.WriteEntry(b.Entries[0])
				wr.Close()
			}
		case 2:
			if r, err := dsio.NewEntryReader(old, bytes.NewReader(data)); err == nil {
				validate.EntryReader(r)
				r.Close()
			}
		case 3:
			tabular.ColumnsFromJSONSchema(old.Schema)
		case 4:
			old.JSONSchema()
		case 5:
			detect.FormatFromFilename("x." + b.Format)
			old.Hash()
			old.IsEmpty()
			old.Abstract()
		}
	}
	want := core.CloneStructure(st)
	sch, cfg := old.Schema, old.FormatConfig
	switch s.Intn(3) {
	case 0: // every part replaced
		*old = *want
	default: // edited in place
		*old = *want
		old.Schema = inPlace(sch, want.Schema)
		old.FormatConfig = inPlace(cfg, want.FormatConfig)
	}
	return old
}

// inPlace makes the map m say what want says, keeping the maps and slices it
// is made of where that is possible.
func inPlace(m, want map[string]interface{}) map[string]interface{} {
	if m == nil || want == nil {
		return want
	}
	for k := range m {
		if _, ok := want[k]; !ok {
			delete(m, k)
		}
	}
	for _, k := range core.SortedKeys(want) {
		a, ok1 := m[k].(map[string]interface{})
		b, ok2 := want[k].(map[string]interface{})
		if ok1 && ok2 {
			m[k] = inPlace(a, b)
			continue
		}
		as, ok1 := m[k].([]interface{})
		bs, ok2 := want[k].([]interface{})
		if ok1 && ok2 && len(as) == len(bs) {
			for i := range as {
				x, ok1 := as[i].(map[string]interface{})
				y, ok2 := bs[i].(map[string]interface{})
				if ok1 && ok2 {
					as[i] = inPlace(x, y)
				} else {
					as[i] = bs[i]
				}
			}
			continue
		}
		m[k] = want[k]
	}
	return m
}
