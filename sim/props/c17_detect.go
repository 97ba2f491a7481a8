package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"

	"verif/sim/core"
)

func init() {
	reg("C17", "Detected structures describe the data and read it back",
		cfg{quick: 120000, thorough: 1500000, assume: []string{
			"a CSV file whose first row could be a header (no numbers, booleans or empty cells) is taken to have one: data and header cannot be told apart then",
			"CSV detection looks at the first 2000 rows; bodies are generated with their irregularities inside that range",
			"a cut of a plain CSV, NDJSON or JSON file cannot be told from a shorter file by detection",
		}}, c17)
}

type dcell struct {
	text string
	kind string
	val  interface{}
}

func genCell17(s *core.Src, kind string) dcell {
	switch kind {
	case "integer":
		n := core.Pick(s, 0, 1, -1, s.Intn(100000), -s.Intn(1000), 1<<31, 9007199254740991)
		return dcell{fmt.Sprint(n), kind, int64(n)}
	case "number":
		t := core.Pick(s, "1.5", "-0.25", "3.0", "1e5", "2.5e-3", "123456.789")
		var f float64
		json.Unmarshal([]byte(t), &f)
		return dcell{t, kind, f}
	case "boolean":
		b := s.Chance(1, 2)
		return dcell{fmt.Sprint(b), kind, b}
	case "object":
		n := s.Intn(9)
		return dcell{fmt.Sprintf(`{"a":%d}`, n), kind, map[string]interface{}{"a": int64(n)}}
	case "array":
		n := s.Intn(9)
		return dcell{fmt.Sprintf(`[%d,"b"]`, n), kind, []interface{}{int64(n), "b"}}
	case "null":
		return dcell{"null", kind, nil}
	case "empty":
		return dcell{"", "string", ""}
	}
	t := core.Pick(s, "alpha", "x1", "word two", "é", "it's", "a,b", "line\nbreak", "N/A", "tru", "1.2.3", "12-31", "e", "--")
	return dcell{t, "string", t}
}

var typeRank = map[string]int{"null": 1, "integer": 2, "number": 3, "boolean": 4, "string": 5, "object": 6, "array": 7}

// csv17 draws CSV text with a known shape and says what detection should find.
type csv17 struct {
	rows     [][]dcell
	names    []string // header, if any
	header   bool     // what the header rule says
	variadic bool
	types    []string
	text     []byte
	title    []string
}

func genCSV17(w *core.World, s *core.Src) *csv17 {
	c := &csv17{}
	nc := 1 + s.Intn(5)
	n := []int{0, 1, 6, 40, 2010}[s.Weighted(1, 2, 8, 4, 1)]
	if n > 1 && n < 2000 {
		n = 1 + s.Intn(n)
	} else if n > 2000 {
		n = 1995 + s.Intn(12)
		nc = 1 + s.Intn(2)
	}
	kinds := make([]string, nc)
	mixed := make([]bool, nc)
	for i := range kinds {
		kinds[i] = core.Pick(s, "integer", "number", "boolean", "string", "object", "array", "null")
		mixed[i] = s.Chance(1, 4)
	}
	named := s.Chance(1, 2)
	if n == 0 {
		named = true
	}
	if named {
		for i := 0; i < nc; i++ {
			c.names = append(c.names, core.Pick(s, "alpha", "beta", "gamma", "delta", "name", "year", "count"))
		}
	}
	varRows := s.Chance(1, 5)
	for r := 0; r < n; r++ {
		k := nc
		if varRows && r > 0 && s.Chance(1, 5) {
			k = 1 + s.Intn(nc+2)
		}
		row := make([]dcell, k)
		for i := range row {
			kind := "string"
			if i < nc {
				kind = kinds[i]
				if mixed[i] {
					kind = core.Pick(s, "integer", "number", "boolean", "string", "object", "array", "null", "empty")
				}
			}
			row[i] = genCell17(s, kind)
		}
		if k == 1 && row[0].text == "" {
			row[0] = genCell17(s, "string") // a row of one empty cell is an empty line
		}
		if k != nc {
			c.variadic = true
		}
		c.rows = append(c.rows, row)
	}
	// the header rule
	c.header = named
	if !named {
		c.header = true
		for _, x := range c.rows[0] {
			if x.kind == "integer" || x.kind == "number" || x.kind == "boolean" || x.text == "" {
				c.header = false
			}
		}
	}
	// tally
	tally := make([]map[string]int, nc)
	for i := range tally {
		tally[i] = map[string]int{}
	}
	data := c.rows
	if !named && c.header {
		data = c.rows[1:]
	}
	for _, row := range data {
		if len(row) != nc {
			continue
		}
		for i, x := range row {
			tally[i][x.kind]++
		}
	}
	for i := range tally {
		best := ""
		for t, cnt := range tally[i] {
			if best == "" || cnt > tally[i][best] || cnt == tally[i][best] && typeRank[t] < typeRank[best] {
				best = t
			}
		}
		c.types = append(c.types, best)
	}
	// text
	nl := core.Pick(s, "\n", "\n", "\r\n", "\r")
	var b bytes.Buffer
	line := func(cells []string) {
		for i, t := range cells {
			if i > 0 {
				b.WriteByte(',')
			}
			if strings.ContainsAny(t, ",\"\n\r") || strings.HasPrefix(t, " ") || s.Chance(1, 12) {
				b.WriteString(`"` + strings.ReplaceAll(t, `"`, `""`) + `"`)
			} else {
				b.WriteString(t)
			}
		}
	}
	if named {
		line(c.names)
		b.WriteString(nl)
	}
	for i, row := range c.rows {
		var ts []string
		for _, x := range row {
			ts = append(ts, x.text)
		}
		line(ts)
		if i < len(c.rows)-1 || s.Chance(2, 3) {
			b.WriteString(nl)
		}
	}
	c.text = b.Bytes()
	if c.header && !named {
		for _, x := range c.rows[0] {
			c.names = append(c.names, x.text)
		}
	}
	w.Dim("csv cols%d named%v header%v variadic%v nl%q", nc, named, c.header, c.variadic, nl)
	return c
}

// unknown17 asks for the structure of data whose name says nothing usable:
// detection has to say so, and leave the dataset and its body alone.
func unknown17(w *core.World, s *core.Src) {
	name := core.Pick(s, "body", "body.", ".csvx", "body.txt", "body.csv.bz2", "body.CSVV", "csv.body", "gzip", "body.gz", "body.foo.gzip", "body.zst", "", "body.csv.txt.gz", "body.csv.gz.bak", "body.json5")
	data := []byte(strings.Repeat(core.Pick(s, "a,b\n1,2\n", "[1,2]", "{\"a\":1}\n", "\x00\x01"), 1+s.Intn(40)))
	src := w.NewReader("body", data, w.GenFrag("body"))
	w.Dim("unknown %q", name)
	if s.Chance(1, 3) {
		if df, cf, err := detect.FormatFromFilename("/some/dir.csv/" + name); err == nil {
			w.Fail("recognised", "the name %q was recognised as format %q compression %q", name, df, cf)
		}
		return
	}
	if s.Chance(1, 4) {
		dir, e := os.MkdirTemp(os.Getenv("SIM_SCRATCH"), "det")
		if e != nil || name == "" {
			return
		}
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, name)
		if os.WriteFile(p, data, 0o644) != nil {
			return
		}
		if st, err := detect.FromFile(p); err == nil {
			w.Fail("recognised", "the structure of a file named %q was detected as %+v", name, st)
		}
		return
	}
	ds := &dataset.Dataset{}
	ds.SetBodyFile(simFile(s, src, "/sim/"+name))
	if s.Chance(1, 3) {
		ds.Structure = &dataset.Structure{Compression: "gzip"}
	}
	if err := detect.Structure(ds); err == nil {
		w.Fail("recognised", "the structure of a body named %q was detected as %+v", name, ds.Structure)
	}
	if ds.Structure != nil && (ds.Structure.Format != "" || ds.Structure.Schema != nil) {
		w.Fail("recognised", "a failed detection left structure %+v", ds.Structure)
	}
	if got, err := io.ReadAll(ds.BodyFile()); err != nil || !bytes.Equal(got, data) {
		w.Fail("body-lost", "after a failed detection the body of %d bytes reads as %d bytes (%v)", len(data), len(got), err)
	}
}

func c17(w *core.World) {
	s := w.C.Src("gen")
	if s.Chance(1, 25) {
		unknown17(w, s)
		return
	}
	comp := core.Pick(s, "", "", "", "gzip", "gz", "zst", "zstd")
	schedFor(w, comp)
	var c *csv17
	var b *core.Body
	format := "csv"
	var plain []byte
	if s.Chance(3, 5) {
		c = genCSV17(w, s)
		plain = c.text
	} else {
		b = core.GenBody(w, core.BodyOpts{Formats: []string{"json", "ndjson", "cbor", "xlsx"}, Comps: []string{""}, MaxRows: 60})
		format = b.Format
		if format == "xlsx" {
			comp = ""
		}
		plain = core.RefEncodePlain(w, b)
		if format == "json" && s.Chance(1, 4) {
			plain = append([]byte(strings.Repeat(core.Pick(s, " ", "\n", "\t", "\r\n"), core.Pick(s, 1, 50, 98, 99, 100, 101, 250))), plain...)
		}
	}
	data := core.Compress(comp, plain)
	ext := format
	if format == "ndjson" && s.Chance(1, 2) {
		ext = "jsonl"
	}
	name := core.Pick(s, "body", "my.file.v2", "data.csv", "a b", "x.gz", "x.zst.old", ".hidden", "json", "csv.", "body."+ext, "gz") + "." + ext
	if comp != "" {
		name += "." + comp
	}
	plan := w.GenFrag("body")
	faulty := s.Chance(1, 3)
	if faulty {
		plan = w.WithFault("body", plan, len(data), core.RTruncate, core.RError, core.RGlitch)
		if zst(comp) && plan.Err == io.ErrUnexpectedEOF {
			plan.Err = core.ErrInjected
		}
	}
	src := w.NewReader("body", data, plan)
	var st *dataset.Structure
	var err error
	n := -1
	how := s.Weighted(4, 4, 1)
	if how == 2 && faulty {
		how = 0
	}
	w.Dim("how%d %s/%s", how, format, comp)
	ds := &dataset.Dataset{}
	var given *dataset.Structure
	switch how {
	case 0:
		ds.SetBodyFile(simFile(s, src, "/sim/"+name))
		if s.Chance(1, 4) {
			ds.Structure = &dataset.Structure{}
			if s.Chance(1, 2) {
				ds.Structure.Format = format
			}
			if s.Chance(1, 2) && comp != "" {
				ds.Structure.Compression = comp
			}
			if c != nil && s.Chance(1, 3) {
				// everything known but how the text is laid out
				var items []interface{}
				for i, t := range c.types {
					if t == "" {
						t = "string"
					}
					items = append(items, map[string]interface{}{"title": fmt.Sprintf("given_%d", i), "type": t})
				}
				ds.Structure.Format, ds.Structure.Compression = format, comp
				ds.Structure.Schema = map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}
				given = core.CloneStructure(ds.Structure)
			}
		}
		err = detect.Structure(ds)
		st = ds.Structure
	case 1:
		var df dataset.DataFormat
		var cf compression.Format
		df, cf, err = detect.FormatFromFilename("/some/dir.x/" + name)
		if err != nil {
			w.Fail("format", "the format of %q was not recognised: %v", name, err)
		}
		st, n, err = detect.FromReader(df, cf, src)
	case 2:
		dir, e := os.MkdirTemp(os.Getenv("SIM_SCRATCH"), "det")
		if e != nil {
			return
		}
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, name)
		if os.WriteFile(p, data, 0o644) != nil {
			return
		}
		if s.Chance(1, 3) {
			// the file held something else a moment ago
			w.Dim("rewritten")
			old := core.Compress(comp, []byte(core.Pick(s, "one,two,three\n1,2,3\n4,5,6\n", "[[1,2]]", "{\"a\":1}", "", string(plain))))
			if os.WriteFile(p, old, 0o644) == nil {
				if was, err := detect.FromFile(p); err == nil && was != nil {
					// and its structure was edited
					was.Format, was.Schema, was.FormatConfig = "none", nil, nil
				}
			}
			if os.WriteFile(p, data, 0o644) != nil {
				return
			}
		}
		st, err = detect.FromFile(p)
	}
	w.Event("detect %s %s -> %v", format, comp, err)
	cut := src.Fired() && plan.Fault == core.RTruncate
	if err != nil {
		if !src.Fired() && !(how == 2) || how == 2 {
			w.Fail("detect-failed", "detecting the structure of a healthy %s failed: %v", name, err)
		}
		return
	}
	// a decompressor that had all the bytes it needed may drop an error that
	// came along with them
	harmless := comp != "" && plan.Fault == core.RGlitch && plan.WithData
	if src.Fired() && !cut && !harmless && (format == "csv" && (c == nil || len(c.rows) < 1900)) {
		w.Fail("error-swallowed", "the source of a CSV file failed (%s) and a structure was detected", plan.String())
	}
	if cut && comp != "" && format == "csv" && len(c.rows) < 1900 && !(zst(comp) && plan.At <= 8) {
		w.Fail("silent-truncation", "a structure was detected from a %s file cut at byte %d of %d", name, plan.At, len(data))
	}
	if n >= 0 && (format == "json" || format == "csv") && n != src.Delivered {
		w.Fail("byte-count", "detection reports %d bytes read, the source delivered %d", n, src.Delivered)
	}
	if st == nil {
		w.Fail("no-structure", "no structure and no error")
	}
	cf := comp
	if cf == "gz" {
		cf = "gzip"
	}
	if cf == "zstd" {
		cf = "zst"
	}
	canon := st.Compression
	if canon == "gz" {
		canon = "gzip"
	}
	if canon == "zstd" {
		canon = "zst"
	}
	if st.Format != format || canon != cf {
		w.Fail("wrong-format", "%s was detected as format %q compression %q", name, st.Format, st.Compression)
	}
	if format == "csv" && cut {
		return
	}
	if given != nil {
		if d := core.DiffValue(core.DeepCopy(given.Schema), core.DeepCopy(st.Schema)); d != "" {
			w.Fail("given-changed", "detection changed the schema it was given%s", d)
		}
		if hr := st.FormatConfig["headerRow"] == true; hr != c.header {
			w.Fail("wrong-header", "%s: header row detected %v, should be %v", name, hr, c.header)
		}
		if v := st.FormatConfig["variadicFields"] == true; v != c.variadic {
			w.Fail("wrong-variadic", "%s: rows of different lengths detected %v, should be %v", name, v, c.variadic)
		}
	} else if c != nil {
		checkCSV17(w, c, st, name)
	} else {
		tlt := "array"
		if b.TLT == "object" {
			tlt = "object"
		}
		if st.Schema == nil || st.Schema["type"] != tlt {
			w.Fail("wrong-schema", "a %s %s body was detected with schema %v", format, tlt, st.Schema)
		}
	}
	// what was detected reads the data
	if format == "xlsx" {
		return
	}
	var rd io.Reader = bytes.NewReader(data)
	if how == 0 && !faulty {
		rd = ds.BodyFile()
	}
	r, err := dsio.NewEntryReader(st, rd)
	if err != nil {
		w.Fail("unreadable", "%s cannot be opened with the detected structure: %v", name, err)
	}
	max := 0
	if c != nil {
		max = len(c.rows) + 1
	} else {
		max = len(b.Entries)
	}
	es, err := drain(w, r, max)
	r.Close()
	if err != io.EOF {
		w.Fail("unreadable", "%s cannot be read with the detected structure, after %d entries: %v", name, len(es), err)
	}
	if b != nil {
		if d := core.CompareEntries(b, b.Expected(), es, false); d != "" {
			w.Fail("misread", "%s read with the detected structure: %s", name, d)
		}
		return
	}
	rows := c.rows
	if c.header && len(rows) > 0 && rows[0][0].text == c.names[0] && len(es) == len(rows)-1 {
		rows = rows[1:]
	}
	if len(es) != len(rows) {
		w.Fail("misread", "%d rows of %d were read with the detected structure", len(es), len(rows))
	}
	for i, e := range es {
		row, ok := e.Value.([]interface{})
		if !ok || len(row) != len(rows[i]) {
			w.Fail("misread", "row %d has %d cells, read as %s", i, len(rows[i]), core.Show(e.Value))
		}
		for j, x := range rows[i] {
			want := x.val
			if len(row) > len(c.types) {
				want = x.text
			} else if x.kind != c.types[j] && !(x.kind == "integer" && c.types[j] == "number") {
				want = x.text
			}
			if c.types[j%len(c.types)] == "null" && (x.text == "" || x.text == "null") && len(row) <= len(c.types) {
				want = nil
			}
			if ct := c.types[j%len(c.types)]; x.text == "null" && (ct == "object" || ct == "array") {
				continue // a null where an object or array belongs: no contents, or the text
			}
			if c.types[j%len(c.types)] == "boolean" && len(row) <= len(c.types) {
				if v, err := strconv.ParseBool(x.text); err == nil {
					want = v // 0 and 1 are booleans in a column of booleans
				}
			}
			if d := core.DiffValue(want, row[j]); d != "" {
				w.Fail("misread", "row %d cell %d (%q, column type %s)%s", i, j, x.text, c.types[j%len(c.types)], d)
			}
		}
	}
	checkGlobals(w)
}

// checkCSV17 compares a detected CSV structure with the reference.
func checkCSV17(w *core.World, c *csv17, st *dataset.Structure, name string) {
	if hr := st.FormatConfig["headerRow"] == true; hr != c.header {
		w.Fail("wrong-header", "%s: header row detected %v, should be %v", name, hr, c.header)
	}
	if v := st.FormatConfig["variadicFields"] == true; v != c.variadic {
		w.Fail("wrong-variadic", "%s: rows of different lengths detected %v, should be %v", name, v, c.variadic)
	}
	items, _ := st.Schema["items"].(map[string]interface{})
	cols, _ := items["items"].([]interface{})
	if st.Schema["type"] != "array" || items["type"] != "array" || len(cols) != len(c.types) {
		w.Fail("wrong-schema", "%s: %d columns detected, should be %d", name, len(cols), len(c.types))
	}
	for i, x := range cols {
		col, _ := x.(map[string]interface{})
		if c.types[i] != "" && col["type"] != c.types[i] {
			w.Fail("wrong-type", "%s: column %d detected as %v, most of its cells are %s", name, i, col["type"], c.types[i])
		}
		if !c.header {
			if col["title"] != fmt.Sprintf("field_%d", i+1) {
				w.Fail("wrong-title", "%s: column %d without a header is titled %v", name, i, col["title"])
			}
		} else if simpleName(c.names[i]) && col["title"] != c.names[i] {
			w.Fail("wrong-title", "%s: column %d titled %q was detected as %v", name, i, c.names[i], col["title"])
		}
	}
}

func simpleName(t string) bool {
	for _, r := range t {
		if r < 'a' || r > 'z' {
			return false
		}
	}
	return t != ""
}
