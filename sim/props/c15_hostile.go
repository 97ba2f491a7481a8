package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"io"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dsstats/histosketch"
	"github.com/qri-io/dataset/generate"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/dataset/stepfile"
	"github.com/qri-io/dataset/validate"

	"verif/sim/core"
)

func init() {
	reg("C15", "Damaged or hostile bytes never crash, hang or exhaust a reader",
		cfg{quick: 200000, thorough: 4000000, leak: true, budget: 30_000_000, assume: []string{
			"XLSX bodies are damaged by cutting them or in their rows and cells: the archive and sheet parsers are a library's",
			"damaged compressed bodies that decompress to more than 200 kB are skipped",
			"the memory bound is not checked below a zstd decoder, whose window is allocated by the library",
		}}, c15)
}

var hostileTokens = []string{"[", "]", "{", "}", "\"", "\\", ",", ":", "\\u", "\\ud83d", "\\x4", "\\", "null", "nul", "true", "fals", "-", "1e999", "-0", "0x1", "1e", "1.", ".5", "99999999999999999999",
	"\n", "\r", "\r\n", "\r\r", "\"\"", "\x00", "\xff", "\xef\xbb\xbf", "\u2028", "é", "😀", " ", "\t", "/*", "[[[[[[[[", "{\"a\":{\"a\":{\"a\":", "\n---\n", "---",
	"\x9f", "\xbf", "\x5f", "\x7f", "\xff", "\x9b\x7f\xff\xff\xff\xff\xff\xff\xff", "\xbb\x00\x00\x00\x7f\xff\xff\xff\xff", "\x5b\x00\x00\x00\x00\x7f\xff\xff\xff", "\x7b\x00\x00\x00\x01\x00\x00\x00\x00", "\x5a\x7f\xff\xff\xff", "\x7a\x3f\xff\xff\xff", "\x9a\x3f\xff\xff\xff",
	"\x9b\xff\xff\xff\xff\xff\xff\xff\xff", "\x3b\xff\xff\xff\xff\xff\xff\xff\xff", "\x1b\xff\xff\xff\xff\xff\xff\xff\xff", "\x1c", "\x1f", "\x3c", "\x3f", "\x5c", "\x7c", "\x9c", "\xbc", "\xc0", "\xdf", "\xf8", "\xf8\x20", "\xf9\x7c", "\xfa\x7f", "\xfb", "\xfc", "\xfe", "\x58", "\x78", "\x98", "\xb8"}

// damage changes bytes the way broken transfers, other programs and attackers do.
func damage(w *core.World, s *core.Src, data []byte) []byte {
	d := append([]byte{}, data...)
	for n := 1 + s.Intn(5); n > 0; n-- {
		at := 0
		if len(d) > 0 {
			at = s.Intn(len(d))
			switch s.Intn(4) {
			case 0:
				at = s.Intn(min(len(d), 12))
			case 1:
				at = len(d) - 1 - s.Intn(min(len(d), 12))
			}
		}
		kind := s.Weighted(4, 4, 2, 2, 6, 1, 1, 2)
		switch kind {
		case 0:
			if len(d) > 0 {
				d[at] ^= 1 << s.Intn(8)
			}
		case 1:
			if len(d) > 0 {
				d[at] = byte(s.Intn(256))
			}
		case 2:
			to := min(len(d), at+1+s.Intn(9))
			d = append(d[:at:at], d[to:]...)
		case 3:
			to := min(len(d), at+1+s.Intn(20))
			d = append(d[:to:to], d[at:]...)
		case 4:
			tok := hostileTokens[s.Intn(len(hostileTokens))]
			to := at
			if s.Chance(1, 2) {
				to = min(len(d), at+s.Intn(len(tok)+1))
			}
			d = append(d[:at:at], append([]byte(tok), d[to:]...)...)
		case 5:
			d = d[:at]
		case 6:
			tok := hostileTokens[s.Intn(len(hostileTokens))]
			d = append(d[:at:at], append([]byte(strings.Repeat(tok, 1+s.Intn(60))), d[at:]...)...)
		case 7:
			// a binary length of any magnitude
			n := uint64(1)<<uint(s.Intn(64)) - uint64(s.Intn(3))
			tok := []byte{byte(core.Pick(s, 0x40, 0x60, 0x80, 0xa0, 0xc0, 0x00, 0x20) | 27)}
			tok = binary.BigEndian.AppendUint64(tok, n)
			if n < 1<<32 && s.Chance(2, 3) {
				tok = binary.BigEndian.AppendUint32([]byte{tok[0] - 1}, uint32(n))
			}
			to := at
			if s.Chance(1, 2) {
				to = min(len(d), at+1)
			}
			d = append(d[:at:at], append(tok, d[to:]...)...)
		}
		w.Fault("bytes-damaged")
	}
	return d
}

// atBlockEnd breaks off an escape or literal right before a quote or the end
// and moves that to the end of a buffer of the reader.
func atBlockEnd(w *core.World, s *core.Src, data []byte) []byte {
	if len(data) < 2 {
		return data
	}
	w.Fault("bytes-damaged")
	if s.Chance(1, 2) {
		// in the first entry, after which the buffer is full
		head := "["
		if data[0] == '{' {
			head = core.Pick(s, "{", "{\"k\":")
		}
		data = []byte(head + "\"" + strings.Repeat("f", s.Intn(6)) + "\"" + core.Pick(s, "", ",1]", ",\"e\"", "]", strings.Repeat(" ", 5000)))
	}
	at := 1 + s.Intn(len(data)-1)
	for i := 0; i < len(data) && data[at] != '"'; i++ {
		at = 1 + at%(len(data)-1)
	}
	tok := core.Pick(s, "\\", "\\u", "\\u1", "\\u12", "\\u123", "\\ud83d", "\\ud83d\\", "\\ud83d\\u", "\\ud83d\\ude0", "\\x", "\\x4", "\\\\", "n", "nul", "tru", "f", "-", "1e", "\xc3", "\xf0\x9f")
	d := append(append(append([]byte{}, data[:at]...), tok...), data[at:]...)
	if at += len(tok); s.Chance(1, 3) {
		d = d[:at]
	} else {
		at++
	}
	pad := (4096 - at%4096 + core.Pick(s, 0, 0, 0, 4095, 1)) % 4096
	return append(append(append([]byte{}, d[0]), bytes.Repeat([]byte(" "), pad)...), d[1:]...)
}

// raggedRows makes a table's rows longer, shorter or empty, with cells that
// don't fit their columns.
func raggedRows(w *core.World, s *core.Src, b *core.Body) {
	w.Fault("bytes-damaged")
	cell := func() interface{} {
		return core.Pick(s, "", "x", "null", "1", "-", "1e999", "{", "[", "[]", "{}", "[nul", "true", "99999999999999999999", "0x1", " ", "\"", "2001-13-99", strings.Repeat("9", 400), strings.Repeat("[", 50))
	}
	entries := append([]dsio.Entry{}, b.Entries...)
	for n := 1 + s.Intn(4); n > 0 && len(entries) > 0; n-- {
		i := s.Intn(len(entries))
		row := append([]interface{}{}, entries[i].Value.([]interface{})...)
		switch s.Intn(5) {
		case 0:
			for k := 1 + s.Intn(5); k > 0; k-- {
				row = append(row, cell())
			}
		case 1:
			row = row[:s.Intn(len(row)+1)]
		case 2:
			if len(row) > 0 {
				row[s.Intn(len(row))] = cell()
			}
		case 3:
			for k := range row {
				row[k] = cell()
			}
		case 4:
			row = []interface{}{}
		}
		entries[i].Value = row
	}
	b.Entries = entries
}

// memUse is how much was allocated so far.
func memUse() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// memLimit and 200 bytes for each byte of the body is more than twice what
// readers allocate over their lifetime for any damaged body.
const memLimit = 24 << 20

func c15(w *core.World) {
	w.Only("panic", "deadlock", "no-progress", "goroutine-leak", "crash", "too-many-entries", "memory", "endless-error")
	s := w.C.Src("gen")
	pick := s.Weighted(14, 2, 2, 2, 2, 1, 1, 2)
	w.Dim("target%d", pick)
	if pick == 5 {
		text := []byte(strings.Join([]string{"a", "---", "b", "-- -", "c\n---\n"}[:s.Intn(6)], core.Pick(s, "\n", "\r\n", "")))
		steps, err := stepfile.Read(w.NewReader("step", damage(w, s, text), w.GenFrag("step")))
		w.Event("steps %d %v", len(steps), err)
		return
	}
	if pick == 6 {
		h := histosketch.New(uint(1 + s.Intn(8)))
		for i := s.Intn(20); i > 0; i-- {
			h.AddMany(float64(s.Intn(50)), int64(1+s.Intn(3)))
		}
		raw, err := h.MarshalBinary()
		if err != nil {
			return
		}
		if s.Chance(1, 2) {
			raw = raw[:s.Intn(len(raw)+1)]
			w.Fault("bytes-damaged")
		} else {
			raw = damage(w, s, raw)
		}
		before := memUse()
		var g histosketch.Sketch
		err = g.UnmarshalBinary(raw)
		w.Event("sketch %v", err)
		if used := memUse() - before; used > memLimit+200*uint64(len(raw)) {
			w.Fail("memory", "restoring a damaged sketch of %d bytes allocated %d MB", len(raw), used>>20)
		}
		if err == nil {
			if g.Count() >= 1 { // the quantiles of nothing are documented to panic
				g.Quantile(0.5)
				g.Sum(2)
			}
			g.Read()
			g.Add(3)
		}
		return
	}
	if pick == 7 {
		c15document(w, s)
		return
	}
	b := core.GenBody(w, core.BodyOpts{MaxRows: 120})
	block := false
	if b.Format == "xlsx" || b.Format == "csv" && s.Chance(1, 8) {
		raggedRows(w, s, b)
	}
	data := core.RefEncodePlain(w, b)
	switch {
	case b.Format == "xlsx" && s.Chance(2, 3):
	case b.Format == "xlsx":
		if len(data) > 0 {
			data = data[:s.Intn(len(data))]
		}
		w.Fault("bytes-damaged")
	case s.Chance(1, 60):
		// nesting bomb, deeper than any stack the reader may use
		debug.SetMaxStack(128 << 20)
		n := 600000
		b.Comp = ""
		switch b.Format {
		case "cbor":
			data = []byte(strings.Repeat(core.Pick(s, "\x9f", "\x81", "\xc1", "\xbf\x61a", "\xa1\x61a"), n))
			if b.TLT == "array" {
				data = append([]byte{0x9f}, data...)
			} else {
				data = append([]byte("\xbf\x61k"), data...)
			}
		case "json":
			data = []byte(strings.Repeat(core.Pick(s, "[", "{\"a\":", "[[],"), n))
			if b.TLT == "array" {
				data = append([]byte{'['}, data...)
			} else {
				data = append([]byte(`{"k":`), data...)
			}
		default:
			data = []byte(strings.Repeat("[", n))
		}
		b.St.Compression = ""
		w.Fault("nesting-bomb")
	case s.Chance(1, 12):
		data = make([]byte, s.Intn(200))
		for i := range data {
			data[i] = byte(s.Intn(256))
		}
		data = damage(w, s, data)
	case b.Format == "json" && s.Chance(1, 6):
		data = atBlockEnd(w, s, data)
		block = true
	default:
		data = damage(w, s, data)
	}
	comp := b.Comp
	if comp != "" {
		data = core.Compress(comp, data)
		if s.Chance(1, 2) {
			data = damage(w, s, data)
			if plain, _ := core.Decompress(comp, data); len(plain) > 200000 {
				return // a few damaged bytes can stand for megabytes; those only take long
			}
		}
	}
	schedFor(w, comp)
	plan := w.GenFrag("body")
	if len(data) > 100000 {
		plan.Frag = 6
	}
	if s.Chance(1, 6) {
		plan = w.WithFault("body", plan, len(data), core.RTruncate, core.RError, core.RGlitch)
	}
	src := w.NewReader("body", data, plan)
	before := memUse()
	if pick != 4 && s.Chance(1, 5) { // the schema library crashes on some schemas by itself
		damageStructure(w, s, b)
		if s.Chance(1, 3) {
			c15structure(w, s, b)
			return
		}
	}
	st := core.CloneStructure(b.St)
	switch pick {
	case 0:
		var r dsio.EntryReader
		var err error
		if block && s.Chance(2, 3) {
			r, err = dsio.NewJSONReaderSize(st, src, 4096)
		} else {
			r, err = newReader(w, b, src)
		}
		if err != nil {
			w.Event("open %v", err)
			break
		}
		max := len(data) + 2
		if comp != "" {
			max = 1 << 20
		}
		for n := 0; ; n++ {
			_, err := r.ReadEntry()
			if err != nil {
				w.Event("%d entries then %v", n, err != io.EOF)
				break
			}
			if n > max {
				w.Fail("too-many-entries", "%d entries from %d bytes of %s", n, len(data), b.Format)
			}
		}
		// a caller that goes on after an error gets an end sooner or later
		if s.Chance(1, 3) {
			for n := 0; n < 50; n++ {
				if _, err := r.ReadEntry(); err == io.EOF {
					break
				}
			}
		}
		r.Close()
	case 1:
		ds := &dataset.Dataset{}
		if s.Chance(1, 2) {
			ds.Structure = st
			st.Schema = nil
		}
		ds.SetBodyFile(core.NewFile(src, "/sim/"+fileName(b)))
		err := detect.Structure(ds)
		w.Event("detect %v", err != nil)
	case 2:
		ds := &dataset.Dataset{Structure: st}
		ds.SetBodyFile(core.NewFile(src, "/sim/"+fileName(b)))
		_, err := dsstats.Calculate(ds)
		w.Event("stats %v", err != nil)
	case 3:
		ds := &dataset.Dataset{Structure: st}
		ds.SetBodyFile(core.NewFile(src, "/sim/"+fileName(b)))
		_, err := preview.Create(context.Background(), ds)
		w.Event("preview %v", err != nil)
	case 4:
		r, err := dsio.NewEntryReader(st, src)
		if err != nil {
			break
		}
		_, err = validate.EntryReader(r)
		w.Event("validate %v", err != nil)
		r.Close()
	}
	held := len(data)
	if comp != "" {
		held += 200000
	}
	if used := memUse() - before; used > memLimit+200*uint64(held) && !zst(comp) {
		w.Fail("memory", "%d damaged bytes of %s %s made the reader allocate %d MB", len(data), b.Format, comp, used>>20)
	}
}

// damageStructure replaces parts of the structure a body is read with.
func damageStructure(w *core.World, s *core.Src, b *core.Body) {
	b.St = core.CloneStructure(b.St)
	for n := 1 + s.Intn(2); n > 0; n-- {
		w.Fault("structure-damaged")
		odd := func() interface{} {
			return core.Pick[interface{}](s, nil, []interface{}{}, map[string]interface{}{}, "", "x", "array", "object", 3.0, -1.0, true,
				[]interface{}{"string", 3.0}, []interface{}{nil}, []interface{}{[]interface{}{}}, map[string]interface{}{"type": []interface{}{}},
				[]interface{}{map[string]interface{}{"type": nil}}, []interface{}{"null", "string"})
		}
		if s.Chance(1, 6) {
			b.St.FormatConfig = map[string]interface{}{core.Pick(s, "headerRow", "separator", "variadicFields", "sheetName", "lazyQuotes"): odd()}
			continue
		}
		if items, ok := b.St.Schema["items"].(map[string]interface{}); ok && s.Chance(1, 3) {
			// another number of columns than the data has
			if cols, ok := items["items"].([]interface{}); ok && len(cols) > 0 {
				if s.Chance(3, 4) {
					items["items"] = append([]interface{}{}, cols[:s.Intn(len(cols))]...)
				} else {
					items["items"] = append(append([]interface{}{}, cols...), cols[0])
				}
				continue
			}
		}
		if s.Chance(1, 8) || b.St.Schema == nil {
			b.St.Schema, _ = odd().(map[string]interface{})
			continue
		}
		// walk down to somewhere
		var at interface{} = b.St.Schema
		for d := 0; ; d++ {
			stop := s.Chance(1, 4) || d > 6
			switch x := at.(type) {
			case map[string]interface{}:
				ks := core.SortedKeys(x)
				if len(ks) == 0 || s.Chance(1, 8) {
					x[core.Pick(s, "type", "items", "properties", "title")] = odd()
					stop = true
					break
				}
				k := ks[s.Intn(len(ks))]
				if _, leaf := x[k].(string); stop || leaf {
					x[k] = odd()
					stop = true
				} else {
					at = x[k]
				}
			case []interface{}:
				if len(x) == 0 {
					stop = true
					break
				}
				k := s.Intn(len(x))
				if stop {
					x[k] = odd()
				} else {
					at = x[k]
				}
			default:
				stop = true
			}
			if stop {
				break
			}
		}
	}
}

// c15structure uses a damaged structure for writing and generating.
func c15structure(w *core.World, s *core.Src, b *core.Body) {
	if s.Chance(1, 3) {
		g, err := generate.NewTabularGenerator(b.St)
		w.Event("generator %v", err != nil)
		if err == nil {
			g.ReadEntry()
		}
		return
	}
	wr, err := dsio.NewEntryWriter(b.St, w.NewWriter("sink"))
	w.Event("writer %v", err != nil)
	if err != nil {
		return
	}
	for _, e := range b.Entries {
		if err := wr.WriteEntry(e); err != nil {
			w.Event("write %v", err != nil)
			break
		}
	}
	wr.Close()
}

// c15document damages stored component documents.
func c15document(w *core.World, s *core.Src) {
	docs := []string{
		`{"bodyPath":"/a","commit":{"title":"t","timestamp":"2001-01-01T01:01:01Z","qri":"cm:0"},"meta":{"title":"x","keywords":["a"],"license":{"type":"t","url":"u"},"theme":["a"]},"qri":"ds:0","structure":{"format":"csv","formatConfig":{"headerRow":true,"separator":";"},"schema":{"type":"array"},"checksum":"x","depth":2},"readme":{"scriptBytes":"aGk=","scriptPath":"/r"},"transform":{"resources":{"a":{"path":"p"}},"steps":[{"syntax":"x","script":"y"}],"config":{"a":1}},"viz":{"format":"html","scriptPath":"/x"},"stats":{"path":"/s","stats":[]}}`,
		`"/path/to/it"`, `null`, `{}`, `[]`, `3`, `{"title":1}`, `{"structure":"/p","meta":"/m","commit":"/c","viz":"/v","transform":"/t","readme":"/r"}`,
	}
	doc := []byte(docs[s.Weighted(6, 1, 1, 1, 1, 1, 1, 2)])
	if s.Chance(4, 5) {
		doc = damage(w, s, doc)
	}
	var v interface{ UnmarshalJSON([]byte) error }
	switch s.Intn(9) {
	case 0, 1, 2:
		v = &dataset.Dataset{}
	case 3:
		v = &dataset.Structure{}
	case 4:
		v = &dataset.Meta{}
	case 5:
		v = &dataset.Commit{}
	case 6:
		v = &dataset.Transform{}
	case 7:
		v = &dataset.Viz{}
	case 8:
		v = &dataset.Readme{}
	}
	var err error
	if s.Chance(1, 2) {
		err = v.UnmarshalJSON(doc)
	} else {
		err = json.Unmarshal(doc, v)
	}
	w.Event("document %T %v", v, err != nil)
	if err == nil {
		if _, err := json.Marshal(v); err != nil {
			w.Event("marshal %v", err)
		}
	}
	dataset.UnmarshalDataset(doc)
	dataset.UnmarshalStructure(doc)
	dataset.UnmarshalCommit(doc)
	dataset.UnmarshalTransform(doc)
	dataset.UnmarshalViz(doc)
	dataset.UnmarshalReadme(doc)
}
