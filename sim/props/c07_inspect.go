package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"sort"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/qfs"

	"verif/sim/core"
)

func init() {
	reg("C07", "Inspecting a dataset never consumes or alters its files",
		cfg{quick: 150000, thorough: 3000000}, c07)
	reg("C08", "Previews and renders show exactly the data, or fail",
		cfg{quick: 150000, thorough: 3000000}, c08)
}

// fileName is the name a body of this format and compression carries.
func fileName(b *core.Body) string {
	n := "body." + b.Format
	if b.Comp != "" {
		n += "." + b.Comp
	}
	return n
}

// plainBody draws a body of plain strings and integers.
func plainBody(w *core.World, maxRows int) *core.Body {
	s := w.C.Src("gen")
	b := &core.Body{Format: core.Pick(s, "csv", "json", "cbor", "ndjson"), Comp: core.Pick(s, "", "", "gzip", "zst"), TLT: "array"}
	b.St = &dataset.Structure{Format: b.Format, Compression: b.Comp}
	n := 0
	switch s.Weighted(3, 3, 2) {
	case 0:
		n = s.Intn(12)
	case 1:
		n = s.Intn(maxRows + 1)
	case 2:
		n = min(maxRows, core.Pick(s, 99, 100, 101, 102, 150))
	}
	if b.Format == "csv" {
		b.St.FormatConfig = map[string]interface{}{"headerRow": s.Chance(1, 2)}
		nc := 1 + s.Intn(4)
		items := make([]interface{}, nc)
		for i := range items {
			t := core.Pick(s, "string", "integer")
			b.Cols = append(b.Cols, t)
			items[i] = map[string]interface{}{"title": fmt.Sprintf("c%d", i), "type": t}
		}
		b.St.Schema = map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}
	} else {
		if b.Format != "ndjson" && s.Chance(1, 3) {
			b.TLT = "object"
		}
		b.St.Schema = map[string]interface{}{"type": b.TLT}
	}
	pad := ""
	if s.Chance(1, 3) {
		pad = strings.Repeat("p", s.Intn(400))
	}
	if big := core.Big(s, 2500); big > 0 {
		n = max(n, 1+s.Intn(20))
		pad = string(core.Noise(s, big/n+1))
		w.Dim("big")
	}
	cell := func(t string) interface{} {
		if t == "integer" && len(pad) < 1000 {
			return int64(s.Intn(100000))
		}
		return "v" + fmt.Sprint(s.Intn(100000)) + pad
	}
	rich := s.Chance(1, 3) // values of every kind
	keys := "k%04d"
	if s.Chance(1, 3) {
		keys = core.Pick(s, "%d", "key %d", "%x-key", "ключ%d", "<k&%d>")
	}
	for i := 0; i < n; i++ {
		e := dsio.Entry{Index: i}
		if b.Format == "csv" {
			row := make([]interface{}, len(b.Cols))
			for j := range row {
				row[j] = cell(b.Cols[j])
			}
			e.Value = row
		} else {
			e.Value = cell(core.Pick(s, "string", "integer"))
			if rich && s.Chance(1, 2) {
				e.Value = core.Pick[interface{}](s, nil, nil, true, false, "", 0.25, -3.5, int64(-1), "<b>&amp;\"'", "é", []interface{}{}, []interface{}{int64(1), nil, "x"},
					map[string]interface{}{}, map[string]interface{}{"a": nil, "b": []interface{}{false}})
			}
			if b.TLT == "object" {
				e.Index = 0
				e.Key = fmt.Sprintf(keys, i)
			}
		}
		b.Entries = append(b.Entries, e)
	}
	w.Dim("fmt:%s/%s/%s", b.Format, b.Comp, b.TLT)
	return b
}

// simFile wraps a source as a file that sometimes knows its size.
func simFile(s *core.Src, r *core.Reader, path string) qfs.File {
	f := core.NewFile(r, path)
	if s.Chance(1, 2) {
		return &core.SizedFile{File: f, N: int64(len(r.Data))}
	}
	return f
}

// readRest reads what a file still holds, retrying past transient errors.
func readRest(f io.Reader) (data []byte, failed error) {
	p := make([]byte, 1024)
	for zeros := 0; zeros < 100; {
		n, err := f.Read(p)
		data = append(data, p[:n]...)
		if err == io.EOF {
			return data, failed
		}
		if err != nil {
			if failed != nil {
				return data, failed
			}
			failed = err
		}
		if n == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	return data, failed
}

// checkRestored compares the file left behind with the original contents.
func checkRestored(w *core.World, what string, f io.Reader, src *core.Reader) {
	if f == nil {
		w.Fail("file-lost", "the %s file is gone after inspection", what)
	}
	data, failed := readRest(f)
	want := src.Data
	p := src.Plan
	switch p.Fault {
	case core.RTruncate:
		want = want[:min(p.At, len(want))]
	case core.RError:
		// bytes up to the error, and the error
		if !bytes.HasPrefix(want, data) || len(data) < min(p.At, len(want)) {
			w.Fail("file-consumed", "%s file held %d bytes before its source fails, %d are left after inspection%s", what, p.At, len(data), firstDiff(want, data))
		}
		if failed == nil {
			w.Fail("file-error-hidden", "the %s file's source fails after %d bytes; after inspection the file ends cleanly after %d", what, p.At, len(data))
		}
		return
	}
	if !bytes.Equal(data, want) {
		w.Fail("file-consumed", "%s file held %d bytes, %d are left after inspection%s", what, len(want), len(data), firstDiff(want, data))
	}
}

func firstDiff(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf(" (first difference at %d)", i)
		}
	}
	return ""
}

type inspected struct {
	ds                 *dataset.Dataset
	b                  *core.Body
	body, readme, viz  *core.Reader
	readmeText, script string
	faulty             bool
}

func renderScript(s *core.Src, n int) (script string, wins [][2]int, counts []bool) {
	return renderScriptOf(s, n, false)
}

// kindTmpl names the kind of a value as a template sees it.
const kindTmpl = `{{ define "kind" }}:{{ if isType . "string" }}s{{ end }}{{ if isType . "number" }}n{{ end }}{{ if isType . "boolean" }}b{{ end }}{{ if isType . "object" }}o{{ end }}{{ if isType . "array" }}a{{ end }}{{ end }}`

func kindOf(v interface{}) string {
	switch v.(type) {
	case string:
		return ":s"
	case int, int64, float64:
		return ":n"
	case bool:
		return ":b"
	case map[string]interface{}:
		return ":o"
	case []interface{}:
		return ":a"
	}
	return ":"
}

func renderScriptOf(s *core.Src, n int, kinds bool) (script string, wins [][2]int, counts []bool) {
	var sb strings.Builder
	show := func(v string) string { return `{{ printf "%v" ` + v + ` }}` }
	if kinds {
		sb.WriteString(kindTmpl)
		show = func(v string) string { return `{{ printf "%v" ` + v + ` }}{{ template "kind" ` + v + ` }}` }
	}
	sb.WriteString("<html>")
	for i := s.Intn(3); i >= 0; i-- {
		if s.Chance(1, 4) {
			wins = append(wins, [2]int{0, -1})
			sb.WriteString("{{ $e := allBodyEntries }}")
		} else {
			off, lim := window(s, n)
			wins = append(wins, [2]int{off, lim})
			fmt.Fprintf(&sb, "{{ $e := bodyEntries %d %d }}", off, lim)
		}
		count := "{{ len $e }}"
		if s.Chance(1, 3) {
			// a template that would show nothing where there is nothing to range over
			count = "-"
		}
		counts = append(counts, count == "-")
		sb.WriteString("#" + count + ":{{ range $k, $v := $e }}{{ $k }}={{ if isType $v \"array\" }}{{ range $v }}" + show(".") + "|{{ end }}{{ else }}" + show("$v") + "|{{ end }};{{ end }}\n")
	}
	if big := core.Big(s, 4000); big > 0 {
		sb.WriteString(string(core.Noise(s, big)))
	}
	if s.Chance(1, 3) {
		sb.WriteString("<!-- " + strings.Repeat("x", s.Intn(5000)) + " -->")
	}
	return sb.String(), wins, counts
}

// newInspected builds a dataset whose files are simulated sources. fault
// chooses which of them may fail.
func newInspected(w *core.World, faulty bool, script string, b *core.Body) *inspected {
	s := w.C.Src("gen")
	x := &inspected{b: b, script: script, faulty: faulty}
	schedFor(w, b.Comp)
	data := core.RefEncode(w, b)
	x.readmeText = strings.Repeat("# readme ", s.Intn(5)) + strings.Repeat("0123456789", s.Intn(20))
	if s.Chance(1, 2) {
		n := core.Pick(s, 0, 1, 996, 997, 998, 1500, 2500, 5000)
		var sb strings.Builder
		for i := 0; sb.Len() < n; i++ {
			fmt.Fprintf(&sb, "%d%s", i, core.Pick(s, ",", ",", "\n", " ", "\r\n", ".", "...", "é", "\n\n"))
		}
		x.readmeText = sb.String()[:n]
		if n > 990 && s.Chance(1, 3) {
			// something special right where a preview ends
			x.readmeText = x.readmeText[:996] + core.Pick(s, "\n", " ", ".", "\t", "\x00", "\r") + x.readmeText[min(n, 997):]
		}
	}
	x.readmeText = core.Edged(s, x.readmeText)
	if big := core.Big(s, 4000); big > 0 {
		x.readmeText += string(core.Noise(s, big))
	}
	mk := func(name string, data []byte, may bool) *core.Reader {
		plan := w.GenFrag(name)
		if faulty && may {
			plan = w.WithFault(name, plan, len(data), core.RNone, core.RError, core.RGlitch, core.RTruncate)
			if zst(b.Comp) && plan.Err == io.ErrUnexpectedEOF {
				plan.Err = core.ErrInjected
			}
			w.Dim("%s-fault%d", name, plan.Fault)
		}
		return w.NewReader(name, data, plan)
	}
	x.body = mk("body", data, true)
	x.readme = mk("readme", []byte(x.readmeText), true)
	x.viz = mk("viz", []byte(script), true)
	x.ds = &dataset.Dataset{Name: "sim", Peername: "peer", Structure: core.CloneStructure(b.St),
		Meta:   &dataset.Meta{Title: "title"},
		Readme: &dataset.Readme{Format: "md", ScriptPath: "/sim/readme.md"},
		Viz:    &dataset.Viz{Format: "html", ScriptPath: "/sim/viz.html"}}
	x.ds.SetBodyFile(simFile(s, x.body, "/sim/"+fileName(b)))
	x.ds.Readme.SetScriptFile(simFile(s, x.readme, "/sim/readme.md"))
	x.ds.Viz.SetScriptFile(simFile(s, x.viz, "/sim/viz.html"))
	return x
}

func (x *inspected) anyFired() bool { return x.body.Fired() || x.readme.Fired() || x.viz.Fired() }

func c07(w *core.World) {
	s := w.C.Src("gen")
	var b *core.Body
	b = plainBody(w, 160)
	script, _, _ := renderScript(s, len(b.Entries))
	if s.Chance(1, 6) {
		script = core.Pick(s, "{{ bodyEntries 0 3 ", "{{ nope }}", "{{ bodyEntries 1 2 | len | nope }}", "{{ index (bodyEntries 0 1) 99 }}")
	}
	x := newInspected(w, s.Chance(1, 2), script, b)
	given := core.CloneStructure(b.St)
	if s.Chance(1, 3) {
		// leave something to detect
		for k := 1 + s.Intn(2); k > 0 && given != nil; k-- {
			switch s.Intn(8) {
			case 0:
				x.ds.Structure = nil
				given = nil
			case 1:
				x.ds.Structure.FormatConfig = nil
				given.FormatConfig = nil
			case 2:
				x.ds.Structure.Schema = nil
				given.Schema = nil
			case 3:
				x.ds.Structure.Format = ""
				given.Format = ""
			case 4:
				x.ds.Structure.Compression = ""
				given.Compression = ""
			case 5:
				x.ds.Structure.FormatConfig = map[string]interface{}{}
				given.FormatConfig = map[string]interface{}{}
			case 6:
				x.ds.Structure.Schema = map[string]interface{}{}
				given.Schema = map[string]interface{}{}
			case 7:
				given.Checksum, given.Depth, given.Entries, given.ErrCount, given.Length = "QmSum", 3, 7, 2, 99
				given.Encoding, given.Strict, given.Path = "utf8", true, "/st"
				x.ds.Structure.Checksum, x.ds.Structure.Depth, x.ds.Structure.Entries, x.ds.Structure.ErrCount, x.ds.Structure.Length = "QmSum", 3, 7, 2, 99
				x.ds.Structure.Encoding, x.ds.Structure.Strict, x.ds.Structure.Path = "utf8", true, "/st"
			}
		}
		if given != nil && s.Chance(1, 6) {
			// what was given does not agree with the file's name: it still stays
			if s.Chance(1, 2) {
				given.Compression = core.Pick(s, "gzip", "zst", "gz", "zstd")
			} else {
				given.Format = core.Pick(s, "csv", "json", "cbor", "ndjson", "xlsx")
			}
			x.ds.Structure.Compression, x.ds.Structure.Format = given.Compression, given.Format
		}
	}
	if s.Chance(1, 20) {
		x.ds.SetBodyFile(simFile(s, x.body, "/sim/body.unknown"))
	}
	ctx := context.Background()
	if s.Chance(1, 4) {
		// inline text goes along with its file, of which it may be an old version
		x.ds.Readme.Text, x.ds.Viz.Text = core.Pick(s, "", "old readme", x.readmeText), core.Pick(s, "", "old viz")
	}
	steps := 1 + s.Intn(4)
	for i := 0; i < steps; i++ {
		switch s.Intn(3) {
		case 0:
			err := detect.Structure(x.ds)
			w.Event("detect -> %v", err)
			w.Dim("op:detect")
			if given != nil {
				st := x.ds.Structure
				if given.Checksum != "" && (st.Checksum != given.Checksum || st.Depth != 3 || st.Entries != 7 || st.ErrCount != 2 || st.Length != 99 || st.Encoding != "utf8" || !st.Strict || st.Path != "/st") ||
					given.Format != "" && st.Format != given.Format ||
					given.Schema != nil && core.DiffValue(given.Schema, st.Schema) != "" ||
					given.Compression != "" && st.Compression != given.Compression ||
					given.FormatConfig != nil && core.DiffValue(given.FormatConfig, st.FormatConfig) != "" {
					w.Fail("structure-changed", "detection changed a part of the structure that was given")
				}
			}
		case 1:
			if x.ds.Structure == nil {
				continue
			}
			before := x.ds.Structure
			snap := core.CloneStructure(before)
			pre, e1 := json.Marshal(x.ds)
			_, err := preview.Create(ctx, x.ds)
			w.Event("preview -> %v", err)
			w.Dim("op:preview")
			if post, e2 := json.Marshal(x.ds); e1 == nil && (e2 != nil || !bytes.Equal(pre, post)) {
				w.Fail("dataset-changed", "creating a preview changed the dataset document, the readme text is now %s", core.Show(x.ds.Readme.Text))
			}
			if x.ds.Structure != before || !structEqual(before, snap) {
				w.Fail("structure-changed", "creating a preview changed the dataset's structure")
			}
		case 2:
			pre, e1 := json.Marshal(x.ds)
			_, err := dsviz.Render(x.ds)
			w.Event("render -> %v", err)
			w.Dim("op:render")
			post, e2 := json.Marshal(x.ds)
			if e1 == nil && (e2 != nil || !bytes.Equal(pre, post)) {
				w.Fail("dataset-changed", "rendering changed the dataset document")
			}
		}
	}
	if bp, rp, vp := x.ds.BodyFile().FullPath(), x.ds.Readme.ScriptFile().FullPath(), x.ds.Viz.ScriptFile().FullPath(); bp != "/sim/"+fileName(b) && bp != "/sim/body.unknown" || rp != "/sim/readme.md" || vp != "/sim/viz.html" {
		w.Fail("file-path-lost", "after inspection the files are at %q, %q and %q, they were at /sim/%s, /sim/readme.md and /sim/viz.html", bp, rp, vp, fileName(b))
	}
	if n := x.ds.BodyFile().FileName(); n != fileName(b) && n != "body.unknown" {
		w.Fail("file-name-lost", "the body file is called %q after inspection, was %q", n, fileName(b))
	}
	if sf, ok := x.ds.BodyFile().(qfs.SizeFile); ok && sf.Size() >= 0 && sf.Size() != int64(len(x.body.Data)) {
		w.Fail("file-size-wrong", "the body file claims %d bytes after inspection, holds %d", sf.Size(), len(x.body.Data))
	}
	if n, m := x.ds.Readme.ScriptFile().FileName(), x.ds.Viz.ScriptFile().FileName(); n != "readme.md" || m != "viz.html" {
		w.Fail("file-name-lost", "the script files are called %q and %q after inspection, were readme.md and viz.html", n, m)
	}
	checkRestored(w, "body", x.ds.BodyFile(), x.body)
	checkRestored(w, "readme", x.ds.Readme.ScriptFile(), x.readme)
	checkRestored(w, "viz script", x.ds.Viz.ScriptFile(), x.viz)
}

func c08(w *core.World) {
	s := w.C.Src("gen")
	b := plainBody(w, 220)
	n := len(b.Entries)
	kinds := s.Chance(1, 3)
	script, wins, uncounted := renderScriptOf(s, n, kinds)
	kind := func(v interface{}) string {
		if kinds {
			return kindOf(v)
		}
		return ""
	}
	heading := s.Chance(1, 3)
	size := s.Intn(2000) << uint(10*s.Intn(6))
	if heading {
		script += fmt.Sprintf("\n@{{ title }}|{{ .Name }}|{{ ds.name }}|{{ ds.peername }}|{{ ds.structure.format }}|{{ .Meta.Title }}|{{ if ds.commit }}{{ ds.commit.title }}{{ end }}|{{ filesize %d.0 }}\n", size)
	}
	faulty := s.Chance(1, 2)
	x := newInspected(w, faulty, script, b)
	furnish08(s, x.ds)
	given := componentsOf(x.ds)
	ctx := context.Background()
	if !faulty && s.Chance(1, 20) {
		incomplete08(w, s, x)
		return
	}
	cutPlain := func() bool {
		p := x.body.Plan
		return p.Fault == core.RTruncate && p.At < len(x.body.Data) && (b.Comp == "" && b.Format != "cbor" || p.At <= 8 && zst(b.Comp))
	}
	steps := 1 + s.Intn(3)
	var last *dataset.Dataset
	var lastDoc []byte
	for i := 0; i < steps; i++ {
		if i > 0 && s.Chance(1, 4) {
			edit08(w, s, x, i)
		}
		if s.Chance(1, 2) {
			w.Dim("op:preview")
			p, err := preview.Create(ctx, x.ds)
			w.Event("preview -> %v", err)
			if err != nil {
				if !x.anyFired() {
					w.Fail("preview-failed", "preview of a healthy %s %s dataset of %d entries failed: %v", b.Format, b.Comp, n, err)
				}
				continue
			}
			text := x.readmeText
			if x.readme.Plan.Fault == core.RTruncate {
				text = text[:min(len(text), x.readme.Plan.At)]
			}
			if x.readme.Plan.Fault != core.RTruncate || len(text) < preview.MaxReadmePreviewBytes {
				if len(text) >= preview.MaxReadmePreviewBytes {
					text = text[:preview.MaxReadmePreviewBytes] + "..."
				}
				if p.Readme == nil || p.Readme.Text != text {
					w.Fail("preview-readme", "preview readme is %s (%d bytes), should be %s (%d bytes)", core.Show(p.Readme.Text), len(p.Readme.Text), core.Show(text), len(text))
				}
			}
			if d := core.DiffValue(given, componentsOf(p)); d != "" {
				w.Fail("preview-components", "a preview should hold every component of its dataset%s", d)
			}
			if cutPlain() {
				continue
			}
			raw, ok := p.Body.(json.RawMessage)
			if !ok {
				w.Fail("preview-body", "preview body is %T", p.Body)
			}
			pb := subBody(asJSON(b), 0, min(n, preview.MaxNumDatasetRowsInPreview))
			checkStandard(w, pb, raw)
			// an earlier preview stays what it was
			if last != nil {
				if doc, err := json.Marshal(last); err != nil || !bytes.Equal(doc, lastDoc) {
					w.Fail("preview-changed", "a later preview changed an earlier one, it was %s and is %s (%v)", core.Show(string(lastDoc)), core.Show(string(doc)), err)
				}
			}
			last = p
			lastDoc, _ = json.Marshal(p)
			continue
		}
		w.Dim("op:render")
		f, err := dsviz.Render(x.ds)
		w.Event("render -> %v", err)
		if err != nil {
			if !x.anyFired() {
				w.Fail("render-failed", "rendering a healthy %s %s dataset failed: %v", b.Format, b.Comp, err)
			}
			continue
		}
		if cutPlain() || x.viz.Plan.Fault == core.RTruncate {
			continue
		}
		out, err := io.ReadAll(f)
		if err != nil {
			w.Fail("render-failed", "reading the rendered file: %v", err)
		}
		lines := strings.Split(html.UnescapeString(strings.TrimPrefix(string(out), "<html>")), "\n")
		if heading {
			ds := x.ds
			title := ds.Meta.Title
			if title == "" {
				title = ds.Peername + "/" + ds.Name
			}
			commit := ""
			if ds.Commit != nil {
				commit = ds.Commit.Title
			}
			want := strings.Join([]string{"@" + title, ds.Name, ds.Name, ds.Peername, ds.Structure.Format, ds.Meta.Title, commit, byteSize(size)}, "|")
			found := false
			for _, l := range lines {
				found = found || l == want
			}
			if !found {
				w.Fail("render-heading", "a rendered page should hold the line %s, does not", core.Show(want))
			}
		}
		for k, win := range wins {
			lo, hi := 0, n
			if win[1] >= 0 {
				lo, hi = clipWindow(n, win[0], win[1])
			}
			var sb strings.Builder
			if uncounted[k] {
				sb.WriteString("#-:")
			} else {
				fmt.Fprintf(&sb, "#%d:", hi-lo)
			}
			shown := append([]dsio.Entry{}, b.Entries[lo:hi]...)
			if b.TLT == "object" {
				sort.Slice(shown, func(i, j int) bool { return shown[i].Key < shown[j].Key })
			}
			for i, e := range shown {
				if b.TLT == "object" {
					fmt.Fprintf(&sb, "%s=", e.Key)
				} else {
					fmt.Fprintf(&sb, "%d=", i)
				}
				if row, ok := e.Value.([]interface{}); ok {
					for _, c := range row {
						fmt.Fprintf(&sb, "%v%s|", c, kind(c))
					}
				} else {
					fmt.Fprintf(&sb, "%v%s|", e.Value, kind(e.Value))
				}
				sb.WriteString(";")
			}
			if k >= len(lines) || lines[k] != sb.String() {
				got := ""
				if k < len(lines) {
					got = lines[k]
				}
				w.Fail("render-content", "rendering entries [%d,%d) of a %s %s body of %d gave %s, should give %s", lo, hi, b.Format, b.Comp, n, core.Show(got), core.Show(sb.String()))
			}
		}
	}
}

// furnish08 gives a dataset components of its own.
func furnish08(s *core.Src, ds *dataset.Dataset) {
	text := func() string { return core.Pick(s, "", "a title", "t<b>&", "é", "x|y", strings.Repeat("z", 300)) }
	ds.Meta.Title = text()
	ds.Name, ds.Peername = core.Pick(s, "sim", "other", "n_1"), core.Pick(s, "peer", "me")
	if s.Chance(1, 2) {
		ds.Meta.Description, ds.Meta.Keywords = text(), []string{"k", text()}
	}
	if s.Chance(1, 2) {
		ds.Commit = &dataset.Commit{Title: "c" + text(), Message: text(), Path: "/c"}
	}
	if s.Chance(1, 2) {
		ds.Stats = &dataset.Stats{Qri: "sa:0", Stats: []interface{}{map[string]interface{}{"type": "numeric", "count": float64(s.Intn(9))}}}
	}
	if s.Chance(1, 2) {
		ds.Transform = &dataset.Transform{Syntax: "starlark", Text: text(), Config: map[string]interface{}{"a": text()}}
	}
	ds.Structure.Entries, ds.Structure.Length = s.Intn(3), s.Intn(3)
	if s.Chance(1, 3) {
		// text from before its file was edited
		ds.Readme.Text = text()
	}
}

// componentsOf is everything of a dataset a preview carries over as it is.
func componentsOf(ds *dataset.Dataset) interface{} {
	c := &dataset.Dataset{Name: ds.Name, Peername: ds.Peername, Path: ds.Path, Meta: ds.Meta, Commit: ds.Commit, Structure: ds.Structure, Stats: ds.Stats, Viz: ds.Viz, Transform: ds.Transform}
	data, err := json.Marshal(c)
	if err != nil {
		return err.Error()
	}
	var v interface{}
	if err := json.Unmarshal(data, &v); err != nil {
		return err.Error()
	}
	return v
}

// edit08 replaces the readme's file by that of a later version.
func edit08(w *core.World, s *core.Src, x *inspected, i int) {
	w.Dim("edited")
	x.readmeText = fmt.Sprintf("edition %d\n%s", i, strings.Repeat(core.Pick(s, "x", "line\n", "é "), core.Pick(s, 0, 3, 100, 600)))
	name := fmt.Sprintf("readme%d", i)
	x.readme = w.NewReader(name, []byte(x.readmeText), w.GenFrag(name))
	x.ds.Readme.SetScriptFile(simFile(s, x.readme, "/sim/readme.md"))
}

// byteSize is n bytes as people write it.
func byteSize(n int) string {
	unit, names := n, []string{"byte", "KB", "MB", "GB", "TB", "PB"}
	i := 0
	for unit >= 1024 && i < len(names)-1 {
		unit, i = unit/1024, i+1
	}
	if unit == 1 {
		return "1 " + names[i]
	}
	return fmt.Sprintf("%d %ss", unit, names[i])
}

// incomplete08 takes away a part the preview or render needs. There is nothing
// right to show then, so nothing is shown.
func incomplete08(w *core.World, s *core.Src, x *inspected) {
	what := core.Pick(s, "structure", "format", "schema", "body", "viz", "script", "viz format")
	w.Dim("without %s", what)
	body := false
	switch what {
	case "structure":
		x.ds.Structure, body = nil, true
	case "format":
		x.ds.Structure.Format, body = core.Pick(s, "", "xml", "html"), true
	case "schema":
		x.ds.Structure.Schema, body = nil, true
	case "body":
		x.ds.SetBodyFile(nil)
	case "viz":
		x.ds.Viz = nil
	case "script":
		x.ds.Viz.SetScriptFile(nil)
	case "viz format":
		x.ds.Viz.Format = core.Pick(s, "", "md", "HTML", "html5")
	}
	var p *dataset.Dataset
	var err error
	if s.Chance(1, 2) {
		p, err = preview.Create(context.Background(), x.ds)
		w.Event("preview without %s -> %v", what, err)
		if body && err == nil && (what != "schema" || p.Body == nil) {
			w.Fail("preview-incomplete", "a preview of a dataset without a %s shows body %v", what, p.Body)
		}
		if !body && err != nil {
			w.Fail("preview-failed", "a preview of a dataset without a %s failed: %v", what, err)
		}
		if what == "body" && p.Body != nil {
			w.Fail("preview-incomplete", "a preview of a dataset without a body shows %v", p.Body)
		}
		return
	}
	f, err := dsviz.Render(x.ds)
	w.Event("render without %s -> %v", what, err)
	if err != nil {
		return
	}
	out, _ := io.ReadAll(f)
	if what == "schema" && len(x.b.Entries) > 0 && strings.Contains(string(out), "v") {
		return // the data is shown all the same
	}
	w.Fail("render-incomplete", "rendering entries without a %s gave %s", what, core.Show(string(out)))
}
