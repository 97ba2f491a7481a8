package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"math/bits"
	"reflect"
	"strings"
	"time"

	"github.com/qri-io/dataset"

	"verif/sim/core"
)

func init() {
	reg("C20", "Stored documents read back as the documents they were",
		cfg{quick: 150000, thorough: 3000000, assume: []string{
			"secrets of a transform are never encoded, by design",
			"bit damage inside a string of a document is for the store's checksums to detect; the simulated store compares content hashes",
			"years outside 0-9999 cannot be encoded and are not generated",
		}}, c20)
}

// ---- generation

func str20(s *core.Src) string {
	if s.Chance(1, 200) {
		return strings.Repeat("0123456789é\n", core.Pick(s, 100, 400, 1500, 6000))
	}
	return core.Pick(s, "a", "title", "/ipfs/QmAbc", "with \"quotes\"", "é世", "line\nbreak", "<html>&", "tab\t", fmt.Sprint("n", s.Intn(1000)), strings.Repeat("long ", 30), "null", "qri", " lead", "trail ", "\n", "\ufeffbom", "line\u2028sep", "\r\nx\r\n", "\x00", "\x7f", "👩‍👩", "e\u0301", "Z\u00a0", "\u202eltr")
}

func int20(s *core.Src) int {
	return core.Pick(s, 0, 0, 1, 2, 99, 1000, 65536, 1<<31-1, 1<<32, 1<<53-1, s.Intn(1<<30), s.Intn(100))
}

func opt20(s *core.Src) string {
	if s.Chance(1, 2) {
		return ""
	}
	return str20(s)
}

func path20(s *core.Src) string {
	if s.Chance(1, 2) {
		return ""
	}
	return fmt.Sprintf("/ipfs/Qm%06d/%s", s.Intn(1000000), core.Pick(s, "x.json", "dataset.json", "body.csv"))
}

func val20(s *core.Src, depth int) interface{} {
	n := 7
	if depth <= 0 {
		n = 5
	}
	switch s.Intn(n) {
	case 0:
		return str20(s)
	case 1:
		return float64(s.Intn(100000)) / 4
	case 2:
		return s.Chance(1, 2)
	case 3:
		return nil
	case 4:
		return float64(-s.Intn(1000))
	case 5:
		out := make([]interface{}, s.Intn(4))
		for i := range out {
			out[i] = val20(s, depth-1)
		}
		return out
	}
	return map20(s, depth-1)
}

func map20(s *core.Src, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := s.Intn(5); i > 0; i-- {
		m[core.Pick(s, "a", "b", "c", "zz", "Type", "0", "é", "key one", "path", "title")] = val20(s, depth)
	}
	return m
}

func strs20(s *core.Src) []string {
	if s.Chance(1, 2) {
		return nil
	}
	out := make([]string, 1+s.Intn(3))
	for i := range out {
		out[i] = str20(s)
	}
	return out
}

func strMap20(s *core.Src) map[string]string {
	if s.Chance(2, 3) {
		return nil
	}
	m := map[string]string{}
	for i := 1 + s.Intn(3); i > 0; i-- {
		m[core.Pick(s, "a", "b", "c")] = str20(s)
	}
	return m
}

func time20(s *core.Src) time.Time {
	if s.Chance(1, 5) {
		return time.Time{}
	}
	t := time.Unix(int64(s.Intn(2000000000)), int64(core.Pick(s, 0, 0, 1, 999999999, 120000000)))
	switch s.Intn(4) {
	case 0:
		return t.UTC()
	case 1:
		return t.In(time.FixedZone("east", 3600*(1+s.Intn(13))))
	case 2:
		return t.In(time.FixedZone("west", -3600*(1+s.Intn(11))-1800))
	}
	return t.In(time.FixedZone("UTC", 0))
}

func meta20(s *core.Src) *dataset.Meta {
	m := &dataset.Meta{Path: path20(s)}
	if s.Chance(1, 6) {
		return m
	}
	if s.Chance(1, 6) { // only additional values
		m.SetArbitrary(core.Pick(s, "image", "foo"), val20(s, 1))
		return m
	}
	m.AccessURL, m.AccrualPeriodicity, m.Description, m.DownloadURL = opt20(s), opt20(s), opt20(s), opt20(s)
	m.HomeURL, m.Identifier, m.ReadmeURL, m.Title, m.Version = opt20(s), opt20(s), opt20(s), opt20(s), opt20(s)
	m.Keywords, m.Language, m.Theme = strs20(s), strs20(s), strs20(s)
	if s.Chance(1, 3) {
		m.License = &dataset.License{Type: opt20(s), URL: opt20(s)}
	}
	if s.Chance(1, 3) {
		m.Citations = []*dataset.Citation{{Name: opt20(s), URL: opt20(s), Email: opt20(s)}, {Name: str20(s)}}[:1+s.Intn(2)]
	}
	if s.Chance(1, 3) {
		m.Contributors = []*dataset.User{{ID: opt20(s), Fullname: opt20(s), Email: opt20(s)}, {ID: str20(s)}}[:1+s.Intn(2)]
	}
	for i := s.Intn(4); i > 0; i-- {
		m.SetArbitrary(core.Pick(s, "foo", "bar", "image", "data", "length", "timestamp", "keyword", "nested", "x y"), val20(s, 2))
	}
	return m
}

func structure20(s *core.Src) *dataset.Structure {
	st := &dataset.Structure{Path: path20(s)}
	if s.Chance(1, 6) {
		return st
	}
	st.Checksum, st.Compression, st.Encoding = opt20(s), core.Pick(s, "", "gzip", "zst"), core.Pick(s, "", "utf-8")
	st.Format = core.Pick(s, "", "csv", "json", "cbor")
	st.Depth, st.ErrCount, st.Entries, st.Length = int20(s), int20(s), int20(s), int20(s)
	st.Strict = s.Chance(1, 4)
	if s.Chance(1, 2) {
		st.FormatConfig = map[string]interface{}{"headerRow": s.Chance(1, 2)}
		if s.Chance(1, 2) {
			st.FormatConfig["separator"] = ";"
		}
	}
	if s.Chance(1, 2) {
		st.Schema = map20(s, 2)
		st.Schema["type"] = core.Pick(s, "array", "object")
	}
	return st
}

func transform20(s *core.Src) *dataset.Transform {
	t := &dataset.Transform{Path: path20(s)}
	if s.Chance(1, 6) {
		return t
	}
	t.Text, t.ScriptPath, t.Syntax, t.SyntaxVersion = opt20(s), path20(s), opt20(s), opt20(s)
	t.Secrets, t.Syntaxes = strMap20(s), strMap20(s)
	if s.Chance(1, 2) {
		t.Config = map20(s, 2)
		t.Config["k"] = str20(s)
	}
	if s.Chance(1, 3) {
		t.Resources = map[string]*dataset.TransformResource{"a": {Path: str20(s)}, "b": {Path: opt20(s)}}
	}
	if s.Chance(1, 2) {
		for i := 1 + s.Intn(3); i > 0; i-- {
			t.Steps = append(t.Steps, &dataset.TransformStep{Name: opt20(s), Path: path20(s), Syntax: opt20(s), Category: opt20(s), Script: val20(s, 2)})
		}
	}
	if _, ref := refTransform(t).(string); ref {
		t.Secrets = nil // secrets are not encoded, nothing would be left
	}
	return t
}

func dataset20(s *core.Src) *dataset.Dataset {
	ds := &dataset.Dataset{Path: path20(s)}
	if s.Chance(1, 12) {
		return ds
	}
	ds.BodyPath, ds.PreviousPath, ds.ID = path20(s), path20(s), opt20(s)
	ds.Name, ds.Peername, ds.ProfileID = opt20(s), opt20(s), opt20(s)
	ds.NumVersions = int20(s)
	if s.Chance(1, 4) {
		ds.Body = []interface{}{val20(s, 2), "x"}
	}
	if s.Chance(1, 4) {
		ds.BodyBytes = []byte(str20(s) + string([]byte{0, 0xff, byte(s.Intn(256))}))
	}
	if s.Chance(2, 3) {
		c := &dataset.Commit{Path: path20(s)}
		if s.Chance(4, 5) {
			c.Message, c.Signature, c.Title, c.RunID, c.Timestamp = opt20(s), opt20(s), opt20(s), opt20(s), time20(s)
			if s.Chance(1, 2) {
				c.Author = &dataset.User{ID: opt20(s), Fullname: opt20(s), Email: opt20(s)}
			}
		}
		ds.Commit = c
	}
	if s.Chance(2, 3) {
		ds.Meta = meta20(s)
	}
	if s.Chance(2, 3) {
		ds.Structure = structure20(s)
	}
	if s.Chance(1, 2) {
		ds.Readme = &dataset.Readme{Path: path20(s)}
		if s.Chance(4, 5) {
			ds.Readme.Format, ds.Readme.Text, ds.Readme.ScriptPath, ds.Readme.RenderedPath = opt20(s), opt20(s), path20(s), path20(s)
		}
	}
	if s.Chance(1, 2) {
		ds.Viz = &dataset.Viz{Path: path20(s)}
		if s.Chance(4, 5) {
			ds.Viz.Format, ds.Viz.Text, ds.Viz.ScriptPath, ds.Viz.RenderedPath = opt20(s), opt20(s), path20(s), path20(s)
		}
	}
	if s.Chance(1, 2) {
		ds.Transform = transform20(s)
	}
	if s.Chance(1, 2) {
		ds.Stats = &dataset.Stats{Path: path20(s)}
		if s.Chance(4, 5) {
			ds.Stats.Stats = []interface{}{map20(s, 2)}
		}
	}
	return ds
}

// edit20 takes over some of the fields of another document.
func edit20(s *core.Src, ds *dataset.Dataset) {
	from := dataset20(s)
	set := func(dst, src interface{}) bool {
		d, f := reflect.ValueOf(dst), reflect.ValueOf(src)
		if d.IsNil() || f.IsNil() || !s.Chance(1, 2) {
			return false
		}
		d, f = d.Elem(), f.Elem()
		for i := 0; i < d.NumField(); i++ {
			if t := d.Type().Field(i); t.PkgPath == "" && t.Name != "Qri" && s.Chance(1, 3) {
				d.Field(i).Set(f.Field(i))
			}
		}
		return true
	}
	if set(ds.Commit, from.Commit) {
		from.Commit = ds.Commit
	}
	if set(ds.Meta, from.Meta) {
		if s.Chance(1, 3) {
			ds.Meta.SetArbitrary(core.Pick(s, "foo", "image"), val20(s, 1))
		}
		from.Meta = ds.Meta
	}
	if set(ds.Structure, from.Structure) {
		from.Structure = ds.Structure
	}
	if set(ds.Readme, from.Readme) {
		from.Readme = ds.Readme
	}
	if set(ds.Viz, from.Viz) {
		from.Viz = ds.Viz
	}
	if set(ds.Transform, from.Transform) {
		if _, ref := refTransform(ds.Transform).(string); ref {
			ds.Transform.Secrets = nil
		}
		from.Transform = ds.Transform
	}
	if set(ds.Stats, from.Stats) {
		from.Stats = ds.Stats
	}
	set(ds, from)
}

// component20 saves one component as a document of its own.
func component20(w *core.World, s *core.Src, ds *dataset.Dataset) {
	if !s.Chance(1, 2) {
		return
	}
	type doc interface {
		MarshalJSON() ([]byte, error)
		MarshalJSONObject() ([]byte, error)
		UnmarshalJSON([]byte) error
	}
	type comp struct {
		name    string
		c       doc
		other   func(*dataset.Dataset) doc // the same component of another dataset
		ref     func(interface{}) interface{}
		restore func([]byte) (interface{}, error)
	}
	script := func(kind string) func(interface{}) interface{} {
		return func(v interface{}) interface{} {
			if c, ok := v.(*dataset.Viz); ok {
				return refScript(c.Format, c.Text, c.ScriptPath, c.RenderedPath, c.Path, kind)
			}
			c := v.(*dataset.Readme)
			return refScript(c.Format, c.Text, c.ScriptPath, c.RenderedPath, c.Path, kind)
		}
	}
	var cs []comp
	if c := ds.Commit; c != nil {
		cs = append(cs, comp{"commit", c, func(d *dataset.Dataset) doc {
			if d.Commit == nil {
				d.Commit = &dataset.Commit{}
			}
			return d.Commit
		}, func(v interface{}) interface{} { return refCommit(v.(*dataset.Commit)) }, func(b []byte) (interface{}, error) { return dataset.UnmarshalCommit(b) }})
	}
	if c := ds.Meta; c != nil {
		cs = append(cs, comp{"meta", c, func(d *dataset.Dataset) doc {
			if d.Meta == nil {
				d.Meta = &dataset.Meta{}
			}
			return d.Meta
		}, func(v interface{}) interface{} { return refMeta(v.(*dataset.Meta)) }, func(b []byte) (interface{}, error) {
			g := &dataset.Meta{}
			return g, json.Unmarshal(b, g)
		}})
	}
	if c := ds.Structure; c != nil {
		cs = append(cs, comp{"structure", c, func(d *dataset.Dataset) doc {
			if d.Structure == nil {
				d.Structure = &dataset.Structure{}
			}
			return d.Structure
		}, func(v interface{}) interface{} { return refStructure(v.(*dataset.Structure)) }, func(b []byte) (interface{}, error) { return dataset.UnmarshalStructure(b) }})
	}
	if c := ds.Transform; c != nil {
		cs = append(cs, comp{"transform", c, func(d *dataset.Dataset) doc {
			if d.Transform == nil {
				d.Transform = &dataset.Transform{}
			}
			return d.Transform
		}, func(v interface{}) interface{} { return refTransform(v.(*dataset.Transform)) }, func(b []byte) (interface{}, error) { return dataset.UnmarshalTransform(b) }})
	}
	if c := ds.Readme; c != nil {
		cs = append(cs, comp{"readme", c, func(d *dataset.Dataset) doc {
			if d.Readme == nil {
				d.Readme = &dataset.Readme{}
			}
			return d.Readme
		}, script("rm:0"), func(b []byte) (interface{}, error) { return dataset.UnmarshalReadme(b) }})
	}
	if c := ds.Viz; c != nil {
		cs = append(cs, comp{"viz", c, func(d *dataset.Dataset) doc {
			if d.Viz == nil {
				d.Viz = &dataset.Viz{}
			}
			return d.Viz
		}, script("vz:0"), func(b []byte) (interface{}, error) { return dataset.UnmarshalViz(b) }})
	}
	if c := ds.Stats; c != nil {
		cs = append(cs, comp{"stats", c, func(d *dataset.Dataset) doc {
			if d.Stats == nil {
				d.Stats = &dataset.Stats{}
			}
			return d.Stats
		}, func(v interface{}) interface{} { return refStats(v.(*dataset.Stats)) }, func(b []byte) (interface{}, error) {
			g := &dataset.Stats{}
			return g, json.Unmarshal(b, g)
		}})
	}
	if len(cs) == 0 {
		return
	}
	c := cs[s.Intn(len(cs))]
	want := norm20(c.ref(c.c))
	save, object := c.c.MarshalJSON, s.Chance(1, 2)
	if object {
		save = c.c.MarshalJSONObject
	}
	data, err := save()
	w.Event("component %s object=%v: %d bytes, %v", c.name, object, len(data), err)
	w.Dim("component %s object%v", c.name, object)
	if err != nil {
		w.Fail("encode", "the %s cannot be encoded: %v", c.name, err)
	}
	if object && !bytes.HasPrefix(data, []byte("{")) {
		w.Fail("encode", "the %s was to be saved as an object, saved as %s", c.name, core.Show(string(data)))
	}
	var target interface{}
	restore := func(b []byte) error {
		var err error
		target, err = c.restore(b)
		return err
	}
	var before interface{}
	old := data
	if s.Chance(1, 2) {
		// into a component that is in use
		used := c.other(dataset20(s))
		if s.Chance(1, 4) {
			used = c.other(&dataset.Dataset{})
		}
		target, before = used, norm20(c.ref(used))
		old, _ = used.MarshalJSON()
		restore = func(b []byte) error {
			if s.Chance(1, 2) {
				return used.UnmarshalJSON(b)
			}
			return json.Unmarshal(b, used)
		}
	}
	stored, torn := store20(w, s, data, old)
	err = restore(stored)
	if torn {
		if err == nil {
			if json.Valid(stored) {
				return // the bytes of two versions made a document
			}
			w.Fail("torn-document", "%d bytes of a damaged %s of %d bytes were accepted as a %s", len(stored), c.name, len(data), c.name)
		}
		if before != nil {
			if d := core.DiffValue(before, norm20(c.ref(target))); d != "" {
				w.Fail("half-decoded", "a %s in use was changed by a damaged one that was refused%s", c.name, d)
			}
		}
		return
	}
	if err != nil {
		w.Fail("unreadable", "an encoded %s cannot be read back: %v\n%s", c.name, err, core.Show(string(data)))
	}
	if d := core.DiffValue(want, norm20(c.ref(target))); d != "" {
		w.Fail("changed", "the %s read back from storage (into one in use: %v) differs%s\nencoded %s", c.name, before != nil, d, core.Show(string(data)))
	}
}

// ---- the reference: what a document says, as plain JSON values

func put20(m map[string]interface{}, k string, v interface{}) {
	if v == nil {
		return
	}
	switch x := v.(type) {
	case string:
		if x == "" {
			return
		}
	case int:
		if x == 0 {
			return
		}
	case bool:
		if !x {
			return
		}
	}
	if rv := reflect.ValueOf(v); (rv.Kind() == reflect.Map || rv.Kind() == reflect.Slice) && rv.Len() == 0 {
		return
	}
	m[k] = v
}

// whole20 is the content of a component, or its path where it has no content.
func whole20(m map[string]interface{}, path, kind string) interface{} {
	if len(m) == 0 && path != "" {
		return path
	}
	put20(m, "path", path)
	m["qri"] = kind
	return m
}

func user20(u *dataset.User) map[string]interface{} {
	m := map[string]interface{}{}
	put20(m, "id", u.ID)
	put20(m, "name", u.Fullname)
	put20(m, "email", u.Email)
	return m
}

func refCommit(c *dataset.Commit) interface{} {
	m := map[string]interface{}{}
	if c.Author != nil {
		m["author"] = user20(c.Author)
	}
	put20(m, "message", c.Message)
	put20(m, "signature", c.Signature)
	put20(m, "runID", c.RunID)
	put20(m, "title", c.Title)
	if !c.Timestamp.IsZero() {
		m["timestamp"] = c.Timestamp.UTC().Format(time.RFC3339Nano)
	}
	return whole20(m, c.Path, "cm:0")
}

// names that are fields of metadata, no additional value has them
var standard20 = map[string]bool{"accessURL": true, "accrualPeriodicity": true, "citations": true, "contributors": true, "description": true, "downloadURL": true,
	"homeURL": true, "identifier": true, "keywords": true, "language": true, "license": true, "path": true, "qri": true, "readmeURL": true, "theme": true, "title": true, "version": true}

func refMeta(d *dataset.Meta) interface{} {
	m := map[string]interface{}{}
	for k, v := range d.Meta() {
		if !standard20[k] {
			m[k] = v
		}
	}
	for k, v := range map[string]string{"accessURL": d.AccessURL, "accrualPeriodicity": d.AccrualPeriodicity, "description": d.Description, "downloadURL": d.DownloadURL,
		"homeURL": d.HomeURL, "identifier": d.Identifier, "readmeURL": d.ReadmeURL, "title": d.Title, "version": d.Version} {
		put20(m, k, v)
	}
	put20(m, "keywords", d.Keywords)
	put20(m, "language", d.Language)
	put20(m, "theme", d.Theme)
	if d.License != nil {
		l := map[string]interface{}{}
		put20(l, "type", d.License.Type)
		put20(l, "url", d.License.URL)
		m["license"] = l
	}
	var cs, us []interface{}
	for _, c := range d.Citations {
		x := map[string]interface{}{}
		put20(x, "name", c.Name)
		put20(x, "url", c.URL)
		put20(x, "email", c.Email)
		cs = append(cs, x)
	}
	for _, u := range d.Contributors {
		us = append(us, user20(u))
	}
	put20(m, "citations", cs)
	put20(m, "contributors", us)
	return whole20(m, d.Path, "md:0")
}

func refStructure(st *dataset.Structure) interface{} {
	m := map[string]interface{}{}
	put20(m, "checksum", st.Checksum)
	put20(m, "compression", st.Compression)
	put20(m, "depth", st.Depth)
	put20(m, "encoding", st.Encoding)
	put20(m, "errCount", st.ErrCount)
	put20(m, "entries", st.Entries)
	put20(m, "format", st.Format)
	put20(m, "formatConfig", st.FormatConfig)
	put20(m, "length", st.Length)
	put20(m, "schema", st.Schema)
	put20(m, "strict", st.Strict)
	return whole20(m, st.Path, "st:0")
}

func refScript(format, text, script, rendered, path, kind string) interface{} {
	m := map[string]interface{}{}
	put20(m, "format", format)
	put20(m, "text", text)
	put20(m, "scriptPath", script)
	put20(m, "renderedPath", rendered)
	return whole20(m, path, kind)
}

func refStats(st *dataset.Stats) interface{} {
	m := map[string]interface{}{}
	put20(m, "stats", st.Stats)
	return whole20(m, st.Path, "sa:0")
}

func refTransform(t *dataset.Transform) interface{} {
	m := map[string]interface{}{}
	put20(m, "config", t.Config)
	put20(m, "text", t.Text)
	put20(m, "scriptPath", t.ScriptPath)
	put20(m, "syntax", t.Syntax)
	put20(m, "syntaxVersion", t.SyntaxVersion)
	put20(m, "syntaxes", t.Syntaxes)
	if len(t.Resources) > 0 {
		r := map[string]interface{}{}
		for k, v := range t.Resources {
			r[k] = map[string]interface{}{"path": v.Path}
		}
		m["resources"] = r
	}
	var steps []interface{}
	for _, st := range t.Steps {
		x := map[string]interface{}{"name": st.Name, "syntax": st.Syntax, "category": st.Category, "script": st.Script}
		put20(x, "path", st.Path)
		steps = append(steps, x)
	}
	put20(m, "steps", steps)
	return whole20(m, t.Path, "tf:0")
}

func refDataset(ds *dataset.Dataset) interface{} {
	m := map[string]interface{}{}
	put20(m, "body", ds.Body)
	if ds.BodyBytes != nil {
		m["bodyBytes"] = base64.StdEncoding.EncodeToString(ds.BodyBytes)
	}
	put20(m, "bodyPath", ds.BodyPath)
	put20(m, "id", ds.ID)
	put20(m, "name", ds.Name)
	put20(m, "peername", ds.Peername)
	put20(m, "previousPath", ds.PreviousPath)
	put20(m, "profileID", ds.ProfileID)
	put := func(k string, v interface{}) {
		if v != nil {
			m[k] = v
		}
	}
	if ds.Commit != nil {
		put("commit", refCommit(ds.Commit))
	}
	if ds.Meta != nil {
		put("meta", refMeta(ds.Meta))
	}
	if ds.Structure != nil {
		put("structure", refStructure(ds.Structure))
	}
	if r := ds.Readme; r != nil {
		put("readme", refScript(r.Format, r.Text, r.ScriptPath, r.RenderedPath, r.Path, "rm:0"))
	}
	if v := ds.Viz; v != nil {
		put("viz", refScript(v.Format, v.Text, v.ScriptPath, v.RenderedPath, v.Path, "vz:0"))
	}
	if ds.Transform != nil {
		put("transform", refTransform(ds.Transform))
	}
	if ds.Stats != nil {
		put("stats", refStats(ds.Stats))
	}
	if len(m) == 0 && ds.Path != "" {
		return ds.Path
	}
	put20(m, "path", ds.Path)
	put20(m, "numVersions", ds.NumVersions)
	m["qri"] = "ds:0"
	return m
}

// norm20 brings a document into the form two equal documents share: plain
// JSON values, times in UTC, nothing where a field is empty.
func norm20(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	var out interface{}
	json.Unmarshal(b, &out)
	return out
}

// fields whose empty value is written out
func prune20(doc interface{}) interface{} {
	m, ok := doc.(map[string]interface{})
	if !ok {
		return doc
	}
	if c, ok := m["commit"].(map[string]interface{}); ok {
		if c["title"] == "" {
			delete(c, "title")
		}
		if ts, ok := c["timestamp"].(string); ok {
			t, err := time.Parse(time.RFC3339Nano, ts)
			if err == nil && t.IsZero() {
				delete(c, "timestamp")
			} else if err == nil {
				c["timestamp"] = t.UTC().Format(time.RFC3339Nano)
			}
		}
	}
	if st, ok := m["structure"].(map[string]interface{}); ok && st["format"] == "" {
		delete(st, "format")
	}
	return m
}

func refHash(data []byte) string {
	h := sha256.Sum256(data)
	mh := append([]byte{0x12, 0x20}, h[:]...)
	const abc = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	x, base, mod := new(big.Int).SetBytes(mh), big.NewInt(58), new(big.Int)
	var out []byte
	for x.Sign() > 0 {
		x.DivMod(x, base, mod)
		out = append([]byte{abc[mod.Int64()]}, out...)
	}
	return string(out)
}

// ---- the scenario: versions of a document go through a store that fails

func c20(w *core.World) {
	s := w.C.Src("gen")
	if s.Chance(1, 4) {
		w.Concurrent(true, core.Pick(s, 5, 40))
	}
	w.NonTrivial()
	var used *dataset.Dataset
	for v := 1 + s.Intn(3); v > 0; v-- {
		ds := dataset20(s)
		if used != nil && s.Chance(1, 3) {
			ds.PreviousPath = used.Path
		}
		if used != nil && s.Chance(1, 3) {
			ds, used = used, nil // the next version of a document read back
			edit20(s, ds)
		}
		data := encode20(w, s, ds)
		for s.Chance(1, 3) { // edited and saved again
			edit20(s, ds)
			data = encode20(w, s, ds)
		}
		component20(w, s, ds)
		if s.Chance(1, 4) {
			fields20(w, s)
		}
		if s.Chance(1, 12) {
			hash20(w, s)
		}
		if s.Chance(1, 8) {
			options20(w, s)
		}
		got := &dataset.Dataset{}
		var snap interface{}
		last := data
		if used != nil && s.Chance(1, 2) {
			got = used // decoded into a document in use
			snap = norm20(refDataset(used))
			last, _ = json.Marshal(used)
		}
		stored, torn := store20(w, s, data, last)
		var err error
		switch {
		case got.IsEmpty() && got.Path == "" && s.Chance(1, 2):
			got, err = dataset.UnmarshalDataset(stored)
		default:
			err = json.Unmarshal(stored, got)
		}
		w.Event("load %d of %d bytes -> %v", len(stored), len(data), err)
		w.Dim("torn%v err%v into-used%v", torn, err != nil, snap != nil)
		if m, ok := refDataset(ds).(map[string]interface{}); ok {
			for _, k := range core.SortedKeys(m) {
				_, ref := m[k].(string)
				w.Dim("has %s ref%v", k, ref)
			}
		}
		if torn {
			if err == nil {
				if json.Valid(stored) {
					used = nil
					continue // the bytes of two versions made a document
				}
				w.Fail("torn-document", "%d bytes of a damaged document of %d bytes were accepted as a document", len(stored), len(data))
			}
			if snap != nil && !reflect.DeepEqual(snap, norm20(refDataset(used))) {
				w.Fail("half-decoded", "a document in use was changed by a torn one")
			}
			continue
		}
		if err != nil {
			w.Fail("unreadable", "an encoded document cannot be read back: %v\n%s", err, core.Show(string(data)))
		}
		want := norm20(refDataset(ds))
		if d := core.DiffValue(want, norm20(refDataset(got))); d != "" {
			w.Fail("changed", "a document read back from storage differs%s\nencoded %s", d, core.Show(string(data)))
		}
		again, err := json.Marshal(got)
		if err != nil || !bytes.Equal(again, data) {
			w.Fail("unstable", "encoding the document read back gives different bytes (%v):\n%s\n%s", err, core.Show(string(data)), core.Show(string(again)))
		}
		if a, b := ds.SigningBytes(), got.SigningBytes(); !bytes.Equal(a, b) {
			w.Fail("signature", "a signature over the document does not hold for the document read back: %s, %s", core.Show(string(a)), core.Show(string(b)))
		}
		checkSigning(w, s, got)
		checkDropped(w, s, ds, got)
		used = got
	}
	checkGlobals(w)
}

// fields20 fills in metadata field by field, as an editing client does with
// values it has from JSON, and compares it with the same metadata decoded as
// one document.
func fields20(w *core.World, s *core.Src) {
	ref := meta20(s)
	ref.Path = ""
	if ref.IsEmpty() {
		return
	}
	data, err := json.Marshal(ref)
	if err != nil {
		w.Fail("encode", "the metadata cannot be encoded: %v", err)
	}
	var doc map[string]interface{}
	whole := &dataset.Meta{}
	if json.Unmarshal(data, &doc) == nil {
		for i := s.Intn(3); i > 0; i-- {
			doc[core.Pick(s, "extra", "more", "a b", "Nested")] = norm20(val20(s, 2))
		}
		data, _ = json.Marshal(doc)
	}
	if json.Unmarshal(data, whole) != nil {
		w.Fail("unreadable", "encoded metadata cannot be read back\n%s", core.Show(string(data)))
	}
	m := &dataset.Meta{}
	keys := core.SortedKeys(doc)
	for _, i := range s.Perm(len(keys)) {
		k := keys[i]
		name := k
		set := m.Set
		switch {
		case standard20[k]:
			if s.Chance(1, 3) {
				name = core.Pick(s, strings.ToLower(k), strings.ToUpper(k), " "+k, k+"\n")
			}
			if s.Chance(1, 5) {
				// the wrong kind of value first
				if err := m.Set(name, core.Pick[interface{}](s, 5.0, true, []interface{}{1.0}, []interface{}{map[string]interface{}{"name": 1.0, "fullname": 1.0}}, map[string]interface{}{"type": false})); err == nil {
					w.Fail("wrong-kind", "metadata field %q was set to the wrong kind of value", name)
				}
			}
		case s.Chance(1, 2):
			set = m.SetArbitrary
		}
		if err := set(name, doc[k]); err != nil {
			w.Fail("unsettable", "metadata field %q cannot be set to %s: %v", name, core.Show(doc[k]), err)
		}
	}
	w.Dim("fields%d", len(keys))
	if d := core.DiffValue(norm20(refMeta(whole)), norm20(refMeta(m))); d != "" {
		w.Fail("fields-differ", "metadata filled in field by field differs from the same document decoded%s\n%s", d, core.Show(string(data)))
	}
	data, _ = json.Marshal(whole)
	if a, err := json.Marshal(m); err != nil || !bytes.Equal(a, data) {
		w.Fail("fields-differ", "metadata filled in field by field is encoded as %s (%v), should be %s", core.Show(string(a)), err, core.Show(string(data)))
	}
}

// hash20 checks content hashes over bytes of many lengths.
func hash20(w *core.World, s *core.Src) {
	n := s.Intn(300)
	if s.Chance(1, 8) {
		n = core.Pick(s, 4096, 1<<15, 1<<16, 1<<17, 1<<18, 1<<20) + s.Range(-1, 70)
	}
	w.Dim("hash of 2^%d bytes", bits.Len(uint(n)))
	data := make([]byte, n)
	for i := 0; i < n; i += 1 + n/50 {
		data[i] = byte(s.Intn(256))
	}
	check := func() {
		if h, err := dataset.HashBytes(data); err != nil || h != refHash(data) {
			w.Fail("hash", "the hash of %d bytes is %s (%v), should be %s", n, h, err, refHash(data))
		}
	}
	check()
	if n > 0 {
		data[core.Pick(s, n-1, 0, s.Intn(n))] ^= 1 << uint(s.Intn(8))
		check()
	}
}

// encode20 encodes a document and checks the encoding.
func encode20(w *core.World, s *core.Src, ds *dataset.Dataset) []byte {
	want := norm20(refDataset(ds))
	var data []byte
	enc := func() []byte {
		b, err := json.Marshal(ds)
		if err != nil {
			w.Fail("encode", "a document cannot be encoded: %v", err)
		}
		return b
	}
	data = enc()
	if s.Chance(1, 3) { // several encoders at once
		var outs [3][]byte
		var ts []*core.Task
		for i := range outs {
			ts = append(ts, w.Go(fmt.Sprint("enc", i), func() { outs[i] = enc() }))
		}
		for _, t := range ts {
			t.Wait()
		}
		for _, o := range outs {
			if !bytes.Equal(o, data) {
				w.Fail("unstable", "encoding a document twice gives different bytes:\n%s\n%s", core.Show(string(data)), core.Show(string(o)))
			}
		}
	}
	var got interface{}
	if err := json.Unmarshal(data, &got); err != nil {
		w.Fail("encode", "an encoded document is not JSON: %v", err)
	}
	if d := core.DiffValue(want, prune20(got)); d != "" {
		w.Fail("encode", "an encoded document differs from the document%s\n%s", d, core.Show(string(data)))
	}
	if d := core.DiffValue(want, norm20(refDataset(ds))); d != "" {
		w.Fail("encode-changed", "encoding a document changed it%s", d)
	}
	h, err := dataset.JSONHash(ds)
	if err != nil || h != refHash(data) {
		w.Fail("hash", "the hash of the document is %s (%v), should be %s", h, err, refHash(data))
	}
	return data
}

// store20 is a store that may keep only part of a write: its first bytes, its
// first bytes and then zeros, or its first bytes and then what was stored before.
func store20(w *core.World, s *core.Src, data, old []byte) (stored []byte, torn bool) {
	if !s.Chance(1, 4) {
		return append([]byte{}, data...), false
	}
	n := s.Intn(len(data))
	stored = append([]byte{}, data[:n]...)
	switch s.Weighted(3, 1, 2, 2) {
	case 0:
		w.Fault("torn-write")
	case 1:
		w.Fault("torn-write-zeros")
		stored = append(stored, make([]byte, len(data)-n)...)
	case 2:
		w.Fault("torn-overwrite")
		if n < len(old) {
			stored = append(stored, old[n:]...)
		}
		if bytes.Equal(stored, data) {
			return stored, false
		}
	case 3:
		// a value was overwritten by one of another kind
		w.Fault("value-overwritten")
		if at := bytes.IndexByte(data[n:], ':'); at >= 0 {
			at += n + 1
			end := at
			for dec := json.NewDecoder(bytes.NewReader(data[at:])); end == at; {
				var v json.RawMessage
				if dec.Decode(&v) != nil {
					break
				}
				end = at + int(dec.InputOffset())
			}
			if end > at {
				stored = append(append(append([]byte{}, data[:at]...), core.Pick(s, "3", "[3]", "{\"a\":3}", "\"x\"", "true", "1e400", "[[]]")...), data[end:]...)
			}
		}
	}
	return stored, true
}

// checkSigning: the bytes to sign name every component, and nothing else.
func checkSigning(w *core.World, s *core.Src, ds *dataset.Dataset) {
	before := ds.SigningBytes()
	var want []string
	add := func(k, v string) {
		if v != "" {
			want = append(want, k+":"+v)
		}
	}
	add("id", ds.ID)
	add("bd", ds.BodyPath)
	if ds.Commit != nil && !ds.Commit.Timestamp.IsZero() {
		add("cm", ds.Commit.Timestamp.UTC().Format(time.RFC3339))
	}
	if ds.Meta != nil {
		add("md", ds.Meta.Path)
	}
	if ds.Readme != nil {
		add("rm", ds.Readme.Path)
	}
	if ds.Structure != nil {
		add("st", ds.Structure.Path)
	}
	if ds.Transform != nil {
		add("tf", ds.Transform.Path)
	}
	if ds.Stats != nil {
		add("sa", ds.Stats.Path)
	}
	if ds.Viz != nil {
		add("vz", ds.Viz.Path)
	}
	if g := string(before); g != strings.Join(want, "\n") {
		w.Fail("signature", "the bytes to sign are %s, the document is %s", core.Show(g), core.Show(strings.Join(want, "\n")))
	}
}

// checkDropped: without transient values, documents that differ only in those
// are one and the same.
func checkDropped(w *core.World, s *core.Src, a, b *dataset.Dataset) {
	if !s.Chance(1, 2) {
		return
	}
	drop := func(ds *dataset.Dataset) {
		ds.DropTransientValues()
		if ds.Commit != nil {
			ds.Commit.DropTransientValues()
		}
		if ds.Meta != nil {
			ds.Meta.DropTransientValues()
		}
		if ds.Structure != nil {
			ds.Structure.DropTransientValues()
		}
		if ds.Readme != nil {
			ds.Readme.DropTransientValues()
		}
		if ds.Viz != nil {
			ds.Viz.DropTransientValues()
		}
		if ds.Transform != nil {
			ds.Transform.DropTransientValues()
		}
	}
	b.Name, b.Peername, b.Path, b.ProfileID, b.NumVersions = str20(s), str20(s), str20(s), str20(s), 1+s.Intn(5)
	b.BodyBytes, b.Body = []byte("x"), "y"
	if b.Commit != nil {
		b.Commit.Path = str20(s)
	}
	if b.Meta != nil {
		b.Meta.Path = str20(s)
	}
	if b.Structure != nil {
		b.Structure.Path = str20(s)
	}
	if b.Readme != nil {
		b.Readme.Path, b.Readme.Text = str20(s), str20(s)
	}
	if b.Viz != nil {
		b.Viz.Path, b.Viz.Text = str20(s), str20(s)
	}
	if b.Transform != nil {
		b.Transform.Path, b.Transform.Text = str20(s), str20(s)
		b.Transform.Secrets = map[string]string{"pw": str20(s)}
	}
	drop(a)
	drop(b)
	if t := b.Transform; t != nil && t.Secrets != nil {
		w.Fail("transient", "a transform keeps its secrets where transient values are dropped: %v", t.Secrets)
	}
	x, err1 := json.Marshal(a)
	y, err2 := json.Marshal(b)
	if err1 != nil || err2 != nil {
		w.Fail("encode", "a document without transient values cannot be encoded: %v %v", err1, err2)
	}
	if !bytes.Equal(x, y) {
		w.Fail("transient", "documents that differ in transient values only are stored differently:\n%s\n%s", core.Show(string(x)), core.Show(string(y)))
	}
	// the same for values a save fills in, whatever they were before
	for _, ds := range []*dataset.Dataset{a, b} {
		ds.Path, ds.Qri = str20(s), str20(s)
		if c := ds.Commit; c != nil {
			c.Path, c.Qri = str20(s), str20(s)
		}
		if c := ds.Meta; c != nil {
			c.Path, c.Qri = str20(s), str20(s)
		}
		if c := ds.Structure; c != nil {
			c.Path, c.Qri, c.Checksum, c.Depth, c.ErrCount, c.Entries, c.Length = str20(s), str20(s), str20(s), s.Intn(3), s.Intn(3), s.Intn(3), s.Intn(3)
		}
		if c := ds.Transform; c != nil {
			c.Path, c.Qri = str20(s), str20(s)
		}
		if c := ds.Readme; c != nil {
			c.Path, c.Qri = str20(s), str20(s)
		}
		if c := ds.Stats; c != nil {
			c.Path, c.Qri = str20(s), str20(s)
		}
		if c := ds.Viz; c != nil {
			c.Path, c.Qri = str20(s), str20(s)
		}
		ds.DropDerivedValues()
	}
	x, err1 = json.Marshal(a)
	y, err2 = json.Marshal(b)
	if err1 != nil || err2 != nil {
		w.Fail("encode", "a document without derived values cannot be encoded: %v %v", err1, err2)
	}
	if !bytes.Equal(x, y) {
		w.Fail("derived", "documents that differ in values filled in by a save only are stored differently:\n%s\n%s", core.Show(string(x)), core.Show(string(y)))
	}
}

// options20: the options of a format survive being stored and read back, and
// so does the name of the format.
func options20(w *core.World, s *core.Src) {
	all := dataset.SupportedDataFormats()
	df := all[s.Intn(len(all))]
	raw, err := json.Marshal(df)
	if err != nil {
		w.Fail("format", "the name of format %q cannot be encoded: %v", df.String(), err)
	}
	var back dataset.DataFormat
	if err := json.Unmarshal(raw, &back); err != nil || back != df {
		w.Fail("format", "format %q is stored as %s and read back as %q: %v", df.String(), raw, back.String(), err)
	}
	if got, err := dataset.ParseDataFormatString(core.Pick(s, "", ".") + df.String()); err != nil || got != df {
		w.Fail("format", "the name %q is taken for %q: %v", df.String(), got.String(), err)
	}
	opts := map[string]interface{}{}
	switch df {
	case dataset.CSVDataFormat:
		for _, k := range []string{"headerRow", "lazyQuotes", "variadicFields"} {
			if s.Chance(1, 2) {
				opts[k] = true
			}
		}
		if s.Chance(1, 2) {
			opts["separator"] = core.Pick(s, ";", "\t", "|", ",", " ", ":", "^", "a", "\x01")
		}
	case dataset.JSONDataFormat:
		if s.Chance(1, 2) {
			opts["pretty"] = s.Chance(1, 2)
		}
		if s.Chance(1, 3) {
			opts["note"] = core.Pick[interface{}](s, "x", 1.5, nil, []interface{}{"a"}, map[string]interface{}{"b": true})
		}
	case dataset.XLSXDataFormat:
		if s.Chance(2, 3) {
			opts["sheetName"] = core.Pick(s, "Sheet1", "data", "é 1", " ")
		}
	default:
		return
	}
	w.Dim("options of %s", df.String())
	given := core.DeepCopy(opts)
	now := opts
	for i := 1 + s.Intn(3); i > 0; i-- {
		cfg, err := dataset.ParseFormatConfigMap(df, now)
		if err != nil {
			w.Fail("options", "the %s options %s, stored as %s, are refused: %v", df.String(), core.Show(given), core.Show(now), err)
		}
		if d := core.DiffValue(given, core.DeepCopy(opts)); d != "" {
			w.Fail("options", "parsing %s options changed them%s", df.String(), d)
		}
		if cfg.Format() != df {
			w.Fail("options", "options of %s are options of %s once parsed", df.String(), cfg.Format().String())
		}
		if c, ok := cfg.(*dataset.CSVOptions); ok {
			sep := ""
			if c.Separator != 0 {
				sep = string(c.Separator)
			}
			want, _ := opts["separator"].(string)
			if c.HeaderRow != (opts["headerRow"] != nil) || c.LazyQuotes != (opts["lazyQuotes"] != nil) || c.VariadicFields != (opts["variadicFields"] != nil) || sep != want {
				w.Fail("options", "the csv options %s are understood as %+v", core.Show(given), *c)
			}
		}
		stored, err := json.Marshal(cfg.Map())
		if err != nil {
			w.Fail("options", "the %s options %s cannot be stored: %v", df.String(), core.Show(given), err)
		}
		now = map[string]interface{}{}
		if err := json.Unmarshal(stored, &now); err != nil {
			w.Fail("options", "%s options are stored as %s: %v", df.String(), stored, err)
		}
		if d := core.DiffValue(given, core.DeepCopy(now)); d != "" {
			w.Fail("options", "the %s options %s are %s once stored%s", df.String(), core.Show(given), stored, d)
		}
	}
}
