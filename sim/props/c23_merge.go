package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"

	"verif/sim/core"
)

func init() {
	reg("C23", "Merging documents keeps every value set later",
		cfg{quick: 60000, thorough: 1000000, assume: []string{
			"the additional metadata of a document counts as one field: what is set later replaces it as a whole",
			"the identifier of a document stays once it is set, and its type marker is filled in when saving",
		}}, c23)
}

// components of a dataset document, merged field by field.
var components23 = []string{"Commit", "Meta", "Readme", "Stats", "Structure", "Transform", "Viz"}

// view23 gives the fields of a document that are set.
func view23(doc interface{}) map[string]interface{} {
	out := map[string]interface{}{}
	v := reflect.ValueOf(doc).Elem()
	for i := 0; i < v.NumField(); i++ {
		t, f := v.Type().Field(i), v.Field(i)
		if t.PkgPath != "" || t.Name == "Qri" || f.IsZero() {
			continue
		}
		component := false
		for _, c := range components23 {
			component = component || v.Type().Name() == "Dataset" && t.Name == c
		}
		switch x := f.Interface().(type) {
		case time.Time:
			if !x.IsZero() {
				out[t.Name] = x.Format(time.RFC3339Nano)
			}
		default:
			if component {
				out[t.Name] = view23(x)
			} else {
				out[t.Name] = plain23(f)
			}
		}
	}
	if m, ok := doc.(*dataset.Meta); ok {
		if extra := m.Meta(); len(extra) > 0 {
			out["(additional)"] = plain23(reflect.ValueOf(extra))
		}
	}
	return out
}

// plain23 copies a value down to the last pointer.
func plain23(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return plain23(v.Elem())
	case reflect.Struct:
		out := map[string]interface{}{}
		for i := 0; i < v.NumField(); i++ {
			if t := v.Type().Field(i); t.PkgPath == "" {
				out[t.Name] = plain23(v.Field(i))
			}
		}
		return out
	case reflect.Map:
		out := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			out[k.String()] = plain23(v.MapIndex(k))
		}
		return out
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return string(v.Bytes())
		}
		out := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, plain23(v.Index(i)))
		}
		return out
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return v.Int()
	}
	return v.Interface()
}

// merge23 is the reference: what is set in b wins.
func merge23(a, b map[string]interface{}, name string) {
	for _, k := range core.SortedKeys(b) {
		x := b[k]
		if name == "Dataset" && k == "ID" && a[k] != nil {
			continue // an identifier stays once it is set
		}
		byField := false
		for _, c := range components23 {
			byField = byField || name == "Dataset" && k == c
		}
		byKey := name == "Transform" && (k == "Config" || k == "Resources" || k == "Secrets")
		if old, ok := a[k].(map[string]interface{}); ok && (byField || byKey) {
			if byField {
				merge23(old, x.(map[string]interface{}), k)
			} else {
				for key, val := range x.(map[string]interface{}) {
					old[key] = copy23(val)
				}
			}
			continue
		}
		a[k] = copy23(x)
	}
}

func copy23(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range x {
			out[k] = copy23(e)
		}
		return out
	case []interface{}:
		out := []interface{}{}
		for _, e := range x {
			out = append(out, copy23(e))
		}
		return out
	}
	return v
}

// c23 lets editors merge the same documents, each in its own order, into
// documents of their own. They work at the same time, save now and then, and
// crash: what was saved is then restored and the merging goes on.
func c23(w *core.World) {
	s := w.C.Src("gen")
	nd := 1 + s.Intn(4)
	docs := make([]*dataset.Dataset, nd)
	views := make([]map[string]interface{}, nd)
	for i := range docs {
		docs[i] = dataset20(s)
		if s.Chance(1, 3) {
			f := qfs.NewMemfileBytes(fmt.Sprintf("/f%d", i), []byte("x"))
			if docs[i].Readme != nil {
				docs[i].Readme.SetScriptFile(f)
				docs[i].Readme.SetRenderedFile(qfs.NewMemfileBytes(fmt.Sprintf("/r%d", i), []byte("y")))
			}
			if docs[i].Viz != nil {
				docs[i].Viz.SetScriptFile(f)
				docs[i].Viz.SetRenderedFile(qfs.NewMemfileBytes(fmt.Sprintf("/v%d", i), []byte("z")))
			}
			if docs[i].Transform != nil {
				docs[i].Transform.SetScriptFile(f)
			}
			docs[i].SetBodyFile(f)
		}
		views[i] = view23(docs[i])
	}
	files := make([]map[string]qfs.File, nd)
	for i := range docs {
		files[i] = files23(docs[i])
	}
	check := func(when string) {
		for i, d := range docs {
			if diff := core.DiffValue(views[i], view23(d)); diff != "" {
				w.Fail("input-changed", "document %d, which was merged into another, changed %s%s", i, when, diff)
			}
		}
	}
	n := 1
	if s.Chance(1, 3) {
		n = 2 + s.Intn(2)
		w.Concurrent(true, core.Pick(s, 2, 10, 60))
	}
	w.Dim("docs%d editors%d", nd, n)
	var tasks []*core.Task
	for i := 0; i < n; i++ {
		tag := fmt.Sprint("e", i)
		fn := func() { editor23(w, tag, docs, views, files) }
		if n == 1 {
			fn()
		} else {
			tasks = append(tasks, w.Go(tag, fn))
		}
	}
	for _, t := range tasks {
		t.Wait()
	}
	check("in the meantime")
	w.NonTrivial()
}

func files23(ds *dataset.Dataset) map[string]qfs.File {
	out := map[string]qfs.File{}
	put := func(k string, f qfs.File) {
		if f != nil {
			out[k] = f
		}
	}
	put("body", ds.BodyFile())
	if ds.Readme != nil {
		put("readme", ds.Readme.ScriptFile())
		put("readme-rendered", ds.Readme.RenderedFile())
	}
	if ds.Viz != nil {
		put("viz", ds.Viz.ScriptFile())
		put("viz-rendered", ds.Viz.RenderedFile())
	}
	if ds.Transform != nil {
		put("transform", ds.Transform.ScriptFile())
	}
	return out
}

func editor23(w *core.World, tag string, docs []*dataset.Dataset, views []map[string]interface{}, files []map[string]qfs.File) {
	s := w.C.Src("gen:" + tag)
	var mine *dataset.Dataset
	if s.Chance(1, 2) {
		mine = &dataset.Dataset{}
	} else {
		mine = dataset20(s)
	}
	want := view23(mine)
	wantFiles := files23(mine)
	saved := []byte(nil)
	var savedWant map[string]interface{}
	steps := 1 + s.Intn(6)
	for i := 0; i < steps; i++ {
		switch s.Weighted(6, 2, 2, 1) {
		case 0: // merge some documents at once
			var in []*dataset.Dataset
			for k := 1 + s.Intn(3); k > 0; k-- {
				if s.Chance(1, 10) {
					in = append(in, nil)
					continue
				}
				d := s.Intn(len(docs))
				in = append(in, docs[d])
				merge23(want, views[d], "Dataset")
				for k, f := range files[d] {
					wantFiles[k] = f
				}
			}
			w.Event("%s merge %d", tag, len(in))
			mine.Assign(in...)
		case 1: // a component
			d := docs[s.Intn(len(docs))]
			dv := view23(d)
			c := core.Pick(s, components23...)
			part, _ := dv[c].(map[string]interface{})
			into, _ := want[c].(map[string]interface{})
			if into == nil {
				continue
			}
			w.Dim("component")
			merge23(into, part, c)
			switch c {
			case "Commit":
				mine.Commit.Assign(d.Commit)
			case "Meta":
				mine.Meta.Assign(d.Meta)
			case "Readme":
				mine.Readme.Assign(d.Readme)
			case "Stats":
				mine.Stats.Assign(d.Stats)
			case "Structure":
				mine.Structure.Assign(d.Structure)
			case "Transform":
				mine.Transform.Assign(d.Transform)
			case "Viz":
				mine.Viz.Assign(d.Viz)
			}
			name := strings.ToLower(c)
			for k, f := range files23(d) {
				if k == name || k == name+"-rendered" {
					wantFiles[k] = f
				}
			}
		case 2: // save, or crash and go on from what was saved
			if saved == nil || s.Chance(1, 2) {
				w.Event("%s save", tag)
				data, err := json.Marshal(mine)
				if err != nil {
					w.Fail("save-failed", "saving a merged document failed: %v", err)
				}
				saved = data
				r := &dataset.Dataset{}
				if err := json.Unmarshal(data, r); err != nil {
					w.Fail("restore-failed", "restoring a merged document failed: %v", err)
				}
				savedWant = view23(r)
				continue
			}
			w.Fault("crash-restart")
			w.Event("%s crash", tag)
			mine = &dataset.Dataset{}
			if err := json.Unmarshal(saved, mine); err != nil {
				w.Fail("restore-failed", "restoring a merged document failed: %v", err)
			}
			want = copy23(savedWant).(map[string]interface{})
			wantFiles = map[string]qfs.File{}
		case 3: // edit the merged document
			v := str20(s)
			if mine.Meta != nil && s.Chance(1, 2) {
				mine.Meta.SetArbitrary("own", v)
				m := want["Meta"].(map[string]interface{})
				extra, _ := m["(additional)"].(map[string]interface{})
				if extra == nil {
					extra = map[string]interface{}{}
					m["(additional)"] = extra
				}
				extra["own"] = v
			} else if mine.Structure != nil {
				mine.Structure.Checksum = "own"
				want["Structure"].(map[string]interface{})["Checksum"] = "own"
			} else if mine.Transform != nil && mine.Transform.Config != nil {
				mine.Transform.Config["own"] = v
				want["Transform"].(map[string]interface{})["Config"].(map[string]interface{})["own"] = v
			}
		}
		got := view23(mine)
		if d := core.DiffValue(want, got); d != "" {
			w.Fail("wrong-merge", "a document merged from %d others does not hold the values set last%s", len(docs), d)
		}
		gf := files23(mine)
		for _, k := range core.SortedKeys(wantFiles) {
			if gf[k] != wantFiles[k] {
				w.Fail("wrong-file", "a merged document has lost the %s file set last", k)
			}
		}
	}
}
