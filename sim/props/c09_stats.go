package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"

	"verif/sim/core"
)

func init() {
	reg("C09", "Statistics describe every entry of the body exactly once",
		cfg{quick: 250000, thorough: 5000000, assume: []string{
			"exact frequencies are required only up to the documented 200 distinct strings, exact histograms up to 32 distinct numbers; beyond that totals, bounds and order are checked",
			"the number of distinct strings is an estimate and must lie within 5% (at least 2) of the truth",
			"column kinds follow the first value of the column",
		}}, c09)
}

// statKind is the kind the first value of a column gives it.
func statKind(v interface{}) string {
	switch v.(type) {
	case float64, int64:
		return "numeric"
	case string:
		return "string"
	case bool:
		return "boolean"
	case map[string]interface{}:
		return "object"
	case []interface{}:
		return "array"
	}
	return "null"
}

func toF(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case int64:
		return float64(x), true
	}
	return 0, false
}

// diffStat compares reported statistics with those of the values themselves.
func diffStat(path string, values []interface{}, got map[string]interface{}) string {
	bad := func(f string, a ...interface{}) string { return path + ": " + fmt.Sprintf(f, a...) }
	kind := statKind(values[0])
	num := func(k string) (float64, bool) {
		switch x := got[k].(type) {
		case float64:
			return x, true
		case int:
			return float64(x), true
		}
		return 0, false
	}
	is := func(k string, want float64) string {
		g, ok := num(k)
		if !ok || g != want && math.Abs(g-want) > 1e-9*math.Max(math.Abs(g), math.Abs(want)) {
			return bad("%s is %v, should be %v", k, got[k], want)
		}
		return ""
	}
	switch kind {
	case "numeric":
		var fs []float64
		sum := 0.0
		abs := 0.0
		for _, v := range values {
			if f, ok := toF(v); ok {
				fs = append(fs, f)
				sum += f
				abs += math.Abs(f)
			}
		}
		sort.Float64s(fs)
		if d := is("count", float64(len(fs))); d != "" {
			return d
		}
		if g, ok := num("min"); !ok || g != fs[0] {
			return bad("min is %v, should be %v", got["min"], fs[0])
		}
		if g, ok := num("max"); !ok || g != fs[len(fs)-1] {
			return bad("max is %v, should be %v", got["max"], fs[len(fs)-1])
		}
		mean := sum / float64(len(fs))
		if g, ok := num("mean"); !ok || math.Abs(g-mean) > 1e-9*(abs/float64(len(fs))) {
			return bad("mean is %v, should be %v", got["mean"], mean)
		}
		eps := 1e-6 * math.Max(math.Abs(fs[0]), math.Abs(fs[len(fs)-1]))
		if g, ok := num("median"); ok && (math.IsNaN(g) || g < fs[0]-eps || g > fs[len(fs)-1]+eps) {
			return bad("median %v is outside of [%v,%v]", g, fs[0], fs[len(fs)-1])
		}
		h, ok := got["histogram"].(map[string][]float64)
		if !ok {
			return bad("histogram is missing")
		}
		bins, freqs := h["bins"], h["frequencies"]
		if len(bins) != len(freqs)+1 {
			return bad("histogram has %d bins for %d frequencies", len(bins), len(freqs))
		}
		total := 0.0
		for i, f := range freqs {
			if f <= 0 {
				return bad("histogram frequency %d is %v", i, f)
			}
			total += f
			if i > 0 && bins[i] <= bins[i-1] {
				return bad("histogram bins are not ascending at %d", i)
			}
		}
		if math.Abs(total-float64(len(fs))) > 1e-6*float64(len(fs)) {
			return bad("histogram counts %v values, the column has %d", total, len(fs))
		}
		var uniq []float64
		var cnt []float64
		for i, f := range fs {
			if i == 0 || f != fs[i-1] {
				uniq = append(uniq, f)
				cnt = append(cnt, 0)
			}
			cnt[len(cnt)-1]++
		}
		if len(uniq) <= int(dsstats.HistogramCentroidCount) {
			if len(freqs) != len(uniq) {
				return bad("histogram has %d bins for %d distinct values", len(freqs), len(uniq))
			}
			for i := range uniq {
				if bins[i] != uniq[i] || freqs[i] != cnt[i] {
					return bad("histogram bin %d is %v x%v, should be %v x%v", i, bins[i], freqs[i], uniq[i], cnt[i])
				}
			}
		}
	case "string":
		counts := map[string]int{}
		n, lo, hi := 0, math.MaxInt32, -1
		for _, v := range values {
			if s, ok := v.(string); ok {
				n++
				counts[s]++
				lo, hi = min(lo, len(s)), max(hi, len(s))
			}
		}
		for _, d := range []string{is("count", float64(n)), is("minLength", float64(lo)), is("maxLength", float64(hi))} {
			if d != "" {
				return d
			}
		}
		u, ok := num("unique")
		if !ok || math.Abs(u-float64(len(counts))) > math.Max(2, 0.05*float64(len(counts))) {
			return bad("unique is %v, there are %d distinct strings", got["unique"], len(counts))
		}
		fr, _ := got["frequencies"].(map[string]int)
		if len(counts) <= dsstats.StopFreqCountThreshold {
			if len(fr) != len(counts) {
				return bad("frequencies list %d strings, there are %d", len(fr), len(counts))
			}
			total := 0
			for _, c := range fr {
				total += c
			}
			if total != n {
				return bad("frequencies add up to %d, there are %d strings", total, n)
			}
			for s, c := range counts {
				if len(s) > 40 {
					// strings that look alike once shortened count together
					want, have := 0, 0
					for s2, c2 := range counts {
						if strings.HasPrefix(s2, s[:40]) {
							want += c2
						}
					}
					for s2, c2 := range fr {
						if strings.HasPrefix(s2, s[:40]) {
							have += c2
						}
					}
					if want != have {
						return bad("frequencies of strings that start with %s add up to %d, should be %d", core.Show(s[:40]), have, want)
					}
				} else {
					// a long string's shortened form cannot look like a short one
					if g, ok := fr[s]; !ok || g != c {
						return bad("frequency of %s is %d, should be %d", core.Show(s), g, c)
					}
				}
			}
		} else if len(fr) > dsstats.StopFreqCountThreshold {
			return bad("frequencies list %d strings", len(fr))
		}
	case "boolean":
		t, f := 0, 0
		for _, v := range values {
			if b, ok := v.(bool); ok {
				if b {
					t++
				} else {
					f++
				}
			}
		}
		for _, d := range []string{is("count", float64(t+f)), is("trueCount", float64(t)), is("falseCount", float64(f))} {
			if d != "" {
				return d
			}
		}
	case "null":
		n := 0
		for _, v := range values {
			if v == nil {
				n++
			}
		}
		return is("count", float64(n))
	case "object":
		cols := map[string][]interface{}{}
		for _, v := range values {
			if m, ok := v.(map[string]interface{}); ok {
				for k, e := range m {
					cols[k] = append(cols[k], e)
				}
			}
		}
		for _, k := range core.SortedKeys(cols) {
			child, ok := got[k].(map[string]interface{})
			if !ok {
				return bad("no statistics for key %s", core.Show(k))
			}
			if d := diffStat(path+"."+k, cols[k], child); d != "" {
				return d
			}
		}
	case "array":
		vals, ok := got["values"].([]map[string]interface{})
		if !ok {
			return bad("array statistics hold no values")
		}
		cols := columns(values)
		if len(vals) != len(cols) {
			return bad("array statistics hold %d columns, there are %d", len(vals), len(cols))
		}
		for i := range cols {
			if d := diffStat(fmt.Sprintf("%s[%d]", path, i), cols[i], vals[i]); d != "" {
				return d
			}
		}
	}
	return ""
}

func columns(values []interface{}) (cols [][]interface{}) {
	for _, v := range values {
		if a, ok := v.([]interface{}); ok {
			for i, e := range a {
				if len(cols) <= i {
					cols = append(cols, nil)
				}
				cols[i] = append(cols[i], e)
			}
		}
	}
	return
}

// diffStats compares a stats component with the body.
func diffStats(b *core.Body, got []map[string]interface{}) string {
	if len(b.Entries) == 0 {
		if len(got) != 0 {
			return fmt.Sprintf("an empty body has %d statistics", len(got))
		}
		return ""
	}
	values := make([]interface{}, len(b.Entries))
	for i, e := range b.Entries {
		values[i] = e.Value
	}
	check := func(path string, vs []interface{}, m map[string]interface{}) string {
		if m["type"] != statKind(vs[0]) {
			return fmt.Sprintf("%s: type is %v, should be %s", path, m["type"], statKind(vs[0]))
		}
		return diffStat(path, vs, m)
	}
	switch statKind(values[0]) {
	case "array":
		cols := columns(values)
		if len(cols) != len(got) {
			return fmt.Sprintf("%d columns, %d statistics", len(cols), len(got))
		}
		for i := range cols {
			if d := check(fmt.Sprintf("column %d", i), cols[i], got[i]); d != "" {
				return d
			}
		}
	case "object":
		cols := map[string][]interface{}{}
		for _, v := range values {
			if m, ok := v.(map[string]interface{}); ok {
				for k, e := range m {
					cols[k] = append(cols[k], e)
				}
			}
		}
		if len(cols) != len(got) {
			return fmt.Sprintf("%d keys, %d statistics", len(cols), len(got))
		}
		for i, k := range core.SortedKeys(cols) {
			if got[i]["key"] != k {
				return fmt.Sprintf("statistic %d is for key %v, should be %s", i, got[i]["key"], core.Show(k))
			}
			if d := check("key "+k, cols[k], got[i]); d != "" {
				return d
			}
		}
	default:
		if len(got) != 1 {
			return fmt.Sprintf("%d statistics for a single column", len(got))
		}
		return check("column", values, got[0])
	}
	return ""
}

// statBody draws a body worth counting.
func statBody(w *core.World) *core.Body {
	s := w.C.Src("gen")
	b := &core.Body{Format: core.Pick(s, "csv", "json", "cbor", "ndjson"), Comp: core.Pick(s, "", "", "", "gzip", "zst"), TLT: "array"}
	b.St = &dataset.Structure{Format: b.Format, Compression: b.Comp}
	if (b.Format == "json" || b.Format == "cbor") && s.Chance(1, 3) {
		b.TLT = "object"
	}
	n := core.Pick(s, 1, 2, 3, 0, 10, 31, 33, 40, 100, 250)
	if s.Chance(1, 12) {
		n = 300 + s.Intn(900)
	}
	shape := s.Weighted(4, 3, 3) // rows, objects, scalars
	if b.Format == "csv" {
		shape = 0
	}
	nc := 1 + s.Intn(5)
	if s.Chance(1, 20) {
		nc = core.Pick(s, 9, 16, 17, 33, 64, 65, 100)
		n = min(n, 40)
	}
	types := make([]int, nc)
	spread := make([]int, nc)
	for i := range types {
		types[i] = s.Intn(4)
		spread[i] = core.Pick(s, 3, 1, 31, 33, 32, 190, 210, 500, 100000)
	}
	long := s.Chance(1, 6)
	cell := func(i int) interface{} {
		v := s.Intn(spread[i])
		switch types[i] {
		case 0:
			if s.Chance(1, 30) {
				return core.Pick[int64](s, 1<<53, -(1 << 53), 1<<40, -1<<31, 0)
			}
			return int64(v - spread[i]/2)
		case 1:
			if s.Chance(1, 40) && !(b.Format == "csv" && nc == 1) {
				return core.Pick(s, "", "", " ", "é", "世界", "😀", strings.Repeat("k", 40), strings.Repeat("k", 41), strings.Repeat("é", 20), "null", "0")
			}
			if long {
				return strings.Repeat("long", 8) + fmt.Sprint(v) + strings.Repeat("z", v%30)
			}
			return "s" + fmt.Sprint(v)
		case 2:
			if s.Chance(1, 30) {
				return core.Pick(s, 1e300, -1e300, 1e-300, 0.0, 1.5e19, -2.5e19)
			}
			return float64(v)/8 - 5
		default:
			return v%2 == 0
		}
	}
	b.St.Schema = map[string]interface{}{"type": b.TLT}
	if shape == 0 {
		items := make([]interface{}, nc)
		for i, t := range types {
			b.Cols = append(b.Cols, []string{"integer", "string", "number", "boolean"}[t])
			items[i] = map[string]interface{}{"title": fmt.Sprintf("c%d", i), "type": b.Cols[i]}
		}
		if b.TLT == "array" {
			b.St.Schema["items"] = map[string]interface{}{"type": "array", "items": items}
		}
	}
	ragged := b.Format != "csv" && s.Chance(1, 3)
	mixed := b.Format != "csv" && s.Chance(1, 3)
	val := func(i int) interface{} {
		if mixed && s.Chance(1, 6) {
			return core.Pick[interface{}](s, nil, "other", int64(7), true, 1.5, []interface{}{int64(1)}, map[string]interface{}{"in": "x"})
		}
		if mixed && s.Chance(1, 6) {
			if s.Chance(1, 2) {
				return []interface{}{cell(i), "n"}
			}
			return map[string]interface{}{"a": cell(i), "b": int64(1)}
		}
		return cell(i)
	}
	for k := 0; k < n; k++ {
		e := dsio.Entry{Index: k}
		if b.TLT == "object" {
			e.Index, e.Key = 0, fmt.Sprintf("e%d", k)
		}
		switch shape {
		case 0:
			m := nc
			if ragged {
				m = s.Intn(nc + 1)
			}
			row := make([]interface{}, m)
			for i := range row {
				row[i] = val(i)
			}
			e.Value = row
		case 1:
			o := map[string]interface{}{}
			for i := 0; i < nc; i++ {
				if !ragged || s.Chance(2, 3) {
					o[fmt.Sprintf("f%d", i)] = val(i)
				}
			}
			e.Value = o
		case 2:
			e.Value = val(0)
		}
		b.Entries = append(b.Entries, e)
	}
	w.Dim("fmt:%s/%s/%s shape%d", b.Format, b.Comp, b.TLT, shape)
	w.Dim("rows%d", n)
	return b
}

// goKinds gives some of the numbers in v another type that holds them exactly.
func goKinds(s *core.Src, v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		switch s.Intn(3) {
		case 0:
			return int(x)
		case 1:
			if int64(int32(x)) == x {
				return int32(x)
			}
		}
	case float64:
		if float64(float32(x)) == x && s.Chance(1, 2) {
			return float32(x)
		}
	case []interface{}:
		for i := range x {
			x[i] = goKinds(s, x[i])
		}
	case map[string]interface{}:
		for _, k := range core.SortedKeys(x) {
			x[k] = goKinds(s, x[k])
		}
	}
	return v
}

func c09(w *core.World) {
	s := w.C.Src("gen")
	b := statBody(w)
	schedFor(w, b.Comp)
	data := core.RefEncode(w, b)
	if s.Chance(1, 5) {
		// written entry by entry
		acc := dsstats.NewAccumulator(core.CloneStructure(b.St))
		kinds := s.Chance(1, 3)
		for _, e := range b.Entries {
			v := copyEntry(e)
			if kinds {
				v.Value = goKinds(s, v.Value)
			}
			if err := acc.WriteEntry(v); err != nil {
				w.Fail("write-refused", "%v", err)
			}
		}
		for i := s.Intn(3); i >= 0; i-- {
			acc.Close()
		}
		for i := s.Intn(2); i >= 0; i-- {
			if d := diffStats(b, dsstats.ToMap(acc)); d != "" {
				w.Fail("wrong-stats", "%s", d)
			}
		}
		return
	}
	var src *core.Reader
	if s.Chance(1, 3) {
		src = faultySource(w, b, data)
	} else {
		src = w.NewReader("body", data, w.GenFrag("body"))
	}
	ds := &dataset.Dataset{Structure: core.CloneStructure(b.St)}
	ds.SetBodyFile(core.NewFile(src, "/sim/"+fileName(b)))
	st, err := dsstats.Calculate(ds)
	w.Event("stats %s %s %d entries -> %v", b.Format, b.Comp, len(b.Entries), err)
	if !structEqual(ds.Structure, b.St) {
		w.Fail("structure-changed", "calculating statistics changed the structure")
	}
	p := src.Plan
	if err != nil {
		if !src.Fired() {
			w.Fail("stats-failed", "statistics of a healthy %s %s body failed: %v", b.Format, b.Comp, err)
		}
		return
	}
	cut := p.Fault == core.RTruncate && p.At < len(data)
	if cut && (b.Comp == "" && (b.Format == "csv" || b.Format == "ndjson") || p.At <= 8 && zst(b.Comp)) {
		return
	}
	if cut && b.Comp == "" && p.At < len(bytes.TrimRight(data, " \n\t")) {
		w.Fail("silent-truncation", "statistics of a %s body cut at byte %d of %d succeeded", b.Format, p.At, len(data))
	}
	sm, ok := st.Stats.([]map[string]interface{})
	if !ok && st.Stats != nil {
		w.Fail("wrong-stats", "statistics are a %T", st.Stats)
	}
	if d := diffStats(b, sm); d != "" {
		w.Fail("wrong-stats", "%s %s body (%s): %s", b.Format, b.Comp, p.String(), d)
	}
	if _, err := json.Marshal(st); err != nil {
		w.Fail("stats-unstorable", "statistics cannot be stored: %v", err)
	}
}
