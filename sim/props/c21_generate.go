package props

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/generate"

	"verif/sim/core"
)

func init() {
	reg("C21", "Generated data fits its schema and repeats from its seed",
		cfg{quick: 150000, thorough: 3000000, assume: []string{
			"without a seed the generator is seeded from the clock, which the simulator controls",
		}}, c21)
}

func schema21(s *core.Src) (*dataset.Structure, []string) {
	n := 1 + s.Intn(6)
	items := make([]interface{}, n)
	types := make([]string, n)
	for i := range items {
		t := core.Pick(s, "string", "boolean", "number", "integer", "object", "array", "null", "any")
		types[i] = t
		col := map[string]interface{}{"title": fmt.Sprintf("c%d", i)}
		switch {
		case t == "any":
			types[i] = ""
			if s.Chance(1, 2) {
				col["type"] = "unheard-of"
			} else {
				col["type"] = "any"
			}
		case s.Chance(1, 5):
			other := core.Pick(s, "string", "boolean", "number", "integer")
			col["type"] = []interface{}{t, other}
			types[i] = t + "|" + other
		default:
			col["type"] = t
		}
		items[i] = col
	}
	st := &dataset.Structure{Format: core.Pick(s, "json", "csv", "cbor"), Schema: map[string]interface{}{
		"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}}
	return st, types
}

func fits21(types string, v interface{}) bool {
	if types == "" {
		switch v.(type) {
		case nil, string, bool, float64, int, int64, map[string]interface{}, []interface{}:
			return true
		}
		return false
	}
	for len(types) > 0 {
		t := types
		for i := range types {
			if types[i] == '|' {
				t = types[:i]
				break
			}
		}
		ok := false
		switch t {
		case "string":
			_, ok = v.(string)
		case "boolean":
			_, ok = v.(bool)
		case "number":
			f, is := v.(float64)
			ok = is && !math.IsNaN(f) && !math.IsInf(f, 0)
		case "integer":
			switch v.(type) {
			case int, int64:
				ok = true
			}
		case "object":
			_, ok = v.(map[string]interface{})
		case "array":
			_, ok = v.([]interface{})
		case "null":
			ok = v == nil
		}
		if ok {
			return true
		}
		if len(t) == len(types) {
			return false
		}
		types = types[len(t)+1:]
	}
	return false
}

func c21(w *core.World) {
	s := w.C.Src("gen")
	w.NonTrivial()
	if s.Chance(1, 2) {
		w.Concurrent(true, core.Pick(s, 2, 10, 60))
	}
	st, types := schema21(s)
	snap := core.CloneStructure(st)
	n := 1 + s.Intn(40)
	if s.Chance(1, 400) {
		n = core.Pick(s, 256, 500, 1000, 1024, 1025, 2500) + s.Intn(30)
	}
	opts := []func(*generate.Config){generate.AssignSeed}
	if s.Chance(1, 2) {
		opts = append(opts, generate.AssignMaxLen)
	}
	seeded := s.Chance(4, 5)
	if !seeded {
		opts = opts[1:]
	}
	k := 2 + s.Intn(2)
	outs := make([][]dsio.Entry, k)
	run := func(i int) {
		// generators started at different times
		w.Sleep(1000 * 7919 * 13)
		if i > 0 && s.Chance(1, 2) {
			w.Sleep(3600e9)
		}
		g, err := generate.NewTabularGenerator(st, opts...)
		if err != nil {
			w.Fail("refused", "a generator for a tabular schema was refused: %v", err)
		}
		if !structEqual(g.Structure(), snap) {
			w.Fail("structure", "the generator's structure differs from the one it was given")
		}
		for j := 0; j < n; j++ {
			e, err := g.ReadEntry()
			if err != nil {
				w.Fail("failed", "generating entry %d failed: %v", j, err)
			}
			outs[i] = append(outs[i], e)
		}
		if err := g.Close(); err != nil {
			w.Fail("failed", "closing the generator failed: %v", err)
		}
	}
	var ts []*core.Task
	for i := 0; i < k; i++ {
		ts = append(ts, w.Go(fmt.Sprint("gen", i), func() { run(i) }))
	}
	for _, t := range ts {
		t.Wait()
	}
	w.Dim("cols%d seeded%v", len(types), seeded)
	maxLen := 64
	if len(opts) > 0 && (!seeded || len(opts) > 1) {
		maxLen = 8
	}
	for i, es := range outs {
		for j, e := range es {
			row, ok := e.Value.([]interface{})
			if !ok || e.Index != j || e.Key != "" || len(row) != len(types) {
				w.Fail("entry", "generated entry %d is %s", j, core.Show(e))
			}
			for c, v := range row {
				if !fits21(types[c], v) {
					w.Fail("type", "generated row %d has %s in a column of type %q", j, core.Show(v), types[c])
				}
				if t, ok := v.(string); ok && len([]rune(t)) > maxLen {
					w.Fail("length", "a generated string has %d characters, the limit is %d", len(t), maxLen)
				}
			}
		}
		if seeded && i > 0 {
			for j := range es {
				if d := core.DiffValue(outs[0][j].Value, es[j].Value); d != "" {
					w.Fail("not-repeatable", "two generators with the same seed differ in row %d%s", j, d)
				}
			}
		}
	}
	if !structEqual(st, snap) {
		w.Fail("structure", "generating changed the structure it was given")
	}
	// rows are independent of each other
	if len(outs[0]) > 1 {
		a := core.DeepCopy(outs[0][1].Value)
		row := outs[0][0].Value.([]interface{})
		for i := range row {
			if m, ok := row[i].(map[string]interface{}); ok {
				m["x"] = 1
			}
			row[i] = "overwritten"
		}
		if d := core.DiffValue(a, outs[0][1].Value); d != "" {
			w.Fail("aliased", "changing one generated row changed another%s", d)
		}
	}
	values21(w, s)
}

// values21: every kind of value is reachable.
func values21(w *core.World, s *core.Src) {
	if !s.Chance(1, 3) {
		return
	}
	g := &generate.ValueGenerator{Rand: rand.New(rand.NewSource(int64(s.Intn(1 << 30)))), MaxStringLength: 1 + s.Intn(20)}
	var yes, no int
	for i := 0; i < 64; i++ {
		if g.Bool() {
			yes++
		} else {
			no++
		}
	}
	if yes == 0 || no == 0 {
		w.Fail("constant", "64 generated booleans are %d times true and %d times false", yes, no)
	}
	for i := 0; i < 20; i++ {
		if v := g.Value(); !fits21("", v) {
			w.Fail("type", "a generated value is %s", core.Show(v))
		}
	}
}
