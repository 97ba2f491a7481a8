package props

import (
	"fmt"
	"io"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"

	"verif/sim/core"
)

func init() {
	reg("C11", "In-memory values stream as entries exactly once under any schedule",
		cfg{quick: 500000, thorough: 8000000, leak: true, assume: []string{
			"a reader that is neither drained nor closed may keep its producer waiting; every run drains or closes it",
		}}, c11)
}

// c11 reads native values through the identity reader: its producer, one or
// more consumers and a closer are scheduled by the simulator.
func c11(w *core.World) {
	s := w.C.Src("gen")
	isMap := s.Chance(1, 2)
	n := []int{0, 1, 2, 5, 17, 60}[s.Weighted(1, 1, 2, 4, 2, 1)]
	if n > 2 {
		n = s.Range(2, n)
	}
	if s.Chance(1, 200) {
		n = core.Pick(s, 127, 128, 129, 255, 256, 257, 300)
	}
	w.Concurrent(true, core.Pick(s, 0, 1, 4))
	st := &dataset.Structure{Format: "json", Schema: dataset.BaseSchemaArray}
	arr := make([]interface{}, n)
	obj := map[string]interface{}{}
	kinds := s.Chance(1, 3) // values of every kind, null and empty ones too
	odd := -1               // whose key is empty
	if s.Chance(1, 8) {
		odd = s.Intn(n + 1)
	}
	key := func(i int) string {
		if i == odd {
			return ""
		}
		return fmt.Sprint("k", i)
	}
	value := func(i int, kind int) interface{} {
		switch kind {
		case 1:
			return nil
		case 2:
			return ""
		case 3:
			return int64(0)
		case 4:
			return false
		case 5:
			return map[string]interface{}{}
		case 6:
			return []interface{}{}
		case 7:
			return float64(i) + 0.5
		}
		return []interface{}{int64(i), fmt.Sprint("v", i)}
	}
	kind := make([]int, n)
	for i := range arr {
		if kinds {
			kind[i] = s.Intn(9)
		}
		arr[i] = value(i, kind[i])
		obj[key(i)] = arr[i]
	}
	var data interface{} = arr
	if isMap {
		st.Schema = dataset.BaseSchemaObject
		data = obj
	}
	w.Dim("map%v", isMap)
	if s.Chance(1, 30) {
		if _, err := dsio.NewIdentityReader(st, core.Pick[interface{}](s, nil, "text", 3, []string{"a"}, map[int]interface{}{})); err == nil {
			w.Fail("bad-type-accepted", "a value that is neither a list nor an object was accepted")
		}
	}
	r, err := dsio.NewIdentityReader(st, data)
	if err != nil {
		w.Fail("refused", "%d native values were refused: %v", n, err)
	}
	if r.Structure() != st {
		w.Fail("structure", "the reader reports another structure")
	}
	seen := make([]int, n)
	total := 0
	last := -1
	draining := false // a concurrent Close takes entries too
	note := func(e dsio.Entry, single bool) {
		var i int
		if isMap {
			if e.Key == "" {
				i = odd
			} else if _, err := fmt.Sscanf(e.Key, "k%d", &i); err != nil {
				i = -1
			}
			if i < 0 || i >= n || e.Key != key(i) {
				w.Fail("invented", "entry with key %q was never given", e.Key)
			}
		} else {
			i = e.Index
			if i < 0 || i >= n {
				w.Fail("invented", "entry with index %d from %d values", i, n)
			}
		}
		if d := core.DiffValue(value(i, kind[i]), e.Value); d != "" {
			w.Fail("wrong-value", "entry %d%s", i, d)
		}
		seen[i]++
		total++
		if seen[i] > 1 {
			w.Fail("twice", "entry %d was delivered twice", i)
		}
		if single && !isMap {
			if i < last || i != last+1 && !draining {
				w.Fail("order", "a single consumer got entry %d after entry %d", i, last)
			}
			last = i
		}
	}
	ended := func(err error) {
		if err != io.EOF {
			w.Fail("end", "the end of native values was reported as %v", err)
		}
	}
	variant := s.Weighted(4, 4, 3, 2)
	w.Dim("variant%d", variant)
	complete := false
	switch variant {
	case 0, 1, 2:
		k := s.Weighted(3, 2, 1, 1) + 1
		w.Dim("consumers%d", k)
		var tasks []*core.Task
		quota := n + 10
		if variant == 1 {
			quota = s.Intn(n + 2)
		}
		stall := s.Chance(1, 3)
		for c := 0; c < k; c++ {
			tasks = append(tasks, w.Go(fmt.Sprint("consumer", c), func() {
				for i := 0; i < quota; i++ {
					if stall && s.Chance(1, 4) {
						w.Fault("slow-consumer")
						w.Sleep(time.Duration(1+s.Intn(1000)) * time.Millisecond)
					}
					e, err := r.ReadEntry()
					if err != nil {
						ended(err)
						return
					}
					note(e, k == 1)
				}
			}))
		}
		if variant == 2 {
			draining = true
			closers := 1 + s.Intn(2)
			for c := 0; c < closers; c++ {
				tasks = append(tasks, w.Go("closer", func() {
					if s.Chance(1, 2) {
						w.Sleep(time.Duration(s.Intn(800)) * time.Millisecond)
					}
					w.Fault("close-while-reading")
					if err := r.Close(); err != nil {
						w.Fail("close-failed", "%v", err)
					}
				}))
			}
		}
		for _, t := range tasks {
			t.Wait()
		}
		complete = variant == 0 || variant == 1 && k*quota >= n+k
		if variant != 1 && s.Chance(1, 2) {
			// the end is the end
			for i := 0; i < 2; i++ {
				if e, err := r.ReadEntry(); err == nil {
					w.Fail("after-end", "entry %v after the end", core.Show(e.Value))
				}
			}
		}
	case 3:
		// through the helpers the rest of the repository uses
		var es []dsio.Entry
		var all interface{}
		switch s.Intn(4) {
		case 0:
			err = dsio.EachEntry(r, func(i int, e dsio.Entry, err error) error {
				es = append(es, e)
				return nil
			})
			complete = true
		case 1:
			all, err = dsio.ReadAll(r)
			complete = true
			if m, ok := all.(map[string]interface{}); ok {
				for _, k := range core.SortedKeys(m) {
					es = append(es, dsio.Entry{Key: k, Value: m[k]})
				}
			} else {
				l, _ := all.([]interface{})
				for i, v := range l {
					es = append(es, dsio.Entry{Index: i, Value: v})
				}
			}
		case 2:
			out := &memWriter{st: st}
			err = dsio.Copy(r, out)
			es = out.es
			complete = true
		case 3:
			off, lim := s.Intn(n+3), s.Intn(n+3)
			p := &dsio.PagedReader{Reader: r, Offset: off, Limit: lim}
			last = off - 1
			es, err = drain(w, p, n)
			ended(err)
			err = nil
			if want := max(0, min(lim, n-off)); len(es) != want {
				w.Fail("page", "%d entries in the window [%d,+%d) of %d", len(es), off, lim, n)
			}
			if s.Chance(1, 2) {
				if err := p.Close(); err != nil {
					w.Fail("close-failed", "%v", err)
				}
			}
		}
		if err != nil {
			w.Fail("helper-failed", "%v", err)
		}
		for _, e := range es {
			note(e, true)
		}
	}
	if complete && total != n {
		w.Fail("lost", "%d of %d values were delivered before the end", total, n)
	}
	if !complete || s.Chance(1, 2) {
		for i := 0; i < 1+s.Intn(2); i++ {
			if err := r.Close(); err != nil {
				w.Fail("close-failed", "%v", err)
			}
		}
		if s.Chance(1, 2) {
			if e, err := r.ReadEntry(); err == nil {
				w.Fail("after-close", "entry %v after the reader was closed", core.Show(e.Value))
			}
		}
	}
	// the values were only looked at
	for i := range arr {
		want := value(i, kind[i])
		if core.DiffValue(want, arr[i]) != "" || core.DiffValue(want, obj[key(i)]) != "" || len(obj) != n {
			w.Fail("input-changed", "the values given were changed at %d", i)
		}
	}
}
