package props

import (
	"fmt"
	"math"
	"sort"

	"github.com/qri-io/dataset/dsstats/histosketch"

	"verif/sim/core"
)

func init() {
	reg("C22", "Histogram sketches count every value through merges and restarts",
		cfg{quick: 800000, thorough: 20000000, assume: []string{
			"a saved sketch does not record how many buckets it may have: after a restart it has as many as it had in use",
			"values are finite",
		}}, c22)
}

// node22 is a process that keeps a sketch and saves it now and then.
type node22 struct {
	h     *histosketch.Sketch
	vals  map[float64]int
	n     int
	limit int
	exact bool

	disk      []byte
	diskVals  map[float64]int
	diskN     int
	diskExact bool
}

func copyVals(m map[float64]int) map[float64]int {
	o := make(map[float64]int, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func sortedVals(m map[float64]int) []float64 {
	ks := make([]float64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Float64s(ks)
	return ks
}

func (n *node22) add(v float64, k int) {
	if n.vals[v] == 0 && len(n.vals) >= n.limit {
		n.exact = false
	}
	n.vals[v] += k
	n.n += k
}

func check22(w *core.World, what string, n *node22) {
	h := n.h
	if h.Count() != float64(n.n) {
		w.Fail("count", "%s: the sketch counts %v values, there are %d", what, h.Count(), n.n)
	}
	bins, hist := h.Read()
	sum := 0.0
	for i, c := range hist {
		if c <= 0 {
			w.Fail("bucket", "%s: bucket %d counts %v", what, i, c)
		}
		sum += c
	}
	if sum != float64(n.n) {
		w.Fail("lost", "%s: the buckets count %v values, there are %d", what, sum, n.n)
	}
	if len(hist) > n.limit {
		w.Fail("too-many-buckets", "%s: %d buckets, the limit is %d", what, len(hist), n.limit)
	}
	for i := 1; i < len(bins); i++ {
		if bins[i] < bins[i-1] {
			w.Fail("order", "%s: buckets are not in order: %v", what, bins)
		}
	}
	if n.n == 0 {
		return
	}
	ks := sortedVals(n.vals)
	total, scale, held := 0.0, 1.0, 0.0
	for _, k := range ks {
		total += k * float64(n.vals[k])
		scale += math.Abs(k) * float64(n.vals[k])
	}
	for i, c := range hist {
		held += bins[i] * c
	}
	if math.Abs(held-total) > 1e-7*scale {
		w.Fail("mass", "%s: the values add up to %v, those in the buckets to %v", what, total, held)
	}
	lo, hi := ks[0], ks[len(ks)-1]
	if h.Min() != lo || h.Max() != hi {
		w.Fail("extremes", "%s: the sketch has extremes %v and %v, the values have %v and %v", what, h.Min(), h.Max(), lo, hi)
	}
	if h.Sum(hi) != float64(n.n) || h.Sum(lo-1) != 0 {
		w.Fail("sum", "%s: %v values up to the largest, %v below the smallest, of %d", what, h.Sum(hi), h.Sum(lo-1), n.n)
	}
	for _, p := range []float64{0, 0.25, 0.5, 0.99, 1} {
		q := h.Quantile(p)
		if got := h.Sum(q); got < 0 || got > float64(n.n) || math.IsNaN(got) {
			w.Fail("sum", "%s: %v of %d values are up to %v", what, got, n.n, q)
		}
		if math.IsNaN(q) || q < lo-1e-9*math.Abs(lo)-1e-9 || q > hi+1e-9*math.Abs(hi)+1e-9 {
			w.Fail("quantile", "%s: the %v quantile of values between %v and %v is %v", what, p, lo, hi, q)
		}
	}
	if !n.exact {
		return
	}
	if len(hist) != len(ks) {
		w.Fail("inexact", "%s: %d distinct values fit %d buckets, but there are %d", what, len(ks), n.limit, len(hist))
	}
	below := 0
	for i, k := range ks {
		if bins[i] != k || hist[i] != float64(n.vals[k]) {
			w.Fail("inexact", "%s: bucket %d holds %v times %v, should be %d times %v", what, i, hist[i], bins[i], n.vals[k], k)
		}
		below += n.vals[k]
		if got := h.Sum(k); got != float64(below) {
			w.Fail("inexact", "%s: %v values up to %v, there are %d", what, got, k, below)
		}
	}
}

func same22(a, b *histosketch.Sketch) string {
	if a.Count() != b.Count() || a.Min() != b.Min() || a.Max() != b.Max() {
		return fmt.Sprintf("count %v/%v, min %v/%v, max %v/%v", a.Count(), b.Count(), a.Min(), b.Min(), a.Max(), b.Max())
	}
	ab, ah := a.Read()
	bb, bh := b.Read()
	if fmt.Sprint(ab, ah) != fmt.Sprint(bb, bh) {
		return fmt.Sprintf("buckets %v %v, %v %v", ab, ah, bb, bh)
	}
	if a.Count() < 1 {
		return ""
	}
	for _, p := range []float64{0, 0.3, 0.5, 0.9, 1} {
		if x, y := a.Quantile(p), b.Quantile(p); x != y && !(math.IsNaN(x) && math.IsNaN(y)) {
			return fmt.Sprintf("quantile %v: %v, %v", p, x, y)
		}
	}
	for _, v := range ab {
		if x, y := a.Sum(v), b.Sum(v); x != y {
			return fmt.Sprintf("sum %v: %v, %v", v, x, y)
		}
	}
	return ""
}

func value22(s *core.Src) float64 {
	switch s.Weighted(5, 2, 2, 1) {
	case 0:
		return float64(s.Intn(12))
	case 1:
		return float64(s.Intn(100000)) - 50000
	case 2:
		return float64(s.Intn(100)) / 7
	}
	return core.Pick(s, 1e6, -1e6, 0.0, 1.0/1024, 1234567.125, -0.5)
}

func c22(w *core.World) {
	s := w.C.Src("gen")
	w.NonTrivial()
	k := 1 + s.Intn(3)
	nodes := make([]*node22, k)
	for i := range nodes {
		limit := core.Pick(s, 1, 2, 3, 8, 32, 1+s.Intn(20))
		n := &node22{vals: map[float64]int{}, limit: limit, exact: true}
		if s.Chance(1, 5) {
			sample := make([]float64, 1+s.Intn(12))
			for j := range sample {
				sample[j] = value22(s)
				n.vals[sample[j]]++
			}
			n.n = len(sample)
			n.h = histosketch.NewFromSample(sample, limit)
			n.exact = limit > len(sample)
		} else {
			n.h = histosketch.New(uint(limit))
		}
		n.diskVals = nil
		nodes[i] = n
	}
	for _, n := range nodes {
		check22(w, "start", n)
	}
	for step := 2 + s.Intn(24); step > 0; step-- {
		i := s.Intn(k)
		n := nodes[i]
		op := s.Weighted(8, 3, 3, 3, 2)
		w.Event("node%d op%d", i, op)
		what := ""
		switch op {
		case 0:
			for j := 1 + s.Intn(6); j > 0; j-- {
				v := value22(s)
				n.h.Add(v)
				n.add(v, 1)
			}
			what = "after adding"
		case 1:
			v, c := value22(s), 1+s.Intn(9)
			if s.Chance(1, 10) {
				c = core.Pick(s, 1000003, 1<<24+1, 1<<27+3, 1<<31, 1<<32+7, 1<<33+5)
			}
			n.h.AddMany(v, int64(c))
			n.add(v, c)
			what = "after adding many"
		case 2: // save, possibly losing power halfway
			raw, err := n.h.MarshalBinary()
			if err != nil {
				w.Fail("save", "saving a sketch failed: %v", err)
			}
			if s.Chance(1, 3) {
				cut := s.Intn(len(raw))
				w.Fault("torn-write")
				var g histosketch.Sketch
				if err := g.UnmarshalBinary(raw[:cut]); err == nil {
					w.Fail("torn", "the first %d of %d bytes of a saved sketch were accepted", cut, len(raw))
				}
				w.Dim("torn")
				continue // the old save is still there
			}
			n.disk, n.diskVals, n.diskN, n.diskExact = raw, copyVals(n.vals), n.n, n.exact
			var g histosketch.Sketch
			if err := g.UnmarshalBinary(raw); err != nil {
				w.Fail("restore", "a saved sketch cannot be restored: %v", err)
			}
			if d := same22(n.h, &g); d != "" {
				w.Fail("restore", "a sketch restored right after saving differs: %s", d)
			}
			what = "after saving"
		case 3: // crash, and restart from the last save
			if n.disk == nil {
				continue
			}
			w.Fault("crash-restart")
			g := &histosketch.Sketch{}
			if s.Chance(1, 3) {
				g = n.h // restored over a sketch in use
			}
			if err := g.UnmarshalBinary(n.disk); err != nil {
				w.Fail("restore", "a saved sketch cannot be restored: %v", err)
			}
			n.h, n.vals, n.n, n.exact = g, copyVals(n.diskVals), n.diskN, n.diskExact
			if used := usedBuckets(g); used >= 1 {
				n.exact = n.exact && len(n.vals) == used
			}
			n.h = g
			what = "after a restart"
			check22(w, what, n)
			// how many buckets there may be from now on is not kept
			n.limit = max(n.limit, 1)
			n.exact = false
			w.Dim("restart")
			continue
		case 4: // merge another node's sketch
			o := nodes[s.Intn(k)]
			if o == n || o.n+n.n > 1<<50 {
				continue // beyond what a float64 counts exactly
			}
			before, _ := o.h.MarshalBinary()
			n.h.Merge(*o.h)
			after, _ := o.h.MarshalBinary()
			if string(before) != string(after) {
				w.Fail("merge", "merging a sketch into another one changed it")
			}
			if !o.exact {
				n.exact = false
			}
			for _, v := range sortedVals(o.vals) {
				n.add(v, o.vals[v])
			}
			what = "after a merge"
			w.Dim("merge exact%v", n.exact)
		}
		check22(w, what, n)
		w.Dim("%s buckets%d exact%v", what, usedBuckets(n.h), n.exact)
	}
}

func usedBuckets(h *histosketch.Sketch) int {
	_, hist := h.Read()
	return len(hist)
}
