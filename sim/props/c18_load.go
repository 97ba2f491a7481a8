package props

import (
	"bytes"
	"context"
	"fmt"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"

	"verif/sim/core"
)

func init() {
	reg("C18", "Files loaded from a store are complete, or loading fails",
		cfg{quick: 200000, thorough: 4000000, assume: []string{
			"a store file that ends early without an error cannot be told from a shorter file when its size is not known",
		}}, c18)
}

// loadable is one file-backed component of a dataset.
type loadable struct {
	name               string
	open, openRendered func(context.Context, qfs.PathResolver) error
	inline             func(context.Context, qfs.PathResolver) error
	file, rendered     func() qfs.File
	setFile            func(qfs.File)
	text, path, rpath  *string
}

func loadables(ds *dataset.Dataset) []*loadable {
	r, v, t := ds.Readme, ds.Viz, ds.Transform
	return []*loadable{
		{"readme", r.OpenScriptFile, r.OpenRenderedFile, r.InlineScriptFile, r.ScriptFile, r.RenderedFile, r.SetScriptFile, &r.Text, &r.ScriptPath, &r.RenderedPath},
		{"viz", v.OpenScriptFile, v.OpenRenderedFile, v.InlineScriptFile, v.ScriptFile, v.RenderedFile, v.SetScriptFile, &v.Text, &v.ScriptPath, &v.RenderedPath},
		{"transform", t.OpenScriptFile, nil, t.InlineScriptFile, t.ScriptFile, nil, t.SetScriptFile, &t.Text, &t.ScriptPath, nil},
	}
}

// loadStore is one client's view of the store.
type loadStore struct {
	w     *core.World
	s     *core.Src
	tag   string
	files map[string][]byte
	sick  bool
	gone  bool // the caller has given up
	gets  int
	got   []*core.Reader
	asked string
	err   error // what the last Get failed with
}

func (st *loadStore) Get(ctx context.Context, path string) (qfs.File, error) {
	st.w.IO("get:" + st.tag)
	st.gets++
	st.asked, st.err = path, nil
	if st.s.Chance(1, 3) {
		st.w.Sleep(1000000 * 50)
	}
	if ctx == nil || st.gone && ctx.Err() == nil {
		st.w.Fail("cancel-lost", "a load that its caller cancelled goes on to fetch %q", path)
	}
	if e := ctx.Err(); e != nil {
		st.w.Fault("store-cancelled")
		st.err = e
		return nil, e
	}
	if st.sick && st.s.Chance(1, 2) {
		st.w.Fault("store-unreachable")
		st.err = core.ErrInjected
		return nil, st.err
	}
	data, ok := st.files[path]
	if !ok {
		st.w.Fault("store-missing")
		st.err = core.ErrNotFound
		if st.s.Chance(1, 2) {
			st.err = qfs.ErrNotFound
		}
		return nil, st.err
	}
	name := fmt.Sprintf("%s.%d", st.tag, st.gets)
	plan := st.w.GenFrag(name)
	if st.sick && st.s.Chance(2, 3) {
		plan = st.w.WithFault(name, plan, len(data), core.RError, core.RGlitch)
	}
	r := st.w.NewReader(name, data, plan)
	st.got = append(st.got, r)
	return simFile(st.s, r, path), nil
}

func genText18(s *core.Src) []byte {
	return []byte(core.Edged(s, string(plainText18(s))))
}

func plainText18(s *core.Src) []byte {
	if big := core.Big(s, 20000); big > 0 {
		return core.Noise(s, big)
	}
	switch s.Weighted(1, 4, 2, 1) {
	case 0:
		return []byte{}
	case 1:
		return []byte(fmt.Sprintf("# text %d\n%s", s.Intn(1000000), bytes.Repeat([]byte("l\n"), s.Intn(20))))
	case 2:
		return bytes.Repeat([]byte(fmt.Sprintf("%06d é\r\n", s.Intn(1000000))), s.Intn(500))
	}
	b := make([]byte, s.Intn(64))
	for i := range b {
		b[i] = byte(s.Intn(256))
	}
	return b
}

func c18(w *core.World) {
	s := w.C.Src("gen")
	n := 1
	if s.Chance(1, 3) {
		n = 2 + s.Intn(2)
		w.Concurrent(true, core.Pick(s, 3, 20))
	}
	files := map[string][]byte{}
	for i := 0; i < 5; i++ {
		files[fmt.Sprintf("/store/f%d", i)] = genText18(s)
	}
	var tasks []*core.Task
	for i := 0; i < n; i++ {
		tag := fmt.Sprint("c", i)
		fn := func() { client18(w, tag, files) }
		if n == 1 {
			fn()
		} else {
			tasks = append(tasks, w.Go(tag, fn))
		}
	}
	for _, t := range tasks {
		t.Wait()
	}
}

type cancelled struct{ context.Context }

func (cancelled) Err() error { return context.Canceled }

func client18(w *core.World, tag string, files map[string][]byte) {
	s := w.C.Src("gen:" + tag)
	st := &loadStore{w: w, s: s, tag: tag, files: files}
	ds := &dataset.Dataset{Readme: &dataset.Readme{}, Viz: &dataset.Viz{}, Transform: &dataset.Transform{}}
	ls := loadables(ds)
	pick := func() string {
		if s.Chance(1, 8) {
			return "/store/missing"
		}
		return fmt.Sprintf("/store/f%d", s.Intn(5))
	}
	bg := context.WithValue(context.Background(), "k", "v")
	steps := 1 + s.Intn(8)
	for i := 0; i < steps; i++ {
		st.sick = s.Chance(1, 3)
		var ctx context.Context = bg
		gone := s.Chance(1, 12)
		if gone {
			ctx = cancelled{bg}
		}
		st.gone = gone
		var res qfs.PathResolver = st
		nores := s.Chance(1, 10)
		if nores {
			res = nil
		}
		if s.Chance(1, 3) {
			body18(w, s, ds, st, ctx, res, pick)
			continue
		}
		l := ls[s.Intn(len(ls))]
		// change the component
		switch s.Weighted(3, 3, 2, 1) {
		case 0:
			*l.path = pick()
			*l.text = ""
		case 1:
			*l.path = pick()
		case 2:
			*l.text = string(genText18(s))
		case 3:
			*l.path, *l.text = "", ""
		}
		text, path := *l.text, *l.path
		gets, got := st.gets, len(st.got)
		prev := l.file()
		inPlace := (*core.Reader)(nil)
		if s.Chance(1, 6) {
			r := w.NewReader(fmt.Sprintf("%s.own%d", tag, i), genText18(s), w.GenFrag(fmt.Sprintf("%s.own%d", tag, i)))
			prev = simFile(s, r, "own")
			l.setFile(prev)
			inPlace = r
		}
		asks := text == "" && path != "" && !nores
		switch op := s.Weighted(3, 4, 2); op {
		case 0:
			err := l.open(ctx, res)
			w.Event("%s open %s text=%d path=%q -> %v", tag, l.name, len(text), path, err)
			w.Dim("open %s text%v path%v res%v err%v", l.name, text != "", path != "", !nores, err != nil)
			if *l.text != text || *l.path != path {
				w.Fail("open-changed", "opening the %s script changed its text or path", l.name)
			}
			checkOpen18(w, st, l.name+" script", text != "", path, nores, asks, gets, err)
			if err != nil {
				continue
			}
			switch {
			case text != "":
				checkFile18(w, l.name+" text", l.file(), []byte(text))
			case path == "":
				if l.file() != prev {
					w.Fail("open-changed", "opening a %s with nothing to open replaced its file", l.name)
				}
			default:
				checkFetched18(w, l.name+" script", l.file(), st, path)
			}
		case 1:
			if prev != nil && inPlace == nil && text == "" && path == "" {
				l.setFile(nil) // contents unknown by now
			}
			err := l.inline(ctx, res)
			w.Event("%s inline %s text=%d path=%q -> %v", tag, l.name, len(text), path, err)
			w.Dim("inline %s text%v path%v res%v err%v", l.name, text != "", path != "", !nores, err != nil)
			if nores {
				if *l.text != text || *l.path != path {
					w.Fail("inline-changed", "inlining the %s script without a store changed it", l.name)
				}
				continue
			}
			for _, r := range st.got[got:] {
				if r.Closed == 0 {
					w.Fail("handle-leak", "inlining the %s script left the file it opened open (error: %v)", l.name, err)
				}
			}
			var fetched *core.Reader
			if len(st.got) > got {
				fetched = st.got[len(st.got)-1]
			}
			bad := asks && (st.err != nil || fetched != nil && fetched.Fired())
			if err != nil {
				if !bad {
					w.Fail("inline-failed", "inlining the %s script failed without a fault: %v", l.name, err)
				}
				if *l.text != text || *l.path != path {
					w.Fail("inline-changed", "a failed inlining of the %s script (%v) changed its text or path: text %s, path %q", l.name, err, core.Show(*l.text), *l.path)
				}
				// once the store is well again, a retry succeeds
				if _, ok := files[path]; ok {
					st.sick, st.gone = false, false
					if e := l.inline(bg, st); e != nil {
						w.Fail("no-recovery", "inlining the %s script still fails after the store recovered: %v", l.name, e)
					}
					if *l.text != string(files[path]) {
						w.Fail("wrong-text", "inlining the %s script on the second attempt gives %s, the file holds %s", l.name, core.Show(*l.text), core.Show(string(files[path])))
					}
				}
				continue
			}
			if bad {
				w.Fail("error-swallowed", "inlining the %s script succeeded although the store failed", l.name)
			}
			want := text
			if text == "" && path != "" {
				want = string(files[path])
			} else if text == "" && inPlace != nil {
				want = string(inPlace.Data)
			}
			if *l.text != want {
				w.Fail("wrong-text", "inlining the %s script gives %s, it is %s", l.name, core.Show(*l.text), core.Show(want))
			}
			if asks && st.asked != path {
				w.Fail("wrong-path", "the store was asked for %q, the %s is at %q", st.asked, l.name, path)
			}
			if *l.path != "" {
				w.Event("path %q left", *l.path)
				w.Fail("path-left", "the %s script is inline now and still refers to %q", l.name, *l.path)
			}
		case 2:
			if l.openRendered == nil {
				continue
			}
			*l.rpath = ""
			if s.Chance(4, 5) {
				*l.rpath = pick()
			}
			rp := *l.rpath
			err := l.openRendered(ctx, res)
			w.Event("%s open rendered %s path=%q -> %v", tag, l.name, rp, err)
			if *l.text != text || *l.path != path || *l.rpath != rp {
				w.Fail("open-changed", "opening the rendered %s changed its text or path", l.name)
			}
			checkOpen18(w, st, "rendered "+l.name, false, rp, nores, rp != "" && !nores, gets, err)
			if err == nil && rp != "" {
				checkFetched18(w, "rendered "+l.name, l.rendered(), st, rp)
			}
		}
	}
}

// checkOpen18 judges the outcome of an open call.
func checkOpen18(w *core.World, st *loadStore, what string, inMemory bool, path string, nores, asks bool, gets int, err error) {
	switch {
	case !asks && st.gets != gets:
		w.Fail("needless-fetch", "opening the %s asked the store although it is at hand", what)
	case asks && st.gets == gets:
		w.Fail("not-fetched", "opening the %s at %q did not ask the store", what, path)
	case asks && st.asked != path:
		w.Fail("wrong-path", "the store was asked for %q, the %s is at %q", st.asked, what, path)
	case asks && (st.err != nil) != (err != nil):
		w.Fail("error-swallowed", "opening the %s returned %v, the store %v", what, err, st.err)
	case !inMemory && path != "" && nores && err == nil:
		w.Fail("error-swallowed", "opening the %s without a store succeeded", what)
	case (inMemory || path == "") && err != nil:
		w.Fail("open-failed", "opening the %s failed: %v", what, err)
	}
}

func checkFile18(w *core.World, what string, f qfs.File, want []byte) {
	if f == nil {
		w.Fail("no-file", "opening the %s succeeded and there is no file", what)
	}
	data, failed := readRest(f)
	if failed != nil || !bytes.Equal(data, want) {
		w.Fail("wrong-contents", "the %s file holds %s, should hold %s (%v)", what, core.Show(string(data)), core.Show(string(want)), failed)
	}
}

func checkFetched18(w *core.World, what string, f qfs.File, st *loadStore, path string) {
	r := st.got[len(st.got)-1]
	if f == nil {
		w.Fail("no-file", "opening the %s succeeded and there is no file", what)
	}
	if r.Reads > 0 {
		w.Fail("consumed", "opening the %s read from its file", what)
	}
	data, failed := readRest(f)
	if r.Plan.Fault == core.RError && r.Fired() {
		if failed == nil {
			w.Fail("error-swallowed", "the %s file hides a failure of the store", what)
		}
		return
	}
	if failed == nil && r.Fired() {
		w.Fail("error-swallowed", "the %s file hides a failure of the store", what)
	}
	if !bytes.Equal(data, st.files[path]) {
		w.Fail("wrong-contents", "the %s file holds %s, the store has %s", what, core.Show(string(data)), core.Show(string(st.files[path])))
	}
}

func body18(w *core.World, s *core.Src, ds *dataset.Dataset, st *loadStore, ctx context.Context, res qfs.PathResolver, pick func() string) {
	ds.Body, ds.BodyBytes, ds.BodyPath = nil, nil, ""
	if s.Chance(3, 4) {
		ds.BodyPath = pick()
	}
	if s.Chance(1, 4) {
		ds.BodyBytes = genText18(s)
	}
	if s.Chance(1, 8) {
		ds.Body = []interface{}{"a"}
	}
	prev := ds.BodyFile()
	gets := st.gets
	nores := res == nil
	want := append([]byte{}, ds.BodyBytes...)
	err := ds.OpenBodyFile(ctx, res)
	w.Event("open body path=%q bytes=%d -> %v", ds.BodyPath, len(want), err)
	w.Dim("body inline%v bytes%v path%v err%v", ds.Body != nil, ds.BodyBytes != nil, ds.BodyPath != "", err != nil)
	if ds.Body != nil {
		if err == nil || st.gets != gets {
			w.Fail("inline-body", "a file was opened for a body that is inline (%v)", err)
		}
		if ds.BodyFile() != prev {
			w.Fail("open-changed", "a refused open replaced the body file")
		}
		return
	}
	asks := ds.BodyBytes == nil && ds.BodyPath != "" && !nores
	checkOpen18(w, st, "body", ds.BodyBytes != nil, ds.BodyPath, nores, asks, gets, err)
	if err != nil {
		return
	}
	switch {
	case ds.BodyBytes != nil:
		if !bytes.Equal(ds.BodyBytes, want) {
			w.Fail("open-changed", "opening the body changed its bytes")
		}
		f := ds.BodyFile()
		checkFile18(w, "body bytes", f, want)
		if ds.BodyPath != "" && f.FullPath() != ds.BodyPath {
			w.Fail("wrong-name", "the body file is called %q, the body path is %q", f.FullPath(), ds.BodyPath)
		}
	case ds.BodyPath == "":
		if ds.BodyFile() != prev {
			w.Fail("open-changed", "opening a body with nothing to open replaced its file")
		}
	default:
		checkFetched18(w, "body", ds.BodyFile(), st, ds.BodyPath)
	}
}
