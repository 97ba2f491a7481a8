package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsio/replacecr"
	"github.com/qri-io/dataset/stepfile"

	"verif/sim/core"
)

func init() {
	reg("C16", "Stepfiles keep every step, or report what was lost",
		cfg{quick: 300000, thorough: 4000000, assume: []string{
			"scripts that hold a separator line themselves, and scripts before the last that end in one, cannot be represented and are not generated",
			"an empty stepfile is read as one empty step; an empty list of steps is not written",
			"a cut of a stepfile at any byte leaves a shorter stepfile, which cannot be told from a complete one; only the text before the cut is required",
		}}, c16)
	reg("C19", "Byte-stream adapters pass on every byte and every failure",
		cfg{quick: 250000, thorough: 4000000, leak: true, assume: []string{
			"a source never returns (0, nil) below a zstd decoder, and the zstd library takes a stream that ends within its first bytes for an empty one",
		}}, c19)
}

const stepSep = "\n---\n"

// genScript draws a script full of things close to a separator.
func genScript(s *core.Src, last bool) string {
	for {
		var sb strings.Builder
		for i := s.Intn(6); i > 0; i-- {
			sb.WriteString(core.Pick(s, "a", "line\n", "---", "--", "-", "\n", "\r\n---\r\n", " ---\n", "--- \n", "\n----\n", "é😀", "x = 1\n", "\n--\n", "\x00", "\t"))
		}
		if s.Chance(1, 20) {
			sb.WriteString(strings.Repeat("0123456789", s.Intn(2000)))
		}
		if big := core.Big(s, 20000); big > 0 {
			sb.Write(core.Noise(s, big))
		}
		t := core.Edged(s, sb.String())
		if strings.Contains(t, stepSep) || !last && strings.HasSuffix(t, "\n---") {
			continue
		}
		return t
	}
}

func c16(w *core.World) {
	s := w.C.Src("gen")
	n := 1 + s.Intn(6)
	many := s.Chance(1, 60)
	if many {
		n = 10 + s.Intn(500)
	}
	var texts []string
	for i := 0; i < n; i++ {
		if many {
			texts = append(texts, core.Pick(s, "", "a", fmt.Sprintf("step %d\n", i)))
			continue
		}
		texts = append(texts, genScript(s, i == n-1))
	}
	full := strings.Join(texts, stepSep)
	if got := strings.Split(full, stepSep); len(got) != n {
		return // neighbours that form a separator together
	}
	w.Dim("steps%d", min(n, 10))
	check := func(steps []*dataset.TransformStep, how string) {
		if len(steps) != n {
			w.Fail("steps-lost", "%d steps written, %d read back %s", n, len(steps), how)
		}
		for i, st := range steps {
			if st == nil || st.Script != texts[i] {
				w.Fail("step-changed", "step %d was %s, read back as %s %s", i, core.Show(texts[i]), core.Show(st.Script), how)
			}
		}
	}
	if s.Chance(1, 2) {
		// writing
		var steps []*dataset.TransformStep
		var srcs []*core.Reader
		bad := -1
		if s.Chance(1, 8) {
			bad = s.Intn(n)
		}
		for i, t := range texts {
			st := &dataset.TransformStep{Name: fmt.Sprint(i), Syntax: "starlark"}
			switch s.Intn(3) {
			case 0:
				st.Script = t
			case 1:
				st.Script = []byte(t)
			case 2:
				plan := w.GenFrag(fmt.Sprint("script", i))
				plan.Zero = false
				if s.Chance(1, 4) {
					plan = w.WithFault(fmt.Sprint("script", i), plan, len(t), core.RError, core.RGlitch)
				}
				src := w.NewReader(fmt.Sprint("script", i), []byte(t), plan)
				srcs = append(srcs, src)
				if s.Chance(1, 2) {
					st.Script = src
				} else {
					st.Script = core.NewFile(src, "/sim/script")
				}
			}
			if i == bad {
				st.Script = core.Pick[interface{}](s, nil, 3, []string{"a"})
			}
			steps = append(steps, st)
		}
		sink := w.NewWriter("sink")
		if s.Chance(1, 2) {
			sink = w.NewFaultyWriter("sink", len(full))
		}
		err := stepfile.Write(steps, sink)
		w.Event("write %d steps -> %v", n, err)
		fired := sink.Fired()
		for _, src := range srcs {
			fired = fired || src.Fired()
		}
		if err == nil {
			if bad >= 0 {
				w.Fail("bad-step-accepted", "a step without a usable script was written without an error")
			}
			if string(sink.Data) != full {
				w.Fail("bytes-lost", "%d of %d bytes of a stepfile arrived and no error was reported (faults: %v)%s", len(sink.Data), len(full), fired, firstDiff([]byte(full), sink.Data))
			}
			for i, src := range srcs {
				if src.Closed == 0 {
					w.Fail("script-not-closed", "script file %d was not closed", i)
				}
			}
			got, err := stepfile.Read(bytes.NewReader(sink.Data))
			if err != nil {
				w.Fail("read-failed", "%v", err)
			}
			check(got, "")
		} else {
			if !fired && bad < 0 {
				w.Fail("write-failed", "writing healthy steps failed: %v", err)
			}
			if sink.Fault == core.WNone && !strings.HasPrefix(full, string(sink.Data)) && bad < 0 {
				w.Fail("bytes-invented", "a failed write left bytes that are not a part of the stepfile")
			}
		}
		return
	}
	if s.Chance(1, 25) {
		// a real file, in the scratch directory of the check
		dir, err := os.MkdirTemp(os.Getenv("SIM_SCRATCH"), "step")
		if err != nil {
			return
		}
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, "steps.star")
		if err := os.WriteFile(p, []byte(full), 0o644); err != nil {
			return
		}
		steps, err := stepfile.ReadFile(p)
		if err != nil {
			w.Fail("read-failed", "%v", err)
		}
		check(steps, "from disk")
		if _, err := stepfile.ReadFile(p + ".missing"); err == nil {
			w.Fail("missing-file", "reading a missing stepfile succeeded")
		}
		return
	}
	plan := w.GenFrag("steps")
	if s.Chance(1, 2) {
		plan = w.WithFault("steps", plan, len(full), core.RTruncate, core.RError, core.RGlitch)
	}
	src := w.NewReader("steps", []byte(full), plan)
	steps, err := stepfile.Read(src)
	w.Event("read -> %d %v", len(steps), err)
	if err != nil {
		if !src.Fired() {
			w.Fail("read-failed", "%v", err)
		}
		return
	}
	switch {
	case src.Fired() && plan.Fault == core.RTruncate:
		texts = strings.Split(full[:plan.At], stepSep)
		n = len(texts)
		check(steps, "from a cut file")
	case src.Fired():
		w.Fail("error-swallowed", "the source of a stepfile failed (%s) and its steps were returned as complete", plan.String())
	default:
		check(steps, "")
	}
}

// readChunks reads a stream with drawn buffer sizes until an error.
func readChunks(w *core.World, s *core.Src, r io.Reader, limit int) ([]byte, error) {
	var out []byte
	mode := s.Intn(4)
	if limit > 300_000 {
		mode = 3
	}
	zeros := 0
	for {
		n := 1
		switch mode {
		case 1:
			n = 1 + s.Intn(5)
		case 2:
			n = 1 + s.Intn(100)
		case 3:
			n = 4096
		}
		p := make([]byte, n+3)
		for i := range p {
			p[i] = 0xA5
		}
		k, err := r.Read(p[:n])
		if k < 0 || k > n {
			w.Fail("bad-count", "a read into %d bytes reported %d", n, k)
		}
		if p[n] != 0xA5 || p[n+1] != 0xA5 {
			w.Fail("overrun", "a read wrote past its buffer")
		}
		out = append(out, p[:k]...)
		if err != nil {
			return out, err
		}
		if k == 0 {
			if zeros++; zeros > 200 {
				w.Fail("no-progress", "200 reads in a row gave nothing")
			}
		} else {
			zeros = 0
		}
		if len(out) > limit {
			w.Fail("bytes-invented", "%d bytes from a stream that holds at most %d", len(out), limit)
		}
	}
}

// addLF is the reference for replacecr.
func addLF(in []byte) []byte {
	var out []byte
	for i, c := range in {
		out = append(out, c)
		if c == '\r' && (i+1 == len(in) || in[i+1] != '\n') {
			out = append(out, '\n')
		}
	}
	return out
}

func c19(w *core.World) {
	s := w.C.Src("gen")
	switch s.Weighted(4, 1, 4) {
	case 0:
		w.Dim("replacecr")
		var sb bytes.Buffer
		for i := s.Intn(40); i > 0; i-- {
			sb.WriteString(core.Pick(s, "\r", "\n", "\r\n", "\r\r", "a", "bc", "\"", ",", "é", "\n\r", "\x00"))
			if s.Chance(1, 30) {
				sb.WriteString(strings.Repeat("x", core.Pick(s, 1, 14, 15, 16, 17, 4090, 4095, 4096)))
			}
		}
		if big := core.Big(s, 2000); big > 0 {
			sb.Write(core.Noise(s, big))
			sb.WriteString(core.Pick(s, "", "\r", "\ra", "\r\n"))
		}
		data := sb.Bytes()
		plan := w.GenFrag("src")
		if s.Chance(1, 2) {
			plan = w.WithFault("src", plan, len(data), core.RTruncate, core.RError, core.RGlitch)
		}
		src := w.NewReader("src", data, plan)
		var r io.Reader
		if s.Chance(1, 2) {
			r = replacecr.ReaderWithSize(src, core.Pick(s, 16, 17, 64, 4096))
		} else {
			r = replacecr.Reader(src)
		}
		got, err := readChunks(w, s, r, 2*len(data)+2)
		end := len(data)
		if plan.Fault == core.RTruncate || plan.Fault == core.RError || plan.Fault == core.RGlitch {
			end = min(plan.At, len(data))
		}
		want := addLF(data[:end])
		if plan.Fault == core.RError || plan.Fault == core.RGlitch {
			if err == io.EOF {
				w.Fail("error-swallowed", "the source failed (%s) and the adapter ended cleanly", plan.String())
			}
			if end > 0 && data[end-1] == '\r' {
				// what follows the \r is unknown
				want = want[:len(want)-1]
				if len(got) == len(want)+1 && got[len(want)] == '\n' {
					got = got[:len(want)]
				}
			}
		} else if err != io.EOF {
			w.Fail("read-failed", "a healthy source failed: %v", err)
		}
		if !bytes.Equal(got, want) {
			w.Fail("bytes-changed", "%d bytes of %s became %s, should be %s%s", end, core.Show(string(data[:end])), core.Show(string(got)), core.Show(string(want)), firstDiff(want, got))
		}
	case 1:
		w.Dim("tracked")
		data := []byte(strings.Repeat("0123456789", s.Intn(60)))
		plan := w.GenFrag("src")
		if s.Chance(1, 2) {
			plan = w.WithFault("src", plan, len(data), core.RTruncate, core.RError, core.RGlitch)
		}
		src := w.NewReader("src", data, plan)
		src.CloseErr = core.Pick[error](s, nil, core.ErrInjected)
		tr := dsio.NewTrackedReader(src)
		total := 0
		for i := core.Pick(s, 0, 0, 0, 397, 400); i < 400; i++ {
			p := make([]byte, 1+s.Intn(50))
			before, was := src.Pos(), src.Fired()
			n, err := tr.Read(p)
			total += n
			if src.Pos()-before != n || !bytes.Equal(p[:n], data[before:before+n]) {
				w.Fail("bytes-changed", "a tracked read differs from its source")
			}
			if tr.BytesRead() != total || total != src.Delivered {
				w.Fail("count", "%d bytes were delivered, the tracked reader counts %d", src.Delivered, tr.BytesRead())
			}
			if err == io.EOF && !src.Ended() {
				w.Fail("early-end", "the tracked reader ended after %d bytes and its source did not", total)
			}
			if err != nil {
				if src.Fired() && !was && plan.Fault != core.RTruncate && err != plan.Err {
					w.Fail("error-swallowed", "the source failed with %v, the tracked reader with %v", plan.Err, err)
				}
				if plan.Fault != core.RGlitch {
					break
				}
				if err == io.EOF {
					break
				}
			}
		}
		if err := tr.Close(); err != src.CloseErr || src.Closed != 1 {
			w.Fail("close", "closing gave %v and closed the source %d times", err, src.Closed)
		}
		if tr.BytesRead() != total {
			w.Fail("count", "%d bytes were delivered, the tracked reader counts %d once closed", total, tr.BytesRead())
		}
		if dsio.NewTrackedReader(bytes.NewReader(nil)).Close() != nil {
			w.Fail("close", "closing a reader whose source needs no closing failed")
		}
	case 2:
		c19compression(w, s)
	}
}

func c19compression(w *core.World, s *core.Src) {
	name := core.Pick(s, "gzip", "gz", "zst", "zstd")
	w.Dim("compression:%s", name)
	if s.Chance(1, 40) {
		bad := core.Pick(s, "", "lz4", "GZIP", "zip", "gzip ")
		if _, err := compression.Compressor(bad, w.NewWriter("x")); err == nil {
			w.Fail("bad-format", "compressing as %q was accepted", bad)
		}
		if _, err := compression.Decompressor(bad, bytes.NewReader(nil)); err == nil {
			w.Fail("bad-format", "decompressing %q was accepted", bad)
		}
		return
	}
	var data []byte
	switch s.Intn(4) {
	case 0:
		data = []byte(strings.Repeat("a", s.Intn(3000)))
	case 1:
		data = make([]byte, s.Intn(2000))
		for i := range data {
			data[i] = byte(s.Intn(256))
		}
	case 2:
		for i := s.Intn(300); i > 0; i-- {
			data = append(data, fmt.Sprintf("%d,", s.Intn(1000))...)
		}
	case 3:
		data = bytes.Repeat([]byte("0123456789abcdef"), s.Intn(12000))
	}
	if big := core.Big(s, 1500); big > 0 {
		data = core.Noise(s, big)
	}
	if s.Chance(1, 2) {
		// compress
		w.Concurrent(false, 0)
		sink := w.NewWriter("sink")
		if s.Chance(1, 2) {
			sink = w.NewFaultyWriter("sink", max(20, len(data)/4))
		}
		wc, err := compression.Compressor(name, sink)
		if err != nil {
			w.Fail("open", "%v", err)
		}
		rest := data
		var werr error
		for len(rest) > 0 {
			n := min(len(rest), 1+s.Intn(len(rest)))
			if s.Chance(1, 2) {
				n = min(n, 100)
			}
			if n < 20 {
				n = len(rest)
			}
			k, err := wc.Write(rest[:n])
			if err != nil {
				werr = err
				break
			}
			if k != n {
				w.Fail("short-write", "a compressor took %d of %d bytes without an error", k, n)
			}
			rest = rest[n:]
		}
		if err := wc.Close(); err != nil && werr == nil {
			werr = err
		}
		w.Event("compress %d -> %d %v", len(data), len(sink.Data), werr)
		if werr != nil {
			if !sink.Fired() {
				w.Fail("write-failed", "compressing onto a healthy sink failed: %v", werr)
			}
			return
		}
		plain, err := core.Decompress(name, sink.Data)
		if err != nil || !bytes.Equal(plain, data) {
			w.Fail("bytes-lost", "%d bytes compressed without an error decompress to %d: %v", len(data), len(plain), err)
		}
		return
	}
	schedFor(w, name)
	comp := core.Compress(name, data)
	plan := w.GenFrag("src")
	kinds := []core.ReadFault{core.RTruncate, core.RError, core.RGlitch}
	if s.Chance(1, 6) {
		// several members; cut between two of them the stream is complete
		comp = core.CompressParts(s, name, data, 2+s.Intn(3))
		kinds = kinds[1:]
		w.Dim("members")
	}
	if s.Chance(1, 2) {
		plan = w.WithFault("src", plan, len(comp), kinds...)
		if zst(name) && plan.Err == io.ErrUnexpectedEOF {
			plan.Err = core.ErrInjected
		}
	}
	src := w.NewReader("src", comp, plan)
	r, err := compression.Decompressor(name, src)
	if err != nil {
		if !src.Fired() {
			w.Fail("open", "opening a healthy %s stream failed: %v", name, err)
		}
		return
	}
	got, err := readChunks(w, s, r, len(data))
	cerr := r.Close()
	if !bytes.HasPrefix(data, got) {
		w.Fail("bytes-changed", "decompressed bytes differ from the original%s", firstDiff(data, got))
	}
	if err != io.EOF {
		if !src.Fired() {
			w.Fail("read-failed", "a healthy %s stream failed: %v", name, err)
		}
		return
	}
	if src.Fired() && plan.Fault == core.RTruncate && plan.At <= 8 && zst(name) && len(got) == 0 {
		return
	}
	if len(got) != len(data) {
		w.Fail("silent-truncation", "%d of %d bytes of a %s stream before a clean end (%s)", len(got), len(data), name, plan.String())
	}
	if cerr != nil && !src.Fired() {
		w.Fail("close", "closing a fully read %s stream failed: %v", name, cerr)
	}
}
