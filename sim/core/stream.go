package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
	"time"

	"github.com/qri-io/qfs"
)

// ErrInjected is the base of every injected I/O error.
var ErrInjected = errors.New("simulated I/O error")

// injectedErrors are the errors real files and sockets give.
func injectedErr(i int) error {
	switch i {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return &os.PathError{Op: "read", Path: "/sim/body", Err: syscall.EIO}
	case 3:
		return fmt.Errorf("connection reset: %w", syscall.ECONNRESET)
	}
	return ErrInjected
}

// ReadFault says what goes wrong on a source.
type ReadFault int

// Read faults.
const (
	RNone     ReadFault = iota
	RTruncate           // the source ends cleanly at a cut
	RError              // error at a byte, sticky
	RGlitch             // error at a byte once, then the rest follows
)

// FragMode is how a source splits its bytes over Read calls.
type FragMode int

// ReaderPlan is everything the simulator decided about a source up front.
type ReaderPlan struct {
	Frag     int
	Fault    ReadFault
	At       int
	Err      error
	WithData bool // error or EOF comes together with the last bytes
	Zero     bool // may return (0, nil)
	Stall    bool // may take simulated time
}

// Reader is a simulated byte source.
type Reader struct {
	W     *World
	Name  string
	Data  []byte
	Plan  ReaderPlan
	src   *Src
	pos   int
	fired bool
	zero  bool

	Reads     int
	Delivered int
	Closed    int
	AfterEnd  int // reads after the end was reported
	ended     bool
	CloseErr  error
}

// GenFrag draws only the delivery pattern.
func (w *World) GenFrag(name string) ReaderPlan {
	s := w.C.Src("io:" + name)
	p := ReaderPlan{At: -1}
	p.Frag = s.Weighted(3, 3, 3, 2, 2, 2, 1)
	p.WithData = s.Chance(1, 3)
	p.Zero = s.Chance(1, 6) && !w.noEmpty
	p.Stall = s.Chance(1, 8)
	return p
}

// NoEmptyReads keeps sources from returning (0, nil): the zstd library takes
// such a read for the end of a frame, which the repository cannot help.
func (w *World) NoEmptyReads() { w.noEmpty = true }

// NewReader makes a source with the given plan.
func (w *World) NewReader(name string, data []byte, plan ReaderPlan) *Reader {
	w.Dim("frag%d", plan.Frag)
	if plan.Frag != 0 {
		w.nontriv = true
	}
	return &Reader{W: w, Name: name, Data: data, Plan: plan, src: w.C.Src("io:" + name)}
}

// WithFault draws a fault for a source of n bytes. kinds lists the candidates.
func (w *World) WithFault(name string, p ReaderPlan, n int, kinds ...ReadFault) ReaderPlan {
	s := w.C.Src("io:" + name)
	p.Fault = kinds[s.Intn(len(kinds))]
	if p.Fault == RNone {
		return p
	}
	// any byte boundary, with a bias to the ends and to buffer boundaries
	switch s.Weighted(6, 2, 2, 1, 2) {
	case 0:
		p.At = s.Intn(n + 1)
	case 4:
		// between two entries, after a round number of them if there are many
		p.At = s.Intn(n + 1)
		if c := w.cuts; len(c) > 0 {
			k := s.Intn(len(c))
			if r := Pick(s, 10, 64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096, 5000); r <= len(c) && s.Chance(2, 3) {
				k = r*(1+s.Intn(len(c)/r)) - 1
			}
			p.At = max(0, min(n, c[k]+s.Intn(3)-s.Intn(2)))
		}
	case 1:
		p.At = n - s.Intn(min(n, 8)+1)
	case 2:
		p.At = s.Intn(min(n, 16) + 1)
	case 3:
		b := Pick(s, 4096, 512, 100, 65536)
		p.At = min(n, b*(1+s.Intn(n/b+1)))
		p.At = max(0, min(n, p.At-1+s.Intn(3)))
	}
	if p.Fault != RTruncate {
		p.Err = injectedErr(s.Intn(4))
	}
	return p
}

func (p ReaderPlan) String() string {
	return fmt.Sprintf("frag=%d fault=%d at=%d err=%v withData=%v zero=%v", p.Frag, p.Fault, p.At, p.Err, p.WithData, p.Zero)
}

// Ended tells whether a read reported the end.
func (r *Reader) Ended() bool { return r.ended }

// Fired tells whether the planned fault was reached.
func (r *Reader) Fired() bool { return r.fired }

func (r *Reader) limit() int {
	if r.Plan.At >= 0 && r.Plan.Fault != RNone && !(r.Plan.Fault == RGlitch && r.fired) {
		return min(r.Plan.At, len(r.Data))
	}
	return len(r.Data)
}

// Rest is what the source has not delivered yet.
func (r *Reader) Rest() []byte { return r.Data[r.pos:] }

// Pos is how many bytes were delivered.
func (r *Reader) Pos() int { return r.pos }

func (r *Reader) endErr() error {
	if r.pos >= r.limit() {
		if r.Plan.At >= 0 && !(r.Plan.Fault == RGlitch && r.fired) {
			switch r.Plan.Fault {
			case RTruncate:
				if r.pos < len(r.Data) && !r.fired {
					r.fired = true
					r.W.Fault("source-truncated")
				}
				return io.EOF
			case RError:
				if !r.fired {
					r.fired = true
					r.W.Fault("source-error")
				}
				return r.Plan.Err
			case RGlitch:
				r.fired = true
				r.W.Fault("source-transient-error")
				return r.Plan.Err
			}
		}
		if r.pos >= len(r.Data) {
			return io.EOF
		}
	}
	return nil
}

func (r *Reader) Read(p []byte) (int, error) {
	r.W.IO("read:" + r.Name)
	r.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	if r.Plan.Stall && r.src.Chance(1, 20) {
		r.W.faults["source-stall"]++
		r.W.Sleep(time.Duration(1+r.src.Intn(500)) * time.Millisecond)
	}
	left := r.limit() - r.pos
	if left <= 0 {
		if r.ended {
			r.AfterEnd++
		}
		err := r.endErr()
		if err == io.EOF {
			r.ended = true
		}
		r.W.Event("read %s -> 0 %v", r.Name, err)
		return 0, err
	}
	if r.Plan.Zero && !r.zero && r.src.Chance(1, 10) {
		r.zero = true
		r.W.faults["empty-read"]++
		return 0, nil
	}
	r.zero = false
	n := min(len(p), left)
	frag := r.Plan.Frag
	if len(r.Data) > 300_000 && frag != 6 && !(r.pos < 5000 || left < 2000) {
		// a long source comes in small pieces at its ends only
		frag = 4
	}
	switch frag {
	case 1:
		n = 1
	case 2:
		n = min(n, 1+r.src.Intn(7))
	case 3:
		n = min(n, 1+r.src.Intn(200))
	case 4:
		n = min(n, 4094+r.src.Intn(5))
	case 5:
		// mostly large with occasional single bytes
		if r.src.Chance(1, 3) {
			n = 1
		} else {
			n = min(n, 1+r.src.Intn(3000))
		}
	case 6:
		n = min(n, 65536)
	}
	if n < min(len(p), left) {
		r.W.faults["short-read"]++
	}
	copy(p[:n], r.Data[r.pos:])
	r.pos += n
	r.Delivered += n
	var err error
	if r.Plan.WithData {
		err = r.endErr()
		if err == io.EOF {
			r.ended = true
		}
	}
	if r.W.tracing {
		r.W.Event("read %s -> %d %v", r.Name, n, err)
	} else {
		r.W.logHash = mix(r.W.logHash ^ uint64(n))
	}
	return n, err
}

// Close closes the source.
func (r *Reader) Close() error {
	r.W.IO("close:" + r.Name)
	r.Closed++
	return r.CloseErr
}

// WriteFault says what goes wrong on a sink.
type WriteFault int

// Write faults.
const (
	WNone   WriteFault = iota
	WFull              // no space left from a byte on, sticky, partial write
	WError             // error at a byte, sticky, nothing of that call written
	WGlitch            // one write call fails, later ones succeed
	WShort             // one write call is short, later ones succeed
)

// Writer is a simulated byte sink.
type Writer struct {
	W     *World
	Name  string
	Data  []byte
	Fault WriteFault
	At    int
	fired bool
	Calls int
	src   *Src
}

// NewWriter makes a fault-free sink.
func (w *World) NewWriter(name string) *Writer {
	return &Writer{W: w, Name: name, At: -1, src: w.C.Src("io:" + name)}
}

// NewFaultyWriter makes a sink for about n bytes with a drawn fault.
func (w *World) NewFaultyWriter(name string, n int) *Writer {
	wr := w.NewWriter(name)
	wr.Fault = WriteFault(wr.src.Intn(5))
	switch wr.src.Weighted(6, 2, 2) {
	case 0:
		wr.At = wr.src.Intn(n + 1)
	case 1:
		wr.At = max(0, n-wr.src.Intn(8))
	case 2:
		wr.At = wr.src.Intn(min(n, 16) + 1)
	}
	return wr
}

// Fired tells whether the planned fault happened.
func (x *Writer) Fired() bool { return x.fired }

func (x *Writer) Write(p []byte) (int, error) {
	x.W.IO("write:" + x.Name)
	x.Calls++
	if x.Fault != WNone && x.At >= 0 && len(p) > 0 && len(x.Data)+len(p) > x.At {
		switch x.Fault {
		case WFull:
			if !x.fired {
				x.fired = true
				x.W.Fault("sink-full")
			}
			n := max(0, x.At-len(x.Data))
			x.Data = append(x.Data, p[:n]...)
			return n, &os.PathError{Op: "write", Path: "/sim/out", Err: syscall.ENOSPC}
		case WError:
			if !x.fired {
				x.fired = true
				x.W.Fault("sink-error")
			}
			return 0, &os.PathError{Op: "write", Path: "/sim/out", Err: syscall.EIO}
		case WGlitch:
			if !x.fired {
				x.fired = true
				x.W.Fault("sink-transient-error")
				return 0, ErrInjected
			}
		case WShort:
			if !x.fired {
				x.fired = true
				x.W.Fault("sink-short-write")
				n := min(len(p)-1, max(0, x.At-len(x.Data)))
				x.Data = append(x.Data, p[:n]...)
				return n, io.ErrShortWrite
			}
		}
	}
	x.Data = append(x.Data, p...)
	x.W.Event("write %s %d", x.Name, len(p))
	return len(p), nil
}

// File is a qfs.File over a simulated source.
type File struct {
	*Reader
	fileName, fullPath string
}

// NewFile wraps a source as a file.
func NewFile(r *Reader, path string) *File {
	name := path
	for i := len(path) - 1; i >= 0; i-- {
		if path[i] == '/' {
			name = path[i+1:]
			break
		}
	}
	return &File{Reader: r, fileName: name, fullPath: path}
}

// FileName implements qfs.File.
func (f *File) FileName() string { return f.fileName }

// FullPath implements qfs.File.
func (f *File) FullPath() string { return f.fullPath }

// IsDirectory implements qfs.File.
func (f *File) IsDirectory() bool { return false }

// NextFile implements qfs.File.
func (f *File) NextFile() (qfs.File, error) { return nil, qfs.ErrNotDirectory }

// MediaType implements qfs.File.
func (f *File) MediaType() string { return "" }

// ModTime implements qfs.File.
func (f *File) ModTime() time.Time { return time.Time{} }

// SizedFile is a File that knows its size.
type SizedFile struct {
	*File
	N int64
}

// Size implements qfs.SizeFile.
func (f *SizedFile) Size() int64 { return f.N }

var (
	_ qfs.File     = (*File)(nil)
	_ qfs.SizeFile = (*SizedFile)(nil)
)

// Resolver is a simulated content store.
type Resolver struct {
	W     *World
	Files map[string][]byte
	// Next decides the outcome of the next Get.
	Next func(path string) (plan ReaderPlan, err error)
	Gets []string
	Last *Reader
}

// ErrNotFound is what the store gives for a missing path.
var ErrNotFound = fmt.Errorf("simulated store: %w", qfs.ErrNotFound)

// Get implements qfs.PathResolver.
func (s *Resolver) Get(ctx context.Context, path string) (qfs.File, error) {
	s.W.IO("get:" + path)
	s.Gets = append(s.Gets, path)
	plan := ReaderPlan{At: -1}
	if s.Next != nil {
		var err error
		plan, err = s.Next(path)
		if err != nil {
			s.W.Event("get %s -> %v", path, err)
			return nil, err
		}
	}
	data, ok := s.Files[path]
	if !ok {
		return nil, ErrNotFound
	}
	s.Last = s.W.NewReader(fmt.Sprintf("store%d", len(s.Gets)), data, plan)
	return NewFile(s.Last, path), nil
}
