// Package mem is a storage that behaves like a file, can count and log the
// operations on it and make them fail.
package mem

import (
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"verif/raw"
)

var ErrInjected = errors.New("injected storage fault")

// Faults are what a failing operation reports, in turn: the wrapped and the bare
// forms of the errors storages have. None of them is io.EOF, which is an answer.
var Faults = []error{
	ErrInjected,
	io.ErrUnexpectedEOF,
	fmt.Errorf("%w: %w", ErrInjected, syscall.EIO),
	&os.PathError{Op: "io", Path: "index", Err: syscall.ENOSPC},
	os.ErrDeadlineExceeded,
	io.ErrShortWrite,
	fmt.Errorf("%w: %w", ErrInjected, io.ErrUnexpectedEOF),
	os.ErrClosed,
	syscall.EPIPE,
	&os.PathError{Op: "io", Path: "index", Err: os.ErrNotExist},
	io.ErrNoProgress,
}

type Kind int

const (
	Read Kind = iota
	Write
	Seek
)

func (k Kind) String() string { return [...]string{"read", "write", "seek"}[k] }

// File is an io.ReadWriteSeeker over memory.
type File struct {
	Buf []byte
	pos int64

	Ops     [3]int
	Bytes   [3]int
	FailAt  func(k Kind, n int) bool // n counts all operations so far
	Failed  int
	Last    error // what the last failed operation reported
	OnWrite func(off int64, p []byte)

	// With a gap, Buf leaves out Gap zero bytes at GapAt: the file is that much
	// longer than Buf. What is after them is past where 32 bits reach, say.
	GapAt, Gap int64
	Stray      int // writes into the gap
}

// Sizes are for Far: around where 31 and 32 bits end, and well past.
var Sizes = []int64{1<<31 - 4096, 1<<32 - 3*4096, 1<<32 - 4096, 1 << 32, 5<<30 + 4096, 1 << 40}

// Far puts a gap at the end of the file, so that it is size bytes long.
func (f *File) Far(size int64) {
	f.GapAt, f.Gap = int64(len(f.Buf)), size-int64(len(f.Buf))
}

// Clone is a file like f, with none of its counts.
func (f *File) Clone() *File {
	n := New(f.Buf)
	n.GapAt, n.Gap = f.GapAt, f.Gap
	return n
}

// Get is what the file holds at off, n bytes of it.
func (f *File) Get(off int64, n int) []byte {
	b := make([]byte, n)
	f.fetch(b, off)
	return b
}

// Raw is what the file holds, for decoding.
func (f *File) Raw() raw.File {
	return raw.File{Buf: f.Buf, GapAt: uint64(f.GapAt), Gap: uint64(f.Gap)}
}

// Size is how long the file is.
func (f *File) Size() int64 { return int64(len(f.Buf)) + f.Gap }

// at gives the bytes at off up to n of them, or how many there are of the gap.
func (f *File) at(off int64, n int) (b []byte, gap int) {
	end := int64(len(f.Buf))
	switch {
	case f.Gap == 0 || off < f.GapAt:
		if f.Gap > 0 {
			end = f.GapAt
		}
	case off < f.GapAt+f.Gap:
		return nil, int(min(int64(n), f.GapAt+f.Gap-off))
	default:
		off -= f.Gap
	}
	return f.Buf[off:min(end, off+int64(n))], 0
}

// fetch reads into p at off, which with p is inside the file.
func (f *File) fetch(p []byte, off int64) {
	for len(p) > 0 {
		b, n := f.at(off, len(p))
		if n == 0 {
			n = copy(p, b)
		} else {
			clear(p[:n])
		}
		p, off = p[n:], off+int64(n)
	}
}

var regions = make(chan bool, 3) // there may not be addresses for more

// Region is memory of n bytes, all zero, of which only what is touched takes
// space, and how to give it back. A case has one at a time.
func Region(n int) ([]byte, func(), error) {
	regions <- true
	b, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	return b, func() {
		if b != nil {
			syscall.Munmap(b)
		}
		<-regions
	}, err
}

func New(b []byte) *File { return &File{Buf: append([]byte(nil), b...)} }

func (f *File) Total() int { return f.Ops[Read] + f.Ops[Write] + f.Ops[Seek] }

func (f *File) op(k Kind) error {
	n := f.Total()
	f.Ops[k]++
	if f.FailAt != nil && f.FailAt(k, n) {
		f.Failed++
		f.Last = Faults[n%len(Faults)]
		return f.Last
	}
	return nil
}

// part is how much of a failing transfer of n bytes happens: less than all of it.
func (f *File) part(n int) int {
	if n == 0 || f.Total()%3 == 0 {
		return 0
	}
	return f.Total() * 7 % n
}

func (f *File) Read(p []byte) (int, error) {
	if err := f.op(Read); err != nil {
		// part of what was asked for may have been read
		if part := f.part(len(p)); part > 0 && f.pos+int64(part) <= f.Size() {
			f.fetch(p[:part], f.pos)
			f.pos += int64(part)
			return part, err
		}
		return 0, err
	}
	if f.pos >= f.Size() {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), f.Size()-f.pos))
	f.fetch(p[:n], f.pos)
	f.pos += int64(n)
	f.Bytes[Read] += n
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.op(Write); err != nil {
		part := f.part(len(p))
		f.write(p[:part])
		return part, err
	}
	f.write(p)
	return len(p), nil
}

func (f *File) write(p []byte) {
	if f.OnWrite != nil {
		f.OnWrite(f.pos, p)
	}
	end := f.pos + int64(len(p))
	if end > f.Size() {
		f.Buf = append(f.Buf, make([]byte, end-f.Size())...)
	}
	f.Bytes[Write] += len(p)
	for len(p) > 0 {
		b, n := f.at(f.pos, len(p))
		if n == 0 {
			n = copy(b, p)
		} else {
			f.Stray++
		}
		p, f.pos = p[n:], f.pos+int64(n)
	}
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.op(Seek); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.Size()
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}
