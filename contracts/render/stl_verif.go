//go:build verif

package render

import (
	"encoding/binary"
	"errors"
	"io"
	"math"
	"os"
	"path/filepath"

	. "github.com/soypat/sdf/internal/vspec"
)

func anyChunked(t *T) *Chunked {
	c := &Chunked{T: t, End: io.EOF}
	t.Any("model", &c.Model)
	if t.Bool("fails") {
		c.End = errors.New("failed")
	}
	return c
}

// one Read delivers the records of the next triangles of the renderer
func C13_STLReader(t *T) {
	t.Opt("nodiv")
	PlainVectors(t)
	c := anyChunked(t)
	start := t.Int("start", 0, 1<<20)
	t.Require(start <= len(c.Model))
	c.Pos = start
	var b []byte
	if t.Native() {
		b = make([]byte, t.Int("len", 50, 400))
	} else {
		t.Any("b", &b)
	}
	t.Require(len(b) >= 50)
	k := t.Int("k", 0, 1<<20)
	t.Require(start+k < len(c.Model))
	want := STLBytes(c.Model[start+k])
	rd := &stlReader{r: c}
	t.Invariant(func(it int) bool { return it == c.Pos-start })
	t.Invariant(func() bool { return 50*(c.Pos-start) <= len(b) })
	t.Invariant(func(it, i int) bool { return it == c.Pos-start-c.N+i })
	t.Invariant(func(err error) bool { return And(Iff(err != nil, c.Ended), Imp(err != nil, err == c.End)) })
	for j := 0; j < 50; j += 2 {
		j := j
		t.Invariant(func(it int, b []byte) bool {
			return Imp(k < it, And(b[50*k+j] == want[j], b[50*k+j+1] == want[j+1]))
		})
	}
	n, err := rd.Read(b)
	t.Ensure("whole records", n <= len(b) && n == 50*(c.Pos-start))
	t.Ensure("an error is the renderer's", Iff(err != nil, c.Ended) && Imp(err != nil, err == c.End))
	t.Ensure("progress", err != nil || n > 0)
	if k < c.Pos-start {
		for j := range want {
			t.Ensure("records of the triangles delivered", b[50*k+j] == want[j])
		}
	}
}

// too little room for a record is an error
func C13_STLReaderShort(t *T) {
	rd := &stlReader{r: anyChunked(t)}
	b := make([]byte, t.Int("len", 0, 49))
	n, err := rd.Read(b)
	t.Ensure("rejected", n == 0 && err != nil)
}

// file is the file created, as its contents and the place of the next write.
type file struct {
	t    *T
	data []byte
	pos  int
	len  int
}

func (f *file) write(p []byte) {
	f.t.Require(len(p) <= len(f.data)-f.pos)
	copy(f.data[f.pos:], p)
	f.pos += len(p)
	if f.pos > f.len {
		f.len = f.pos
	}
}

// CreateSTL leaves a file holding the header with the number of triangles
// and the record of every triangle of the renderer
func C13_CreateSTL(t *T) {
	c := anyChunked(t)
	t.Require(len(c.Model) <= math.MaxUint32)
	if t.Native() {
		nativeCreateSTL(t, c)
		return
	}
	t.Opt("nodiv")
	PlainVectors(t)
	k := t.Int("k", 0, 1<<32)
	t.Require(k < len(c.Model))
	want := STLBytes(c.Model[k])
	f := &file{t: t}
	t.Any("disk", &f.data)
	t.Require(84+50*len(c.Model) <= len(f.data))
	t.Replace(os.Create, func(string) (*os.File, error) { return &os.File{}, nil }, "the operating system")
	t.Replace((*os.File).Close, func(*os.File) error { return nil }, "the operating system")
	t.Replace((*os.File).Seek, func(_ *os.File, off int64, whence int) (int64, error) {
		t.Require(whence == 0)
		f.pos = int(off)
		return off, nil
	}, "the operating system")
	t.Replace((*os.File).Write, func(_ *os.File, p []byte) (int, error) {
		f.write(p)
		return len(p), nil
	}, "the operating system")
	t.Replace(binary.Write, func(w io.Writer, o binary.ByteOrder, v interface{}) error {
		h := v.(*stlHeader)
		var b [84]byte
		binary.LittleEndian.PutUint32(b[80:], h.Count)
		f.write(b[:])
		return nil
	}, "encoding/binary: fields in order")
	t.Replace((*os.File).ReadFrom, func(_ *os.File, r io.Reader) (int64, error) {
		var buf []byte
		t.Any("buf", &buf)
		t.Require(len(buf) >= 50)
		total := 0
		for {
			n, err := r.Read(buf)
			f.write(buf[:n])
			total += n
			if err == io.EOF {
				return int64(total), nil
			}
			if err != nil {
				return int64(total), err
			}
		}
	}, "the operating system: reads all and writes it at the position of the file")
	t.Replace((*stlReader).Read, func(rd *stlReader, b []byte) (int, error) {
		t.Ensure("reads from the renderer", rd.r == Renderer(c) && len(b) >= 50 && !c.Ended)
		m := t.Int("m", 0, 1<<30)
		t.Require(m <= len(c.Model)-c.Pos && 50*m <= len(b))
		var rec []byte
		t.Any("rec", &rec)
		t.Require(len(rec) == 50*m)
		if c.Pos <= k && k < c.Pos+m {
			for j := range want {
				t.Require(rec[50*(k-c.Pos)+j] == want[j])
			}
		}
		copy(b, rec)
		c.Pos += m
		if c.Pos == len(c.Model) && t.Bool("end") {
			c.Ended = true
			return 50 * m, c.End
		}
		return 50 * m, nil
	}, "C13_STLReader")
	t.Invariant(func(total int) bool {
		return total == 50*c.Pos && c.Pos <= len(c.Model) && f.pos == 84+50*c.Pos && (f.len == f.pos || c.Pos == 0 && f.len == 0) && !c.Ended
	})
	for j := 0; j < 50; j += 2 {
		j := j
		t.Invariant(func(total int) bool {
			return Imp(k < c.Pos, And(f.data[84+50*k+j] == want[j], f.data[84+50*k+j+1] == want[j+1]))
		})
	}
	err := CreateSTL("out.stl", c)
	t.Ensure("error only if the renderer failed", Imp(err != nil, err == c.End) && Iff(err == nil, c.End == io.EOF))
	if err != nil {
		return
	}
	t.Ensure("length of the file", f.len == 84+50*len(c.Model))
	t.Ensure("number of triangles", int(binary.LittleEndian.Uint32(f.data[80:])) == len(c.Model))
	for j := range want {
		t.Ensure("record of each triangle", f.data[84+50*k+j] == want[j])
	}
}

func nativeCreateSTL(t *T, c *Chunked) {
	dir, err := os.MkdirTemp("", "stl")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "out.stl")
	err = CreateSTL(path, c)
	t.Ensure("error only if the renderer failed", Imp(err != nil, err == c.End) && Iff(err == nil, c.End == io.EOF))
	if err != nil {
		return
	}
	b, err := os.ReadFile(path)
	t.Ensure("length of the file", err == nil && len(b) == 84+50*len(c.Model))
	t.Ensure("number of triangles", int(binary.LittleEndian.Uint32(b[80:])) == len(c.Model))
	for i, tri := range c.Model {
		w := STLBytes(tri)
		t.Ensure("record of each triangle", string(b[84+50*i:134+50*i]) == string(w[:]))
	}
}
