//go:build verif

package vspec

import (
	"encoding/binary"
	"errors"
	"math"

	"gonum.org/v1/gonum/spatial/r3"
)

// Sink keeps what is written to it and fails at one write if asked.
type Sink struct {
	T     *T
	Got   []byte
	Fails bool
	Err   error
}

func (s *Sink) Write(p []byte) (int, error) {
	if s.Fails && s.T.Bool("now") {
		s.Err = errors.New("write failed")
		return 0, s.Err
	}
	s.Got = append(s.Got, p...)
	return len(p), nil
}

// STLBytes is the STL record of a triangle: unit normal, vertices, no attribute.
func STLBytes(tri r3.Triangle) (b [50]byte) {
	n := r3.Unit(r3.Cross(r3.Sub(tri[1], tri[0]), r3.Sub(tri[2], tri[1])))
	for i, v := range [4]r3.Vec{n, tri[0], tri[1], tri[2]} {
		binary.LittleEndian.PutUint32(b[12*i:], math.Float32bits(float32(v.X)))
		binary.LittleEndian.PutUint32(b[12*i+4:], math.Float32bits(float32(v.Y)))
		binary.LittleEndian.PutUint32(b[12*i+8:], math.Float32bits(float32(v.Z)))
	}
	return b
}

// unit and cross products as uninterpreted functions
func PlainVectors(t *T) {
	if t.Native() {
		return
	}
	var unit func(r3.Vec) r3.Vec
	var cross func(p, q r3.Vec) r3.Vec
	t.Any("unit", &unit)
	t.Any("cross", &cross)
	t.Replace(r3.Unit, func(v r3.Vec) r3.Vec { return unit(v) }, "gonum: the definition of unit vector")
	t.Replace(r3.Cross, func(p, q r3.Vec) r3.Vec { return cross(p, q) }, "gonum: the definition of cross product")
}

// Chunked serves Model in pieces of any size; the end is reported with the
// last piece or by a call of its own.
type Chunked struct {
	T     *T
	Model []r3.Triangle
	Pos   int
	End   error
	Ended bool
	N     int // length of the last piece
}

func (c *Chunked) ReadTriangles(dst []r3.Triangle) (int, error) {
	t := c.T
	n := t.Int("n", 0, 1<<20)
	t.Require(n <= len(dst) && n <= len(c.Model)-c.Pos)
	copy(dst[:n], c.Model[c.Pos:])
	c.Pos += n
	c.N = n
	if c.Pos == len(c.Model) && t.Bool("end") {
		c.Ended = true
		return n, c.End
	}
	t.Require(n > 0 || !t.Native())
	return n, nil
}
