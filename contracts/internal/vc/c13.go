//go:build verif

package vc

import (
	"encoding/binary"
	"math"

	. "github.com/soypat/sdf/internal/vspec"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

func C13_WriteSTL(t *T) {
	t.Opt("nodiv")
	var model []r3.Triangle
	t.Any("model", &model)
	k := t.Int("k", 0, 1<<32)
	t.Require(k < len(model))
	PlainVectors(t)
	want := STLBytes(model[k])
	s := &Sink{T: t}
	t.Invariant(func(rangeindex int) bool { return len(s.Got) == 84+50*(rangeindex+1) })
	t.Invariant(func(i int) bool { return len(s.Got) == 84+50*i })
	for j := 0; j < 50; j += 2 {
		j := j
		t.Invariant(func() bool {
			return Imp(84+50*k+50 <= len(s.Got), And(s.Got[84+50*k+j] == want[j], s.Got[84+50*k+j+1] == want[j+1]))
		})
	}
	var cnt [4]byte
	binary.LittleEndian.PutUint32(cnt[:], uint32(len(model)))
	for j := range cnt {
		j := j
		t.Invariant(func() bool { return s.Got[80+j] == cnt[j] })
	}
	err := render.WriteSTL(s, model)
	t.Ensure("error only for more than 2^32-1 triangles", Iff(err == nil, len(model) <= math.MaxUint32))
	if err != nil {
		return
	}
	t.Ensure("length", len(s.Got) == 84+50*len(model))
	t.Ensure("number of triangles", int(binary.LittleEndian.Uint32(s.Got[80:])) == len(model))
	for j := range want {
		t.Ensure("record of each triangle", s.Got[84+50*k+j] == want[j])
	}
}

// an error of the writer is returned; an empty model is rejected
func C13_WriteSTLError(t *T) {
	t.Opt("nodiv")
	PlainVectors(t)
	var model []r3.Triangle
	t.Any("model", &model)
	if len(model) == 0 {
		s := &Sink{T: t}
		err := render.WriteSTL(s, model)
		t.Ensure("empty model rejected", err != nil && len(s.Got) == 0)
		return
	}
	t.Require(len(model) <= math.MaxUint32)
	s := &Sink{T: t, Fails: true}
	t.Invariant(func() bool { return s.Err == nil })
	err := render.WriteSTL(s, model)
	t.Ensure("error of the writer returned", err == s.Err)
}
