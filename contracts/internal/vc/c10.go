//go:build verif

package vc

import (
	"errors"
	"io"

	. "github.com/soypat/sdf/internal/vspec"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

// RenderAll returns everything the renderer delivered, in order.
func C10_RenderAll(t *T) {
	var model []r3.Triangle
	t.Any("model", &model)
	k := t.Int("k", 0, 1<<20)
	t.Require(k < len(model))
	end := io.EOF
	fails := t.Bool("fails")
	if fails {
		end = errors.New("failed")
	}
	c := &Chunked{T: t, Model: model, End: end}
	t.Invariant(func(result []r3.Triangle) bool { return len(result) == c.Pos })
	t.Invariant(func(result []r3.Triangle) bool { return c.Pos <= len(model) })
	t.Invariant(func(result []r3.Triangle) bool { return k >= len(result) || result[k] == model[k] })
	got, err := render.RenderAll(c)
	t.Ensure("error only when the renderer failed", Iff(err != nil, fails))
	t.Ensure("everything delivered, once", len(got) == c.Pos && Imp(!fails, len(got) == len(model)))
	t.Ensure("in order", Imp(k < len(got), got[k] == model[k]))
}

// a triangle buffer is first in, first out
func C10_TriangleBuffer(t *T) {
	var a, b, p, q []r3.Triangle
	t.Any("a", &a)
	t.Any("b", &b)
	t.Any("p", &p)
	t.Any("q", &q)
	k := t.Int("k", 0, 1<<40)
	in := func(i int) r3.Triangle { // i-th triangle written
		if i < len(a) {
			return a[i]
		}
		return b[i-len(a)]
	}
	var buf render.TriangleBuffer
	t.Ensure("starts empty", buf.Len() == 0)
	wa := buf.Write(a)
	np := buf.Read(p)
	wb := buf.Write(b)
	t.Ensure("writes everything", wa == len(a) && wb == len(b))
	t.Ensure("length", buf.Len() == len(a)+len(b)-np)
	nq := buf.Read(q)
	t.Ensure("reads as much as fits", np <= len(p) && (np == len(p) || np == len(a)) && np <= len(a) && nq <= len(q) && (nq == len(q) || np+nq == len(a)+len(b)))
	if k < np {
		t.Ensure("in order", p[k] == in(k))
	}
	if k < nq {
		t.Ensure("in order, later", q[k] == in(np+k))
	}
	t.Ensure("rest stays", buf.Len() == len(a)+len(b)-np-nq)
}
