//go:build verif

package render

import (
	"archive/zip"
	"encoding/xml"
	"errors"
	"io"
	"os"
	"path/filepath"

	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r3"
)

// entry is a file of the package written
type entry struct {
	name string
	err  error
}

func (e *entry) Write(p []byte) (int, error) { return len(p), e.err }

// the package written by Create3MF holds one mesh: triangle k refers to its
// own three vertices, in order, and no vertex is listed twice
func C14_Create3MF(t *T) {
	c := anyChunked(t)
	if t.Native() {
		nativeCreate3MF(t, c)
		return
	}
	k := t.Int("k", 0, 1<<40)
	a, b := t.Int("a", 0, 1<<40), t.Int("b", 0, 1<<40)
	t.Require(k < len(c.Model) && a < b)
	tri := c.Model[k]
	same := func(v mf3Vertex, q r3.Vec) bool { return And(And(v.X == q.X, v.Y == q.Y), v.Z == q.Z) }
	at := func(vs []mf3Vertex, i int, q r3.Vec) bool {
		return 0 <= i && i < len(vs) && same(vs[i], q)
	}
	for j := range tri {
		j := j
		done := func(dst []mf3Triangle, vertices []mf3Vertex) bool {
			d := dst[k]
			v := d.V1
			if j == 1 {
				v = d.V2
			}
			if j == 2 {
				v = d.V3
			}
			return at(vertices, v, tri[j])
		}
		t.Invariant(func(vertexMap interface{}, vertices []mf3Vertex) bool {
			e, has := MapInt(vertexMap, tri[j], "idx")
			return Imp(has, at(vertices, e, tri[j]))
		})
		t.Invariant(func(dst []mf3Triangle, vertices []mf3Vertex, i int) bool {
			return Imp(i > k, done(dst, vertices))
		})
	}
	t.Invariant(func(vertexMap interface{}, vertices []mf3Vertex) bool {
		if a >= len(vertices) {
			return true
		}
		e, has := MapInt(vertexMap, r3.Vec(vertices[a]), "idx")
		return has && e == a
	})
	t.Invariant(func(vertices []mf3Vertex) bool {
		return b >= len(vertices) || !same(vertices[b], r3.Vec(vertices[a]))
	})
	t.Replace(RenderAll, func(r Renderer) ([]r3.Triangle, error) {
		t.Ensure("renders", r == Renderer(c))
		if c.End != io.EOF {
			return nil, c.End
		}
		return c.Model, nil
	}, "C10_RenderAll")
	var failed error
	fail := func(name string) error {
		if failed == nil && t.Bool(name) {
			failed = errors.New(name)
			return failed
		}
		return nil
	}
	opened, closed, meshes := 0, 0, 0
	var cur *entry
	t.Replace(os.Create, func(name string) (*os.File, error) {
		t.Ensure("the file named", name == "path")
		if err := fail("create"); err != nil {
			return nil, err
		}
		opened++
		return &os.File{}, nil
	}, "the operating system")
	t.Replace((*os.File).Close, func(*os.File) error { return nil }, "the operating system")
	t.Replace(zip.NewWriter, func(io.Writer) *zip.Writer { return &zip.Writer{} }, "archive/zip")
	t.Replace((*zip.Writer).Create, func(_ *zip.Writer, name string) (io.Writer, error) {
		if err := fail("zip"); err != nil {
			return nil, err
		}
		cur = &entry{name: name}
		cur.err = fail("write")
		return cur, nil
	}, "archive/zip")
	t.Replace((*zip.Writer).Close, func(*zip.Writer) error {
		closed++
		if closed == 1 {
			return fail("close")
		}
		return nil
	}, "archive/zip")
	t.Replace(xml.NewEncoder, func(w io.Writer) *xml.Encoder {
		t.Ensure("encodes to the entry last created", w == io.Writer(cur))
		return &xml.Encoder{}
	}, "encoding/xml")
	t.Replace((*xml.Encoder).Indent, func(*xml.Encoder, string, string) {}, "encoding/xml")
	t.Replace((*xml.Encoder).Encode, func(_ *xml.Encoder, v interface{}) error {
		if err := fail("encode"); err != nil {
			return err
		}
		m, ok := v.(*model)
		if !ok {
			return nil
		}
		meshes++
		t.Ensure("in the file of the model", cur.name == "3D/3dmodel.model")
		t.Ensure("one object, built once", len(m.Resources.Objects) == 1 && len(m.Build) == 1 && m.Build[0].ObjectID == m.Resources.Objects[0].ID)
		mesh := m.Resources.Objects[0].Mesh
		t.Ensure("every triangle", len(mesh.Triangles) == len(c.Model))
		g := mesh.Triangles[k]
		t.Ensure("first vertex", at(mesh.Vertices, g.V1, tri[0]))
		t.Ensure("second vertex", at(mesh.Vertices, g.V2, tri[1]))
		t.Ensure("third vertex", at(mesh.Vertices, g.V3, tri[2]))
		if b < len(mesh.Vertices) {
			t.Ensure("no vertex twice", !same(mesh.Vertices[b], r3.Vec(mesh.Vertices[a])))
		}
		return nil
	}, "encoding/xml")
	err := Create3MF("path", c)
	if c.End != io.EOF {
		t.Ensure("error of the renderer returned", err == c.End && opened == 0)
		return
	}
	t.Ensure("error of writing returned", err == failed)
	t.Ensure("model written", err != nil || meshes == 1 && closed > 0)
}

// natively the file written is read back
func nativeCreate3MF(t *T, c *Chunked) {
	if t.Bool("shared") && len(c.Model) > 1 {
		// few vertices, many triangles
		for n := 4 * t.Int("more", 0, 20); n > 0; n-- {
			i := t.Rng.Intn(len(c.Model))
			g := c.Model[i]
			g[t.Rng.Intn(3)] = c.Model[t.Rng.Intn(len(c.Model))][t.Rng.Intn(3)]
			c.Model = append(c.Model, g)
		}
	}
	dir, err := os.MkdirTemp("", "3mf")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "out.3mf")
	old := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	err = Create3MF(path, c)
	os.Stdout.Close()
	os.Stdout = old
	t.Ensure("error of the renderer returned", Iff(err != nil, c.End != io.EOF))
	if err != nil {
		return
	}
	z, err := zip.OpenReader(path)
	t.Ensure("a zip file", err == nil)
	defer z.Close()
	f, err := z.Open("3D/3dmodel.model")
	t.Ensure("in the file of the model", err == nil)
	var m model
	err = xml.NewDecoder(f).Decode(&m)
	t.Ensure("valid xml", err == nil)
	t.Ensure("one object, built once", len(m.Resources.Objects) == 1 && len(m.Build) == 1 && m.Build[0].ObjectID == m.Resources.Objects[0].ID)
	mesh := m.Resources.Objects[0].Mesh
	t.Ensure("every triangle", len(mesh.Triangles) == len(c.Model))
	for k, g := range mesh.Triangles {
		for j, i := range [3]int{g.V1, g.V2, g.V3} {
			t.Ensure("its vertices", 0 <= i && i < len(mesh.Vertices) && r3.Vec(mesh.Vertices[i]) == c.Model[k][j])
		}
	}
	seen := map[mf3Vertex]bool{}
	for _, v := range mesh.Vertices {
		t.Ensure("no vertex twice", !seen[v])
		seen[v] = true
	}
}
