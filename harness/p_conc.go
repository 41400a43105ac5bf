package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"image/color"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
	"github.com/qmuntal/gltf/modeler"
)

// An op is an operation that several goroutines execute at the same time. It
// returns everything it produced; it must not share memory other than the
// document with other operations.
type op struct {
	kind string
	desc string
	run  func(r *rand.Rand, dir string) any
	// ok decides about a result instead of the comparison with the result
	// of the operation run alone.
	ok func(got any) error
}

// span is one execution of an operation.
type span struct {
	op         int
	start, end int64
	got        any
	panicked   string
}

func init() {
	register(&Prop{
		ID: "C21", QuickMul: 1, Level: "exploration",
		Rule:   "shared documents with accessors of every form, buffers of every placement and extensions; 2-10 goroutines execute random sequences of reads, encodings, saves, decodings, registrations, image access, default getters, conversions and writes to documents of their own at the same time, with yields; also built with the race detector; every result is compared with the one of the operation run alone, the shared document with a copy; distinct by the order in which the operations of the goroutines started and ended",
		Assume: []string{"the race detector reports races of executed accesses only", "operations that change a document do not run together with others on the same document"},
		Need: map[string]int{"overlaps": 2000, "operations": 20000, "overlap_read_read": 50, "overlap_encode_read": 50, "overlap_encode_encode": 20, "overlap_decode_register": 50, "overlap_register_register": 20,
			"overlap_decode_decode": 50, "registered_seen": 100, "cold_steps": 5000}, MinKeys: 300,
		Families: []Family{
			{Name: "cold", Quick: 16, Thorough: 400, Race: true, RaceQuick: 24, RaceThorough: 600, Run: coldCase},
			{Name: "mixed", Quick: 120, Thorough: 12000, Race: true, RaceQuick: 60, RaceThorough: 3000, Run: func(t *T) { c21(t, c21mixed) }},
			{Name: "reads", Quick: 150, Thorough: 12000, Race: true, RaceQuick: 60, RaceThorough: 3000, Run: func(t *T) { c21(t, c21reads) }},
			{Name: "registry", Quick: 150, Thorough: 12000, Race: true, RaceQuick: 80, RaceThorough: 4000, Run: func(t *T) { c21(t, c21registry) }},
			{Name: "encodes", Quick: 100, Thorough: 10000, Race: true, RaceQuick: 50, RaceThorough: 2500, Run: func(t *T) { c21(t, c21encodes) }},
		},
	})
}

// sharedDoc is a document with accessors of all forms and everything else.
func sharedDoc(t *T, g *gen) (*gltf.Document, *memFS) {
	d := newAccDoc(t)
	for k := 5 + t.R.IntN(8); k > 0; k-- {
		c, a := combo(t.R.IntN(42))
		if t.R.IntN(2) == 0 {
			rd := readers[t.R.IntN(len(readers))]
			c, a = rd.comps[t.R.IntN(len(rd.comps))], rd.types[t.R.IntN(len(rd.types))]
		}
		n := countFor(t.R, 4)
		if t.R.IntN(6) == 0 {
			n = 300 + t.R.IntN(3000)
		}
		if c == gltf.ComponentFloat && (a == gltf.AccessorVec3 || a == gltf.AccessorVec4) {
			// Also read as colours.
			vals := reflect.MakeSlice(reflect.SliceOf(goType(c, a)), n, n)
			for i := 0; i < n; i++ {
				e := vals.Index(i)
				for j := 0; j < e.Len(); j++ {
					e.Index(j).SetFloat(float64(t.R.Float32()))
				}
			}
			d.accessorForm(c, a, n, true, form{strided: t.R.IntN(2) == 0, offset: t.R.IntN(2) == 0}, vals.Interface())
			continue
		}
		d.accessor(c, a, n, true)
	}
	d.finish()
	doc := g.document()
	extra := doc.Buffers
	doc.Accessors, doc.BufferViews, doc.Buffers = d.doc.Accessors, d.doc.BufferViews, d.doc.Buffers
	for i, b := range extra {
		b.Name = fmt.Sprintf("extra%d", i)
		doc.Buffers = append(doc.Buffers, b)
	}
	if t.R.IntN(3) == 0 {
		doc.Buffers[0].URI = "first.bin"
	}
	for i := t.R.IntN(3); i > 0; i-- {
		doc.Images = append(doc.Images, &gltf.Image{URI: []string{png, jpg}[i%2] + "," + b64(d.randBytes(t.R.IntN(50)))})
	}
	bi := builtinDoc(t, g)
	doc.Materials = append(doc.Materials, bi.Materials...)
	doc.Nodes = append(doc.Nodes, bi.Nodes...)
	if doc.Extensions == nil {
		doc.Extensions = bi.Extensions
	}
	return doc, nil
}

type opList struct {
	t   *T
	g   *gen
	doc *gltf.Document
	ops []op
}

func (l *opList) add(kind, desc string, run func(r *rand.Rand, dir string) any) {
	l.ops = append(l.ops, op{kind: kind, desc: desc, run: run})
}

type result struct {
	Val any
	Err string
}

func res(v any, err error) any {
	if err != nil {
		return result{nil, err.Error()}
	}
	return result{v, ""}
}

func (l *opList) reads() {
	doc := l.doc
	for i, acr := range doc.Accessors {
		size := acr.Count * elemSize(acr.ComponentType, acr.Type)
		l.add("read", fmt.Sprintf("ReadAccessor %d", i), func(*rand.Rand, string) any { return res(modeler.ReadAccessor(doc, acr, nil)) })
		l.add("read", fmt.Sprintf("ReadAccessor %d with a buffer", i), func(r *rand.Rand, _ string) any {
			return res(modeler.ReadAccessor(doc, acr, dirtyBytes(r, size)))
		})
		for k := range readers {
			rd := &readers[k]
			if !rd.accepts(acr.ComponentType, acr.Type) {
				if l.t.R.IntN(10) == 0 {
					l.add("read", fmt.Sprintf("%s of %d, which it does not accept", rd.name, i), func(*rand.Rand, string) any { return res(rd.call(doc, acr, nil)) })
				}
				continue
			}
			l.add("read", fmt.Sprintf("%s of %d", rd.name, i), func(*rand.Rand, string) any { return res(rd.call(doc, acr, nil)) })
			l.add("read", fmt.Sprintf("%s of %d with a buffer", rd.name, i), func(r *rand.Rand, _ string) any {
				return res(rd.call(doc, acr, dirtyElems(r, rd.out, acr.Count)))
			})
		}
	}
	for i, v := range doc.BufferViews {
		l.add("read", fmt.Sprintf("ReadBufferView %d", i), func(*rand.Rand, string) any {
			b, err := modeler.ReadBufferView(doc, v)
			return res(append([]byte{}, b...), err)
		})
	}
	for i, im := range doc.Images {
		l.add("image", fmt.Sprintf("data of image %d", i), func(*rand.Rand, string) any {
			if !im.IsEmbeddedResource() {
				return im.URI
			}
			return res(im.MarshalData())
		})
	}
	bad := &gltf.Accessor{ComponentType: gltf.ComponentFloat, Type: gltf.AccessorVec3, Count: 1 << 30, BufferView: gltf.Index(0)}
	l.add("read", "ReadAccessor of a malformed accessor", func(*rand.Rand, string) any { return res(modeler.ReadAccessor(doc, bad, nil)) })
	l.add("getters", "OrDefault getters", func(*rand.Rand, string) any {
		var out []any
		for _, m := range doc.Materials {
			out = append(out, m.AlphaCutoffOrDefault())
			if p := m.PBRMetallicRoughness; p != nil {
				out = append(out, p.BaseColorFactorOrDefault(), p.MetallicFactorOrDefault(), p.RoughnessFactorOrDefault())
			}
			if m.NormalTexture != nil {
				out = append(out, m.NormalTexture.ScaleOrDefault())
			}
			if m.OcclusionTexture != nil {
				out = append(out, m.OcclusionTexture.StrengthOrDefault())
			}
		}
		for _, n := range doc.Nodes {
			out = append(out, n.MatrixOrDefault(), n.RotationOrDefault(), n.ScaleOrDefault(), n.TranslationOrDefault())
		}
		for _, b := range doc.Buffers {
			out = append(out, b.IsEmbeddedResource())
		}
		return out
	})
}

func (l *opList) encodes() {
	doc := l.doc
	for _, m := range modes {
		l.add("encode", "encode "+m.String(), func(*rand.Rand, string) any {
			mem := newMemFS()
			out, err := encode(doc, m, mem)
			return res(map[string]any{"out": out, "files": mem.files}, err)
		})
		l.add("encode", "encode and decode "+m.String(), func(*rand.Rand, string) any {
			mem := newMemFS()
			out, err := encode(doc, m, mem)
			if err != nil {
				return res(nil, err)
			}
			return res(decode(out, mem))
		})
	}
	l.add("encode", "encode to a failing writer", func(r *rand.Rand, _ string) any {
		w := &faultWriter{n: -1, after: 40}
		err := encodeTo(doc, modes[0], w, newMemFS())
		return err != nil
	})
	for i, save := range []func(*gltf.Document, string) error{gltf.Save, gltf.SaveBinary} {
		l.add("save", fmt.Sprintf("save and open (binary: %v)", i == 1), func(_ *rand.Rand, dir string) any {
			for _, b := range doc.Buffers {
				if b.URI != "" && !b.IsEmbeddedResource() {
					os.MkdirAll(filepath.Dir(filepath.Join(dir, filePath(b.URI))), 0o755)
				}
			}
			name := filepath.Join(dir, "scene-document.gltf")
			if err := save(doc, name); err != nil {
				return res(nil, errors.New(strings.ReplaceAll(err.Error(), dir, "")))
			}
			return res(gltf.Open(name))
		})
	}
	l.add("encode", "json.Marshal of parts", func(*rand.Rand, string) any {
		var out []any
		for _, v := range []any{doc.Nodes, doc.Materials, doc.Images, doc.Accessors, doc.Extensions, doc.Cameras} {
			out = append(out, res(json.Marshal(v)))
		}
		return out
	})
}

func (l *opList) decodes() {
	for k := 0; k < 5; k++ {
		g := newGen(l.t.R)
		g.rawExt = l.t.R.IntN(2) == 0
		g.mixedURIs()
		var other *gltf.Document
		if k < 2 {
			other = builtinDoc(l.t, g)
		} else {
			other = g.document()
		}
		m := modes[l.t.R.IntN(len(modes))]
		mem := newMemFS()
		in, err := encode(other, m, mem)
		if err != nil {
			l.t.Failf("%v", err)
		}
		l.add("decode", fmt.Sprintf("decode document %d", k), func(*rand.Rand, string) any {
			fsys := newMemFS()
			fsys.files = mem.files
			return res(decode(in, fsys))
		})
	}
	short := []byte(`{"asset":{"version":"2.0"},"nodes":[{"name":"a"`)
	l.add("decode", "decode truncated JSON", func(*rand.Rand, string) any { return res(decode(short, nil)) })
	texts := map[string]string{
		lightspunctual.ExtensionName:   `{"lights":[{"type":"point","range":3},{"type":"spot","spot":{},"color":[0,0.5,1]}]}`,
		specular.ExtensionName:         `{"diffuseTexture":{"index":1,"extensions":{"KHR_texture_transform":{"offset":[1,2]}}}}`,
		texturetransform.ExtensionName: `{"rotation":1,"scale":[2,3],"texCoord":0}`,
		unlit.ExtensionName:            `{}`,
	}
	l.add("decode", "decode bundled extensions", func(r *rand.Rand, _ string) any {
		var out []any
		for _, name := range []string{lightspunctual.ExtensionName, specular.ExtensionName, texturetransform.ExtensionName, unlit.ExtensionName} {
			var e gltf.Extensions
			err := json.Unmarshal([]byte(fmt.Sprintf(`{%q:%s}`, name, texts[name])), &e)
			out = append(out, res(e, err))
		}
		return out
	})
	l.add("decode", "new document", func(*rand.Rand, string) any {
		d := gltf.NewDocument()
		d.Scenes[0].Nodes = append(d.Scenes[0].Nodes, 1)
		d.Asset.Generator += "x"
		d.Buffers = append(d.Buffers, &gltf.Buffer{})
		return res(d, nil)
	})
}

// regResult is what the registered functions of the monitor return.
type regResult struct {
	Name string
	Data string
}

func regFunc(name string) func([]byte) (any, error) {
	return func(data []byte) (any, error) { return &regResult{name, string(data)}, nil }
}

func extDoc(name string, depth int) []byte {
	return []byte(fmt.Sprintf(`{"asset":{"version":"2.0","extensions":{%q:{"d":%d}}},"nodes":[{"extensions":{%q:[1]}}],"extensions":{%q:"x","VERIF_never":{}}}`, name, depth, name, name))
}

// extVerdict: 1 all values typed, 0 none, -1 some.
func extVerdict(doc *gltf.Document, name string, wants [3]string) (int, error) {
	vals := []any{doc.Asset.Extensions[name], doc.Nodes[0].Extensions[name], doc.Extensions[name]}
	n := 0
	for i, v := range vals {
		switch v := v.(type) {
		case *regResult:
			if v.Name != name || v.Data != wants[i] {
				return 0, fmt.Errorf("%s is decoded as %+v, want the data %s", name, v, wants[i])
			}
			n++
		case json.RawMessage:
			if string(v) != wants[i] {
				return 0, fmt.Errorf("%s is kept as %s, want %s", name, v, wants[i])
			}
		default:
			return 0, fmt.Errorf("%s is decoded as %T", name, v)
		}
	}
	if r, ok := doc.Extensions["VERIF_never"].(json.RawMessage); !ok || string(r) != "{}" {
		return 0, fmt.Errorf("an unregistered extension is decoded as %T", doc.Extensions["VERIF_never"])
	}
	switch n {
	case 0:
		return 0, nil
	case len(vals):
		return 1, nil
	}
	return -1, nil
}

func (l *opList) registers() {
	// A name of its own: registered, then decoded.
	for k := 0; k < 2; k++ {
		l.add("register", "register a new name and decode", func(r *rand.Rand, _ string) any {
			name := fmt.Sprintf("VERIF_conc_%x_%x", r.Uint64(), r.Uint64())
			gltf.RegisterExtension(name, regFunc(name))
			n := r.IntN(100)
			doc, err := decode(extDoc(name, n), nil)
			if err != nil {
				return res(nil, err)
			}
			v, err := extVerdict(doc, name, [3]string{fmt.Sprintf(`{"d":%d}`, n), "[1]", `"x"`})
			return res(v, err)
		})
	}
	l.ops[len(l.ops)-1].ok = nil
	// Names shared by all goroutines: always the same function.
	shared := fmt.Sprintf("VERIF_shared_%x", l.t.R.Uint64())
	gltf.RegisterExtension(shared, regFunc(shared))
	wants := [3]string{`{"d":7}`, "[1]", `"x"`}
	l.add("register", "register a shared name again", func(*rand.Rand, string) any {
		gltf.RegisterExtension(shared, regFunc(shared))
		return nil
	})
	l.add("register", "decode with a shared name", func(*rand.Rand, string) any {
		doc, err := decode(extDoc(shared, 7), nil)
		if err != nil {
			return res(nil, err)
		}
		return res(extVerdict(doc, shared, wants))
	})
	// Names that appear meanwhile.
	for k := 0; k < 3; k++ {
		late := fmt.Sprintf("VERIF_late_%x", l.t.R.Uint64())
		l.add("register", fmt.Sprintf("register late name %d", k), func(*rand.Rand, string) any {
			gltf.RegisterExtension(late, regFunc(late))
			doc, err := decode(extDoc(late, 7), nil)
			if err != nil {
				return res(nil, err)
			}
			return res(extVerdict(doc, late, wants))
		})
		l.add("decode", fmt.Sprintf("decode late name %d", k), func(*rand.Rand, string) any {
			doc, err := decode(extDoc(late, 7), nil)
			if err != nil {
				return res(nil, err)
			}
			return res(extVerdict(doc, late, wants))
		})
		l.ops[len(l.ops)-1].ok = func(got any) error {
			r := got.(result)
			if r.Err != "" {
				return errors.New(r.Err)
			}
			return nil // registered or not, or while it is decoded
		}
	}
	// The bundled extensions again, as their packages do it.
	l.add("register", "register the bundled extensions again", func(*rand.Rand, string) any {
		gltf.RegisterExtension(lightspunctual.ExtensionName, lightspunctual.Unmarshal)
		gltf.RegisterExtension(specular.ExtensionName, specular.Unmarshal)
		gltf.RegisterExtension(texturetransform.ExtensionName, texturetransform.Unmarshal)
		gltf.RegisterExtension(unlit.ExtensionName, unlit.Unmarshal)
		return nil
	})
}

func (l *opList) pure() {
	l.add("pure", "conversions", func(r *rand.Rand, _ string) any {
		var out []any
		for i := 0; i < 50; i++ {
			f := float32(i) / 50
			out = append(out, gltf.NormalizeByte(f), gltf.NormalizeUshort(f), gltf.DenormalizeShort(int16(i*77)), gltf.NormalizeRGBA([4]float32{f, f / 2, 1 - f, f}),
				gltf.NormalizeRGB64([3]float32{f, f / 2, 1 - f}), gltf.DenormalizeRGBA64([4]uint16{uint16(i), 7, 1000, 65535}), gltf.DenormalizeRGB([3]uint8{uint8(i), 7, 255}))
		}
		return out
	})
	for k := 0; k < 4; k++ {
		c, a := combo(l.t.R.IntN(42))
		n := l.t.R.IntN(300)
		data := randElems(l.t.R, c, a, n, true)
		stride := strideFor(l.t.R, elemSize(c, a), n)
		l.add("binary", fmt.Sprintf("write and read %d %v %v", n, c, a), func(r *rand.Rand, _ string) any {
			buf := make([]byte, need(stride, n, c, a)+elemSize(c, a)+stride)
			if err := binary.Write(buf, stride, data.Interface()); err != nil {
				return res(nil, err)
			}
			dst, err := binary.MakeSliceBuffer(c, a, n, dirtyBytes(r, n*elemSize(c, a)))
			if err != nil {
				return res(nil, err)
			}
			if err := binary.Read(buf, stride, dst); err != nil {
				return res(nil, err)
			}
			tc, ta, tn := binary.Type(dst)
			return []any{buf, dst, tc, ta, tn}
		})
	}
}

// builds: documents of the goroutine itself, from shared data.
func (l *opList) builds() {
	n := 3 + l.t.R.IntN(200)
	pos := randElems(l.t.R, gltf.ComponentFloat, gltf.AccessorVec3, n, true).Interface().([][3]float32)
	uv := randElems(l.t.R, gltf.ComponentUshort, gltf.AccessorVec2, n, true).Interface().([][2]uint16)
	idx := randElems(l.t.R, gltf.ComponentUint, gltf.AccessorScalar, n, true).Interface().([]uint32)
	cols := make([]color.RGBA, n)
	for i := range cols {
		cols[i] = color.RGBA{byte(i), byte(i * 3), byte(n), 255}
	}
	img := []byte("not really a picture")
	for k := 0; k < 2; k++ {
		l.add("build", fmt.Sprintf("build a document %d", k), func(r *rand.Rand, _ string) any {
			d := gltf.NewDocument()
			var out []any
			out = append(out, modeler.WriteIndices(d, idx), modeler.WritePosition(d, pos), modeler.WriteTextureCoord(d, uv), modeler.WriteColor(d, cols))
			ids, err := modeler.WriteAccessorsInterleaved(d, pos, uv, cols)
			out = append(out, ids, err != nil)
			im, err := modeler.WriteImage(d, "i", "image/png", bytes.NewReader(img))
			out = append(out, im, err != nil)
			prim, err := modeler.WritePrimitiveAttributes(d, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: pos}, modeler.PrimitiveAttribute{Name: gltf.TEXCOORD_0, Data: uv})
			out = append(out, prim, err != nil)
			b, err := modeler.ReadPosition(d, d.Accessors[prim[gltf.POSITION]], nil)
			out = append(out, b, err != nil, d)
			return out
		})
	}
}

func c21mixed(l *opList) {
	l.reads()
	l.encodes()
	l.decodes()
	l.registers()
	l.pure()
	l.builds()
}
func c21reads(l *opList) { l.reads(); l.pure(); l.builds() }
func c21registry(l *opList) {
	l.registers()
	l.registers()
	l.decodes()
}
func c21encodes(l *opList) { l.encodes(); l.reads(); l.decodes() }

func c21(t *T, fill func(*opList)) {
	g := newGen(t.R)
	g.mixedURIs()
	doc, _ := sharedDoc(t, g)
	spare(t, doc)
	l := &opList{t: t, g: g, doc: doc}
	fill(l)
	snap := newSnapshot(doc)
	// Sequences: a few operations, so that the same ones meet often.
	pick := t.R.Perm(len(l.ops))
	if k := 2 + t.R.IntN(12); k < len(pick) && t.R.IntN(2) == 0 {
		pick = pick[:k]
	}
	workers := 2 + t.R.IntN(9)
	per := 4 + t.R.IntN(20)
	if workers*per > 120 {
		per = 120 / workers
	}
	seqs := make([][]span, workers)
	rands := make([]*rand.Rand, workers)
	dirs := make([]string, workers)
	yield := t.R.IntN(3)
	for w := range seqs {
		for i := 0; i < per; i++ {
			seqs[w] = append(seqs[w], span{op: pick[t.R.IntN(len(pick))]})
		}
		rands[w] = rand.New(rand.NewPCG(t.R.Uint64(), uint64(w)))
		dirs[w] = filepath.Join(t.Scratch(), fmt.Sprint("w", w))
		if err := os.MkdirAll(dirs[w], 0o755); err != nil {
			infra("%v", err)
		}
	}
	epoch := time.Now()
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := range seqs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer asNobody(t.root)()
			<-start
			r := rands[w]
			for i := range seqs[w] {
				s := &seqs[w][i]
				s.start = int64(time.Since(epoch))
				func() {
					defer func() {
						if p := recover(); p != nil {
							buf := make([]byte, 4000)
							s.panicked = fmt.Sprintf("%v\n%s", p, buf[:runtime.Stack(buf, false)])
						}
					}()
					s.got = l.ops[s.op].run(r, dirs[w])
				}()
				s.end = int64(time.Since(epoch))
				if yield > 0 && r.IntN(3) < yield {
					runtime.Gosched()
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	close(start)
	for waiting := true; waiting; {
		select {
		case <-done:
			waiting = false
		case <-time.After(10 * time.Second):
			if dump, dead := deadlocked(); dead {
				// Nothing else can be run in this process.
				fmt.Fprintf(os.Stderr, "fatal error: the operations block each other forever\n\n%s\n", dump)
				os.Exit(2)
			}
		}
	}
	// The operations alone.
	if err := snap.same(); err != nil {
		t.Failf("the shared document changed: %v", err)
	}
	alone := map[int]any{}
	for w := range seqs {
		for _, s := range seqs[w] {
			o := &l.ops[s.op]
			if s.panicked != "" {
				t.Note("stack", s.panicked)
				t.Failf("%s panics: %s", o.desc, oneLine(s.panicked))
			}
			if o.ok != nil {
				if err := o.ok(s.got); err != nil {
					t.Failf("%s: %v", o.desc, err)
				}
				continue
			}
			want, ok := alone[s.op]
			if !ok {
				dir := filepath.Join(t.Scratch(), fmt.Sprint("a", s.op))
				if err := os.MkdirAll(dir, 0o755); err != nil {
					infra("%v", err)
				}
				want = o.run(rands[w], dir)
				alone[s.op] = want
			}
			if !reflect.DeepEqual(s.got, want) {
				t.Note("got", fmt.Sprintf("%.3000v", s.got))
				t.Note("alone", fmt.Sprintf("%.3000v", want))
				t.Failf("%s gives another result than alone", o.desc)
			}
			if o.kind == "register" {
				if r, isRes := s.got.(result); isRes {
					if r.Err != "" || r.Val != 1 {
						t.Failf("%s: the registered function is not used (%+v)", o.desc, r)
					}
					t.Hit("registered_seen")
				}
			}
		}
	}
	if err := snap.same(); err != nil {
		t.Failf("the shared document changed: %v", err)
	}
	// What met what.
	type event struct {
		at    int64
		w, op int
		begin bool
	}
	var evs []event
	for w := range seqs {
		for _, s := range seqs[w] {
			evs = append(evs, event{s.start, w, s.op, true}, event{s.end, w, s.op, false})
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	active := map[int]string{}
	var order []byte
	for _, e := range evs {
		order = append(order, byte(e.w)*2)
		if !e.begin {
			order[len(order)-1]++
			delete(active, e.w)
			continue
		}
		k := l.ops[e.op].kind
		for _, other := range active {
			a, b := k, other
			if b < a {
				a, b = b, a
			}
			t.Hit("overlap_" + a + "_" + b)
			t.Hit("overlaps")
		}
		active[e.w] = k
	}
	t.HitN("operations", len(evs)/2)
	t.Eval(len(evs) / 2)
	t.Key(fmt.Sprint(pick), order)
	t.Sample(func() string {
		return fmt.Sprintf("%d goroutines with %d operations each of %d, first %q", workers, per, len(pick), l.ops[seqs[0][0].op].desc)
	})
}

// deadlocked tells whether all the operations that did not end wait for locks
// or channels.
func deadlocked() (string, bool) {
	blocked := func() (string, bool) {
		buf := make([]byte, 4<<20)
		dump := string(buf[:runtime.Stack(buf, true)])
		n := 0
		for _, g := range strings.Split(dump, "\n\n") {
			head, body, _ := strings.Cut(g, "\n")
			if !strings.Contains(body, "main.c21.func") && !strings.Contains(body, "main.coldStep.func") || !strings.Contains(body, ".run") && !strings.Contains(body, "gltf") {
				continue
			}
			_, state, _ := strings.Cut(head, "[")
			switch state, _, _ = strings.Cut(strings.TrimRight(state, "]:"), ","); {
			case strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "semacquire"), strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"):
				if !strings.Contains(body, "WaitGroup") {
					n++
				}
			default:
				return dump, false
			}
		}
		return dump, n > 0
	}
	for i := 0; i < 3; i++ { // the same picture, several times
		if dump, ok := blocked(); !ok {
			return dump, false
		}
		time.Sleep(time.Second)
	}
	return blocked()
}
