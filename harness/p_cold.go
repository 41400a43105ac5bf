package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image/color"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
	"github.com/qmuntal/gltf/modeler"
)

// The "cold" family of C21: every operation of the library is executed for
// the first time in its process by several goroutines at once, so that state
// which is set up at the first use is set up concurrently. Each case is a
// process of its own; the operations come in a random order, alone or with
// one or two others.

// coldCase is the case: it starts the process and judges how it ends.
func coldCase(t *T) {
	self, err := os.Executable()
	if err != nil {
		infra("%v", err)
	}
	dir := t.Scratch()
	seed := strconv.FormatUint(t.R.Uint64()|1, 10)
	var out, errs bytes.Buffer
	run := func(credential bool) error {
		out.Reset()
		errs.Reset()
		cmd := exec.Command(self, "-cold", seed, "-root", dir)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if credential {
			cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
		}
		cmd.Stdout, cmd.Stderr = &out, &errs
		return cmd.Run()
	}
	err = run(os.Geteuid() == 0 && containable)
	text := out.String()
	for _, line := range strings.Split(text, "\n") {
		f := strings.Fields(line)
		if len(f) == 3 && f[0] == "HIT" {
			n, _ := strconv.Atoi(f[2])
			t.HitN(f[1], n)
		}
		if strings.HasPrefix(line, "FAIL ") {
			t.Failf("%s", strings.TrimPrefix(line, "FAIL "))
		}
	}
	if err == nil {
		if !strings.Contains(text, "END") {
			t.Failf("the process ended early without an error: %.500s", errs.String())
		}
		t.Eval(t.evalsOf(text))
		t.Key("cold", t.I, text)
		return
	}
	es := errs.String()
	t.Note("stderr", clipText(es, 6000))
	last := ""
	for _, line := range strings.Split(text, "\n") {
		if strings.HasPrefix(line, "STEP ") {
			last = line[5:]
		}
	}
	switch {
	case strings.Contains(es, "WARNING: DATA RACE"):
		t.Failf("data race while %s execute for the first time: %s", last, raceSummary(es))
	case strings.Contains(es, "panic:") || strings.Contains(es, "fatal error:") || strings.Contains(es, "unexpected fault"):
		t.Failf("crash while %s execute for the first time: %.300s", last, es)
	}
	infra("cold process: %v, last step %q: %.500s", err, last, es)
}

func (t *T) evalsOf(text string) int {
	n := 0
	for _, line := range strings.Split(text, "\n") {
		if strings.HasPrefix(line, "STEP ") {
			n++
		}
	}
	return n
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// raceSummary: the functions of the library in the report.
func raceSummary(s string) string {
	var out []string
	for _, line := range strings.Split(s, "\n") {
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "Read at") || strings.HasPrefix(line, "Write at") || strings.HasPrefix(line, "Previous") {
			line, _, _ = strings.Cut(line, " at ")
			out = append(out, line)
		} else if strings.HasPrefix(line, "github.com/qmuntal/gltf") && len(out) < 8 {
			out = append(out, line)
		}
	}
	return strings.Join(out, "; ")
}

// coldOp is an operation; mk prepares its input without executing it and
// returns what the goroutines call.
type coldOp struct {
	desc string
	mk   func(r *rand.Rand) func() any
}

func sortedNames[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func both(a, b any) any { return []any{a, b} }

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// coldT is a T for the generators.
func coldT(r *rand.Rand) *T {
	return &T{R: r, events: map[string]int64{}, witness: map[string]string{}}
}

func coldDoc(r *rand.Rand, typ string) *gltf.Document {
	g := newGen(r)
	g.dens = 0.8
	doc := &gltf.Document{}
	if typ == "Buffer" {
		for i := 0; i < 3; i++ {
			b := &gltf.Buffer{Data: g.bytes(1 + r.IntN(60)), Name: g.str()}
			b.ByteLength = len(b.Data)
			if i == 1 {
				b.URI = fmt.Sprintf("b%d.bin", i)
			}
			doc.Buffers = append(doc.Buffers, b)
		}
		return doc
	}
	v := reflect.ValueOf(doc).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Slice || f.Type().Elem().Kind() != reflect.Pointer || f.Type().Elem().Elem().Name() != typ {
			continue
		}
		for k := 0; k < 3; k++ {
			x := reflect.New(f.Type().Elem().Elem())
			g.fill(typ, x.Elem())
			f.Set(reflect.Append(f, x))
		}
	}
	return doc
}

var coldTypes = []string{"Accessor", "Animation", "BufferView", "Buffer", "Camera", "Image", "Material", "Mesh", "Node", "Sampler", "Scene", "Skin", "Texture"}

func coldOps(dir string) []coldOp {
	var ops []coldOp
	add := func(desc string, mk func(r *rand.Rand) func() any) { ops = append(ops, coldOp{desc, mk}) }
	pure := func(desc string, run func() any) { add(desc, func(*rand.Rand) func() any { return run }) }

	// Conversions.
	floats := func(r *rand.Rand) []float32 {
		out := []float32{0, 1, 0.5, 0.002, 0.0031308}
		for i := 0; i < 40; i++ {
			out = append(out, r.Float32())
		}
		return out
	}
	conv := func(desc string, f func(x float32, i int) any) {
		add(desc, func(r *rand.Rand) func() any {
			fs := floats(r)
			return func() any {
				var out []any
				for i, x := range fs {
					out = append(out, f(x, i*37))
				}
				return out
			}
		})
	}
	conv("NormalizeByte", func(x float32, _ int) any { return gltf.NormalizeByte(x) })
	conv("NormalizeUbyte", func(x float32, _ int) any { return gltf.NormalizeUbyte(x) })
	conv("NormalizeShort", func(x float32, _ int) any { return gltf.NormalizeShort(x) })
	conv("NormalizeUshort", func(x float32, _ int) any { return gltf.NormalizeUshort(x) })
	conv("DenormalizeByte", func(_ float32, i int) any { return gltf.DenormalizeByte(int8(i)) })
	conv("DenormalizeUbyte", func(_ float32, i int) any { return gltf.DenormalizeUbyte(uint8(i)) })
	conv("DenormalizeShort", func(_ float32, i int) any { return gltf.DenormalizeShort(int16(i * 31)) })
	conv("DenormalizeUshort", func(_ float32, i int) any { return gltf.DenormalizeUshort(uint16(i * 31)) })
	conv("NormalizeRGB", func(x float32, _ int) any { return gltf.NormalizeRGB([3]float32{x, 1 - x, x / 2}) })
	conv("NormalizeRGBA", func(x float32, _ int) any { return gltf.NormalizeRGBA([4]float32{x, 1 - x, x / 2, x}) })
	conv("NormalizeRGB64", func(x float32, _ int) any { return gltf.NormalizeRGB64([3]float32{x, 1 - x, x / 2}) })
	conv("NormalizeRGBA64", func(x float32, _ int) any { return gltf.NormalizeRGBA64([4]float32{x, 1 - x, x / 2, x}) })
	conv("DenormalizeRGB", func(_ float32, i int) any { return gltf.DenormalizeRGB([3]uint8{uint8(i), 3, uint8(255 - i)}) })
	conv("DenormalizeRGBA", func(_ float32, i int) any {
		return gltf.DenormalizeRGBA([4]uint8{uint8(i), 3, uint8(255 - i), uint8(i)})
	})
	conv("DenormalizeRGB64", func(_ float32, i int) any { return gltf.DenormalizeRGB64([3]uint16{uint16(i * 31), 3, 65535}) })
	conv("DenormalizeRGBA64", func(_ float32, i int) any {
		return gltf.DenormalizeRGBA64([4]uint16{uint16(i * 31), 3, 65535, uint16(i)})
	})

	// Constructors and getters.
	pure("Index and Float", func() any {
		var out []any
		for i := -2; i < 40; i++ {
			p, f := gltf.Index(i), gltf.Float(float64(i)/4)
			out = append(out, *p, *f)
			*p, *f = 99, 99 // they belong to the caller
		}
		return out
	})
	pure("NewDocument", func() any {
		d := gltf.NewDocument()
		d.Asset.Generator += "x"
		d.Scenes[0].Nodes = append(d.Scenes[0].Nodes, 3)
		*d.Scene = 7
		return d
	})
	pure("getters of empty objects", func() any {
		return []any{new(gltf.Node).MatrixOrDefault(), new(gltf.Node).RotationOrDefault(), new(gltf.Node).ScaleOrDefault(), new(gltf.Node).TranslationOrDefault(),
			new(gltf.Material).AlphaCutoffOrDefault(), new(gltf.PBRMetallicRoughness).BaseColorFactorOrDefault(), new(gltf.PBRMetallicRoughness).MetallicFactorOrDefault(),
			new(gltf.PBRMetallicRoughness).RoughnessFactorOrDefault(), new(gltf.NormalTexture).ScaleOrDefault(), new(gltf.OcclusionTexture).StrengthOrDefault(),
			new(lightspunctual.Light).ColorOrDefault(), new(lightspunctual.Light).IntensityOrDefault(), new(lightspunctual.Spot).OuterConeAngleOrDefault(),
			new(texturetransform.TextureTranform).ScaleOrDefault()}
	})

	// Enumerations and sizes.
	for _, name := range []string{"AccessorType", "AlphaMode", "ComponentType", "Interpolation", "MagFilter", "MinFilter", "PrimitiveMode", "TRSProperty", "Target", "WrappingMode"} {
		typ := enumTypes[name]
		for _, c := range enumCodes[name] {
			text := []byte(codeText(c.Code))
			pure(fmt.Sprintf("decoding %s as %s", text, name), func() any {
				p := reflect.New(typ)
				err := json.Unmarshal(text, p.Interface())
				return both(p.Elem().Interface(), errText(err))
			})
			add(fmt.Sprintf("encoding %s %s", name, text), func(*rand.Rand) func() any {
				p := reflect.New(typ)
				p.Elem().Set(reflect.ValueOf(c.Val))
				return func() any {
					b, err := json.Marshal(p.Interface())
					return both(string(b), errText(err))
				}
			})
			pure(fmt.Sprintf("text of %s %s", name, text), func() any { return fmt.Sprint(c.Val) })
		}
	}
	for i := 0; i < 42; i++ {
		c, a := combo(i)
		name := fmt.Sprintf("%d/%d", c, a)
		pure("sizes of "+name, func() any { return []int{c.ByteSize(), a.Components(), gltf.SizeOfElement(c, a)} })
		pure("MakeSlice "+name, func() any {
			s, err := binary.MakeSlice(c, a, 5)
			return both(s, errText(err))
		})
		add("MakeSliceBuffer "+name, func(*rand.Rand) func() any {
			return func() any {
				s, err := binary.MakeSliceBuffer(c, a, 3, make([]byte, 3*64))
				return both(s, errText(err))
			}
		})
		add("binary.Type "+name, func(r *rand.Rand) func() any {
			data := randElems(r, c, a, 3, true).Interface()
			return func() any {
				tc, ta, n := binary.Type(data)
				return []any{tc, ta, n}
			}
		})
		add("binary.Write "+name, func(r *rand.Rand) func() any {
			n := 1 + r.IntN(9)
			data := randElems(r, c, a, n, true).Interface()
			stride := strideFor(r, elemSize(c, a), n)
			return func() any {
				buf := make([]byte, need(stride, n, c, a)+elemSize(c, a))
				err := binary.Write(buf, stride, data)
				return both(buf, errText(err))
			}
		})
		add("binary.Read "+name, func(r *rand.Rand) func() any {
			n := 1 + r.IntN(9)
			stride := strideFor(r, elemSize(c, a), n)
			buf := make([]byte, need(stride, n, c, a)+elemSize(c, a))
			refWrite(buf, stride, c, a, randElems(r, c, a, n, true))
			return func() any {
				dst := reflect.MakeSlice(reflect.SliceOf(goType(c, a)), n, n)
				err := binary.Read(buf, stride, dst.Interface())
				return both(dst.Interface(), errText(err))
			}
		})
		for f := 0; f < 3; f++ {
			add(fmt.Sprintf("ReadAccessor %s (form %d)", name, f), func(r *rand.Rand) func() any {
				doc, acr := coldAccessor(r, c, a, form{noView: f == 2, sparse: f > 0, strided: r.IntN(2) == 0, offset: r.IntN(2) == 0})
				return func() any {
					v, err := modeler.ReadAccessor(doc, acr, nil)
					return both(v, errText(err))
				}
			})
		}
		add("WriteAccessor "+name, func(r *rand.Rand) func() any {
			data := randElems(r, c, a, 1+r.IntN(9), true).Interface()
			return func() any {
				doc := gltf.NewDocument()
				return both(modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, data), doc)
			}
		})
	}
	for k := range readers {
		rd := &readers[k]
		for _, c := range rd.comps {
			for _, a := range rd.types {
				add(fmt.Sprintf("%s %d/%d", rd.name, c, a), func(r *rand.Rand) func() any {
					doc, acr := coldAccessor(r, c, a, form{sparse: r.IntN(2) == 0})
					return func() any {
						v, err := rd.call(doc, acr, nil)
						return both(v, errText(err))
					}
				})
			}
		}
		add(rd.name+" of a wrong type", func(r *rand.Rand) func() any {
			for {
				c, a := combo(r.IntN(42))
				if rd.accepts(c, a) {
					continue
				}
				doc, acr := coldAccessor(r, c, a, form{})
				return func() any {
					v, err := rd.call(doc, acr, nil)
					return both(v, errText(err))
				}
			}
		})
	}
	add("ReadBufferView", func(r *rand.Rand) func() any {
		doc, acr := coldAccessor(r, gltf.ComponentUbyte, gltf.AccessorScalar, form{})
		v := doc.BufferViews[*acr.BufferView]
		return func() any {
			b, err := modeler.ReadBufferView(doc, v)
			return both(append([]byte{}, b...), errText(err))
		}
	})
	for _, bad := range []struct {
		name string
		acr  *gltf.Accessor
	}{
		{"of a negative count", &gltf.Accessor{Count: -1}},
		{"beyond its view", &gltf.Accessor{Count: 1 << 20, BufferView: new(int), Type: gltf.AccessorVec3}},
		{"of an unknown type", &gltf.Accessor{Count: 1, Type: 77}},
		{"of an unknown component", &gltf.Accessor{Count: 1, ComponentType: 77}},
	} {
		acr := bad.acr
		add("ReadAccessor "+bad.name, func(r *rand.Rand) func() any {
			doc, _ := coldAccessor(r, gltf.ComponentUbyte, gltf.AccessorScalar, form{})
			return func() any {
				v, err := modeler.ReadAccessor(doc, acr, nil)
				return both(v, errText(err))
			}
		})
	}

	// Modeler writes.
	write := func(desc string, f func(doc *gltf.Document, data any) any, data func(r *rand.Rand, n int) any) {
		add(desc, func(r *rand.Rand) func() any {
			d := data(r, 1+r.IntN(12))
			return func() any {
				doc := gltf.NewDocument()
				return both(f(doc, d), doc)
			}
		})
	}
	elems := func(c gltf.ComponentType, a gltf.AccessorType) func(r *rand.Rand, n int) any {
		return func(r *rand.Rand, n int) any { return randElems(r, c, a, n, true).Interface() }
	}
	write("WritePosition", func(doc *gltf.Document, d any) any { return modeler.WritePosition(doc, d.([][3]float32)) }, elems(gltf.ComponentFloat, gltf.AccessorVec3))
	write("WriteNormal", func(doc *gltf.Document, d any) any { return modeler.WriteNormal(doc, d.([][3]float32)) }, elems(gltf.ComponentFloat, gltf.AccessorVec3))
	write("WriteTangent", func(doc *gltf.Document, d any) any { return modeler.WriteTangent(doc, d.([][4]float32)) }, elems(gltf.ComponentFloat, gltf.AccessorVec4))
	write("WriteInverseBindMatrices", func(doc *gltf.Document, d any) any {
		return modeler.WriteInverseBindMatrices(doc, d.([][4][4]float32))
	}, elems(gltf.ComponentFloat, gltf.AccessorMat4))
	for _, c := range []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat, gltf.ComponentUint} {
		s := fmt.Sprintf(" (component %d)", c)
		if c != gltf.ComponentUint {
			write("WriteTextureCoord"+s, func(doc *gltf.Document, d any) any { return modeler.WriteTextureCoord(doc, d) }, elems(c, gltf.AccessorVec2))
			write("WriteWeights"+s, func(doc *gltf.Document, d any) any { return modeler.WriteWeights(doc, d) }, elems(c, gltf.AccessorVec4))
			write("WriteColor"+s, func(doc *gltf.Document, d any) any { return modeler.WriteColor(doc, d) }, elems(c, gltf.AccessorVec4))
			write("WriteColor3"+s, func(doc *gltf.Document, d any) any { return modeler.WriteColor(doc, d) }, elems(c, gltf.AccessorVec3))
			if c != gltf.ComponentFloat {
				write("WriteJoints"+s, func(doc *gltf.Document, d any) any { return modeler.WriteJoints(doc, d) }, elems(c, gltf.AccessorVec4))
			}
		}
		if c == gltf.ComponentUint || c == gltf.ComponentUshort {
			write("WriteIndices"+s, func(doc *gltf.Document, d any) any { return modeler.WriteIndices(doc, d) }, elems(c, gltf.AccessorScalar))
		}
	}
	write("WriteColor (structs)", func(doc *gltf.Document, d any) any { return modeler.WriteColor(doc, d) }, func(r *rand.Rand, n int) any { return randColors(r, n, false) })
	write("WriteColor (wide structs)", func(doc *gltf.Document, d any) any { return modeler.WriteColor(doc, d) }, func(r *rand.Rand, n int) any { return randColors(r, n, true) })
	write("WriteBufferView", func(doc *gltf.Document, d any) any { return modeler.WriteBufferView(doc, gltf.TargetNone, d) }, elems(gltf.ComponentUbyte, gltf.AccessorScalar))
	write("WriteImage", func(doc *gltf.Document, d any) any {
		i, err := modeler.WriteImage(doc, "i", "image/png", bytes.NewReader(d.([]byte)))
		return both(i, errText(err))
	}, elems(gltf.ComponentUbyte, gltf.AccessorScalar))
	write("WriteAccessorsInterleaved", func(doc *gltf.Document, d any) any {
		ids, err := modeler.WriteAccessorsInterleaved(doc, d, d)
		return both(ids, errText(err))
	}, elems(gltf.ComponentUbyte, gltf.AccessorVec3))
	write("WritePrimitiveAttributes", func(doc *gltf.Document, d any) any {
		m, err := modeler.WritePrimitiveAttributes(doc, modeler.PrimitiveAttribute{Name: gltf.NORMAL, Data: d}, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: d})
		return both(m, errText(err))
	}, elems(gltf.ComponentFloat, gltf.AccessorVec3))
	write("WritePrimitiveAttributes (rejected)", func(doc *gltf.Document, d any) any {
		m, err := modeler.WritePrimitiveAttributes(doc, modeler.PrimitiveAttribute{Name: gltf.JOINTS_0, Data: []color.RGBA{{}}}, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: d})
		return both(m, errText(err))
	}, elems(gltf.ComponentFloat, gltf.AccessorVec3))

	// Encoding and decoding.
	for _, typ := range coldTypes {
		for mi := range modes[:3] {
			m := modes[mi]
			add(fmt.Sprintf("encoding %s (%s)", typ, m), func(r *rand.Rand) func() any {
				doc := coldDoc(r, typ)
				return func() any {
					fsys := newMemFS()
					out, err := encode(doc, m, fsys)
					return []any{string(out), errText(err), fsys.files}
				}
			})
		}
		add(fmt.Sprintf("decoding %s", typ), func(r *rand.Rand) func() any {
			doc := coldDoc(r, typ)
			fsys := newMemFS()
			for _, b := range doc.Buffers {
				if b.URI == "" {
					b.URI = octet + "," + b64(b.Data)
				} else {
					fsys.files[b.URI] = b.Data
				}
			}
			w := &refWriter{g: newGen(r), Explicit: 1, Unknown: true}
			text := w.document(doc)
			if r.IntN(2) == 0 {
				text = simpleGLB(text, nil)
			}
			return func() any {
				f := newMemFS()
				f.files = fsys.files
				d, err := decode(text, f)
				return both(d, errText(err))
			}
		})
	}
	add("decoding a GLB with a binary chunk", func(r *rand.Rand) func() any {
		text := simpleGLB([]byte(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":5}]}`), []byte("hello"))
		return func() any {
			d, err := decode(text, nil)
			return both(d, errText(err))
		}
	})
	texts := map[string][]byte{
		"nothing": nil, "truncated JSON": []byte(`{"asset":{"version`), "a null buffer": []byte(`{"buffers":[null]}`), "a climbing URI": []byte(`{"buffers":[{"byteLength":1,"uri":"../x"}]}`),
		"bad base64": []byte(`{"buffers":[{"byteLength":1,"uri":"data:application/octet-stream;base64,***"}]}`), "an unknown type": []byte(`{"accessors":[{"type":"VEC5"}]}`),
		"a bad chunk": buildGLB(chunk{typ: 0x12345678, data: []byte("{}  ")}),
	}
	for _, name := range sortedNames(texts) {
		text := texts[name]
		pure("decoding "+name, func() any {
			d, err := decode(text, newMemFS())
			return both(d, errText(err))
		})
	}
	add("encoding a camera without projection", func(*rand.Rand) func() any {
		doc := &gltf.Document{Cameras: []*gltf.Camera{{}}}
		return func() any {
			out, err := encode(doc, modes[0], nil)
			return both(string(out), errText(err))
		}
	})
	var files atomic.Int64
	for i, save := range []func(*gltf.Document, string) error{gltf.Save, gltf.SaveBinary} {
		add(fmt.Sprintf("saving and opening (binary: %v)", i == 1), func(r *rand.Rand) func() any {
			doc := coldDoc(r, "Node")
			return func() any {
				name := filepath.Join(dir, fmt.Sprintf("s%d.gltf", files.Add(1)))
				if err := save(doc, name); err != nil {
					return errText(err)
				}
				d, err := gltf.Open(name)
				return both(d, errText(err))
			}
		})
	}
	add("embedding", func(r *rand.Rand) func() any {
		data := newGen(r).bytes(1 + r.IntN(40))
		return func() any {
			b := &gltf.Buffer{Data: data, ByteLength: len(data)}
			b.EmbeddedResource()
			return []any{b.URI, b.IsEmbeddedResource()}
		}
	})
	for _, p := range []string{png, jpg} {
		add("image data "+p, func(r *rand.Rand) func() any {
			im := &gltf.Image{URI: p + "," + b64(newGen(r).bytes(1+r.IntN(40)))}
			return func() any {
				b, err := im.MarshalData()
				return []any{b, errText(err), im.IsEmbeddedResource()}
			}
		})
	}

	// Extensions.
	exts := map[string][]string{
		lightspunctual.ExtensionName:   {`{"lights":[{"type":"point","range":3},{"type":"spot","spot":{},"color":[0,0.5,1]}]}`, `{"light":2}`, `{"lights":5}`},
		specular.ExtensionName:         {`{"diffuseTexture":{"index":1,"extensions":{"KHR_texture_transform":{"offset":[1,2]}}}}`, `{"glossinessFactor":0.5}`, `[]`},
		texturetransform.ExtensionName: {`{"rotation":1,"scale":[2,3],"texCoord":0}`, `{}`, `{"scale":"x"}`},
		unlit.ExtensionName:            {`{}`, `{"a":1}`, `1`},
		"VENDOR_unregistered":          {`{"b":[1,2]}`, `null`, `"x"`},
	}
	for _, name := range sortedNames(exts) {
		for _, text := range exts[name] {
			pure("decoding "+name+" "+text, func() any {
				var e gltf.Extensions
				err := json.Unmarshal([]byte(fmt.Sprintf(`{%q:%s}`, name, text)), &e)
				return both(e, errText(err))
			})
		}
	}
	ext := func(desc string, mk func(g *gen) any) {
		add("encoding "+desc, func(r *rand.Rand) func() any {
			v := mk(newGen(r))
			return func() any {
				b, err := json.Marshal(v)
				return both(string(b), errText(err))
			}
		})
	}
	ext("lights", func(g *gen) any { return append(g.lights(), g.lights()...) })
	ext("a light index", func(g *gen) any { return lightspunctual.LightIndex(g.r.IntN(4)) })
	ext("specular glossiness", func(g *gen) any { return g.specular() })
	ext("a texture transform", func(g *gen) any { return g.transform() })
	ext("unlit", func(g *gen) any { return &unlit.Unlit{} })
	for k := 0; k < 4; k++ {
		name := fmt.Sprintf("VERIF_cold_%d", k)
		pure("registering "+name, func() any {
			gltf.RegisterExtension(name, regFunc(name))
			d, err := decode(extDoc(name, 1), nil)
			return both(d, errText(err))
		})
	}
	return ops
}

// coldAccessor is a document with one accessor.
func coldAccessor(r *rand.Rand, c gltf.ComponentType, a gltf.AccessorType, f form) (*gltf.Document, *gltf.Accessor) {
	d := newAccDoc(coldT(r))
	n := 1 + r.IntN(20)
	vals := reflect.MakeSlice(reflect.SliceOf(goType(c, a)), n, n)
	for i := 0; i < n; i++ {
		for _, at := range layoutOf(c, a) {
			l := leaf(vals.Index(i), a, at)
			if l.Kind() == reflect.Float32 {
				l.SetFloat(float64(r.Float32()))
			} else {
				randLeaf(r, l, true)
			}
		}
	}
	acr, _, _ := d.accessorForm(c, a, n, true, f, vals.Interface())
	d.finish()
	return d.doc, acr
}

// coldMain is the process of a case.
func coldMain(seed uint64, dir string) {
	r := rand.New(rand.NewPCG(seed, 0xc01d))
	ops := coldOps(dir)
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	steps, calls := 0, 0
	for i := 0; i < len(ops); {
		k := 1
		if r.IntN(3) == 0 {
			k = 2 + r.IntN(2)
		}
		k = min(k, len(ops)-i)
		step := ops[i : i+k]
		i += k
		coldStep(r, step)
		steps++
		calls += 4 * k
	}
	fmt.Printf("HIT cold_steps %d\nHIT cold_operations %d\nHIT cold_calls %d\nEND\n", steps, len(ops), calls)
}

func coldStep(r *rand.Rand, step []coldOp) {
	var names []string
	type call struct {
		op       int
		got      any
		panicked string
	}
	var runs []func() any
	var calls []*call
	per := 3
	if len(step) > 1 {
		per = 2
	}
	for i, o := range step {
		names = append(names, o.desc)
		runs = append(runs, o.mk(r))
		for k := 0; k < per; k++ {
			calls = append(calls, &call{op: i})
		}
	}
	fmt.Println("STEP", strings.Join(names, " and "))
	guarded := func(c *call) {
		defer func() {
			if p := recover(); p != nil {
				c.panicked = fmt.Sprint(p)
			}
		}()
		c.got = runs[c.op]()
	}
	var ready atomic.Int32
	var wg sync.WaitGroup
	for _, c := range calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Add(1)
			for n := 0; ready.Load() <= int32(len(calls)); n++ {
				if n > 1000 {
					runtime.Gosched()
				}
			}
			guarded(c)
		}()
	}
	for ready.Load() < int32(len(calls)) {
		runtime.Gosched()
	}
	ready.Add(1)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	for waiting := true; waiting; {
		select {
		case <-done:
			waiting = false
		case <-time.After(10 * time.Second):
			if dump, dead := deadlocked(); dead {
				fmt.Fprintf(os.Stderr, "fatal error: the operations block each other forever\n\n%s\n", dump)
				os.Exit(2)
			}
		}
	}
	for i := range step {
		alone := &call{op: i}
		guarded(alone)
		for _, c := range calls {
			if c.op != i {
				continue
			}
			if c.panicked != "" {
				fmt.Printf("FAIL %s panics when it is executed for the first time by several goroutines: %s\n", step[i].desc, oneLine(c.panicked))
				os.Exit(1)
			}
			if !reflect.DeepEqual(c.got, alone.got) {
				fmt.Printf("FAIL %s gives %s when it is executed for the first time by several goroutines, %s alone\n", step[i].desc, oneLine(fmt.Sprintf("%+v", c.got)), oneLine(fmt.Sprintf("%+v", alone.got)))
				os.Exit(1)
			}
		}
	}
}
