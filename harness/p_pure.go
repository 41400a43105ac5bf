package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

// linear is the inverse transfer function of IEC 61966-2-1.
func linear(x float64) float64 {
	if x <= 0.04045 {
		return x / 12.92
	}
	return math.Pow((x+0.055)/1.055, 2.4)
}

const topFloat = 0x3f800000 // bits of 1

func init() {
	// ---- C24
	register(&Prop{
		ID: "C24", QuickMul: 20, Level: "exploration",
		Rule:   "every 8- and 16-bit code through every conversion (exhaustive); floats of the whole range by their bit patterns, in ascending order, and the floats next to every code and every half code (thorough: every float in [-1,1]); compared with the glTF and sRGB equations in float64; distinct by (function group, chunk)",
		Assume: []string{"float64 arithmetic of the harness", "colour conversions are exact to one unit of the code"},
		Need:   map[string]int{"codes8": 256 * 2, "codes16": 65536 * 2, "floats": 1 << 19, "near": 100000, "color_codes8": 256 * 2, "color_codes16": 65536 * 2, "color_floats": 1 << 18, "mixed": 1000}, MinKeys: 100,
		Families: []Family{
			{Name: "codes", Quick: 64, Thorough: 64, Run: c24codes},
			{Name: "floats", Fixed: true, Quick: 256, Thorough: 4096, Run: c24floats},
			{Name: "near", Quick: 64, Thorough: 64, Run: c24near},
			{Name: "channels", Quick: 2000, Thorough: 2000000, Run: c24channels},
		},
	})

	// ---- C25
	register(&Prop{
		ID: "C25", QuickMul: 14, Level: "exploration",
		Rule: "documents encoded in all forms to working and failing destinations, twice; documents read through all readers, also malformed ones; histories of modeler writes whose data is changed by the caller afterwards; inputs of the decoder; all compared with deep copies, the spare capacity of the buffers included; distinct by document or history",
		Need: map[string]int{"encoded": 1000, "encode_failed": 200, "twice": 500, "reads": 1000, "failed_reads": 500, "empty_collections": 200, "scribbled": 3000, "verified": 1000, "decoded": 300, "inconsistent": 200, "saved": 30, "image_reads": 100}, MinKeys: 1000,
		Families: []Family{
			{Name: "encode", Quick: 1200, Thorough: 60000, Run: c25encode},
			{Name: "read", Quick: 1500, Thorough: 80000, Run: c25read},
			{Name: "write", Quick: 800, Thorough: 40000, Run: c25write},
			{Name: "decode", Quick: 500, Thorough: 30000, Run: c25decode},
			{Name: "disk", Quick: 40, Thorough: 1000, Run: func(t *T) {
				g := newGen(t.R)
				g.mixedURIs()
				doc := g.document()
				dir := t.Scratch()
				for _, b := range doc.Buffers {
					if b.URI != "" && !b.IsEmbeddedResource() {
						if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, filePath(b.URI))), 0o755); err != nil {
							infra("%v", err)
						}
					}
				}
				s := newSnapshot(doc)
				var outs [2][2][]byte
				for i := range outs {
					for j, save := range []func(*gltf.Document, string) error{gltf.Save, gltf.SaveBinary} {
						name := filepath.Join(dir, "scene-document.gltf")
						if err := save(doc, name); err != nil {
							t.Failf("save: %v", err)
						}
						if err := s.same(); err != nil {
							t.Failf("saving changes the document: %v", err)
						}
						outs[i][j], _ = os.ReadFile(name)
						t.Hit("saved")
					}
				}
				for j := range outs[0] {
					if !bytes.Equal(outs[0][j], outs[1][j]) {
						t.Failf("saving twice gives different files")
					}
				}
				t.Key(outs[0][0])
			}},
		},
	})

	// ---- C26
	register(&Prop{
		ID: "C26", QuickMul: 35, Level: "exploration",
		Rule:   "buffer and image contents of every length modulo 3 and any bytes, embedded and decoded; data URIs of other media types, relative and absolute URIs; every single-character corruption of the base64 text of small contents and random ones of larger; distinct by URI",
		Assume: []string{"line breaks in base64 and non-zero trailing bits may be accepted or refused", "the base64 text starts after one separator character"},
		Need:   map[string]int{"buffers": 1000, "images": 1000, "reloaded": 500, "not_embedded": 300, "malformed": 2000, "malformed_buffer": 500, "truncated": 100, "stale_uri": 100, "stale_encoded": 50, "gltf_buffer": 250}, MinKeys: 1000,
		Families: []Family{
			{Name: "buffers", Quick: 1000, Thorough: 60000, Run: c26buffers},
			{Name: "images", Quick: 1000, Thorough: 60000, Run: c26images},
			{Name: "others", Quick: 400, Thorough: 20000, Run: c26others},
			{Name: "gltfbuffer", Quick: 300, Thorough: 20000, Run: c26gltfBuffer},
			{Name: "malformed", Quick: 600, Thorough: 40000, Run: c26malformed},
		},
	})
}

// ---- C24

// norms are the integer conversions.
var norms = []struct {
	name   string
	max    float64
	signed bool
	lo, hi int
	norm   func(float32) int
	denorm func(int) float32
}{
	{"Byte", 127, true, -128, 127, func(v float32) int { return int(gltf.NormalizeByte(v)) }, func(c int) float32 { return gltf.DenormalizeByte(int8(c)) }},
	{"Ubyte", 255, false, 0, 255, func(v float32) int { return int(gltf.NormalizeUbyte(v)) }, func(c int) float32 { return gltf.DenormalizeUbyte(uint8(c)) }},
	{"Short", 32767, true, -32768, 32767, func(v float32) int { return int(gltf.NormalizeShort(v)) }, func(c int) float32 { return gltf.DenormalizeShort(int16(c)) }},
	{"Ushort", 65535, false, 0, 65535, func(v float32) int { return int(gltf.NormalizeUshort(v)) }, func(c int) float32 { return gltf.DenormalizeUshort(uint16(c)) }},
}

// checkNorm: the code of v is a nearest one.
func checkNorm(t *T, k int, v float32) {
	n := &norms[k]
	c := n.norm(v)
	// v*max is exact in float64.
	if d := math.Abs(float64(c) - float64(v)*n.max); d > 0.5 {
		t.Failf("Normalize%s(%v) is %d, v*max is %v", n.name, v, c, float64(v)*n.max)
	}
}

func c24codes(t *T) {
	for k := range norms {
		n := &norms[k]
		span := (n.hi - n.lo + 1) / 64
		lo := n.lo + t.I*span
		for c := lo; c < lo+span; c++ {
			got := n.denorm(c)
			want := math.Max(float64(c)/n.max, -1)
			if math.Abs(float64(got)-want) > math.Abs(want)*1.3e-7 {
				t.Failf("Denormalize%s(%d) is %v, want %v", n.name, c, got, want)
			}
			back := c
			if c == n.lo && n.signed {
				back++
			}
			if x := n.norm(got); x != back {
				t.Failf("Normalize%s(Denormalize%s(%d)) is %d", n.name, n.name, c, x)
			}
		}
		t.HitN(fmt.Sprintf("codes%d", 8+8*(k/2)), span)
		t.Eval(span)
	}
	// Colours.
	for _, wide := range []bool{false, true} {
		top := 255
		if wide {
			top = 65535
		}
		span := (top + 1) / 64
		prev := float32(-1)
		for c := max(t.I*span-1, 0); c < (t.I+1)*span; c++ {
			// The other channels have other codes.
			o1, o2, o3 := (c*7+13)%(top+1), (c*31+5)%(top+1), (c*3+1)%(top+1)
			for ch := 0; ch < 4; ch++ {
				code := [4]int{o1, o2, o3, (o1 + 11) % (top + 1)}
				code[ch] = c
				for _, alpha := range []bool{true, false} {
					got, back := colorTrip(wide, alpha, code)
					comps := 4
					if !alpha {
						comps = 3
					}
					for i := 0; i < comps; i++ {
						x := float64(code[i]) / float64(top)
						if i < 3 {
							x = linear(x)
						}
						if math.Abs(float64(got[i])-x) > 2e-6*x+1e-9 {
							t.Failf("denormalizing the colour %v of maximum %d (alpha %v): component %d is %v, want %v", code, top, alpha, i, got[i], x)
						}
						if d := back[i] - code[i]; d < -1 || d > 1 {
							t.Failf("the colour %v of maximum %d comes back as %v (alpha %v)", code, top, back, alpha)
						}
					}
					if ch == 0 && alpha {
						if got[0] <= prev && c > 0 {
							t.Failf("denormalizing %d of %d gives %v, not more than %v of the code before", c, top, got[0], prev)
						}
						prev = got[0]
					}
				}
			}
		}
		t.HitN(map[bool]string{false: "color_codes8", true: "color_codes16"}[wide], span*2)
		t.Eval(span * 8)
	}
	t.Key("codes", t.I)
	t.Sample(func() string { return fmt.Sprintf("codes, part %d of 64, of all conversions", t.I) })
}

func colorTrip(wide, alpha bool, c [4]int) (f [4]float32, back [4]int) {
	switch {
	case wide && alpha:
		f = gltf.DenormalizeRGBA64([4]uint16{uint16(c[0]), uint16(c[1]), uint16(c[2]), uint16(c[3])})
	case wide:
		x := gltf.DenormalizeRGB64([3]uint16{uint16(c[0]), uint16(c[1]), uint16(c[2])})
		copy(f[:], x[:])
	case alpha:
		f = gltf.DenormalizeRGBA([4]uint8{uint8(c[0]), uint8(c[1]), uint8(c[2]), uint8(c[3])})
	default:
		x := gltf.DenormalizeRGB([3]uint8{uint8(c[0]), uint8(c[1]), uint8(c[2])})
		copy(f[:], x[:])
	}
	return f, colorNorm(wide, alpha, f)
}

func colorNorm(wide, alpha bool, f [4]float32) (out [4]int) {
	switch {
	case wide && alpha:
		for i, x := range gltf.NormalizeRGBA64(f) {
			out[i] = int(x)
		}
	case wide:
		for i, x := range gltf.NormalizeRGB64([3]float32{f[0], f[1], f[2]}) {
			out[i] = int(x)
		}
	case alpha:
		for i, x := range gltf.NormalizeRGBA(f) {
			out[i] = int(x)
		}
	default:
		for i, x := range gltf.NormalizeRGB([3]float32{f[0], f[1], f[2]}) {
			out[i] = int(x)
		}
	}
	return out
}

// c24floats: chunk I of the floats of [0,1] by bit pattern.
func c24floats(t *T) {
	chunks := uint64(256)
	step := uint64(1021)
	if t.Tier == "thorough" {
		chunks, step = 4096, 1
	}
	lo, hi := topFloat*uint64(t.I)/chunks, topFloat*uint64(t.I+1)/chunks
	if uint64(t.I) == chunks-1 {
		hi = topFloat + 1
	}
	off := uint64(0)
	if step > 1 {
		off = uint64(t.R.IntN(int(step)))
	}
	n := 0
	for b := lo + off; b < hi; b += step {
		v := math.Float32frombits(uint32(b))
		for k := range norms {
			checkNorm(t, k, v)
			if norms[k].signed {
				checkNorm(t, k, -v)
			}
		}
		n++
	}
	t.HitN("floats", n)
	// Colours: three floats in a call, in ascending order.
	cs := step * 3
	m := 0
	var last [2]int
	for b := lo + off; b+2*step < hi; b += cs {
		f := [4]float32{math.Float32frombits(uint32(b)), math.Float32frombits(uint32(b + step)), math.Float32frombits(uint32(b + 2*step))}
		f[3] = f[0]
		for w := 0; w < 2; w++ {
			top := 255.0
			if w == 1 {
				top = 65535
			}
			got := colorNorm(w == 1, m%2 == 0, f)
			for i := 0; i < 3; i++ {
				if d := math.Abs(float64(got[i]) - srgb(float64(f[i]))*top); d > 1.01 {
					t.Failf("normalizing the colour %v of maximum %v gives %v, component %d should be %v", f, top, got, i, srgb(float64(f[i]))*top)
				}
				if got[i] < last[w] {
					t.Failf("normalizing %v of maximum %v gives %d, less than %d of a smaller float", f[i], top, got[i], last[w])
				}
				last[w] = got[i]
			}
			if m%2 == 0 {
				if d := math.Abs(float64(got[3]) - float64(f[3])*top); d > 1.01 {
					t.Failf("normalizing the colour %v of maximum %v gives %v: alpha", f, top, got)
				}
			}
		}
		m++
	}
	// The ends.
	for w := 0; w < 2; w++ {
		top := 255
		if w == 1 {
			top = 65535
		}
		if got := colorNorm(w == 1, true, [4]float32{0, 1, 0, 1}); got != [4]int{0, top, 0, top} {
			t.Failf("normalizing {0,1,0,1} gives %v", got)
		}
		if got := colorNorm(w == 1, true, [4]float32{1, 0, 1, 0}); got != [4]int{top, 0, top, 0} {
			t.Failf("normalizing {1,0,1,0} gives %v", got)
		}
		if got := colorNorm(w == 1, false, [4]float32{1, 0, 1, 0}); got != [4]int{top, 0, top, 0} {
			t.Failf("normalizing {1,0,1} gives %v", got)
		}
	}
	t.HitN("color_floats", m*3)
	t.Eval(n*6 + m*6)
	t.Key("floats", t.I)
	t.Sample(func() string {
		return fmt.Sprintf("%d floats from %v to %v, step %d", n, math.Float32frombits(uint32(lo)), math.Float32frombits(uint32(hi-1)), step)
	})
}

// c24near: the floats around each code and half code.
func c24near(t *T) {
	for k := range norms {
		n := &norms[k]
		count := int(n.max)*2 + 1
		for c := t.I; c < count; c += 64 {
			v := float32(float64(c) / 2 / n.max)
			around := []float32{v, math.Nextafter32(v, 2), math.Nextafter32(v, -2)}
			for _, x := range around {
				if x < 0 || x > 1 {
					continue
				}
				checkNorm(t, k, x)
				if n.signed {
					checkNorm(t, k, -x)
				}
				t.Hit("near")
			}
		}
	}
	t.Key("near", t.I)
}

// c24channels: random colours, channels do not influence each other.
func c24channels(t *T) {
	var f [4]float32
	for i := range f {
		f[i] = t.R.Float32()
		switch t.R.IntN(6) {
		case 0:
			f[i] = 0
		case 1:
			f[i] = 1
		case 2:
			f[i] = float32(math.Pow(10, -6*t.R.Float64()))
		}
	}
	for w := 0; w < 2; w++ {
		top := 255.0
		if w == 1 {
			top = 65535
		}
		a, b := colorNorm(w == 1, true, f), colorNorm(w == 1, false, f)
		for i := range f {
			want := float64(f[i]) * top
			if i < 3 {
				want = srgb(float64(f[i])) * top
				if a[i] != b[i] {
					t.Failf("normalizing %v of maximum %v gives %v with alpha, %v without", f, top, a, b)
				}
			}
			if math.Abs(float64(a[i])-want) > 1.01 {
				t.Failf("normalizing %v of maximum %v gives %v, component %d should be %v", f, top, a, i, want)
			}
		}
		t.Hit("mixed")
	}
	t.Key("channels", f)
}

// ---- C25

// snapshot is a deep copy of a document with the spare capacity of its buffers.
type snapshot struct {
	doc, cp *gltf.Document
	full    [][]byte
	ptr     []*byte
	items   map[string][]uintptr
}

// itemsOf lists the addresses of the objects a document holds.
func itemsOf(doc *gltf.Document) map[string][]uintptr {
	m := map[string][]uintptr{}
	v := reflect.ValueOf(doc).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Pointer {
			for k := 0; k < f.Len(); k++ {
				m[v.Type().Field(i).Name] = append(m[v.Type().Field(i).Name], f.Index(k).Pointer())
			}
		}
	}
	return m
}

// emptied makes some of the absent collections of a document present and empty.
func emptied(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			emptied(r, v.Elem())
		}
	case reflect.Slice:
		if k := v.Type().Elem().Kind(); k == reflect.Pointer || k == reflect.Struct {
			for i := 0; i < v.Len(); i++ {
				emptied(r, v.Index(i))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			if (f.Kind() == reflect.Slice || f.Kind() == reflect.Map) && f.IsNil() && v.Type().Field(i).Name != "Data" {
				if r.IntN(2) == 0 {
					if f.Kind() == reflect.Map {
						f.Set(reflect.MakeMap(f.Type()))
					} else {
						f.Set(reflect.MakeSlice(f.Type(), 0, r.IntN(3)))
					}
				}
				continue
			}
			emptied(r, f)
		}
	}
}

func newSnapshot(doc *gltf.Document) *snapshot {
	s := &snapshot{doc: doc, cp: deepCopyDoc(doc), items: itemsOf(doc)}
	for _, b := range doc.Buffers {
		if b == nil {
			s.full, s.ptr = append(s.full, nil), append(s.ptr, nil)
			continue
		}
		f := b.Data[:cap(b.Data)]
		s.full = append(s.full, append([]byte{}, f...))
		if len(f) > 0 {
			s.ptr = append(s.ptr, &f[0])
		} else {
			s.ptr = append(s.ptr, nil)
		}
	}
	return s
}

func (s *snapshot) same() error {
	if !reflect.DeepEqual(s.doc, s.cp) {
		if err := (&docDiff{}).diff(s.cp, s.doc); err != nil {
			return err
		}
		// A difference that documents do not show otherwise, find where.
		a, b := reflect.ValueOf(s.cp).Elem(), reflect.ValueOf(s.doc).Elem()
		for i := 0; i < a.NumField(); i++ {
			if f := a.Type().Field(i); f.IsExported() && !reflect.DeepEqual(a.Field(i).Interface(), b.Field(i).Interface()) {
				return fmt.Errorf("%s changed (nil, empty or default values)", f.Name)
			}
		}
		return fmt.Errorf("unexported state changed")
	}
	if items := itemsOf(s.doc); !reflect.DeepEqual(items, s.items) {
		for k := range items {
			if !reflect.DeepEqual(items[k], s.items[k]) {
				return fmt.Errorf("%s holds other objects than before, equal in value", k)
			}
		}
	}
	for i, b := range s.doc.Buffers {
		if b == nil {
			continue
		}
		f := b.Data[:cap(b.Data)]
		if !bytes.Equal(f, s.full[i]) {
			return fmt.Errorf("bytes after the data of buffer %d changed", i)
		}
		if len(f) > 0 && &f[0] != s.ptr[i] {
			return fmt.Errorf("the data of buffer %d moved", i)
		}
	}
	return nil
}

// spare gives the buffers spare capacity with known bytes.
func spare(t *T, doc *gltf.Document) {
	for _, b := range doc.Buffers {
		if b == nil || t.R.IntN(2) == 0 {
			continue
		}
		n := len(b.Data)
		k := 1 + t.R.IntN(9)
		b.Data = append(append(make([]byte, 0, n+k), b.Data...), bytes.Repeat([]byte{0xC3}, k)...)[:n]
	}
}

func c25encode(t *T) {
	g := newGen(t.R)
	g.mixedURIs()
	doc := g.document()
	bad := t.R.IntN(4) == 0
	if bad { // documents that cannot be encoded
		switch t.R.IntN(5) {
		case 0:
			doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: 2, Data: []byte{1, 2}, URI: "../../x.bin"})
		case 1:
			doc.Extras = make(chan string)
		case 2:
			doc.Nodes = append(doc.Nodes, &gltf.Node{Weights: []float64{math.Inf(-1)}})
		case 3:
			doc.Asset.Extras = map[string]any{"c": make(chan int)}
		case 4:
			doc.Extensions = gltf.Extensions{"X": json.RawMessage(`{"broken`)}
		}
	}
	for _, b := range doc.Buffers { // stale URIs
		if b.IsEmbeddedResource() && t.R.IntN(3) == 0 {
			b.URI = octet + "," + b64([]byte("stale"))
		}
	}
	if !bad && t.R.IntN(5) == 0 && len(doc.Buffers) > 0 { // lengths that are not those of the data
		bad = true
		for _, b := range doc.Buffers {
			if t.R.IntN(3) == 0 {
				continue
			}
			b.ByteLength = []int{0, -1, -7, len(b.Data) + 1, len(b.Data) + 5, len(b.Data) - 1, len(b.Data) / 2, 1 << 20}[t.R.IntN(8)]
			if t.R.IntN(4) == 0 {
				b.Data = nil
			}
		}
		t.Hit("inconsistent")
	}
	spare(t, doc)
	if t.R.IntN(2) == 0 {
		emptied(t.R, reflect.ValueOf(doc))
		t.Hit("empty_collections")
	}
	s := newSnapshot(doc)
	check := func(what string) {
		if err := s.same(); err != nil {
			t.Failf("%s changes the document: %v", what, err)
		}
	}
	for _, m := range []mode{modes[t.R.IntN(2)], modes[t.R.IntN(len(modes))]} {
		mem := newMemFS()
		out, err := encode(doc, m, mem)
		check(fmt.Sprintf("%v: encoding (error %v)", m, err))
		if bad {
			if err != nil {
				t.Hit("encode_failed")
			}
			continue
		}
		if err != nil {
			t.Failf("%v: %v", m, err)
		}
		t.Hit("encoded")
		mem2 := newMemFS()
		out2, err := encode(doc, m, mem2)
		if err != nil {
			t.Failf("%v: encoding again: %v", m, err)
		}
		if !bytes.Equal(out, out2) {
			t.Failf("%v: encoding twice gives different outputs", m)
		}
		if len(mem.files) != len(mem2.files) {
			t.Failf("%v: encoding twice writes different files", m)
		}
		for name, b := range mem.files {
			if !bytes.Equal(b, mem2.files[name]) {
				t.Failf("%v: encoding twice writes different contents of %s", m, name)
			}
		}
		t.Hit("twice")
		// Failing destinations.
		w := &faultWriter{n: -1, after: t.R.IntN(len(out) + 1)}
		err = encodeTo(doc, m, w, newMemFS())
		check(fmt.Sprintf("%v: encoding to a writer that fails after %d bytes (error %v)", m, w.after, err))
		if err != nil {
			t.Hit("encode_failed")
		}
		t.Key(out)
	}
	if bad {
		t.Key("bad", t.I)
	}
}

func c25read(t *T) {
	d := newAccDoc(t)
	for k := 1 + t.R.IntN(5); k > 0; k-- {
		if t.R.IntN(2) == 0 {
			rd := &readers[t.R.IntN(len(readers))]
			n := countFor(t.R, 4)
			c, a := rd.comps[t.R.IntN(len(rd.comps))], rd.types[t.R.IntN(len(rd.types))]
			d.accessorForm(c, a, n, true, form{noView: t.R.IntN(5) == 0, sparse: n > 0 && t.R.IntN(3) == 0, strided: t.R.IntN(2) == 0}, nil)
			continue
		}
		c, a := combo(t.R.IntN(42))
		d.accessor(c, a, countFor(t.R, elemSize(c, a)), false)
	}
	d.finish()
	doc := d.doc
	for i := t.R.IntN(3); i > 0; i-- {
		doc.Images = append(doc.Images, &gltf.Image{URI: []string{png + "," + b64(d.randBytes(t.R.IntN(9))), jpg + ",!!", "x.png", png, png + ",AAA"}[t.R.IntN(5)]})
	}
	if t.R.IntN(2) == 0 { // malformed
		for k := 1 + t.R.IntN(3); k > 0; k-- {
			acr := doc.Accessors[t.R.IntN(len(doc.Accessors))]
			switch t.R.IntN(6) {
			case 0:
				acr.Count += 1 + t.R.IntN(5)
			case 1:
				acr.ByteOffset += hostileInt(t.R, acr.ByteOffset)
			case 2:
				if acr.Sparse != nil {
					acr.Sparse.Count++
				}
			case 3:
				acr.BufferView = gltf.Index(t.R.IntN(len(doc.BufferViews) + 3))
			case 4:
				if acr.Sparse != nil {
					acr.Sparse.Values.BufferView = 1 << 20
				}
			case 5:
				acr.Count = min(acr.Count, 1)
			}
		}
	}
	spare(t, doc)
	s := newSnapshot(doc)
	t.Note("accessors", func() string { b, _ := json.Marshal(doc.Accessors); return string(b) }())
	check := func(what string, err error) {
		if e := s.same(); e != nil {
			t.Failf("%s (error %v) changes the document: %v", what, err, e)
		}
		t.Hit("reads")
		if err != nil {
			t.Hit("failed_reads")
		}
	}
	for i, acr := range doc.Accessors {
		if acr.BufferView == nil && acr.Count > 1<<16 {
			continue
		}
		out, err := modeler.ReadAccessor(doc, acr, dirtyBytes(t.R, 64))
		check(fmt.Sprintf("ReadAccessor %d", i), err)
		if err == nil { // the result is not part of the document
			v := reflect.ValueOf(out)
			v = v.Slice(0, v.Len())
			for k := 0; k < v.Len(); k++ {
				fillOnes(v.Index(k))
			}
			check(fmt.Sprintf("changing the result of ReadAccessor %d", i), nil)
		}
		for k := range readers {
			rd := &readers[k]
			if !rd.accepts(acr.ComponentType, acr.Type) && t.R.IntN(4) > 0 {
				continue
			}
			out, err := rd.call(doc, acr, dirtyElems(t.R, rd.out, 8))
			check(fmt.Sprintf("%s of accessor %d", rd.name, i), err)
			if err == nil {
				v := reflect.ValueOf(out)
				for k := 0; k < v.Len(); k++ {
					fillOnes(v.Index(k))
				}
				check(fmt.Sprintf("changing the result of %s of accessor %d", rd.name, i), nil)
			}
		}
	}
	for i, v := range doc.BufferViews {
		_, err := modeler.ReadBufferView(doc, v)
		check(fmt.Sprintf("ReadBufferView %d", i), err)
	}
	for i, im := range doc.Images {
		out, err := im.MarshalData()
		im.IsEmbeddedResource()
		check(fmt.Sprintf("MarshalData of image %d", i), err)
		for k := range out {
			out[k] = 0xEE
		}
		check("changing image data", nil)
		t.Hit("image_reads")
	}
	t.Key(fmt.Sprint(len(doc.Accessors), len(doc.BufferViews)), t.I)
}

func c25write(t *T) {
	h := newModelHist(t)
	h.retain = true
	for k := h.length(); k > 0; k-- {
		e := h.step()
		for _, d := range append(append([]chunkData{}, e.acrs...), e.raw...) {
			v := reflect.ValueOf(d.data)
			now := v
			if v.Type().Elem().Kind() == reflect.Struct {
				now, _ = asVec4(d.data)
			}
			if err := sameBits(now, d.want); err != nil {
				t.Failf("%s changes the data given: %v", e.desc, err)
			}
		}
		for _, d := range append(append([]chunkData{}, e.acrs...), e.raw...) {
			v := reflect.ValueOf(d.data)
			for i := 0; i < v.Len(); i++ {
				scrub(v.Index(i))
			}
			t.Hit("scribbled")
		}
		for _, w := range h.items {
			w.verify(t, h.doc, "after the caller changed its data")
		}
		t.Hit("verified")
	}
	t.Key(fmt.Sprint(h.steps))
}

func scrub(v reflect.Value) {
	if v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			v.Field(i).SetUint(0xA5)
		}
		return
	}
	fillOnes(v)
}

func c25decode(t *T) {
	g := newGen(t.R)
	g.mixedURIs()
	g.rawExt, g.jsonExtras = true, true
	var in []byte
	mem := newMemFS()
	if t.R.IntN(3) == 0 {
		in = hostileJSON(g)
		if t.R.IntN(2) == 0 {
			in = wrapGLB(g, in)
		}
	} else {
		doc := g.document()
		var err error
		if in, err = encode(doc, modes[t.R.IntN(len(modes))], mem); err != nil {
			t.Failf("%v", err)
		}
	}
	own := append([]byte{}, in...)
	files := map[string][]byte{}
	for k, b := range mem.files {
		files[k] = append([]byte{}, b...)
	}
	doc, err := decode(in, mem)
	check := func(what string) {
		if !bytes.Equal(in, own) {
			t.Failf("%s changes the input", what)
		}
		for k, b := range files {
			if !bytes.Equal(b, mem.files[k]) {
				t.Failf("%s changes the file %s", what, k)
			}
		}
		if len(mem.files) != len(files) {
			t.Failf("%s adds files", what)
		}
	}
	check(fmt.Sprintf("decoding (error %v)", err))
	t.Hit("decoded")
	t.Key(in)
	if err != nil {
		return
	}
	s := newSnapshot(doc)
	// Neither is the document part of the input.
	for i := range in {
		in[i] ^= 0x55
	}
	for _, b := range mem.files {
		for i := range b {
			b[i] ^= 0x55
		}
	}
	if err := s.same(); err != nil {
		t.Failf("changing the input changes the decoded document: %v", err)
	}
}

// ---- C26

const (
	png = "data:image/png;base64"
	jpg = "data:image/jpeg;base64"
)

func anyBytes(t *T) []byte {
	n := t.R.IntN(12)
	switch t.R.IntN(8) {
	case 0:
		n = 100 + t.R.IntN(300)
	case 1:
		n = edgeLen(t.R, 9, 14)
		if t.R.IntN(20) == 0 {
			n = edgeLen(t.R, 15, 20)
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(t.R.Uint32())
	}
	switch t.R.IntN(4) {
	case 0:
		for i := range b {
			b[i] = 0xff // "/" in base64
		}
	case 1:
		for i := range b {
			b[i] = []byte{0xfb, 0xef, 0xbe}[i%3] // "+"
		}
	}
	return b
}

// ref64 is an independent base64 encoder.
func ref64(b []byte) string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	var out strings.Builder
	for i := 0; i < len(b); i += 3 {
		x := uint32(b[i]) << 16
		if i+1 < len(b) {
			x |= uint32(b[i+1]) << 8
		}
		if i+2 < len(b) {
			x |= uint32(b[i+2])
		}
		for k := 0; k < 4; k++ {
			if i+k > len(b) {
				out.WriteByte('=')
				continue
			}
			out.WriteByte(abc[x>>(18-6*k)&63])
		}
	}
	return out.String()
}

func c26buffers(t *T) {
	data := anyBytes(t)
	own := append([]byte{}, data...)
	b := &gltf.Buffer{ByteLength: len(data), Data: data, Name: "b"}
	switch t.R.IntN(4) {
	case 0:
		b.URI = "before.bin"
	case 1: // the one of other bytes
		before := anyBytes(t)
		if t.R.IntN(2) == 0 {
			before = make([]byte, len(data))
		}
		b.URI = octet + "," + ref64(before)
		t.Hit("stale_uri")
	}
	if t.R.IntN(2) == 0 && strings.HasPrefix(b.URI, octet) {
		// The encoder does it.
		m := modes[t.R.IntN(2)]
		doc := &gltf.Document{Buffers: []*gltf.Buffer{b}}
		if len(data) > 0 {
			out, err := encode(doc, m, nil)
			if err != nil {
				t.Failf("%v: %v", m, err)
			}
			got, err := decode(out, nil)
			if err != nil {
				t.Failf("%v: %v", m, err)
			}
			if len(got.Buffers) != 1 || !bytes.Equal(got.Buffers[0].Data, own) {
				t.Failf("%v: a buffer whose URI embeds other bytes than its data is not reloaded with its data", m)
			}
			t.Hit("stale_encoded")
		}
	}
	b.EmbeddedResource()
	if want := octet + "," + ref64(own); b.URI != want {
		t.Failf("embedding %x gives %q, want %q", clip(own, 50), clip([]byte(b.URI), 200), clip([]byte(want), 200))
	}
	if !b.IsEmbeddedResource() {
		t.Failf("%q is not taken as embedded", clip([]byte(b.URI), 100))
	}
	if !bytes.Equal(b.Data, own) || b.ByteLength != len(own) {
		t.Failf("embedding changes the data")
	}
	t.Hit("buffers")
	t.Key(b.URI)
	if len(data) == 0 {
		return
	}
	// Inside a document, at any position, with the library and with a text.
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	at := t.R.IntN(3)
	for i := 0; i < 3; i++ {
		if i == at {
			doc.Buffers = append(doc.Buffers, b)
			continue
		}
		x := &gltf.Buffer{ByteLength: 3, Data: []byte{1, 2, byte(i)}}
		x.EmbeddedResource()
		doc.Buffers = append(doc.Buffers, x)
	}
	// The data is what the URI holds, whatever the length says.
	odd := deepCopyDoc(doc)
	odd.Buffers[at].ByteLength = max(1, len(own)+t.R.IntN(2*len(own)+9)-len(own))
	text := (&refWriter{}).document(doc)
	oddText := (&refWriter{}).document(odd)
	for _, in := range [][]byte{text, simpleGLB(text, nil), oddText, simpleGLB(oddText, []byte{1, 2, 3, 4})} {
		got, err := decode(in, nil)
		if err != nil {
			t.Failf("decoding: %v", err)
		}
		if len(got.Buffers) != 3 || !bytes.Equal(got.Buffers[at].Data, own) {
			t.Failf("the embedded buffer is decoded to other bytes")
		}
	}
	for _, m := range modes[:2] {
		out, err := encode(doc, m, nil)
		if err != nil {
			t.Failf("%v: %v", m, err)
		}
		got, err := decode(out, nil)
		if err != nil {
			t.Failf("%v: %v", m, err)
		}
		g := got.Buffers[at]
		if !bytes.Equal(g.Data, own) || g.URI != b.URI || !g.IsEmbeddedResource() {
			t.Failf("%v: the embedded buffer is reloaded as %x with URI %q", m, clip(g.Data, 50), clip([]byte(g.URI), 100))
		}
		t.Hit("reloaded")
	}
	t.Sample(func() string { return fmt.Sprintf("%d bytes: %s", len(own), clip([]byte(b.URI), 80)) })
}

func c26images(t *T) {
	data := anyBytes(t)
	prefix := []string{png, jpg}[t.I%2]
	im := &gltf.Image{URI: prefix + "," + ref64(data), Name: "i"}
	if t.R.IntN(2) == 0 {
		im.MimeType = []string{"image/png", "image/jpeg"}[t.R.IntN(2)]
	}
	check := func(what string, im *gltf.Image) {
		if !im.IsEmbeddedResource() {
			t.Failf("%s: %q is not taken as embedded", what, clip([]byte(im.URI), 60))
		}
		b, err := im.MarshalData()
		if err != nil {
			t.Failf("%s: %v", what, err)
		}
		if !bytes.Equal(b, data) {
			t.Failf("%s: the data is %x, want %x", what, clip(b, 60), clip(data, 60))
		}
	}
	uri := im.URI
	check("built", im)
	doc := &gltf.Document{Images: []*gltf.Image{{URI: "other.png"}, im, {URI: png + ",AAAA"}}}
	for _, m := range modes[:3] {
		out, err := encode(doc, m, nil)
		if err != nil {
			t.Failf("%v: %v", m, err)
		}
		got, err := decode(out, nil)
		if err != nil {
			t.Failf("%v: %v", m, err)
		}
		if len(got.Images) != 3 || got.Images[1].URI != uri || got.Images[2].URI != png+",AAAA" {
			t.Failf("%v: the image URI is changed", m)
		}
		check(m.String(), got.Images[1])
		t.Hit("reloaded")
	}
	t.Hit("images")
	t.Key(uri)
	t.Sample(func() string { return fmt.Sprintf("%d bytes: %s", len(data), clip([]byte(uri), 80)) })
}

// c26gltfBuffer: the other media type that glTF allows for embedded buffers.
func c26gltfBuffer(t *T) {
	const gb = "data:application/gltf-buffer;base64"
	data := anyBytes(t)
	if len(data) == 0 {
		data = []byte{byte(t.I)}
	}
	uri := gb + "," + ref64(data)
	t.Note("uri", clip([]byte(uri), 300))
	if !(&gltf.Buffer{URI: uri}).IsEmbeddedResource() {
		t.Failf("%q is not taken as embedded", clip([]byte(uri), 100))
	}
	if (&gltf.Image{URI: uri}).IsEmbeddedResource() {
		t.Failf("%q is taken as an embedded image", clip([]byte(uri), 100))
	}
	text := func(length int, uri string) []byte {
		bufs := []string{`{"byteLength":3,"uri":"` + octet + `,AQID"}`, `{"byteLength":3,"uri":"` + gb + `,AQID"}`}
		at := t.R.IntN(3)
		bufs = append(bufs[:at:at], append([]string{fmt.Sprintf(`{"byteLength":%d,"uri":%q}`, length, uri)}, bufs[at:]...)...)
		return []byte(`{"asset":{"version":"2.0"},"buffers":[` + strings.Join(bufs, ",") + `]}`)
	}
	check := func(doc *gltf.Document, err error, what string) {
		if err != nil {
			t.Failf("%s: %v", what, err)
		}
		found := 0
		for _, b := range doc.Buffers {
			if bytes.Equal(b.Data, data) {
				found++
			} else if !bytes.Equal(b.Data, []byte{1, 2, 3}) {
				t.Failf("%s: %x is decoded as %x", what, clip(data, 50), clip(b.Data, 50))
			}
			if !b.IsEmbeddedResource() {
				t.Failf("%s: the buffer is not embedded any more", what)
			}
		}
		if len(doc.Buffers) != 3 || found == 0 {
			t.Failf("%s: %d buffers", what, len(doc.Buffers))
		}
	}
	in := text(len(data), uri)
	if t.R.IntN(3) == 0 {
		in = simpleGLB(in, nil)
	}
	mem := newMemFS()
	doc, err := decode(in, mem)
	check(doc, err, "decoding")
	for _, m := range modes[:2] {
		out, err := encode(doc, m, mem)
		if err != nil {
			t.Failf("%v: %v", m, err)
		}
		back, err := decode(out, mem)
		check(back, err, fmt.Sprintf("%v reloaded", m))
	}
	if e := append(mem.opened, mem.created...); len(e) > 0 {
		t.Failf("files are touched: %v", e)
	}
	// Its data changes.
	data = append([]byte{}, data...)
	for _, b := range doc.Buffers {
		if len(b.Data) == len(data) && !bytes.Equal(b.Data, []byte{1, 2, 3}) {
			b.Data[0]++
			data = append([]byte{}, b.Data...)
			out, err := encode(doc, modes[t.R.IntN(2)], mem)
			if err != nil {
				t.Failf("%v", err)
			}
			back, err := decode(out, mem)
			check(back, err, "changed and reloaded")
			break
		}
	}
	for _, bad := range []string{"!", "A", "AAA", "=AAA", "AAAA=", "A*=="} {
		if _, err := decode(text(3, gb+","+bad), mem); err == nil {
			t.Failf("buffer with %q is accepted", bad)
		}
	}
	t.Hit("gltf_buffer")
	t.Key(uri)
}

func c26others(t *T) {
	g := newGen(t.R)
	data := ref64(anyBytes(t))
	uris := []string{
		"", "a.png", "image/png;base64," + data, "data:text/plain;base64," + data, "data:image/gif;base64," + data, "data:,x", "http://x/y.png", "dir/data:image.png",
		"data.bin", "application/octet-stream;base64," + data, "x" + png + "," + data, " " + octet + "," + data, "file:///x.bin", "base64," + data, g.relURI(t.I), "data", "data:", "data:image/png," + data, "data:image/webp;base64," + data,
	}
	uri := uris[t.I%len(uris)]
	im := &gltf.Image{URI: uri}
	if im.IsEmbeddedResource() {
		t.Failf("the image URI %q is taken as an embedded PNG or JPEG", clip([]byte(uri), 60))
	}
	b, err := im.MarshalData()
	if err != nil || len(b) != 0 {
		t.Failf("the image URI %q gives %d bytes, %v", clip([]byte(uri), 60), len(b), err)
	}
	buf := &gltf.Buffer{URI: uri}
	if buf.IsEmbeddedResource() {
		t.Failf("the buffer URI %q is taken as embedded", clip([]byte(uri), 60))
	}
	for _, x := range []string{png, jpg} { // images are not buffers and the other way around
		if (&gltf.Buffer{URI: x + "," + data}).IsEmbeddedResource() {
			t.Failf("an image URI is taken as an embedded buffer")
		}
	}
	if (&gltf.Image{URI: octet + "," + data}).IsEmbeddedResource() {
		t.Failf("a buffer URI is taken as an embedded image")
	}
	t.Hit("not_embedded")
	t.Key(uri)
}

// base64OK decides: -1 malformed, 0 tolerated forms, 1 canonical.
func base64OK(s string) int {
	verdict := 1
	if strings.ContainsAny(s, "\r\n") {
		s = strings.NewReplacer("\r", "", "\n", "").Replace(s)
		verdict = 0
	}
	if len(s)%4 != 0 {
		return -1
	}
	body := strings.TrimRight(s, "=")
	if len(s)-len(body) > 2 || len(body)%4 == 1 {
		return -1
	}
	for i := 0; i < len(body); i++ {
		c := body[i]
		if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '+' || c == '/') {
			return -1
		}
	}
	if verdict == 1 && len(body)%4 != 0 {
		return 0 // maybe with trailing bits
	}
	return verdict
}

func c26malformed(t *T) {
	data := anyBytes(t)
	text := []byte(ref64(data))
	try := func(s string, what string) {
		v := base64OK(s)
		for _, prefix := range []string{png, jpg} {
			im := &gltf.Image{URI: prefix + "," + s}
			_, err := im.MarshalData()
			if v < 0 && err == nil {
				t.Failf("image with %s: %q is accepted", what, clip([]byte(s), 100))
			}
			if v > 0 && err != nil {
				t.Failf("image: %q is refused: %v", clip([]byte(s), 100), err)
			}
			if v < 0 {
				t.Hit("malformed")
			}
		}
		if v < 0 && t.R.IntN(4) == 0 {
			doc := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: max(1, len(data)), URI: octet + "," + s}}}
			in := (&refWriter{}).document(doc)
			if _, err := decode(in, nil); err == nil {
				t.Failf("buffer with %s: %q is accepted", what, clip([]byte(s), 100))
			}
			t.Hit("malformed_buffer")
		}
	}
	if len(text) == 0 {
		// Without a text at all.
		for _, u := range []string{png, jpg} {
			im := &gltf.Image{URI: u}
			if b, err := im.MarshalData(); len(b) != 0 {
				t.Failf("%q gives %d bytes, %v", u, len(b), err)
			}
		}
		decode([]byte(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d,"uri":%q}]}`, t.R.IntN(3), octet)), nil)
		return
	}
	bad := []byte("!-_%*. \t\x00=\"\\\x80é")
	if len(text) <= 64 {
		for i := range text {
			for k := 0; k < 3; k++ {
				x := append([]byte{}, text...)
				x[i] = bad[t.R.IntN(len(bad))]
				try(string(x), fmt.Sprintf("character %d replaced", i))
			}
			try(string(text[:i]), fmt.Sprintf("text cut at %d", i))
			t.Hit("truncated")
		}
	} else {
		for k := 0; k < 20; k++ {
			x := append([]byte{}, text...)
			x[t.R.IntN(len(x))] = bad[t.R.IntN(len(bad))]
			try(string(x), "a character replaced")
			try(string(text[:t.R.IntN(len(text))]), "text cut")
			i := t.R.IntN(len(text))
			try(string(text[:i])+string(bad[t.R.IntN(len(bad))])+string(text[i:]), "a character inserted")
		}
	}
	try(string(text)+"=", "padding appended")
	try(string(text)+"AAAA", "more text")
	try("="+string(text), "padding first")
	t.Key(text)
}
