package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

// reader is one of the typed readers.
type reader struct {
	name  string
	out   reflect.Type // element type of the result
	comps []gltf.ComponentType
	types []gltf.AccessorType
	call  func(doc *gltf.Document, acr *gltf.Accessor, buf any) (any, error)
}

func mkReader[E any](name string, f func(*gltf.Document, *gltf.Accessor, []E) ([]E, error), comps []gltf.ComponentType, types ...gltf.AccessorType) reader {
	return reader{name, reflect.TypeFor[E](), comps, types, func(doc *gltf.Document, acr *gltf.Accessor, buf any) (any, error) {
		var b []E
		if buf != nil {
			b = buf.([]E)
		}
		out, err := f(doc, acr, b)
		if err != nil {
			return nil, err
		}
		return out, nil
	}}
}

var (
	fl       = []gltf.ComponentType{gltf.ComponentFloat}
	ints     = []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentUshort}
	intsOrFl = []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat}
)

var readers = []reader{
	mkReader("ReadIndices", modeler.ReadIndices, []gltf.ComponentType{gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint}, gltf.AccessorScalar),
	mkReader("ReadNormal", modeler.ReadNormal, fl, gltf.AccessorVec3),
	mkReader("ReadTangent", modeler.ReadTangent, fl, gltf.AccessorVec4),
	mkReader("ReadTextureCoord", modeler.ReadTextureCoord, intsOrFl, gltf.AccessorVec2),
	mkReader("ReadWeights", modeler.ReadWeights, intsOrFl, gltf.AccessorVec4),
	mkReader("ReadJoints", modeler.ReadJoints, ints, gltf.AccessorVec4),
	mkReader("ReadPosition", modeler.ReadPosition, fl, gltf.AccessorVec3),
	mkReader("ReadColor", modeler.ReadColor, intsOrFl, gltf.AccessorVec3, gltf.AccessorVec4),
	mkReader("ReadColor64", modeler.ReadColor64, intsOrFl, gltf.AccessorVec3, gltf.AccessorVec4),
	mkReader("ReadInverseBindMatrices", modeler.ReadInverseBindMatrices, fl, gltf.AccessorMat4),
}

func (rd *reader) accepts(c gltf.ComponentType, a gltf.AccessorType) bool {
	ok := false
	for _, x := range rd.comps {
		ok = ok || x == c
	}
	ok2 := false
	for _, y := range rd.types {
		ok2 = ok2 || y == a
	}
	return ok && ok2
}

// dirtyElems makes a destination buffer with leftovers.
func dirtyElems(r *rand.Rand, e reflect.Type, n int) any {
	switch r.IntN(5) {
	case 0:
		return nil
	case 1:
		return reflect.MakeSlice(reflect.SliceOf(e), 0, 0).Interface()
	}
	l := r.IntN(2*n + 3)
	s := reflect.MakeSlice(reflect.SliceOf(e), l, l+r.IntN(n+3))
	f := s.Slice(0, s.Cap())
	for i := 0; i < f.Len(); i++ {
		fillOnes(f.Index(i))
	}
	return s.Interface()
}

func fillOnes(v reflect.Value) {
	switch v.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillOnes(v.Index(i))
		}
	case reflect.Float32:
		v.SetFloat(-123.5)
	case reflect.Int8, reflect.Int16:
		v.SetInt(0x5a)
	default:
		v.SetUint(0xa5)
	}
}

func dirtyBytes(r *rand.Rand, n int) []byte {
	switch r.IntN(5) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	l := r.IntN(2*n + 9)
	b := make([]byte, l+8, l+8+r.IntN(n+9))
	f := b[:cap(b)]
	for i := range f {
		f[i] = 0xAB
	}
	b = b[r.IntN(8):]
	if r.IntN(3) == 0 { // capacities of a few bytes and around the size needed
		c := []int{1, 2, 3, 4, 1 + r.IntN(16), n - 1, n, n + 1}[r.IntN(8)]
		c = max(0, min(c, cap(b)))
		b = b[:r.IntN(c+1):c]
	}
	return b
}

// convert checks one converted element: src is an element as stored, dst what
// the reader returned.
func (rd *reader) convert(t *T, c gltf.ComponentType, src, dst reflect.Value) {
	fail := func(want any) {
		t.Failf("%s: %v %v is read as %v, want %v", rd.name, c, src.Interface(), dst.Interface(), want)
	}
	n := 1
	comp := func(v reflect.Value, i int) reflect.Value {
		if v.Kind() == reflect.Array {
			return v.Index(i)
		}
		return v
	}
	if src.Kind() == reflect.Array {
		n = src.Len()
	}
	switch rd.name {
	case "ReadNormal", "ReadTangent", "ReadPosition", "ReadInverseBindMatrices":
		if !eqBits(src, dst) {
			fail(src.Interface())
		}
	case "ReadIndices", "ReadJoints":
		for i := 0; i < n; i++ {
			if comp(src, i).Uint() != comp(dst, i).Uint() {
				fail("the same numbers")
			}
		}
	case "ReadTextureCoord", "ReadWeights":
		if c == gltf.ComponentFloat {
			if !eqBits(src, dst) {
				fail(src.Interface())
			}
			return
		}
		m := 255.0
		if c == gltf.ComponentUshort {
			m = 65535
		}
		for i := 0; i < n; i++ {
			want := float64(src.Index(i).Uint()) / m
			if math.Abs(dst.Index(i).Float()-want) > 1e-7 {
				fail(want)
			}
		}
	case "ReadColor", "ReadColor64":
		top := uint64(255)
		if rd.name == "ReadColor64" {
			top = 65535
		}
		if n == 3 && dst.Index(3).Uint() != top {
			fail(fmt.Sprintf("alpha %d", top))
		}
		for i := 0; i < n; i++ {
			got := dst.Index(i).Uint()
			switch {
			case c == gltf.ComponentFloat:
				x := float64(src.Index(i).Interface().(float32))
				if i < 3 {
					x = srgb(x)
				}
				if d := math.Abs(float64(got) - x*float64(top)); d > 1.01 {
					fail(fmt.Sprintf("%g in component %d", x*float64(top), i))
				}
			case c == gltf.ComponentUbyte && top == 255, c == gltf.ComponentUshort && top == 65535:
				if got != src.Index(i).Uint() {
					fail("the same numbers")
				}
			case c == gltf.ComponentUbyte:
				if got != src.Index(i).Uint()*257 {
					fail("each number times 257")
				}
			default: // 16 to 8 bits
				x := src.Index(i).Uint()
				if d := math.Abs(float64(got) - float64(x)/257); d > 1 {
					if got == x&0xff {
						t.Finding("ReadColor-ushort-low-byte", fmt.Sprintf("ReadColor reads the 16-bit colour component %d as %d, want %d", x, got, x/257))
						t.Hit("finding_lowbyte")
						continue
					}
					fail(fmt.Sprintf("%d in component %d", x/257, i))
				}
			}
		}
	}
}

// srgb is the transfer function of IEC 61966-2-1.
func srgb(x float64) float64 {
	if x <= 0.0031308 {
		return 12.92 * x
	}
	return 1.055*math.Pow(x, 1/2.4) - 0.055
}

// srcElems makes source data for a reader: floats of colours are in [0,1].
func (rd *reader) srcElems(r *rand.Rand, c gltf.ComponentType, a gltf.AccessorType, n int) reflect.Value {
	v := randElems(r, c, a, n, false)
	if c == gltf.ComponentFloat && rd.accepts(c, a) && (rd.name == "ReadColor" || rd.name == "ReadColor64") {
		runs := r.IntN(3) == 0
		for i := 0; i < n; i++ {
			only := -1
			if runs && i > 0 && r.IntN(3) > 0 {
				v.Index(i).Set(v.Index(i - 1))
				only = r.IntN(v.Index(i).Len())
			}
			for k := 0; k < v.Index(i).Len(); k++ {
				if only >= 0 && k != only {
					continue
				}
				x := r.Float64()
				if r.IntN(5) == 0 {
					x = []float64{0, 1, 0.0031308, 0.003, 0.04045, 0.5}[r.IntN(6)]
				}
				v.Index(i).Index(k).SetFloat(x)
			}
		}
	}
	return v
}

// countFor is a number of elements of the given size: few, or around a number
// of elements or of bytes that is a power of two.
func countFor(r *rand.Rand, size int) int {
	switch r.IntN(14) {
	case 0:
		return 0
	case 1:
		return 100 + r.IntN(300)
	case 2:
		return 1000 + r.IntN(200)
	case 3:
		return edgeLen(r, 4, 11)
	case 4:
		return max(0, (1<<(6+r.IntN(7)))/size+r.IntN(4)-1)
	}
	return 1 + r.IntN(9)
}

func init() {
	// ---- C14
	register(&Prop{
		ID: "C14", QuickMul: 30, DeepMul: 10, Level: "exploration",
		Rule:   "accessors of all 42 layouts with and without view, stride, offsets and sparse storage (8-, 16- and 32-bit indices) over several random buffers, read with and without backing memory and compared with an independent reading of the buffers; also in a build with the race detector and pointer checks; distinct by (layout, count, form, buffer view)",
		Assume: []string{"views without stride store elements padded to four bytes per column, as SizeOfElement says", "sparse indices are distinct and increasing"},
		Need:   map[string]int{"dense": 500, "noview": 300, "sparse": 500, "sparse_noview": 100, "strided": 500, "offset": 500, "strided_sparse": 100, "views": 500, "interleaved": 100, "large": 100}, MinKeys: 2000,
		Families: []Family{
			{Name: "accessor", Quick: 42 * 100, Thorough: 42 * 8000, Race: true, RaceQuick: 42 * 12, RaceThorough: 42 * 400, Run: func(t *T) {
				c, a := combo(t.I)
				d := newAccDoc(t)
				for k := t.R.IntN(3); k > 0; k-- { // others
					c2, a2 := combo(t.R.IntN(42))
					d.accessor(c2, a2, t.R.IntN(4), false)
				}
				n := countFor(t.R, elemSize(c, a))
				acr, want, f := d.accessor(c, a, n, false)
				if t.R.IntN(4) == 0 {
					d.view(nil, 0)
					t.Hit("empty_views")
				}
				d.finish()
				t.Note("accessor", fmt.Sprintf("%v %v count %d offset %d view %v sparse %+v", c, a, n, acr.ByteOffset, deref(acr.BufferView), acr.Sparse))
				for i, v := range d.doc.BufferViews {
					t.Note(fmt.Sprintf("view%d", i), fmt.Sprintf("%+v", *v))
				}
				got, err := modeler.ReadAccessor(d.doc, acr, dirtyBytes(t.R, n*elemSize(c, a)))
				if err != nil {
					t.Failf("%v %v count=%d (%v): %v", c, a, n, f, err)
				}
				if err := sameBits(reflect.ValueOf(got), want); err != nil {
					t.Failf("%v %v count=%d (%v): %v", c, a, n, f, err)
				}
				switch {
				case f.noView && f.sparse:
					t.Hit("sparse_noview")
				case f.noView:
					t.Hit("noview")
				default:
					t.Hit("dense")
					if f.strided {
						t.Hit("strided")
					}
					if f.offset {
						t.Hit("offset")
					}
					if f.strided && f.sparse {
						t.Hit("strided_sparse")
					}
				}
				if f.sparse {
					t.Hit("sparse")
				}
				for i, v := range d.doc.BufferViews {
					b, err := modeler.ReadBufferView(d.doc, v)
					if err != nil {
						t.Failf("view %d: %v", i, err)
					}
					w, _ := refView(d.doc, v)
					if !bytes.Equal(b, w) {
						t.Failf("view %d has the bytes %x, want %x", i, clip(b, 100), clip(w, 100))
					}
					if len(b) > 0 && &b[0] != &w[0] {
						t.Hit("copied_view")
					}
					t.Hit("views")
				}
				t.Key(c, a, n, f.String(), acr.ByteOffset, t.I)
				t.Sample(func() string { return fmt.Sprintf("%v %v count=%d %v", c, a, n, f) })
			}},
			{Name: "large", Quick: 60, Thorough: 42 * 60, Run: func(t *T) { // counts around powers of two
				c, a := combo(t.R.IntN(42))
				n := edgeLen(t.R, 11, 17)
				for n*elemSize(c, a) > 600000 {
					n = edgeLen(t.R, 11, 17)
				}
				d := newAccDoc(t)
				// Without and with a view, and sparse.
				f := form{noView: t.I%4 > 1, sparse: t.I%2 > 0, strided: t.R.IntN(2) == 0, offset: t.R.IntN(2) == 0}
				acr, want, f := d.accessorForm(c, a, n, false, f, nil)
				d.finish()
				got, err := modeler.ReadAccessor(d.doc, acr, dirtyBytes(t.R, n))
				if err != nil {
					t.Failf("%v %v count=%d (%v): %v", c, a, n, f, err)
				}
				if err := sameBits(reflect.ValueOf(got), want); err != nil {
					t.Failf("%v %v count=%d (%v): %v", c, a, n, f, err)
				}
				t.Hit("large")
				t.Key(c, a, n, f.String())
			}},
			{Name: "interleaved", Quick: 300, Thorough: 20000, Run: func(t *T) {
				// Several accessors of one view, in one stride.
				d := newAccDoc(t)
				n := 1 + t.R.IntN(12)
				var offs []int
				var cs []gltf.ComponentType
				var as []gltf.AccessorType
				stride := 0
				for k := 2 + t.R.IntN(4); k > 0; k-- {
					c, a := combo(t.R.IntN(42))
					if stride+round4(elemSize(c, a)) > 252 {
						continue
					}
					cs, as, offs = append(cs, c), append(as, a), append(offs, stride)
					stride += round4(elemSize(c, a))
				}
				stride += 4 * t.R.IntN(2)
				base := 4 * t.R.IntN(3)
				content := d.randBytes(base + stride*n)
				var datas []reflect.Value
				for k := range cs {
					data := randElems(t.R, cs[k], as[k], n, false)
					refWrite(content[base+offs[k]:], stride, cs[k], as[k], data)
					datas = append(datas, data)
				}
				v := d.view(content, stride)
				d.finish()
				for k := range cs {
					acr := &gltf.Accessor{BufferView: &v, ByteOffset: base + offs[k], ComponentType: cs[k], Type: as[k], Count: n}
					got, err := modeler.ReadAccessor(d.doc, acr, nil)
					if err != nil {
						t.Failf("attribute %d of %d, %v %v, stride %d, offset %d, %d elements: %v", k, len(cs), cs[k], as[k], stride, acr.ByteOffset, n, err)
					}
					if err := sameBits(reflect.ValueOf(got), datas[k]); err != nil {
						t.Failf("attribute %d of %d, %v %v, stride %d, offset %d, %d elements: %v", k, len(cs), cs[k], as[k], stride, acr.ByteOffset, n, err)
					}
					t.Hit("interleaved")
				}
				t.Key(fmt.Sprint(cs, as, n, stride, base))
			}},
		},
	})

	// ---- C15
	register(&Prop{
		ID: "C15", QuickMul: 80, DeepMul: 12, Level: "exploration",
		Rule:   "valid documents with one or more integers used for reading replaced by negative, boundary, off-by-one, huge and overflowing values, null views and buffers, missing data and unknown types, read through ReadAccessor, ReadBufferView and all typed readers; results are compared with a reference reader that uses unbounded integers, allocation is measured; distinct by mutated document",
		Assume: []string{"accessors without buffer view and a count above 2^26 are not read", "the accessor and document arguments are not nil"},
		Need:   map[string]int{"must_fail": 2000, "must_read": 500, "typed": 2000, "view_errors": 200, "measured": 500, "count_big": 100}, MinKeys: 2000,
		Families: []Family{
			{Name: "malformed", Quick: 12000, Thorough: 800000, Run: func(t *T) { c15(t, false) }},
			{Name: "memory", Seq: true, Quick: 1500, Thorough: 40000, Run: func(t *T) { c15(t, true) }},
		},
	})

	// ---- C16
	register(&Prop{
		ID: "C16", QuickMul: 20, DeepMul: 15, Level: "exploration",
		Rule:   "every reader with every component and accessor type (exhaustive), accepted data of every 8- and 16-bit value at every component and random floats, in every storage form; distinct by (reader, types, count, form)",
		Assume: []string{"float colours are in [0,1]; colour conversion is exact to one unit"},
		Need:   map[string]int{"rejected": 400, "accepted": 700, "values8": 256, "values16": 65536, "converted": 10000}, MinKeys: 800,
		Families: []Family{
			{Name: "types", Quick: 420 * 30, Thorough: 420 * 300, Run: func(t *T) {
				rd := &readers[t.I%10]
				c, a := combo(t.I / 10)
				d := newAccDoc(t)
				n := countFor(t.R, elemSize(c, a))
				f := form{noView: t.R.IntN(5) == 0, sparse: n > 0 && t.R.IntN(4) == 0, strided: t.R.IntN(2) == 0, offset: t.R.IntN(2) == 0}
				acr, want, _ := d.accessorForm(c, a, n, false, form{f.noView, false, f.strided, f.offset}, rd.srcElems(t.R, c, a, n).Interface())
				acr.Normalized = t.R.IntN(2) == 0
				d.finish()
				got, err := rd.call(d.doc, acr, dirtyElems(t.R, rd.out, n))
				what := fmt.Sprintf("%s of %v %v, %d elements", rd.name, c, a, n)
				if !rd.accepts(c, a) {
					if err == nil {
						t.Failf("%s: accepted", what)
					}
					t.Hit("rejected")
					t.Key(rd.name, c, a)
					return
				}
				if err != nil {
					t.Failf("%s: %v", what, err)
				}
				v := reflect.ValueOf(got)
				if v.Len() != n {
					t.Failf("%s: %d elements returned", what, v.Len())
				}
				for i := 0; i < n; i++ {
					rd.convert(t, c, want.Index(i), v.Index(i))
				}
				t.HitN("converted", n)
				t.Hit("accepted")
				t.Key(rd.name, c, a, n, f.String())
				t.Sample(func() string { return what })
			}},
			{Name: "values", Quick: 40, Thorough: 160, Run: func(t *T) { // every 8- and 16-bit value
				rd := &readers[t.I%10]
				c := ints[t.I/10%2]
				a := rd.types[t.I/20%len(rd.types)]
				if !rd.accepts(c, a) {
					return
				}
				n := 1 << (8 * compSize[c])
				data := reflect.MakeSlice(reflect.SliceOf(goType(c, a)), n, n)
				for i := 0; i < n; i++ {
					for k, p := range layoutOf(c, a) {
						x := (i + k*7919) % n
						leaf(data.Index(i), a, p).SetUint(uint64(x))
					}
				}
				d := newAccDoc(t)
				acr, want, _ := d.accessorForm(c, a, n, false, form{strided: t.I%3 == 0}, data.Interface())
				d.finish()
				got, err := rd.call(d.doc, acr, nil)
				if err != nil {
					t.Failf("%s %v %v: %v", rd.name, c, a, err)
				}
				v := reflect.ValueOf(got)
				if v.Len() != n {
					t.Failf("%s %v %v: %d elements, want %d", rd.name, c, a, v.Len(), n)
				}
				for i := 0; i < n; i++ {
					rd.convert(t, c, want.Index(i), v.Index(i))
				}
				t.HitN("converted", n)
				t.HitN(fmt.Sprintf("values%d", 8*compSize[c]), n)
				t.Eval(n)
				t.Key(rd.name, c, a, "values")
			}},
			{Name: "large", Quick: 60, Thorough: 3000, Run: func(t *T) {
				rd := &readers[t.I%10]
				c, a := rd.comps[t.R.IntN(len(rd.comps))], rd.types[t.R.IntN(len(rd.types))]
				n := edgeLen(t.R, 11, 17)
				for n*elemSize(c, a) > 600000 {
					n = edgeLen(t.R, 11, 17)
				}
				d := newAccDoc(t)
				acr, want, _ := d.accessorForm(c, a, n, false, form{strided: t.R.IntN(2) == 0, offset: t.R.IntN(2) == 0}, rd.srcElems(t.R, c, a, n).Interface())
				d.finish()
				got, err := rd.call(d.doc, acr, dirtyElems(t.R, rd.out, n))
				if err != nil {
					t.Failf("%s of %v %v, %d elements: %v", rd.name, c, a, n, err)
				}
				v := reflect.ValueOf(got)
				if v.Len() != n {
					t.Failf("%s of %v %v: %d elements, want %d", rd.name, c, a, v.Len(), n)
				}
				for i := 0; i < n; i++ {
					rd.convert(t, c, want.Index(i), v.Index(i))
				}
				t.HitN("converted", n)
				t.Hit("large")
				t.Key(rd.name, c, a, n)
			}},
			{Name: "forms", Quick: 800, Thorough: 40000, Run: func(t *T) { // accepted types in every storage form
				rd := &readers[t.I%10]
				c, a := rd.comps[t.R.IntN(len(rd.comps))], rd.types[t.R.IntN(len(rd.types))]
				if c == gltf.ComponentFloat && (rd.name == "ReadColor" || rd.name == "ReadColor64") {
					return // random sparse values are outside [0,1]
				}
				d := newAccDoc(t)
				n := countFor(t.R, elemSize(c, a))
				acr, want, f := d.accessor(c, a, n, false)
				d.finish()
				got, err := rd.call(d.doc, acr, dirtyElems(t.R, rd.out, n))
				if err != nil {
					t.Failf("%s of %v %v (%v): %v", rd.name, c, a, f, err)
				}
				v := reflect.ValueOf(got)
				if v.Len() != n {
					t.Failf("%s of %v %v (%v): %d elements, want %d", rd.name, c, a, f, v.Len(), n)
				}
				for i := 0; i < n; i++ {
					rd.convert(t, c, want.Index(i), v.Index(i))
				}
				t.HitN("converted", n)
				t.Key(rd.name, c, a, n, f.String(), t.I)
			}},
		},
	})

	// ---- C17
	register(&Prop{
		ID: "C17", QuickMul: 1, Level: "exploration",
		Rule:   "histories of reads of accessors of different types, sizes and storage forms from shared documents, with nil, dirty, short, long and reused backing buffers, with failing reads in between and with results overwritten by the caller; every result is compared with its expected value at once and again at the end, the document with its snapshot; also under the race detector and pointer checks; distinct by history",
		Assume: []string{"a result whose buffer the caller gives to a later read is the caller's to lose"},
		Need:   map[string]int{"reads": 4000, "document_changed": 200, "reused": 500, "rechecked": 2000, "overwritten": 500, "failing": 200, "empty": 100, "pool_big": 50}, MinKeys: 200,
		Families: []Family{
			{Name: "history", Seq: true, Quick: 1200, Thorough: 40000, Race: true, RaceQuick: 60, RaceThorough: 600, Run: c17},
		},
	})
}

func deref(p *int) any {
	if p == nil {
		return nil
	}
	return *p
}

var hostileInts = []int{-1, 0, 1, 2, 3, 4, 7, 8, 16, 100, 255, 256, 65535, 65536, 1 << 20, 1 << 26, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 40, 1 << 60, 1 << 61, 1<<62 - 1, 1 << 62, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 15, math.MinInt64, -2, -4, -16, -(1 << 40)}

func hostileInt(r *rand.Rand, old int) int {
	switch r.IntN(4) {
	case 0:
		return old + r.IntN(9) - 4
	case 1:
		return old - 1 - r.IntN(3)*r.IntN(20)
	}
	return hostileInts[r.IntN(len(hostileInts))]
}

func c15(t *T, memory bool) {
	d := newAccDoc(t)
	var rd *reader
	c, a := combo(t.R.IntN(42))
	if t.R.IntN(2) == 0 {
		rd = &readers[t.R.IntN(len(readers))]
		if t.R.IntN(5) > 0 {
			c, a = rd.comps[t.R.IntN(len(rd.comps))], rd.types[t.R.IntN(len(rd.types))]
		}
	}
	n := t.R.IntN(8)
	acr, _, _ := d.accessorForm(c, a, n, true, form{noView: t.R.IntN(6) == 0, sparse: n > 0 && t.R.IntN(2) == 0, strided: t.R.IntN(2) == 0, offset: t.R.IntN(2) == 0}, nil)
	d.finish()
	doc := d.doc
	r := t.R
	var muts []string
	mut := func() {
		view := func() *gltf.BufferView {
			if len(doc.BufferViews) == 0 {
				return nil
			}
			return doc.BufferViews[r.IntN(len(doc.BufferViews))]
		}
		k := r.IntN(17)
		v := view()
		set := func(name string, p *int) {
			x := hostileInt(r, *p)
			muts = append(muts, fmt.Sprintf("%s %d->%d", name, *p, x))
			*p = x
		}
		switch {
		case k == 0:
			set("count", &acr.Count)
		case k == 1:
			set("accessor offset", &acr.ByteOffset)
		case k == 2 && acr.BufferView != nil:
			x := *acr.BufferView
			acr.BufferView = &x
			set("view index", acr.BufferView)
		case k == 3 && v != nil:
			set("view buffer", &v.Buffer)
		case k == 4 && v != nil:
			set("view offset", &v.ByteOffset)
		case k == 5 && v != nil:
			set("view length", &v.ByteLength)
		case k == 6 && v != nil:
			set("view stride", &v.ByteStride)
		case k == 7 && acr.Sparse != nil:
			set("sparse count", &acr.Sparse.Count)
		case k == 8 && acr.Sparse != nil:
			set("indices view", &acr.Sparse.Indices.BufferView)
		case k == 9 && acr.Sparse != nil:
			set("indices offset", &acr.Sparse.Indices.ByteOffset)
		case k == 10 && acr.Sparse != nil:
			set("values view", &acr.Sparse.Values.BufferView)
		case k == 11 && acr.Sparse != nil:
			set("values offset", &acr.Sparse.Values.ByteOffset)
		case k == 12 && acr.Sparse != nil:
			acr.Sparse.Indices.ComponentType = gltf.ComponentType(r.IntN(9))
			muts = append(muts, "indices type")
		case k == 13 && r.IntN(2) == 0:
			acr.ComponentType = gltf.ComponentType([]int{0, 1, 2, 3, 4, 5, 6, 200}[r.IntN(8)])
			muts = append(muts, "component type")
		case k == 13:
			acr.Type = gltf.AccessorType([]int{0, 1, 2, 3, 4, 5, 6, 7, 200}[r.IntN(9)])
			muts = append(muts, "accessor type")
		case k == 14 && len(doc.BufferViews) > 0:
			doc.BufferViews[r.IntN(len(doc.BufferViews))] = nil
			muts = append(muts, "null view")
		case k == 15:
			i := r.IntN(len(doc.Buffers))
			switch r.IntN(3) {
			case 0:
				doc.Buffers[i] = nil
			case 1:
				if doc.Buffers[i] != nil {
					doc.Buffers[i].Data = nil
				}
			default:
				if b := doc.Buffers[i]; b != nil && len(b.Data) > 0 {
					b.Data = b.Data[:r.IntN(len(b.Data))]
				}
			}
			muts = append(muts, "buffer")
		case k == 16 && acr.Sparse != nil && r.IntN(2) == 0: // index beyond the count
			acr.Count = r.IntN(max(acr.Count, 0)&0xffff + 1)
			muts = append(muts, "count below sparse indices")
		case k == 16: // everything at the edge of what fits
			acr.Count = acr.Count + 1 + r.IntN(2)
			muts = append(muts, "count+")
		}
	}
	for k := 1 + r.IntN(3)*r.IntN(2); k > 0; k-- {
		mut()
	}
	if acr.BufferView == nil && acr.Count > 1<<16 {
		acr.Count = 1 << 16
	}
	t.Note("mutations", muts)
	t.Note("accessor", fmt.Sprintf("%v %v count %d offset %d view %v sparse %+v", acr.ComponentType, acr.Type, acr.Count, acr.ByteOffset, deref(acr.BufferView), acr.Sparse))
	for i, v := range doc.BufferViews {
		if v != nil {
			t.Note(fmt.Sprintf("view%d", i), fmt.Sprintf("%+v", *v))
		}
	}
	total := 0
	for i, b := range doc.Buffers {
		if b != nil {
			t.Note(fmt.Sprintf("buffer%d", i), len(b.Data))
			total += len(b.Data)
		}
	}
	if acr.Count > 1<<20 {
		t.Hit("count_big")
	}
	want, v := refAccessor(doc, acr)
	var got any
	var err error
	size := 64
	if knownType(acr.ComponentType, acr.Type) {
		size = elemSize(acr.ComponentType, acr.Type)
	}
	if memory {
		n := allocated(func() { got, err = modeler.ReadAccessor(doc, acr, nil) })
		limit := uint64(1<<20) + 64*uint64(total)
		if acr.BufferView == nil && acr.Count > 0 {
			limit += uint64(acr.Count) * uint64(size) * 4
		}
		if n > limit {
			t.Failf("ReadAccessor allocated %d bytes for %d bytes of data (count %d), error %v", n, total, acr.Count, err)
		}
		t.Hit("measured")
	} else {
		got, err = modeler.ReadAccessor(doc, acr, dirtyBytes(r, 64))
	}
	judge := func(what string, err error) bool {
		switch {
		case v == mustFail && err == nil:
			t.Failf("%s of a malformed document succeeds (%v)", what, muts)
		case v == mustRead && err != nil:
			t.Failf("%s of a readable accessor fails: %v (%v)", what, err, muts)
		}
		return err == nil
	}
	if judge("ReadAccessor", err) {
		g := reflect.ValueOf(got)
		if g.Len() != acr.Count {
			t.Failf("ReadAccessor returns %d elements, the count is %d", g.Len(), acr.Count)
		}
		if want.IsValid() {
			if e := sameBits(g, want); e != nil {
				t.Failf("ReadAccessor: %v (%v)", e, muts)
			}
		}
	}
	switch v {
	case mustFail:
		t.Hit("must_fail")
	case mustRead:
		t.Hit("must_read")
	}
	for i := range readers {
		x := &readers[i]
		if x != rd && r.IntN(8) > 0 {
			continue
		}
		var out any
		var err error
		call := func() { out, err = x.call(doc, acr, dirtyElems(r, x.out, 8)) }
		if memory {
			n := allocated(call)
			limit := uint64(1<<20) + 256*uint64(total)
			if acr.BufferView == nil && acr.Count > 0 {
				limit += uint64(acr.Count) * uint64(size) * 16
			}
			if n > limit {
				t.Failf("%s allocated %d bytes for %d bytes of data (count %d)", x.name, n, total, acr.Count)
			}
		} else {
			call()
		}
		t.Hit("typed")
		if !x.accepts(acr.ComponentType, acr.Type) {
			if err == nil {
				t.Failf("%s accepts %v %v", x.name, acr.ComponentType, acr.Type)
			}
			continue
		}
		if judge(x.name, err) {
			if o := reflect.ValueOf(out); o.Len() != acr.Count {
				t.Failf("%s returns %d elements, the count is %d", x.name, o.Len(), acr.Count)
			}
		}
	}
	for i, bv := range doc.BufferViews {
		w, ok := refView(doc, bv)
		b, err := modeler.ReadBufferView(doc, bv)
		if ok != (err == nil) {
			t.Failf("ReadBufferView %d: %v, inside the buffer: %v", i, err, ok)
		}
		if ok && !bytes.Equal(b, w) {
			t.Failf("ReadBufferView %d: wrong bytes", i)
		}
		if !ok {
			t.Hit("view_errors")
		}
	}
	t.Key(fmt.Sprint(muts), acr.Count, t.I)
	t.Sample(func() string { return fmt.Sprint(muts) })
}

// c17 is a history of reads.
// changeDoc changes the bytes or the layout of a buffer, unless the change is not ok.
func changeDoc(t *T, doc *gltf.Document, ok func() bool) string {
	if len(doc.Buffers) == 0 {
		return "nothing"
	}
	i := t.R.IntN(len(doc.Buffers))
	b := doc.Buffers[i]
	old := b.Data
	if t.R.IntN(3) == 0 { // move everything
		k := 4 * (1 + t.R.IntN(3))
		b.Data = append(bytes.Repeat([]byte{0x5a}, k), old...)
		b.ByteLength = len(b.Data)
		for _, v := range doc.BufferViews {
			if v.Buffer == i {
				v.ByteOffset += k
			}
		}
		return "bytes moved"
	}
	what := "bytes changed in place"
	if t.R.IntN(2) == 0 {
		b.Data = append([]byte{}, old...)
		what = "bytes replaced"
	}
	for n := 1 + t.R.IntN(6); n > 0 && len(old) > 0; n-- {
		at := t.R.IntN(len(old))
		was := b.Data[at]
		b.Data[at] = byte(t.R.IntN(256))
		if !ok() { // e.g. sparse indices that are too large
			b.Data[at] = was
		}
	}
	return what
}

func c17(t *T) {
	type item struct {
		acr  *gltf.Accessor
		want reflect.Value
		desc string
	}
	d := newAccDoc(t)
	var items []item
	for k := 4 + t.R.IntN(6); k > 0; k-- {
		c, a := combo(t.R.IntN(42))
		if t.R.IntN(2) == 0 {
			rd := readers[t.R.IntN(len(readers))]
			c, a = rd.comps[t.R.IntN(len(rd.comps))], rd.types[t.R.IntN(len(rd.types))]
		}
		n := countFor(t.R, elemSize(c, a))
		if t.R.IntN(4) == 0 { // just within a power of two
			m := max(1, (1<<(8+t.R.IntN(4)))/elemSize(c, a))
			n = m - t.R.IntN(m/4+1)
		}
		if t.R.IntN(12) == 0 {
			n = 2000 + t.R.IntN(3000) // beyond the pooled sizes
			t.Hit("pool_big")
		}
		acr, want, f := d.accessor(c, a, n, true)
		if c == gltf.ComponentFloat && (a == gltf.AccessorVec3 || a == gltf.AccessorVec4) {
			// Out of range colours are not claimed, they are not read as colours.
		}
		items = append(items, item{acr, want, fmt.Sprintf("%v %v %d (%v)", c, a, n, f)})
	}
	d.finish()
	doc := d.doc
	for i, it := range items {
		if s := it.acr.Sparse; s != nil && t.R.IntN(3) == 0 { // the same element several times
			n := compSize[s.Indices.ComponentType]
			v := doc.BufferViews[s.Indices.BufferView]
			b := doc.Buffers[v.Buffer].Data[v.ByteOffset+s.Indices.ByteOffset:]
			for k := 1; k < s.Count; k++ {
				if t.R.IntN(2) == 0 {
					copy(b[k*n:(k+1)*n], b[(k-1)*n:k*n])
				}
			}
			items[i].want, _ = refAccessor(doc, it.acr)
			items[i].desc += " repeated indices"
			t.Hit("repeated_indices")
		}
	}
	bad := &gltf.Accessor{ComponentType: gltf.ComponentFloat, Type: gltf.AccessorVec3, Count: 1 << 30, BufferView: gltf.Index(0)}
	if len(doc.BufferViews) == 0 {
		bad.BufferView = gltf.Index(99)
	}
	badSparse := &gltf.Accessor{ComponentType: gltf.ComponentUshort, Type: gltf.AccessorScalar, Count: 3, Sparse: &gltf.Sparse{Count: 2, Indices: gltf.SparseIndices{BufferView: 0, ComponentType: gltf.ComponentUbyte}, Values: gltf.SparseValues{BufferView: 77}}}
	snapshot := deepCopyDoc(doc)

	type kept struct {
		what string
		got  reflect.Value
		want reflect.Value
	}
	var keep []kept
	var lastBytes [][]byte                // byte buffers that the caller reuses
	typedBufs := map[reflect.Type][]any{} // typed buffers that the caller reuses
	var hist []string
	for step := 12 + t.R.IntN(30); step > 0; step-- {
		if t.R.IntN(10) == 0 { // the caller changes the document
			what := changeDoc(t, doc, func() bool {
				for _, it := range items {
					if it.acr.Sparse == nil { // no bytes make it malformed
						continue
					}
					if _, v := refAccessor(doc, it.acr); v != mustRead {
						return false
					}
				}
				return true
			})
			if t.R.IntN(4) == 0 {
				if a := items[t.R.IntN(len(items))].acr; a.Sparse == nil && a.Count > 1 {
					a.Count -= 1 + t.R.IntN(a.Count-1)
					what += ", fewer elements in an accessor"
				}
			}
			for i := range items {
				items[i].want, _ = refAccessor(doc, items[i].acr)
			}
			snapshot = deepCopyDoc(doc)
			hist = append(hist, "the caller changed the document: "+what)
			t.Hit("document_changed")
		}
		it := items[t.R.IntN(len(items))]
		acr := it.acr
		if t.R.IntN(10) == 0 {
			b := bad
			if t.R.IntN(2) == 0 {
				b = badSparse
			}
			if _, err := modeler.ReadAccessor(doc, b, nil); err == nil {
				t.Failf("a malformed accessor was read")
			}
			modeler.ReadNormal(doc, b, nil)
			modeler.ReadIndices(doc, b, nil)
			t.Hit("failing")
			hist = append(hist, "failing read")
		}
		var rd *reader
		if t.R.IntN(2) == 0 {
			for _, k := range t.R.Perm(len(readers)) {
				x := &readers[k]
				if x.accepts(acr.ComponentType, acr.Type) && !(acr.ComponentType == gltf.ComponentFloat && (x.name == "ReadColor" || x.name == "ReadColor64")) {
					rd = x
					break
				}
			}
		}
		if acr.Count == 0 {
			t.Hit("empty")
		}
		t.Hit("reads")
		if rd == nil {
			// Untyped.
			var buf []byte
			how := "nil buffer"
			own := true
			switch t.R.IntN(4) {
			case 0:
			case 1, 2:
				buf = dirtyBytes(t.R, acr.Count*elemSize(acr.ComponentType, acr.Type))
				how = fmt.Sprintf("own buffer %d/%d", len(buf), cap(buf))
			case 3:
				if len(lastBytes) > 0 {
					buf = lastBytes[t.R.IntN(len(lastBytes))]
					buf = buf[:t.R.IntN(cap(buf)+1)]
					how = fmt.Sprintf("reused buffer %d/%d", len(buf), cap(buf))
					own = false
					t.Hit("reused")
				}
			}
			if own && buf != nil && t.R.IntN(2) == 0 {
				lastBytes = append(lastBytes, buf)
				own = false
			}
			hist = append(hist, fmt.Sprintf("ReadAccessor %s with %s", it.desc, how))
			t.Note("history", hist)
			got, err := modeler.ReadAccessor(doc, acr, buf)
			if err != nil {
				t.Failf("ReadAccessor %s with %s: %v", it.desc, how, err)
			}
			v := reflect.ValueOf(got)
			if err := sameBits(v, it.want); err != nil {
				t.Failf("ReadAccessor %s with %s: %v", it.desc, how, err)
			}
			if t.R.IntN(3) == 0 { // the caller changes the result
				for i := 0; i < v.Len(); i++ {
					fillOnes(v.Index(i))
				}
				t.Hit("overwritten")
			} else if own {
				keep = append(keep, kept{hist[len(hist)-1], v, it.want})
			}
			continue
		}
		var buf any
		how := "nil buffer"
		own := true
		switch t.R.IntN(4) {
		case 0:
		case 1, 2:
			buf = dirtyElems(t.R, rd.out, acr.Count)
			how = "own buffer"
		case 3:
			if l := typedBufs[rd.out]; len(l) > 0 {
				buf = l[t.R.IntN(len(l))]
				own = false
				how = "reused buffer"
				t.Hit("reused")
			}
		}
		if buf != nil {
			how += fmt.Sprintf(" %d/%d", reflect.ValueOf(buf).Len(), reflect.ValueOf(buf).Cap())
		}
		if own && buf != nil && t.R.IntN(2) == 0 {
			typedBufs[rd.out] = append(typedBufs[rd.out], buf)
			own = false
		}
		hist = append(hist, fmt.Sprintf("%s %s with %s", rd.name, it.desc, how))
		t.Note("history", hist)
		got, err := rd.call(doc, acr, buf)
		if err != nil {
			t.Failf("%s %s with %s: %v", rd.name, it.desc, how, err)
		}
		v := reflect.ValueOf(got)
		if v.Len() != acr.Count {
			t.Failf("%s %s with %s: %d elements", rd.name, it.desc, how, v.Len())
		}
		fresh, err := rd.call(snapshot, acr, nil)
		if err != nil {
			t.Failf("%s %s without buffer: %v", rd.name, it.desc, err)
		}
		if err := sameBits(v, reflect.ValueOf(fresh)); err != nil {
			t.Failf("%s %s with %s differs from the read without buffer: %v", rd.name, it.desc, how, err)
		}
		if !(rd.name == "ReadColor" && acr.ComponentType == gltf.ComponentUshort) { // C16's finding
			for i := 0; i < v.Len(); i++ {
				rd.convert(t, acr.ComponentType, it.want.Index(i), v.Index(i))
			}
		}
		cp := reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, v.Len()), v)
		if t.R.IntN(3) == 0 {
			full := v.Slice(0, v.Len())
			for i := 0; i < full.Len(); i++ {
				fillOnes(full.Index(i))
			}
			t.Hit("overwritten")
		} else if own {
			keep = append(keep, kept{hist[len(hist)-1], v, cp})
		}
	}
	for _, k := range keep {
		if err := sameBits(k.got, k.want); err != nil {
			t.Failf("the result of %s changed later: %v", k.what, err)
		}
		t.Hit("rechecked")
	}
	if !reflect.DeepEqual(doc, snapshot) {
		t.Failf("reading or changing results changed the document")
	}
	t.Key(fmt.Sprint(hist))
	t.Sample(func() string { return fmt.Sprint(hist[:min(4, len(hist))]) })
}
