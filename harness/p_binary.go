package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"unsafe"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
)

var typeNames = map[gltf.AccessorType]string{gltf.AccessorScalar: "Scalar", gltf.AccessorVec2: "Vec2", gltf.AccessorVec3: "Vec3", gltf.AccessorVec4: "Vec4", gltf.AccessorMat2: "Mat2", gltf.AccessorMat3: "Mat3", gltf.AccessorMat4: "Mat4"}
var components = map[gltf.ComponentType]any{gltf.ComponentByte: binary.Byte, gltf.ComponentUbyte: binary.Ubyte, gltf.ComponentShort: binary.Short, gltf.ComponentUshort: binary.Ushort, gltf.ComponentUint: binary.Uint, gltf.ComponentFloat: binary.Float}

// guarded returns a window of n bytes inside an array filled with random
// bytes, and a function that reports changes outside the window (guards) and of
// the bytes of the window not in m.
func guarded(t *T, n int) (w []byte, check func(what string, m []bool)) {
	const g = 96
	lead := g + t.R.IntN(8)
	all := make([]byte, lead+n+g)
	for i := range all {
		all[i] = byte(t.R.Uint32())
	}
	before := append([]byte{}, all...)
	w = all[lead : lead+n]
	if t.R.IntN(2) == 0 {
		w = all[lead : lead+n : lead+n]
	}
	return w, func(what string, m []bool) {
		for i := range all {
			if all[i] != before[i] {
				k := i - lead
				if k < 0 || k >= n {
					t.Failf("%s changed the byte %d, %d past the %d bytes offered", what, k, k-n, n)
				}
				if m == nil || !m[k] {
					t.Failf("%s changed byte %d, which is not of a component", what, k)
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "C12", QuickMul: 14, DeepMul: 4, Level: "exploration",
		Rule:   "all 42 layouts and the colour structs, with random bit patterns (all 8- and 16-bit values exhaustively), counts, strides and slack, written to and read from windows between guard bytes and compared with an independent layout table; also in a build with the race detector and pointer checks; distinct by (layout, count, stride, slack, contents)",
		Assume: []string{"strides are 0 or at least the (padded) element size", "whether the bytes between the last component and the padded end of the last element must exist is not claimed"},
		Need:   map[string]int{"write": 4000, "read": 4000, "short_read": 1000, "short_write": 1000, "short_many": 40, "exact": 2000, "component": 2000, "colors": 200, "strided": 1000, "nan": 100, "values8": 256, "values16": 65536, "large": 10}, MinKeys: 2000,
		Families: []Family{
			{Name: "layout", Quick: 42 * 150, Thorough: 42 * 12000, Race: true, RaceQuick: 42 * 15, RaceThorough: 42 * 600, Run: func(t *T) {
				c, a := combo(t.I)
				n := []int{0, 1, 1, 2, 3, 5, 8, 17}[t.R.IntN(8)]
				if t.R.IntN(30) == 0 {
					n = 100 + t.R.IntN(500)
				} else if t.R.IntN(400) == 0 { // more than 16 bits can tell
					n = edgeLen(t.R, 16, 17)
					t.Hit("large")
				}
				size := elemSize(c, a)
				stride := strideFor(t.R, size, n)
				data := randElems(t.R, c, a, n, false)
				nb := need(stride, n, c, a)
				slack := t.R.IntN(3) * t.R.IntN(40)
				t.Note("layout", fmt.Sprintf("%v %v count=%d stride=%d slack=%d", c, a, n, stride, slack))
				t.Note("data", data.Interface())
				if stride > size {
					t.Hit("strided")
				}
				if slack == 0 {
					t.Hit("exact")
				}
				// Write.
				w, check := guarded(t, nb+slack)
				want := append([]byte{}, w...)
				refWrite(want, stride, c, a, data)
				if err := binary.Write(w, stride, data.Interface()); err != nil {
					t.Failf("%v %v: writing %d elements with stride %d to %d bytes (%d needed): %v", c, a, n, stride, len(w), nb, err)
				}
				if !bytes.Equal(w, want) {
					t.Failf("%v %v: %d elements with stride %d are stored as %x, want %x", c, a, n, stride, clip(w, 200), clip(want, 200))
				}
				check("Write", mask(len(w), stride, c, a, n))
				t.Hit("write")
				// Read what was written.
				got := reflect.MakeSlice(data.Type(), n, n)
				if err := binary.Read(w, stride, got.Interface()); err != nil {
					t.Failf("%v %v: reading %d elements with stride %d from %d bytes (%d needed): %v", c, a, n, stride, len(w), nb, err)
				}
				if err := sameBits(got, data); err != nil {
					t.Failf("%v %v: stride %d: read back: %v", c, a, stride, err)
				}
				if c == gltf.ComponentFloat {
					t.Hit("nan")
				}
				// Read random bytes.
				r, rcheck := guarded(t, nb+slack)
				before := append([]byte{}, r...)
				exp := refRead(r, stride, c, a, n)
				back := randElems(t.R, c, a, n, false) // dirty destination
				if err := binary.Read(r, stride, back.Interface()); err != nil {
					t.Failf("%v %v: read: %v", c, a, err)
				}
				if err := sameBits(back, exp); err != nil {
					t.Failf("%v %v: stride %d: reading random bytes: %v", c, a, stride, err)
				}
				rcheck("Read", nil)
				if !bytes.Equal(before, r) {
					t.Failf("Read changed its source")
				}
				t.Hit("read")
				t.Key(c, a, n, stride, slack, want)
				t.Sample(func() string { return fmt.Sprintf("%v %v count=%d stride=%d slack=%d", c, a, n, stride, slack) })
			}},
			{Name: "short", Quick: 42 * 60, Thorough: 42 * 4000, Race: true, RaceQuick: 42 * 8, RaceThorough: 42 * 200, Run: func(t *T) {
				c, a := combo(t.I)
				n := 1 + t.R.IntN(6)
				if t.I%240 < 2 { // many elements
					n = 1<<(8+t.R.IntN(9)) + t.R.IntN(5)
					if t.R.IntN(2) == 0 {
						n = 1<<16 + 1 + t.R.IntN(300)
					}
					t.Hit("short_many")
				}
				size := elemSize(c, a)
				stride := strideFor(t.R, size, n)
				st := stride
				if st == 0 {
					st = size
				}
				tight := (n-1)*st + tightSize(c, a)
				full := need(stride, n, c, a)
				l := t.R.IntN(tight)
				switch t.R.IntN(4) {
				case 0:
					l = tight - 1
				case 1:
					l = (n - 1) * st
				case 2:
					if n > 1<<16 { // enough for the low bits of the count
						l = max(0, min(tight-1, tight-t.R.IntN(2)-(1<<16)*st))
					}
				}
				if t.R.IntN(6) == 0 && full > tight { // the optional padding
					l = tight + t.R.IntN(full-tight)
				}
				what := fmt.Sprintf("%v %v: %d elements, stride %d, %d of %d bytes", c, a, n, stride, l, tight)
				data := randElems(t.R, c, a, n, false)
				w, check := guarded(t, l)
				src := append([]byte{}, w...)
				err := binary.Write(w, stride, data.Interface())
				if l < tight && !errors.Is(err, io.ErrShortBuffer) {
					t.Failf("writing %s: %v, want a short buffer error", what, err)
				}
				m := mask(l+full, stride, c, a, n)
				check("a failing Write", m[:l])
				if err == nil {
					exp := append([]byte{}, src...)
					exp = append(exp, make([]byte, full)...)
					refWrite(exp, stride, c, a, data)
					if !bytes.Equal(w, exp[:l]) {
						t.Failf("writing %s: wrong bytes", what)
					}
				}
				t.Hit("short_write")
				r, rcheck := guarded(t, l)
				got := reflect.MakeSlice(data.Type(), n, n)
				err = binary.Read(r, stride, got.Interface())
				if l < tight && !errors.Is(err, io.ErrShortBuffer) {
					t.Failf("reading %s: %v, want a short buffer error", what, err)
				}
				if err == nil {
					if e := sameBits(got, refRead(r, stride, c, a, n)); e != nil {
						t.Failf("reading %s: %v", what, e)
					}
				}
				rcheck("Read", nil)
				t.Hit("short_read")
				t.Key(c, a, n, stride, l)
			}},
			{Name: "component", Quick: 42 * 60, Thorough: 42 * 3000, Race: true, RaceQuick: 42 * 5, RaceThorough: 42 * 100, Run: func(t *T) {
				c, a := combo(t.I)
				v := reflect.ValueOf(components[c])
				get, put := v.MethodByName(typeNames[a]), v.MethodByName("Put"+typeNames[a])
				n := elemSize(c, a) + t.R.IntN(2)*t.R.IntN(9)
				w, check := guarded(t, n)
				data := randElems(t.R, c, a, 1, false)
				want := append([]byte{}, w...)
				refWrite(want, 0, c, a, data)
				put.Call([]reflect.Value{reflect.ValueOf(w), data.Index(0)})
				if !bytes.Equal(w, want) {
					t.Failf("%T.Put%s stores %v as %x, want %x", components[c], typeNames[a], data.Index(0).Interface(), w, want)
				}
				check("Put"+typeNames[a], mask(n, 0, c, a, 1))
				r, rcheck := guarded(t, n)
				out := get.Call([]reflect.Value{reflect.ValueOf(r)})[0]
				if exp := refRead(r, 0, c, a, 1).Index(0); !eqBits(out, exp) {
					t.Failf("%T.%s reads %x as %v, want %v", components[c], typeNames[a], r, out.Interface(), exp.Interface())
				}
				rcheck(typeNames[a], nil)
				t.Hit("component")
				t.Key(c, a, want)
			}},
			{Name: "colors", Quick: 300, Thorough: 20000, Race: true, RaceQuick: 50, RaceThorough: 500, Run: func(t *T) {
				n := t.R.IntN(9)
				wide := t.I%2 == 0
				data := randColors(t.R, n, wide)
				vecs, c := asVec4(data)
				stride := strideFor(t.R, elemSize(c, gltf.AccessorVec4), n)
				nb := need(stride, n, c, gltf.AccessorVec4)
				w, check := guarded(t, nb)
				want := append([]byte{}, w...)
				refWrite(want, stride, c, gltf.AccessorVec4, vecs)
				if err := binary.Write(w, stride, data); err != nil {
					t.Failf("%T: %v", data, err)
				}
				if !bytes.Equal(w, want) {
					t.Failf("%T %v is stored as %x, want %x", data, data, w, want)
				}
				check("Write", mask(len(w), stride, c, gltf.AccessorVec4, n))
				back := randColors(t.R, n, wide)
				if err := binary.Read(w, stride, back); err != nil || !reflect.DeepEqual(back, data) {
					t.Failf("%T read back: %v, %v, want %v", data, err, back, data)
				}
				if n > 0 && nb > 0 {
					l := t.R.IntN(nb)
					if err := binary.Read(w[:l:l], stride, back); !errors.Is(err, io.ErrShortBuffer) {
						t.Failf("reading %d %T of stride %d from %d bytes: %v", n, data, stride, l, err)
					}
					if err := binary.Write(w[:l:l], stride, back); !errors.Is(err, io.ErrShortBuffer) {
						t.Failf("writing %d %T of stride %d to %d bytes: %v", n, data, stride, l, err)
					}
				}
				t.Hit("colors")
				t.Key(wide, n, stride, want)
			}},
			{Name: "values", Quick: 24, Thorough: 168, Run: func(t *T) { // every 8- and 16-bit value, at every component
				cs := []gltf.ComponentType{gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort}
				c, a := cs[t.I%4], allTypes[t.I/4%7]
				n := 1 << (8 * compSize[c])
				data := reflect.MakeSlice(reflect.SliceOf(goType(c, a)), n, n)
				for i := 0; i < n; i++ {
					for k, p := range layoutOf(c, a) {
						var b [2]byte
						x := i + k*251
						b[0], b[1] = byte(x), byte(x>>8)
						getLeaf(b[:], leaf(data.Index(i), a, p))
					}
				}
				stride := 0
				if t.I >= 28 {
					stride = strideFor(t.R, elemSize(c, a), n)
				}
				buf := make([]byte, need(stride, n, c, a))
				if err := binary.Write(buf, stride, data.Interface()); err != nil {
					t.Failf("%v %v: %v", c, a, err)
				}
				want := make([]byte, len(buf))
				refWrite(want, stride, c, a, data)
				if !bytes.Equal(buf, want) {
					t.Failf("%v %v: some value is stored wrong", c, a)
				}
				got := reflect.MakeSlice(data.Type(), n, n)
				if err := binary.Read(buf, stride, got.Interface()); err != nil {
					t.Failf("%v %v: %v", c, a, err)
				}
				if err := sameBits(got, data); err != nil {
					t.Failf("%v %v: %v", c, a, err)
				}
				if compSize[c] == 1 {
					t.HitN("values8", n)
				} else {
					t.HitN("values16", n)
				}
				t.Eval(n)
				t.Key(c, a, "values", stride)
			}},
		},
	})

	register(&Prop{
		ID: "C13", QuickMul: 30, DeepMul: 10, Level: "exploration",
		Rule:   "all 42 combinations x counts x backing buffers (nil, empty, shorter, equal, longer, spare capacity, any alignment), stores to the whole slice and its capacity between guard bytes; also in a build with the race detector and pointer checks; distinct by (combination, count, buffer length, capacity, alignment)",
		Assume: []string{"counts are not negative"},
		Need:   map[string]int{"nil": 300, "shorter": 300, "fits": 300, "larger": 300, "capacity": 300, "unknown": 100, "make": 1000, "backed": 300, "alone": 300}, MinKeys: 2000,
		Families: []Family{
			{Name: "slices", Quick: 42 * 150, Thorough: 42 * 15000, Race: true, RaceQuick: 42 * 30, RaceThorough: 42 * 800, Run: func(t *T) {
				c, a := combo(t.I)
				n := []int{0, 1, 2, 3, 7, 20}[t.R.IntN(6)]
				if t.R.IntN(20) == 0 {
					n = t.R.IntN(3000)
					if t.R.IntN(20) == 0 {
						n = edgeLen(t.R, 12, 17)
					}
				}
				elem := goType(c, a)
				esz := int(elem.Size())
				want := reflect.SliceOf(elem)
				check := func(what string, got any, err error) reflect.Value {
					if err != nil {
						t.Failf("%s: %v", what, err)
					}
					v := reflect.ValueOf(got)
					if v.Type() != want {
						t.Failf("%s: type %v, want %v", what, v.Type(), want)
					}
					if v.Len() != n {
						t.Failf("%s: %d elements, want %d", what, v.Len(), n)
					}
					c2, a2, n2 := binary.Type(got)
					if c2 != c || a2 != a || n2 != n {
						t.Failf("%s: Type is %v %v %d, want %v %v %d", what, c2, a2, n2, c, a, n)
					}
					return v
				}
				zero := func(what string, v reflect.Value) {
					for i := 0; i < v.Len(); i++ {
						if !v.Index(i).IsZero() {
							t.Failf("%s: element %d is %v, want zero", what, i, v.Index(i).Interface())
						}
					}
				}
				got, err := binary.MakeSlice(c, a, n)
				zero("MakeSlice", check(fmt.Sprintf("MakeSlice(%v, %v, %d)", c, a, n), got, err))
				t.Hit("make")

				// A buffer between guards.
				kind := t.R.IntN(6)
				var l, cp int
				switch kind {
				case 0:
					t.Hit("nil")
				case 1:
					l = t.R.IntN(esz*n + 1)
					cp = l
					t.Hit("shorter")
				case 2:
					l, cp = esz*n, esz*n
					t.Hit("fits")
				case 3:
					l = esz*n + 1 + t.R.IntN(2*esz)
					cp = l
					t.Hit("larger")
				case 4:
					l = t.R.IntN(esz*n + esz)
					cp = l + t.R.IntN(esz*n+2*esz)
					t.Hit("capacity")
				case 5:
					l, cp = 0, t.R.IntN(esz*n+2*esz)
					t.Hit("capacity")
				}
				const g = 128
				lead := g + t.R.IntN(16)
				all := make([]byte, lead+cp+g)
				for i := range all {
					all[i] = byte(t.R.Uint32()) | 1
				}
				before := append([]byte{}, all...)
				var buf []byte
				if kind != 0 && t.R.IntN(3) == 0 && cp > 0 {
					// An allocation of its own, to let the pointer checks see its end.
					all, before, lead = make([]byte, cp), make([]byte, cp), 0
					buf = all[:l]
					t.Hit("alone")
				} else if kind != 0 {
					buf = all[lead : lead+l : lead+cp]
				} else if t.R.IntN(2) == 0 {
					buf = []byte{}
				}
				what := fmt.Sprintf("MakeSliceBuffer(%v, %v, %d, len %d cap %d align %d)", c, a, n, l, cp, lead%8)
				got, err = binary.MakeSliceBuffer(c, a, n, buf)
				v := check(what, got, err)
				if cp == 0 {
					zero(what, v)
				}
				if n > 0 && cp >= n*esz && cp > 0 {
					p := uintptr(v.UnsafePointer())
					lo := uintptr(unsafe.Pointer(&all[lead]))
					if p < lo || p+uintptr(n*esz) > lo+uintptr(cp) {
						t.Failf("%s: the buffer is not used as backing memory", what)
					}
					t.Hit("backed")
				}
				// Store to everything that can be reached.
				ones := refRead(bytes.Repeat([]byte{0x5a}, elemSize(c, a)), 0, c, a, 1).Index(0)
				full := v.Slice(0, v.Cap())
				for i := 0; i < full.Len(); i++ {
					full.Index(i).Set(ones)
				}
				for i := range all {
					if all[i] != before[i] && (i < lead || i >= lead+cp) {
						t.Failf("%s: storing to the slice changes byte %d of a buffer of capacity %d", what, i-lead, cp)
					}
				}
				for i := 0; i < v.Len(); i++ {
					if !eqBits(v.Index(i), ones) {
						t.Failf("%s: element %d does not keep its value", what, i)
					}
				}
				t.Key(c, a, n, l, cp, lead%8)
				t.Sample(func() string { return what })
			}},
			{Name: "unknown", Quick: 300, Thorough: 5000, Run: func(t *T) {
				c, a := gltf.ComponentType(t.R.IntN(20)), gltf.AccessorType(t.R.IntN(20))
				if t.R.IntN(4) == 0 {
					c = gltf.ComponentType([]int{255, 5120, 5126, 6, 100}[t.R.IntN(5)])
				}
				if t.R.IntN(4) == 0 {
					a = gltf.AccessorType([]int{255, 7, 100}[t.R.IntN(3)])
				}
				known := false
				for _, x := range allComps {
					for _, y := range allTypes {
						known = known || x == c && y == a
					}
				}
				n := t.R.IntN(4)
				v, err := binary.MakeSlice(c, a, n)
				v2, err2 := binary.MakeSliceBuffer(c, a, n, make([]byte, t.R.IntN(100)))
				if known != (err == nil) || known != (err2 == nil) {
					t.Failf("component type %d, accessor type %d: errors %v, %v", c, a, err, err2)
				}
				if !known {
					if v != nil || v2 != nil {
						t.Failf("component type %d, accessor type %d: %v, %v with an error", c, a, v, v2)
					}
					t.Hit("unknown")
				}
				t.Key(c, a, n)
			}},
		},
	})
}
