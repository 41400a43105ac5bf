package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image/color"
	"math"
	"math/rand/v2"
	"reflect"
	"unsafe"

	"github.com/qmuntal/gltf"
)

// An independent description of how accessor elements are stored, taken from
// the glTF 2.0 specification (section 3.6.2) and not from the package.

var compKind = map[gltf.ComponentType]reflect.Type{
	gltf.ComponentByte: reflect.TypeFor[int8](), gltf.ComponentUbyte: reflect.TypeFor[uint8](), gltf.ComponentShort: reflect.TypeFor[int16](),
	gltf.ComponentUshort: reflect.TypeFor[uint16](), gltf.ComponentUint: reflect.TypeFor[uint32](), gltf.ComponentFloat: reflect.TypeFor[float32](),
}

func isMatrix(t gltf.AccessorType) bool {
	return t == gltf.AccessorMat2 || t == gltf.AccessorMat3 || t == gltf.AccessorMat4
}

// goType is the Go type of one element.
func goType(c gltf.ComponentType, t gltf.AccessorType) reflect.Type {
	k := compKind[c]
	sh := accShape[t]
	switch {
	case t == gltf.AccessorScalar:
		return k
	case isMatrix(t):
		return reflect.ArrayOf(sh[1], reflect.ArrayOf(sh[0], k))
	}
	return reflect.ArrayOf(sh[1], k)
}

// at is a component of an element: its place in the Go value and its offset in
// the stored bytes.
type at struct{ row, col, off int }

var layouts = func() map[[2]int][]at {
	m := map[[2]int][]at{}
	for _, c := range allComps {
		for _, t := range allTypes {
			sh, sz := accShape[t], compSize[c]
			var l []at
			for col := 0; col < sh[0]; col++ {
				for row := 0; row < sh[1]; row++ {
					o := row * sz
					if isMatrix(t) {
						o = col*round4(sh[1]*sz) + row*sz
					}
					l = append(l, at{row, col, o})
				}
			}
			m[[2]int{int(c), int(t)}] = l
		}
	}
	return m
}()

func layoutOf(c gltf.ComponentType, t gltf.AccessorType) []at { return layouts[[2]int{int(c), int(t)}] }

// tightSize is the number of bytes up to the last component.
func tightSize(c gltf.ComponentType, t gltf.AccessorType) int {
	l := layoutOf(c, t)
	return l[len(l)-1].off + compSize[c]
}

func leaf(e reflect.Value, t gltf.AccessorType, a at) reflect.Value {
	switch {
	case t == gltf.AccessorScalar:
		return e
	case isMatrix(t):
		return e.Index(a.row).Index(a.col)
	}
	return e.Index(a.row)
}

func putLeaf(b []byte, v reflect.Value) {
	switch v.Kind() {
	case reflect.Int8:
		b[0] = byte(v.Int())
	case reflect.Uint8:
		b[0] = byte(v.Uint())
	case reflect.Int16:
		binary.LittleEndian.PutUint16(b, uint16(v.Int()))
	case reflect.Uint16:
		binary.LittleEndian.PutUint16(b, uint16(v.Uint()))
	case reflect.Uint32:
		binary.LittleEndian.PutUint32(b, uint32(v.Uint()))
	case reflect.Float32:
		binary.LittleEndian.PutUint32(b, math.Float32bits(v.Interface().(float32)))
	default:
		infra("putLeaf: %v", v.Kind())
	}
}

func getLeaf(b []byte, v reflect.Value) {
	switch v.Kind() {
	case reflect.Int8:
		v.SetInt(int64(int8(b[0])))
	case reflect.Uint8:
		v.SetUint(uint64(b[0]))
	case reflect.Int16:
		v.SetInt(int64(int16(binary.LittleEndian.Uint16(b))))
	case reflect.Uint16:
		v.SetUint(uint64(binary.LittleEndian.Uint16(b)))
	case reflect.Uint32:
		v.SetUint(uint64(binary.LittleEndian.Uint32(b)))
	case reflect.Float32:
		*(v.Addr().Interface().(*float32)) = math.Float32frombits(binary.LittleEndian.Uint32(b))
	default:
		infra("getLeaf: %v", v.Kind())
	}
}

// refWrite stores the elements of data (a slice of glTF elements).
func refWrite(b []byte, stride int, c gltf.ComponentType, t gltf.AccessorType, data reflect.Value) {
	if stride == 0 {
		stride = elemSize(c, t)
	}
	l := layoutOf(c, t)
	for i := 0; i < data.Len(); i++ {
		for _, a := range l {
			putLeaf(b[i*stride+a.off:], leaf(data.Index(i), t, a))
		}
	}
}

// refRead returns n elements stored in b.
func refRead(b []byte, stride int, c gltf.ComponentType, t gltf.AccessorType, n int) reflect.Value {
	if stride == 0 {
		stride = elemSize(c, t)
	}
	l := layoutOf(c, t)
	out := reflect.MakeSlice(reflect.SliceOf(goType(c, t)), n, n)
	for i := 0; i < n; i++ {
		for _, a := range l {
			getLeaf(b[i*stride+a.off:], leaf(out.Index(i), t, a))
		}
	}
	return out
}

// mask returns, for n elements, which of the bytes belong to components.
func mask(total, stride int, c gltf.ComponentType, t gltf.AccessorType, n int) []bool {
	if stride == 0 {
		stride = elemSize(c, t)
	}
	m := make([]bool, total)
	for i := 0; i < n; i++ {
		for _, a := range layoutOf(c, t) {
			for k := 0; k < compSize[c]; k++ {
				m[i*stride+a.off+k] = true
			}
		}
	}
	return m
}

// need is the number of bytes that n elements take, padded elements.
func need(stride, n int, c gltf.ComponentType, t gltf.AccessorType) int {
	if n == 0 {
		return 0
	}
	sz := elemSize(c, t)
	if stride == 0 {
		stride = sz
	}
	return (n-1)*stride + sz
}

// sameBits compares two slices of elements bit by bit.
func sameBits(a, b reflect.Value) error {
	if a.Type() != b.Type() {
		return fmt.Errorf("%v differs from %v", a.Type(), b.Type())
	}
	if a.Len() != b.Len() {
		return fmt.Errorf("%d elements differ from %d", a.Len(), b.Len())
	}
	if n := a.Len(); n > 4 && a.Kind() == reflect.Slice && b.Kind() == reflect.Slice {
		size := n * int(a.Type().Elem().Size())
		if bytes.Equal(unsafe.Slice((*byte)(a.UnsafePointer()), size), unsafe.Slice((*byte)(b.UnsafePointer()), size)) {
			return nil
		}
	}
	for i := 0; i < a.Len(); i++ {
		if !eqBits(a.Index(i), b.Index(i)) {
			return fmt.Errorf("element %d: %v differs from %v", i, a.Index(i).Interface(), b.Index(i).Interface())
		}
	}
	return nil
}

func eqBits(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !eqBits(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Float32:
		return math.Float32bits(a.Interface().(float32)) == math.Float32bits(b.Interface().(float32))
	case reflect.Struct:
		return a.Interface() == b.Interface()
	}
	return a.Equal(b)
}

var f32bits = []uint32{0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 0x7fa55555, 1, 0x807fffff, 0x7f7fffff, 0xff7fffff, 0x00800000, 0x3f000000}

func randLeaf(r *rand.Rand, v reflect.Value, finite bool) {
	bits := r.Uint64()
	switch r.IntN(6) {
	case 0:
		bits = 0
	case 1:
		bits = math.MaxUint64
	case 2:
		bits = 0x8000800080008080
	case 3:
		bits = 0x7fff7fff7fff7f7f
	}
	switch v.Kind() {
	case reflect.Int8:
		v.SetInt(int64(int8(bits)))
	case reflect.Int16:
		v.SetInt(int64(int16(bits)))
	case reflect.Uint8:
		v.SetUint(bits & 0xff)
	case reflect.Uint16:
		v.SetUint(bits & 0xffff)
	case reflect.Uint32:
		v.SetUint(bits & 0xffffffff)
	case reflect.Float32:
		p := v.Addr().Interface().(*float32)
		switch {
		case finite:
			*p = float32(r.NormFloat64() * 10)
			if r.IntN(5) == 0 {
				*p = []float32{0, 1, -1, 1e30, -1e30, 1e-30, math.MaxFloat32, -math.MaxFloat32, 0.1}[r.IntN(9)]
			}
		case r.IntN(3) == 0:
			*p = math.Float32frombits(f32bits[r.IntN(len(f32bits))])
		default:
			*p = math.Float32frombits(r.Uint32())
		}
	default:
		infra("randLeaf: %v", v.Kind())
	}
}

// randElems makes a slice of n elements of any bit patterns.
func randElems(r *rand.Rand, c gltf.ComponentType, t gltf.AccessorType, n int, finite bool) reflect.Value {
	out := reflect.MakeSlice(reflect.SliceOf(goType(c, t)), n, n)
	lay := layoutOf(c, t)
	runs := n > 1 && r.IntN(4) == 0 // elements equal to the one before, or but for a component
	for i := 0; i < n; i++ {
		if runs && i > 0 && r.IntN(3) > 0 {
			out.Index(i).Set(out.Index(i - 1))
			if r.IntN(2) == 0 {
				randLeaf(r, leaf(out.Index(i), t, lay[r.IntN(len(lay))]), finite)
			}
			continue
		}
		for _, a := range lay {
			randLeaf(r, leaf(out.Index(i), t, a), finite)
		}
	}
	return out
}

func randColors(r *rand.Rand, n int, wide bool) any {
	if wide {
		out := make([]color.RGBA64, n)
		for i := range out {
			out[i] = color.RGBA64{uint16(r.Uint32()), uint16(r.Uint32()), uint16(r.Uint32()), uint16(r.Uint32())}
		}
		return out
	}
	out := make([]color.RGBA, n)
	for i := range out {
		out[i] = color.RGBA{uint8(r.Uint32()), uint8(r.Uint32()), uint8(r.Uint32()), uint8(r.Uint32())}
	}
	return out
}

// asVec4 is the same data as vectors.
func asVec4(data any) (reflect.Value, gltf.ComponentType) {
	switch d := data.(type) {
	case []color.RGBA:
		out := make([][4]uint8, len(d))
		for i, c := range d {
			out[i] = [4]uint8{c.R, c.G, c.B, c.A}
		}
		return reflect.ValueOf(out), gltf.ComponentUbyte
	case []color.RGBA64:
		out := make([][4]uint16, len(d))
		for i, c := range d {
			out[i] = [4]uint16{c.R, c.G, c.B, c.A}
		}
		return reflect.ValueOf(out), gltf.ComponentUshort
	}
	infra("asVec4: %T", data)
	return reflect.Value{}, 0
}

// combo returns the i-th of the 42 combinations.
func combo(i int) (gltf.ComponentType, gltf.AccessorType) {
	return allComps[i%6], allTypes[i/6%7]
}

func strideFor(r *rand.Rand, size, n int) int {
	if r.IntN(50) == 0 { // longer than 8 and 16 bits can tell
		if stride := max(size, edgeLen(r, 8, 17)); stride*n <= 1<<21 {
			return stride
		}
	}
	switch r.IntN(5) {
	case 0:
		return 0
	case 1:
		return size
	case 2:
		return size + 1 + r.IntN(7)
	case 3:
		return round4(size) + 4*r.IntN(5)
	}
	return size + r.IntN(252)
}
