package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"reflect"
	"sort"

	"github.com/qmuntal/gltf"
)

// accDoc builds documents with accessors of every form over random buffers.
type accDoc struct {
	t    *T
	r    *rand.Rand
	doc  *gltf.Document
	nBuf int
}

func newAccDoc(t *T) *accDoc {
	d := &accDoc{t: t, r: t.R, doc: &gltf.Document{}}
	for i := 1 + t.R.IntN(3); i > 0; i-- {
		d.doc.Buffers = append(d.doc.Buffers, &gltf.Buffer{})
	}
	return d
}

// view appends a buffer view with the given contents at a random place.
func (d *accDoc) view(content []byte, stride int) int {
	bi := d.r.IntN(len(d.doc.Buffers))
	b := d.doc.Buffers[bi]
	gap := make([]byte, d.r.IntN(3)*d.r.IntN(9))
	for i := range gap {
		gap[i] = byte(d.r.Uint32())
	}
	b.Data = append(b.Data, gap...)
	v := &gltf.BufferView{Buffer: bi, ByteOffset: len(b.Data), ByteLength: len(content), ByteStride: stride}
	b.Data = append(b.Data, content...)
	b.ByteLength = len(b.Data)
	d.doc.BufferViews = append(d.doc.BufferViews, v)
	return len(d.doc.BufferViews) - 1
}

// tail appends random bytes to all buffers and drops their spare capacity, so
// that reading past a view is seen.
func (d *accDoc) finish() {
	for _, b := range d.doc.Buffers {
		if len(b.Data) == 0 || d.r.IntN(2) == 0 {
			for i := 1 + d.r.IntN(20); i > 0; i-- {
				b.Data = append(b.Data, byte(d.r.Uint32()))
			}
		}
		b.Data = append([]byte{}, b.Data...)
		b.Data = b.Data[:len(b.Data):len(b.Data)]
		b.ByteLength = len(b.Data)
	}
}

func (d *accDoc) randBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(d.r.Uint32())
	}
	return b
}

type form struct {
	noView, sparse, strided, offset bool
}

func (f form) String() string {
	return fmt.Sprintf("view=%v sparse=%v strided=%v offset=%v", !f.noView, f.sparse, f.strided, f.offset)
}

// dense stores data in a view (fresh or interleaved) and returns view and offset.
func (d *accDoc) dense(c gltf.ComponentType, a gltf.AccessorType, data reflect.Value, strided, offset bool) (view, off int) {
	size := elemSize(c, a)
	stride := 0
	if strided {
		for stride == 0 {
			stride = strideFor(d.r, size, data.Len())
		}
		stride = max(4, round4(stride))
		if d.r.IntN(5) == 0 {
			stride = size + d.r.IntN(9)
		}
	}
	if offset {
		off = compSize[c] * (1 + d.r.IntN(12))
		if strided && stride > size {
			off = d.r.IntN(stride - size + 1)
			if d.r.IntN(3) == 0 {
				off += stride * d.r.IntN(3)
			}
		}
	}
	content := d.randBytes(off + need(stride, data.Len(), c, a) + d.r.IntN(2)*d.r.IntN(16))
	if len(content) == 0 {
		content = d.randBytes(1 + d.r.IntN(8))
	}
	refWrite(content[off:], stride, c, a, data)
	return d.view(content, stride), off
}

// accessor appends an accessor and returns it with the data that it has.
func (d *accDoc) accessor(c gltf.ComponentType, a gltf.AccessorType, n int, finite bool) (*gltf.Accessor, reflect.Value, form) {
	f := form{noView: d.r.IntN(4) == 0, sparse: n > 0 && d.r.IntN(3) == 0, strided: d.r.IntN(2) == 0, offset: d.r.IntN(2) == 0}
	return d.accessorForm(c, a, n, finite, f, nil)
}

func (d *accDoc) accessorForm(c gltf.ComponentType, a gltf.AccessorType, n int, finite bool, f form, data any) (*gltf.Accessor, reflect.Value, form) {
	acr := &gltf.Accessor{ComponentType: c, Type: a, Count: n}
	var want reflect.Value
	if f.noView {
		want = reflect.MakeSlice(reflect.SliceOf(goType(c, a)), n, n)
	} else {
		if data != nil {
			want = reflect.ValueOf(data)
		} else {
			want = randElems(d.r, c, a, n, finite)
		}
		view, off := d.dense(c, a, want, f.strided, f.offset)
		acr.BufferView, acr.ByteOffset = gltf.Index(view), off
		if d.r.IntN(2) == 0 { // do not share with the caller
			want = reflect.AppendSlice(reflect.MakeSlice(want.Type(), 0, n), want)
		}
	}
	if f.sparse {
		k := 1 + d.r.IntN(min(n, 200))
		if n > 1000 && d.r.IntN(2) == 0 {
			k = n - d.r.IntN(n)*d.r.IntN(2)
		}
		sorted := append([]int{}, d.r.Perm(n)[:k]...)
		sort.Ints(sorted)
		if first := d.r.IntN(n - k + 1); d.r.IntN(3) == 0 { // all in a row
			for i := range sorted {
				sorted[i] = first + i
			}
		}
		ics := []gltf.ComponentType{gltf.ComponentUint}
		if sorted[k-1] < 256 {
			ics = append(ics, gltf.ComponentUbyte)
		}
		if sorted[k-1] < 65536 {
			ics = append(ics, gltf.ComponentUshort)
		}
		ic := ics[d.r.IntN(len(ics))]
		idx := reflect.MakeSlice(reflect.SliceOf(compKind[ic]), k, k)
		for i, x := range sorted {
			idx.Index(i).SetUint(uint64(x))
		}
		vals := randElems(d.r, c, a, k, finite)
		iv, io, vv, vo := 0, 0, 0, 0
		switch unsigned := a == gltf.AccessorScalar && c == ic; {
		case unsigned && d.r.IntN(3) == 0:
			// The indices are the values as well.
			for i, x := range sorted {
				vals.Index(i).SetUint(uint64(x))
			}
			iv, io = d.dense(ic, gltf.AccessorScalar, idx, false, d.r.IntN(2) == 0)
			vv, vo = iv, io
			d.t.Hit("sparse_shared")
		case acr.BufferView != nil && !f.strided && d.r.IntN(6) == 0:
			// The values are the first elements of the dense data.
			reflect.Copy(vals, want)
			iv, io = d.dense(ic, gltf.AccessorScalar, idx, false, d.r.IntN(2) == 0)
			vv, vo = *acr.BufferView, acr.ByteOffset
			d.t.Hit("sparse_shared")
		case d.r.IntN(4) == 0:
			// Indices and values in one view, in either order.
			ni, nv := k*elemSize(ic, gltf.AccessorScalar), k*elemSize(c, a)
			if d.r.IntN(2) == 0 {
				vo = (ni + 3) &^ 3
			} else {
				io = (nv + 3) &^ 3
			}
			content := d.randBytes(max(io+ni, vo+nv))
			refWrite(content[io:], elemSize(ic, gltf.AccessorScalar), ic, gltf.AccessorScalar, idx)
			refWrite(content[vo:], elemSize(c, a), c, a, vals)
			iv = d.view(content, 0)
			vv = iv
			d.t.Hit("sparse_shared")
		default:
			iv, io = d.dense(ic, gltf.AccessorScalar, idx, false, d.r.IntN(2) == 0)
			vv, vo = d.dense(c, a, vals, false, d.r.IntN(2) == 0)
		}
		acr.Sparse = &gltf.Sparse{Count: k, Indices: gltf.SparseIndices{BufferView: iv, ByteOffset: io, ComponentType: ic}, Values: gltf.SparseValues{BufferView: vv, ByteOffset: vo}}
		out := reflect.AppendSlice(reflect.MakeSlice(want.Type(), 0, n), want)
		for i, x := range sorted {
			out.Index(x).Set(vals.Index(i))
		}
		want = out
		d.t.Hit("sparse_" + ic.String())
	}
	d.doc.Accessors = append(d.doc.Accessors, acr)
	return acr, want, f
}

// verdict of the reference reader for malformed documents.
type verdict int

const (
	mustFail verdict = iota
	mayEither
	mustRead
)

// refAccessor decides with unbounded integers what reading an accessor gives.
func refAccessor(doc *gltf.Document, acr *gltf.Accessor) (reflect.Value, verdict) {
	none := reflect.Value{}
	if !knownType(acr.ComponentType, acr.Type) || acr.Count < 0 {
		return none, mustFail
	}
	var out reflect.Value
	v := mustRead
	if acr.BufferView != nil {
		out, v = refDense(doc, *acr.BufferView, acr.ByteOffset, acr.ComponentType, acr.Type, acr.Count)
		if v == mustFail {
			return none, mustFail
		}
	} else {
		if acr.Count > 1<<26 {
			return none, mayEither
		}
		out = reflect.MakeSlice(reflect.SliceOf(goType(acr.ComponentType, acr.Type)), acr.Count, acr.Count)
	}
	if s := acr.Sparse; s != nil {
		if s.Count < 0 {
			return none, mustFail
		}
		switch s.Indices.ComponentType {
		case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint:
		default:
			return none, mustFail
		}
		idx, v1 := refDense(doc, s.Indices.BufferView, s.Indices.ByteOffset, s.Indices.ComponentType, gltf.AccessorScalar, s.Count)
		vals, v2 := refDense(doc, s.Values.BufferView, s.Values.ByteOffset, acr.ComponentType, acr.Type, s.Count)
		if v1 == mustFail || v2 == mustFail {
			return none, mustFail
		}
		v = min(v, v1, v2)
		if v == mustRead || out.IsValid() && idx.IsValid() && vals.IsValid() {
			for i := 0; i < idx.Len(); i++ {
				x := idx.Index(i).Uint()
				if x >= uint64(acr.Count) {
					return none, mustFail
				}
				out.Index(int(x)).Set(vals.Index(i))
			}
		}
	}
	return out, v
}

func knownType(c gltf.ComponentType, a gltf.AccessorType) bool {
	_, ok := compSize[c]
	_, ok2 := accShape[a]
	return ok && ok2
}

func refDense(doc *gltf.Document, view, off int, c gltf.ComponentType, a gltf.AccessorType, n int) (reflect.Value, verdict) {
	none := reflect.Value{}
	if view < 0 || view >= len(doc.BufferViews) || doc.BufferViews[view] == nil {
		return none, mustFail
	}
	bv := doc.BufferViews[view]
	win, ok := refView(doc, bv)
	if !ok || off < 0 || off > len(win) || bv.ByteStride < 0 {
		return none, mustFail
	}
	src := win[off:]
	size := elemSize(c, a)
	overlap := mustRead
	if bv.ByteStride > 0 && bv.ByteStride < size {
		overlap = mayEither // malformed: the elements overlap
	}
	if n == 0 {
		return reflect.MakeSlice(reflect.SliceOf(goType(c, a)), 0, 0), overlap
	}
	stride := bv.ByteStride
	if stride == 0 {
		stride = size
	}
	end := new(big.Int).Mul(big.NewInt(int64(n-1)), big.NewInt(int64(stride)))
	tight := new(big.Int).Add(end, big.NewInt(int64(tightSize(c, a))))
	end.Add(end, big.NewInt(int64(size)))
	have := big.NewInt(int64(len(src)))
	if tight.Cmp(have) > 0 {
		return none, mustFail
	}
	out := refRead(src, stride, c, a, n)
	if end.Cmp(have) > 0 {
		return out, mayEither
	}
	return out, overlap
}

func refView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, bool) {
	if bv == nil || bv.Buffer < 0 || bv.Buffer >= len(doc.Buffers) || doc.Buffers[bv.Buffer] == nil {
		return nil, false
	}
	data := doc.Buffers[bv.Buffer].Data
	if bv.ByteOffset < 0 || bv.ByteLength < 0 {
		return nil, false
	}
	end := new(big.Int).Add(big.NewInt(int64(bv.ByteOffset)), big.NewInt(int64(bv.ByteLength)))
	if end.Cmp(big.NewInt(int64(len(data)))) > 0 {
		return nil, false
	}
	return data[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], true
}
