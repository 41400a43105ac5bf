package main

import (
	"bytes"
	"errors"
	"fmt"
	"image/color"
	"io"
	"io/fs"
	"math"
	"math/rand/v2"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

// chunkData is a slice given to the modeler with its independent description.
type chunkData struct {
	data any
	c    gltf.ComponentType
	a    gltf.AccessorType
	n    int
	want reflect.Value // a private copy, colours as vectors
}

func (d chunkData) size() int { return elemSize(d.c, d.a) }

func mkChunk(r *rand.Rand, c gltf.ComponentType, a gltf.AccessorType, n int, finite bool) chunkData {
	v := randElems(r, c, a, n, finite)
	return chunkData{v.Interface(), c, a, n, cloneSlice(v)}
}

func mkColors(r *rand.Rand, n int, wide bool) chunkData {
	data := randColors(r, n, wide)
	v, c := asVec4(data)
	return chunkData{data, c, gltf.AccessorVec4, n, v}
}

func cloneSlice(v reflect.Value) reflect.Value {
	return reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, v.Len()), v)
}

// anyChunk is data of any type the modeler takes.
func anyChunk(r *rand.Rand, n int, finite bool) chunkData {
	if r.IntN(12) == 0 {
		return mkColors(r, n, r.IntN(2) == 0)
	}
	c, a := combo(r.IntN(42))
	return mkChunk(r, c, a, n, finite)
}

// written is an item of the document that reads back.
type written struct {
	what   string
	acr    int // -1: none
	view   int // -1: none
	off    int // offset of the data in the view, for data without accessor
	img    int // -1: none
	data   chunkData
	bytes  []byte
	reader string // typed reader that gives back the same
}

// modelHist is a history of modeler writes with a model of the document.
type modelHist struct {
	t     *T
	r     *rand.Rand
	doc   *gltf.Document
	items []written
	steps []string

	seeds     []uint64
	retain    bool // C25: change the data after each write
	lastItems int
}

func newModelHist(t *T) *modelHist {
	h := &modelHist{t: t, r: t.R, doc: gltf.NewDocument()}
	switch t.R.IntN(5) {
	case 0:
		h.doc = new(gltf.Document)
	case 1, 2:
		// An existing document.
		d := newAccDoc(t)
		for k := 1 + t.R.IntN(5); k > 0; k-- {
			c, a := combo(t.R.IntN(42))
			acr, want, f := d.accessor(c, a, t.R.IntN(6), true)
			h.items = append(h.items, written{what: fmt.Sprintf("existing accessor %v %v (%v)", c, a, f), acr: len(d.doc.Accessors) - 1, view: -1, img: -1, data: chunkData{nil, c, a, acr.Count, want}})
		}
		d.finish()
		h.doc = d.doc
		for i, b := range h.doc.Buffers {
			switch t.R.IntN(4) {
			case 0:
				b.EmbeddedResource()
			case 1:
				b.URI = fmt.Sprintf("b%d.bin", i)
			}
			if t.R.IntN(2) == 0 { // spare capacity with leftovers
				b.Data = append(b.Data, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE)[:len(b.Data)]
			}
		}
		t.Hit("existing_document")
	}
	if t.R.IntN(6) == 0 { // a buffer prepared for what comes
		b := &gltf.Buffer{Name: "prepared"}
		if t.R.IntN(3) > 0 {
			b.URI = []string{"prepared.bin", "dir/p.bin", "a b.bin"}[t.R.IntN(3)]
		}
		if t.R.IntN(3) == 0 {
			b.Data = make([]byte, 0, t.R.IntN(100))
		}
		h.doc.Buffers = append(h.doc.Buffers, b)
		t.Hit("prepared_buffer")
	}
	return h
}

// call runs f, which is expected to write, and describes how it went.
func tryWrite(f func() error) (err error, panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			err, panicked = fmt.Errorf("panic: %v", e), true
		}
	}()
	return f(), false
}

// effect is what one step did according to the documentation.
type effect struct {
	desc     string
	rejected bool
	acrs     []chunkData // accessors added, in order of the indices returned
	ids      []int
	one      bool // all in one view
	interl   bool // written by an interleaving function
	view     int  // view added, -1: none
	image    int  // -1: none
	target   gltf.Target
	anyTgt   bool // target not documented
	aligned  bool
	// metadata
	norm   []bool
	minmax []int // positions of acrs that need bounds
	raw    []chunkData
	noop   bool
	attrs  gltf.PrimitiveAttributes
	names  []string
	mime   string
	name   string
}

func (h *modelHist) count() int {
	r := h.r
	switch r.IntN(16) {
	case 0:
		return 0
	case 1:
		switch r.IntN(8) {
		case 0:
			return edgeLen(r, 4, 10)
		case 1:
			if r.IntN(12) == 0 {
				return edgeLen(r, 11, 14)
			}
		}
		return 30 + r.IntN(300)
	}
	return 1 + r.IntN(9)
}

// step performs one operation. It returns its documented effect.
func (h *modelHist) step() effect {
	// Every step has a seed of its own, so that steps can be done again with
	// the same data, which is another write.
	all := h.r
	defer func() { h.r = all }()
	seed := all.Uint64()
	if len(h.seeds) > 0 && all.IntN(5) == 0 {
		seed = h.seeds[len(h.seeds)-1-min(all.IntN(len(h.seeds)), all.IntN(len(h.seeds)))]
		h.t.Hit("repeated")
	} else {
		h.seeds = append(h.seeds, seed)
	}
	h.r = rand.New(rand.NewPCG(seed, 1))
	r, doc := h.r, h.doc
	n := h.count()
	e := effect{view: -1, image: -1}
	one := func(desc string, d chunkData, target gltf.Target, norm bool, reader string, f func(*gltf.Document) int) effect {
		e.desc = fmt.Sprintf("%s of %T, %d elements", desc, d.data, d.n)
		h.note(e.desc)
		id := f(doc)
		e.acrs, e.ids, e.target, e.norm, e.aligned = []chunkData{d}, []int{id}, target, []bool{norm}, true
		if id >= 0 && id < len(doc.Accessors) && doc.Accessors[id] != nil && doc.Accessors[id].BufferView != nil {
			e.view = *doc.Accessors[id].BufferView
		}
		h.items = append(h.items, written{what: e.desc, acr: id, view: -1, img: -1, data: d, reader: reader})
		return e
	}
	targets := []gltf.Target{gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer}
	switch k := r.IntN(20); k {
	case 0, 1:
		d := anyChunk(r, n, false)
		tg := targets[r.IntN(3)]
		return one(fmt.Sprintf("WriteAccessor(%v)", tg), d, tg, false, "", func(doc *gltf.Document) int { return modeler.WriteAccessor(doc, tg, d.data) })
	case 2:
		d := mkChunk(r, []gltf.ComponentType{gltf.ComponentUshort, gltf.ComponentUint}[r.IntN(2)], gltf.AccessorScalar, n, false)
		return one("WriteIndices", d, gltf.TargetElementArrayBuffer, false, "ReadIndices", func(doc *gltf.Document) int { return modeler.WriteIndices(doc, d.data) })
	case 3:
		d := mkChunk(r, gltf.ComponentFloat, gltf.AccessorVec3, n, false)
		return one("WriteNormal", d, gltf.TargetArrayBuffer, false, "ReadNormal", func(doc *gltf.Document) int { return modeler.WriteNormal(doc, d.data.([][3]float32)) })
	case 4:
		d := mkChunk(r, gltf.ComponentFloat, gltf.AccessorVec4, n, false)
		return one("WriteTangent", d, gltf.TargetArrayBuffer, false, "ReadTangent", func(doc *gltf.Document) int { return modeler.WriteTangent(doc, d.data.([][4]float32)) })
	case 5:
		c := intsOrFl[r.IntN(3)]
		d := mkChunk(r, c, gltf.AccessorVec2, n, false)
		return one("WriteTextureCoord", d, gltf.TargetArrayBuffer, c != gltf.ComponentFloat, "ReadTextureCoord", func(doc *gltf.Document) int { return modeler.WriteTextureCoord(doc, d.data) })
	case 6:
		c := intsOrFl[r.IntN(3)]
		d := mkChunk(r, c, gltf.AccessorVec4, n, false)
		return one("WriteWeights", d, gltf.TargetArrayBuffer, c != gltf.ComponentFloat, "ReadWeights", func(doc *gltf.Document) int { return modeler.WriteWeights(doc, d.data) })
	case 7:
		d := mkChunk(r, ints[r.IntN(2)], gltf.AccessorVec4, n, false)
		return one("WriteJoints", d, gltf.TargetArrayBuffer, false, "ReadJoints", func(doc *gltf.Document) int { return modeler.WriteJoints(doc, d.data) })
	case 8, 9:
		d := mkChunk(r, gltf.ComponentFloat, gltf.AccessorVec3, max(n, 1), true)
		h.spreadPositions(d)
		e.minmax = []int{0}
		return one("WritePosition", d, gltf.TargetArrayBuffer, false, "ReadPosition", func(doc *gltf.Document) int { return modeler.WritePosition(doc, d.data.([][3]float32)) })
	case 10:
		d := h.colorChunk(n)
		reader := ""
		if d.c == gltf.ComponentUbyte {
			reader = "ReadColor"
		} else if d.c == gltf.ComponentUshort {
			reader = "ReadColor64"
		}
		return one("WriteColor", d, gltf.TargetArrayBuffer, d.c != gltf.ComponentFloat, reader, func(doc *gltf.Document) int { return modeler.WriteColor(doc, d.data) })
	case 11:
		e.anyTgt = true
		d := mkChunk(r, gltf.ComponentFloat, gltf.AccessorMat4, n, false)
		return one("WriteInverseBindMatrices", d, gltf.TargetNone, false, "ReadInverseBindMatrices", func(doc *gltf.Document) int { return modeler.WriteInverseBindMatrices(doc, d.data.([][4][4]float32)) })
	case 12, 13:
		return h.writeImage(e)
	case 14:
		d := anyChunk(r, n, false)
		if r.IntN(2) == 0 {
			d = mkChunk(r, gltf.ComponentUbyte, gltf.AccessorScalar, n+r.IntN(5), false)
		}
		tg := targets[r.IntN(3)]
		e.desc = fmt.Sprintf("WriteBufferView(%v) of %T, %d elements", tg, d.data, d.n)
		h.note(e.desc)
		e.view = modeler.WriteBufferView(doc, tg, d.data)
		e.target, e.raw = tg, []chunkData{d}
		h.items = append(h.items, written{what: e.desc, acr: -1, view: e.view, img: -1, data: d})
		return e
	case 15, 16:
		return h.writeInterleaved(e, n)
	case 17, 18:
		return h.writeAttributes(e, max(n, 1))
	case 19:
		if r.IntN(3) > 0 {
			return h.reject(e)
		}
		// The user changes the document in other ways.
		e.noop = true
		if len(doc.Buffers) == 0 || r.IntN(2) == 0 {
			e.desc = "a buffer is appended"
			doc.Buffers = append(doc.Buffers, &gltf.Buffer{})
		} else {
			b := doc.Buffers[len(doc.Buffers)-1]
			k := 1 + r.IntN(5)
			for i := 0; i < k; i++ {
				b.Data = append(b.Data, byte(r.Uint32()))
			}
			b.ByteLength = len(b.Data)
			e.desc = fmt.Sprintf("%d bytes are appended to the last buffer", k)
		}
		h.note(e.desc)
		h.t.Hit("other_change")
		return e
	}
	return e
}

func (h *modelHist) note(s string) {
	h.steps = append(h.steps, s)
	h.t.Note("history", h.steps)
}

// spreadPositions moves the extremes around.
func (h *modelHist) spreadPositions(d chunkData) {
	v := d.data.([][3]float32)
	switch h.r.IntN(3) {
	case 1: // one sign only
		s := float32(1 - 2*h.r.IntN(2))
		for i := range v {
			for j := range v[i] {
				v[i][j] = s * (1 + h.r.Float32()*100)
			}
		}
	case 2: // all the same, or zeros
		x := []float32{0, 1, -1, 3.5e38 / 2, -1e-40}[h.r.IntN(5)]
		for i := range v {
			for j := range v[i] {
				v[i][j] = x
			}
		}
	}
	if h.r.IntN(3) == 0 { // zeros of both signs
		for k := 1 + h.r.IntN(3); k > 0 && len(v) > 0; k-- {
			v[h.r.IntN(len(v))][h.r.IntN(3)] = []float32{0, float32(math.Copysign(0, -1))}[h.r.IntN(2)]
		}
	}
	reflect.Copy(d.want, reflect.ValueOf(v))
}

func (h *modelHist) colorChunk(n int) chunkData {
	if h.r.IntN(4) == 0 {
		return mkColors(h.r, n, h.r.IntN(2) == 0)
	}
	return mkChunk(h.r, intsOrFl[h.r.IntN(3)], []gltf.AccessorType{gltf.AccessorVec3, gltf.AccessorVec4}[h.r.IntN(2)], n, false)
}

func (h *modelHist) writeImage(e effect) effect {
	r := h.r
	b := make([]byte, r.IntN(40))
	switch r.IntN(30) {
	case 0:
		b = make([]byte, edgeLen(r, 8, 13))
	case 1:
		if r.IntN(5) == 0 {
			b = make([]byte, edgeLen(r, 14, 18))
		}
	}
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	want := append([]byte{}, b...)
	e.name, e.mime = []string{"", "img", "ü", " a b ", "IMG.png"}[r.IntN(5)], []string{"image/png", "image/jpeg", "", "image/webp", "Image/PNG", "image/png ", "x"}[r.IntN(7)]
	var rd io.Reader
	kind := ""
	switch r.IntN(4) {
	case 0:
		rd, kind = bytes.NewBuffer(b), "buffer"
	case 1:
		rd, kind = bytes.NewReader(b), "reader"
	case 2:
		rd, kind = iotest.OneByteReader(bytes.NewReader(b)), "slow reader"
	case 3:
		rd, kind = iotest.DataErrReader(bytes.NewReader(b)), "reader with early EOF"
	}
	e.desc = fmt.Sprintf("WriteImage of %d bytes from a %s", len(b), kind)
	h.note(e.desc)
	id, err := modeler.WriteImage(h.doc, e.name, e.mime, rd)
	if err != nil {
		h.t.Failf("%s: %v", e.desc, err)
	}
	if h.retain {
		if !bytes.Equal(b, want) {
			h.t.Failf("%s changes the bytes given", e.desc)
		}
		for i := range b {
			b[i] ^= 0xff
		}
	}
	e.image = id
	e.target = gltf.TargetNone
	if id >= 0 && id < len(h.doc.Images) && h.doc.Images[id] != nil && h.doc.Images[id].BufferView != nil {
		e.view = *h.doc.Images[id].BufferView
	}
	h.items = append(h.items, written{what: e.desc, acr: -1, view: -1, img: id, bytes: want})
	h.t.Hit("image")
	return e
}

func (h *modelHist) writeInterleaved(e effect, n int) effect {
	r := h.r
	var ds []chunkData
	var args []any
	total, limit := 0, h.strideLimit()
	for k := 1 + r.IntN(5) + limit/100; k > 2; k-- {
		d := anyChunk(r, n, false)
		if limit > 252 && r.IntN(2) == 0 {
			d = mkChunk(r, []gltf.ComponentType{gltf.ComponentFloat, gltf.ComponentUint}[r.IntN(2)], gltf.AccessorMat4, n, false)
		}
		if len(ds) > 0 && r.IntN(6) == 0 { // the very same slice again
			d = ds[r.IntN(len(ds))]
			h.t.Hit("same_slice")
		}
		if total+d.size() > limit {
			continue
		}
		total += d.size()
		if total > 252 {
			h.t.Hit("long_stride")
		}
		ds, args = append(ds, d), append(args, d.data)
	}
	e.desc = fmt.Sprintf("interleaved write of %d elements of", n)
	for _, a := range args {
		e.desc += fmt.Sprintf(" %T", a)
	}
	e.target = gltf.TargetArrayBuffer
	e.interl = true
	if r.IntN(2) == 0 {
		e.desc = "WriteBufferViewInterleaved: " + e.desc
		h.note(e.desc)
		id, err := modeler.WriteBufferViewInterleaved(h.doc, args...)
		if err != nil && total > 252 {
			e.rejected = true
			return e
		}
		if err != nil {
			h.t.Failf("%s: %v", e.desc, err)
		}
		e.view, e.raw = id, ds
		off := 0
		for _, d := range ds {
			h.items = append(h.items, written{what: e.desc, acr: -1, view: id, off: off, img: -1, data: d})
			if n > 0 {
				off += d.size()
			}
		}
		h.t.Hit("interleaved_view")
		return e
	}
	e.desc = "WriteAccessorsInterleaved: " + e.desc
	h.note(e.desc)
	ids, err := modeler.WriteAccessorsInterleaved(h.doc, args...)
	if err != nil && total > 252 {
		e.rejected = true
		return e
	}
	if err != nil {
		h.t.Failf("%s: %v", e.desc, err)
	}
	if len(ids) != len(ds) {
		h.t.Failf("%s: %d indices returned for %d slices", e.desc, len(ids), len(ds))
	}
	e.acrs, e.ids, e.one, e.aligned = ds, ids, true, true
	e.norm = make([]bool, len(ds))
	h.viewOf(&e)
	for i, d := range ds {
		h.items = append(h.items, written{what: fmt.Sprintf("%s, slice %d", e.desc, i), acr: ids[i], view: -1, img: -1, data: d})
	}
	h.t.Hit("interleaved")
	return e
}

// strideLimit is the greatest stride: glTF allows 252 bytes, beyond that a
// write can be refused or must work.
func (h *modelHist) strideLimit() int {
	if h.r.IntN(12) == 0 {
		return 252 + h.r.IntN(500)
	}
	return 252
}

func (h *modelHist) viewOf(e *effect) {
	for _, id := range e.ids {
		if id >= 0 && id < len(h.doc.Accessors) && h.doc.Accessors[id] != nil && h.doc.Accessors[id].BufferView != nil {
			e.view = *h.doc.Accessors[id].BufferView
		}
	}
}

// attrChunk makes data allowed for an attribute.
func (h *modelHist) attrChunk(name string, n int) (chunkData, bool, string) {
	r := h.r
	switch semantic(name) {
	case gltf.POSITION:
		d := mkChunk(r, gltf.ComponentFloat, gltf.AccessorVec3, n, true)
		h.spreadPositions(d)
		return d, false, "ReadPosition"
	case gltf.NORMAL:
		return mkChunk(r, gltf.ComponentFloat, gltf.AccessorVec3, n, false), false, "ReadNormal"
	case gltf.TANGENT:
		return mkChunk(r, gltf.ComponentFloat, gltf.AccessorVec4, n, false), false, "ReadTangent"
	case gltf.TEXCOORD_0:
		c := intsOrFl[r.IntN(3)]
		return mkChunk(r, c, gltf.AccessorVec2, n, false), c != gltf.ComponentFloat, "ReadTextureCoord"
	case gltf.WEIGHTS_0:
		c := intsOrFl[r.IntN(3)]
		return mkChunk(r, c, gltf.AccessorVec4, n, false), c != gltf.ComponentFloat, "ReadWeights"
	case gltf.JOINTS_0:
		return mkChunk(r, ints[r.IntN(2)], gltf.AccessorVec4, n, false), false, "ReadJoints"
	case gltf.COLOR_0:
		d := h.colorChunk(n)
		reader := ""
		if d.c == gltf.ComponentUbyte {
			reader = "ReadColor"
		} else if d.c == gltf.ComponentUshort {
			reader = "ReadColor64"
		}
		return d, d.c != gltf.ComponentFloat, reader
	}
	return anyChunk(r, n, false), false, ""
}

var attrNames = []string{gltf.POSITION, gltf.NORMAL, gltf.TANGENT, gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.WEIGHTS_0, gltf.JOINTS_0, gltf.COLOR_0, "TEXCOORD_2", "TEXCOORD_13", "WEIGHTS_1", "JOINTS_1", "COLOR_1", "COLOR_2", "_CUSTOM", "_TEMPERATURE", "_COLOR_0", "_TEXCOORD_1"}

// semantic is the name of an attribute without the number of its set, as _0.
func semantic(name string) string {
	for _, p := range []string{"TEXCOORD_", "WEIGHTS_", "JOINTS_", "COLOR_"} {
		if strings.HasPrefix(name, p) {
			return p + "0"
		}
	}
	return name
}

// pickNames returns distinct attribute names in any order.
func (h *modelHist) pickNames() []string {
	var out []string
	for _, i := range h.r.Perm(len(attrNames))[:1+h.r.IntN(len(attrNames))] {
		out = append(out, attrNames[i])
	}
	return out
}

func (h *modelHist) writeAttributes(e effect, n int) effect {
	r := h.r
	var attrs []modeler.PrimitiveAttribute
	var ds []chunkData
	var readers []string
	total, limit := 0, h.strideLimit()
	e.desc = fmt.Sprintf("WritePrimitiveAttributes, %d elements:", n)
	for _, name := range h.pickNames() {
		if len(ds) > 0 && r.IntN(8) == 0 { // empty ones are left out
			var empty any
			switch r.IntN(4) {
			case 1:
				empty = [][3]float32{}
			case 2:
				empty = []uint8{}
			case 3:
				empty = [][3]float32(nil)
			}
			attrs = append(attrs, modeler.PrimitiveAttribute{Name: name, Data: empty})
			e.desc += fmt.Sprintf(" %s empty", name)
			h.t.Hit("empty_attribute")
			continue
		}
		d, norm, reader := h.attrChunk(name, n)
		for _, x := range ds {
			if name != gltf.POSITION && reflect.TypeOf(x.data) == reflect.TypeOf(d.data) && r.IntN(3) == 0 {
				d = x
				h.t.Hit("same_slice")
			}
		}
		if total+d.size() > limit {
			continue
		}
		total += d.size()
		if name == gltf.POSITION {
			e.minmax = append(e.minmax, len(ds))
			if len(ds) > 0 {
				h.t.Hit("position_not_first")
			}
		}
		ds, readers = append(ds, d), append(readers, reader)
		e.names, e.norm = append(e.names, name), append(e.norm, norm)
		attrs = append(attrs, modeler.PrimitiveAttribute{Name: name, Data: d.data})
		e.desc += fmt.Sprintf(" %s %T", name, d.data)
	}
	h.note(e.desc)
	m, err := modeler.WritePrimitiveAttributes(h.doc, attrs...)
	if err != nil && total > 252 {
		e.rejected = true
		return e
	}
	if err != nil {
		h.t.Failf("%s: %v", e.desc, err)
	}
	e.attrs = m
	got := make([]string, 0, len(m))
	for k := range m {
		got = append(got, k)
	}
	sort.Strings(got)
	want := append([]string{}, e.names...)
	sort.Strings(want)
	if !reflect.DeepEqual(got, want) {
		h.t.Failf("%s: the attributes are %v, want %v", e.desc, got, want)
	}
	for i, name := range e.names {
		e.ids = append(e.ids, m[name])
		h.items = append(h.items, written{what: e.desc + ": " + name, acr: m[name], view: -1, img: -1, data: ds[i], reader: readers[i]})
	}
	e.acrs, e.one, e.aligned, e.target, e.interl = ds, true, true, gltf.TargetArrayBuffer, true
	h.viewOf(&e)
	h.t.Hit("attributes")
	return e
}

var errImage = errors.New("injected read error")

// reject performs a write that must be refused.
func (h *modelHist) reject(e effect) effect {
	r, doc := h.r, h.doc
	e.rejected = true
	wrong := func(ok func(c gltf.ComponentType, a gltf.AccessorType) bool) chunkData {
		for {
			c, a := combo(r.IntN(42))
			if !ok(c, a) {
				return mkChunk(r, c, a, 1+r.IntN(4), false)
			}
		}
	}
	is := func(name string) func(gltf.ComponentType, gltf.AccessorType) bool {
		for i := range readers {
			if readers[i].name == name {
				return readers[i].accepts
			}
		}
		infra("no reader %s", name)
		return nil
	}
	var f func() error
	switch k := r.IntN(8); k {
	case 0, 1:
		n := 1 + r.IntN(5)
		m := n
		for m == n {
			m = r.IntN(8)
		}
		args := []any{anyChunk(r, n, false).data}
		for i := r.IntN(3); i > 0; i-- {
			args = append(args, anyChunk(r, n, false).data)
		}
		args = append(args, anyChunk(r, m, false).data)
		if r.IntN(2) == 0 {
			for i := r.IntN(3); i > 0; i-- {
				args = append(args, anyChunk(r, n, false).data)
			}
		}
		e.desc = fmt.Sprintf("interleaved write of different lengths %d and %d", n, m)
		acr := k == 0
		f = func() error {
			if acr {
				_, err := modeler.WriteAccessorsInterleaved(doc, args...)
				return err
			}
			_, err := modeler.WriteBufferViewInterleaved(doc, args...)
			return err
		}
	case 2, 3:
		n := 1 + r.IntN(5)
		var attrs []modeler.PrimitiveAttribute
		names := h.pickNames()
		for len(names) < 2 {
			names = h.pickNames()
		}
		bad := r.IntN(len(names))
		for i, name := range names {
			m := n
			if i == bad {
				for m == n {
					m = 1 + r.IntN(8)
				}
			}
			d, _, _ := h.attrChunk(name, m)
			attrs = append(attrs, modeler.PrimitiveAttribute{Name: name, Data: d.data})
		}
		e.desc = fmt.Sprintf("attributes of different lengths %v (%s)", names, names[bad])
		f = func() error {
			_, err := modeler.WritePrimitiveAttributes(doc, attrs...)
			return err
		}
	case 4, 5:
		n := 1 + r.IntN(5)
		var attrs []modeler.PrimitiveAttribute
		bads := map[string]string{gltf.POSITION: "ReadPosition", gltf.TEXCOORD_0: "ReadTextureCoord", gltf.WEIGHTS_0: "ReadWeights", gltf.JOINTS_0: "ReadJoints", gltf.COLOR_0: "ReadColor"}
		var names []string
		var cands []int
		for len(cands) == 0 {
			names, cands = h.pickNames(), nil
			for i, name := range names {
				if bads[semantic(name)] != "" {
					cands = append(cands, i)
				}
			}
		}
		bad := cands[r.IntN(len(cands))]
		var d chunkData
		for i, name := range names {
			if i == bad {
				d = wrong(is(bads[semantic(name)]))
				d = mkChunk(r, d.c, d.a, n, true)
				attrs = append(attrs, modeler.PrimitiveAttribute{Name: name, Data: d.data})
				continue
			}
			x, _, _ := h.attrChunk(name, n)
			attrs = append(attrs, modeler.PrimitiveAttribute{Name: name, Data: x.data})
		}
		e.desc = fmt.Sprintf("attribute %s of %v with %T", names[bad], names, d.data)
		f = func() error {
			_, err := modeler.WritePrimitiveAttributes(doc, attrs...)
			return err
		}
	case 6:
		rd := io.MultiReader(bytes.NewReader([]byte("partial")), iotest.ErrReader([]error{errImage, errImage, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, fs.ErrClosed}[r.IntN(7)]))
		e.desc = "WriteImage from a failing reader"
		f = func() error {
			_, err := modeler.WriteImage(doc, "x", "image/png", rd)
			return err
		}
	case 7:
		// The writers of one attribute refuse data of another type by panicking.
		type w struct {
			name, reader string
			f            func(*gltf.Document, any) int
		}
		x := []w{{"WriteIndices", "ReadIndices", modeler.WriteIndices}, {"WriteTextureCoord", "ReadTextureCoord", modeler.WriteTextureCoord}, {"WriteWeights", "ReadWeights", modeler.WriteWeights}, {"WriteJoints", "ReadJoints", modeler.WriteJoints}, {"WriteColor", "ReadColor", modeler.WriteColor}}[r.IntN(5)]
		d := wrong(is(x.reader))
		e.desc = fmt.Sprintf("%s of %T", x.name, d.data)
		f = func() error { x.f(doc, d.data); return nil }
	}
	h.note("rejected: " + e.desc)
	err, panicked := tryWrite(f)
	if err == nil {
		h.t.Failf("%s is accepted", e.desc)
	}
	if panicked {
		h.t.Hit("rejected_panic")
	}
	h.t.Hit("rejected")
	return e
}

// verify reads an item of doc back.
func (w written) verify(t *T, doc *gltf.Document, when string) {
	fail := func(format string, args ...any) {
		t.Failf("%s (%s): %s", w.what, when, fmt.Sprintf(format, args...))
	}
	if w.img >= 0 {
		if w.img >= len(doc.Images) || doc.Images[w.img] == nil || doc.Images[w.img].BufferView == nil {
			fail("image %d does not exist", w.img)
		}
		v := *doc.Images[w.img].BufferView
		if v < 0 || v >= len(doc.BufferViews) {
			fail("view %d does not exist", v)
		}
		b, err := modeler.ReadBufferView(doc, doc.BufferViews[v])
		if err != nil {
			fail("%v", err)
		}
		if !bytes.Equal(b, w.bytes) {
			fail("the image has the bytes %x, want %x", b, w.bytes)
		}
		t.Hit("read_image")
		return
	}
	acr := &gltf.Accessor{BufferView: gltf.Index(w.view), ByteOffset: w.off, ComponentType: w.data.c, Type: w.data.a, Count: w.data.n}
	if w.acr >= 0 {
		if w.acr >= len(doc.Accessors) || doc.Accessors[w.acr] == nil {
			fail("accessor %d does not exist", w.acr)
		}
		acr = doc.Accessors[w.acr]
	} else if w.data.a == gltf.AccessorScalar && w.data.c == gltf.ComponentUbyte && w.off == 0 && doc.BufferViews[w.view].ByteStride == 0 {
		b, err := modeler.ReadBufferView(doc, doc.BufferViews[w.view])
		if err != nil {
			fail("%v", err)
		}
		if !bytes.Equal(b, w.data.want.Bytes()) {
			fail("the view has the bytes %x, want %x", clip(b, 100), clip(w.data.want.Bytes(), 100))
		}
		t.Hit("read_bytes")
	}
	got, err := modeler.ReadAccessor(doc, acr, nil)
	if err != nil {
		fail("%v", err)
	}
	if err := sameBits(reflect.ValueOf(got), w.data.want); err != nil {
		fail("%v", err)
	}
	t.Hit("read_back")
	if w.reader == "" {
		return
	}
	for i := range readers {
		rd := &readers[i]
		if rd.name != w.reader {
			continue
		}
		got, err := rd.call(doc, acr, nil)
		if err != nil {
			fail("%s: %v", rd.name, err)
		}
		v := reflect.ValueOf(got)
		if v.Len() != w.data.n {
			fail("%s: %d elements, want %d", rd.name, v.Len(), w.data.n)
		}
		for k := 0; k < v.Len(); k++ {
			rd.convert(t, w.data.c, w.data.want.Index(k), v.Index(k))
		}
		t.Hit("read_typed")
	}
}

func (h *modelHist) verifyAll(doc *gltf.Document, when string) {
	for _, w := range h.items {
		w.verify(h.t, doc, when)
	}
}

func (h *modelHist) length() int {
	if h.r.IntN(12) == 0 {
		return 25 + h.r.IntN(25)
	}
	return 2 + h.r.IntN(10)
}

func init() {
	register(&Prop{
		ID: "C18", QuickMul: 6, DeepMul: 3, Level: "exploration",
		Rule:   "histories of all modeler writers with data of every type and of 0 to 300 elements, refused writes in between, on new and existing documents, also with other changes of the document between writes; all items are read back after each write and after saving and reloading in all forms; distinct by history",
		Assume: []string{"starting documents are consistent, with buffers whose declared length is their data", "interleaved data with a stride of more than 252 bytes may be refused"},
		Need:   map[string]int{"read_back": 5000, "read_typed": 1000, "read_image": 500, "read_bytes": 100, "interleaved": 200, "interleaved_view": 200, "attributes": 300, "rejected": 200, "existing_document": 150, "reload_json": 100, "reload_glb": 100, "reload_twice": 50, "long_stride": 50}, MinKeys: 400,
		Families: []Family{
			{Name: "history", Quick: 2500, Thorough: 120000, Race: true, RaceQuick: 100, RaceThorough: 2000, Run: func(t *T) {
				h := newModelHist(t)
				for k := h.length(); k > 0; k-- {
					h.step()
					if len(h.items) > 0 && t.R.IntN(2) == 0 {
						h.verifyAll(h.doc, "after later writes")
					} else if len(h.items) > 0 {
						h.items[len(h.items)-1].verify(t, h.doc, "just written")
					}
				}
				h.verifyAll(h.doc, "at the end")
				for _, b := range h.doc.Buffers {
					if len(b.Data) == 0 {
						t.Key(fmt.Sprint(h.steps))
						return // a buffer without data cannot be declared
					}
				}
				for range 1 + t.R.IntN(2) {
					m := modes[t.R.IntN(len(modes))]
					mem := newMemFS()
					out, err := encode(h.doc, m, mem)
					if err != nil {
						t.Failf("%v: %v", m, err)
					}
					back, err := decode(out, mem)
					if err != nil {
						t.Failf("%v: %v", m, err)
					}
					h.verifyAll(back, "reloaded from "+m.String())
					if m.binary {
						t.Hit("reload_glb")
					} else {
						t.Hit("reload_json")
					}
					if t.R.IntN(2) == 0 { // go on with the reloaded document
						h.doc = back
						h.note("reloaded as " + m.String())
						for k := 1 + t.R.IntN(4); k > 0; k-- {
							h.step()
						}
						h.verifyAll(h.doc, "after a reload and more writes")
						out, err := encode(h.doc, m, mem)
						if err == nil {
							back, err = decode(out, mem)
						}
						empty := false
						for _, b := range h.doc.Buffers {
							empty = empty || len(b.Data) == 0
						}
						if !empty {
							if err != nil {
								t.Failf("%v: %v", m, err)
							}
							h.verifyAll(back, "reloaded again from "+m.String())
							t.Hit("reload_twice")
						}
						break
					}
				}
				t.Key(fmt.Sprint(h.steps))
				t.Sample(func() string { return fmt.Sprint(h.steps) })
			}},
			{Name: "large", Quick: 10, Thorough: 200, Run: c18large},
		},
	})

	register(&Prop{
		ID: "C19", QuickMul: 20, Level: "exploration",
		Rule:   "the histories of C18; after every step the whole document is compared with its deep copy from before the step and the structure is checked independently; distinct by history",
		Assume: []string{"starting documents are consistent", "a refused interleaved write may pad the last buffer to four bytes, or add an empty buffer to a document without buffers"},
		Need:   map[string]int{"steps": 5000, "views": 2000, "accessors": 2000, "images": 300, "rejected": 300, "second_buffer": 300, "unaligned_start": 300}, MinKeys: 400,
		Families: []Family{
			{Name: "history", Quick: 2500, Thorough: 150000, Run: func(t *T) {
				h := newModelHist(t)
				for k := h.length(); k > 0; k-- {
					before := deepCopyDoc(h.doc)
					e := h.step()
					if !e.noop {
						checkStructure(t, before, h.doc, e)
					}
					t.Hit("steps")
				}
				t.Key(fmt.Sprint(h.steps))
				t.Sample(func() string { return fmt.Sprint(h.steps) })
			}},
		},
	})

	register(&Prop{
		ID: "C20", QuickMul: 45, Level: "exploration",
		Rule:   "the histories of C18; the metadata of every accessor, view and image written is compared with the one that the data, the writer and the attribute call for; all attribute types with all combinations are refused or accepted; distinct by history",
		Assume: []string{"positions are finite and not empty", "the target of inverse bind matrices is not documented", "NORMAL, TANGENT and application attributes are not restricted to types"},
		Need:   map[string]int{"accessors": 3000, "normalized": 300, "bounds": 500, "position_not_first": 100, "strided": 200, "empty_attribute": 100, "rejected": 200, "image": 300, "attr_types": 264, "large": 20}, MinKeys: 400,
		Families: []Family{
			{Name: "history", Quick: 2500, Thorough: 150000, Run: func(t *T) {
				h := newModelHist(t)
				for k := h.length(); k > 0; k-- {
					e := h.step()
					if !e.noop && !e.rejected {
						checkMeta(t, h.doc, e)
					}
				}
				t.Key(fmt.Sprint(h.steps))
				t.Sample(func() string { return fmt.Sprint(h.steps) })
			}},
			{Name: "types", Quick: 44 * 10, Thorough: 44 * 10 * 200, Run: c20types},
			{Name: "large", Quick: 30, Thorough: 2000, Run: c20large},
		},
	})
}

// checkStructure compares the document before and after a step.
func checkStructure(t *T, before, doc *gltf.Document, e effect) {
	fail := func(format string, args ...any) {
		t.Failf("%s: %s", e.desc, fmt.Sprintf(format, args...))
	}
	na, nv, ni, nb := len(before.Accessors), len(before.BufferViews), len(before.Images), len(before.Buffers)
	wa, wv, wi := len(e.acrs), 1, 0
	if e.image >= 0 {
		wi = 1
	}
	if e.rejected {
		wa, wv, wi = 0, 0, 0
	}
	wb := 0
	if nb == 0 && !(e.rejected && len(doc.Buffers) == 0) {
		wb = 1
	}
	for _, x := range []struct {
		what            string
		old, more, have int
	}{{"accessors", na, wa, len(doc.Accessors)}, {"buffer views", nv, wv, len(doc.BufferViews)}, {"images", ni, wi, len(doc.Images)}, {"buffers", nb, wb, len(doc.Buffers)}} {
		if x.have != x.old+x.more {
			fail("%d %s were %d, want %d more", x.have, x.what, x.old, x.more)
		}
	}
	// What was there is unchanged, but for the last buffer.
	rest := *doc
	rest.Accessors, rest.BufferViews, rest.Images, rest.Buffers = nil, nil, nil, nil
	old := *before
	old.Accessors, old.BufferViews, old.Images, old.Buffers = nil, nil, nil, nil
	if !reflect.DeepEqual(rest, old) {
		fail("changes other parts of the document")
	}
	for i := range before.Accessors {
		if !reflect.DeepEqual(before.Accessors[i], doc.Accessors[i]) {
			fail("accessor %d changes from %+v to %+v", i, *before.Accessors[i], *doc.Accessors[i])
		}
	}
	for i := range before.BufferViews {
		if !reflect.DeepEqual(before.BufferViews[i], doc.BufferViews[i]) {
			fail("buffer view %d changes from %+v to %+v", i, *before.BufferViews[i], *doc.BufferViews[i])
		}
	}
	for i := range before.Images {
		if !reflect.DeepEqual(before.Images[i], doc.Images[i]) {
			fail("image %d changes", i)
		}
	}
	last := len(doc.Buffers) - 1
	start := 0
	for i, b := range doc.Buffers {
		if b == nil {
			fail("buffer %d is null", i)
		}
		if b.ByteLength != len(b.Data) {
			fail("buffer %d declares %d bytes, it has %d", i, b.ByteLength, len(b.Data))
		}
		if i >= nb {
			continue
		}
		o := before.Buffers[i]
		x, y := *o, *b
		x.Data, y.Data, x.ByteLength, y.ByteLength = nil, nil, 0, 0
		if !reflect.DeepEqual(x, y) {
			fail("buffer %d changes", i)
		}
		if i < last && len(b.Data) != len(o.Data) {
			fail("buffer %d is not the last one and grows", i)
		}
		if len(b.Data) < len(o.Data) || !bytes.Equal(b.Data[:len(o.Data)], o.Data) {
			fail("the bytes of buffer %d change", i)
		}
		if i == last {
			start = len(o.Data)
		}
	}
	if last > 0 {
		t.Hit("second_buffer")
	}
	if start%4 != 0 {
		t.Hit("unaligned_start")
	}
	if e.rejected {
		if last >= 0 && len(doc.Buffers[last].Data) > round4(start) {
			fail("was refused but adds %d bytes", len(doc.Buffers[last].Data)-start)
		}
		return
	}
	for i, id := range e.ids {
		if id != na+i {
			fail("index %d returned for accessor %d of the call, %d accessors before", id, i, na)
		}
	}
	if e.image >= 0 && e.image != ni {
		fail("index %d returned for the image, %d images before", e.image, ni)
	}
	if e.view != nv {
		fail("refers to view %d, want the new view %d", e.view, nv)
	}
	bv := doc.BufferViews[nv]
	if bv.Buffer != last {
		fail("the view is in buffer %d, want the last one, %d", bv.Buffer, last)
	}
	end := bv.ByteOffset + bv.ByteLength
	if bv.ByteOffset < 0 || bv.ByteLength < 0 || end > len(doc.Buffers[last].Data) {
		fail("the view [%d,%d) is not inside its buffer of %d bytes", bv.ByteOffset, end, len(doc.Buffers[last].Data))
	}
	if bv.ByteOffset < start {
		fail("the view starts at %d, inside the %d bytes that were there", bv.ByteOffset, start)
	}
	t.Hit("views")
	ds := e.acrs
	if len(e.raw) > 0 {
		ds = e.raw
	}
	// The view has room for all the data and is not larger than that.
	size := 0
	for _, d := range ds {
		size += d.n * d.size()
	}
	if e.image < 0 && (bv.ByteLength > size || bv.ByteLength < size-4) {
		fail("the view has %d bytes for data of %d bytes", bv.ByteLength, size)
	}
	if e.aligned && bv.ByteOffset%4 != 0 {
		fail("the view starts at %d, not aligned", bv.ByteOffset)
	}
	for i, id := range e.ids {
		a := doc.Accessors[id]
		if a.BufferView == nil || *a.BufferView != nv {
			fail("accessor %d refers to view %v, want %d", i, deref(a.BufferView), nv)
		}
		stride := bv.ByteStride
		if a.Count > 0 && (a.ByteOffset < 0 || a.ByteOffset+need(stride, a.Count, a.ComponentType, a.Type) > bv.ByteLength) {
			fail("accessor %d (offset %d, stride %d, %d of %v %v) is not inside its view of %d bytes", i, a.ByteOffset, stride, a.Count, a.ComponentType, a.Type, bv.ByteLength)
		}
		if len(e.ids) == 1 && a.ByteOffset != 0 {
			fail("the data does not start with the view but at %d", a.ByteOffset)
		}
		t.Hit("accessors")
	}
	// Elements of one view do not overlap.
	if len(ds) > 1 && len(e.ids) == len(ds) && ds[0].n > 0 {
		type span struct{ lo, hi int }
		var spans []span
		for i, id := range e.ids {
			o := doc.Accessors[id].ByteOffset
			spans = append(spans, span{o, o + ds[i].size()})
		}
		sort.Slice(spans, func(i, j int) bool { return spans[i].lo < spans[j].lo })
		for i := 1; i < len(spans); i++ {
			if spans[i].lo < spans[i-1].hi {
				fail("accessors of the view overlap: %v", spans)
			}
		}
		if s := spans[len(spans)-1].hi - spans[0].lo; ds[0].n > 1 && s > bv.ByteStride {
			fail("elements of %d bytes overlap with stride %d", s, bv.ByteStride)
		}
	}
	if e.image >= 0 {
		t.Hit("images")
	}
}

// checkMeta checks the metadata of what a step wrote.
func checkMeta(t *T, doc *gltf.Document, e effect) {
	fail := func(format string, args ...any) {
		t.Failf("%s: %s", e.desc, fmt.Sprintf(format, args...))
	}
	for i, id := range e.ids {
		if id < 0 || id >= len(doc.Accessors) {
			fail("accessor %d does not exist", id)
		}
		a, d := doc.Accessors[id], e.acrs[i]
		name := ""
		if i < len(e.names) {
			name = e.names[i]
		}
		if a.ComponentType != d.c || a.Type != d.a || a.Count != d.n {
			fail("%s the accessor is %v %v %d, want %v %v %d", name, a.ComponentType, a.Type, a.Count, d.c, d.a, d.n)
		}
		if a.Normalized != e.norm[i] {
			fail("%s normalized is %v", name, a.Normalized)
		}
		if a.Normalized {
			t.Hit("normalized")
		}
		if a.Sparse != nil || a.Name != "" || len(a.Extensions) != 0 || a.Extras != nil {
			fail("%s unexpected properties in %+v", name, *a)
		}
		bounds := false
		for _, k := range e.minmax {
			bounds = bounds || k == i
		}
		if bounds {
			lo, hi := make([]float64, 3), make([]float64, 3)
			for k := 0; k < d.n; k++ {
				for j := 0; j < 3; j++ {
					x := float64(d.want.Index(k).Index(j).Interface().(float32))
					if k == 0 || x < lo[j] {
						lo[j] = x
					}
					if k == 0 || x > hi[j] {
						hi[j] = x
					}
				}
			}
			if len(a.Min) != 3 || len(a.Max) != 3 {
				fail("%s bounds %v %v", name, a.Min, a.Max)
			}
			for j := 0; j < 3; j++ {
				if a.Min[j] != lo[j] || a.Max[j] != hi[j] {
					fail("%s bounds %v %v, want %v %v", name, a.Min, a.Max, lo, hi)
				}
			}
			t.Hit("bounds")
		} else if a.Min != nil || a.Max != nil {
			fail("%s has bounds %v %v", name, a.Min, a.Max)
		}
		t.Hit("accessors")
	}
	if e.view < 0 || e.view >= len(doc.BufferViews) {
		fail("view %d does not exist", e.view)
	}
	bv := doc.BufferViews[e.view]
	if !e.anyTgt && bv.Target != e.target {
		fail("the target of the view is %v, want %v", bv.Target, e.target)
	}
	ds := e.acrs
	if len(e.raw) > 0 {
		ds = e.raw
	}
	stride := 0
	if len(ds) > 1 {
		for _, d := range ds {
			stride += d.size()
		}
	} else if len(ds) == 1 && bv.Target == gltf.TargetArrayBuffer && tightSize(ds[0].c, ds[0].a) != ds[0].size() {
		stride = ds[0].size()
	}
	if bv.ByteStride != stride {
		fail("the stride is %d, want %d", bv.ByteStride, stride)
	}
	if stride != 0 {
		t.Hit("strided")
	}
	if e.image >= 0 {
		if e.image >= len(doc.Images) {
			fail("image %d does not exist", e.image)
		}
		im := doc.Images[e.image]
		if im.Name != e.name || im.MimeType != e.mime || im.URI != "" {
			fail("the image is %+v", *im)
		}
	}
}

// c20large writes many positions, with the extremes at any place.
func c20large(t *T) {
	n := edgeLen(t.R, 9, 18)
	v := make([][3]float32, n)
	for i := range v {
		for j := range v[i] {
			v[i][j] = float32(t.R.IntN(2000)-1000) / 8
		}
	}
	for j := 0; j < 3; j++ {
		for _, x := range []float32{-2000, 2000} {
			at := []int{0, n - 1, n - 1 - t.R.IntN(min(n, 9)), t.R.IntN(n)}[t.R.IntN(4)]
			v[at][j] = x - float32(t.R.IntN(100))
		}
	}
	d := chunkData{v, gltf.ComponentFloat, gltf.AccessorVec3, n, reflect.ValueOf(append([][3]float32{}, v...))}
	e := effect{desc: fmt.Sprintf("%d positions", n), view: 0, image: -1, target: gltf.TargetArrayBuffer, acrs: []chunkData{d}, norm: []bool{false}, minmax: []int{0}, names: []string{gltf.POSITION}}
	doc := gltf.NewDocument()
	if t.I%2 == 0 {
		e.ids = []int{modeler.WritePosition(doc, v)}
	} else {
		attrs := []modeler.PrimitiveAttribute{{Name: gltf.POSITION, Data: v}}
		if t.R.IntN(2) == 0 {
			u := mkChunk(t.R, gltf.ComponentFloat, gltf.AccessorVec2, n, true)
			attrs = append([]modeler.PrimitiveAttribute{{Name: gltf.TEXCOORD_0, Data: u.data}}, attrs...)
			e.acrs, e.norm, e.minmax, e.names = []chunkData{u, d}, []bool{false, false}, []int{1}, []string{gltf.TEXCOORD_0, gltf.POSITION}
		}
		m, err := modeler.WritePrimitiveAttributes(doc, attrs...)
		if err != nil {
			t.Failf("%s: %v", e.desc, err)
		}
		for _, name := range e.names {
			e.ids = append(e.ids, m[name])
		}
	}
	checkMeta(t, doc, e)
	if len(doc.Buffers) != 1 || doc.Buffers[0].ByteLength != len(doc.Buffers[0].Data) || doc.BufferViews[0].ByteLength < n*12 {
		t.Failf("%s: lengths", e.desc)
	}
	t.Hit("large")
	t.Key("large", n, t.I%2)
}

// c20types gives every type of data to every attribute.
func c20types(t *T) {
	name := []string{gltf.POSITION, gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.WEIGHTS_0, gltf.JOINTS_0, gltf.COLOR_0, "TEXCOORD_2", "WEIGHTS_1", "JOINTS_1", "COLOR_1"}[t.I/44%10]
	n := 1 + t.R.IntN(4)
	var d chunkData
	if k := t.I % 44; k < 42 {
		c, a := combo(k)
		d = mkChunk(t.R, c, a, n, true)
	} else {
		d = mkColors(t.R, n, k == 43)
	}
	in := func(l ...any) bool {
		for _, x := range l {
			if reflect.TypeOf(x) == reflect.TypeOf(d.data) {
				return true
			}
		}
		return false
	}
	var ok bool
	var single func(*gltf.Document, any) int
	switch semantic(name) {
	case gltf.POSITION:
		ok = in([][3]float32{})
	case gltf.TEXCOORD_0:
		ok, single = in([][2]uint8{}, [][2]uint16{}, [][2]float32{}), modeler.WriteTextureCoord
	case gltf.WEIGHTS_0:
		ok, single = in([][4]uint8{}, [][4]uint16{}, [][4]float32{}), modeler.WriteWeights
	case gltf.JOINTS_0:
		ok, single = in([][4]uint8{}, [][4]uint16{}), modeler.WriteJoints
	case gltf.COLOR_0:
		ok, single = in([]color.RGBA{}, []color.RGBA64{}, [][3]uint8{}, [][3]uint16{}, [][3]float32{}, [][4]uint8{}, [][4]uint16{}, [][4]float32{}), modeler.WriteColor
	}
	doc := gltf.NewDocument()
	attrs := []modeler.PrimitiveAttribute{{Name: name, Data: d.data}}
	other := mkChunk(t.R, gltf.ComponentFloat, gltf.AccessorVec3, n, true)
	switch t.R.IntN(3) {
	case 0:
		attrs = append(attrs, modeler.PrimitiveAttribute{Name: gltf.NORMAL, Data: other.data})
	case 1:
		attrs = append([]modeler.PrimitiveAttribute{{Name: gltf.NORMAL, Data: other.data}}, attrs...)
	}
	m, err := modeler.WritePrimitiveAttributes(doc, attrs...)
	if ok != (err == nil) {
		t.Failf("attribute %s with %T: %v", name, d.data, err)
	}
	norm := ok && d.c != gltf.ComponentFloat && semantic(name) != gltf.JOINTS_0
	if ok {
		a := doc.Accessors[m[name]]
		if a.Normalized != norm || a.ComponentType != d.c || a.Type != d.a {
			t.Failf("attribute %s with %T: %+v", name, d.data, *a)
		}
	}
	if single != nil {
		doc := gltf.NewDocument()
		id := -1
		err, _ := tryWrite(func() error { id = single(doc, d.data); return nil })
		if ok != (err == nil) {
			t.Failf("writer of %s with %T: %v", name, d.data, err)
		}
		if ok && doc.Accessors[id].Normalized != norm {
			t.Failf("writer of %s with %T: normalized %v", name, d.data, doc.Accessors[id].Normalized)
		}
	}
	ind := reflect.TypeOf(d.data) == reflect.TypeOf([]uint16{}) || reflect.TypeOf(d.data) == reflect.TypeOf([]uint32{})
	err, _ = tryWrite(func() error { modeler.WriteIndices(gltf.NewDocument(), d.data); return nil })
	if ind != (err == nil) {
		t.Failf("WriteIndices of %T: %v", d.data, err)
	}
	t.Hit("attr_types")
	t.Key(name, fmt.Sprintf("%T", d.data), n)
}

// c18large: items that are larger than any internal buffer.
func c18large(t *T) {
	size := []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 2<<20 + 3, 4<<20 + 1}
	doc := new(gltf.Document)
	type item struct {
		what string
		view int
		acr  int // -1: none
		data [][3]uint16
		raw  []byte
	}
	var items []item
	random := func(n int) []byte {
		b := make([]byte, n)
		for i := 0; i < n; i += 8 {
			x := t.R.Uint64()
			for k := i; k < min(i+8, n); k++ {
				b[k], x = byte(x), x>>8
			}
		}
		return b
	}
	for range 3 {
		n := size[t.R.IntN(len(size))]
		b := random(n)
		switch k := t.R.IntN(6); k {
		case 0, 1, 2:
			var r io.Reader = bytes.NewReader(b)
			switch t.R.IntN(5) {
			case 0:
				r = bytes.NewBuffer(bytes.Clone(b))
			case 1:
				r = iotest.HalfReader(r)
			case 2:
				r = iotest.DataErrReader(r)
			case 3:
				r = struct{ io.Reader }{r}
			}
			i, err := modeler.WriteImage(doc, "big", "image/png", r)
			if err != nil || i < 0 || i >= len(doc.Images) || doc.Images[i].BufferView == nil {
				t.Failf("WriteImage of %d bytes: %d, %v", n, i, err)
			}
			items = append(items, item{what: fmt.Sprintf("image of %d bytes (%T)", n, r), view: *doc.Images[i].BufferView, acr: -1, raw: b})
		case 3:
			i := modeler.WriteBufferView(doc, gltf.TargetNone, b)
			items = append(items, item{what: fmt.Sprintf("view of %d bytes", n), view: i, acr: -1, raw: b})
		default:
			data := make([][3]uint16, n/6)
			for i := range data {
				data[i] = [3]uint16{uint16(b[6*i]) | uint16(b[6*i+1])<<8, uint16(b[6*i+2]), uint16(i)}
			}
			i := modeler.WriteColor(doc, data)
			items = append(items, item{what: fmt.Sprintf("%d colours", len(data)), acr: i, data: append([][3]uint16{}, data...)})
		}
	}
	verify := func(doc *gltf.Document, when string) {
		for _, it := range items {
			if it.acr < 0 {
				got, err := modeler.ReadBufferView(doc, doc.BufferViews[it.view])
				if err != nil || !bytes.Equal(got, it.raw) {
					t.Failf("%s: %s: %d bytes came back that differ (%v)", when, it.what, len(got), err)
				}
				continue
			}
			got, err := modeler.ReadAccessor(doc, doc.Accessors[it.acr], nil)
			if colors, ok := got.([][3]uint16); err != nil || !ok || !slices.Equal(colors, it.data) {
				t.Failf("%s: %s come back different (%v)", when, it.what, err)
			}
		}
		t.Eval(1)
	}
	verify(doc, "at the end")
	m := modes[t.R.IntN(len(modes))]
	out, err := encode(doc, m, nil)
	if err != nil {
		t.Failf("%v: %v", m, err)
	}
	back, err := decode(out, nil)
	if err != nil {
		t.Failf("%v: %v", m, err)
	}
	verify(back, "reloaded from "+m.String())
	t.Key("large", t.I)
	t.Hit("large_items")
}
