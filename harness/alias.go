package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/modeler"
)

// region is memory that a value can be changed through.
type region struct {
	lo, hi uintptr
	path   string
}

// regionsOf collects the memory reachable from v through pointers, slices and
// maps; text is immutable.
func regionsOf(path string, v reflect.Value, out *[]region) {
	add := func(p, n uintptr) {
		if n > 0 {
			*out = append(*out, region{p, p + n, path})
		}
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			add(v.Pointer(), v.Type().Elem().Size())
			regionsOf(path, v.Elem(), out)
		}
	case reflect.Interface:
		if !v.IsNil() {
			regionsOf(path, v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			regionsOf(path+"."+v.Type().Field(i).Name, v.Field(i), out)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			regionsOf(fmt.Sprintf("%s[%d]", path, i), v.Index(i), out)
		}
	case reflect.Slice:
		add(v.Pointer(), uintptr(v.Len())*v.Type().Elem().Size())
		switch v.Type().Elem().Kind() {
		case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.Slice, reflect.Map, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				regionsOf(fmt.Sprintf("%s[%d]", path, i), v.Index(i), out)
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			add(v.Pointer(), 8)
			it := v.MapRange()
			for it.Next() {
				regionsOf(fmt.Sprintf("%s[%v]", path, it.Key()), it.Value(), out)
			}
		}
	}
}

// overlap returns two regions that share memory.
func overlap(rs []region) (a, b region, found bool) {
	sort.Slice(rs, func(i, j int) bool { return rs[i].lo < rs[j].lo || rs[i].lo == rs[j].lo && rs[i].hi < rs[j].hi })
	var top region
	for i, r := range rs {
		if i > 0 && r.lo < top.hi {
			return top, r, true
		}
		if r.hi > top.hi {
			top = r
		}
	}
	return a, b, false
}

// c03aliasing: everything the library makes independently has memory of its own.
func c03aliasing(t *T) {
	g := newGen(t.R)
	g.mixedURIs()
	doc := g.document()
	if t.I%2 == 0 {
		for k := 0; k < 2; k++ {
			place("Material", doc)
			doc.Materials = append(doc.Materials, &gltf.Material{NormalTexture: &gltf.NormalTexture{}, OcclusionTexture: &gltf.OcclusionTexture{}, PBRMetallicRoughness: &gltf.PBRMetallicRoughness{}})
			doc.Nodes = append(doc.Nodes, &gltf.Node{})
		}
		if doc.Extensions == nil {
			doc.Extensions = gltf.Extensions{}
		}
		doc.Extensions[lightspunctual.ExtensionName] = lightspunctual.Lights{{Type: lightspunctual.TypeSpot, Spot: &lightspunctual.Spot{}}, {Type: lightspunctual.TypePoint}}
	}
	mem := newMemFS()
	m := modes[t.R.IntN(3)]
	text, err := encode(doc, m, mem)
	if err != nil {
		t.Failf("encoding failed: %v", err)
	}
	t.Note("input", text)
	var rs []region
	var keep []any // memory that is freed is used again
	add := func(path string, v any) {
		keep = append(keep, v)
		regionsOf(path, reflect.ValueOf(v), &rs)
	}
	add("DefaultMatrix", &gltf.DefaultMatrix)
	add("DefaultRotation", &gltf.DefaultRotation)
	add("DefaultScale", &gltf.DefaultScale)
	add("DefaultTranslation", &gltf.DefaultTranslation)
	for k := 0; k < 2; k++ {
		d, err := decode(text, mem)
		if err != nil {
			t.Failf("decoding failed: %v", err)
		}
		add(fmt.Sprint("decoded", k), d)
		n := gltf.NewDocument()
		if k == 1 || t.R.IntN(2) == 0 {
			pos := make([][3]float32, 1+t.R.IntN(4))
			modeler.WritePosition(n, pos)
			modeler.WriteIndices(n, []uint16{0, 1, 2}[:t.R.IntN(4)])
			modeler.WriteColor(n, [][4]uint8{{1, 2, 3, 4}})
			modeler.WriteAccessor(n, gltf.TargetNone, []float32{1})
			if _, err := modeler.WritePrimitiveAttributes(n, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: pos}); err != nil {
				t.Failf("%v", err)
			}
			if _, err := modeler.WriteAccessorsInterleaved(n, pos, make([][2]uint16, len(pos))); err != nil {
				t.Failf("%v", err)
			}
			t.Hit("modeler_documents")
		}
		add(fmt.Sprint("new", k), n)
		for i := 0; i < 3; i++ {
			add(fmt.Sprintf("Index(%d) call %d", i, k), gltf.Index(i))
			add(fmt.Sprintf("Float(%d) call %d", i, k), gltf.Float(float64(i)))
		}
	}
	t.HitN("memory_regions", len(rs))
	if a, b, bad := overlap(rs); bad {
		t.Failf("%s and %s share memory: changing one changes the other", a.path, b.path)
	}
	runtime.KeepAlive(keep)
	t.Key("aliasing", text)
}
