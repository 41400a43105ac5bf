package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
)

// A defaulted property: type, field and default.
type defaulted struct {
	typ string
	f   fld
	def any
	ptr bool
}

var defaulteds = func() []defaulted {
	var out []defaulted
	for _, s := range singles {
		key := s.typ + "." + s.f.Go
		if d, ok := valueDefaults[key]; ok {
			out = append(out, defaulted{s.typ, s.f, d, false})
		} else if d, ok := ptrDefaults[key]; ok {
			out = append(out, defaulted{s.typ, s.f, d, true})
		}
	}
	out = append(out,
		defaulted{"Node", fld{"Translation", "translation", opt}, [3]float64{}, false},
		defaulted{"Material", fld{"EmissiveFactor", "emissiveFactor", opt}, [3]float64{}, false},
		defaulted{"Material", fld{"AlphaMode", "alphaMode", opt}, gltf.AlphaOpaque, false},
		defaulted{"Material", fld{"DoubleSided", "doubleSided", opt}, false, false},
		defaulted{"Primitive", fld{"Mode", "mode", opt}, gltf.PrimitiveTriangles, false},
		defaulted{"Sampler", fld{"WrapS", "wrapS", opt}, gltf.WrapRepeat, false},
		defaulted{"Sampler", fld{"WrapT", "wrapT", opt}, gltf.WrapRepeat, false},
		defaulted{"Sampler", fld{"MagFilter", "magFilter", omit}, gltf.MagUndefined, false},
		defaulted{"Sampler", fld{"MinFilter", "minFilter", omit}, gltf.MinUndefined, false},
		defaulted{"AnimationSampler", fld{"Interpolation", "interpolation", opt}, gltf.InterpolationLinear, false},
		defaulted{"BufferView", fld{"ByteOffset", "byteOffset", opt}, 0, false},
		defaulted{"BufferView", fld{"Target", "target", omit}, gltf.TargetNone, false},
		defaulted{"Accessor", fld{"ByteOffset", "byteOffset", opt}, 0, false},
		defaulted{"Accessor", fld{"Normalized", "normalized", opt}, false, false},
		defaulted{"TextureInfo", fld{"TexCoord", "texCoord", opt}, 0, false},
		defaulted{"NormalTexture", fld{"TexCoord", "texCoord", opt}, 0, false},
		defaulted{"OcclusionTexture", fld{"TexCoord", "texCoord", opt}, 0, false},
		defaulted{"Spot", fld{"InnerConeAngle", "innerConeAngle", opt}, 0.0, false},
		defaulted{"TextureTranform", fld{"Offset", "offset", opt}, [2]float64{}, false},
		defaulted{"TextureTranform", fld{"Rotation", "rotation", opt}, 0.0, false},
	)
	return out
}()

// locate returns the object that place created, in the decoded document.
func locate(typ string, doc *gltf.Document) reflect.Value {
	var p any
	mat := func() *gltf.Material { return doc.Materials[0] }
	light := func() *lightspunctual.Light {
		return doc.Extensions[lightspunctual.ExtensionName].(lightspunctual.Lights)[0]
	}
	switch typ {
	case "Asset":
		p = &doc.Asset
	case "Accessor":
		p = doc.Accessors[0]
	case "BufferView":
		p = doc.BufferViews[0]
	case "Node":
		p = doc.Nodes[0]
	case "Primitive":
		p = doc.Meshes[0].Primitives[0]
	case "Material":
		p = mat()
	case "NormalTexture":
		p = mat().NormalTexture
	case "OcclusionTexture":
		p = mat().OcclusionTexture
	case "PBRMetallicRoughness":
		p = mat().PBRMetallicRoughness
	case "TextureInfo":
		p = mat().EmissiveTexture
	case "Sampler":
		p = doc.Samplers[0]
	case "AnimationSampler":
		p = doc.Animations[0].Samplers[0]
	case "Light":
		p = light()
	case "Spot":
		p = light().Spot
	case "PBRSpecularGlossiness":
		p = mat().Extensions[specular.ExtensionName]
	case "TextureTranform":
		p = mat().EmissiveTexture.Extensions[texturetransform.ExtensionName]
	default:
		infra("locate: %s", typ)
	}
	return reflect.ValueOf(p).Elem()
}

// current returns the effective value of a field: the pointee, or the default
// of an unset field.
func current(v reflect.Value) any {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil
		}
		return v.Elem().Interface()
	}
	return v.Interface()
}

// orDefault calls the ...OrDefault method of the field if there is one.
func orDefault(obj reflect.Value, field string) (any, bool) {
	m := obj.Addr().MethodByName(field + "OrDefault")
	if !m.IsValid() {
		return nil, false
	}
	return m.Call(nil)[0].Interface(), true
}

func sameVal(a, b any) bool { return reflect.DeepEqual(a, b) }

// jsonAt finds the member of the encoded object that place created.
func jsonAt(typ string, tree any) *jobj {
	get := func(v any, path ...any) any {
		for _, p := range path {
			switch p := p.(type) {
			case string:
				o, ok := v.(*jobj)
				if !ok {
					return nil
				}
				v = o.m[p]
			case int:
				a, ok := v.([]any)
				if !ok || len(a) <= p {
					return nil
				}
				v = a[p]
			}
		}
		return v
	}
	var paths = map[string][]any{
		"Asset": {"asset"}, "Accessor": {"accessors", 0}, "BufferView": {"bufferViews", 0}, "Node": {"nodes", 0}, "Primitive": {"meshes", 0, "primitives", 0},
		"Material": {"materials", 0}, "NormalTexture": {"materials", 0, "normalTexture"}, "OcclusionTexture": {"materials", 0, "occlusionTexture"},
		"PBRMetallicRoughness": {"materials", 0, "pbrMetallicRoughness"}, "TextureInfo": {"materials", 0, "emissiveTexture"}, "Sampler": {"samplers", 0},
		"AnimationSampler": {"animations", 0, "samplers", 0}, "Light": {"extensions", lightspunctual.ExtensionName, "lights", 0},
		"Spot":                  {"extensions", lightspunctual.ExtensionName, "lights", 0, "spot"},
		"PBRSpecularGlossiness": {"materials", 0, "extensions", specular.ExtensionName},
		"TextureTranform":       {"materials", 0, "emissiveTexture", "extensions", texturetransform.ExtensionName},
	}
	o, _ := get(tree, paths[typ]...).(*jobj)
	return o
}

var defaultVars = map[string]func() any{
	"gltf.DefaultMatrix":            func() any { return gltf.DefaultMatrix },
	"gltf.DefaultRotation":          func() any { return gltf.DefaultRotation },
	"gltf.DefaultScale":             func() any { return gltf.DefaultScale },
	"gltf.DefaultTranslation":       func() any { return gltf.DefaultTranslation },
	"texturetransform.DefaultScale": func() any { return texturetransform.DefaultScale },
}
var defaultVarValues = map[string]any{
	"gltf.DefaultMatrix": identity16, "gltf.DefaultRotation": identityQ, "gltf.DefaultScale": ones3, "gltf.DefaultTranslation": [3]float64{}, "texturetransform.DefaultScale": ones2,
}

func checkDefaultVars(t *T) {
	for k, f := range defaultVars {
		if !sameVal(f(), defaultVarValues[k]) {
			t.Failf("%s has become %v", k, f())
		}
	}
}

// decodeObject decodes a document with the given text for the object of type typ.
func decodeObject(t *T, typ string, text []byte) (*gltf.Document, reflect.Value) {
	t.Note("input", text)
	doc, err := decode(text, nil)
	if err != nil {
		t.Failf("decoding failed: %v", err)
	}
	return doc, locate(typ, doc)
}

func init() {
	// explicitValue makes an explicit value for a defaulted property, k selects its kind.
	explicitValue := func(g *gen, d defaulted, k int) (reflect.Value, string) {
		v := reflect.New(reflect.TypeOf(d.def)).Elem()
		kind := "random"
		switch {
		case isEnum(v.Type()):
			cs := enumCodes[v.Type().Name()]
			v.Set(reflect.ValueOf(cs[k%len(cs)].Val))
			return v, "enum"
		case v.Kind() == reflect.Array:
			switch k % 5 {
			case 0:
				kind = "zero"
			case 1:
				v.Set(reflect.ValueOf(d.def))
				v.Index(g.r.IntN(v.Len())).SetFloat(g.float())
				kind = "partial_default"
			case 2:
				v.Index(g.r.IntN(v.Len())).SetFloat(g.float())
				kind = "partial_zero"
			case 3:
				v.Set(reflect.ValueOf(d.def))
				kind = "default"
			default:
				for i := 0; i < v.Len(); i++ {
					v.Index(i).SetFloat(g.float())
				}
			}
		case v.Kind() == reflect.Float64:
			switch k % 5 {
			case 0:
				kind = "zero"
			case 1:
				if d.def != inf {
					v.Set(reflect.ValueOf(d.def))
				}
				kind = "default"
			case 2:
				v.SetFloat(math.Nextafter(d.defFloat(), 0))
				kind = "near_default"
			default:
				v.SetFloat(g.float())
			}
		case v.Kind() == reflect.String:
			v.SetString([]string{"2.0", "1.0", "2.1", "3", "2", "2.00", "02.0", "2.0.0", "2.0 ", "v2.0", g.str()}[k%11])
			kind = "string"
		case v.Kind() == reflect.Bool:
			v.SetBool(k%2 == 0)
			kind = "bool"
		case v.Kind() == reflect.Int:
			v.SetInt(int64(g.index()))
			kind = "int"
		}
		return v, kind
	}

	register(&Prop{
		ID: "C03", QuickMul: 100, DeepMul: 30, Level: "exploration",
		Rule:    "for each of the properties with a default: absent, and explicit with zero, default, near-default, partly default and random values, in decoding, in encoding and through the OrDefault accessors; aliasing of defaults between objects; distinct by property and value",
		Need:    map[string]int{"absent": len(defaulteds), "explicit_zero": 50, "explicit_partial_default": 20, "explicit_near_default": 20, "ordefault_unset": 10, "alias_mutations": 100, "reuse": 200, "encoded_explicit": 300, "memory_regions": 5000, "modeler_documents": 100},
		MinKeys: 300,
		Families: []Family{
			{Name: "absent", Quick: len(defaulteds), Thorough: len(defaulteds) * 50, Run: func(t *T) {
				d := defaulteds[t.I%len(defaulteds)]
				g := newGen(t.R)
				doc := &gltf.Document{}
				obj := place(d.typ, doc)
				if t.I >= len(defaulteds) { // the other properties at random
					g.dens, g.noExt = 0.5, true
					g.fill(d.typ, obj)
				}
				// The property at its zero value is left out by the writer.
				f := obj.FieldByName(d.f.Go)
				f.Set(reflect.Zero(f.Type()))
				w := &refWriter{}
				ms := w.tree("Document", "", reflect.ValueOf(doc).Elem())
				text := dropMember(w, ms, d)
				t.Note("property", d.typ+"."+d.f.Go)
				_, got := decodeObject(t, d.typ, text)
				if c := current(got.FieldByName(d.f.Go)); !sameVal(c, d.def) {
					t.Failf("absent %s.%s decodes to %v, want the default %v", d.typ, d.f.JSON, c, d.def)
				}
				if x, ok := orDefault(got, d.f.Go); ok {
					if !sameVal(x, d.def) {
						t.Failf("%sOrDefault of an absent %s is %v, want %v", d.f.Go, d.f.JSON, x, d.def)
					}
				}
				// Unset in Go code.
				zero := reflect.New(obj.Type()).Elem()
				if x, ok := orDefault(zero, d.f.Go); ok {
					if !sameVal(x, d.def) {
						t.Failf("%sOrDefault of an unset field is %v, want %v", d.f.Go, x, d.def)
					}
					t.Hit("ordefault_unset")
				}
				checkDefaultVars(t)
				t.Hit("absent")
				t.Key(d.typ, d.f.Go, "absent", t.I/len(defaulteds))
			}},
			{Name: "explicit", Quick: len(defaulteds) * 20, Thorough: len(defaulteds) * 600, Run: func(t *T) {
				d := defaulteds[t.I%len(defaulteds)]
				g := newGen(t.R)
				v, kind := explicitValue(g, d, t.I/len(defaulteds))
				t.Note("property", d.typ+"."+d.f.Go)
				t.Note("value", fmt.Sprint(v.Interface()))
				doc := &gltf.Document{}
				obj := place(d.typ, doc)
				if t.R.IntN(2) == 0 {
					g.dens, g.noExt = 0.5, true
					g.fill(d.typ, obj)
				}
				f := obj.FieldByName(d.f.Go)
				if d.ptr {
					p := reflect.New(v.Type())
					p.Elem().Set(v)
					f.Set(p)
				} else {
					f.Set(v)
				}
				want := v.Interface()
				_, unsetZero := valueDefaults[d.typ+"."+d.f.Go]
				meansUnset := unsetZero && v.IsZero()

				// Accessor of a set field.
				if x, ok := orDefault(obj, d.f.Go); ok {
					exp := want
					if meansUnset {
						exp = d.def
					}
					if !sameVal(x, exp) {
						t.Failf("%sOrDefault is %v, want %v", d.f.Go, x, exp)
					}
					t.Hit("ordefault_set")
				}

				// Decoding an explicit value, with the member written by the reference writer.
				w := &refWriter{Explicit: 2, g: g}
				tree := w.tree("Document", "", reflect.ValueOf(doc).Elem())
				if meansUnset {
					// The documented exception: the value decodes to itself or the default.
				} else {
					if none, isNone := enumNone[v.Type().Name()]; !isNone || want != none {
						text := render(w, tree)
						_, got := decodeObject(t, d.typ, text)
						if c := current(got.FieldByName(d.f.Go)); !sameVal(c, want) {
							t.Failf("explicit %s.%s = %v decodes to %v", d.typ, d.f.JSON, want, c)
						}
					}
				}

				// Encoding it.
				out, err := encode(doc, mode{}, nil)
				if err != nil {
					t.Failf("encoding failed: %v", err)
				}
				t.Note("encoded", out)
				parsed, err := parseJSON(out)
				if err != nil {
					t.Failf("%v", err)
				}
				o := jsonAt(d.typ, parsed)
				if o == nil {
					t.Failf("the %s object is missing from the encoded document", d.typ)
				}
				j, present := o.m[d.f.JSON]
				isDefault := sameVal(want, d.def) || meansUnset
				if !present && !isDefault {
					t.Failf("explicit %s.%s = %v was not written", d.typ, d.f.JSON, want)
				}
				if present {
					exp := v
					if meansUnset {
						exp = reflect.ValueOf(d.def)
					}
					if err := (&jsonCheck{}).value(d.f.JSON, exp, j); err != nil {
						t.Failf("explicit %s.%s was written as %s, want %v", d.typ, d.f.JSON, short(j), exp.Interface())
					}
				}
				t.Hit("encoded_explicit")
				t.Hit("explicit_" + kind)
				checkDefaultVars(t)
				t.Key(d.typ, d.f.Go, fmt.Sprint(want))
				t.Sample(func() string { return fmt.Sprintf("%s.%s = %v (%s)", d.typ, d.f.JSON, want, kind) })
			}},
			{Name: "alias", Quick: 60, Thorough: 1500, Run: func(t *T) {
				// Several objects leave the property absent; changing one through
				// its pointer must not change the others, nor later decodes.
				text := []byte(`{"asset":{"version":"2.0"},"nodes":[{},{}],"materials":[` +
					strings.Repeat(`{"pbrMetallicRoughness":{},"normalTexture":{"index":0},"occlusionTexture":{"index":0},"emissiveTexture":{"index":0,"extensions":{"KHR_texture_transform":{}}},"extensions":{"KHR_materials_pbrSpecularGlossiness":{}}},`, 1+t.R.IntN(3)) +
					`{"pbrMetallicRoughness":{},"normalTexture":{"index":0},"occlusionTexture":{"index":0},"emissiveTexture":{"index":0,"extensions":{"KHR_texture_transform":{}}},"extensions":{"KHR_materials_pbrSpecularGlossiness":{}}}],` +
					`"extensions":{"KHR_lights_punctual":{"lights":[{"type":"spot","spot":{}},{"type":"spot","spot":{}}]}}}`)
				a, err := decode(text, nil)
				if err != nil {
					t.Failf("decoding failed: %v", err)
				}
				b, _ := decode(text, nil)
				want, err := decode(text, nil)
				if err != nil {
					t.Failf("%v", err)
				}
				frozen := deepCopyDoc(want)
				last := len(a.Materials) - 1
				// Change everything reachable from the first material, node and light.
				n := scramble(reflect.ValueOf(a.Materials[0]), t)
				n += scramble(reflect.ValueOf(a.Nodes[0]), t)
				n += scramble(reflect.ValueOf(a.Extensions[lightspunctual.ExtensionName].(lightspunctual.Lights)[0]), t)
				t.HitN("alias_mutations", n)
				d := &docDiff{}
				if err := d.value("material", reflect.ValueOf(frozen.Materials[last]), reflect.ValueOf(a.Materials[last])); err != nil {
					t.Failf("changing a material changed another one: %v", err)
				}
				if err := d.value("node", reflect.ValueOf(frozen.Nodes[1]), reflect.ValueOf(a.Nodes[1])); err != nil {
					t.Failf("changing a node changed another one: %v", err)
				}
				if err := d.value("light", reflect.ValueOf(frozen.Extensions[lightspunctual.ExtensionName].(lightspunctual.Lights)[1]), reflect.ValueOf(a.Extensions[lightspunctual.ExtensionName].(lightspunctual.Lights)[1])); err != nil {
					t.Failf("changing a light changed another one: %v", err)
				}
				if err := d.diff(frozen, b); err != nil {
					t.Failf("changing a document changed another one: %v", err)
				}
				c, err := decode(text, nil)
				if err != nil {
					t.Failf("%v", err)
				}
				if err := d.diff(frozen, c); err != nil {
					t.Failf("changing a document changed later decodes: %v", err)
				}
				if x := (&gltf.PBRMetallicRoughness{}).BaseColorFactorOrDefault(); x != ones4 {
					t.Failf("BaseColorFactorOrDefault is %v", x)
				}
				checkDefaultVars(t)
				t.Key("alias", t.I)
			}},
			{Name: "aliasing", Quick: 150, Thorough: 8000, Run: c03aliasing},
			{Name: "reuse", Quick: 300, Thorough: 20000, Run: func(t *T) {
				// A variable that was decoded into before: what is absent is the default, not the earlier value.
				typ := reflect.TypeOf([]any{gltf.Node{}, gltf.Material{}, gltf.NormalTexture{}, gltf.OcclusionTexture{}, gltf.PBRMetallicRoughness{}, gltf.Asset{}, lightspunctual.Light{}, lightspunctual.Spot{}, specular.PBRSpecularGlossiness{}, texturetransform.TextureTranform{}}[t.I%10])
				g := newGen(t.R)
				g.noExt, g.jsonExtras = true, true
				text := func(dens float64) []byte {
					g.dens = dens
					v := reflect.New(typ)
					g.fill(typ.Name(), v.Elem())
					b, err := json.Marshal(v.Interface())
					if err != nil {
						t.Failf("%s: %v", typ, err)
					}
					return b
				}
				used, fresh := reflect.New(typ), reflect.New(typ)
				for k := 1 + t.R.IntN(3); k > 0; k-- {
					if err := json.Unmarshal(text(0.9), used.Interface()); err != nil {
						t.Failf("%s: %v", typ, err)
					}
				}
				before := used.Elem().Interface()
				in := text([]float64{0, 0.2, 0.6}[t.R.IntN(3)])
				if t.R.IntN(4) == 0 {
					in = []byte("{}")
					if typ.Name() == "Asset" {
						in = []byte(`{"version":"2.0"}`)
					}
				}
				t.Note("input", in)
				if err := json.Unmarshal(in, fresh.Interface()); err != nil {
					t.Failf("%s: %v", typ, err)
				}
				if err := json.Unmarshal(in, used.Interface()); err != nil {
					t.Failf("%s: %v", typ, err)
				}
				if err := (&docDiff{}).value(typ.Name(), fresh.Elem(), used.Elem()); err != nil {
					t.Failf("decoding %s into a variable that held %+v: %v", in, before, err)
				}
				t.Hit("reuse")
				t.Key(typ.Name(), string(in))
			}},
		},
	})
}

func (d defaulted) defFloat() float64 {
	if f, ok := d.def.(float64); ok && !math.IsInf(f, 0) {
		return f
	}
	return 1
}

func render(w *refWriter, tree members) []byte {
	var b bytes.Buffer
	w.write(&b, tree)
	return b.Bytes()
}

// dropMember writes the tree without the member of the defaulted property.
func dropMember(w *refWriter, tree members, d defaulted) []byte {
	if d.typ == "Asset" && d.f.Go == "Version" {
		for i, m := range tree {
			if m.k == "asset" {
				var keep members
				for _, x := range m.v.(members) {
					if x.k != "version" {
						keep = append(keep, x)
					}
				}
				tree[i].v = keep
			}
		}
	}
	return render(w, tree)
}

// scramble changes every value reachable from v, except map keys.
func scramble(v reflect.Value, t *T) int {
	n := 0
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			n += scramble(v.Elem(), t)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += scramble(v.Field(i), t)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n += scramble(v.Index(i), t)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			n += scramble(v.MapIndex(k), t)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(42.5 + float64(t.R.IntN(100)))
			n++
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(v.Int() + 77)
			n++
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "!")
			n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			n++
		}
	}
	return n
}

// deepCopyDoc copies a document with everything reachable from it.
func deepCopyDoc(doc *gltf.Document) *gltf.Document {
	return deepCopy(reflect.ValueOf(doc)).Interface().(*gltf.Document)
}

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(deepCopy(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type()).Elem()
		c.Set(deepCopy(v.Elem()))
		return c
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if c.Field(i).CanSet() {
				c.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return c
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		switch v.Type().Elem().Kind() {
		case reflect.Uint8, reflect.Int, reflect.Float64, reflect.Float32, reflect.String:
			reflect.Copy(c, v)
			return c
		}
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deepCopy(v.Index(i)))
		}
		return c
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			c.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return c
	default:
		return v
	}
}

// ---- C04 ------------------------------------------------------------------

// compSize and comps are the tables of glTF 2.0.
var compSize = map[gltf.ComponentType]int{gltf.ComponentByte: 1, gltf.ComponentUbyte: 1, gltf.ComponentShort: 2, gltf.ComponentUshort: 2, gltf.ComponentUint: 4, gltf.ComponentFloat: 4}
var accShape = map[gltf.AccessorType][2]int{ // columns, rows
	gltf.AccessorScalar: {1, 1}, gltf.AccessorVec2: {1, 2}, gltf.AccessorVec3: {1, 3}, gltf.AccessorVec4: {1, 4},
	gltf.AccessorMat2: {2, 2}, gltf.AccessorMat3: {3, 3}, gltf.AccessorMat4: {4, 4}}
var allComps = []gltf.ComponentType{gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort, gltf.ComponentUint, gltf.ComponentFloat}
var allTypes = []gltf.AccessorType{gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4}

func round4(n int) int { return (n + 3) &^ 3 }

// elemSize is the padded size of an element: the columns of a vector or matrix are aligned to 4 bytes.
func elemSize(c gltf.ComponentType, a gltf.AccessorType) int {
	s := accShape[a]
	if a == gltf.AccessorScalar {
		return compSize[c]
	}
	return s[0] * round4(s[1]*compSize[c])
}

var enumTypes = map[string]reflect.Type{
	"ComponentType": reflect.TypeOf(gltf.ComponentType(0)), "AccessorType": reflect.TypeOf(gltf.AccessorType(0)), "PrimitiveMode": reflect.TypeOf(gltf.PrimitiveMode(0)),
	"AlphaMode": reflect.TypeOf(gltf.AlphaMode(0)), "MagFilter": reflect.TypeOf(gltf.MagFilter(0)), "MinFilter": reflect.TypeOf(gltf.MinFilter(0)),
	"WrappingMode": reflect.TypeOf(gltf.WrappingMode(0)), "Interpolation": reflect.TypeOf(gltf.Interpolation(0)), "TRSProperty": reflect.TypeOf(gltf.TRSProperty(0)), "Target": reflect.TypeOf(gltf.Target(0)),
}

// enumFields: where each enumeration appears in documents.
var enumFields = map[string][][2]string{
	"ComponentType": {{"Accessor", "ComponentType"}, {"SparseIndices", "ComponentType"}}, "AccessorType": {{"Accessor", "Type"}}, "PrimitiveMode": {{"Primitive", "Mode"}},
	"AlphaMode": {{"Material", "AlphaMode"}}, "MagFilter": {{"Sampler", "MagFilter"}}, "MinFilter": {{"Sampler", "MinFilter"}}, "WrappingMode": {{"Sampler", "WrapS"}, {"Sampler", "WrapT"}},
	"Interpolation": {{"AnimationSampler", "Interpolation"}}, "TRSProperty": {{"AnimationChannelTarget", "Path"}}, "Target": {{"BufferView", "Target"}},
}

func init() {
	type ec struct {
		name string
		c    code
	}
	var all []ec
	var names []string
	for n := range enumCodes {
		names = append(names, n)
	}
	names = sortStrings(names)
	for _, n := range names {
		for _, c := range enumCodes[n] {
			all = append(all, ec{n, c})
		}
	}
	register(&Prop{
		ID: "C04", QuickMul: 90, DeepMul: 60, Level: "exploration",
		Rule: "every value of every enumeration (exhaustive), alone and in documents, over each previous content of the destination; every component/accessor combination; random unknown strings and JSON values of wrong types; distinct by enumeration, value and place",
		Need: map[string]int{"codes": len(all), "in_documents": len(all), "sizes": 42, "unknown_types": 100, "wrong_json": 100, "known_codes": 40, "unassigned_codes": 100000, "all_names": len(names), "attribute_names": 8}, MinKeys: 100,
		Families: []Family{
			{Name: "codes", Quick: len(all), Thorough: len(all), Run: func(t *T) {
				e := all[t.I]
				rt := enumTypes[e.name]
				t.Note("value", e.name+" "+e.c.Name)
				p := reflect.New(rt)
				p.Elem().Set(reflect.ValueOf(e.c.Val))
				b, err := json.Marshal(p.Interface())
				if err != nil || string(b) != codeText(e.c.Code) {
					t.Failf("%s %s is written as %s (%v), want %s", e.name, e.c.Name, b, err, codeText(e.c.Code))
				}
				if s, ok := e.c.Val.(fmt.Stringer); !ok || s.String() != e.c.Name {
					t.Failf("%s %s has the name %q", e.name, e.c.Name, s.String())
				}
				for _, prev := range enumCodes[e.name] { // whatever the variable held
					q := reflect.New(rt)
					q.Elem().Set(reflect.ValueOf(prev.Val))
					if err := json.Unmarshal([]byte(" "+codeText(e.c.Code)), q.Interface()); err != nil || q.Elem().Interface() != e.c.Val {
						t.Failf("%s reads %s as %v (%v)", e.name, codeText(e.c.Code), q.Elem().Interface(), err)
					}
					t.Eval(1)
				}
				t.Hit("codes")
				t.Key("code", e.name, e.c.Name)
				t.Sample(func() string { return e.name + " " + e.c.Name + " = " + codeText(e.c.Code) })
			}},
			{Name: "names", Quick: len(names) + 1, Thorough: len(names) + 1, Run: func(t *T) {
				if t.I == len(names) {
					for have, want := range map[string]string{gltf.POSITION: "POSITION", gltf.NORMAL: "NORMAL", gltf.TANGENT: "TANGENT", gltf.TEXCOORD_0: "TEXCOORD_0",
						gltf.TEXCOORD_1: "TEXCOORD_1", gltf.WEIGHTS_0: "WEIGHTS_0", gltf.JOINTS_0: "JOINTS_0", gltf.COLOR_0: "COLOR_0"} {
						if have != want {
							t.Failf("the attribute %s is named %q", want, have)
						}
						t.Hit("attribute_names")
					}
					return
				}
				// Only an assigned value has the name of one, and any value has some name.
				n := names[t.I]
				val := map[any]string{}
				taken := map[string]bool{}
				for _, c := range enumCodes[n] {
					val[c.Val], taken[c.Name] = c.Name, true
				}
				v := reflect.New(enumTypes[n]).Elem()
				top := 1 << v.Type().Bits()
				for i := 0; i < top; i++ {
					v.SetUint(uint64(i))
					s := v.Interface().(fmt.Stringer).String()
					if want, ok := val[v.Interface()]; ok && s != want || !ok && taken[s] {
						t.Failf("%s(%d) has the name %q", n, i, s)
					}
				}
				t.Eval(top)
				t.Hit("all_names")
				t.Key("names", n)
			}},
			{Name: "documents", Quick: len(all) * 4, Thorough: len(all) * 200, Run: func(t *T) {
				e := all[t.I%len(all)]
				for _, place1 := range enumFields[e.name] {
					doc := &gltf.Document{}
					obj := place(place1[0], doc)
					g := newGen(t.R)
					if t.I >= len(all) && place1[0] != "SparseIndices" {
						g.fill(place1[0], obj)
					}
					obj.FieldByName(place1[1]).Set(reflect.ValueOf(e.c.Val))
					var jname string
					for _, f := range specTable[place1[0]] {
						if f.Go == place1[1] {
							jname = f.JSON
						}
					}
					for _, m := range modes[:2] {
						out, err := encode(doc, m, nil)
						if err != nil {
							t.Failf("%v", err)
						}
						t.Note("encoded", out)
						text := out
						if m.binary {
							cs, err := parseGLB(out)
							if err != nil {
								t.Failf("%v", err)
							}
							text = cs[0].data
						}
						if err := (&jsonCheck{binary: m.binary}).document(doc, text); err != nil {
							t.Failf("%s in %s.%s: %v", e.c.Name, place1[0], jname, err)
						}
						back, err := decode(out, nil)
						if err != nil {
							t.Failf("%v", err)
						}
						if err := saveDiff().diff(doc, back); err != nil {
							t.Failf("%s in %s.%s: %v", e.c.Name, place1[0], jname, err)
						}
					}
					t.Key("doc", e.name, e.c.Name, place1[0], place1[1], t.I/len(all))
				}
				t.Hit("in_documents")
			}},
			{Name: "allcodes", Quick: 7 * 64, Thorough: 7 * 64, Run: func(t *T) {
				// Every 16-bit code: one that is not assigned is never taken for that of another value.
				n := []string{"ComponentType", "PrimitiveMode", "MagFilter", "MinFilter", "WrappingMode", "Target", "AlphaMode"}[t.I%7]
				rt := enumTypes[n]
				known := map[string]any{}
				for _, c := range enumCodes[n] {
					known[codeText(c.Code)] = c.Val
				}
				g := newGen(t.R)
				for k := 0; k < 1024; k++ {
					text := strconv.Itoa(t.I/7*1024 + k)
					name := n
					if n == "AlphaMode" { // and arbitrary text for those that are text
						name = []string{"AlphaMode", "Interpolation", "TRSProperty"}[k%3]
						known = map[string]any{}
						for _, c := range enumCodes[name] {
							known[codeText(c.Code)] = c.Val
						}
						s := g.str()
						if c := enumCodes[name]; t.R.IntN(2) == 0 {
							s = c[t.R.IntN(len(c))].Code.(string)
							switch t.R.IntN(6) {
							case 0:
								s = strings.ToLower(s)
							case 1:
								s = s[:t.R.IntN(len(s)+1)]
							case 2:
								s = s + " "
							case 3:
								s = strings.Title(s)
							case 4:
								s += s
							}
						}
						b, _ := json.Marshal(s)
						text = string(b)
						if x := new(string); json.Unmarshal(b, x) == nil {
							text = strconv.Quote(*x)
							if json.Unmarshal([]byte(text), new(string)) != nil {
								text = string(b)
							}
						}
						rt = enumTypes[name]
					}
					q := reflect.New(rt)
					err := json.Unmarshal([]byte(text), q.Interface())
					got := q.Elem().Interface()
					t.Eval(1)
					if want, ok := known[text]; ok {
						if err != nil || got != want {
							t.Failf("%s reads %s as %v (%v)", name, text, got, err)
						}
						t.Hit("known_codes")
						continue
					}
					t.Hit("unassigned_codes")
					if err != nil || q.Elem().IsZero() {
						continue
					}
					if code, ok := enumCode(q.Elem()); ok || n != "Target" {
						t.Failf("%s reads %s, which is not assigned, as %v (%v)", name, text, got, code)
					}
				}
				t.Key("allcodes", t.I)
			}},
			{Name: "sizes", Quick: 42, Thorough: 42, Run: func(t *T) {
				c, a := allComps[t.I/7], allTypes[t.I%7]
				s := accShape[a]
				if c.ByteSize() != compSize[c] {
					t.Failf("%v.ByteSize is %d", c, c.ByteSize())
				}
				if a.Components() != s[0]*s[1] {
					t.Failf("%v.Components is %d", a, a.Components())
				}
				if got := gltf.SizeOfElement(c, a); got != elemSize(c, a) {
					t.Failf("SizeOfElement(%v, %v) is %d, want %d", c, a, got, elemSize(c, a))
				}
				t.Hit("sizes")
				t.Key("size", c, a)
			}},
			{Name: "unknown", Quick: 400, Thorough: 20000, Run: func(t *T) {
				g := newGen(t.R)
				s := g.str()
				if t.R.IntN(2) == 0 { // close to a known one
					k := enumCodes["AccessorType"][t.R.IntN(7)].Name
					switch t.R.IntN(4) {
					case 0:
						s = strings.ToLower(k)
					case 1:
						s = k + string(rune('0'+t.R.IntN(10)))
					case 2:
						s = k[:t.R.IntN(len(k))]
					case 3:
						s = " " + k
					}
				}
				for _, c := range enumCodes["AccessorType"] {
					if c.Name == s {
						return
					}
				}
				q, _ := json.Marshal(s)
				var a gltf.AccessorType
				if err := json.Unmarshal(q, &a); err == nil {
					t.Failf("unknown accessor type %s is accepted as %v", q, a)
				}
				if _, err := decode([]byte(`{"asset":{"version":"2.0"},"accessors":[{"type":`+string(q)+`,"componentType":5126,"count":1}]}`), nil); err == nil {
					t.Failf("a document with the accessor type %s is accepted", q)
				}
				t.Hit("unknown_types")
				t.Key("unknown", s)
			}},
			{Name: "wrong", Quick: 400, Thorough: 20000, Run: func(t *T) {
				n := names[t.I%len(names)]
				_, isStr := enumCodes[n][0].Code.(string)
				wrong := []string{`{}`, `[]`, `true`, `false`, `[5120]`, `{"a":1}`, `1.5`, `-1`, `1e10`, `70000`, `["SCALAR"]`}
				if isStr {
					wrong = append(wrong, `0`, `1`, `5126`)
				} else {
					wrong = append(wrong, `"5120"`, `""`, `"SCALAR"`, `"0"`)
				}
				v := wrong[t.R.IntN(len(wrong))]
				q := reflect.New(enumTypes[n])
				if err := json.Unmarshal([]byte(v), q.Interface()); err == nil {
					t.Failf("%s accepts %s as %v", n, v, q.Elem().Interface())
				}
				pl := enumFields[n][t.R.IntN(len(enumFields[n]))]
				doc := &gltf.Document{}
				place(pl[0], doc)
				var jname string
				for _, f := range specTable[pl[0]] {
					if f.Go == pl[1] {
						jname = f.JSON
					}
				}
				// Replace, or add, the member in the reference text.
				w := &refWriter{Explicit: 2, g: newGen(t.R)}
				tree := w.tree("Document", "", reflect.ValueOf(doc).Elem())
				if !replaceMember(tree, jname, rawNode(v), pl[0]) {
					return
				}
				text := render(w, tree)
				t.Note("input", text)
				if _, err := decode(text, nil); err == nil {
					t.Failf("a document with %s = %s is accepted", jname, v)
				}
				t.Hit("wrong_json")
				t.Key("wrong", n, v, pl[1])
			}},
		},
	})
}

// replaceMember sets the member key of the first object found for the type.
func replaceMember(tree members, key string, val any, typ string) bool {
	path := map[string][]string{"Accessor": {"accessors"}, "SparseIndices": {"accessors", "sparse", "indices"}, "Primitive": {"meshes", "primitives"}, "Material": {"materials"},
		"Sampler": {"samplers"}, "AnimationSampler": {"animations", "samplers"}, "AnimationChannelTarget": {"animations", "channels", "target"}, "BufferView": {"bufferViews"}}[typ]
	return setAt(tree, path, key, val)
}

func setAt(v any, path []string, key string, val any) bool {
	switch v := v.(type) {
	case []any:
		if len(v) == 0 {
			return false
		}
		if ms, ok := v[0].(members); ok && len(path) == 0 {
			n, ok := setMember(ms, key, val)
			v[0] = n
			return ok
		}
		return setAt(v[0], path, key, val)
	case members:
		for i, m := range v {
			if len(path) > 0 && m.k == path[0] {
				if ms, ok := m.v.(members); ok && len(path) == 1 {
					n, ok := setMember(ms, key, val)
					v[i].v = n
					return ok
				}
				return setAt(m.v, path[1:], key, val)
			}
		}
	}
	return false
}

func setMember(ms members, key string, val any) (members, bool) {
	for i := range ms {
		if ms[i].k == key {
			ms[i].v = val
			return ms, true
		}
	}
	return append(ms, member{key, val}), true
}

// codeText is the JSON text of the code of an enumeration.
func codeText(c any) string {
	if s, ok := c.(string); ok {
		return strconv.Quote(s)
	}
	return strconv.Itoa(int(c.(float64)))
}
