package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
)

var extensionsType = reflect.TypeOf(gltf.Extensions{})

// walkExt visits the Extensions field of every object of a document, not
// those inside extensions. set, if not nil, replaces it.
func walkExt(doc *gltf.Document, visit func(path, owner string, f reflect.Value)) {
	var walk func(path string, v reflect.Value)
	walk = func(path string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				walk(path, v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(fmt.Sprintf("%s/%d", path, i), v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if !f.IsExported() {
					continue
				}
				if f.Type == extensionsType {
					visit(path, v.Type().Name(), v.Field(i))
					continue
				}
				walk(path+"/"+f.Name, v.Field(i))
			}
		}
	}
	walk("", reflect.ValueOf(doc))
}

// regVal is what the functions registered by the monitor return.
type regVal struct {
	Name string
	Gen  int
	Data []byte
}

func (v *regVal) MarshalJSON() ([]byte, error) { return v.Data, nil }

// regKind is how an extension name is registered.
type regKind int

const (
	unregistered regKind = iota
	regOnce
	failing
	failingWithValue // returns a value and an error
	reregistered     // several times, the last function counts
	turnedFailing    // first one that succeeds, then one that fails
	typedNil
)

var kindNames = []string{"unregistered", "registered", "failing", "failing_with_value", "reregistered", "turned_failing", "nil_value"}

// extPool is a set of names with registered functions that record their calls.
type extPool struct {
	mu    sync.Mutex
	names []string
	kind  map[string]regKind
	gen   map[string]int
	calls []extCall
}

type extCall struct {
	name string
	gen  int
	data string
}

var extSerial atomic.Int64

func newExtPool(r *rand.Rand) *extPool {
	p := &extPool{kind: map[string]regKind{}, gen: map[string]int{}}
	id := extSerial.Add(1)
	for i := 3 + r.IntN(6); i > 0; i-- {
		name := fmt.Sprintf([]string{"VERIF_%d_%d", "EXT_verif %d/%d", "é%d_<%d>", "KHR_%d_%d"}[r.IntN(4)], id, i)
		p.names = append(p.names, name)
		k := regKind(r.IntN(7))
		p.kind[name] = k
		switch k {
		case regOnce, typedNil, failing, failingWithValue:
			p.register(name, k)
		case reregistered:
			for j := 1 + r.IntN(3); j > 0; j-- {
				p.register(name, regOnce)
			}
			p.kind[name] = reregistered
		case turnedFailing:
			p.register(name, regOnce)
			p.register(name, failing)
			p.kind[name] = turnedFailing
		}
	}
	// Names that only look like others are not registered.
	for _, name := range append([]string{}, p.names...) {
		if r.IntN(4) > 0 {
			continue
		}
		alike := []string{strings.ToUpper(name), strings.ToLower(name), " " + name, name + " ", name + "_", name[:len(name)-1], strings.ReplaceAll(name, "_", "-"), "KHR_" + name}[r.IntN(8)]
		if _, known := p.kind[alike]; !known {
			p.names = append(p.names, alike)
			p.kind[alike] = unregistered
		}
	}
	return p
}

func (p *extPool) register(name string, k regKind) {
	p.gen[name]++
	gen := p.gen[name]
	p.kind[name] = k
	gltf.RegisterExtension(name, func(data []byte) (any, error) {
		own := append([]byte{}, data...)
		p.mu.Lock()
		p.calls = append(p.calls, extCall{name, gen, string(own)})
		p.mu.Unlock()
		v := &regVal{name, gen, own}
		if (gen+len(data))%2 == 0 { // keeps what it was given
			v.Data = data
		}
		switch k {
		case failing:
			return nil, errors.New("injected")
		case failingWithValue:
			return v, errors.New("injected")
		case typedNil:
			return nil, nil
		}
		return v, nil
	})
}

// content makes extension JSON with a unique mark.
func (p *extPool) content(g *gen, mark int) json.RawMessage {
	if g.r.IntN(60) == 0 { // large
		n := edgeLen(g.r, 8, 16)
		var b strings.Builder
		fmt.Fprintf(&b, `{"mark":%d,"s":"%s","n":[12345678901234567890123`, mark, strings.Repeat("x\\u00e9<\\/", n/16))
		for b.Len() < n {
			fmt.Fprintf(&b, ", %d.%d0e%d", g.r.IntN(1000), g.r.IntN(1<<40), g.r.IntN(30))
		}
		b.WriteString(`, null]}`)
		return json.RawMessage(b.String())
	}
	switch g.r.IntN(6) {
	case 0:
		return json.RawMessage(fmt.Sprint(mark))
	case 1:
		return json.RawMessage(fmt.Sprintf(`"m%d"`, mark))
	case 2:
		return json.RawMessage(fmt.Sprintf(`[%d, null, %s]`, mark, g.raw()))
	case 3: // looks like a glTF object itself
		return json.RawMessage(fmt.Sprintf(`{"mark": %d, "extensions": {%q: {"a": 1}}, "extras": [], "index": 0}`, mark, p.names[g.r.IntN(len(p.names))]))
	}
	return json.RawMessage(fmt.Sprintf(`{"mark":%d,"v": %s }`, mark, g.raw()))
}

// sameJSON compares two JSON texts; numbers to their last digit.
func sameJSON(a, b []byte) bool {
	x, err1 := parseJSON(a)
	y, err2 := parseJSON(b)
	return err1 == nil && err2 == nil && jsonExact(x, y)
}

// c22 decodes a document with marked extensions everywhere and follows them.
func c22(t *T, every bool) {
	g := newGen(t.R)
	g.mixedURIs()
	g.rawExt, g.noReg, g.jsonExtras, g.noLong = true, true, true, true
	p := newExtPool(t.R)
	doc := new(gltf.Document)
	if every {
		// One object of a type.
		types := extOwners
		typ := types[t.I%len(types)]
		place(typ, doc)
	} else {
		doc = g.document()
	}
	// Put marked extensions.
	mark := t.R.IntN(1000) * 1000
	want := map[string]map[string]json.RawMessage{}
	owners := map[string]string{}
	total := 0
	walkExt(doc, func(path, owner string, f reflect.Value) {
		if !every && f.Len() == 0 && t.R.IntN(3) > 0 {
			f.Set(reflect.Zero(f.Type()))
			return
		}
		m := gltf.Extensions{}
		w := map[string]json.RawMessage{}
		for _, i := range t.R.Perm(len(p.names))[:1+t.R.IntN(len(p.names))] {
			mark++
			c := p.content(g, mark)
			m[p.names[i]], w[p.names[i]] = c, c
			total++
		}
		f.Set(reflect.ValueOf(m))
		want[path], owners[path] = w, owner
	})
	rw := &refWriter{g: g, Unknown: t.R.IntN(2) == 0, Explicit: t.R.IntN(3), ws: t.R.IntN(2) == 0, binary: t.R.IntN(3) == 0}
	text := rw.document(doc)
	t.Note("input", text)
	kinds := map[string]string{}
	for _, n := range p.names {
		kinds[n] = fmt.Sprintf("%s, generation %d", kindNames[p.kind[n]], p.gen[n])
	}
	t.Note("registrations", kinds)
	mem := newMemFS()
	for _, b := range doc.Buffers {
		if b.URI != "" && !strings.HasPrefix(b.URI, octet) {
			mem.files[filePath(b.URI)] = b.Data
		}
	}
	in := text
	if rw.binary {
		var bin []byte
		if len(doc.Buffers) > 0 && doc.Buffers[0].URI == "" {
			bin = doc.Buffers[0].Data
		}
		in = simpleGLB(text, bin)
	}
	verify := func(what string, got *gltf.Document) {
		seen := 0
		walkExt(got, func(path, owner string, f reflect.Value) {
			m := f.Interface().(gltf.Extensions)
			w := want[path]
			if len(m) != len(w) {
				t.Failf("%s: %s %s has %d extensions, want %d", what, owner, path, len(m), len(w))
			}
			for name, c := range w {
				v, ok := m[name]
				at := fmt.Sprintf("%s: %s of %s %s (%s)", what, name, owner, path, kindNames[p.kind[name]])
				if !ok {
					t.Failf("%s is lost", at)
				}
				seen++
				switch p.kind[name] {
				case regOnce, reregistered:
					r, ok := v.(*regVal)
					if !ok {
						t.Failf("%s is %T, want the result of the registered function", at, v)
					}
					if r.Name != name || r.Gen != p.gen[name] {
						t.Failf("%s is decoded by the function %d of %q, want %d", at, r.Gen, r.Name, p.gen[name])
					}
					if !sameJSON(r.Data, c) {
						t.Failf("%s is decoded from %s, want %s", at, r.Data, c)
					}
				case typedNil:
					if v != nil {
						t.Failf("%s is %v, want nil", at, v)
					}
				default:
					r, ok := v.(json.RawMessage)
					if !ok {
						t.Failf("%s is %T, want the JSON text", at, v)
					}
					if !sameJSON(r, c) {
						t.Failf("%s is kept as %s, want %s", at, r, c)
					}
				}
				t.Hit("kind_" + kindNames[p.kind[name]])
			}
			if len(w) > 0 {
				t.Hit("owner_" + owners[path])
			}
		})
		if seen != total {
			t.Failf("%s: %d extensions, want %d", what, seen, total)
		}
	}
	verifyCalls := func(what string) {
		p.mu.Lock()
		defer p.mu.Unlock()
		// Each call is for one extension.
		left := map[string][]json.RawMessage{}
		n := 0
		for _, w := range want {
			for name, c := range w {
				if p.kind[name] != unregistered {
					left[name] = append(left[name], c)
					n++
				}
			}
		}
	calls:
		for _, c := range p.calls {
			if c.gen != p.gen[c.name] {
				t.Failf("%s: function %d of %q is called, the last one is %d", what, c.gen, c.name, p.gen[c.name])
			}
			for i, x := range left[c.name] {
				if sameJSON(x, []byte(c.data)) {
					left[c.name] = append(left[c.name][:i], left[c.name][i+1:]...)
					continue calls
				}
			}
			t.Failf("%s: the function of %q is called again or for %s", what, c.name, c.data)
		}
		if len(p.calls) != n {
			t.Failf("%s: %d calls, want %d", what, len(p.calls), n)
		}
		t.HitN("calls", n)
		p.calls = nil
	}
	got, err := decode(in, mem)
	if err != nil {
		t.Failf("decoding fails: %v", err)
	}
	verify("decoded", got)
	verifyCalls("decoding")
	// The rest of the document is not affected.
	a, b := deepCopyDoc(doc), deepCopyDoc(got)
	for _, d := range []*gltf.Document{a, b} {
		walkExt(d, func(_, _ string, f reflect.Value) { f.Set(reflect.Zero(f.Type())) })
	}
	if err := saveDiff().diff(a, b); err != nil {
		t.Failf("the rest of the document: %v", err)
	}
	// Encode.
	m := modes[t.R.IntN(len(modes))]
	out, err := encode(got, m, mem)
	if err != nil {
		t.Failf("%v: encoding fails: %v", m, err)
	}
	t.Note("encoded", out)
	text = out
	if m.binary {
		cs, err := parseGLB(out)
		if err != nil {
			t.Failf("%v: %v", m, err)
		}
		text = cs[0].data
	}
	tree, err := parseJSON(text)
	if err != nil {
		t.Failf("%v: %v", m, err)
	}
	if err := (&jsonCheck{binary: m.binary}).document(got, text); err != nil {
		t.Failf("%v: %v", m, err)
	}
	// No extension function runs for encoding, and the texts are where they were.
	if n := len(p.calls); n != 0 {
		t.Failf("encoding calls %d extension functions", n)
	}
	written := map[string]int{}
	countExt(tree, p.kind, written, true)
	for _, name := range p.names {
		n := 0
		for _, w := range want {
			if _, ok := w[name]; ok {
				n++
			}
		}
		if written[name] != n {
			t.Failf("%v: %q is written %d times, want %d", m, name, written[name], n)
		}
	}
	// Again, with other registrations.
	for name, k := range p.kind {
		if t.R.IntN(2) == 0 && k != typedNil {
			p.register(name, []regKind{regOnce, failing}[t.R.IntN(2)])
		}
	}
	for path, w := range want {
		for name := range w {
			if v := extAt(got, path, name); v == nil { // written as null
				w[name] = json.RawMessage("null")
			}
		}
	}
	again, err := decode(out, mem)
	if err != nil {
		t.Failf("%v: decoding the encoded document fails: %v", m, err)
	}
	// null is a JSON text as any other.
	verify("decoded again", again)
	verifyCalls("decoding again")
	t.Hit("again")
	t.Key(text)
	t.Sample(func() string { return fmt.Sprintf("%d extensions in %d objects, %v", total, len(want), kinds) })
}

func extAt(doc *gltf.Document, path, name string) (out any) {
	walkExt(doc, func(p, _ string, f reflect.Value) {
		if p == path {
			out = f.Interface().(gltf.Extensions)[name]
		}
	})
	return out
}

// countExt counts the members of extensions objects, leaving out those inside
// extensions and extras.
func countExt(v any, names map[string]regKind, n map[string]int, top bool) {
	switch v := v.(type) {
	case *jobj:
		for k, x := range v.m {
			switch k {
			case "extensions":
				if o, ok := x.(*jobj); ok {
					for name := range o.m {
						n[name]++
					}
				}
			case "extras", "attributes":
			default:
				countExt(x, names, n, false)
			}
		}
	case []any:
		for _, x := range v {
			countExt(x, names, n, false)
		}
	}
}

// extOwners are the types that place can make and that have extensions.
var extOwners = func() []string {
	var out []string
	for typ, fs := range specTable {
		if strings.HasPrefix(typ, "PBRSpec") || typ == "TextureTranform" || typ == "Light" || typ == "Spot" {
			continue
		}
		for _, f := range fs {
			if f.Go == "Extensions" {
				out = append(out, typ)
			}
		}
	}
	sort.Strings(out)
	return out
}()

func init() {
	owners := map[string]int{"again": 300, "calls": 1000, "plain": 200}
	for _, k := range kindNames {
		owners["kind_"+k] = 200
	}
	for _, o := range extOwners {
		owners["owner_"+o] = 10
	}
	register(&Prop{
		ID: "C22", QuickMul: 12, Level: "exploration",
		Rule:   "documents with uniquely marked extensions in every object that can have them, under names that are not registered, registered once or several times, whose function fails (also with a value), returns nil or was replaced; the calls and their data are recorded, and the document is compared after decoding, encoding and decoding with other registrations; distinct by encoded text",
		Assume: []string{"a function that returns nil without error has decoded its extension to nil"},
		Need:   owners, MinKeys: 400,
		Families: []Family{
			{Name: "owners", Quick: len(extOwners) * 12, Thorough: len(extOwners) * 400, Run: func(t *T) { c22(t, true) }},
			{Name: "documents", Quick: 600, Thorough: 30000, Run: func(t *T) { c22(t, false) }},
			{Name: "plain", Quick: 200, Thorough: 20000, Run: c22plain},
			{Name: "reenter", Quick: 4, Thorough: 20, Fixed: true, Run: c22reenter},
		},
	})

	register(&Prop{
		ID: "C23", QuickMul: 10, Level: "exploration",
		Rule:   "documents with the bundled extensions built in code and written by an independent writer from their Khronos tables, with hostile texts inside; encoded, compared with the tables, decoded and compared; distinct by JSON text",
		Assume: []string{"additional members of light objects are not kept by the typed values", "the extensions are held as the types that decoding returns (pointers but for lights and light indices)"},
		Need:   map[string]int{"names": 7, "wrong_types": 1000, "lights": 300, "light_index": 300, "specular": 300, "transform": 300, "unlit": 300, "nested": 200, "texts": 300, "encoded": 1000, "direct": 300, "inf_range": 50, "defaults": 100, "spot": 100, "many_lights": 12}, MinKeys: 500,
		Families: []Family{
			{Name: "names", Quick: 1, Thorough: 1, Fixed: true, Run: func(t *T) {
				for have, want := range map[string]string{lightspunctual.TypeDirectional: "directional", lightspunctual.TypePoint: "point", lightspunctual.TypeSpot: "spot",
					lightspunctual.ExtensionName: "KHR_lights_punctual", specular.ExtensionName: "KHR_materials_pbrSpecularGlossiness",
					texturetransform.ExtensionName: "KHR_texture_transform", unlit.ExtensionName: "KHR_materials_unlit"} {
					if have != want {
						t.Failf("the name %q is not the %q of the Khronos extensions", have, want)
					}
					t.Hit("names")
				}
				t.Key("names")
			}},
			{Name: "many", Quick: 12, Thorough: 60, Fixed: true, Run: func(t *T) {
				g := builtinGen(t)
				doc := &gltf.Document{}
				n := []int{255, 256, 257, 1000, 1025, 4097}[t.I%6]
				var l lightspunctual.Lights
				for len(l) < n {
					l = append(l, g.lights()...)
				}
				doc.Extensions = gltf.Extensions{lightspunctual.ExtensionName: l[:n]}
				doc.Nodes = []*gltf.Node{{Extensions: gltf.Extensions{lightspunctual.ExtensionName: lightspunctual.LightIndex(n - 1)}}}
				c23encode(t, doc)
				t.Hit("many_lights")
				t.Key("many", n, t.I)
			}},
			{Name: "built", Quick: 1500, Thorough: 80000, Run: func(t *T) {
				g := builtinGen(t)
				doc := builtinDoc(t, g)
				c23encode(t, doc)
			}},
			{Name: "texts", Quick: 1000, Thorough: 60000, Run: func(t *T) {
				g := builtinGen(t)
				g.rawExt, g.jsonExtras = true, true
				doc := builtinDoc(t, g)
				w := &refWriter{g: g, Explicit: t.R.IntN(3), ws: t.R.IntN(2) == 0}
				text := w.document(doc)
				t.Note("input", text)
				got, err := decode(text, nil)
				if err != nil {
					t.Failf("decoding fails: %v", err)
				}
				sameTypes(t, doc, got)
				if err := (&docDiff{}).diff(doc, got); err != nil {
					t.Failf("the decoded values differ from the text: %v", err)
				}
				t.Hit("texts")
				c23encode(t, got)
			}},
			{Name: "wrong", Quick: 100, Thorough: 10000, Run: c23wrong},
			{Name: "direct", Quick: 1000, Thorough: 40000, Run: func(t *T) {
				// The functions and types of the packages themselves.
				g := builtinGen(t)
				var v any
				var f func([]byte) (any, error)
				switch t.I % 5 {
				case 0:
					v, f = g.lights(), lightspunctual.Unmarshal
				case 1:
					v, f = lightspunctual.LightIndex(t.R.IntN(100)), lightspunctual.Unmarshal
				case 2:
					v, f = g.specular(), specular.Unmarshal
				case 3:
					v, f = g.transform(), texturetransform.Unmarshal
				case 4:
					u := unlit.Unlit{}
					for k := t.R.IntN(3); k > 0; k-- {
						u[g.member()] = g.raw()
					}
					v, f = &u, unlit.Unmarshal
				}
				before := deepCopy(reflect.ValueOf(v)).Interface()
				b, err := json.Marshal(v)
				if err != nil {
					t.Failf("%T: %v", v, err)
				}
				t.Note("json", b)
				tree, err := parseJSON(b)
				if err != nil {
					t.Failf("%T is not JSON: %v", v, err)
				}
				if err := (&jsonCheck{}).ext(fmt.Sprintf("%T", v), v, tree); err != nil {
					t.Failf("%v", err)
				}
				if !reflect.DeepEqual(v, before) {
					t.Failf("%T: marshalling changes the value", v)
				}
				w, err := f(b)
				if err != nil {
					t.Failf("%T: %v", v, err)
				}
				if reflect.TypeOf(v) != reflect.TypeOf(w) {
					t.Failf("%T is decoded as %T", v, w)
				}
				if err := (&docDiff{}).ext(fmt.Sprintf("%T", v), v, w); err != nil {
					t.Failf("decoded: %v", err)
				}
				t.Hit("direct")
				t.Key(b, t.I%5)
			}},
		},
	})
}

// builtinGen makes hostile strings that look like parts of the JSON.
func builtinGen(t *T) *gen {
	g := newGen(t.R)
	g.hostile = []string{
		`"diffuseFactor":[1,1,1,1]`, `"specularFactor":[1,1,1],`, `,"glossinessFactor":1`, `"offset":[0,0]`, `"scale":[1,1]`, `"scale":[0,0]`, `,,`, `{,`, `,}`, `{,}`,
		`"color":[1,1,1]`, `"intensity":1`, `"range":null`, `"emissiveFactor":[0,0,0]`, `"scale":[1,1,1]`, `"rotation":[0,0,0,1]`, `"baseColorFactor":[1,1,1,1]`, `"strength":1`, `,"`, `:[1,1,1,1]`, `[0,0]`, "\\\"", "\u2028", "<>&",
	}
	return g
}

// builtinDoc has the bundled extensions where they belong.
func builtinDoc(t *T, g *gen) *gltf.Document {
	doc := new(gltf.Document)
	r := t.R
	texts := func(v any) { // nested contents
		switch p := v.(type) {
		case *specular.PBRSpecularGlossiness:
			for _, ti := range []*gltf.TextureInfo{p.DiffuseTexture, p.SpecularGlossinessTexture} {
				if ti == nil {
					continue
				}
				if r.IntN(2) == 0 {
					ti.Extensions = gltf.Extensions{texturetransform.ExtensionName: g.transform()}
					if r.IntN(2) == 0 {
						ti.Extensions["VENDOR_x"] = g.raw()
					}
					t.Hit("nested")
				}
				if r.IntN(2) == 0 {
					ti.Extras = map[string]any{g.str(): g.str(), "diffuseFactor": []any{1.0, 1.0, 1.0, 1.0}}
				}
			}
		}
	}
	if r.IntN(2) == 0 {
		l := g.lights()
		for _, x := range l {
			if x.Range != nil && math.IsInf(*x.Range, 1) {
				t.Hit("inf_range")
			}
			if x.Spot != nil {
				t.Hit("spot")
			}
			if x.Color == nil && x.Intensity == nil {
				t.Hit("defaults")
			}
		}
		doc.Extensions = gltf.Extensions{lightspunctual.ExtensionName: l}
		if r.IntN(3) == 0 {
			doc.Extensions["VENDOR_y"] = g.raw()
		}
		t.Hit("lights")
	}
	for k := r.IntN(4); k > 0; k-- {
		n := &gltf.Node{}
		g.fill("Node", reflect.ValueOf(n).Elem())
		n.Extensions = gltf.Extensions{lightspunctual.ExtensionName: lightspunctual.LightIndex(r.IntN(5))}
		doc.Nodes = append(doc.Nodes, n)
		t.Hit("light_index")
	}
	for k := r.IntN(4); k > 0; k-- {
		m := &gltf.Material{}
		g.fill("Material", reflect.ValueOf(m).Elem())
		m.Extensions = gltf.Extensions{}
		if r.IntN(2) == 0 {
			s := g.specular()
			texts(s)
			m.Extensions[specular.ExtensionName] = s
			t.Hit("specular")
		}
		if r.IntN(2) == 0 {
			u := unlit.Unlit{}
			if r.IntN(3) == 0 {
				u[g.member()] = g.raw()
			}
			m.Extensions[unlit.ExtensionName] = &u
			t.Hit("unlit")
		}
		if m.PBRMetallicRoughness == nil {
			m.PBRMetallicRoughness = &gltf.PBRMetallicRoughness{}
		}
		if r.IntN(2) == 0 {
			m.PBRMetallicRoughness.BaseColorTexture = &gltf.TextureInfo{Index: r.IntN(4), Extensions: gltf.Extensions{texturetransform.ExtensionName: g.transform()}}
			t.Hit("transform")
		}
		if r.IntN(3) == 0 {
			m.NormalTexture = &gltf.NormalTexture{Index: gltf.Index(r.IntN(3)), Extensions: gltf.Extensions{texturetransform.ExtensionName: g.transform()}}
			t.Hit("transform")
		}
		doc.Materials = append(doc.Materials, m)
	}
	return doc
}

// sameTypes checks that the bundled extensions have the same Go types.
func sameTypes(t *T, a, b *gltf.Document) {
	types := func(d *gltf.Document) map[string]string {
		out := map[string]string{}
		walkExt(d, func(path, _ string, f reflect.Value) {
			for k, v := range f.Interface().(gltf.Extensions) {
				switch k {
				case lightspunctual.ExtensionName, specular.ExtensionName, texturetransform.ExtensionName, unlit.ExtensionName:
					out[path+"/"+k] = fmt.Sprintf("%T", v)
				}
			}
		})
		return out
	}
	x, y := types(a), types(b)
	for k, v := range x {
		if y[k] != v {
			t.Failf("%s is decoded as %s, want %s", k, y[k], v)
		}
	}
}

func c23encode(t *T, doc *gltf.Document) {
	before := deepCopyDoc(doc)
	for _, m := range []mode{modes[t.R.IntN(2)], modes[2]} {
		out, err := encode(doc, m, nil)
		if err != nil {
			t.Failf("%v: encoding fails: %v", m, err)
		}
		text := out
		if m.binary {
			cs, err := parseGLB(out)
			if err != nil {
				t.Failf("%v: %v", m, err)
			}
			text = cs[0].data
		}
		t.Note("encoded", text)
		if err := (&jsonCheck{binary: m.binary}).document(doc, text); err != nil {
			t.Failf("%v: %v", m, err)
		}
		got, err := decode(out, nil)
		if err != nil {
			t.Failf("%v: decoding fails: %v", m, err)
		}
		sameTypes(t, doc, got)
		if err := (&docDiff{}).diff(doc, got); err != nil {
			t.Failf("%v: the decoded document differs: %v", m, err)
		}
		if err := (&docDiff{}).diff(before, doc); err != nil {
			t.Failf("%v: encoding changes the document: %v", m, err)
		}
		t.Hit("encoded")
		t.Key(text)
	}
	t.Sample(func() string { b, _ := json.Marshal(doc.Extensions); return string(b) })
}

// c22reenter: a registered function that itself registers extensions and decodes
// documents with them.
// c22plain: extensions that nobody registered are kept as they are, whatever
// they hold and whoever decodes them, and share nothing with the text.
func c22plain(t *T) {
	g := newGen(t.R)
	g.noReg = true
	want := map[string]string{}
	var parts []string
	for i := 1 + t.R.IntN(4); i > 0; i-- {
		v := []string{"{}", "[]", `""`, "0", "false", "true", "1.0", `{"a":{}}`, `[{}]`, "{ }", "-0", `"\u0041"`}[t.R.IntN(12)]
		if t.R.IntN(3) == 0 {
			v = string(g.raw())
		}
		name := fmt.Sprintf("PLAIN_%d_%d", t.I, i)
		want[name] = v
		parts = append(parts, fmt.Sprintf("%q:%s", name, v))
	}
	obj := "{" + strings.Join(parts, ",") + "}"
	t.Note("extensions", obj)
	check := func(e gltf.Extensions, what string) {
		if len(e) != len(want) {
			t.Failf("%s: %d extensions of %d are kept", what, len(e), len(want))
		}
		for k, v := range want {
			if raw, ok := e[k].(json.RawMessage); !ok || string(raw) != v {
				t.Failf("%s: %s %s is kept as %T %s", what, k, v, e[k], e[k])
			}
		}
	}
	in := []byte(obj)
	var ext gltf.Extensions
	if err := ext.UnmarshalJSON(in); err != nil {
		t.Failf("UnmarshalJSON: %v", err)
	}
	text := []byte(`{"asset":{"version":"2.0","extensions":` + obj + `},"extensions":` + obj + `,"nodes":[{"extensions":` + obj + `}]}`)
	direct, decoded := new(gltf.Document), new(gltf.Document)
	if err := gltf.NewDecoder(bytes.NewReader(text)).Decode(decoded); err != nil {
		t.Failf("decoding: %v", err)
	}
	if err := json.Unmarshal(text, direct); err != nil {
		t.Failf("json.Unmarshal: %v", err)
	}
	for _, b := range [][]byte{in, text} { // both belong to the caller
		for i := range b {
			b[i] = 'x'
		}
	}
	check(ext, "UnmarshalJSON")
	for _, d := range []*gltf.Document{decoded, direct} {
		check(d.Extensions, "document")
		check(d.Asset.Extensions, "asset")
		check(d.Nodes[0].Extensions, "node")
	}
	t.Hit("plain")
	t.Key("plain", obj)
}

func c22reenter(t *T) {
	outer, inner := fmt.Sprintf("VERIF_outer_%d", t.I), fmt.Sprintf("VERIF_inner_%d", t.I)
	type val struct{ raw string }
	var calls int
	gltf.RegisterExtension(outer, func(b []byte) (any, error) {
		calls++
		mark := string(b)
		gltf.RegisterExtension(inner, func(b []byte) (any, error) { return &val{mark + string(b)}, nil })
		if t.I%2 == 0 { // from now on
			gltf.RegisterExtension(outer, func(b []byte) (any, error) { return &val{"replaced " + string(b)}, nil })
		}
		doc, err := decode([]byte(fmt.Sprintf(`{"asset":{"version":"2.0"},"scenes":[{"extensions":{%q:[7]}}]}`, inner)), nil)
		if err != nil {
			return nil, err
		}
		return doc.Scenes[0].Extensions[inner], nil
	})
	in := fmt.Sprintf(`{"asset":{"version":"2.0"},"nodes":[{"extensions":{%q:[1]}},{"extensions":{%q:[2]}}]}`, outer, outer)
	t.Note("input", []byte(in))
	t.Key(in)
	type result struct {
		doc *gltf.Document
		err error
	}
	done := make(chan result, 1)
	go func() {
		doc, err := decode([]byte(in), nil)
		done <- result{doc, err}
	}()
	var r result
	select {
	case r = <-done:
	case <-time.After(20 * time.Second):
		t.Failf("decoding hangs when the function of an extension registers one")
	}
	if r.err != nil {
		t.Failf("decoding failed: %v", r.err)
	}
	want := []string{"[1][7]", "[2][7]"}
	if t.I%2 == 0 {
		want[1] = "replaced [2]"
	}
	for i, n := range r.doc.Nodes {
		if v, ok := n.Extensions[outer].(*val); !ok || v.raw != want[i] {
			t.Failf("the extension of node %d is %#v, want %s (%d calls)", i, n.Extensions[outer], want[i], calls)
		}
	}
	t.Hit("reentered")
	t.Eval(1)
}
