package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
)

// gen makes random documents.
type gen struct {
	r          *rand.Rand
	dens       float64 // probability that an optional property is set
	coll       int     // max elements in a collection
	noExt      bool    // no extensions
	extDeep    int
	uri        func(i int) string // URI of buffer i
	maxBuf     int                // max buffer length
	noLong     bool               // no long collections
	force      int                // length of the next collection
	noReg      bool               // no built-in extensions
	rawExt     bool               // unregistered extensions only as json.RawMessage
	jsonExtras bool               // extras only with JSON types (as decoded)
	objExt     bool               // unregistered extensions are JSON objects
	hostile    []string           // more contents of strings
}

func newGen(r *rand.Rand) *gen {
	g := &gen{r: r, maxBuf: 48}
	g.dens = []float64{0.1, 0.35, 0.6, 0.9, 1}[r.IntN(5)]
	g.coll = []int{1, 2, 3}[r.IntN(3)]
	return g
}

func (g *gen) p(x float64) bool { return g.r.Float64() < x }
func (g *gen) opt() bool        { return g.r.Float64() < g.dens }

var words = []string{"a", "node", "Mesh", "POSITION", "scale", "KHR", "β", "日本", "x y", "name", "uri", "0", "TEXCOORD_0"}

func (g *gen) word() string { return []string{"a", "bc", "mesh", "node", "v"}[g.r.IntN(5)] }

var trickyStrings = []string{
	`"scale":[1,1]`, `,"specularFactor":[1,1,1]`, `"offset":[0,0],`, `{,`, `,}`, `,,`, `[,]`, `"glossinessFactor":1`, `"diffuseFactor":[1,1,1,1]`,
	`"buffers":[]`, "</script><b>&amp;", "line\nbreak\ttab", "\u2028\u2029", "\x00\x01\x1f", "\\", "\"", "\\\"", "\\u0041", "𝄞 clef", "\ufeffbom", "\ufffd",
	"data:application/octet-stream;base64,AAAA", "null", "true", "{}", "[]", "0", " ", "\x7f", "é", "a/b~c", "%41", "../x", "é",
}

func (g *gen) str() string {
	if len(g.hostile) > 0 && g.r.IntN(3) == 0 {
		s := ""
		for i := 1 + g.r.IntN(3); i > 0; i-- {
			s += g.hostile[g.r.IntN(len(g.hostile))]
		}
		return s
	}
	switch g.r.IntN(6) {
	case 0:
		return trickyStrings[g.r.IntN(len(trickyStrings))]
	case 1:
		n := 1 + g.r.IntN(6)
		var b strings.Builder
		for i := 0; i < n; i++ {
			switch g.r.IntN(4) {
			case 0:
				b.WriteByte(byte(g.r.IntN(128)))
			case 1:
				b.WriteRune(rune(0xa0 + g.r.IntN(0x2000)))
			case 2:
				b.WriteString(trickyStrings[g.r.IntN(len(trickyStrings))])
			default:
				b.WriteRune(rune(0x1f300 + g.r.IntN(200)))
			}
		}
		return b.String()
	default:
		s := words[g.r.IntN(len(words))]
		if g.r.IntN(2) == 0 {
			s += fmt.Sprint(g.r.IntN(100))
		}
		return s
	}
}

var floats = []float64{0, 1, -1, 0.5, 2, 1e-7, 1e21, 1e20, 123456789.125, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi, math.Pi / 4, math.MaxFloat32, -0.25, 1.0 / 3, 0.1, 1e-6, 16777217, 9007199254740993}

func (g *gen) float() float64 {
	switch g.r.IntN(5) {
	case 0:
		return floats[g.r.IntN(len(floats))]
	case 1:
		return float64(g.r.IntN(21) - 10)
	case 2:
		return float64(float32(g.r.NormFloat64()))
	case 3:
		for {
			f := math.Float64frombits(g.r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	default:
		return g.r.NormFloat64() * 100
	}
}

func (g *gen) index() int {
	switch g.r.IntN(10) {
	case 0:
		return 0
	case 1:
		return math.MaxInt32
	case 2:
		return g.r.IntN(1 << 20)
	case 3:
		if g.r.IntN(4) == 0 { // around the limits of narrower types
			return []int{1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 53, 1 << 62}[g.r.IntN(10)] + g.r.IntN(3) - 1
		}
		return g.r.IntN(8)
	default:
		return g.r.IntN(8)
	}
}

func (g *gen) json(depth int) any {
	k := g.r.IntN(8)
	if depth <= 0 {
		k = g.r.IntN(5)
	}
	switch k {
	case 0:
		return g.r.IntN(2) == 0
	case 1, 2:
		return g.float()
	case 3:
		return g.str()
	case 4:
		if g.r.IntN(3) == 0 {
			return nil
		}
		return g.str()
	case 5:
		out := []any{}
		for i := g.r.IntN(4); i > 0; i-- {
			out = append(out, g.json(depth-1))
		}
		return out
	default:
		out := map[string]any{}
		for i := g.r.IntN(4); i > 0; i-- {
			out[g.str()] = g.json(depth - 1)
		}
		return out
	}
}

func (g *gen) extras() any {
	for {
		v := g.json(2)
		if v == nil {
			continue
		}
		if !g.jsonExtras && g.r.IntN(6) == 0 {
			return []any{g.r.IntN(100), map[string]int{"n": g.r.IntN(9)}}
		}
		return v
	}
}

// raw returns a JSON text with arbitrary white space and notation.
func (g *gen) raw() json.RawMessage {
	w := &refWriter{g: g, ws: true}
	if g.r.IntN(12) == 0 {
		return json.RawMessage("{}")
	}
	var v any = g.json(3)
	if g.objExt {
		v = map[string]any{g.str(): g.json(2), g.str(): g.json(1)}
	}
	if g.r.IntN(5) == 0 {
		v = map[string]any{"big": json.Number("123456789012345678901234567890"), "f": json.Number("0.10000000000000000000001"), "v": v}
	}
	var b bytes.Buffer
	w.write(&b, w.any(v))
	return json.RawMessage(bytes.TrimSpace(b.Bytes()))
}

var extNames = []string{"EXT_mesh_gpu_instancing", "KHR_draco_mesh_compression", "VENDOR_x", "ABC", "a/b", "MSFT lod", "ünï", "KHR_lights_punctual2", "khr_materials_unlit_", "extras", "<x>"}

func (g *gen) extensions(owner string) gltf.Extensions {
	if g.noExt || g.extDeep > 2 {
		return nil
	}
	g.extDeep++
	defer func() { g.extDeep-- }()
	e := gltf.Extensions{}
	n := 1 + g.r.IntN(2)
	if g.r.IntN(60) == 0 {
		n = 3 + g.r.IntN(30)
	}
	for i := n; i > 0; i-- {
		if !g.noReg && g.r.IntN(2) == 0 {
			switch g.r.IntN(5) {
			case 0:
				e[lightspunctual.ExtensionName] = g.lights()
			case 1:
				e[lightspunctual.ExtensionName] = lightspunctual.LightIndex(g.index())
			case 2:
				e[specular.ExtensionName] = g.specular()
			case 3:
				e[texturetransform.ExtensionName] = g.transform()
			case 4:
				u := unlit.Unlit{}
				for k := g.r.IntN(3); k > 0; k-- {
					u[g.member()] = g.raw()
				}
				e[unlit.ExtensionName] = &u
			}
			continue
		}
		name := extNames[g.r.IntN(len(extNames))]
		if n > 2 {
			name = fmt.Sprintf("EXT_%d", i)
		}
		if g.rawExt || g.r.IntN(3) > 0 {
			e[name] = g.raw()
		} else {
			v := g.json(2)
			if g.objExt {
				v = map[string]any{"k": v}
			}
			e[name] = v
		}
	}
	return e
}

func (g *gen) lights() lightspunctual.Lights {
	l := lightspunctual.Lights{}
	if g.r.IntN(12) == 0 {
		return l
	}
	for i := 1 + g.r.IntN(3); i > 0; i-- {
		x := &lightspunctual.Light{Type: []string{"directional", "point", "spot"}[g.r.IntN(3)]}
		if g.opt() {
			x.Name = g.str()
		}
		if g.opt() {
			c := [3]float64{g.unit(), g.unit(), g.unit()}
			if g.r.IntN(3) == 0 {
				c = [3]float64{1, 1, 1}
			}
			x.Color = &c
		}
		if g.opt() {
			x.Intensity = gltf.Float(g.unit())
		}
		if g.opt() {
			x.Range = gltf.Float([]float64{g.unit(), g.r.Float64() * 10, 1e300, 3.5e38, math.MaxFloat64}[g.r.IntN(5)])
			if g.r.IntN(3) == 0 {
				x.Range = gltf.Float(math.Inf(1))
			}
		}
		if g.opt() {
			x.Spot = &lightspunctual.Spot{}
			if g.opt() {
				x.Spot.InnerConeAngle = g.unit()
			}
			if g.opt() {
				x.Spot.OuterConeAngle = gltf.Float([]float64{math.Pi / 4, 0, 1, g.unit()}[g.r.IntN(4)])
			}
		}
		l = append(l, x)
	}
	return l
}

func (g *gen) unit() float64 {
	switch g.r.IntN(8) {
	case 0, 1:
		return 0
	case 2, 3:
		return 1
	case 4: // also values outside the useful range
		return g.float()
	}
	return g.r.Float64()
}

func (g *gen) specular() *specular.PBRSpecularGlossiness {
	p := &specular.PBRSpecularGlossiness{}
	if g.opt() {
		p.DiffuseFactor = &[4]float64{g.unit(), g.unit(), g.unit(), g.unit()}
	}
	if g.opt() {
		p.DiffuseTexture = new(gltf.TextureInfo)
		g.fill("TextureInfo", reflect.ValueOf(p.DiffuseTexture).Elem())
	}
	if g.opt() {
		p.SpecularFactor = &[3]float64{g.unit(), g.unit(), g.unit()}
	}
	if g.opt() {
		p.GlossinessFactor = gltf.Float(g.unit())
	}
	if g.opt() {
		p.SpecularGlossinessTexture = new(gltf.TextureInfo)
		g.fill("TextureInfo", reflect.ValueOf(p.SpecularGlossinessTexture).Elem())
	}
	return p
}

func (g *gen) transform() *texturetransform.TextureTranform {
	t := &texturetransform.TextureTranform{}
	if g.opt() {
		t.Offset = [2]float64{g.unit(), g.unit()}
	}
	if g.opt() {
		t.Rotation = g.float()
	}
	if g.opt() {
		t.Scale = [2]float64{g.unit(), g.unit()}
		if g.r.IntN(3) == 0 {
			t.Scale = [2]float64{1, g.float()}
		}
	}
	if g.opt() {
		t.TexCoord = gltf.Index(g.r.IntN(3))
	}
	return t
}

// document returns a random document. Buffers have data of their declared length.
func (g *gen) document() *gltf.Document {
	doc := new(gltf.Document)
	g.fill("Document", reflect.ValueOf(doc).Elem())
	return doc
}

func (g *gen) fill(typ string, v reflect.Value) {
	for _, f := range specTable[typ] {
		fv := v.FieldByName(f.Go)
		key := typ + "." + f.Go
		if f.P != req && !g.opt() {
			continue
		}
		switch {
		case f.Go == "Extensions":
			if g.p(0.4) {
				if e := g.extensions(typ); len(e) > 0 || g.p(0.5) {
					fv.Set(reflect.ValueOf(e))
				}
			}
		case f.Go == "Extras":
			if g.p(0.4) {
				fv.Set(reflect.ValueOf(g.extras()))
			}
		case f.JSON == "buffers":
			fv.Set(reflect.ValueOf(g.buffers()))
		case key == "Image.URI":
			if g.p(0.5) {
				fv.SetString(g.imageURI())
			}
		case key == "Asset.Version":
			fv.SetString([]string{"2.0", "2.0", "", "2.1", "1.0", "2", "2.00", "02.0", "2.0 ", g.str()}[g.r.IntN(10)])
		case key == "Camera.Orthographic" || key == "Camera.Perspective":
			// set below
		default:
			g.value(key, fv)
		}
	}
	if typ == "Camera" {
		which := "Orthographic"
		if g.p(0.5) {
			which = "Perspective"
		}
		g.value("Camera."+which, v.FieldByName(which))
		if g.r.IntN(8) == 0 { // both
			g.value("Camera.Orthographic", v.FieldByName("Orthographic"))
			g.value("Camera.Perspective", v.FieldByName("Perspective"))
		}
	}
}

func (g *gen) value(key string, v reflect.Value) {
	t := v.Type()
	if isEnum(t) {
		cs := enumCodes[t.Name()]
		v.Set(reflect.ValueOf(cs[g.r.IntN(len(cs))].Val))
		return
	}
	// Values that are, or look like, defaults.
	if d, ok := valueDefaults[key]; ok && v.Kind() == reflect.Array {
		n := v.Len()
		switch g.r.IntN(5) {
		case 0: // zero
			return
		case 1:
			v.Set(reflect.ValueOf(d))
			return
		case 2: // the default but for one component
			v.Set(reflect.ValueOf(d))
			v.Index(g.r.IntN(n)).SetFloat(g.float())
			return
		case 3: // zero but for one component
			v.Index(g.r.IntN(n)).SetFloat(g.float())
			return
		}
	}
	if d, ok := ptrDefaults[key]; ok {
		p := reflect.New(t.Elem())
		switch g.r.IntN(5) {
		case 0: // zero
		case 1:
			if d != inf {
				p.Elem().Set(reflect.ValueOf(d))
			}
		case 2:
			if d != inf {
				p.Elem().Set(reflect.ValueOf(d))
				if p.Elem().Kind() == reflect.Array {
					p.Elem().Index(g.r.IntN(p.Elem().Len())).SetFloat(g.float())
				}
			}
		default:
			g.value("", p.Elem())
		}
		v.Set(p)
		return
	}
	if v.Kind() == reflect.Pointer && t.Elem().Kind() != reflect.Struct && g.r.IntN(5) == 0 { // explicit zero
		v.Set(reflect.New(t.Elem()))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.String:
		v.SetString(g.str())
	case reflect.Int:
		v.SetInt(int64(g.index()))
	case reflect.Float64:
		v.SetFloat(g.float())
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetFloat(g.float())
		}
	case reflect.Slice:
		n, end := g.length(g.coll)
		defer end()
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			g.value("", s.Index(i))
		}
		v.Set(s)
	case reflect.Map: // PrimitiveAttributes
		m := reflect.MakeMap(t)
		n, end := g.length(g.coll)
		defer end()
		for i := n; i > 0; i-- {
			k := []string{"POSITION", "NORMAL", "TEXCOORD_0", "_CUSTOM", "JOINTS_0", g.str()}[g.r.IntN(6)]
			if n > 20 {
				k = fmt.Sprintf("_A%d", i)
			}
			m.SetMapIndex(reflect.ValueOf(k), reflect.ValueOf(g.index()))
		}
		v.Set(m)
	case reflect.Pointer:
		p := reflect.New(t.Elem())
		if t.Elem().Kind() == reflect.Struct {
			g.fill(t.Elem().Name(), p.Elem())
		} else {
			g.value("", p.Elem())
		}
		v.Set(p)
	case reflect.Struct:
		g.fill(t.Name(), v)
	default:
		infra("gen: kind %v for %s", v.Kind(), key)
	}
}

// length is the length of a collection. Now and then it is a long one, with
// few contents in its elements until end is called.
func (g *gen) length(most int) (n int, end func()) {
	if n := g.force; n > 0 {
		g.force = 0
		dens, coll := g.dens, g.coll
		g.dens, g.coll = 0.02, 1
		return n, func() { g.dens, g.coll = dens, coll }
	}
	if g.noLong || g.dens < 0.1 || g.r.IntN(150) > 0 {
		return g.r.IntN(most + 1), func() {}
	}
	dens, coll := g.dens, g.coll
	g.dens, g.coll = 0.05, 1
	n = []int{8, 16, 32, 64, 100, 128, 256}[g.r.IntN(7)] + g.r.IntN(4) - 1
	return n, func() { g.dens, g.coll = dens, coll }
}

// edgeLen is a length around a power of two between 1<<lo and 1<<hi.
func edgeLen(r *rand.Rand, lo, hi int) int {
	n := 1 << (lo + r.IntN(hi-lo+1))
	return max(0, n+r.IntN(11)-5)
}

func (g *gen) bytes(n int) []byte {
	b := make([]byte, n)
	switch g.r.IntN(5) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = ' '
		}
	default:
		for i := range b {
			b[i] = byte(g.r.Uint32())
		}
	}
	return b
}

func (g *gen) buffers() []*gltf.Buffer {
	n, end := g.length(g.coll + 1)
	defer end()
	if n > 40 && n < 300 && g.r.IntN(4) > 0 {
		n = 15 + n%20
	}
	out := make([]*gltf.Buffer, n)
	for i := range out {
		b := &gltf.Buffer{Data: g.bytes(1 + g.r.IntN(g.maxBuf))}
		if g.r.IntN(100) == 0 {
			b.Data = g.bytes(edgeLen(g.r, 5, 13))
		}
		b.ByteLength = len(b.Data)
		if g.opt() {
			b.Name = g.str()
		}
		if g.opt() && g.p(0.3) {
			b.Extensions = g.extensions("Buffer")
		}
		if g.opt() && g.p(0.3) {
			b.Extras = g.extras()
		}
		if g.uri != nil {
			b.URI = g.uri(i)
			if b.URI == octet {
				g.embed(b)
			}
		}
		out[i] = b
	}
	return out
}

// embed makes b embedded. Its URI may be the one of earlier data.
func (g *gen) embed(b *gltf.Buffer) {
	switch data := b.Data; g.r.IntN(6) {
	case 0: // of the same length
		b.Data = g.bytes(len(data))
		b.EmbeddedResource()
		b.Data = data
	case 1:
		b.Data = data[:g.r.IntN(len(data)+1)]
		b.EmbeddedResource()
		b.Data = data
	default:
		b.EmbeddedResource()
	}
}

// mixedURIs gives buffers no URI, an embedded one or a unique relative one.
func (g *gen) mixedURIs() {
	g.uri = func(i int) string {
		switch g.r.IntN(4) {
		case 0, 1:
			return ""
		case 2:
			return octet // replaced by the embedded data
		}
		return g.relURI(i)
	}
}

// relURI returns a relative URI, unique for i, without dot segments (but for a
// leading ./) that decodes to a path without '%'.
func (g *gen) relURI(i int) string {
	base := fmt.Sprintf("b%d", i)
	forms := []string{"%s.bin", "./%s.bin", "dir/%s.bin", "dir\\%s.bin", "a b/%s.bin", "a%%20b/%s.bin", "%s%%20x.bin", "%s..bin", "..%s", "%s…", "é/%s", "%%C3%%A9%s.bin", "%s+x.bin", "%s?q=1", "%s#f", "%s?", "%s#", "%s?#", "d/./%s.bin", "%s:c", "x:y/%s", "a&b=%s;c", "%s%%25.bin", " %s.bin", "%s.bin ", "%%20%s", "%s%%20", "%s.BIN", "dir /%s", "%s'\"<>", "%s%%25.bin"}
	f := forms[g.r.IntN(len(forms)-1)]
	if g.r.IntN(8) == 0 { // long names
		base += strings.Repeat("x", g.r.IntN(130))
	}
	uri := fmt.Sprintf(f, base)
	if d := deeper(g.r) + strings.TrimPrefix(uri, "./"); g.r.IntN(12) == 0 {
		if _, ok := denotes(d); ok {
			return d
		}
	}
	return uri
}

// deeper is a path of some directories.
func deeper(r *rand.Rand) string {
	out := ""
	for n := 1 + r.IntN(9); n > 0; n-- {
		out += []string{"d/", "d\\", "a b/", "é\\", "a%20b/", "x.y/"}[r.IntN(6)]
	}
	return out
}

func (g *gen) imageURI() string {
	switch g.r.IntN(6) {
	case 0:
		return "data:image/png;base64," + b64(g.bytes(g.r.IntN(20)))
	case 1:
		return "data:image/jpeg;base64," + b64(g.bytes(g.r.IntN(20)))
	case 2:
		return "https://example.com/img%20a.png?x=1#f"
	case 3:
		return "data:image/gif;base64," + b64(g.bytes(3))
	default:
		// Those that are no valid URI are kept as they are.
		return []string{"img.png", "dir/img.jpg", "a b.png", "img..png", "100%.png", "x%zz y.png", "t\tab\x7f.png", ":no-scheme.png", "c%4", "[::1/a.png"}[g.r.IntN(14)%10]
	}
}

// member is the name of a member of an open object.
func (g *gen) member() string {
	if g.r.IntN(3) == 0 {
		return []string{"extras", "extensions", "name", "Extras", "KHR_materials_unlit", "index", "type", ""}[g.r.IntN(8)]
	}
	return g.str()
}
