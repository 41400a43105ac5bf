package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/bits"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
)

// ---- hostile inputs ------------------------------------------------------------

var hostileNumbers = []string{"-1", "0", "1", "1e400", "-0", "1e-400", "0.5", "4294967295", "4294967296", "2147483648", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e18", "99999999999999999999999", "5121", "65536", "256", "1E+2", "123456789"}
var hostileStrings = []string{"", "SCALAR", "VEC5", "MAT4", "data:application/octet-stream;base64,", "data:application/octet-stream;base64,!!!!", "data:application/octet-stream;base64,AA==", "data:application/octet-stream;base64,A", "data:image/png;base64,####", "../x", "x.bin", "\x00", "LINEAR", "OPAQUE", "perspective", "data:", "data:,", "http://x", "%", "%zz"}
var rawHostile = []string{"null", "true", "false", "[]", "{}", "[null]", "[[]]", "[{}]", `{"":null}`, "[1,2]", "[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17]", `{"a":1,"a":2}`, `""`, "nul", "{", "]", "1.", "-", `"\ud800"`, `"\x"`, "\"\x80\"", "\xff", "//x", "1e", `{"a"}`, "NaN"}

// nearCode is a number close to a code of some enumeration, or one of them.
func nearCode(r *rand.Rand) int {
	base := []int{0, 0, 5120, 5126, 9728, 9729, 9984, 9987, 10497, 33071, 33648, 34962, 34963}[r.IntN(13)]
	return base + r.IntN(40) - 12
}

// valueList is every hostile value.
var valueList = func() (out []any) {
	for _, s := range hostileNumbers {
		out = append(out, rawNode(s))
	}
	for _, s := range hostileStrings {
		out = append(out, s)
	}
	for _, s := range rawHostile {
		out = append(out, rawNode(s))
	}
	for _, s := range []string{`[{"index":null}]`, `[-1]`, `[1e400]`, `["a"]`, `{"index":-1}`, `{"extensions":null}`, `{"extensions":[]}`, `{"extensions":{"KHR_lights_punctual":null}}`, `{"extensions":{"KHR_lights_punctual":{"light":null}}}`, `{"extensions":{"KHR_texture_transform":[]}}`, `{"extensions":{"":0}}`, `{"extensions":{"KHR_materials_unlit":null}}`} {
		out = append(out, rawNode(s))
	}
	return
}()

// leaves calls f with a pointer to every value in the tree, the tree's own
// objects and arrays included.
func leaves(v any, f func(get any, set func(any))) {
	switch v := v.(type) {
	case members:
		for i := range v {
			f(v[i].v, func(x any) { v[i].v = x })
			leaves(v[i].v, f)
		}
	case []any:
		for i := range v {
			f(v[i], func(x any) { v[i] = x })
			leaves(v[i], f)
		}
	}
}

// c08each puts every hostile value in one place of a document, a different
// place in each case.
func c08each(t *T) {
	g := newGen(t.R)
	g.mixedURIs()
	g.dens, g.coll = 0.9, 1
	g.rawExt = t.R.IntN(2) == 0
	s := singles[t.I%len(singles)]
	doc := s.make(g)
	if t.R.IntN(3) == 0 {
		g.fill(s.typ, place(s.typ, doc))
	}
	w := &refWriter{g: g, Explicit: 2, binary: t.R.IntN(2) == 0}
	tree := w.tree("Document", "", reflect.ValueOf(doc).Elem())
	n := 0
	leaves(tree, func(any, func(any)) { n++ })
	if n == 0 {
		return
	}
	at := t.R.IntN(n)
	var old any
	var set func(any)
	n = 0
	leaves(tree, func(x any, f func(any)) {
		if n == at {
			old, set = x, f
		}
		n++
	})
	vals := append([]any{}, valueList...)
	for k := 0; k < 40; k++ {
		vals = append(vals, rawNode(strconv.Itoa(nearCode(t.R))))
	}
	for _, x := range vals {
		set(x)
		in := render2(w, tree)
		if w.binary {
			in = wrapGLB(g, in)
		}
		t.Note("input", in)
		if d, err := decode(in, nil); err == nil {
			t.Hit("each_document")
			if t.R.IntN(4) == 0 {
				encode(d, modes[0], nil)
			}
		} else {
			t.Hit("each_error")
		}
		t.Eval(1)
	}
	set(old)
	t.Key("each", t.I, at)
}

func hostileNode(g *gen) any {
	switch g.r.IntN(5) {
	case 0:
		if g.r.IntN(3) == 0 {
			return rawNode(strconv.Itoa(nearCode(g.r)))
		}
		return rawNode(hostileNumbers[g.r.IntN(len(hostileNumbers))])
	case 1:
		return hostileStrings[g.r.IntN(len(hostileStrings))]
	case 2:
		return rawNode(rawHostile[g.r.IntN(17)])
	case 3:
		if g.r.IntN(4) == 0 {
			return rawNode(rawHostile[g.r.IntN(len(rawHostile))])
		}
		return nil
	default:
		return (&refWriter{g: g}).any(g.json(2))
	}
}

// hostileTree replaces, drops, repeats and wraps parts of a JSON tree.
func hostileTree(g *gen, v any, p float64) any {
	if g.p(p) {
		if g.r.IntN(6) == 0 {
			return []any{v}
		}
		return hostileNode(g)
	}
	switch v := v.(type) {
	case members:
		var out members
		for _, m := range v {
			m.v = hostileTree(g, m.v, p)
			switch {
			case g.p(p / 2):
				continue
			case g.p(p / 2):
				out = append(out, m)
				m.v = hostileNode(g)
			case g.p(p / 4):
				m.k = strings.ToUpper(m.k)
			}
			out = append(out, m)
		}
		return out
	case []any:
		out := make([]any, 0, len(v))
		for _, x := range v {
			out = append(out, hostileTree(g, x, p))
			if g.p(p / 2) {
				out = append(out, hostileNode(g))
			}
		}
		return out
	}
	return v
}

// fullTree is the JSON tree of a random document.
func fullTree(g *gen, w *refWriter) members {
	doc := g.document()
	return w.tree("Document", "", reflect.ValueOf(doc).Elem())
}

func render2(w *refWriter, v any) []byte {
	var b bytes.Buffer
	w.write(&b, v)
	return b.Bytes()
}

// mutateBytes changes a few bytes.
func mutateBytes(r *rand.Rand, b []byte) []byte {
	out := append([]byte{}, b...)
	for k := 1 + r.IntN(4); k > 0 && len(out) > 0; k-- {
		i := r.IntN(len(out))
		switch r.IntN(8) {
		case 0:
			out[i] ^= 1 << r.IntN(8)
		case 1:
			out[i] = byte(r.Uint32())
		case 2:
			out = out[:i]
		case 3: // drop a part
			j := i + r.IntN(min(16, len(out)-i)+1)
			out = append(out[:i:i], out[j:]...)
		case 4: // repeat a part
			j := i + r.IntN(min(16, len(out)-i)+1)
			out = append(out[:j:j], out[i:]...)
		case 5: // interesting 32 bit word
			if i+4 <= len(out) {
				binary.LittleEndian.PutUint32(out[i:], []uint32{0, 1, 0xffffffff, 0x7fffffff, 0x80000000, uint32(len(out)), 0x40000000, magicGLTF, chunkJSON, chunkBIN}[r.IntN(10)])
			}
		case 6:
			out[i] = "{}[]\",:0-e\\ \x00\xff"[r.IntN(14)]
		case 7:
			if i < 24 && len(out) >= 20 { // header fields
				o := r.IntN(5) * 4
				binary.LittleEndian.PutUint32(out[o:], []uint32{0, 1, 4, 12, 20, 0xffffffff, 0xfffffff0, 0x80000000, uint32(len(out)), uint32(len(out) - 20)}[r.IntN(10)])
			}
		}
	}
	return out
}

// hostileFS answers every name.
func hostileFS(g *gen) *memFS {
	m := newMemFS()
	m.lax = true
	for _, n := range []string{"x.bin", "b0.bin", "b1.bin", "dir/b1.bin", "data:,", "%"} {
		m.files[n] = g.bytes(g.r.IntN(20))
	}
	return m
}

// decodeAnything decodes arbitrary bytes and pushes whatever comes out of it
// through the encoder. A panic ends the case as a violation.
func decodeAnything(t *T, g *gen, in []byte) (*gltf.Document, error) {
	t.Note("input", in)
	doc, err := decode(in, nil)
	doc2, err2 := decode(in, hostileFS(g))
	if doc == nil && err == nil {
		t.Failf("neither document nor error")
	}
	if err2 == nil {
		doc, err = doc2, nil
	}
	if err != nil {
		t.Hit("error")
		return nil, err
	}
	t.Hit("document")
	for _, m := range modes[:3] {
		mem := newMemFS()
		mem.lax = true
		if out, err := encode(doc, m, mem); err == nil {
			t.Hit("reencoded")
			decode(out, mem)
		}
	}
	for _, im := range doc.Images {
		if im.IsEmbeddedResource() {
			im.MarshalData()
		}
	}
	return doc, err
}

var registered = []string{lightspunctual.ExtensionName, specular.ExtensionName, texturetransform.ExtensionName, unlit.ExtensionName}

// hostileJSON is the JSON of a document with hostile parts.
func hostileJSON(g *gen) []byte {
	w := &refWriter{g: g, Explicit: g.r.IntN(3), Unknown: true, binary: g.r.IntN(2) == 0, ws: g.r.IntN(4) == 0}
	g.mixedURIs()
	tree := fullTree(g, w)
	p := []float64{0.005, 0.02, 0.1, 0.3}[g.r.IntN(4)]
	v := hostileTree(g, tree, p)
	if g.r.IntN(4) == 0 { // hostile payloads of the built-in extensions
		if ms, ok := v.(members); ok {
			e := members{}
			for _, n := range registered {
				if g.r.IntN(2) == 0 {
					e = append(e, member{n, hostileTree(g, w.ext(g.extensions("")[n]), 0.4)})
				}
			}
			v, _ = setMember(ms, "extensions", e)
		}
	}
	return render2(w, v)
}

func wrapGLB(g *gen, text []byte) []byte {
	var bin []byte
	if g.r.IntN(3) > 0 {
		bin = g.bytes(g.r.IntN(60))
	}
	return simpleGLB(text, bin)
}

func init() {
	// ---- C08
	register(&Prop{
		ID: "C08", QuickMul: 5, DeepMul: 2, Level: "exploration",
		Rule:   "random bytes, bit- and token-level mutations of valid JSON and GLB, structure-aware JSON with wrong types, nulls, hostile numbers and base64 in every field and in the payloads of the built-in extensions, hostile container lengths and deep nesting, through Decode with and without a file system, Open, and the encoder for whatever decodes; bytes allocated are measured by the runtime; distinct by input",
		Assume: []string{"inputs up to a few hundred kilobytes", "nesting of extensions inside extensions up to 300", "memory bound: 4 MiB + 4096 bytes per input byte, allocated in total"},
		Need:   map[string]int{"error": 1000, "document": 300, "reencoded": 300, "claimed_huge": 100, "measured": 500, "deep": 20, "opened": 100, "each_document": 3000, "each_error": 3000}, MinKeys: 2000,
		Families: []Family{
			{Name: "bytes", Quick: 4000, Thorough: 400000, Run: func(t *T) {
				g := newGen(t.R)
				n := t.R.IntN(200)
				in := make([]byte, n)
				for i := range in {
					if t.I%2 == 0 {
						in[i] = byte(t.R.Uint32())
					} else {
						const alphabet = "{}[]\",:0123456789eE+-.truefalsn \\u\x00"
						in[i] = alphabet[t.R.IntN(len(alphabet))]
					}
				}
				if t.R.IntN(2) == 0 {
					in = append(append(le32(magicGLTF), le32(2)...), in...)
					if t.R.IntN(2) == 0 && len(in) >= 20 {
						binary.LittleEndian.PutUint32(in[16:], chunkJSON)
						binary.LittleEndian.PutUint32(in[12:], uint32(t.R.IntN(300)))
						binary.LittleEndian.PutUint32(in[8:], uint32(t.R.IntN(600)))
					}
				}
				decodeAnything(t, g, in)
				t.Key(in)
			}},
			{Name: "mutated", Quick: 6000, Thorough: 400000, Run: func(t *T) {
				g := newGen(t.R)
				g.mixedURIs()
				w := &refWriter{g: g, Explicit: 1, binary: t.R.IntN(2) == 0}
				text := w.document(g.document())
				if w.binary {
					text = wrapGLB(g, text)
				}
				in := mutateBytes(t.R, text)
				decodeAnything(t, g, in)
				t.Key(in)
				t.Sample(func() string { return string(clip(in, 200)) })
			}},
			{Name: "hostile", Quick: 6000, Thorough: 400000, Run: func(t *T) {
				g := newGen(t.R)
				in := hostileJSON(g)
				if t.R.IntN(2) == 0 {
					in = wrapGLB(g, in)
				}
				decodeAnything(t, g, in)
				t.Key(in)
				t.Sample(func() string { return string(clip(in, 200)) })
			}},
			{Name: "fields", Quick: 1500, Thorough: 40000, Run: func(t *T) { // one hostile value in one field of one object
				g := newGen(t.R)
				g.mixedURIs()
				s := singles[t.I%len(singles)]
				doc := s.make(g)
				w := &refWriter{g: g, Explicit: 2}
				v := hostileTree(g, w.tree("Document", "", reflect.ValueOf(doc).Elem()), 0.08)
				in := render2(w, v)
				decodeAnything(t, g, in)
				t.Key(in)
			}},
			{Name: "each", Quick: 900, Thorough: 60000, Run: c08each},
			{Name: "lengths", Quick: 2000, Thorough: 100000, Run: c08lengths},
			{Name: "nesting", Quick: 60, Thorough: 600, Run: func(t *T) {
				g := newGen(t.R)
				open := []string{"[", `{"a":`, `[{"b":`, ` [`}[t.I%4]
				clos := []string{"]", "}", "}]", "]"}[t.I%4]
				n := []int{10, 999, 4990, 9990, 10001, 50000, 200000}[t.I/4%7]
				deep := strings.Repeat(open, n) + "1"
				if t.R.IntN(3) > 0 {
					deep += strings.Repeat(clos, n)
				}
				where := []string{`{"extras":%s}`, `{"extensions":{"X":%s}}`, `{"unknown":%s}`, `{"nodes":%s}`, `{"materials":[{"extensions":{"KHR_materials_pbrSpecularGlossiness":%s}}]}`, `%s`, `{"extensions":{"KHR_materials_unlit":{"x":%s}}}`}
				in := []byte(fmt.Sprintf(where[t.R.IntN(len(where))], deep))
				if t.R.IntN(2) == 0 {
					in = simpleGLB(in, nil)
				}
				t.Note("input", clip(in, 200))
				if doc, err := decode(in, nil); err == nil {
					encode(doc, modes[0], nil)
					t.Hit("deep_document")
				}
				t.Hit("deep")
				t.Key("nesting", n, t.I%4, g.r.Uint32())
			}},
			{Name: "nested-extensions", Quick: 20, Thorough: 300, Run: func(t *T) {
				n := 1 + t.R.IntN(300)
				in := []byte(`{"materials":[{"extensions":` + strings.Repeat(`{"KHR_materials_pbrSpecularGlossiness":{"diffuseTexture":{"index":0,"extensions":`, n) + `{}` + strings.Repeat(`}}}`, n) + `}]}`)
				doc, err := decode(in, nil)
				if err != nil {
					t.Failf("%d nested extensions: %v", n, err)
				}
				if _, err := encode(doc, modes[1], nil); err != nil {
					t.Failf("%d nested extensions: encoding: %v", n, err)
				}
				t.Hit("deep")
				t.Key("nested", n)
			}},
			{Name: "open", Quick: 250, Thorough: 6000, Run: func(t *T) {
				g := newGen(t.R)
				in := hostileJSON(g)
				if t.R.IntN(2) == 0 {
					in = wrapGLB(g, in)
				}
				if t.R.IntN(3) == 0 {
					in = mutateBytes(t.R, in)
				}
				t.Note("input", in)
				name := filepath.Join(t.Scratch(), "x.gltf")
				if err := os.WriteFile(name, in, 0o644); err != nil {
					infra("%v", err)
				}
				doc, err := gltf.Open(name)
				if (doc == nil) == (err == nil) {
					t.Failf("Open returns document %v and error %v", doc != nil, err)
				}
				t.Hit("opened")
				t.Key(in)
			}},
			{Name: "memory", Seq: true, Quick: 1200, Thorough: 20000, Run: func(t *T) {
				g := newGen(t.R)
				in, what := claimHuge(g, t.I)
				t.Note("input", in)
				t.Note("kind", what)
				fsys := hostileFS(g)
				a := allocated(func() {
					d := gltf.NewDecoder(bytes.NewReader(in))
					if t.I%2 == 0 {
						d = gltf.NewDecoderFS(bytes.NewReader(in), fsys)
					}
					d.Decode(new(gltf.Document))
				})
				limit := uint64(4<<20) + 4096*uint64(len(in))
				if a > limit {
					t.Failf("%s: decoding %d bytes allocated %d bytes", what, len(in), a)
				}
				t.Hit("measured")
				if what != "hostile" {
					t.Hit("claimed_huge")
				}
				t.Key("mem", in)
			}},
		},
	})

	// ---- C09
	register(&Prop{
		ID: "C09", QuickMul: 16, DeepMul: 2, Level: "fault_enumeration",
		Rule:   "every cut position of generated GLB and JSON documents, every single corruption of the container header fields and of the buffer requirements from a list, and the legal container variations; distinct by (document, cut or variant)",
		Assume: []string{"documents up to a few kilobytes are cut everywhere, larger ones at 300 positions", "the container version and a total length larger than the stream are not claimed"},
		Need:   map[string]int{"cut_rejected": 5000, "cut_json": 2000, "corruption_rejected": 500, "variant_accepted": 500, "cut_bin": 300, "cut_optional": 100}, MinKeys: 2000,
		Families: []Family{
			{Name: "cuts", Quick: 120, Thorough: 6000, Run: c09cuts},
			{Name: "corrupt", Quick: 800, Thorough: 40000, Run: c09corrupt},
			{Name: "variants", Quick: 800, Thorough: 40000, Run: c09variants},
		},
	})

	// ---- C10
	register(&Prop{
		ID: "C10", QuickMul: 15, DeepMul: 2, Level: "exploration",
		Rule:   "valid, damaged and cut JSON and GLB inputs, read one byte at a time, in random pieces, with pieces ending at every boundary of the container, with empty reads and with data returned together with EOF, compared with one read of everything; read errors injected at every byte (all positions of small inputs), alone or together with data, and in external files; distinct by (input, schedule)",
		Assume: []string{"read errors are lasting: the reader keeps returning them"},
		Need:   map[string]int{"same_document": 1000, "same_error": 300, "read_error_reported": 2000, "late_error": 200, "file_error": 100, "tiny": 50}, MinKeys: 1000,
		Families: []Family{
			{Name: "segments", Quick: 700, Thorough: 40000, Run: c10segments},
			{Name: "errors", Quick: 150, Thorough: 6000, Run: c10errors},
			{Name: "files", Quick: 200, Thorough: 10000, Run: c10files},
		},
	})
}

// c08lengths: buffers of every placement with hostile lengths, with and
// without the data.
func c08lengths(t *T) {
	g := newGen(t.R)
	var text strings.Builder
	text.WriteString(`{"asset":{"version":"2.0"},"buffers":[`)
	for k, n := 0, 1+t.R.IntN(3); k < n; k++ {
		if k > 0 {
			text.WriteByte(',')
		}
		l := []string{"-1", "-4", "-9223372036854775808", "-2147483648", "-4294967295", "0", "1", "2", "3", "4", "8", "20", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807"}[t.R.IntN(19)]
		uri := []string{"", "", `,"uri":"x.bin"`, `,"uri":"dir/b1.bin"`, `,"uri":"b0.bin"`, `,"uri":"missing.bin"`, `,"uri":"data:application/octet-stream;base64,AAECAw=="`, `,"uri":"data:application/octet-stream;base64,"`,
			`,"uri":"data:application/octet-stream;base64"`, `,"uri":"http://h/x.bin"`, `,"uri":"data:,"`, `,"uri":""`}[t.R.IntN(12)]
		fmt.Fprintf(&text, `{"byteLength":%s%s}`, l, uri)
	}
	text.WriteString(`]}`)
	in := []byte(text.String())
	if t.R.IntN(2) == 0 {
		in = simpleGLB(in, g.bytes(t.R.IntN(24)))
		if t.R.IntN(3) == 0 { // other chunk lengths
			binary.LittleEndian.PutUint32(in[20+int(binary.LittleEndian.Uint32(in[12:])):], uint32(t.R.IntN(40))-8)
		}
	}
	decodeAnything(t, g, in)
	t.Hit("hostile_length")
	t.Key(in)
}

func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// claimHuge makes a small input that claims to be huge.
func claimHuge(g *gen, i int) ([]byte, string) {
	sizes := []uint32{64 << 20, 256 << 20, 1 << 30, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff}
	n := sizes[g.r.IntN(len(sizes))]
	big := []string{"67108864", "1073741824", "2147483647", "4294967295", "4294967296", "1000000000000", "4611686018427387904", "9223372036854775807"}[g.r.IntN(8)]
	switch i % 10 {
	case 0: // JSON chunk length
		b := simpleGLB([]byte(`{"asset":{"version":"2.0"}}`), nil)
		binary.LittleEndian.PutUint32(b[12:], n)
		binary.LittleEndian.PutUint32(b[8:], []uint32{n, 0xffffffff, uint32(len(b))}[g.r.IntN(3)])
		return b, "JSON chunk length"
	case 1: // BIN chunk and buffer length
		b := simpleGLB([]byte(`{"buffers":[{"byteLength":`+big+`}]}`), []byte{1, 2, 3, 4})
		if g.r.IntN(4) > 0 {
			binary.LittleEndian.PutUint32(b[len(b)-12:], n)
		}
		binary.LittleEndian.PutUint32(b[8:], n)
		return b, "BIN chunk length"
	case 2: // buffer in a file
		return []byte(`{"buffers":[{"byteLength":` + big + `,"uri":"x.bin"}]}`), "file buffer length"
	case 3:
		return []byte(`{"buffers":[{"byteLength":` + big + `,"uri":"data:application/octet-stream;base64,AAAA"}]}`), "embedded buffer length"
	case 4:
		return []byte(`{"accessors":[{"count":` + big + `,"type":"MAT4","componentType":5126,"sparse":{"count":` + big + `,"indices":{"bufferView":0,"componentType":5125},"values":{"bufferView":0}}}],"bufferViews":[{"buffer":0,"byteLength":` + big + `,"byteStride":` + big + `}]}`), "accessor count"
	case 5:
		return []byte(`{"buffers":[` + strings.TrimSuffix(strings.Repeat(`{"byteLength":`+big+`,"uri":"x.bin"},`, 1+g.r.IntN(50)), ",") + `]}`), "many file buffers"
	case 6:
		return []byte(`{"extensions":{"KHR_lights_punctual":{"lights":[{"type":"point","range":` + big + `}]}},"nodes":[{"mesh":` + big + `,"weights":[` + big + `],"children":[` + big + `]}]}`), "numbers"
	case 7: // many small objects
		return []byte(`{"nodes":[` + strings.TrimSuffix(strings.Repeat(`{},`, 1+g.r.IntN(2000)), ",") + `]}`), "many nodes"
	case 8: // BIN header right at the end of the input
		b := simpleGLB([]byte(`{"buffers":[{"byteLength":`+big+`}]}`), nil)
		b = append(append(b, le32(n)...), le32(chunkBIN)...)
		return b, "BIN chunk without data"
	}
	in := hostileJSON(g)
	if g.r.IntN(2) == 0 {
		in = wrapGLB(g, in)
	}
	return in, "hostile"
}

// c09doc makes a document and its container parts.
func c09doc(g *gen) (doc *gltf.Document, w *refWriter, text, bin []byte, fsys *memFS) {
	g.rawExt, g.jsonExtras = true, true
	g.mixedURIs()
	doc = g.document()
	w = &refWriter{g: g, Explicit: 1, binary: true}
	text = bytes.TrimSpace(w.document(doc))
	if len(doc.Buffers) > 0 && doc.Buffers[0].URI == "" {
		bin = doc.Buffers[0].Data
	}
	fsys = newMemFS()
	for _, b := range doc.Buffers {
		if b.URI != "" && !b.IsEmbeddedResource() {
			fsys.files[filePath(b.URI)] = b.Data
		}
	}
	return
}

func sameDoc(t *T, what string, want, got *gltf.Document) {
	if !reflect.DeepEqual(want, got) {
		if err := (&docDiff{}).diff(want, got); err != nil {
			t.Failf("%s: different document: %v", what, err)
		}
		t.Failf("%s: different document", what)
	}
}

func c09cuts(t *T) {
	g := newGen(t.R)
	doc, w, text, bin, fsys := c09doc(g)
	_ = w
	in := simpleGLB(text, bin)
	full, err := decode(in, fsys)
	if err != nil {
		t.Note("input", in)
		t.Failf("valid document rejected: %v", err)
	}
	if err := saveDiff().diff(doc, full); err != nil {
		t.Note("input", in)
		t.Failf("%v", err)
	}
	cuts := func(n int) []int {
		var out []int
		if n <= 2500 {
			for i := 0; i < n; i++ {
				out = append(out, i)
			}
			return out
		}
		for i := 0; i < 30; i++ {
			out = append(out, i, n-1-i)
		}
		for i := 0; i < 240; i++ {
			out = append(out, t.R.IntN(n))
		}
		return out
	}
	jsonEnd := 20 + len(text)
	binStart := 20 + (len(text)+3)&^3 + 8
	needed := jsonEnd
	if bin != nil {
		needed = binStart + len(bin)
	}
	for _, n := range cuts(len(in)) {
		got, err := decode(in[:n], fsys)
		t.Eval(1)
		if err == nil {
			if n < needed {
				t.Note("input", in[:n])
				t.Failf("GLB cut at %d of %d (JSON ends at %d, buffer data at %d) was accepted", n, len(in), jsonEnd, needed)
			}
			sameDoc(t, fmt.Sprintf("GLB cut at %d of %d", n, len(in)), full, got)
			t.Hit("cut_optional")
			continue
		}
		t.Hit("cut_rejected")
		if n >= binStart && n < needed {
			t.Hit("cut_bin")
		}
		t.Key(t.I, n)
	}
	// JSON documents.
	js := (&refWriter{g: g, Explicit: 1}).document(doc)
	js = bytes.TrimSpace(js)
	if _, err := decode(js, fsys); err != nil {
		t.Note("input", js)
		t.Failf("valid JSON document rejected: %v", err)
	}
	for _, n := range cuts(len(js)) {
		if _, err := decode(js[:n], fsys); err == nil {
			t.Note("input", js[:n])
			t.Failf("JSON document cut at %d of %d was accepted", n, len(js))
		}
		t.Eval(1)
		t.Hit("cut_json")
	}
	t.Sample(func() string {
		return fmt.Sprintf("GLB of %d bytes (JSON %d, BIN %d) and JSON of %d bytes cut", len(in), len(text), len(bin), len(js))
	})
}

// wrongType returns a chunk type that resembles right and is not right.
func wrongType(r *rand.Rand, right, other uint32) uint32 {
	for {
		v := right
		switch r.IntN(9) {
		case 0:
			v = other
		case 1:
			v = []uint32{0, 0xffffffff, 1, r.Uint32()}[r.IntN(4)]
		case 2:
			v ^= 1 << r.IntN(32)
		case 3: // letter case
			for i := 0; i < 32; i += 8 {
				if byte(v>>i) != 0 {
					v ^= 0x20 << i
				}
			}
		case 4:
			v ^= 0x20 << (8 * r.IntN(4))
		case 5:
			v = bits.RotateLeft32(v, 8*(1+r.IntN(3)))
		case 6:
			v <<= 8
			if r.IntN(2) == 0 {
				v = right >> 8
			}
		case 7:
			v = bits.ReverseBytes32(v)
		case 8: // one byte is something else
			k := 8 * r.IntN(4)
			v = v&^(0xff<<k) | uint32([]byte{0, ' ', 0xff, byte(r.Uint32())}[r.IntN(4)])<<k
		}
		if v != right {
			return v
		}
	}
}

func c09corrupt(t *T) {
	g := newGen(t.R)
	doc, _, text, bin, fsys := c09doc(g)
	kind := t.I % 16
	var in []byte
	what := ""
	// dress adds members that change nothing to the buffers and the document.
	dress := func(js string) []byte {
		buf := []string{"", "", `"name":"x",`, `"extras":{"a":1},`, `"extensions":{"X_a":{"fallback":true}},`, `"extensions":{"EXT_meshopt_compression":{"fallback":true}},`, `"extensions":{"KHR_lights_punctual":{"light":0}},"extras":3,`}
		js = strings.ReplaceAll(js, `{"byteLength"`, `{`+buf[t.R.IntN(len(buf))]+`"byteLength"`)
		top := []string{"", "", `"extensionsUsed":["X_a"],"extensionsRequired":["X_a"],`, `"bufferViews":[{"buffer":0,"byteLength":1}],`, `"scenes":[{}],"scene":0,`, `"extras":{"buffers":[]},"extensions":{"X_b":{}},`}
		return []byte(`{` + top[t.R.IntN(len(top))] + strings.TrimPrefix(js, "{"))
	}
	binText := func(extra string) ([]byte, []byte) {
		if bin != nil && t.R.IntN(2) == 0 { // the random document
			return text, bin
		}
		b := g.bytes(1 + t.R.IntN(60))
		if t.R.IntN(8) == 0 {
			b = g.bytes(edgeLen(t.R, 6, 16))
		}
		return dress(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d}%s]}`, len(b), extra)), b
	}
	switch kind {
	case 0:
		what = "first chunk is not JSON"
		in = simpleGLB(text, bin)
		binary.LittleEndian.PutUint32(in[16:], wrongType(t.R, chunkJSON, chunkBIN))
	case 1:
		what = "JSON chunk longer than the total length"
		in = simpleGLB(text, bin)
		jl := binary.LittleEndian.Uint32(in[12:])
		binary.LittleEndian.PutUint32(in[8:], uint32(t.R.IntN(int(jl)+20)))
	case 2:
		what = "JSON chunk length overflows the total length"
		in = simpleGLB(text, bin)
		binary.LittleEndian.PutUint32(in[12:], 0xffffffff-uint32(t.R.IntN(20)))
	case 3:
		what = "BIN chunk has another type"
		text, b := binText("")
		in = simpleGLB(text, b)
		o := 20 + (len(text)+3)&^3
		binary.LittleEndian.PutUint32(in[o+4:], wrongType(t.R, chunkBIN, chunkJSON))
		if t.R.IntN(2) == 0 { // any length that would be enough
			in = append(in, make([]byte, 16)...)
			binary.LittleEndian.PutUint32(in[o:], uint32(len(b)+t.R.IntN(10)))
		}
	case 4:
		what = "BIN chunk shorter than the buffer"
		text, b := binText("")
		in = simpleGLB(text, b)
		o := 20 + (len(text)+3)&^3
		binary.LittleEndian.PutUint32(in[o:], uint32(t.R.IntN(len(b))))
	case 5:
		what = "no BIN chunk for the buffer"
		text, _ := binText("")
		in = append(simpleGLB(text, nil), make([]byte, t.R.IntN(8))...)
	case 6, 7, 8:
		n := []string{"0", "-1", "-4", "-9223372036854775808", "-2147483648"}[t.R.IntN(5)]
		what = "buffer length " + n
		uri := []string{"", `,"uri":"x.bin"`, `,"uri":"data:application/octet-stream;base64,AAAA"`, `,"uri":"https://a/b"`}[t.R.IntN(4)]
		fsys.files["x.bin"] = []byte{1, 2, 3}
		good := `{"byteLength":3,"uri":"x.bin"},`
		pre := strings.Repeat(good, t.R.IntN(2))
		if uri == "" {
			pre = ""
		}
		js := dress(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[%s{"byteLength":%s%s}]}`, pre, n, uri))
		if t.R.IntN(4) == 0 { // length absent
			what = "no buffer length"
			js = dress(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[%s{"name":"x"%s}]}`, pre, uri))
		}
		in = js
		if t.R.IntN(2) == 0 || uri == "" {
			in = simpleGLB(js, []byte{1, 2, 3, 4})
		}
	case 9, 10:
		what = "buffer without data source"
		n := []int{1, 2, 3, 4, 5, 8, 1 + t.R.IntN(300)}[t.R.IntN(7)]
		js := dress(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d}]}`, n))
		in = js
		if kind == 10 {
			js := dress(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":4},{"byteLength":%d}]}`, n))
			in = simpleGLB(js, []byte{1, 2, 3, 4})
		} else if t.R.IntN(2) == 0 {
			fsys.files["x.bin"] = []byte{1, 2, 3}
			in = dress(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":3,"uri":"x.bin"},{"byteLength":%d,"uri":""}]}`, n))
			if t.R.IntN(2) == 0 {
				in = simpleGLB(in, []byte{1, 2, 3, 4})
			}
		}
	case 11:
		what = "null buffer or image"
		in = []byte(`{"` + []string{"buffers", "images"}[t.R.IntN(2)] + `":[null]}`)
	case 12:
		what = "JSON chunk shorter than its text"
		in = simpleGLB(text, bin)
		n := t.R.IntN(len(text))
		binary.LittleEndian.PutUint32(in[12:], uint32(n))
	case 13:
		what = "wrong magic"
		in = simpleGLB(text, bin)
		in[t.R.IntN(4)] ^= 1 << t.R.IntN(8)
	case 14:
		what = "missing file"
		in = dress(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":4,"uri":"not-there.bin"}]}`)
	case 15:
		what = "broken base64"
		in = dress(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":4,"uri":"data:application/octet-stream;base64,` + []string{"AAA", "A*==", "AAAAA", "=AAA", "AAAA=", "AA==AA=="}[t.R.IntN(6)] + `"}]}`)
	}
	_ = doc
	if len(in) >= 20 && string(in[:4]) == "glTF" && t.R.IntN(3) == 0 { // what the other fields say makes it no better
		binary.LittleEndian.PutUint32(in[4:], []uint32{0, 1, 3, 0x02000000, t.R.Uint32()}[t.R.IntN(5)])
		if n := binary.LittleEndian.Uint32(in[8:]); kind != 1 && kind != 2 && t.R.IntN(2) == 0 {
			binary.LittleEndian.PutUint32(in[8:], n+uint32(t.R.IntN(100)))
		}
		what += ", other header fields"
	}
	t.Note("input", in)
	var from fs.FS = fsys
	if kind != 14 && t.R.IntN(3) == 0 { // wrong whether or not files can be read
		from = nil
		what += ", no file system"
	}
	if got, err := decode(in, from); err == nil {
		data := ""
		for _, b := range got.Buffers {
			data += fmt.Sprintf(" %x", clip(b.Data, 40))
		}
		t.Failf("%s: accepted, with buffers%s", what, data)
	}
	t.Hit("corruption_rejected")
	t.Key(what, in)
	t.Sample(func() string { return what + ": " + string(clip(in, 120)) })
}

func c09variants(t *T) {
	g := newGen(t.R)
	doc, _, text, bin, fsys := c09doc(g)
	base, err := decode(simpleGLB(text, bin), fsys)
	if err != nil {
		t.Failf("valid document rejected: %v", err)
	}
	if err := saveDiff().diff(doc, base); err != nil {
		t.Failf("%v", err)
	}
	padded := append([]byte{}, text...)
	if t.R.IntN(3) == 0 {
		padded = append(bytes.Repeat([]byte{' '}, t.R.IntN(9)), padded...)
	}
	if t.R.IntN(40) == 0 { // long texts
		more := bytes.Repeat([]byte{' '}, edgeLen(t.R, 12, 21))
		if t.R.IntN(2) == 0 {
			padded = append(more, padded...)
		} else {
			padded = append(padded, more...)
		}
		t.Hit("long_text")
	}
	padded = append(padded, bytes.Repeat([]byte{' '}, t.R.IntN(5)*[]int{1, 1, 7, 1024, 5000}[t.R.IntN(5)])...)
	padded = pad(padded, ' ', 4)
	cs := []chunk{{chunkJSON, padded}}
	what := fmt.Sprintf("padding %d", len(padded)-len(text))
	if bin != nil {
		b := append([]byte{}, bin...)
		for k := t.R.IntN(4); k > 0; k-- {
			b = append(b, byte(t.R.IntN(2)*0xAA))
		}
		what += fmt.Sprintf(", BIN chunk +%d", len(b)-len(bin))
		cs = append(cs, chunk{chunkBIN, b})
	} else if t.R.IntN(2) == 0 {
		cs = append(cs, chunk{chunkBIN, g.bytes(4 * t.R.IntN(5))})
		what += ", unused BIN chunk"
	}
	if t.R.IntN(2) == 0 {
		for k := 1 + t.R.IntN(2); k > 0; k-- {
			cs = append(cs, chunk{[]uint32{0x12345678, chunkBIN, chunkJSON}[t.R.IntN(3)], g.bytes(4 * t.R.IntN(9))})
		}
		what += ", additional chunks"
	}
	in := buildGLB(cs...)
	if t.R.IntN(4) == 0 {
		in = append(in, g.bytes(t.R.IntN(20))...)
		what += ", trailing bytes"
	}
	t.Note("input", in)
	got, err := decode(in, fsys)
	if err != nil {
		t.Failf("%s: rejected: %v", what, err)
	}
	sameDoc(t, what, base, got)
	t.Hit("variant_accepted")
	t.Key(what, text, t.I)
	t.Sample(func() string { return what })
}

func randomPieces(r *rand.Rand, max int) func(int) int {
	return func(int) int { return 1 + r.IntN(max) }
}

// boundaries makes pieces that end at the given offsets.
func boundaries(offs map[int]bool, n int) func(int) int {
	return func(pos int) int {
		for e := pos + 1; e < n; e++ {
			if offs[e] {
				return e - pos
			}
		}
		return n - pos
	}
}

func c10input(t *T, g *gen) (in []byte, fsys *memFS, needed int, jsonLen int) {
	_, w, text, bin, fsys := c09doc(g)
	_ = w
	if t.R.IntN(8) == 0 { // larger than the buffers of bufio and of the JSON decoder
		more := 1 + t.R.IntN(9000)
		if t.R.IntN(4) == 0 {
			more = edgeLen(t.R, 9, 16)
		}
		if t.R.IntN(2) == 0 {
			text = append(text, bytes.Repeat([]byte{' '}, more)...)
		} else {
			text = append(bytes.Repeat([]byte{' '}, more), text...)
		}
		if t.R.IntN(2) == 0 && bin != nil {
			g.maxBuf = 20000
			bin = append(bin, make([]byte, 0)...)
		}
	}
	if t.R.IntN(6) == 0 { // no longer than a GLB header, or just so
		in = tinyJSON(t.R)
		t.Hit("tiny")
		if t.R.IntN(4) > 0 {
			return in, fsys, len(bytes.TrimRight(in, " \t\r\n")), len(in)
		}
		text, bin = in, nil
	}
	if t.R.IntN(2) == 0 {
		in = simpleGLB(text, bin)
		jsonLen = (len(text) + 3) &^ 3
		needed = 20 + len(bytes.TrimSpace(text))
		if bin != nil {
			needed = 20 + jsonLen + 8 + len(bin)
		}
		return
	}
	// As JSON the first buffer has to be embedded.
	if bin != nil {
		text = (&refWriter{g: g, Explicit: 1}).document(mustDecode(t, in0(text, bin), fsys))
	}
	text = bytes.TrimSpace(text)
	return text, fsys, len(text), len(text)
}

// tinyJSON is a document of few bytes.
func tinyJSON(r *rand.Rand) []byte {
	s := []string{`{}`, `{"a":1}`, `{"scene":0}`, `{"scenes":[]}`, `{"scenes":[{}]}`, `{"asset":{}}`, `{"nodes":[{}]}`, `{"extras":1}`, `{"extras":[1]}`, `{"extras":"glTF"}`, `{"glTF":[2,0,0,0]}`, `{"extras":[123]}`, `{"extras":"12345"}`, `{"extras":"1234"}`, `{"extras":"123"}`}[r.IntN(15)]
	for k := r.IntN(4); k > 0; k-- {
		ws := strings.Repeat(string(" \t\r\n"[r.IntN(4)]), 1+r.IntN(7))
		switch r.IntN(3) {
		case 0:
			s += ws
		case 1:
			s = ws + s
		case 2:
			s = strings.Replace(s, ":", ":"+ws, 1)
		}
	}
	return []byte(s)
}

func in0(text, bin []byte) []byte { return simpleGLB(text, bin) }

func mustDecode(t *T, in []byte, fsys *memFS) *gltf.Document {
	d, err := decode(in, fsys)
	if err != nil {
		t.Note("input", in)
		t.Failf("valid document rejected: %v", err)
	}
	return d
}

func c10segments(t *T) {
	g := newGen(t.R)
	in, fsys, _, jsonLen := c10input(t, g)
	if t.R.IntN(12) == 0 { // big BIN chunk
		data := g.bytes(4096*t.R.IntN(3) + 3000 + t.R.IntN(3000))
		text := []byte(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d}]}`, len(data)))
		in = simpleGLB(text, data)
		jsonLen = (len(text) + 3) &^ 3
	}
	switch t.R.IntN(5) {
	case 0:
		in = mutateBytes(t.R, in)
	case 1:
		in = in[:t.R.IntN(len(in)+1)]
	}
	t.Note("input", in)
	want, werr := decode(in, fsys)
	offs := map[int]bool{}
	for _, o := range []int{1, 3, 4, 11, 12, 13, 19, 20, 21, 20 + jsonLen, 20 + jsonLen - 1, 20 + jsonLen + 1, 28 + jsonLen, 28 + jsonLen - 1, 28 + jsonLen + 1, 24 + jsonLen, len(in) - 1, len(in) - 3} {
		if t.R.IntN(3) > 0 {
			offs[o] = true
		}
	}
	scheds := []struct {
		name string
		next func(int) int
	}{
		{"one byte", func(int) int { return 1 }},
		{"random<8", randomPieces(t.R, 7)},
		{"random<700", randomPieces(t.R, 700)},
		{"boundaries", boundaries(offs, len(in))},
		{"all", func(int) int { return len(in) + 1 }},
		{"19 then rest", func(p int) int {
			if p == 0 {
				return 19
			}
			return len(in)
		}},
	}
	for _, s := range scheds {
		for _, eofWith := range []bool{false, true} {
			r := &pieceReader{data: in, next: s.next, eofWith: eofWith, fail: -1}
			if t.R.IntN(3) == 0 {
				r.zero = t.R
			}
			got, err := decodeR(r, fsys)
			t.Eval(1)
			what := fmt.Sprintf("%s, EOF with data=%v, empty reads=%v", s.name, eofWith, r.zero != nil)
			if (err == nil) != (werr == nil) {
				t.Failf("%s: error %v, reading everything at once: %v", what, err, werr)
			}
			if err == nil {
				sameDoc(t, what, want, got)
				t.Hit("same_document")
			} else {
				t.Hit("same_error")
			}
			t.Key(in, what)
		}
	}
	t.Sample(func() string { return fmt.Sprintf("%d bytes, %d schedules, err=%v", len(in), len(scheds)*2, werr) })
}

var errRead = errors.New("lasting read error")

func c10errors(t *T) {
	g := newGen(t.R)
	if t.R.IntN(2) == 0 {
		g.dens, g.coll = 0.3, 1
	}
	in, fsys, needed, _ := c10input(t, g)
	if in[0] == 'g' && t.R.IntN(2) == 0 { // bytes that nobody needs
		in = append(in, g.bytes(t.R.IntN(30))...)
	} else if in[0] != 'g' && t.R.IntN(2) == 0 {
		in = append(in, bytes.Repeat([]byte{' '}, t.R.IntN(30))...)
	}
	want := mustDecode(t, in, fsys)
	t.Note("input", in)
	var pos []int
	if len(in) <= 1200 {
		for i := 0; i < len(in); i++ {
			pos = append(pos, i)
		}
	} else {
		for i := 0; i < 40; i++ {
			pos = append(pos, i, len(in)-1-i)
		}
		for i := 0; i < 150; i++ {
			pos = append(pos, t.R.IntN(len(in)))
		}
	}
	for _, n := range pos {
		r := &pieceReader{data: in, next: randomPieces(t.R, []int{1, 9, 5000}[t.R.IntN(3)]), fail: n, err: errRead, failWith: t.R.IntN(2) == 0}
		if t.R.IntN(2) == 0 {
			r.err = readErrors[t.R.IntN(len(readErrors))]
		}
		got, err := decodeR(r, fsys)
		t.Eval(1)
		if err == nil {
			if n < needed {
				t.Failf("the reader fails with %v after %d bytes, %d are needed, and decoding succeeds", r.err, n, needed)
			}
			sameDoc(t, fmt.Sprintf("read error after %d of %d bytes", n, len(in)), want, got)
			t.Hit("late_error")
			continue
		}
		t.Hit("read_error_reported")
		t.Key(t.I, n)
	}
	t.Sample(func() string {
		return fmt.Sprintf("%d bytes, %d error positions, %d needed", len(in), len(pos), needed)
	})
}

func c10files(t *T) {
	g := newGen(t.R)
	doc := &gltf.Document{}
	fsys := newMemFS()
	for i := 0; i < 1+t.R.IntN(4); i++ {
		b := &gltf.Buffer{URI: fmt.Sprintf("f%d.bin", i), Data: g.bytes(1 + t.R.IntN(3000))}
		b.ByteLength = len(b.Data)
		fsys.files[b.URI] = b.Data
		doc.Buffers = append(doc.Buffers, b)
	}
	in := (&refWriter{g: g}).document(doc)
	want := mustDecode(t, in, fsys)
	reads := fsys.counts["read"]
	for _, kind := range []string{"open", "read"} {
		for i := 0; i < fsys.counts[kind]; i++ {
			f := newMemFS()
			f.files = fsys.files
			f.failAt[kind] = i
			if t.R.IntN(2) == 0 {
				f.err = readErrors[t.R.IntN(len(readErrors))]
				if kind == "open" {
					f.err = ioErrors[t.R.IntN(len(ioErrors))]
				}
			}
			if _, err := decode(in, f); err == nil {
				t.Failf("%s %d of the external files fails with %v and decoding succeeds", kind, i, f.err)
			}
			t.Eval(1)
			t.Hit("file_error")
			t.Key(t.I, kind, i)
		}
	}
	for i, b := range doc.Buffers {
		if !bytes.Equal(want.Buffers[i].Data, b.Data) {
			t.Failf("buffer %d differs", i)
		}
	}
	_ = reads
	_ = json.Valid
}
