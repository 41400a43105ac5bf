package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
)

var repoDir = "/repo"

func fp(doc *gltf.Document) string {
	return fmt.Sprintf("%d/%d/%d/%d/%d/%d", len(doc.Accessors), len(doc.Nodes), len(doc.Materials), len(doc.Buffers), len(doc.Meshes), len(doc.Images))
}

// hitDoc counts what a document exercised.
func hitDoc(t *T, doc *gltf.Document) {
	t.HitN("nodes", len(doc.Nodes))
	t.HitN("materials", len(doc.Materials))
	t.HitN("accessors", len(doc.Accessors))
	t.HitN("buffers", len(doc.Buffers))
	for i, b := range doc.Buffers {
		switch {
		case b.URI == "" && i == 0:
			t.Hit("buffer_first_nouri")
		case b.URI == "":
			t.Hit("buffer_nouri")
		case b.IsEmbeddedResource():
			t.Hit("buffer_embedded")
		default:
			t.Hit("buffer_external")
		}
	}
	if len(doc.Extensions) > 0 {
		t.Hit("root_extensions")
	}
}

// roundTrip saves and reloads doc and reports the first difference.
func roundTrip(t *T, doc *gltf.Document, m mode, g *gen) *gltf.Document {
	mem := newMemFS()
	// What is compared is the document as it was before it was encoded.
	arg := doc
	doc = deepCopyDoc(doc)
	out, err := encode(arg, m, mem)
	if err != nil {
		t.Failf("%v: encoding failed: %v", m, err)
	}
	t.Note("encoded_"+m.String(), out)
	in := bytes.Clone(out)
	back, err := decode(in, mem)
	if err != nil {
		t.Failf("%v: decoding the encoded document failed: %v", m, err)
	}
	for i := range in { // the bytes decoded are the caller's again
		in[i] = 0xA5
	}
	if err := saveDiff().diff(doc, back); err != nil {
		t.Failf("%v: the reloaded document differs: %v", m, err)
	}
	t.Hit("reload_" + m.String())
	return back
}

func init() {
	rt := func(t *T, doc *gltf.Document, ms []mode) {
		hitDoc(t, doc)
		for _, m := range ms {
			back := roundTrip(t, doc, m, nil)
			t.Eval(1)
			again := roundTrip(t, back, m, nil)
			if err := (&docDiff{}).diff(back, again); err != nil {
				t.Failf("%v: the second reload differs from the first: %v", m, err)
			}
			other := modes[t.R.IntN(len(modes))]
			roundTrip(t, back, other, nil)
			t.Hit("cross_reload")
		}
	}
	register(&Prop{
		ID: "C01", QuickMul: 4, DeepMul: 2, Level: "exploration",
		Rule:    "random documents over every field of the glTF tables (all object types, defaults, near-defaults, extremes, hostile strings, extras, known and unknown extensions, all buffer placements), saved and reloaded twice in GLB, compact and indented JSON; non-trivial: the document has at least one object; distinct by encoded JSON",
		Assume:  []string{"buffers have data of their declared, positive length", "URIs decode to paths without percent escapes (but in one family) and without dot segments other than a leading ./", "strings are valid UTF-8, numbers are finite"},
		Need:    map[string]int{"reload_glb": 100, "reload_json": 100, "reload_json-indent": 100, "disk_reload": 20, "buffer_external": 50, "buffer_embedded": 50, "buffer_nouri": 50, "root_extensions": 20, "long_values": 100},
		MinKeys: 300,
		Families: []Family{
			{Name: "mem", Quick: 1500, Thorough: 60000, Run: func(t *T) {
				g := newGen(t.R)
				g.mixedURIs()
				doc := g.document()
				if b, err := encode(doc, mode{}, nil); err == nil {
					t.Key(b)
					t.Sample(func() string { return fmt.Sprintf("%s: %s", fp(doc), clip(b, 200)) })
				}
				rt(t, doc, modes[:3])
			}},
			{Name: "large", Quick: 40, Thorough: 1000, Run: func(t *T) {
				g := newGen(t.R)
				g.mixedURIs()
				g.coll, g.dens = 6+t.R.IntN(6), 0.8
				g.maxBuf = []int{5000, 70000, 1<<20 + 4099}[t.R.IntN(3)]
				doc := g.document()
				t.Key(fp(doc), t.I)
				rt(t, doc, []mode{modes[t.R.IntN(len(modes))]})
				t.Hit("large_docs")
			}},
			{Name: "long", Quick: len(longSingles) * 5, Thorough: len(longSingles) * 40, Fixed: true, Run: func(t *T) {
				// Lists and texts far longer than usual.
				rt(t, longDoc(t), []mode{modes[t.I%len(modes)]})
			}},
			{Name: "big", Quick: 24, Thorough: 96, Fixed: true, Run: func(t *T) {
				// Buffers that are larger than any internal buffer.
				n := []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 3<<20 + 2, 1 << 22, 5<<20 + 3, 9<<20 + 1, 17<<20 + 5}[t.I%8]
				b := &gltf.Buffer{ByteLength: n, Data: make([]byte, n)}
				for i := 0; i < n; i += 8 {
					x := t.R.Uint64()
					for k := i; k < min(i+8, n); k++ {
						b.Data[k], x = byte(x), x>>8
					}
				}
				doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{b}}
				m := modes[0]
				switch (t.I / 8) % 3 {
				case 1:
					b.URI, m = "big.bin", modes[t.R.IntN(len(modes))]
				case 2:
					doc.Buffers = append([]*gltf.Buffer{{ByteLength: 3, Data: []byte{1, 2, 3}}}, doc.Buffers...)
					m = modes[t.R.IntN(len(modes))]
				}
				t.Key(n, (t.I/8)%3)
				mem := newMemFS()
				out, err := encode(doc, m, mem)
				if err != nil {
					t.Failf("%v: encoding failed: %v", m, err)
				}
				back, err := decode(out, mem)
				if err != nil {
					t.Failf("%v: decoding failed: %v", m, err)
				}
				last := len(doc.Buffers) - 1
				if len(back.Buffers) != last+1 || back.Buffers[last].ByteLength != n || !bytes.Equal(back.Buffers[last].Data, b.Data) {
					t.Failf("%v: a buffer of %d bytes does not come back", m, n)
				}
				t.Hit("big_buffers")
				t.Eval(1)
			}},
			{Name: "disk", Quick: 80, Thorough: 2000, Run: func(t *T) {
				g := newGen(t.R)
				g.mixedURIs()
				doc := g.document()
				dir := t.Scratch()
				for _, b := range doc.Buffers {
					if b.URI != "" && !b.IsEmbeddedResource() {
						if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, filePath(b.URI))), 0o755); err != nil {
							infra("%v", err)
						}
					}
				}
				orig := deepCopyDoc(doc)
				for _, bin := range []bool{true, false} {
					name := filepath.Join(dir, "doc.gltf")
					save := gltf.Save
					if bin {
						name, save = filepath.Join(dir, "doc.glb"), gltf.SaveBinary
					}
					if err := save(doc, name); err != nil {
						t.Failf("binary=%v: save: %v", bin, err)
					}
					back, err := gltf.Open(name)
					if err != nil {
						t.Failf("binary=%v: open: %v", bin, err)
					}
					if err := saveDiff().diff(orig, back); err != nil {
						t.Failf("binary=%v: the reopened document differs: %v", bin, err)
					}
					t.Hit("disk_reload")
				}
				t.Key(fp(doc), t.I)
			}},
			{Name: "percent", Quick: 60, Thorough: 2000, Run: func(t *T) {
				// Paths that hold text which looks like a percent escape.
				file := fmt.Sprintf("b%d%s%s.bin", t.I, []string{"", " ", "é"}[t.R.IntN(3)], []string{"%41", "%20", "100%25", "%zz", "%4", "%C3%A9", "%"}[t.R.IntN(7)])
				g := newGen(t.R)
				data := g.bytes(1 + t.R.IntN(50))
				mem := newMemFS()
				mem.files[file] = data
				uri := strings.NewReplacer("%", "%25", " ", "%20").Replace(file)
				in := fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d,"uri":%q}],"images":[{"uri":%q}]}`, len(data), uri, uri)
				t.Key(in)
				t.Note("input", []byte(in))
				first, err := decode([]byte(in), mem)
				if err != nil {
					t.Failf("decoding: %v", err)
				}
				if b := first.Buffers[0]; b.URI != file || !bytes.Equal(b.Data, data) {
					t.Failf("URI %q with %d bytes, want %q with %d", b.URI, len(b.Data), file, len(data))
				}
				other := newMemFS()
				out, err := encode(first, modes[t.R.IntN(len(modes))], other)
				if err != nil {
					t.Failf("encoding: %v", err)
				}
				second, err := decode(out, other)
				if err != nil {
					t.Failf("decoding what was encoded: %v", err)
				}
				b := second.Buffers[0]
				if !bytes.Equal(b.Data, data) {
					t.Failf("the data came back as %d bytes, want %d", len(b.Data), len(data))
				}
				t.Hit("percent_paths")
				t.Eval(3)
				if again, ok := unpercent(file); ok && again != file {
					if b.URI == again && second.Images[0].URI == again {
						t.Finding("uri-unescaped-again", fmt.Sprintf("the path %q came back as %q", file, again))
						return
					}
				}
				if b.URI != file || second.Images[0].URI != file {
					t.Failf("the URIs came back as %q and %q, want %q", b.URI, second.Images[0].URI, file)
				}
			}},
			{Name: "testdata", Quick: 30, Thorough: 30, Run: func(t *T) {
				var files []string
				for _, p := range []string{"*/glTF/*.gltf", "*/*.glb", "*/*/*.glb", "*/*.gltf", "*/*/*.gltf"} {
					f, _ := filepath.Glob(filepath.Join(repoDir, "testdata", p))
					files = append(files, f...)
				}
				if t.I >= len(files) {
					return
				}
				doc, err := gltf.Open(files[t.I])
				if err != nil {
					return
				}
				for _, b := range doc.Buffers {
					b.ByteLength = len(b.Data)
					if len(b.Data) == 0 {
						return
					}
				}
				t.Key(files[t.I])
				rt(t, doc, modes)
				t.Hit("testdata_docs")
			}},
		},
	})

	// ---- C02
	checkJSON := func(t *T, doc *gltf.Document, m mode) {
		mem := newMemFS()
		out, err := encode(doc, m, mem)
		if err != nil {
			t.Failf("%v: encoding failed: %v", m, err)
		}
		text := out
		if m.binary {
			cs, err := parseGLB(out)
			if err != nil || len(cs) == 0 {
				t.Failf("%v: %v", m, err)
			}
			text = cs[0].data
		}
		t.Note("json", text)
		c := &jsonCheck{binary: m.binary}
		if err := c.document(doc, text); err != nil {
			t.Failf("%v: %v", m, err)
		}
		t.HitN("members_written", c.fields)
		t.Eval(1)
	}
	decodeText := func(t *T, doc *gltf.Document, w *refWriter) {
		text := w.document(doc)
		t.Note("input", text)
		mem := newMemFS()
		for _, b := range doc.Buffers {
			if b.URI != "" && !strings.HasPrefix(b.URI, octet) {
				mem.files[filePath(b.URI)] = b.Data
			}
		}
		in := text
		if w.binary {
			var bin []byte
			if len(doc.Buffers) > 0 && doc.Buffers[0].URI == "" {
				bin = doc.Buffers[0].Data
			}
			in = simpleGLB(text, bin)
		}
		got, err := decode(in, mem)
		if err != nil {
			t.Failf("decoding valid glTF failed: %v", err)
		}
		if err := saveDiff().diff(doc, got); err != nil {
			t.Failf("decoded document differs from the glTF text: %v", err)
		}
		t.Hit("texts_decoded")
		t.Key(text)
		t.Eval(1)
	}
	writer := func(t *T, g *gen) *refWriter {
		return &refWriter{g: g, Unknown: t.R.IntN(2) == 0, Explicit: t.R.IntN(3), ws: t.R.IntN(2) == 0, binary: t.R.IntN(3) == 0}
	}
	register(&Prop{
		ID: "C02", QuickMul: 14, DeepMul: 5, Level: "exploration",
		Rule:   "random documents, and one document per property of the glTF tables, encoded and compared member by member with the tables; glTF texts written by an independent writer (random member order, white space, notation, unknown members, explicit defaults) decoded and compared; distinct by JSON text",
		Assume: []string{"the harness tables of glTF 2.0 properties are right", "unknown members do not differ from known ones by letter case only"},
		Need:   map[string]int{"members_written": 5000, "texts_decoded": 300, "single_fields": 130, "indented": 200, "empty_buffers": 200, "wrong_types": 10000, "integer_forms": 1000, "long_values": 100}, MinKeys: 400,
		Families: []Family{
			{Name: "single", Quick: len(singles) * 3, Thorough: len(singles) * 60, Run: func(t *T) {
				s := singles[t.I%len(singles)]
				g := newGen(t.R)
				g.mixedURIs()
				doc := s.make(g)
				t.Note("field", s.typ+"."+s.f.Go)
				for _, m := range modes[:2] {
					checkJSON(t, doc, m)
				}
				decodeText(t, doc, writer(t, g))
				t.Hit("single_fields")
				t.Key(s.typ, s.f.Go, t.I/len(singles))
			}},
			{Name: "case", Quick: len(singles), Thorough: len(singles) * 50, Run: func(t *T) { c02case(t, singles) }},
			{Name: "long", Quick: len(longSingles) * 5, Thorough: len(longSingles) * 40, Fixed: true, Run: func(t *T) {
				checkJSON(t, longDoc(t), modes[t.I%2])
			}},
			{Name: "integer", Quick: len(singles), Thorough: len(singles) * 50, Run: func(t *T) { c02integer(t, singles) }},
			{Name: "wrong", Quick: len(singles), Thorough: len(singles) * 100, Run: func(t *T) { c02wrong(t, singles) }},
			{Name: "encode", Quick: 800, Thorough: 40000, Run: func(t *T) {
				g := newGen(t.R)
				g.mixedURIs()
				doc := g.document()
				if t.R.IntN(6) == 0 { // a buffer that has nothing yet
					b := &gltf.Buffer{}
					if t.R.IntN(2) == 0 {
						b.Name, b.Extras = g.str(), g.extras()
					}
					i := t.R.IntN(len(doc.Buffers) + 1)
					doc.Buffers = append(doc.Buffers[:i:i], append([]*gltf.Buffer{b}, doc.Buffers[i:]...)...)
					t.Hit("empty_buffers")
				}
				t.Key(fp(doc), t.I)
				checkJSON(t, doc, modes[t.I%len(modes)])
				if t.R.IntN(3) == 0 {
					checkIndent(t, doc)
				}
				t.Sample(func() string { return "document " + fp(doc) + " compared member by member" })
			}},
			{Name: "decode", Quick: 800, Thorough: 40000, Run: func(t *T) {
				g := newGen(t.R)
				if t.I%16 == 0 {
					in := tinyJSON(t.R)
					t.Note("input", in)
					if _, err := decode(in, newMemFS()); err != nil {
						t.Failf("decoding valid glTF failed: %v", err)
					}
					t.Hit("tiny_texts")
				}
				g.mixedURIs()
				g.jsonExtras, g.rawExt = true, true
				doc := g.document()
				decodeText(t, doc, writer(t, g))
			}},
		},
	})

	// ---- C05
	register(&Prop{
		ID: "C05", QuickMul: 50, DeepMul: 20, Level: "exploration",
		Rule: "random documents (and documents covering every residue modulo 4 of JSON and buffer length) encoded as GLB and parsed by a strict container parser; distinct by (JSON length, buffer length, chunks, first buffer kind)",
		Need: map[string]int{"bin_chunk": 100, "no_bin_chunk": 50, "first_embedded": 10, "first_external": 10, "empty_first": 1, "residues": 64, "big": 20, "default": 100}, MinKeys: 150,
		Families: []Family{
			{Name: "docs", Quick: 1000, Thorough: 40000, Run: func(t *T) {
				g := newGen(t.R)
				g.mixedURIs()
				if t.R.IntN(10) == 0 {
					g.maxBuf = 100000
				}
				doc := g.document()
				if len(doc.Buffers) == 0 && t.R.IntN(2) == 0 {
					doc.Buffers = append(doc.Buffers, &gltf.Buffer{})
				}
				checkGLB(t, doc, modes[[]int{0, 3}[t.R.IntN(2)]])
			}},
			{Name: "default", Quick: 20, Thorough: 1000, Run: func(t *T) {
				// Encoders write GLB unless they are told not to.
				g := newGen(t.R)
				g.mixedURIs()
				doc := g.document()
				want, err := encode(doc, modes[0], newMemFS())
				if err != nil {
					t.Failf("encoding failed: %v", err)
				}
				for _, inMem := range []bool{true, false} {
					var b bytes.Buffer
					e := gltf.NewEncoderFS(&b, newMemFS())
					if !inMem {
						e = gltf.NewEncoder(&b)
						e.Fsys = newMemFS()
					}
					if err := e.Encode(doc); err != nil {
						t.Failf("encoding failed: %v", err)
					}
					if len(b.Bytes()) < 4 || string(b.Bytes()[:4]) != "glTF" {
						t.Failf("a new encoder writes %s", short(b.String()))
					}
					if len(b.Bytes()) != len(want) {
						t.Failf("a new encoder writes %d bytes, one told to write binary %d", b.Len(), len(want))
					}
				}
				t.Hit("default")
			}},
			{Name: "residues", Quick: 64, Thorough: 512, Run: func(t *T) {
				doc := &gltf.Document{}
				doc.Asset.Version = "2.0"
				doc.Asset.Copyright = strings.Repeat("c", t.I%8+t.I/64)
				n := t.I / 8 % 8
				doc.Buffers = []*gltf.Buffer{{ByteLength: n, Data: bytes.Repeat([]byte{0xff}, n)}}
				checkGLB(t, doc, modes[0])
				t.Hit("residues")
			}},
			{Name: "big", Quick: 3, Thorough: 100, Run: func(t *T) {
				doc := &gltf.Document{}
				n := edgeLen(t.R, 12, 21)
				if t.I == 0 { // lengths of more than 24 bits
					n = 1<<24 + t.R.IntN(100)
				}
				if t.I == 0 || t.R.IntN(2) == 0 {
					doc.Asset.Copyright = strings.Repeat("c", n)
				} else {
					for i := 0; i < n/64; i++ {
						doc.Nodes = append(doc.Nodes, &gltf.Node{Name: fmt.Sprintf("node %d", i), Mesh: gltf.Index(i)})
					}
				}
				g := newGen(t.R)
				for i := t.R.IntN(3); i > 0; i-- {
					b := g.bytes(edgeLen(t.R, 10, 20))
					doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: len(b), Data: b})
				}
				if t.I == 1 {
					b := bytes.Repeat([]byte("data"), 1<<22+t.R.IntN(100))
					doc.Buffers = append([]*gltf.Buffer{{ByteLength: len(b), Data: b}}, doc.Buffers...)
				}
				checkGLB(t, doc, modes[[]int{0, 3}[t.R.IntN(2)]])
				t.Hit("big")
			}},
			{Name: "json", Quick: 200, Thorough: 5000, Run: func(t *T) {
				g := newGen(t.R)
				g.mixedURIs()
				doc := g.document()
				m := []mode{modes[1], modes[2], modes[4]}[t.I%3]
				out, err := encode(doc, m, newMemFS())
				if err != nil {
					t.Failf("encoding failed: %v", err)
				}
				t.Note("output", out)
				if err := (&jsonCheck{}).document(doc, out); err != nil {
					t.Failf("the output is not only the JSON text of the document: %v", err)
				}
				t.Hit("json_only")
			}},
		},
	})
}

// checkIndent: a prefix and an indentation change white space only, the way
// JSON texts are indented.
func checkIndent(t *T, doc *gltf.Document) {
	compact, err := encode(doc, mode{}, nil)
	if err != nil {
		t.Failf("encoding failed: %v", err)
	}
	m := mode{prefix: []string{"", " ", "\t", "    "}[t.R.IntN(4)], indent: []string{"", " ", "\t", "  ", " \t "}[t.R.IntN(5)]}
	if m.prefix == "" && m.indent == "" {
		if bytes.ContainsAny(compact, "\n\t") {
			t.Failf("the output without indentation has line breaks")
		}
		return
	}
	var want bytes.Buffer
	if err := json.Indent(&want, compact, m.prefix, m.indent); err != nil {
		t.Failf("the JSON is not valid: %v", err)
	}
	got, err := encode(doc, m, nil)
	if err != nil {
		t.Failf("prefix %q, indentation %q: %v", m.prefix, m.indent, err)
	}
	if !bytes.Equal(bytes.TrimSpace(got), bytes.TrimSpace(want.Bytes())) {
		t.Note("compact", compact)
		t.Note("indented", got)
		t.Failf("prefix %q, indentation %q: the output is not the compact one with this indentation", m.prefix, m.indent)
	}
	t.Hit("indented")
}

func checkGLB(t *T, doc *gltf.Document, m mode) {
	out, err := encode(doc, m, newMemFS())
	if err != nil {
		t.Failf("encoding failed: %v", err)
	}
	t.Note("output", out)
	cs, err := parseGLB(out)
	if err != nil {
		t.Failf("the container is malformed: %v", err)
	}
	wantBin := len(doc.Buffers) > 0 && doc.Buffers[0].URI == ""
	want := 1
	if wantBin {
		want = 2
	}
	if len(cs) != want {
		t.Failf("%d chunks, want %d", len(cs), want)
	}
	if cs[0].typ != chunkJSON {
		t.Failf("first chunk has type %#x", cs[0].typ)
	}
	text := bytes.TrimRight(cs[0].data, " ")
	if len(cs[0].data)-len(text) > 3 {
		t.Failf("%d bytes of JSON padding", len(cs[0].data)-len(text))
	}
	if len(text) == 0 || text[len(text)-1] != '}' {
		t.Failf("JSON chunk is not padded with spaces: ends with %q", clip(text[max(0, len(text)-8):], 8))
	}
	if err := (&jsonCheck{binary: true}).document(doc, text); err != nil {
		t.Failf("JSON chunk: %v", err)
	}
	kind := "none"
	if wantBin {
		data := doc.Buffers[0].Data
		if cs[1].typ != chunkBIN {
			t.Failf("second chunk has type %#x", cs[1].typ)
		}
		if len(cs[1].data) < len(data) || len(cs[1].data)-len(data) > 3 {
			t.Failf("BIN chunk has %d bytes for a buffer of %d", len(cs[1].data), len(data))
		}
		if !bytes.Equal(cs[1].data[:len(data)], data) {
			t.Failf("BIN chunk differs from the buffer")
		}
		if p := cs[1].data[len(data):]; len(bytes.Trim(p, "\x00")) != 0 {
			t.Failf("BIN chunk padding is %x", p)
		}
		t.Hit("bin_chunk")
		kind = "bin"
		if len(data) == 0 {
			t.Hit("empty_first")
		}
	} else {
		t.Hit("no_bin_chunk")
		if len(doc.Buffers) > 0 {
			kind = "external"
			if doc.Buffers[0].IsEmbeddedResource() {
				kind = "embedded"
			}
			t.Hit("first_" + kind)
		}
	}
	n := 0
	if len(doc.Buffers) > 0 {
		n = doc.Buffers[0].ByteLength
	}
	t.Key(len(text), n, kind, len(doc.Buffers))
	t.Sample(func() string {
		return fmt.Sprintf("GLB of %d bytes: JSON %d(+%d), first buffer %s of %d bytes", len(out), len(text), len(cs[0].data)-len(text), kind, n)
	})
}

// singles: one document per property, with only that property set in one
// object of the type.
type single struct {
	typ string
	f   fld
}

var singles = func() []single {
	var out []single
	var types []string
	for k := range specTable {
		types = append(types, k)
	}
	for _, typ := range sortStrings(types) {
		for _, f := range specTable[typ] {
			if typ == "Camera" && (f.Go == "Orthographic" || f.Go == "Perspective") {
				continue
			}
			out = append(out, single{typ, f})
		}
	}
	return out
}()

func sortStrings(s []string) []string {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
	return s
}

// place puts a new object of the type in an otherwise minimal document.
func place(typ string, doc *gltf.Document) reflect.Value {
	mat := func() *gltf.Material {
		m := &gltf.Material{}
		doc.Materials = append(doc.Materials, m)
		return m
	}
	prim := func() *gltf.Primitive {
		p := &gltf.Primitive{Attributes: gltf.PrimitiveAttributes{"POSITION": 0}}
		doc.Meshes = append(doc.Meshes, &gltf.Mesh{Primitives: []*gltf.Primitive{p}})
		return p
	}
	acr := func() *gltf.Accessor {
		a := &gltf.Accessor{}
		doc.Accessors = append(doc.Accessors, a)
		return a
	}
	anim := func() *gltf.Animation {
		a := &gltf.Animation{Channels: []*gltf.AnimationChannel{{}}, Samplers: []*gltf.AnimationSampler{{}}}
		doc.Animations = append(doc.Animations, a)
		return a
	}
	var p any
	switch typ {
	case "Document":
		p = doc
	case "Asset":
		p = &doc.Asset
	case "Accessor":
		p = acr()
	case "Sparse", "SparseIndices", "SparseValues":
		a := acr()
		a.Sparse = &gltf.Sparse{}
		p = map[string]any{"Sparse": a.Sparse, "SparseIndices": &a.Sparse.Indices, "SparseValues": &a.Sparse.Values}[typ]
	case "Buffer":
		b := &gltf.Buffer{ByteLength: 3, Data: []byte{1, 2, 3}}
		doc.Buffers = append(doc.Buffers, b)
		p = b
	case "BufferView":
		b := &gltf.BufferView{}
		doc.BufferViews = append(doc.BufferViews, b)
		p = b
	case "Scene":
		s := &gltf.Scene{}
		doc.Scenes = append(doc.Scenes, s)
		p = s
	case "Node":
		n := &gltf.Node{}
		doc.Nodes = append(doc.Nodes, n)
		p = n
	case "Skin":
		s := &gltf.Skin{Joints: []int{0}}
		doc.Skins = append(doc.Skins, s)
		p = s
	case "Camera":
		c := &gltf.Camera{Perspective: &gltf.Perspective{Yfov: 1, Znear: 1}}
		doc.Cameras = append(doc.Cameras, c)
		p = c
	case "Orthographic":
		c := &gltf.Camera{Orthographic: &gltf.Orthographic{}}
		doc.Cameras = append(doc.Cameras, c)
		p = c.Orthographic
	case "Perspective":
		c := &gltf.Camera{Perspective: &gltf.Perspective{}}
		doc.Cameras = append(doc.Cameras, c)
		p = c.Perspective
	case "Mesh":
		p = doc
		prim()
		p = doc.Meshes[len(doc.Meshes)-1]
	case "Primitive":
		p = prim()
	case "Material":
		p = mat()
	case "NormalTexture":
		m := mat()
		m.NormalTexture = &gltf.NormalTexture{}
		p = m.NormalTexture
	case "OcclusionTexture":
		m := mat()
		m.OcclusionTexture = &gltf.OcclusionTexture{}
		p = m.OcclusionTexture
	case "PBRMetallicRoughness":
		m := mat()
		m.PBRMetallicRoughness = &gltf.PBRMetallicRoughness{}
		p = m.PBRMetallicRoughness
	case "TextureInfo":
		m := mat()
		m.EmissiveTexture = &gltf.TextureInfo{}
		p = m.EmissiveTexture
	case "Texture":
		x := &gltf.Texture{}
		doc.Textures = append(doc.Textures, x)
		p = x
	case "Sampler":
		x := &gltf.Sampler{}
		doc.Samplers = append(doc.Samplers, x)
		p = x
	case "Image":
		x := &gltf.Image{}
		doc.Images = append(doc.Images, x)
		p = x
	case "Animation":
		p = anim()
	case "AnimationSampler":
		p = anim().Samplers[0]
	case "AnimationChannel":
		p = anim().Channels[0]
	case "AnimationChannelTarget":
		p = &anim().Channels[0].Target
	case "Light", "Spot":
		l := &lightspunctual.Light{Type: "spot"}
		doc.Extensions = gltf.Extensions{lightspunctual.ExtensionName: lightspunctual.Lights{l}}
		p = l
		if typ == "Spot" {
			l.Spot = &lightspunctual.Spot{}
			p = l.Spot
		}
	case "PBRSpecularGlossiness":
		x := &specular.PBRSpecularGlossiness{}
		mat().Extensions = gltf.Extensions{specular.ExtensionName: x}
		p = x
	case "TextureTranform":
		x := &texturetransform.TextureTranform{}
		m := mat()
		m.EmissiveTexture = &gltf.TextureInfo{Extensions: gltf.Extensions{texturetransform.ExtensionName: x}}
		p = x
	default:
		infra("place: %s", typ)
	}
	return reflect.ValueOf(p).Elem()
}

func (s single) make(g *gen) *gltf.Document {
	doc := &gltf.Document{}
	v := place(s.typ, doc)
	fv := v.FieldByName(s.f.Go)
	g.dens = 1
	g.jsonExtras = true
	g.rawExt = true
	switch {
	case s.typ == "Buffer" && s.f.Go == "ByteLength":
		b := v.Addr().Interface().(*gltf.Buffer)
		b.Data = g.bytes(1 + g.r.IntN(9))
		b.ByteLength = len(b.Data)
	case s.typ == "Buffer" && s.f.Go == "URI":
		b := v.Addr().Interface().(*gltf.Buffer)
		b.URI = g.uri(0)
		if b.URI == octet {
			b.EmbeddedResource()
		}
	case s.f.Go == "Extensions":
		e := g.extensions(s.typ)
		if doc.Extensions != nil && s.typ == "Document" {
			break
		}
		fv.Set(reflect.ValueOf(e))
	case s.f.Go == "Extras":
		fv.Set(reflect.ValueOf(g.extras()))
	case s.typ == "Document" && s.f.Go == "Buffers":
		doc.Buffers = g.buffers()
	case s.typ == "Image" && s.f.Go == "URI":
		fv.SetString(g.imageURI())
	default:
		g.value(s.typ+"."+s.f.Go, fv)
	}
	return doc
}

// long is a document whose only content is a long value of the property, nil
// if it has no lists or text. what says how long.
func (s single) long(g *gen, k int) (doc *gltf.Document, what string) {
	doc = &gltf.Document{}
	v := place(s.typ, doc)
	fv := v.FieldByName(s.f.Go)
	g.rawExt, g.jsonExtras, g.noLong = true, true, true
	g.dens, g.coll = 0.02, 1
	n := 0
	switch {
	case s.f.Go == "URI" || s.f.Go == "Extensions" || s.f.Go == "Extras":
		return nil, ""
	case s.typ == "Document" && s.f.Go == "Buffers":
		n = []int{300, 1025, 513}[k%3]
		g.force = n
		doc.Buffers = g.buffers()
	case fv.Kind() == reflect.String && !isEnum(fv.Type()):
		n = []int{1023, 4097, 65537, 1 << 20}[k%4]
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz<>&\"\\ 0123456789"[g.r.IntN(42)]
		}
		fv.SetString(string(b))
	case fv.Kind() == reflect.Slice && fv.Type().Elem().Kind() != reflect.Pointer:
		n = []int{300, 1025, 4097, 20000, 65537}[k%5]
		if e := fv.Type().Elem().Kind(); e != reflect.Int && e != reflect.Float64 {
			n = []int{300, 1025, 4097}[k%3]
		}
		g.force = n
		g.value(s.typ+"."+s.f.Go, fv)
	case fv.Kind() == reflect.Slice || fv.Kind() == reflect.Map:
		n = []int{300, 1025, 4097}[k%3]
		g.force = n
		g.value(s.typ+"."+s.f.Go, fv)
	default:
		return nil, ""
	}
	return doc, fmt.Sprintf("%s.%s of length %d", s.typ, s.f.Go, n)
}

// longSingles are the properties that have a length.
var longSingles = func() []single {
	var out []single
	for _, s := range singles {
		if doc, _ := s.long(newGen(rand.New(rand.NewPCG(1, 1))), 0); doc != nil {
			out = append(out, s)
		}
	}
	return out
}()

func longDoc(t *T) *gltf.Document {
	g := newGen(t.R)
	g.uri = func(int) string { return "" }
	k := t.R.IntN(60)
	if t.I < len(longSingles)*5 {
		k = t.I / len(longSingles)
	}
	doc, what := longSingles[t.I%len(longSingles)].long(g, k)
	t.Note("document", what)
	t.Key("long", what)
	t.Hit("long_values")
	t.Sample(func() string { return what })
	return doc
}

var _ = json.Valid
