package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"math/rand/v2"
	"net/url"
	"os"
	pathpkg "path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
)

// isAbsURI: a scheme followed by an authority or an absolute path, never a file.
func isAbsURI(uri string) bool {
	uri = strings.ReplaceAll(uri, "\\", "/")
	i := strings.Index(uri, "://")
	if i <= 0 || !scheme(uri[:i+1]) || strings.Contains(uri[:i], ":") {
		return false
	}
	u, err := url.Parse(strings.ReplaceAll(uri, "/./", "/"))
	return err == nil && u.Scheme != "" && (u.Host != "" || u.Path != "" || u.User != nil)
}

// denotes returns the path that a URI denotes and whether there is no doubt
// about it: no scheme, no colon that looks like one, no control characters and
// no broken escapes.
func denotes(uri string) (string, bool) {
	p := uriPath(uri)
	for i := 0; i < len(uri); i++ {
		if uri[i] < 0x20 || uri[i] == 0x7f {
			return p, false
		}
	}
	q := strings.ReplaceAll(uri, "\\", "/")
	if strings.Contains(strings.SplitN(q, "?", 2)[0], ":") || strings.HasPrefix(strings.TrimPrefix(strings.ReplaceAll(q, "/./", "/"), "./"), "//") {
		return p, false
	}
	_, ok := unpercent(q)
	return p, ok
}

// safePath: the name stays below the directory it is relative to.
func safePath(name string) bool {
	if name == "" || strings.HasPrefix(name, "/") {
		return false
	}
	depth := 0
	for _, s := range strings.Split(name, "/") {
		switch s {
		case "", ".":
		case "..":
			depth--
			if depth < 0 {
				return false
			}
		default:
			depth++
		}
	}
	return true
}

// plain: a clean path to a file, which every file system accepts.
func plainPath(name string) bool {
	return fs.ValidPath(name) && name != "." && !strings.Contains(name, "\x00")
}

// fileURI returns a URI of a file inside the directory, unique for i.
func fileURI(g *gen, i int) string {
	base := fmt.Sprintf("f%d", i)
	if g.r.IntN(8) == 0 { // long names
		base += strings.Repeat("x", g.r.IntN(130))
	}
	forms := []string{
		"%s.bin", "./%s.bin", "dir/%s.bin", "dir\\%s.bin", "a b/%s.bin", "a%%20b/%s.bin", "%s%%20x.bin", "%s..bin", "..%s", "...%s", "%s..", "dir/..%s/x..y", "é/%s", "%%C3%%A9%s.bin",
		"%s+x.bin", "%s?q=1", "%s#f", "d/./%s.bin", "%s:c", "a&b=%s;c", "%s%%2fx.bin", "%s%%2Ebin", "%s%%25.bin", "%s%%", "%s%%zz.bin", "%s\tx", "a\x01b%s", "%s%%3Aq", "%s~", ".%s", "d.d/%s", "%s%%09",
		"d\\e\\%s.bin", ".\\%s.bin", "%s.bin%%20", "\x7f%s",
		"a/./b/./%s.bin", "a/././%s.bin", "a//%s.bin", "a/b/../%s.bin", "a/../%s.bin", "././%s.bin", "./d//e/./%s.bin", "a%%2F..%%2f%s.bin", "a/%%2e/%s.bin", "d/%%2e%%2e/%s.bin", "a\\..\\%s.bin", "a/b/../../%s", "a/.../%s",
		" %s.bin", "%s.bin ", "%%20%s.bin", "dir/%s.bin%%20", " dir/ %s", "dir /%s", "\u00a0%s\u2003", "%s.bin%%0A", "%s.BIN", "DIR/%s.Bin", "%s'\"<>|*", "$HOME/%s", "-%s", "%s.bin.gz", "%s;v=1", "%s,x", "[%s]", "{%s}", "%s.gltf", "%s.glb",
	}
	uri := fmt.Sprintf(forms[g.r.IntN(len(forms))], base)
	if g.r.IntN(12) == 0 {
		if _, ok := denotes(deeper(g.r) + uri); ok {
			uri = deeper(g.r) + uri
		}
	}
	return uri
}

var absURIs = []string{"https://example.com/a.bin", "http://h/../x.bin", "file:///etc/passwd", "ftp://h/a%20b", "HTTP://h/x", "s3://bucket/key?x#y", "gltf+zip://x/y", "https://h", "file://localhost/tmp/x", "HTTPS://user@h:80/x%2e"}

func init() {
	register(&Prop{
		ID: "C06", QuickMul: 80, DeepMul: 25, Level: "exploration",
		Rule:   "documents with every mixture of buffer placements (BIN, embedded, relative URIs in many spellings, absolute, without data) encoded to and decoded from a recording file system stand-in, and saved to and opened from scratch directories; distinct by placements",
		Assume: []string{"URIs that climb out of the directory are C07's"},
		Need:   map[string]int{"delivered_bin": 50, "delivered_embedded": 50, "delivered_file": 200, "absolute": 50, "nodata": 50, "read_file": 200, "read_file_longer": 20, "disk_buffers": 100, "nofs": 20, "failing_file": 100, "short_file": 100, "overwritten": 100, "cwd": 50}, MinKeys: 200,
		Families: []Family{
			{Name: "encode", Quick: 1500, Thorough: 60000, Run: func(t *T) {
				g := newGen(t.R)
				doc, desc := placements(g, true)
				t.Note("buffers", desc)
				m := modes[t.I%len(modes)]
				mem := newMemFS()
				out, err := encode(doc, m, mem)
				if err != nil {
					t.Failf("%v: encoding failed: %v", m, err)
				}
				t.Note("output", out)
				text := out
				var bin []byte
				if m.binary {
					cs, err := parseGLB(out)
					if err != nil {
						t.Failf("%v", err)
					}
					text = cs[0].data
					if len(cs) > 1 {
						bin = cs[1].data
					}
				}
				if err := (&jsonCheck{binary: m.binary}).document(doc, text); err != nil {
					t.Failf("%v: %v", m, err)
				}
				var want []string
				for i, b := range doc.Buffers {
					switch {
					case b.URI == "" && i == 0 && m.binary:
						if !bytes.HasPrefix(bin, b.Data) || len(bin)-len(b.Data) > 3 {
							t.Failf("buffer 0 is not in the BIN chunk")
						}
						t.Hit("delivered_bin")
					case len(b.Data) == 0:
						t.Hit("nodata")
					case b.URI == "" || strings.HasPrefix(b.URI, octet):
						t.Hit("delivered_embedded") // checked by jsonCheck
					case isAbsURI(b.URI):
						t.Hit("absolute")
					default:
						p := filePath(b.URI)
						want = append(want, p)
						got, ok := mem.files[p]
						if !ok {
							t.Failf("%v: buffer %d (%q) was not written to %q but to %q", m, i, b.URI, p, mem.created)
						}
						if !bytes.Equal(got, b.Data) {
							t.Failf("%v: file %q has %d bytes, want the %d bytes of buffer %d", m, p, len(got), len(b.Data), i)
						}
						t.Hit("delivered_file")
					}
				}
				sort.Strings(want)
				got := append([]string{}, mem.created...)
				sort.Strings(got)
				if !sameFiles(got, want) {
					t.Failf("%v: files created: %q, want %q", m, got, want)
				}
				for id := range mem.created {
					if mem.closes[id] != 1 {
						t.Failf("file %q was closed %d times", mem.created[id], mem.closes[id])
					}
				}
				if len(mem.opened) > 0 {
					t.Failf("encoding opened %q", mem.opened)
				}
				if t.R.IntN(4) == 0 { // no file system at all
					out2, err := encode(doc, m, nil)
					if err != nil || !bytes.Equal(out, out2) {
						t.Failf("%v: without file system: %v, same output: %v", m, err, bytes.Equal(out, out2))
					}
					t.Hit("nofs")
				}
				t.Key(desc)
				t.Sample(func() string { return m.String() + " " + desc })
			}},
			{Name: "decode", Quick: 1500, Thorough: 60000, Run: func(t *T) {
				g := newGen(t.R)
				doc, desc := placements(g, false)
				t.Note("buffers", desc)
				w := &refWriter{binary: t.R.IntN(2) == 0}
				for _, b := range doc.Buffers { // a URI may hold more or less than declared
					if strings.HasPrefix(b.URI, octet) && t.R.IntN(3) == 0 {
						b.ByteLength = 1 + t.R.IntN(2*len(b.Data)+2)
					}
				}
				text := w.document(doc)
				in := text
				if w.binary {
					var bin []byte
					if len(doc.Buffers) > 0 && doc.Buffers[0].URI == "" {
						bin = doc.Buffers[0].Data
					}
					in = simpleGLB(text, bin)
				}
				t.Note("input", in)
				mem := newMemFS()
				var want []string
				for _, b := range doc.Buffers {
					if b.URI == "" || strings.HasPrefix(b.URI, octet) || isAbsURI(b.URI) {
						continue
					}
					p := filePath(b.URI)
					want = append(want, p)
					d := append([]byte{}, b.Data...)
					if t.R.IntN(3) == 0 {
						d = append(d, g.bytes(1+t.R.IntN(9))...)
						t.Hit("read_file_longer")
					}
					mem.files[p] = d
				}
				// Files that nobody may read.
				for _, n := range []string{"data", "https:/example.com/a.bin", "example.com/a.bin", "a.bin", "BIN"} {
					mem.files[n] = []byte("poison poison poison")
				}
				before := map[string]string{}
				for k, v := range mem.files {
					before[k] = string(v)
				}
				got, err := decode(in, mem)
				if err != nil {
					t.Failf("decoding failed: %v", err)
				}
				for i, b := range doc.Buffers {
					exp := b.Data
					if isAbsURI(b.URI) {
						exp = nil
					}
					if !bytes.Equal(got.Buffers[i].Data, exp) {
						t.Failf("buffer %d (%q) has the data %x, want %x", i, b.URI, clip(got.Buffers[i].Data, 40), clip(exp, 40))
					}
				}
				// Each buffer has its own bytes.
				for i, b := range got.Buffers {
					if len(b.Data) == 0 {
						continue
					}
					for k := range b.Data {
						b.Data[k] ^= 0x5A
					}
					for j, o := range got.Buffers {
						if exp := doc.Buffers[j].Data; j != i && !isAbsURI(doc.Buffers[j].URI) && !bytes.Equal(o.Data, exp) {
							t.Failf("changing the bytes of buffer %d (%q) changes buffer %d (%q)", i, doc.Buffers[i].URI, j, doc.Buffers[j].URI)
						}
					}
					for k := range b.Data {
						b.Data[k] ^= 0x5A
					}
				}
				t.HitN("read_file", len(want))
				if mem.reading != 0 {
					t.Failf("decoding leaves %d files open", mem.reading)
				}
				opened := append([]string{}, mem.opened...)
				sort.Strings(opened)
				sort.Strings(want)
				if !sameFiles(opened, want) {
					t.Failf("files opened: %q, want %q", opened, want)
				}
				if len(mem.created) > 0 {
					t.Failf("decoding created %q", mem.created)
				}
				for k, v := range mem.files {
					if string(v) != before[k] {
						t.Failf("decoding changed file %q", k)
					}
				}
				// A missing file is an error.
				if len(want) > 0 && t.R.IntN(3) == 0 {
					delete(mem.files, want[t.R.IntN(len(want))])
					if _, err := decode(in, mem); err == nil {
						t.Failf("decoding succeeds with a missing file")
					}
					t.Hit("missing_file")
					if mem.reading != 0 {
						t.Failf("decoding with a missing file leaves %d files open", mem.reading)
					}
				}
				if len(want) > 0 {
					// A file that fails on the way is closed too.
					mem.failAt = map[string]int{"read": t.R.IntN(2*len(want) + 2), "open": len(want) + t.R.IntN(2*len(want)+2)}
					mem.counts = map[string]int{}
					mem.err = readErrors[t.R.IntN(len(readErrors))]
					_, err := decode(in, mem)
					if mem.reading != 0 {
						t.Failf("decoding with a file that fails (error %v) leaves %d files open", err, mem.reading)
					}
					if err != nil {
						t.Hit("failing_file")
					}
					// A file that is shorter than declared: its bytes and no others.
					mem.failAt = map[string]int{}
					short := want[t.R.IntN(len(want))]
					if full, ok := mem.files[short]; ok {
						mem.files[short] = full[:t.R.IntN(len(full))]
						d, err := decode(in, mem)
						for i, b := range doc.Buffers {
							if err == nil && b.URI != "" && !strings.HasPrefix(b.URI, octet) && !isAbsURI(b.URI) && filePath(b.URI) == short {
								exp := mem.files[short]
								if len(exp) > b.ByteLength {
									exp = exp[:b.ByteLength]
								}
								if !bytes.Equal(d.Buffers[i].Data, exp) {
									t.Failf("buffer %d (%q, byteLength %d) has the data %x and its file %x", i, b.URI, b.ByteLength, clip(d.Buffers[i].Data, 40), clip(mem.files[short], 40))
								}
								t.Hit("short_file")
							}
						}
					}
				}
				t.Key(desc)
			}},
			{Name: "cwd", Quick: 8, Thorough: 200, Seq: true, Run: c06cwd},
			{Name: "disk", Quick: 150, Thorough: 5000, Run: func(t *T) {
				g := newGen(t.R)
				doc, desc := placements(g, true)
				t.Note("buffers", desc)
				dir := filepath.Join(t.Scratch(), "sub dir")
				want := map[string]bool{"doc": true}
				for _, b := range doc.Buffers {
					if len(b.Data) > 0 && b.URI != "" && !strings.HasPrefix(b.URI, octet) && !isAbsURI(b.URI) {
						p := filePath(b.URI)
						want[p] = true
						if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, p)), 0o755); err != nil {
							infra("%v", err)
						}
					}
				}
				os.MkdirAll(dir, 0o755)
				// Buffers without data whose file cannot exist are left out.
				var keep []*gltf.Buffer
				for _, b := range doc.Buffers {
					if len(b.Data) > 0 || isAbsURI(b.URI) {
						keep = append(keep, b)
					}
				}
				doc.Buffers = keep
				bin := t.R.IntN(2) == 0
				save := gltf.Save
				if bin {
					save = gltf.SaveBinary
				}
				name := filepath.Join(dir, "doc")
				// Earlier versions of the files, and files of others.
				old := map[string][]byte{}
				for p := range want {
					if t.R.IntN(3) == 0 {
						old[p] = g.bytes(t.R.IntN(3000))
						t.Hit("overwritten")
					}
				}
				for _, p := range []string{"doc.bak", "doc.bin", "doc.gltf", "other.bin", "doc~", "../outside"} {
					if t.R.IntN(3) == 0 && !want[p] {
						old[p] = g.bytes(1 + t.R.IntN(30))
					}
				}
				for p, b := range old {
					if err := os.WriteFile(filepath.Join(dir, p), b, 0o644); err != nil {
						infra("%v", err)
					}
				}
				if err := save(doc, name); err != nil {
					t.Failf("save: %v", err)
				}
				for p, b := range old {
					if !want[p] {
						if now, err := os.ReadFile(filepath.Join(dir, p)); err != nil || !bytes.Equal(now, b) {
							t.Failf("saving changed the file %q of somebody else: %v", p, err)
						}
						os.Remove(filepath.Join(dir, p))
					}
				}
				for i, b := range doc.Buffers {
					if p := filePath(b.URI); want[p] && len(b.Data) > 0 && b.URI != "" && !isAbsURI(b.URI) && !strings.HasPrefix(b.URI, octet) {
						if now, err := os.ReadFile(filepath.Join(dir, p)); err != nil || !bytes.Equal(now, b.Data) {
							t.Failf("the file of buffer %d (%q) has %d bytes, the buffer %d: %v", i, b.URI, len(now), len(b.Data), err)
						}
					}
				}
				if raw, err := os.ReadFile(name); err == nil {
					if bin {
						_, err = parseGLB(raw)
					} else if !json.Valid(raw) {
						err = errors.New("not JSON")
					}
					if err != nil {
						t.Failf("binary=%v: the saved file is not well formed: %v", bin, err)
					}
				}
				if l := openUnder(t.Scratch()); len(l) > 0 {
					t.Failf("saving leaves open %q", l)
				}
				// Exactly the expected files exist.
				filepath.WalkDir(t.Scratch(), func(p string, d fs.DirEntry, err error) error {
					if err != nil {
						infra("%v", err)
					}
					if d.IsDir() {
						return nil
					}
					rel, _ := filepath.Rel(dir, p)
					if !want[rel] {
						t.Failf("saving created %q", rel)
					}
					delete(want, rel)
					return nil
				})
				if len(want) > 0 {
					t.Failf("saving did not create %v", want)
				}
				back, err := gltf.Open(name)
				if err != nil {
					t.Failf("open: %v", err)
				}
				if l := openUnder(t.Scratch()); len(l) > 0 {
					t.Failf("opening leaves open %q", l)
				}
				for i, b := range doc.Buffers {
					exp := b.Data
					if isAbsURI(b.URI) {
						exp = nil
					}
					if !bytes.Equal(back.Buffers[i].Data, exp) {
						t.Failf("binary=%v: buffer %d (%q) came back as %x, want %x", bin, i, b.URI, clip(back.Buffers[i].Data, 40), clip(exp, 40))
					}
					t.Hit("disk_buffers")
				}
				t.Key(desc)
			}},
		},
	})

	// ---- C07
	register(&Prop{
		ID: "C07", QuickMul: 30, DeepMul: 20, Level: "exploration",
		Rule:   "buffer URIs from a grammar of dot segments, separators, percent-encodings (also double), schemes, drive letters, control and non-ASCII characters; every name handed to the file system stand-in is monitored; distinct by URI",
		Assume: []string{"names are judged by Unix path rules", "symbolic links inside the directory are the user's"},
		Need:   map[string]int{"escaping": 200, "inside": 200, "names_monitored": 200, "rejected_encode": 100, "rejected_decode": 100, "dots_in_names": 50}, MinKeys: 500,
		Families: []Family{
			{Name: "encode", Quick: 6000, Thorough: 300000, Run: func(t *T) { c07(t, true) }},
			{Name: "decode", Quick: 6000, Thorough: 300000, Run: func(t *T) { c07(t, false) }},
			{Name: "disk", Quick: 100, Thorough: 5000, Run: c07disk},
		},
	})

	// ---- C11
	register(&Prop{
		ID: "C11", QuickMul: 40, DeepMul: 10, Level: "fault_enumeration",
		Rule: "for random documents every write to the stream, every file creation, every write to a file and every close is made to fail in turn (whole and short), and the stream is cut at byte counts over its whole length; documents that cannot be represented; saving to a full device and to missing directories; distinct by (document, operation, index)",
		Need: map[string]int{"fault_write": 300, "fault_create": 100, "fault_filewrite": 100, "fault_close": 100, "cut": 300, "unrepresentable": 100, "number_fields": 2000, "clean": 100, "save_faults": 4, "too_large": 6}, MinKeys: 500,
		Families: []Family{
			{Name: "faults", Quick: 250, Thorough: 8000, Run: func(t *T) { c11faults(t) }},
			{Name: "unrepresentable", Quick: 300, Thorough: 10000, Run: func(t *T) { c11bad(t) }},
			{Name: "numbers", Quick: 40, Thorough: 400, Run: c11numbers},
			{Name: "save", Quick: 24, Thorough: 240, Seq: true, Run: func(t *T) { c11save(t) }},
			{Name: "toolarge", Quick: 6, Thorough: 12, Seq: true, Fixed: true, Run: c11tooLarge},
		},
	})
}

// openUnder returns the open files below a directory.
func openUnder(dir string) (out []string) {
	e, _ := os.ReadDir("/proc/self/fd")
	for _, f := range e {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(l, dir+"/") {
			if i, err := os.Stat("/proc/self/fd/" + f.Name()); err == nil && !i.IsDir() {
				out = append(out, l)
			}
		}
	}
	return
}

// c06cwd saves and opens with names relative to the working directory.
func c06cwd(t *T) {
	old, err := os.Getwd()
	if err != nil {
		infra("%v", err)
	}
	dir := t.Scratch()
	if err := os.MkdirAll(filepath.Join(dir, "sub", "deep"), 0o755); err != nil {
		infra("%v", err)
	}
	if err := os.Chdir(dir); err != nil {
		infra("%v", err)
	}
	defer os.Chdir(old)
	g := newGen(t.R)
	for _, name := range []string{"doc.gltf", "./doc.glb", "sub/doc.gltf", "sub/../up.gltf", "sub//deep/x.glb", "./sub/./deep/y", filepath.Join(dir, "sub", "abs.gltf"), "sub/deep/../../z z.gltf"} {
		doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
		b := &gltf.Buffer{URI: fmt.Sprintf("f%d.bin", t.R.IntN(3)), Data: g.bytes(1 + t.R.IntN(50))}
		b.ByteLength = len(b.Data)
		doc.Buffers = []*gltf.Buffer{b}
		save := gltf.Save
		if t.R.IntN(2) == 0 {
			save = gltf.SaveBinary
		}
		t.Note("name", name)
		if err := save(doc, name); err != nil {
			t.Failf("saving to %q: %v", name, err)
		}
		file := filepath.Join(filepath.Dir(filepath.Clean(name)), b.URI)
		if got, err := os.ReadFile(file); err != nil || !bytes.Equal(got, b.Data) {
			t.Failf("saved to %q: file %q has %d bytes, the buffer %d: %v", name, file, len(got), len(b.Data), err)
		}
		os.Remove(filepath.Join(dir, "poison"))
		back, err := gltf.Open(name)
		if err != nil {
			t.Failf("opening %q: %v", name, err)
		}
		if !bytes.Equal(back.Buffers[0].Data, b.Data) {
			t.Failf("opening %q: other data in the buffer", name)
		}
		os.Remove(file)
		if _, err := gltf.Open(name); err == nil {
			t.Failf("opening %q succeeds without the file of its buffer", name)
		}
		if open := openUnder(dir); len(open) > 0 {
			t.Failf("opening %q without the file of its buffer fails and leaves %q open", name, open)
		}
		if full, err := os.ReadFile(name); err == nil && len(full) > 4 {
			os.WriteFile(name, full[:len(full)/2], 0o644)
			if _, err := gltf.Open(name); err == nil {
				t.Failf("opening the first half of %q succeeds", name)
			}
			if open := openUnder(dir); len(open) > 0 {
				t.Failf("opening the first half of %q fails and leaves %q open", name, open)
			}
			t.Hit("open_failed")
		}
		t.Hit("cwd")
		t.Key("cwd", name, t.I)
	}
}

// placements makes a document whose buffers have every kind of place.
// sameFiles: got and want (both sorted) are the same, but that a name wanted
// by several buffers may come up only once.
func sameFiles(got, want []string) bool {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	for i, f := range got {
		if n[f] == 0 {
			return false
		}
		if n[f]--; i+1 < len(got) && got[i+1] != f {
			delete(n, f)
		} else if i+1 == len(got) {
			delete(n, f)
		}
	}
	return len(n) == 0
}

func placements(g *gen, nodata bool) (*gltf.Document, string) {
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	var desc []string
	n := 1 + g.r.IntN(6)
	if g.r.IntN(100) == 0 {
		n = 7 + g.r.IntN(60)
	}
	for i := 0; i < n; i++ {
		b := &gltf.Buffer{Data: g.bytes(1 + g.r.IntN(40))}
		if g.r.IntN(30) == 0 {
			b.Data = g.bytes(edgeLen(g.r, 9, 14))
			if g.r.IntN(20) == 0 {
				b.Data = g.bytes(edgeLen(g.r, 15, 20))
			}
		}
		b.ByteLength = len(b.Data)
		switch k := g.r.IntN(8); {
		case k < 2:
		case k == 2:
			g.embed(b)
		case k == 3:
			b.URI = absURIs[g.r.IntN(len(absURIs))]
			if g.r.IntN(2) == 0 {
				b.Data = nil
			}
		case k == 4 && nodata:
			b.URI = fileURI(g, i)
			b.Data = nil
			if g.r.IntN(4) == 0 {
				b.ByteLength = 0
			}
		default:
			b.URI = fileURI(g, i)
		}
		if i == 0 && b.URI != "" && g.r.IntN(2) == 0 {
			b.URI = ""
			if b.Data == nil {
				b.Data = make([]byte, b.ByteLength)
			}
		}
		if i > 0 && g.r.IntN(12) == 0 { // the same file as an earlier buffer: the same bytes, or none here or there
			if e := doc.Buffers[g.r.IntN(i)]; e.URI != "" {
				b.URI, b.Data, b.ByteLength = e.URI, e.Data, e.ByteLength
				if nodata && len(b.Data) > 0 && !strings.HasPrefix(e.URI, octet) {
					switch g.r.IntN(3) {
					case 0:
						e.Data = nil
					case 1:
						b.Data = nil
					}
				}
			}
		}
		doc.Buffers = append(doc.Buffers, b)
		u := b.URI
		if len(u) > 50 {
			u = u[:50] + "..."
		}
		desc = append(desc, fmt.Sprintf("%q(%d/%d)", u, len(b.Data), b.ByteLength))
	}
	return doc, strings.Join(desc, " ")
}

var uriParts = []string{"..", "..", "..", ".", "/", "/", "/", "\\", "a", "b.bin", "%2e", "%2E%2e", "%2f", "%5c", "%5C", "%252e%252e", "%252f", "C:", "c:\\", "file:", "file://", "http://", "//", "x:", ":", "?", "#", "%", "%zz", "%00", "\x00", "\n", "\t", " ", "é", "..a", "a..", "...", "~", "\x7f", "%c0%ae", "．．", "/etc/passwd", "data:", "data:text/plain,", "&", "%2e.", ".%2e", ";", "@"}

func hostileURI(g *gen) string {
	var b strings.Builder
	for n := 1 + g.r.IntN(7); n > 0; n-- {
		b.WriteString(uriParts[g.r.IntN(len(uriParts))])
	}
	switch g.r.IntN(4) {
	case 0:
		b.WriteString("/x.bin")
	case 1:
		b.WriteString("x.bin")
	}
	s := b.String()
	if g.r.IntN(5) == 0 { // percent-encode some more
		var e strings.Builder
		for i := 0; i < len(s); i++ {
			if g.r.IntN(3) == 0 {
				fmt.Fprintf(&e, "%%%02x", s[i])
			} else {
				e.WriteByte(s[i])
			}
		}
		s = e.String()
	}
	return s
}

func c07(t *T, enc bool) {
	g := newGen(t.R)
	uri := hostileURI(g)
	if t.R.IntN(4) == 0 {
		uri = fileURI(g, 1)
	}
	if uri == "" || strings.HasPrefix(uri, octet) {
		return
	}
	uri = strings.ToValidUTF8(uri, "?")
	t.Note("uri", uri)
	path, plain := denotes(uri)
	abs := isAbsURI(uri)
	raw := strings.ReplaceAll(uri, "\\", "/")
	dec, ok := unpercent(raw)
	if !ok {
		dec = raw
	}
	// Outside whatever way it is read.
	safe := safePath(path) || safePath(uri) || safePath(raw) || safePath(dec) || (!plain && scheme(raw))
	mem := newMemFS()
	mem.lax = true
	var err error
	m := modes[t.R.IntN(2)]
	data := []byte{1, 2, 3, 4}
	good := &gltf.Buffer{ByteLength: 4, Data: data}
	good.EmbeddedResource()
	if enc {
		doc := &gltf.Document{Buffers: []*gltf.Buffer{{URI: uri, ByteLength: 4, Data: data}}}
		if t.R.IntN(2) == 0 {
			doc.Buffers = append([]*gltf.Buffer{good}, doc.Buffers...)
		}
		_, err = encode(doc, m, mem)
	} else {
		var b bytes.Buffer
		w := &refWriter{}
		w.write(&b, members{{"asset", members{{"version", "2.0"}}}, {"buffers", []any{members{{"byteLength", rawNode("4")}, {"uri", uri}}}}})
		in := b.Bytes()
		if m.binary {
			in = simpleGLB(in, nil)
		}
		// Everything that could be asked for exists.
		mem.files[path] = data
		mem.files[pathpkg.Clean(path)] = data
		_, err = decode(in, mem)
	}
	names := append(append([]string{}, mem.created...), mem.opened...)
	for _, n := range names {
		t.Hit("names_monitored")
		if !safePath(n) {
			t.Failf("URI %q made the library use the name %q", uri, n)
		}
	}
	switch {
	case abs:
		t.Hit("absolute")
		if len(names) > 0 {
			t.Failf("absolute URI %q made the library use %q", uri, names)
		}
	case plain && !safePath(path), !safe:
		t.Hit("escaping")
		if len(names) > 0 {
			t.Failf("URI %q denotes %q, outside the directory, and the library used %q", uri, path, names)
		}
		if err == nil && !isAbsURI(path) { // %-encoded absolute URIs may be taken for absolute
			t.Failf("URI %q denotes %q, outside the directory, and there was no error", uri, path)
		}
		if enc {
			t.Hit("rejected_encode")
		} else {
			t.Hit("rejected_decode")
		}
	case plain && plainPath(pathpkg.Clean(path)) && !strings.HasSuffix(path, "/") && !strings.Contains(path, "://"):
		path = pathpkg.Clean(path)
		t.Hit("inside")
		if strings.Contains(path, "..") {
			t.Hit("dots_in_names")
		}
		if err != nil {
			t.Failf("URI %q denotes %q, inside the directory: %v", uri, path, err)
		}
		if len(names) != 1 || names[0] != path {
			t.Failf("URI %q denotes %q, the library used %q", uri, path, names)
		}
	default:
		t.Hit("ambiguous_monitored")
	}
	t.Key(uri, enc)
	t.Sample(func() string { return fmt.Sprintf("%q -> %q safe=%v err=%v names=%q", uri, path, safe, err, names) })
}

// diskURI is a URI that may climb, but never above six levels nor to a place
// outside root, so that even a library that follows it stays in the scratch
// directory.
func diskURI(g *gen, root string) string {
	if g.r.IntN(6) == 0 {
		u := root + []string{"/x.bin", "/secret", "/d1/d2/d3/d4/d5/d6/d7/d8/x.bin", "/d1/secret"}[g.r.IntN(4)]
		switch g.r.IntN(5) {
		case 0:
			u = strings.ReplaceAll(u, "/", "%2f")
		case 1:
			u = strings.ReplaceAll(u, "/", "\\")
		case 2:
			u = strings.ReplaceAll(u, "/", "%5c")
		case 3:
			u = "./" + u
		}
		return u
	}
	var b strings.Builder
	ups := 0
	for n := 1 + g.r.IntN(5); n > 0; n-- {
		seg := []string{"..", "..", "..", "%2e%2e", ".%2E", ".", "sub", "sub", "sub/sub", "", "..x", "...", "x..", "%252e%252e"}[g.r.IntN(14)]
		if ups++; ups > 6 { // every segment could be a climb
			break
		}
		b.WriteString(seg)
		b.WriteString([]string{"/", "/", "/", "\\", "%2f", "%2F", "%5c", "/./", "%252f"}[g.r.IntN(9)])
	}
	b.WriteString([]string{"x.bin", "secret", "doc", "y"}[g.r.IntN(4)])
	u := b.String()
	if strings.HasPrefix(u, "/") || strings.HasPrefix(u, "\\") || strings.HasPrefix(u, "%2") || strings.HasPrefix(u, "%5") {
		u = "." + u // never the root of the file system
	}
	return u
}

// treeOf maps the files below root, but for those below skip, to their content.
func treeOf(root, skip string) map[string]string {
	out := map[string]string{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			infra("%v", err)
		}
		if p == skip {
			return filepath.SkipDir
		}
		if d.IsDir() {
			out[p] = "directory"
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			infra("%v", err)
		}
		out[p] = string(b)
		return nil
	})
	return out
}

// c07disk saves and opens for real, deep enough in a scratch directory.
func c07disk(t *T) {
	g := newGen(t.R)
	root := t.Scratch()
	if !contained() {
		t.Hit("disk_not_contained")
		t.HitN("disk_escaping", 0)
		return
	}
	dir := root
	for i := 1; i <= 9; i++ {
		dir = filepath.Join(dir, fmt.Sprint("d", i))
	}
	if err := os.MkdirAll(filepath.Join(dir, "sub", "sub"), 0o755); err != nil {
		infra("%v", err)
	}
	marker := []byte("SECRET" + fmt.Sprint(t.I))
	for p := root; p != dir; p = filepath.Join(p, func() string { r, _ := filepath.Rel(p, dir); return strings.Split(r, "/")[0] }()) {
		for _, n := range []string{"secret", "x.bin"} {
			if err := os.WriteFile(filepath.Join(p, n), marker, 0o644); err != nil {
				infra("%v", err)
			}
		}
	}
	before := treeOf(root, dir)
	for k := 0; k < 4; k++ {
		uri := diskURI(g, root)
		t.Note("uri", uri)
		path, plain := denotes(uri)
		escapes := plain && !safePath(path)
		inside := plain && safePath(path) && plainPath(filePath(uri))
		data := g.bytes(1 + t.R.IntN(20))
		doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{URI: uri, ByteLength: len(data), Data: data}}}
		save, kind := gltf.Save, "Save"
		if t.R.IntN(2) == 0 {
			save, kind = gltf.SaveBinary, "SaveBinary"
		}
		name := filepath.Join(dir, "doc.gltf")
		if inside {
			os.MkdirAll(filepath.Dir(filepath.Join(dir, filePath(uri))), 0o755)
		}
		err := save(doc, name)
		after := treeOf(root, dir)
		for p, b := range after {
			if old, ok := before[p]; !ok || old != b {
				t.Failf("%s: a buffer with the URI %q changed %q, outside the directory of the document", kind, uri, p)
			}
		}
		if len(after) != len(before) {
			t.Failf("%s: a buffer with the URI %q removed a file outside the directory of the document", kind, uri)
		}
		switch {
		case escapes:
			t.Hit("disk_escaping")
			if err == nil {
				t.Failf("%s: URI %q denotes %q, outside the directory, and there was no error", kind, uri, path)
			}
		case inside:
			t.Hit("disk_inside")
			if err != nil && filePath(uri) != "sub" && filePath(uri) != "sub/sub" {
				t.Failf("%s: URI %q denotes %q, inside the directory: %v", kind, uri, path, err)
			}
		}
		// Opening.
		var b bytes.Buffer
		(&refWriter{}).write(&b, members{{"asset", members{{"version", "2.0"}}}, {"buffers", []any{members{{"byteLength", rawNode("5")}, {"uri", uri}}}}})
		in := b.Bytes()
		if t.R.IntN(2) == 0 {
			in = simpleGLB(in, nil)
		}
		if err := os.WriteFile(name, in, 0o644); err != nil {
			infra("%v", err)
		}
		back, err := gltf.Open(name)
		if escapes && err == nil {
			t.Failf("Open: URI %q denotes %q, outside the directory, and there was no error", uri, path)
		}
		if err == nil && bytes.HasPrefix(back.Buffers[0].Data, []byte("SECRE")) {
			t.Failf("Open: URI %q gave the content of a file outside the directory", uri)
		}
		if inside && err == nil && !bytes.Equal(back.Buffers[0].Data, data[:min(5, len(data))]) {
			if now, _ := os.ReadFile(filepath.Join(dir, filePath(uri))); !bytes.Equal(back.Buffers[0].Data, now[:min(5, len(now))]) {
				t.Failf("Open: URI %q gave other data than its file", uri)
			}
		}
		t.Eval(1)
		t.Key("disk", uri)
	}
}

// faultDoc is a document whose buffers go to the stream and to files.
func faultDoc(g *gen) *gltf.Document {
	g.noExt = g.r.IntN(2) == 0
	g.mixedURIs()
	if g.r.IntN(2) == 0 {
		g.uri = func(i int) string {
			if i == 0 && g.r.IntN(2) == 0 {
				return ""
			}
			return g.relURI(i)
		}
	}
	if g.r.IntN(8) == 0 {
		g.maxBuf = 9000
		if g.r.IntN(10) == 0 {
			g.maxBuf = 300000
		}
	}
	doc := g.document()
	for len(doc.Buffers) < 2 {
		doc.Buffers = g.buffers()
	}
	// Not too much, as it is written many times.
	total := 0
	for i, b := range doc.Buffers {
		total += len(b.Data)
		if i >= 2 && total > 600000 {
			doc.Buffers = doc.Buffers[:i]
			break
		}
	}
	return doc
}

func encodeTo(doc *gltf.Document, m mode, w io.Writer, fsys gltf.CreateFS) error {
	e := gltf.NewEncoderFS(w, fsys)
	e.AsBinary = m.binary
	if m.indent != "" || m.prefix != "" {
		e.SetJSONIndent(m.prefix, m.indent)
	}
	return e.Encode(doc)
}

func c11faults(t *T) {
	g := newGen(t.R)
	doc := faultDoc(g)
	m := modes[t.R.IntN(4)]
	t.Note("mode", m.String())
	// Clean run: what has to be delivered.
	cw := &faultWriter{n: -1, after: -1}
	cm := newMemFS()
	if err := encodeTo(doc, m, cw, cm); err != nil {
		t.Failf("encoding failed without faults: %v", err)
	}
	t.Hit("clean")
	full := cw.buf.Bytes()
	complete := func(w *faultWriter, fsys *memFS) string {
		if !bytes.Equal(w.buf.Bytes(), full) {
			return fmt.Sprintf("stream has %d of %d bytes", w.buf.Len(), len(full))
		}
		for k, v := range cm.files {
			if !bytes.Equal(fsys.files[k], v) {
				return fmt.Sprintf("file %q has %d of %d bytes", k, len(fsys.files[k]), len(v))
			}
		}
		return ""
	}
	closed := func(fsys *memFS, what string) {
		for id, n := range fsys.created {
			if _, failed := fsys.failAt["create"]; failed && id == fsys.failAt["create"] {
				continue
			}
			if fsys.closes[id] != 1 {
				t.Failf("%s: file %q was closed %d times", what, n, fsys.closes[id])
			}
		}
	}
	if s := complete(cw, cm); s != "" {
		t.Failf("%s", s)
	}
	closed(cm, "no fault")
	try := func(kind string, i int, short, once bool) {
		w := &faultWriter{n: -1, after: -1, short: short, once: once}
		fsys := newMemFS()
		fsys.short = short
		if t.R.IntN(3) > 0 {
			w.err = ioErrors[t.R.IntN(len(ioErrors))]
			fsys.err = w.err
		}
		if kind == "write" {
			w.n = i
		} else {
			fsys.failAt[kind] = i
		}
		err := encodeTo(doc, m, w, fsys)
		what := fmt.Sprintf("%v: %s %d of the document fails with %v (short=%v, once=%v)", m, kind, i, fsys.err, short, once)
		t.Eval(1)
		t.Hit("fault_" + kind)
		t.Key(t.I, kind, i, short, once)
		if err == nil {
			t.Failf("%s: encoding reports success (%s)", what, complete(w, fsys))
		}
		closed(fsys, what)
	}
	// Each operation is made to fail, or a choice of them if that is too much.
	cost := len(full) + 1000
	for _, f := range cm.files {
		cost += len(f)
	}
	ops := 3*cw.count + len(cm.created) + 2*cm.counts["filewrite"] + cm.counts["close"]
	every := func(n int, f func(i int)) {
		part := min(1, 1.5e7/(float64(ops)*float64(cost)))
		for i := 0; i < n; i++ {
			if i < 2 || i >= n-2 || part == 1 || t.R.Float64() < part {
				f(i)
			}
		}
	}
	every(cw.count, func(i int) {
		try("write", i, false, false)
		try("write", i, true, false)
		try("write", i, i%2 == 1, true)
	})
	every(len(cm.created), func(i int) { try("create", i, false, true) })
	every(cm.counts["filewrite"], func(i int) {
		try("filewrite", i, false, true)
		try("filewrite", i, true, true)
	})
	every(cm.counts["close"], func(i int) { try("close", i, false, true) })
	// The stream stops accepting bytes after n of them.
	cuts := map[int]bool{0: true, 1: true, 11: true, 12: true, 19: true, 20: true, len(full) - 1: true, len(full) - 2: true, len(full) - 3: true, len(full) - 4: true}
	for len(cuts) < 10+12*min(100000, cost)/cost && len(cuts) < len(full) {
		cuts[t.R.IntN(len(full))] = true
	}
	for n := range cuts {
		if n < 0 || n >= len(full) {
			continue
		}
		w := &faultWriter{n: -1, after: n, err: ioErrors[t.R.IntN(len(ioErrors))]}
		fsys := newMemFS()
		err := encodeTo(doc, m, w, fsys)
		t.Eval(1)
		t.Hit("cut")
		t.Key(t.I, "cut", n)
		if err == nil {
			t.Failf("%v: the stream took %d of %d bytes with %v and encoding reports success", m, w.buf.Len(), len(full), w.err)
		}
		closed(fsys, "cut")
	}
	// A file that takes only n bytes and says so, with the error in the middle.
	t.Sample(func() string {
		return fmt.Sprintf("%v: %d stream writes, %d files, %d file writes, %d closes, %d bytes", m, cw.count, len(cm.created), cm.counts["filewrite"], cm.counts["close"], len(full))
	})
}

func c11bad(t *T) {
	g := newGen(t.R)
	g.mixedURIs()
	doc := g.document()
	bad := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[t.R.IntN(3)]
	kind := t.I % 10
	switch kind {
	case 0:
		doc.Cameras = append(doc.Cameras, &gltf.Camera{Name: "none"})
	case 1:
		doc.Nodes = append(doc.Nodes, &gltf.Node{Matrix: [16]float64{1, 2, 3, bad}})
	case 2:
		doc.Nodes = append(doc.Nodes, &gltf.Node{Weights: []float64{1, bad}})
	case 3:
		doc.Accessors = append(doc.Accessors, &gltf.Accessor{Count: 1, Max: []float64{bad}})
	case 4:
		doc.Materials = append(doc.Materials, &gltf.Material{EmissiveFactor: [3]float64{bad}})
	case 5:
		doc.Materials = append(doc.Materials, &gltf.Material{AlphaCutoff: &bad})
	case 6:
		doc.Extras = func() {}
	case 7:
		doc.Asset.Extensions = gltf.Extensions{"bad": make(chan int)}
	case 8:
		doc.Cameras = append(doc.Cameras, &gltf.Camera{Perspective: &gltf.Perspective{Yfov: bad, Znear: 1}})
	case 9:
		doc.Nodes = append(doc.Nodes, &gltf.Node{Rotation: [4]float64{bad, 0, 0, 1}})
	}
	for _, m := range modes[:3] {
		w := &faultWriter{n: -1, after: -1}
		fsys := newMemFS()
		err := encodeTo(doc, m, w, fsys)
		if err == nil {
			t.Failf("%v: a document that cannot be represented (kind %d) was encoded: %q", m, kind, clip(w.buf.Bytes(), 300))
		}
		if w.buf.Len() > 0 {
			t.Failf("%v: encoding fails with %v after writing %d bytes", m, err, w.buf.Len())
		}
		if len(fsys.created) > 0 {
			t.Failf("%v: encoding fails with %v after creating %q", m, err, fsys.created)
		}
		t.Eval(1)
	}
	t.Hit("unrepresentable")
	t.Key("bad", kind, t.I)
}

// fullDoc is a document in which every number of the schema and of the
// bundled extensions is present. It returns the places of the numbers.
func fullDoc(r *rand.Rand) (doc *gltf.Document, paths []string, at map[string]*float64) {
	doc = new(gltf.Document)
	at = map[string]*float64{}
	num := func(f reflect.Value, path string) {
		f.SetFloat(float64(r.IntN(2000)-1000) / 8)
		at[path] = f.Addr().Interface().(*float64)
		paths = append(paths, path)
	}
	skip := map[reflect.Type]bool{
		reflect.TypeOf(gltf.Extensions(nil)): true, reflect.TypeOf(gltf.PrimitiveAttributes(nil)): true,
	}
	var fill func(v reflect.Value, path string)
	fill = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Float64:
			num(v, path)
		case reflect.Pointer:
			v.Set(reflect.New(v.Type().Elem()))
			fill(v.Elem(), path)
		case reflect.Slice:
			if skip[v.Type()] || v.Type().Elem().Kind() == reflect.Uint8 {
				return
			}
			v.Set(reflect.MakeSlice(v.Type(), 1+r.IntN(2), 2))
			fallthrough
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				fill(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() && !skip[v.Field(i).Type()] {
					fill(v.Field(i), path+"."+v.Type().Field(i).Name)
				}
			}
		case reflect.Int:
			v.SetInt(int64(r.IntN(3)))
		case reflect.String:
			if r.IntN(2) == 0 {
				v.SetString("n")
			}
		case reflect.Bool:
			v.SetBool(r.IntN(2) == 0)
		}
	}
	fill(reflect.ValueOf(doc).Elem(), "doc")
	for _, b := range doc.Buffers {
		*b = gltf.Buffer{ByteLength: 1, Data: []byte{1}}
	}
	// A camera is one or the other.
	for i, c := range doc.Cameras {
		if i == 0 && r.IntN(2) == 0 {
			c.Perspective = nil
		} else {
			c.Orthographic = nil
		}
	}
	// Not every number can be looked at: drop those of the removed cameras.
	keep := paths[:0]
	for _, p := range paths {
		gone := false
		for i, c := range doc.Cameras {
			pre := fmt.Sprintf("doc.Cameras[%d].", i)
			gone = gone || c.Perspective == nil && strings.HasPrefix(p, pre+"Perspective") || c.Orthographic == nil && strings.HasPrefix(p, pre+"Orthographic")
		}
		if !gone {
			keep = append(keep, p)
		}
	}
	paths = keep
	ext := func(dst *gltf.Extensions, name string, v any, path string) {
		fill(reflect.ValueOf(v).Elem(), path+"."+name)
		if *dst == nil {
			*dst = gltf.Extensions{}
		}
		(*dst)[name] = v
	}
	light := new(lightspunctual.Light)
	spec := new(specular.PBRSpecularGlossiness)
	trans := new(texturetransform.TextureTranform)
	ext(&doc.Materials[0].Extensions, specular.ExtensionName, spec, "material")
	ext(&doc.Materials[0].NormalTexture.Extensions, texturetransform.ExtensionName, trans, "texture")
	fill(reflect.ValueOf(light).Elem(), "light")
	light.Type = lightspunctual.TypeSpot
	doc.Extensions = gltf.Extensions{lightspunctual.ExtensionName: lightspunctual.Lights{light}}
	return doc, paths, at
}

// c11numbers: JSON has no NaN and no infinities, so a document with one, in
// whichever place, cannot be encoded and has to be refused.
func c11numbers(t *T) {
	doc, paths, at := fullDoc(t.R)
	m := modes[t.I%3]
	w := &faultWriter{n: -1, after: -1}
	if err := encodeTo(doc, m, w, newMemFS()); err != nil {
		t.Failf("%v: a document with every number finite is refused: %v", m, err)
	}
	for _, p := range paths {
		old := *at[p]
		for _, bad := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
			if p == "light.Range" && bad > 0 {
				continue // the default, no limit
			}
			*at[p] = bad
			w := &faultWriter{n: -1, after: -1}
			if err := encodeTo(doc, m, w, newMemFS()); err == nil {
				t.Failf("%v: a document with %s = %v was encoded", m, p, bad)
			} else if w.buf.Len() > 0 {
				t.Failf("%v: encoding %s = %v fails with %v after writing %d bytes", m, p, bad, err, w.buf.Len())
			}
			t.Eval(1)
			t.Hit("number_fields")
			t.Key("number", p, bad)
		}
		*at[p] = old
	}
}

func openFDs() int {
	e, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(e)
}

type countWriter int64

func (w *countWriter) Write(p []byte) (int, error) {
	*w += countWriter(len(p))
	return len(p), nil
}

// c11tooLarge: the lengths of a GLB have 32 bits, larger documents cannot be
// represented. The bytes are never touched.
func c11tooLarge(t *T) {
	over := []int{0, 4, 40, 1 << 10, 1 << 20, 1 << 28}[t.I%6]
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: 1<<32 - 100}}}
	text := len(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":4294967196}]}`)
	var w countWriter
	e := gltf.NewEncoder(&w)
	e.AsBinary = false
	if err := e.Encode(doc); err == nil && int(w) > text {
		text = int(w)
	}
	n := 1<<32 - 20 - 8 - (text+3)/4*4 + over
	mem, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		infra("mmap of %d bytes: %v", n, err)
	}
	defer syscall.Munmap(mem)
	doc.Buffers[0].ByteLength, doc.Buffers[0].Data = n, mem
	files := newMemFS()
	if t.I%2 == 1 {
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{URI: "a.bin", ByteLength: 3, Data: []byte{1, 2, 3}})
	}
	w = 0
	if err := gltf.NewEncoderFS(&w, files).Encode(doc); err == nil {
		t.Failf("a GLB of %d bytes, more than its length field can hold, is encoded without error", int64(w))
	}
	if w > 0 || len(files.created) > 0 {
		t.Failf("encoding a document that is too large for a GLB writes %d bytes and %d files before it fails", int64(w), len(files.created))
	}
	t.Hit("too_large")
	t.Key(over, len(doc.Buffers))
}

func c11save(t *T) {
	g := newGen(t.R)
	dir := t.Scratch()
	doc := faultDoc(g)
	for _, b := range doc.Buffers {
		if b.URI != "" && !b.IsEmbeddedResource() {
			os.MkdirAll(filepath.Dir(filepath.Join(dir, filePath(b.URI))), 0o755)
		}
	}
	save, kind := gltf.Save, "Save"
	if t.R.IntN(2) == 0 {
		save, kind = gltf.SaveBinary, "SaveBinary"
	}
	before := openFDs()
	what := ""
	var err error
	switch t.I % 5 {
	case 0:
		what = "missing directory"
		err = save(doc, filepath.Join(dir, "missing", "doc.gltf"))
	case 1:
		what = "a directory"
		os.MkdirAll(filepath.Join(dir, "isdir"), 0o755)
		err = save(doc, filepath.Join(dir, "isdir"))
	case 2:
		if _, e := os.Stat("/dev/full"); e != nil {
			return
		}
		what = "a full device"
		link := filepath.Join(dir, "full.gltf")
		if e := os.Symlink("/dev/full", link); e != nil {
			infra("%v", e)
		}
		err = save(doc, link)
	case 3:
		if _, e := os.Stat("/dev/full"); e != nil {
			return
		}
		what = "a buffer on a full device"
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{URI: "full.bin", ByteLength: 2, Data: []byte{1, 2}})
		if e := os.Symlink("/dev/full", filepath.Join(dir, "full.bin")); e != nil {
			infra("%v", e)
		}
		err = save(doc, filepath.Join(dir, "doc.gltf"))
	case 4:
		what = "a buffer in a missing directory"
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{URI: "nodir/x.bin", ByteLength: 2, Data: []byte{1, 2}})
		err = save(doc, filepath.Join(dir, "doc.gltf"))
	}
	if err == nil {
		t.Failf("%s to %s reports success", kind, what)
	}
	if n := openFDs(); n > before {
		t.Failf("%s to %s leaves %d files open", kind, what, n-before)
	}
	if _, e := gltf.Open(filepath.Join(dir, "does-not-exist")); e == nil || !errors.Is(e, fs.ErrNotExist) {
		t.Failf("opening a missing file: %v", e)
	}
	t.Hit("save_faults")
	t.Key(kind, what, t.I)
}
