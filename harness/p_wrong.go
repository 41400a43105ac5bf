package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
)

// typedSpots visits the values of a glTF text that have one JSON type by the
// specification: not extras and what is in them, and not what is in extensions.
// The type of a camera follows from its projection and is left out.
func typedSpots(v any, path string, f func(path string, old any, set func(any))) {
	switch v := v.(type) {
	case members:
		for i := range v {
			k := v[i].k
			p := path + "/" + k
			if k == "extras" || k == "type" && strings.HasPrefix(path, "/cameras/") {
				continue
			}
			f(p, v[i].v, func(x any) { v[i].v = x })
			if k != "extensions" {
				typedSpots(v[i].v, p, f)
			}
		}
	case []any:
		for i := range v {
			p := fmt.Sprintf("%s/%d", path, i)
			f(p, v[i], func(x any) { v[i] = x })
			typedSpots(v[i], p, f)
		}
	}
}

// wrongKind gives a value of another JSON type.
func wrongKind(g *gen, old any) any {
	kind := func(v any) int {
		switch v.(type) {
		case json.Number:
			return 0
		case string:
			return 1
		case bool:
			return 2
		case []any:
			return 3
		case members:
			return 4
		}
		return -1
	}
	all := []any{json.Number("0"), json.Number("1"), json.Number("2.5"), "", "0", "SCALAR", "true", true, false, []any{}, []any{json.Number("1")}, []any{"a"}, members{}, members{{"index", json.Number("0")}}, members{{"a", "b"}}}
	for {
		x := all[g.r.IntN(len(all))]
		if k := kind(old); k < 0 || kind(x) != k {
			return x
		}
	}
}

type spot struct {
	path string
	old  any
	set  func(any)
}

func spots(g *gen, tree any, max int) []spot {
	var out []spot
	typedSpots(tree, "", func(p string, old any, set func(any)) {
		if old != nil {
			if _, raw := old.(rawNode); !raw {
				out = append(out, spot{p, old, set})
			}
		}
	})
	g.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out[:min(len(out), max)]
}

// c02wrong: one member of a wrong JSON type makes decoding fail.
func c02wrong(t *T, singles []single) {
	g := newGen(t.R)
	g.mixedURIs()
	g.dens, g.coll = 0.9, 1
	g.rawExt, g.jsonExtras, g.noLong = true, true, true
	s := singles[t.I%len(singles)]
	doc := s.make(g)
	if t.I >= len(singles) && s.typ != "Buffer" {
		g.fill(s.typ, place(s.typ, doc))
	}
	mem := newMemFS()
	for _, b := range doc.Buffers {
		if b.URI != "" && !strings.HasPrefix(b.URI, octet) {
			mem.files[filePath(b.URI)] = b.Data
		}
	}
	w := &refWriter{g: g, Explicit: 2, binary: t.R.IntN(3) == 0}
	tree := w.tree("Document", "", reflect.ValueOf(doc).Elem())
	input := func() []byte {
		in := render2(w, tree)
		if w.binary {
			var bin []byte
			if len(doc.Buffers) > 0 && doc.Buffers[0].URI == "" {
				bin = doc.Buffers[0].Data
			}
			in = simpleGLB(in, bin)
		}
		t.Note("input", in)
		return in
	}
	if _, err := decode(input(), mem); err != nil {
		t.Failf("decoding valid glTF failed: %v", err)
	}
	for _, sp := range spots(g, tree, 80) {
		bad := wrongKind(g, sp.old)
		sp.set(bad)
		in := input()
		sp.set(sp.old)
		if _, err := decode(in, mem); err == nil {
			t.Failf("%s is %s, and decoding does not fail", sp.path, short(string(render2(&refWriter{}, bad))))
		}
		t.Hit("wrong_types")
		t.Eval(1)
		t.Key("wrong", s.typ, s.f.Go, sp.path)
	}
}

// c02case: names are case sensitive, so a member whose name differs from one of
// glTF in case only is one that glTF does not know.
func c02case(t *T, singles []single) {
	g := newGen(t.R)
	g.dens, g.coll = 0.9, 1
	g.rawExt, g.jsonExtras, g.noLong = true, true, true
	g.uri = func(int) string { return octet + "," }
	s := singles[t.I%len(singles)]
	doc := s.make(g)
	w := &refWriter{g: g, Explicit: 2}
	tree := w.tree("Document", "", reflect.ValueOf(doc).Elem())
	type name struct {
		path string
		m    *member
	}
	var names []name
	var visit func(v any, path string)
	visit = func(v any, path string) {
		switch v := v.(type) {
		case members:
			for i := range v {
				p := path + "/" + v[i].k
				names = append(names, name{p, &v[i]})
				switch v[i].k {
				case "extras", "extensions", "attributes", "targets":
				default:
					visit(v[i].v, p)
				}
			}
		case []any:
			for i := range v {
				visit(v[i], fmt.Sprintf("%s/%d", path, i))
			}
		}
	}
	visit(tree, "")
	t.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	try := func() (*gltf.Document, error) {
		in := render2(w, tree)
		t.Note("input", in)
		return decode(in, nil)
	}
	full, fullErr := try()
	if fullErr != nil {
		t.Failf("decoding valid glTF failed: %v", fullErr)
	}
	for _, n := range names[:min(len(names), 40)] {
		old := n.m.k
		n.m.k = "unknown"
		want, wantErr := try()
		n.m.k = []string{strings.ToUpper(old), strings.ToUpper(old[:1]) + old[1:], strings.ToLower(old[:len(old)-1]) + strings.ToUpper(old[len(old)-1:])}[t.R.IntN(3)]
		got, err := try()
		k := n.m.k
		n.m.k = old
		t.Hit("case_names")
		t.Eval(2)
		t.Key("case", s.typ, s.f.Go, n.path)
		same := func(a *gltf.Document, aErr error) bool {
			return (err == nil) == (aErr == nil) && (err != nil || (&docDiff{}).diff(a, got) == nil)
		}
		if same(want, wantErr) {
			continue
		}
		if !same(full, nil) {
			t.Failf("%s renamed to %s is neither ignored nor taken for it: %v", n.path, k, err)
		}
		t.Finding("case-insensitive-names", fmt.Sprintf("%s renamed to %s is not ignored", n.path, k))
	}
}

// c02integer: glTF allows integers with a zero fraction or an exponent (100, 100.0 and 1e2 are the same).
func c02integer(t *T, singles []single) {
	g := newGen(t.R)
	g.dens, g.coll = 0.7, 1
	g.rawExt, g.jsonExtras, g.noLong = true, true, true
	g.uri = func(int) string { return octet + "," }
	s := singles[t.I%len(singles)]
	doc := s.make(g)
	total, at, form := 0, -1, 0
	w := &refWriter{Explicit: 2, intForm: func(n int64) string {
		total++
		if total-1 != at {
			return strconv.FormatInt(n, 10)
		}
		switch {
		case form == 1:
			return strconv.FormatInt(n, 10) + "e0"
		case form == 2 && n%10 == 0:
			return strconv.FormatInt(n/10, 10) + "E+1"
		case form == 2:
			return strconv.FormatInt(n, 10) + "0e-1"
		}
		return strconv.FormatInt(n, 10) + ".0"
	}}
	try := func() (*gltf.Document, error) {
		total = 0
		in := render2(w, w.tree("Document", "", reflect.ValueOf(doc).Elem()))
		t.Note("input", in)
		return decode(in, nil)
	}
	want, err := try()
	if err != nil {
		t.Failf("decoding valid glTF failed: %v", err)
	}
	n := total
	for _, k := range t.R.Perm(n)[:min(n, 12)] {
		at, form = k, t.R.IntN(3)
		got, err := try()
		t.Hit("integer_forms")
		t.Eval(1)
		t.Key("integer", s.typ, s.f.Go, form)
		if err != nil {
			t.Finding("integer-as-decimal", fmt.Sprintf("integer %d of %d in form %d: %v", k, n, form, err))
			continue
		}
		if d := (&docDiff{}).diff(want, got); d != nil {
			if strings.Contains(fmt.Sprint(d), "/Extensions/KHR_") { // an extension that can't be decoded is kept as text
				t.Finding("integer-as-decimal", fmt.Sprintf("integer %d of %d in form %d: %v", k, n, form, d))
				continue
			}
			t.Failf("integer %d of %d written in form %d gives another document: %v", k, n, form, d)
		}
	}
}

// c23wrong: a bundled extension with a member of a wrong JSON type is kept as text.
func c23wrong(t *T) {
	g := builtinGen(t)
	g.rawExt, g.jsonExtras = true, true
	w := &refWriter{g: g, Explicit: 2}
	var name string
	var v any
	switch t.I % 5 {
	case 0:
		l := g.lights()
		for len(l) == 0 {
			l = g.lights()
		}
		name, v = lightspunctual.ExtensionName, l
	case 1:
		name, v = lightspunctual.ExtensionName, lightspunctual.LightIndex(t.R.IntN(100))
	case 2:
		name, v = specular.ExtensionName, g.specular()
	case 3:
		name, v = texturetransform.ExtensionName, g.transform()
	case 4:
		name, v = unlit.ExtensionName, &unlit.Unlit{}
	}
	tree := w.ext(v)
	sps := spots(g, tree, 20)
	sps = append(sps, spot{"", tree, func(x any) { tree = x }})
	for _, sp := range sps {
		bad := wrongKind(g, sp.old)
		sp.set(bad)
		text := render2(w, tree)
		sp.set(sp.old)
		in := fmt.Sprintf(`{"asset":{"version":"2.0"},"nodes":[{"name":"n","extensions":{"VENDOR_z":[1],%q:%s}}],"extensions":{%q:%s}}`, name, text, name, text)
		t.Note("input", in)
		got, err := decode([]byte(in), nil)
		if err != nil {
			t.Failf("%s of %s is of the wrong type: %v", sp.path, name, err)
		}
		if len(got.Nodes) != 1 || got.Nodes[0].Name != "n" || len(got.Nodes[0].Extensions) != 2 {
			t.Failf("%s of %s is of the wrong type: the node is lost", sp.path, name)
		}
		for _, e := range []gltf.Extensions{got.Extensions, got.Nodes[0].Extensions} {
			raw, ok := e[name].(json.RawMessage)
			if !ok {
				t.Failf("%s of %s is of the wrong type, and is decoded as %T", sp.path, name, e[name])
			}
			have, err1 := parseJSON(raw)
			want, err2 := parseJSON(text)
			if err1 != nil || err2 != nil || !jsonEqual(have, want) {
				t.Failf("%s of %s is of the wrong type, and is kept as %s instead of %s", sp.path, name, raw, text)
			}
		}
		t.Hit("wrong_types")
		t.Eval(1)
		t.Key("wrong", name, sp.path, t.I/5)
	}
}
