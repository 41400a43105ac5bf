package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
)

var (
	inf       = math.Inf(1)
	quarterPi = math.Pi / 4
)

// ---- JSON trees -------------------------------------------------------

type jobj struct {
	keys []string
	m    map[string]any
}

// parseJSON parses one JSON text strictly: nothing but whitespace may follow,
// duplicated member names are an error. Numbers are json.Number.
func parseJSON(b []byte) (any, error) {
	if !json.Valid(b) {
		return nil, fmt.Errorf("not a valid JSON text")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := parseTok(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("content after the JSON text")
	}
	return v, nil
}

func parseTok(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case json.Delim:
		if t == '{' {
			o := &jobj{m: map[string]any{}}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				ks := k.(string)
				if _, dup := o.m[ks]; dup {
					return nil, fmt.Errorf("duplicated member %q", ks)
				}
				v, err := parseTok(d)
				if err != nil {
					return nil, err
				}
				o.keys = append(o.keys, ks)
				o.m[ks] = v
			}
			_, err := d.Token()
			return o, err
		}
		arr := []any{}
		for d.More() {
			v, err := parseTok(d)
			if err != nil {
				return nil, err
			}
			arr = append(arr, v)
		}
		_, err := d.Token()
		return arr, err
	default:
		return t, nil
	}
}

func numEqual(a, b json.Number) bool {
	if a == b {
		return true
	}
	if len(a) > 60 || len(b) > 60 || strings.ContainsAny(string(a)+string(b), "eE") {
		x, err1 := strconv.ParseFloat(string(a), 64)
		y, err2 := strconv.ParseFloat(string(b), 64)
		return err1 == nil && err2 == nil && x == y
	}
	x, ok1 := new(big.Rat).SetString(string(a))
	y, ok2 := new(big.Rat).SetString(string(b))
	return ok1 && ok2 && x.Cmp(y) == 0
}

// canonNumber is the digits without zeros around them and the exponent.
func canonNumber(s string) string {
	sign := ""
	if strings.HasPrefix(s, "-") {
		sign, s = "-", s[1:]
	}
	exp := 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		x, err := strconv.Atoi(s[i+1:])
		if err != nil {
			return sign + s
		}
		exp, s = x, s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		exp -= len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	s = strings.TrimLeft(s, "0")
	for strings.HasSuffix(s, "0") {
		s, exp = s[:len(s)-1], exp+1
	}
	if s == "" {
		return "0"
	}
	return fmt.Sprintf("%s%se%d", sign, s, exp)
}

// jsonEqual compares two trees; member order is irrelevant.
func jsonEqual(a, b any) bool { return jsonSame(a, b, numEqual) }

// jsonExact compares numbers to their last digit.
func jsonExact(a, b any) bool {
	return jsonSame(a, b, func(x, y json.Number) bool { return x == y || canonNumber(string(x)) == canonNumber(string(y)) })
}

func jsonSame(a, b any, num func(a, b json.Number) bool) bool {
	switch a := a.(type) {
	case *jobj:
		bo, ok := b.(*jobj)
		if !ok || len(a.m) != len(bo.m) {
			return false
		}
		for k, v := range a.m {
			w, ok := bo.m[k]
			if !ok || !jsonSame(v, w, num) {
				return false
			}
		}
		return true
	case []any:
		ba, ok := b.([]any)
		if !ok || len(a) != len(ba) {
			return false
		}
		for i := range a {
			if !jsonSame(a[i], ba[i], num) {
				return false
			}
		}
		return true
	case json.Number:
		bn, ok := b.(json.Number)
		return ok && num(a, bn)
	default:
		return a == b
	}
}

// goToTree turns a Go value into a JSON tree with the standard library (used
// for values whose types belong to the harness or the standard library only).
func goToTree(v any) (any, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	return parseJSON(b)
}

// ---- JSON written by the library against the document -------------------

type jsonCheck struct {
	binary bool // first buffer without URI goes to the BIN chunk
	fields int  // number of populated members compared
}

func (c *jsonCheck) document(doc *gltf.Document, text []byte) error {
	tree, err := parseJSON(text)
	if err != nil {
		return err
	}
	return c.structJSON("Document", "", reflect.ValueOf(doc).Elem(), tree)
}

func short(v any) string {
	s := fmt.Sprintf("%v", v)
	if o, ok := v.(*jobj); ok {
		s = fmt.Sprintf("object%v", o.keys)
	}
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func (c *jsonCheck) structJSON(typ, path string, v reflect.Value, j any) error {
	tab, ok := specTable[typ]
	if !ok {
		return fmt.Errorf("%s: harness: no table for %s", path, typ)
	}
	o, ok := j.(*jobj)
	if !ok {
		return fmt.Errorf("%s: expected an object, got %s", path, short(j))
	}
	known := map[string]bool{}
	if typ == "Camera" {
		want := "orthographic"
		if !v.FieldByName("Perspective").IsNil() {
			want = "perspective"
		}
		if o.m["type"] != want {
			return fmt.Errorf("%s: camera type is %v, want %q", path, o.m["type"], want)
		}
		known["type"] = true
	}
	for _, f := range tab {
		known[f.JSON] = true
		fv := v.FieldByName(f.Go)
		if !fv.IsValid() {
			return fmt.Errorf("%s: harness: no field %s.%s", path, typ, f.Go)
		}
		jv, present := o.m[f.JSON]
		if err := c.field(typ, f, path+"/"+f.JSON, v, fv, jv, present); err != nil {
			return err
		}
	}
	for _, k := range o.keys {
		if !known[k] {
			return fmt.Errorf("%s: member %q is not a property of glTF's %s", path, k, typ)
		}
	}
	return nil
}

func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	default:
		return v.IsZero()
	}
}

func (c *jsonCheck) field(typ string, f fld, path string, owner, v reflect.Value, j any, present bool) error {
	key := typ + "." + f.Go
	if f.Go == "Extensions" {
		if v.Len() == 0 {
			if present {
				if o, ok := j.(*jobj); !ok || len(o.m) != 0 {
					return fmt.Errorf("%s: extensions %s from nothing", path, short(j))
				}
			}
			return nil
		}
		o, ok := j.(*jobj)
		if !present || !ok {
			return fmt.Errorf("%s: extensions are missing", path)
		}
		if len(o.m) != v.Len() {
			return fmt.Errorf("%s: extensions %v, want %d of them", path, o.keys, v.Len())
		}
		for _, k := range v.MapKeys() {
			je, ok := o.m[k.String()]
			if !ok {
				return fmt.Errorf("%s: extension %q is missing", path, k.String())
			}
			if err := c.ext(path+"/"+k.String(), v.MapIndex(k).Interface(), je); err != nil {
				return err
			}
		}
		c.fields += len(o.m)
		return nil
	}
	if f.Go == "Extras" {
		if v.IsNil() {
			if present {
				return fmt.Errorf("%s: extras %s from nothing", path, short(j))
			}
			return nil
		}
		want, err := goToTree(v.Interface())
		if err != nil {
			return fmt.Errorf("%s: harness: %v", path, err)
		}
		if !present || !jsonEqual(want, j) {
			return fmt.Errorf("%s: extras are %s, want %s", path, short(j), short(want))
		}
		c.fields++
		return nil
	}
	if key == "Buffer.URI" {
		return c.bufferURI(path, owner, j, present)
	}
	// A value that stands for the default.
	if d, ok := valueDefaults[key]; ok && (v.IsZero() || reflect.DeepEqual(v.Interface(), d)) {
		if !present {
			if f.P == req {
				return fmt.Errorf("%s: required property is missing", path)
			}
			return nil
		}
		return c.value(path, reflect.ValueOf(d), j)
	}
	if v.Kind() == reflect.Pointer {
		d, hasDefault := ptrDefaults[key]
		if v.IsNil() {
			if !present {
				return nil
			}
			if !hasDefault || d == inf {
				return fmt.Errorf("%s: is %s, want it absent", path, short(j))
			}
			return c.value(path, reflect.ValueOf(d), j)
		}
		if hasDefault && reflect.DeepEqual(v.Elem().Interface(), d) && !present {
			return nil
		}
		if !present {
			return fmt.Errorf("%s: is missing, want %v", path, v.Elem().Interface())
		}
		c.fields++
		return c.value(path, v.Elem(), j)
	}
	if f.P == req {
		if !present {
			return fmt.Errorf("%s: required property is missing", path)
		}
		if j == nil && nullWhenEmpty[key] && isEmpty(v) {
			return nil
		}
		c.fields++
		return c.value(path, v, j)
	}
	if isEnum(v.Type()) {
		if none, ok := enumNone[v.Type().Name()]; ok && v.Interface() == none {
			if present {
				return fmt.Errorf("%s: is %s for an undefined value", path, short(j))
			}
			return nil
		}
		if d, ok := enumDefault[v.Type().Name()]; ok && v.Interface() == d && !present {
			return nil
		}
		if !present {
			return fmt.Errorf("%s: is missing, want %v", path, v.Interface())
		}
		c.fields++
		return c.value(path, v, j)
	}
	if isEmpty(v) {
		if !present {
			return nil
		}
		if f.P == omit {
			return fmt.Errorf("%s: is %s for an unset field", path, short(j))
		}
		if j == nil {
			if nullWhenEmpty[key] {
				return nil
			}
			return fmt.Errorf("%s: is null", path)
		}
		return c.value(path, v, j)
	}
	if !present {
		return fmt.Errorf("%s: is missing, want %s", path, short(v.Interface()))
	}
	c.fields++
	return c.value(path, v, j)
}

const octet = "data:application/octet-stream;base64"

func (c *jsonCheck) bufferURI(path string, buf reflect.Value, j any, present bool) error {
	uri := buf.FieldByName("URI").String()
	data := buf.FieldByName("Data").Bytes()
	first := strings.HasPrefix(path, "/buffers/0/")
	switch {
	case uri == "" && (first && c.binary || len(data) == 0):
		if present {
			return fmt.Errorf("%s: is %s, want it absent", path, short(j))
		}
	case len(data) > 0 && (uri == "" || strings.HasPrefix(uri, octet)):
		want := octet + "," + base64.StdEncoding.EncodeToString(data)
		if !present || j != want {
			return fmt.Errorf("%s: is %s, want the %d bytes embedded", path, short(j), len(data))
		}
		c.fields++
	default:
		if !present || j != uri {
			return fmt.Errorf("%s: is %s, want %q", path, short(j), uri)
		}
		c.fields++
	}
	return nil
}

func (c *jsonCheck) value(path string, v reflect.Value, j any) error {
	t := v.Type()
	bad := func() error { return fmt.Errorf("%s: is %s, want %s", path, short(j), short(v.Interface())) }
	if isEnum(t) {
		code, ok := enumCode(v)
		if !ok {
			return fmt.Errorf("%s: harness: no code for %v", path, v.Interface())
		}
		switch code := code.(type) {
		case string:
			if j != code {
				return fmt.Errorf("%s: is %s, want %q", path, short(j), code)
			}
		case float64:
			n, ok := j.(json.Number)
			if !ok || string(n) != strconv.Itoa(int(code)) {
				return fmt.Errorf("%s: is %s, want %v", path, short(j), code)
			}
		}
		return nil
	}
	switch v.Kind() {
	case reflect.Bool:
		if j != v.Bool() {
			return bad()
		}
	case reflect.String:
		if j != v.String() {
			return bad()
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		n, ok := j.(json.Number)
		if !ok {
			return bad()
		}
		i, err := strconv.ParseInt(string(n), 10, 64)
		if err != nil || i != v.Int() {
			return bad()
		}
	case reflect.Float64:
		n, ok := j.(json.Number)
		if !ok {
			return bad()
		}
		x, err := strconv.ParseFloat(string(n), 64)
		if err != nil || x != v.Float() {
			return bad()
		}
	case reflect.Slice, reflect.Array:
		a, ok := j.([]any)
		if !ok || len(a) != v.Len() {
			return bad()
		}
		for i := range a {
			if err := c.value(path+"/"+strconv.Itoa(i), v.Index(i), a[i]); err != nil {
				return err
			}
		}
	case reflect.Map:
		o, ok := j.(*jobj)
		if !ok || len(o.m) != v.Len() {
			return bad()
		}
		for _, k := range v.MapKeys() {
			jv, ok := o.m[k.String()]
			if !ok {
				return fmt.Errorf("%s: member %q is missing", path, k.String())
			}
			if err := c.value(path+"/"+k.String(), v.MapIndex(k), jv); err != nil {
				return err
			}
		}
	case reflect.Pointer:
		if v.IsNil() {
			return fmt.Errorf("%s: harness: nil pointer", path)
		}
		return c.value(path, v.Elem(), j)
	case reflect.Struct:
		return c.structJSON(t.Name(), path, v, j)
	default:
		return fmt.Errorf("%s: harness: kind %v", path, v.Kind())
	}
	return nil
}

func (c *jsonCheck) ext(path string, v any, j any) error {
	switch v := v.(type) {
	case json.RawMessage:
		want, err := parseJSON(v)
		if err != nil {
			return fmt.Errorf("%s: harness: %v", path, err)
		}
		if !jsonExact(want, j) {
			return fmt.Errorf("%s: is %s, want %s", path, short(j), clip(v, 200))
		}
		return nil
	case lightspunctual.Lights:
		o, ok := j.(*jobj)
		if !ok {
			return fmt.Errorf("%s: is %s, want an object with lights", path, short(j))
		}
		for k := range o.m {
			if k != "lights" {
				return fmt.Errorf("%s: member %q is not a property of the extension", path, k)
			}
		}
		if len(v) == 0 && o.m["lights"] == nil {
			if _, present := o.m["lights"]; present {
				return fmt.Errorf("%s: lights is null", path)
			}
			return nil
		}
		return c.value(path+"/lights", reflect.ValueOf(v), o.m["lights"])
	case *lightspunctual.Lights:
		return c.ext(path, *v, j)
	case lightspunctual.LightIndex:
		o, ok := j.(*jobj)
		if !ok || len(o.m) != 1 || o.m["light"] != json.Number(strconv.Itoa(int(v))) {
			return fmt.Errorf("%s: is %s, want {\"light\": %d}", path, short(j), int(v))
		}
		return nil
	case *specular.PBRSpecularGlossiness:
		return c.structJSON("PBRSpecularGlossiness", path, reflect.ValueOf(v).Elem(), j)
	case *texturetransform.TextureTranform:
		return c.structJSON("TextureTranform", path, reflect.ValueOf(v).Elem(), j)
	case *unlit.Unlit:
		return c.ext(path, *v, j)
	case unlit.Unlit:
		o, ok := j.(*jobj)
		if !ok || len(o.m) != len(v) {
			return fmt.Errorf("%s: is %s, want %v", path, short(j), v)
		}
		for k, x := range v {
			if err := c.ext(path+"/"+k, x, o.m[k]); err != nil {
				return err
			}
		}
		return nil
	}
	want, err := goToTree(v)
	if err != nil {
		return fmt.Errorf("%s: harness: %v", path, err)
	}
	if !jsonEqual(want, j) {
		return fmt.Errorf("%s: is %s, want %s", path, short(j), short(want))
	}
	return nil
}

// ---- reference writer: document to glTF JSON text ------------------------

// refWriter writes documents as glTF JSON with the member order, the white
// space, the number and string notation and the presence of default values
// chosen at random.
type refWriter struct {
	g        *gen // source of randomness, nil: canonical
	Unknown  bool // add members that glTF does not define
	Explicit int  // 0 leave defaults out, 1 at random, 2 write them
	binary   bool
	ws       bool
	intForm  func(n int64) string // how the integers of glTF properties are written
}

func (w *refWriter) integer(n int64) json.Number {
	if w.intForm != nil {
		return json.Number(w.intForm(n))
	}
	return json.Number(strconv.FormatInt(n, 10))
}

type rawNode []byte // verbatim JSON text

type member struct {
	k string
	v any
}
type members []member

func (w *refWriter) document(doc *gltf.Document) []byte {
	var b bytes.Buffer
	w.write(&b, w.tree("Document", "", reflect.ValueOf(doc).Elem()))
	return b.Bytes()
}

func (w *refWriter) coin() bool {
	switch w.Explicit {
	case 0:
		return false
	case 2:
		return true
	}
	return w.g.r.IntN(2) == 0
}

func (w *refWriter) tree(typ, path string, v reflect.Value) members {
	var ms members
	if typ == "Camera" {
		if !v.FieldByName("Perspective").IsNil() {
			ms = append(ms, member{"type", "perspective"})
		} else {
			ms = append(ms, member{"type", "orthographic"})
		}
	}
	for _, f := range specTable[typ] {
		fv := v.FieldByName(f.Go)
		key := typ + "." + f.Go
		switch {
		case f.Go == "Extensions":
			if fv.Len() > 0 {
				var es members
				for _, k := range sortedKeys(fv) {
					es = append(es, member{k.String(), w.ext(fv.MapIndex(k).Interface())})
				}
				ms = append(ms, member{f.JSON, es})
			}
			continue
		case f.Go == "Extras":
			if !fv.IsNil() {
				ms = append(ms, member{f.JSON, w.any(fv.Interface())})
			}
			continue
		case key == "Buffer.URI":
			uri := fv.String()
			data := v.FieldByName("Data").Bytes()
			if uri == "" && len(data) > 0 && !(w.binary && path == "/buffers/0") || len(data) > 0 && strings.HasPrefix(uri, octet+",") {
				uri = octet + "," + base64.StdEncoding.EncodeToString(data)
			}
			if uri != "" {
				ms = append(ms, member{f.JSON, uri})
			}
			continue
		}
		if d, ok := valueDefaults[key]; ok && (fv.IsZero() || reflect.DeepEqual(fv.Interface(), d)) {
			if f.P == req && w.Explicit == 0 || w.coin() {
				ms = append(ms, member{f.JSON, w.value("", reflect.ValueOf(d))})
			}
			continue
		}
		if fv.Kind() == reflect.Pointer {
			d, hasDefault := ptrDefaults[key]
			if hasDefault && (fv.IsNil() || reflect.DeepEqual(fv.Elem().Interface(), d)) {
				if d != inf && w.coin() {
					ms = append(ms, member{f.JSON, w.value("", reflect.ValueOf(d))})
				}
				continue
			}
			if !fv.IsNil() {
				ms = append(ms, member{f.JSON, w.value(path+"/"+f.JSON, fv.Elem())})
			}
			continue
		}
		if f.P != req {
			if isEnum(fv.Type()) {
				if none, ok := enumNone[fv.Type().Name()]; ok && fv.Interface() == none {
					continue
				}
				if d, ok := enumDefault[fv.Type().Name()]; ok && fv.Interface() == d && !w.coin() {
					continue
				}
			} else if isEmpty(fv) {
				if f.P == omit || fv.Kind() == reflect.Slice || fv.Kind() == reflect.Map || !w.coin() {
					continue
				}
			}
		}
		ms = append(ms, member{f.JSON, w.value(path+"/"+f.JSON, fv)})
	}
	if w.g != nil {
		if w.Unknown && w.g.r.IntN(3) == 0 {
			for k := 1 + w.g.r.IntN(2); k > 0; k-- {
				ms = append(ms, member{fmt.Sprintf("x_%s%d", w.g.word(), k), w.any(w.g.json(2))})
			}
		}
		w.g.r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	}
	return ms
}

func sortedKeys(m reflect.Value) []reflect.Value {
	ks := m.MapKeys()
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	return ks
}

func (w *refWriter) value(path string, v reflect.Value) any {
	t := v.Type()
	if isEnum(t) {
		code, ok := enumCode(v)
		if !ok {
			infra("no code for %v", v.Interface())
		}
		if f, ok := code.(float64); ok {
			return w.integer(int64(f))
		}
		return code
	}
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int64:
		return w.integer(v.Int())
	case reflect.Float64:
		return w.float(v.Float())
	case reflect.Slice, reflect.Array:
		out := make([]any, v.Len())
		for i := range out {
			out[i] = w.value(path+"/"+strconv.Itoa(i), v.Index(i))
		}
		return out
	case reflect.Map:
		var ms members
		for _, k := range sortedKeys(v) {
			ms = append(ms, member{k.String(), w.value("", v.MapIndex(k))})
		}
		if w.g != nil {
			w.g.r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		}
		return ms
	case reflect.Pointer:
		return w.value(path, v.Elem())
	case reflect.Struct:
		return w.tree(t.Name(), path, v)
	}
	infra("refWriter: kind %v", v.Kind())
	return nil
}

func (w *refWriter) float(x float64) json.Number {
	f := byte('g')
	if w.g != nil {
		f = "gef"[w.g.r.IntN(3)]
		if f == 'f' && math.Abs(x) > 1e15 {
			f = 'e'
		}
		if x == math.Trunc(x) && math.Abs(x) < 1e6 && w.g.r.IntN(3) == 0 {
			return json.Number(strconv.FormatFloat(x, 'f', 2, 64))
		}
		if f == 'e' && w.g.r.IntN(2) == 0 {
			f = 'E'
		}
	}
	return json.Number(strconv.FormatFloat(x, f, -1, 64))
}

func (w *refWriter) ext(v any) any {
	switch v := v.(type) {
	case json.RawMessage:
		return rawNode(v)
	case lightspunctual.Lights:
		return members{{"lights", w.value("", reflect.ValueOf(v))}}
	case lightspunctual.LightIndex:
		return members{{"light", json.Number(strconv.Itoa(int(v)))}}
	case *specular.PBRSpecularGlossiness:
		return w.tree("PBRSpecularGlossiness", "", reflect.ValueOf(v).Elem())
	case *texturetransform.TextureTranform:
		return w.tree("TextureTranform", "", reflect.ValueOf(v).Elem())
	case *unlit.Unlit:
		var ms members
		for _, k := range sortedKeys(reflect.ValueOf(*v)) {
			ms = append(ms, member{k.String(), w.ext((*v)[k.String()])})
		}
		return ms
	}
	return w.any(v)
}

func (w *refWriter) any(v any) any {
	switch v := v.(type) {
	case nil, bool, string:
		return v
	case float64:
		return w.float(v)
	case int:
		return json.Number(strconv.Itoa(v))
	case json.Number:
		return v
	case json.RawMessage:
		return rawNode(v)
	case []any:
		out := make([]any, len(v))
		for i := range v {
			out[i] = w.any(v[i])
		}
		return out
	case map[string]any:
		var ms members
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			ms = append(ms, member{k, w.any(v[k])})
		}
		return ms
	}
	b, err := json.Marshal(v)
	if err != nil {
		infra("refWriter: %v", err)
	}
	return rawNode(b)
}

func (w *refWriter) space(b *bytes.Buffer) {
	if w.g == nil || !w.ws {
		return
	}
	for w.g.r.IntN(3) == 0 {
		b.WriteByte(" \n\t\r"[w.g.r.IntN(4)])
	}
}

func (w *refWriter) write(b *bytes.Buffer, v any) {
	w.space(b)
	switch v := v.(type) {
	case members:
		b.WriteByte('{')
		for i, m := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			w.space(b)
			w.str(b, m.k)
			w.space(b)
			b.WriteByte(':')
			w.write(b, m.v)
		}
		w.space(b)
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i, x := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			w.write(b, x)
		}
		w.space(b)
		b.WriteByte(']')
	case rawNode:
		b.Write(v)
	case json.Number:
		b.WriteString(string(v))
	case string:
		w.str(b, v)
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case nil:
		b.WriteString("null")
	default:
		infra("refWriter: %T", v)
	}
	w.space(b)
}

func (w *refWriter) str(b *bytes.Buffer, s string) {
	b.WriteByte('"')
	for _, r := range s {
		esc := w.g != nil && len(s) < 200 && w.g.r.IntN(20) == 0
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n' && !esc:
			b.WriteString(`\n`)
		case r == '/' && esc:
			b.WriteString(`\/`)
		case r < 0x20 || esc:
			if r >= 0x10000 {
				hi, lo := utf16.EncodeRune(r)
				fmt.Fprintf(b, `\u%04x\u%04X`, hi, lo)
			} else {
				fmt.Fprintf(b, `\u%04x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

// ---- equality of documents ------------------------------------------------

// docDiff compares two documents. Values that mean the default are equal to
// the default, nil and empty collections are equal, -0 equals 0.
type docDiff struct {
	// URI compares the URIs (and data) of two buffers; nil: equal strings.
	URI func(a, b *gltf.Buffer) error
	// ImageURI compares the URI of two images; nil: equal strings.
	ImageURI func(a, b string) error
	NoData   bool
}

func (d *docDiff) diff(a, b *gltf.Document) error {
	return d.structs("Document", "", reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem())
}

func norm(key string, v reflect.Value) reflect.Value {
	if d, ok := valueDefaults[key]; ok && v.IsZero() {
		return reflect.ValueOf(d)
	}
	if d, ok := ptrDefaults[key]; ok && v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return reflect.ValueOf(d)
		}
		return v.Elem()
	}
	return v
}

func (d *docDiff) structs(typ, path string, a, b reflect.Value) error {
	t := a.Type()
	for i := 0; i < t.NumField(); i++ {
		if !t.Field(i).IsExported() {
			continue
		}
		name := t.Field(i).Name
		p := path + "/" + name
		key := typ + "." + name
		fa, fb := norm(key, a.Field(i)), norm(key, b.Field(i))
		var err error
		switch {
		case name == "Extensions":
			err = d.exts(p, fa, fb)
		case name == "Extras":
			err = d.extras(p, fa.Interface(), fb.Interface())
		case key == "Buffer.URI":
			if d.URI != nil {
				x, y := a.Addr().Interface().(*gltf.Buffer), b.Addr().Interface().(*gltf.Buffer)
				if e := d.URI(x, y); e != nil {
					err = fmt.Errorf("%s: %v", p, e)
				}
			} else {
				err = d.value(p, fa, fb)
			}
		case key == "Buffer.Data":
			if !d.NoData && !bytes.Equal(fa.Bytes(), fb.Bytes()) {
				err = fmt.Errorf("%s: %d bytes differ from %d bytes (%x / %x)", p, fa.Len(), fb.Len(), clip(fa.Bytes(), 40), clip(fb.Bytes(), 40))
			}
		case key == "Image.URI" && d.ImageURI != nil:
			if e := d.ImageURI(fa.String(), fb.String()); e != nil {
				err = fmt.Errorf("%s: %v", p, e)
			}
		default:
			err = d.value(p, fa, fb)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func (d *docDiff) value(path string, a, b reflect.Value) error {
	if a.Type() != b.Type() {
		return fmt.Errorf("%s: type %v differs from %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() != b.IsNil() {
			return fmt.Errorf("%s: nil=%v differs from nil=%v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return nil
		}
		return d.value(path, a.Elem(), b.Elem())
	case reflect.Struct:
		return d.structs(a.Type().Name(), path, a, b)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: length %d differs from %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := d.value(path+"/"+strconv.Itoa(i), a.Index(i), b.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: %d members differ from %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Errorf("%s: member %v is missing", path, k)
			}
			if err := d.value(path+"/"+k.String(), a.MapIndex(k), y); err != nil {
				return err
			}
		}
		return nil
	case reflect.Interface:
		return d.extras(path, a.Interface(), b.Interface())
	default:
		if a.Interface() != b.Interface() {
			return fmt.Errorf("%s: %v differs from %v", path, a.Interface(), b.Interface())
		}
		return nil
	}
}

func (d *docDiff) extras(path string, a, b any) error {
	if reflect.DeepEqual(a, b) {
		return nil
	}
	x, err1 := goToTree(a)
	y, err2 := goToTree(b)
	if err1 != nil || err2 != nil || !jsonEqual(x, y) {
		return fmt.Errorf("%s: %s differs from %s", path, short(a), short(b))
	}
	return nil
}

func (d *docDiff) exts(path string, a, b reflect.Value) error {
	if a.Len() != b.Len() {
		return fmt.Errorf("%s: %d extensions differ from %d", path, a.Len(), b.Len())
	}
	for _, k := range a.MapKeys() {
		y := b.MapIndex(k)
		if !y.IsValid() {
			return fmt.Errorf("%s: extension %q is missing", path, k.String())
		}
		if err := d.ext(path+"/"+k.String(), a.MapIndex(k).Interface(), y.Interface()); err != nil {
			return err
		}
	}
	return nil
}

func (d *docDiff) ext(path string, x, y any) error {
	tx, ty := reflect.TypeOf(x), reflect.TypeOf(y)
	if tx == ty && tx != nil {
		switch xv := x.(type) {
		case lightspunctual.Lights, lightspunctual.LightIndex, *specular.PBRSpecularGlossiness, *texturetransform.TextureTranform:
			return d.value(path, reflect.ValueOf(x), reflect.ValueOf(y))
		case *unlit.Unlit:
			return d.exts(path, reflect.ValueOf(*xv), reflect.ValueOf(*(y.(*unlit.Unlit))))
		}
	}
	a, err := goToTree(x)
	if err != nil {
		return fmt.Errorf("%s: %v", path, err)
	}
	b, err := goToTree(y)
	if err != nil {
		return fmt.Errorf("%s: %v", path, err)
	}
	same := jsonEqual
	if _, raw := y.(json.RawMessage); raw {
		same = jsonExact
	}
	if !same(a, b) {
		return fmt.Errorf("%s: %s differs from %s", path, short(a), short(b))
	}
	return nil
}
