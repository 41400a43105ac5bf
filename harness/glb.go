package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/qmuntal/gltf"
)

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// ---- GLB container ---------------------------------------------------------

const (
	magicGLTF = 0x46546C67
	chunkJSON = 0x4E4F534A
	chunkBIN  = 0x004E4942
)

type chunk struct {
	typ  uint32
	data []byte
}

func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }

func pad(b []byte, fill byte, to int) []byte {
	out := append([]byte{}, b...)
	for len(out)%to != 0 {
		out = append(out, fill)
	}
	return out
}

// buildGLB assembles a container from chunks as they are.
func buildGLB(chunks ...chunk) []byte {
	total := 12
	for _, c := range chunks {
		total += 8 + len(c.data)
	}
	b := append(append(le32(magicGLTF), le32(2)...), le32(uint32(total))...)
	for _, c := range chunks {
		b = append(append(append(b, le32(uint32(len(c.data)))...), le32(c.typ)...), c.data...)
	}
	return b
}

func simpleGLB(text, bin []byte) []byte {
	cs := []chunk{{chunkJSON, pad(text, ' ', 4)}}
	if bin != nil {
		cs = append(cs, chunk{chunkBIN, pad(bin, 0, 4)})
	}
	return buildGLB(cs...)
}

// parseGLB is a strict reader of GLB containers.
func parseGLB(b []byte) ([]chunk, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("%d bytes are not a GLB", len(b))
	}
	u := func(o int) uint32 { return binary.LittleEndian.Uint32(b[o:]) }
	if u(0) != magicGLTF {
		return nil, fmt.Errorf("magic is %#x", u(0))
	}
	if u(4) != 2 {
		return nil, fmt.Errorf("version is %d", u(4))
	}
	if int64(u(8)) != int64(len(b)) {
		return nil, fmt.Errorf("header length is %d but %d bytes were written", u(8), len(b))
	}
	var cs []chunk
	for o := 12; o < len(b); {
		if len(b)-o < 8 {
			return nil, fmt.Errorf("%d stray bytes at offset %d", len(b)-o, o)
		}
		n, t := int(u(o)), u(o+4)
		if n%4 != 0 {
			return nil, fmt.Errorf("chunk length %d is not a multiple of 4", n)
		}
		if n > len(b)-o-8 {
			return nil, fmt.Errorf("chunk of %d bytes at offset %d, %d are left", n, o, len(b)-o-8)
		}
		cs = append(cs, chunk{t, b[o+8 : o+8+n]})
		o += 8 + n
	}
	return cs, nil
}

// ---- file system stand-in --------------------------------------------------

// memFS records the names it is asked for and never touches a disk.
type memFS struct {
	mu      sync.Mutex
	files   map[string][]byte
	opened  []string
	created []string
	open    int            // files created and not closed
	closes  map[int]int    // close calls per created file
	failAt  map[string]int // operation kind -> index of the operation to fail (0 based), -1 all
	counts  map[string]int
	short   bool  // a failing write takes part of the data
	lax     bool  // accept any name
	err     error // what a failing operation returns
	reading int   // files opened and not closed
}

var errInjected = errors.New("injected fault")

func newMemFS() *memFS {
	return &memFS{files: map[string][]byte{}, closes: map[int]int{}, failAt: map[string]int{}, counts: map[string]int{}, err: errInjected}
}

func (m *memFS) fault(kind string) bool {
	n := m.counts[kind]
	m.counts[kind]++
	at, ok := m.failAt[kind]
	return ok && (at == n || at == -1)
}

func (m *memFS) Open(name string) (fs.File, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.opened = append(m.opened, name)
	if !m.lax && !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	if m.fault("open") {
		return nil, m.fail("open", name)
	}
	b, ok := m.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	m.reading++
	f := &memFile{name: name, r: bytes.NewReader(b), size: int64(len(b)), m: m}
	// Files deliver their bytes in pieces, and their end with or after the last one.
	h := len(b)*7 + int(b2u(b))
	for i := 0; i < len(name); i++ {
		h = h*31 + int(name[i])
	}
	h &= 0xffff
	f.piece = []int{0, 0, 1, 3, 7, 100}[h%6]
	if f.piece > 0 && len(b)/f.piece > 64 {
		f.piece = len(b)/64 + 1
	}
	f.eofWith = h/6%2 == 0
	return f, nil
}

func b2u(b []byte) byte {
	if len(b) == 0 {
		return 0
	}
	return b[len(b)/2]
}

// fail is the error of a failing operation on a name.
func (m *memFS) fail(op, name string) error {
	if m.err == errInjected {
		return &fs.PathError{Op: op, Path: name, Err: m.err}
	}
	return m.err
}

type memFile struct {
	name string
	r    *bytes.Reader
	size int64
	m    *memFS

	piece   int // bytes per read, 0 all
	eofWith bool
	closed  bool
}

func (f *memFile) Stat() (fs.FileInfo, error) { return f, nil }
func (f *memFile) Read(p []byte) (int, error) {
	f.m.mu.Lock()
	bad, closed := f.m.fault("read"), f.closed
	f.m.mu.Unlock()
	if closed {
		return 0, fs.ErrClosed
	}
	if bad {
		return 0, f.m.err
	}
	if f.piece > 0 && len(p) > f.piece {
		p = p[:f.piece]
	}
	n, err := f.r.Read(p)
	if err == nil && f.eofWith && f.r.Len() == 0 {
		err = io.EOF
	}
	return n, err
}

func (f *memFile) Close() error {
	f.m.mu.Lock()
	defer f.m.mu.Unlock()
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	f.m.reading--
	return nil
}
func (f *memFile) Name() string       { return path.Base(f.name) }
func (f *memFile) Size() int64        { return f.size }
func (f *memFile) Mode() fs.FileMode  { return 0o644 }
func (f *memFile) ModTime() time.Time { return time.Time{} }
func (f *memFile) IsDir() bool        { return false }
func (f *memFile) Sys() any           { return nil }

func (m *memFS) Create(name string) (io.WriteCloser, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.created = append(m.created, name)
	if m.fault("create") {
		return nil, m.fail("create", name)
	}
	m.files[name] = nil
	m.open++
	return &memWriter{m: m, name: name, id: len(m.created) - 1}, nil
}

type memWriter struct {
	m    *memFS
	name string
	id   int
}

func (w *memWriter) Write(p []byte) (int, error) {
	w.m.mu.Lock()
	defer w.m.mu.Unlock()
	if w.m.closes[w.id] > 0 {
		return 0, fs.ErrClosed
	}
	if w.m.fault("filewrite") {
		n := 0
		if w.m.short {
			n = len(p) / 2
			w.m.files[w.name] = append(w.m.files[w.name], p[:n]...)
		}
		return n, w.m.err
	}
	w.m.files[w.name] = append(w.m.files[w.name], p...)
	return len(p), nil
}

func (w *memWriter) Close() error {
	w.m.mu.Lock()
	defer w.m.mu.Unlock()
	w.m.closes[w.id]++
	if w.m.closes[w.id] == 1 {
		w.m.open--
	}
	if w.m.fault("close") {
		return w.m.err
	}
	return nil
}

func (m *memFS) names() []string {
	var out []string
	for k := range m.files {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- writers and readers -----------------------------------------------------

// ioErrors are the errors that injected faults return.
var ioErrors = []error{errInjected, fs.ErrExist, fs.ErrNotExist, fs.ErrPermission, fs.ErrClosed, fs.ErrInvalid, io.ErrShortWrite, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrNoProgress, io.EOF, os.ErrDeadlineExceeded, context.Canceled, syscall.ENOSPC, syscall.EPIPE, &fs.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}, fmt.Errorf("wrapped: %w", io.EOF), errors.New("EOF"), errors.New("")}

// readErrors are those that a read may return for good: io.EOF is the end.
var readErrors = []error{errRead, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, fs.ErrClosed, fs.ErrNotExist, os.ErrDeadlineExceeded, context.Canceled, syscall.EIO, fmt.Errorf("wrapped: %w", io.EOF), errors.New("EOF"), errors.New(""), bufio.ErrBufferFull, bufio.ErrNegativeCount}

// faultWriter fails its n-th write, after taking part of it when short is set.
type faultWriter struct {
	buf    bytes.Buffer
	n      int // fail the n-th write (0 based); <0: never
	after  int // or fail once this many bytes were written; <0: never
	count  int
	short  bool
	once   bool // the writes after the failure succeed
	failed bool
	later  int // writes after the failure
	err    error
}

func (w *faultWriter) fault() error {
	if w.err != nil {
		return w.err
	}
	return errInjected
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.later++
		if w.once {
			return w.buf.Write(p)
		}
		return 0, w.fault()
	}
	i := w.count
	w.count++
	if w.n >= 0 && i == w.n {
		w.failed = true
		k := 0
		if w.short && len(p) > 0 {
			k = len(p) / 2
		}
		w.buf.Write(p[:k])
		return k, w.fault()
	}
	if w.after >= 0 && w.buf.Len()+len(p) > w.after {
		w.failed = true
		k := w.after - w.buf.Len()
		w.buf.Write(p[:k])
		return k, w.fault()
	}
	return w.buf.Write(p)
}

// pieceReader delivers data in pieces whose sizes come from next; with
// eofWith the last piece comes together with io.EOF. After fail bytes a
// lasting error is returned (fail <0: never).
type pieceReader struct {
	data     []byte
	pos      int
	next     func(pos int) int
	eofWith  bool
	fail     int
	failWith bool // return the error together with the last bytes
	err      error
	reads    int
	zero     *rand.Rand // deliver 0, nil now and then
}

func (r *pieceReader) Read(p []byte) (int, error) {
	r.reads++
	if len(p) == 0 {
		return 0, nil
	}
	end := len(r.data)
	var last error = io.EOF
	if r.fail >= 0 && r.fail < end {
		end, last = r.fail, r.err
	}
	if r.pos >= end {
		return 0, last
	}
	if r.zero != nil && r.zero.IntN(4) == 0 && r.reads%8 != 0 {
		return 0, nil
	}
	n := r.next(r.pos)
	if n < 1 {
		n = 1
	}
	if n > len(p) {
		n = len(p)
	}
	if n > end-r.pos {
		n = end - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end && (last == io.EOF && r.eofWith || last != io.EOF && r.failWith) {
		return n, last
	}
	return n, nil
}

// ---- encoding helpers ------------------------------------------------------

type mode struct {
	binary         bool
	prefix, indent string
}

func (m mode) String() string {
	s := "json"
	if m.binary {
		s = "glb"
	}
	if m.indent != "" || m.prefix != "" {
		s += "-indent"
	}
	return s
}

var modes = []mode{{true, "", ""}, {false, "", ""}, {false, "", "  "}, {true, "", "\t"}, {false, " ", "\t"}}

// encode encodes doc with the library.
func encode(doc *gltf.Document, m mode, fsys gltf.CreateFS) ([]byte, error) {
	var b bytes.Buffer
	e := gltf.NewEncoder(&b)
	if fsys != nil {
		e = gltf.NewEncoderFS(&b, fsys)
	}
	e.AsBinary = m.binary
	if m.indent != "" || m.prefix != "" {
		e.SetJSONIndent(m.prefix, m.indent)
	}
	err := e.Encode(doc)
	return b.Bytes(), err
}

func decode(b []byte, fsys fs.FS) (*gltf.Document, error) {
	return decodeR(bytes.NewReader(b), fsys)
}

func decodeR(r io.Reader, fsys fs.FS) (*gltf.Document, error) {
	d := gltf.NewDecoder(r)
	if fsys != nil {
		d = gltf.NewDecoderFS(r, fsys)
	}
	doc := new(gltf.Document)
	if err := d.Decode(doc); err != nil {
		return nil, err
	}
	return doc, nil
}

// uriPath is the path that a relative URI denotes: slashes, no leading "./",
// no "/./", percent-decoded unless it has a scheme.
func uriPath(uri string) string {
	p := strings.ReplaceAll(uri, "\\", "/")
	p = strings.ReplaceAll(p, "/./", "/")
	p = strings.TrimPrefix(p, "./")
	if scheme(p) {
		return p
	}
	if d, ok := unpercent(p); ok {
		return d
	}
	return p
}

// filePath is the name of the file that a relative URI denotes.
func filePath(uri string) string { return path.Clean(uriPath(uri)) }

func scheme(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
		case (c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.') && i > 0:
		case c == ':' && i > 0:
			return true
		default:
			return false
		}
	}
	return false
}

func unpercent(s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			b.WriteByte(s[i])
			continue
		}
		if i+2 >= len(s) {
			return "", false
		}
		h, l := strings.IndexByte("0123456789abcdef", s[i+1]|0x20), strings.IndexByte("0123456789abcdef", s[i+2]|0x20)
		if s[i+1] < '0' || s[i+2] < '0' {
			return "", false
		}
		if s[i+1] <= '9' {
			h = int(s[i+1] - '0')
		}
		if s[i+2] <= '9' {
			l = int(s[i+2] - '0')
		}
		if h < 0 || l < 0 {
			return "", false
		}
		b.WriteByte(byte(h<<4 | l))
		i += 2
	}
	return b.String(), true
}

// bufferURIs compares the URIs of a buffer before and after a save and reload:
// a relative one may come back as the path it denotes, a buffer without URI
// may come back embedded and an embedded one embeds the current data.
func bufferURIs(a, b *gltf.Buffer) error {
	if a.URI == b.URI {
		return nil
	}
	if (a.URI == "" || strings.HasPrefix(a.URI, octet)) && b.URI == octet+","+b64(a.Data) {
		return nil
	}
	if a.URI != "" && !strings.HasPrefix(a.URI, octet) && uriPath(a.URI) == b.URI {
		return nil
	}
	return fmt.Errorf("%q differs from %q", a.URI, b.URI)
}

func saveDiff() *docDiff {
	return &docDiff{URI: bufferURIs, ImageURI: func(a, b string) error {
		if a == b || !strings.HasPrefix(a, "data:") && uriPath(a) == b {
			return nil
		}
		return fmt.Errorf("%q differs from %q", a, b)
	}}
}
