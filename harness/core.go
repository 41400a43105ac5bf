package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Family is a deterministic, indexed list of cases: case i of a family is a
// function of (seed, property, family name, i) only, so any case can be
// replayed alone.
type Family struct {
	Name            string
	Quick, Thorough int  // number of cases per tier
	Seq             bool // run on one goroutine (memory measurements, histories on global state)
	Race            bool // (also) run in the race-detector build
	RaceOnly        bool
	Fixed           bool // the number of cases is part of the case list
	RaceQuick       int  // number of cases in the race build (0: same as plain)
	RaceThorough    int
	Run             func(t *T)
}

// Prop is the monitor of one property.
type Prop struct {
	ID       string
	Level    string
	Rule     string   // how cases are made, what makes one non-trivial
	Assume   []string // assumptions
	Families []Family
	Need     map[string]int // events that must have been observed at least n times (quick tier), else inconclusive
	QuickMul int            // factor for the quick numbers of cases
	DeepMul  int            // factor for the thorough numbers of cases
	MinKeys  int            // distinct non-trivial cases required
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Stats are the observations of one worker.
type Stats struct {
	mu         sync.Mutex
	Cases      int64
	Evals      int64
	keys       map[uint64]struct{}
	Events     map[string]int64
	Samples    []string
	sampleFrom map[string]int
	Violations []Violation
	Findings   map[string]string
	stop       atomic.Bool
}

type Violation struct {
	Prop, Family string
	Case         int
	Seed         uint64
	Tier         string
	Race         bool
	Msg          string
	Witness      map[string]string
	Replay       string
}

// T is one case.
type T struct {
	R       *rand.Rand
	I       int
	Fam     string
	Prop    string
	Tier    string
	st      *Stats
	witness map[string]string
	evals   int64
	events  map[string]int64
	keys    []uint64
	scratch string
	contain func() // ends the containment of the case
	cleanup []func()
	root    string
}

type failure struct{ msg string }

// Failf reports a violation of the property and ends the case.
func (t *T) Failf(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Note records a part of the witness, shown if the case fails.
func (t *T) Note(k string, v any) {
	s, ok := v.(string)
	if !ok {
		if b, ok := v.([]byte); ok {
			s = fmt.Sprintf("%q", clip(b, 2000))
		} else {
			s = fmt.Sprintf("%+v", v)
		}
	}
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	t.witness[k] = s
}

// NoteF is Note with a lazily formatted value; it is only evaluated on failure.
func (t *T) Eval(n int) { t.evals += int64(n) }

// Key marks the case as non-trivial and distinct under the given key.
func (t *T) Key(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, t.Fam)
	for _, p := range parts {
		fmt.Fprint(h, "|")
		switch p := p.(type) {
		case []byte:
			h.Write(p)
		case string:
			h.Write([]byte(p))
		default:
			fmt.Fprint(h, p)
		}
	}
	t.keys = append(t.keys, h.Sum64())
}

// Hit counts an observed event.
func (t *T) Hit(ev string) { t.events[ev]++ }

func (t *T) HitN(ev string, n int) { t.events[ev] += int64(n) }

// Sample keeps a few cases written out for the evidence file.
func (t *T) Sample(f func() string) {
	t.st.mu.Lock()
	n := t.st.sampleFrom[t.Fam]
	ok := n < 3
	if ok {
		t.st.sampleFrom[t.Fam]++
	}
	t.st.mu.Unlock()
	if ok {
		s := f()
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		t.st.mu.Lock()
		t.st.Samples = append(t.st.Samples, fmt.Sprintf("%s[%d]: %s", t.Fam, t.I, s))
		t.st.mu.Unlock()
	}
}

// Finding reports a divergence that is a known, recorded finding. If it is not
// listed in the known findings file it is a violation.
func (t *T) Finding(key, what string) {
	if line, ok := knownFindings[t.Prop+" "+key]; ok {
		t.st.mu.Lock()
		t.st.Findings[key] = line
		t.st.mu.Unlock()
		return
	}
	t.Failf("%s: %s", key, what)
}

// Scratch returns a private directory, removed when the case ends.
func (t *T) Scratch() string {
	if t.scratch == "" {
		d, err := os.MkdirTemp(t.root, "case")
		if err != nil {
			infra("scratch: %v", err)
		}
		t.scratch = d
		// Give it to nobody and go on as nobody.
		if os.Getuid() == 0 {
			os.Chown(d, nobody, nobody)
		}
		t.contain = asNobody(t.root)
	}
	return t.scratch
}

// infra reports a problem of the machinery itself: neither held nor violated.
func infra(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "INFRA: "+format+"\n", args...)
	os.Exit(3)
}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func caseSeed(seed uint64, prop, fam string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, fam, i)
	return int64(mix(h.Sum64()))
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

// slots: one per goroutine, in a shared file so that the parent knows what a
// dead or stuck worker was doing.
const slotSize = 16
const maxSlots = 64

type slots struct{ b []byte }

func openSlots(path string) (*slots, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(slotSize * maxSlots); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &slots{b}, nil
}

func (s *slots) set(g, fam, idx int, seq uint64) {
	if s == nil || g >= maxSlots {
		return
	}
	b := s.b[g*slotSize:]
	binary.LittleEndian.PutUint32(b, uint32(fam+1))
	binary.LittleEndian.PutUint32(b[4:], uint32(idx))
	binary.LittleEndian.PutUint64(b[8:], seq)
}

func (s *slots) clear(g int) {
	if s == nil || g >= maxSlots {
		return
	}
	binary.LittleEndian.PutUint32(s.b[g*slotSize:], 0)
}

type slotState struct {
	G, Fam, Idx int
	Seq         uint64
}

func (s *slots) read() []slotState {
	var out []slotState
	for g := 0; g < maxSlots; g++ {
		b := s.b[g*slotSize:]
		if f := binary.LittleEndian.Uint32(b); f != 0 {
			out = append(out, slotState{g, int(f - 1), int(binary.LittleEndian.Uint32(b[4:])), binary.LittleEndian.Uint64(b[8:])})
		}
	}
	return out
}

type runOpts struct {
	seed   uint64
	tier   string
	race   bool
	only   string // family:index
	par    int
	slot   string
	result string
	root   string
}

func runCase(p *Prop, f *Family, i int, o *runOpts, st *Stats) {
	t := &T{
		R: rand.New(rand.NewPCG(uint64(caseSeed(o.seed, p.ID, f.Name, i)), uint64(i)+1)), I: i, Fam: f.Name, Prop: p.ID, Tier: o.tier,
		st: st, witness: map[string]string{}, events: map[string]int64{}, evals: 0, root: o.root,
	}
	var v *Violation
	start := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := ""
				if fl, ok := r.(failure); ok {
					msg = fl.msg
				} else {
					stack := string(debug.Stack())
					msg = fmt.Sprintf("panic: %v", r)
					t.Note("stack", stack)
				}
				v = &Violation{Prop: p.ID, Family: f.Name, Case: i, Seed: o.seed, Tier: o.tier, Race: o.race, Msg: msg, Witness: t.witness}
			}
		}()
		f.Run(t)
	}()
	if log := os.Getenv("VERIF_SLOW"); log != "" && time.Since(start) > 300*time.Millisecond { // for tuning the workloads
		if w, err := os.OpenFile(log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o666); err == nil {
			fmt.Fprintf(w, "%s %s[%d] race=%v seed=%d %v\n", p.ID, f.Name, i, o.race, o.seed, time.Since(start))
			w.Close()
		}
	}
	for i := len(t.cleanup) - 1; i >= 0; i-- {
		t.cleanup[i]()
	}
	if t.scratch != "" {
		t.contain()
		os.RemoveAll(t.scratch)
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	st.Cases++
	if t.evals == 0 {
		t.evals = 1
	}
	st.Evals += t.evals
	for k, n := range t.events {
		st.Events[k] += n
	}
	for _, k := range t.keys {
		st.keys[k] = struct{}{}
	}
	if v != nil {
		st.Violations = append(st.Violations, *v)
		if len(st.Violations) >= 10 {
			st.stop.Store(true)
		}
	}
}

// famCount returns how many cases of the family this build runs.
func famCount(p *Prop, f *Family, tier string, race bool) int {
	if race {
		if !f.Race && !f.RaceOnly {
			return 0
		}
		n := f.RaceQuick
		if tier == "thorough" {
			n = f.RaceThorough
		}
		if n > 0 {
			return n
		}
	} else if f.RaceOnly {
		return 0
	}
	deep := f.Thorough
	if m := p.DeepMul; m > 1 && !f.Fixed && !race && !f.Seq && f.Thorough > f.Quick { // else enumerated
		deep *= m
	}
	if tier == "thorough" {
		return deep
	}
	if m := p.QuickMul; m > 1 && !f.Fixed && !race && !f.Seq {
		return max(f.Quick, min(f.Quick*m, deep))
	}
	return f.Quick
}

type workerResult struct {
	Cases, Evals int64
	Keys         []uint64
	Events       map[string]int64
	Samples      []string
	Violations   []Violation
	Findings     map[string]string
}

func work(p *Prop, o *runOpts) *workerResult {
	st := &Stats{keys: map[uint64]struct{}{}, Events: map[string]int64{}, sampleFrom: map[string]int{}, Findings: map[string]string{}}
	if o.only != "" {
		i := strings.LastIndex(o.only, ":")
		name := o.only[:i]
		var idx int
		fmt.Sscan(o.only[i+1:], &idx)
		for k := range p.Families {
			if p.Families[k].Name == name {
				runCase(p, &p.Families[k], idx, o, st)
			}
		}
	} else {
		var sl *slots
		if o.slot != "" {
			var err error
			if sl, err = openSlots(o.slot); err != nil {
				infra("slots: %v", err)
			}
		}
		for k := range p.Families {
			f := &p.Families[k]
			n := famCount(p, f, o.tier, o.race)
			par := o.par
			if f.Seq {
				par = 1
				runtime.GC()
			}
			if n < par {
				par = n
			}
			var next int64 = -1
			var wg sync.WaitGroup
			for g := 0; g < par; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					defer sl.clear(g)
					for !st.stop.Load() {
						i := int(atomic.AddInt64(&next, 1))
						if i >= n {
							return
						}
						sl.set(g, k, i, uint64(i)+1)
						runCase(p, f, i, o, st)
					}
				}(g)
			}
			wg.Wait()
		}
	}
	res := &workerResult{Cases: st.Cases, Evals: st.Evals, Events: st.Events, Samples: st.Samples, Violations: st.Violations, Findings: st.Findings}
	for k := range st.keys {
		res.Keys = append(res.Keys, k)
	}
	sort.Slice(res.Violations, func(i, j int) bool {
		a, b := res.Violations[i], res.Violations[j]
		return a.Family < b.Family || a.Family == b.Family && a.Case < b.Case
	})
	return res
}

// known findings: lines "finding: property=C16 key=<key> <what fails>" and
// "fixed: property=..." (informative) in /verif/known_findings.txt.
var knownFindings = map[string]string{}

func loadKnownFindings(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var prop, key string
		for _, w := range strings.Fields(l) {
			if s, ok := strings.CutPrefix(w, "property="); ok {
				prop = s
			}
			if s, ok := strings.CutPrefix(w, "key="); ok {
				key = s
			}
		}
		knownFindings[prop+" "+key] = strings.TrimPrefix(l, "finding: ")
	}
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}
