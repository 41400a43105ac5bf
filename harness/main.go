// Command runner executes the runtime monitors of one property against the
// gltf packages it was built with.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func main() {
	var (
		prop    = flag.String("prop", "", "property id")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Uint64("seed", 1, "seed")
		worker  = flag.Bool("worker", false, "internal: run cases in this process")
		race    = flag.Bool("race", false, "internal: this is the race build")
		only    = flag.String("only", "", "replay one case: family:index")
		slot    = flag.String("slot", "", "internal")
		result  = flag.String("result", "", "internal")
		raceBin = flag.String("racebin", "", "race-detector build of this program")
		verif   = flag.String("verif", "/verif", "directory of the framework")
		root    = flag.String("root", "", "scratch directory")
		repo    = flag.String("repo", "/repo", "repository under test (sample files only)")
		par     = flag.Int("par", 8, "parallelism")
		list    = flag.Bool("list", false, "list properties and whether they need the race build")
		cpu     = flag.Int("cpu", 0, "internal: CPU limit in seconds")
	)
	cold := flag.Uint64("cold", 0, "internal: a process of the cold family of C21")
	flag.Parse()
	repoDir = *repo
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			r := "plain"
			for _, f := range props[id].Families {
				if f.Race || f.RaceOnly {
					r = "race"
				}
			}
			fmt.Println(id, r, props[id].Level)
		}
		return
	}
	if *cold != 0 {
		coldMain(*cold, *root)
		return
	}
	p := props[*prop]
	if p == nil {
		infra("unknown property %q", *prop)
	}
	loadKnownFindings(filepath.Join(*verif, "known_findings.txt"))
	o := &runOpts{seed: *seed, tier: *tier, race: *race, only: *only, par: *par, slot: *slot, result: *result, root: *root}
	if *worker {
		if !*race {
			lim := syscall.Rlimit{Cur: 10 << 30, Max: 10 << 30}
			syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		}
		if *cpu > 0 {
			lim := syscall.Rlimit{Cur: uint64(*cpu), Max: uint64(*cpu) + 5}
			syscall.Setrlimit(syscall.RLIMIT_CPU, &lim)
		}
		res := work(p, o)
		if *result != "" {
			if err := writeJSON(*result, res); err != nil {
				infra("result: %v", err)
			}
		}
		return
	}
	if *only != "" { // replay
		o.par = 1
		res := work(p, o)
		for _, v := range res.Violations {
			b, _ := json.MarshalIndent(v, "", " ")
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", b, p.ID, *only)
		}
		if len(res.Violations) > 0 {
			os.Exit(1)
		}
		fmt.Println("case held")
		return
	}
	os.Exit(parent(p, o, *raceBin, *verif))
}

const (
	stuckWall = 90 * time.Second  // a case without progress for this long is examined alone
	aloneWall = 150 * time.Second // watchdog for a case run alone
	aloneCPU  = 60                // CPU seconds that a single case may use (cases take milliseconds)
)

type aggregate struct {
	workerResult
	keys         map[uint64]bool
	inconclusive []string
}

func parent(p *Prop, o *runOpts, raceBin, verif string) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "gltfverif-")
	if err != nil {
		infra("%v", err)
	}
	defer os.RemoveAll(tmp)
	agg := &aggregate{keys: map[uint64]bool{}}
	agg.Events = map[string]int64{}
	agg.Findings = map[string]string{}
	self, err := os.Executable()
	if err != nil {
		infra("%v", err)
	}
	for _, race := range []bool{false, true} {
		n := 0
		for i := range p.Families {
			n += famCount(p, &p.Families[i], o.tier, race)
		}
		if n == 0 {
			continue
		}
		bin := self
		if race {
			bin = raceBin
			if bin == "" {
				infra("property %s needs the race build", p.ID)
			}
		}
		oo := *o
		oo.race = race
		runWorker(p, &oo, bin, tmp, verif, agg)
	}
	wall := time.Since(start).Seconds()

	// Verdict.
	for _, v := range agg.Violations {
		_ = v
	}
	evidence(p, o, agg, verif, wall)
	keys := make([]string, 0)
	for k := range agg.Findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: %s\n", agg.Findings[k])
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %.1fs\n", p.ID, o.tier, o.seed, agg.Cases, agg.Evals, len(agg.keys), wall)
	var evs []string
	for k, n := range agg.Events {
		evs = append(evs, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(evs)
	fmt.Println("observed:", strings.Join(evs, " "))
	if len(agg.Violations) > 0 {
		for i, v := range agg.Violations {
			if i >= 5 {
				fmt.Printf("(%d more violations)\n", len(agg.Violations)-i)
				break
			}
			v.Replay = filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d.json", v.Prop, v.Family, v.Case))
			type rep struct {
				Violation
				Command string
			}
			cmd := fmt.Sprintf("bash %s/run.sh %s replay %s:%d  # with VERIF_SEED=%d", verif, v.Prop, v.Family, v.Case, v.Seed)
			if err := writeJSON(v.Replay, rep{v, cmd}); err != nil {
				fmt.Fprintln(os.Stderr, "cannot write replay:", err)
			}
			fmt.Printf("  %s[%d]: %s\n", v.Family, v.Case, oneLine(v.Msg))
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, v.Replay)
		}
		return 1
	}
	if len(agg.inconclusive) > 0 {
		fmt.Println("INCONCLUSIVE:", strings.Join(agg.inconclusive, "; "))
		return 3
	}
	for ev, n := range p.Need {
		if agg.Events[ev] < int64(n) {
			fmt.Printf("INCONCLUSIVE: event %q observed %d times, need %d\n", ev, agg.Events[ev], n)
			return 3
		}
	}
	if len(agg.keys) < p.MinKeys || len(agg.keys) == 0 {
		fmt.Printf("INCONCLUSIVE: only %d distinct non-trivial cases, need %d\n", len(agg.keys), p.MinKeys)
		return 3
	}
	fmt.Printf("HELD property=%s\n", p.ID)
	return 0
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func workerCmd(p *Prop, o *runOpts, bin, tmp, verif string, extra ...string) *exec.Cmd {
	args := []string{"-worker", "-prop", p.ID, "-tier", o.tier, "-seed", strconv.FormatUint(o.seed, 10), "-verif", verif, "-root", tmp, "-par", strconv.Itoa(o.par), "-repo", repoDir}
	if o.race {
		args = append(args, "-race")
	}
	args = append(args, extra...)
	cmd := exec.Command(bin, args...)
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all", "TMPDIR="+tmp)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	return cmd
}

func runWorker(p *Prop, o *runOpts, bin, tmp, verif string, agg *aggregate) {
	tag := "plain"
	if o.race {
		tag = "race"
	}
	slotFile := filepath.Join(tmp, "slots-"+tag)
	resFile := filepath.Join(tmp, "result-"+tag)
	errFile := filepath.Join(tmp, "stderr-"+tag)
	sl, err := openSlots(slotFile)
	if err != nil {
		infra("slots: %v", err)
	}
	cmd := workerCmd(p, o, bin, tmp, verif, "-slot", slotFile, "-result", resFile)
	ef, err := os.Create(errFile)
	if err != nil {
		infra("%v", err)
	}
	cmd.Stdout, cmd.Stderr = ef, ef
	if err := cmd.Start(); err != nil {
		infra("start worker: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last := map[int]slotState{}
	since := map[int]time.Time{}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var stuck []slotState
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			now := time.Now()
			for _, s := range sl.read() {
				if last[s.G] != s {
					last[s.G], since[s.G] = s, now
				} else if now.Sub(since[s.G]) > stuckWall {
					stuck = append(stuck, s)
				}
			}
			if len(stuck) > 0 {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				break loop
			}
		}
	}
	ef.Close()
	if b, err := os.ReadFile(resFile); err == nil && werr == nil && len(stuck) == 0 {
		var r workerResult
		if err := json.Unmarshal(b, &r); err != nil {
			infra("result: %v", err)
		}
		agg.merge(&r)
		return
	}
	stderr, _ := os.ReadFile(errFile)
	if strings.Contains(string(stderr), "INFRA: ") {
		fmt.Print(tail(string(stderr), 2000))
		os.Exit(3)
	}
	suspects := stuck
	if len(suspects) == 0 {
		suspects = sl.read()
	}
	// Account for the cases that did run.
	agg.Cases += int64(len(last))
	found := false
	for _, s := range suspects {
		if s.Fam >= len(p.Families) {
			continue
		}
		fam := p.Families[s.Fam].Name
		ok, msg, out := runAlone(p, o, bin, tmp, verif, fmt.Sprintf("%s:%d", fam, s.Idx), agg)
		if !ok {
			found = true
			agg.Violations = append(agg.Violations, Violation{Prop: p.ID, Family: fam, Case: s.Idx, Seed: o.seed, Tier: o.tier, Race: o.race,
				Msg: msg, Witness: map[string]string{"output": tail(out, 8000)}})
			break
		}
	}
	if found {
		return
	}
	if len(stuck) > 0 {
		agg.inconclusive = append(agg.inconclusive, fmt.Sprintf("case %v made no progress in the worker but ends when run alone", stuck))
		return
	}
	s := string(stderr)
	what := "worker crashed"
	for _, m := range []string{"WARNING: DATA RACE", "checkptr: ", "fatal error: ", "unexpected fault address", "panic: "} {
		if i := strings.Index(s, m); i >= 0 {
			what = "worker crashed: " + oneLine(clipS(s[i:], 300))
			break
		}
	}
	if strings.Contains(s, "DATA RACE") || strings.Contains(s, "fatal error:") || strings.Contains(s, "checkptr") || strings.Contains(s, "panic:") || strings.Contains(s, "SIG") {
		fam, idx := p.Families[0].Name, 0
		if len(suspects) > 0 {
			fam, idx = p.Families[suspects[0].Fam].Name, suspects[0].Idx
		}
		agg.Violations = append(agg.Violations, Violation{Prop: p.ID, Family: fam, Case: idx, Seed: o.seed, Tier: o.tier, Race: o.race,
			Msg: what, Witness: map[string]string{"output": tail(s, 8000), "note": "seen in the full worker, run the whole property to reproduce"}})
		return
	}
	agg.inconclusive = append(agg.inconclusive, fmt.Sprintf("worker ended with %v: %s", werr, tail(s, 500)))
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// runAlone runs one case in its own process; ok means that it ended normally.
func runAlone(p *Prop, o *runOpts, bin, tmp, verif, only string, agg *aggregate) (ok bool, msg, out string) {
	resFile := filepath.Join(tmp, "result-alone")
	os.Remove(resFile)
	errFile := filepath.Join(tmp, "stderr-alone")
	ef, err := os.Create(errFile)
	if err != nil {
		infra("%v", err)
	}
	cmd := workerCmd(p, o, bin, tmp, verif, "-only", only, "-result", resFile, "-cpu", strconv.Itoa(aloneCPU))
	cmd.Stdout, cmd.Stderr = ef, ef
	if err := cmd.Start(); err != nil {
		infra("start worker: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	timeout := false
	select {
	case werr = <-done:
	case <-time.After(aloneWall):
		timeout = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		werr = <-done
	}
	ef.Close()
	b, _ := os.ReadFile(errFile)
	out = string(b)
	if rb, err := os.ReadFile(resFile); err == nil && werr == nil {
		var r workerResult
		if json.Unmarshal(rb, &r) == nil {
			agg.merge(&r)
		}
		return true, "", out
	}
	if ws, isExit := cmd.ProcessState.Sys().(syscall.WaitStatus); isExit && ws.Signaled() && ws.Signal() == syscall.SIGXCPU {
		return false, fmt.Sprintf("did not terminate within %d CPU seconds", aloneCPU), out
	}
	cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
	if timeout {
		if cpu > aloneCPU/2*time.Second {
			return false, fmt.Sprintf("did not terminate: %v of CPU used", cpu), out
		}
		agg.inconclusive = append(agg.inconclusive, "case "+only+" blocked without using CPU")
		return true, "", out
	}
	for _, m := range []string{"WARNING: DATA RACE", "fatal error: ", "SIGXCPU", "panic: ", "checkptr: "} {
		if i := strings.Index(out, m); i >= 0 {
			if m == "SIGXCPU" {
				return false, fmt.Sprintf("did not terminate within %d CPU seconds", aloneCPU), out
			}
			return false, clipS(out[i:], 600), out
		}
	}
	return false, fmt.Sprintf("process ended with %v", werr), out
}

func (a *aggregate) merge(r *workerResult) {
	a.Cases += r.Cases
	a.Evals += r.Evals
	for _, k := range r.Keys {
		a.keys[k] = true
	}
	for k, n := range r.Events {
		a.Events[k] += n
	}
	for k, n := range r.Findings {
		a.Findings[k] = n
	}
	a.Samples = append(a.Samples, r.Samples...)
	a.Violations = append(a.Violations, r.Violations...)
}

func evidence(p *Prop, o *runOpts, agg *aggregate, verif string, wall float64) {
	samples := agg.Samples
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	fams := map[string]string{}
	for i := range p.Families {
		f := &p.Families[i]
		fams[f.Name] = fmt.Sprintf("%d cases plain, %d cases under the race detector", famCount(p, f, o.tier, false), famCount(p, f, o.tier, true))
	}
	cov := map[string]any{
		"evaluations":         agg.Evals,
		"distinct_nontrivial": len(agg.keys),
		"rule":                p.Rule,
		"samples":             samples,
		"cases":               agg.Cases,
		"observed_events":     agg.Events,
		"planned_families":    fams,
	}
	ev := map[string]any{
		"property": p.ID, "tier": o.tier, "seed": o.seed, "level": p.Level, "coverage": cov,
		"assumptions": append([]string{"verdict covers the executions listed, nothing else"}, p.Assume...),
		"wall_s":      wall, "violations": len(agg.Violations),
	}
	if err := writeJSON(filepath.Join(verif, "evidence", p.ID+".json"), ev); err != nil {
		infra("evidence: %v", err)
	}
}
