// vsim builds the simulator from the repository's current tree and searches
// seeds for violations of one property.
//
//	vsim check  -property C01 [-tier quick|thorough]
//	vsim replay FILE
//	vsim sweep  [-race] [-n 100] [-from 1] FAMILY...
//	vsim determinism [-n 50]
//	vsim build  [-race] DIR
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/internal/plan"
	"verif/internal/simbuild"
)

// Result mirrors simrun's output.
type Result struct {
	Violations []Violation      `json:"violations"`
	Stats      Stats            `json:"stats"`
	SimNs      int64            `json:"sim_ns"`
	Events     int              `json:"events"`
	HistHash   uint64           `json:"hist_hash"`
	States     []uint64         `json:"states"`
	Faults     map[string]int64 `json:"faults"`
	Probes     map[string]int64 `json:"probes"`
	Evals      map[string]int64 `json:"evals"`
	Pos        []uint64         `json:"pos"`
	Val        []uint64         `json:"val"`
	Log        []string         `json:"log"`

	crash string // panic or race report of the process
	raw   []byte
}

// Stats mirrors the scheduler's counters.
type Stats struct {
	Steps, Decisions, Picks, MultiPick, Yields, Stalls, Selects, Spawned, Hash, Quiet uint64
	RecFull                                                                           bool
	MaxRunq                                                                           int
	MaxInst                                                                           uint64
}

// Violation mirrors simrun's.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
	T     int64  `json:"t"`
	Run   int    `json:"run"`
	Re    bool   `json:"restarted"`
}

// Replay is the body of a replay file.
type Replay struct {
	Property  string    `json:"property"`
	Class     string    `json:"class"`
	Message   string    `json:"message"`
	Family    string    `json:"family"`
	Seed      uint64    `json:"seed"`
	Race      bool      `json:"race_detector,omitempty"`
	HistHash  uint64    `json:"history_hash"`
	SchedHash uint64    `json:"interleaving_hash"`
	Faults    []string  `json:"fault_and_operation_trace"`
	Log       []string  `json:"history,omitempty"`
	Crash     string    `json:"crash,omitempty"`
	Minimised string    `json:"minimised"`
	Plan      plan.Plan `json:"plan"`
}

var (
	verif string
	repo  = "/repo"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

var tmpDir string

func cleanup() {
	if tmpDir != "" && strings.Contains(tmpDir, "/build/run-") {
		os.RemoveAll(tmpDir)
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vsim check|replay|sweep|determinism|build ...")
	}
	wd, err := os.Getwd()
	if err != nil {
		fatal("%v", err)
	}
	verif = wd
	if v := os.Getenv("VSIM_REPO"); v != "" {
		repo = v // for trying a scratch copy; the registered commands use /repo
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "sweep":
		sweep(os.Args[2:])
	case "determinism":
		determinism(os.Args[2:])
	case "build":
		fs := flag.NewFlagSet("build", flag.ExitOnError)
		race := fs.Bool("race", false, "")
		cov := fs.Bool("cover", false, "")
		fs.Parse(os.Args[2:])
		b, files, err := simbuild.Build(simbuild.Options{Verif: verif, Repo: repo, Out: fs.Arg(0), Race: *race, Cover: *cov})
		if err != nil {
			fatal("%v", err)
		}
		fmt.Println(b, len(files), "instrumented files")
	default:
		fatal("unknown command %s", os.Args[1])
	}
	cleanup()
}

func build(race bool) string {
	if tmpDir == "" {
		tmpDir = filepath.Join(verif, "build", fmt.Sprintf("run-%d", os.Getpid()))
	}
	b, _, err := simbuild.Build(simbuild.Options{Verif: verif, Repo: repo, Out: tmpDir, Race: race})
	if err != nil {
		fatal("%v", err)
	}
	return b
}

// ---- running one simulation ----

type runner struct {
	bin  string
	race bool
}

func (r *runner) exec(p *plan.Plan, family string, seed uint64, extra ...string) (*Result, error) {
	for try := 0; ; try++ {
		res, err, slow := r.exec1(p, family, seed, time.Duration(90*(try+1))*time.Second, extra...)
		if slow && try == 0 {
			continue
		}
		return res, err
	}
}

func (r *runner) exec1(p *plan.Plan, family string, seed uint64, lim time.Duration, extra ...string) (*Result, error, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	args := append([]string{}, extra...)
	var in []byte
	if p != nil {
		args = append(args, "-plan", "-")
		in, _ = json.Marshal(p)
	} else {
		args = append(args, "-family", family, "-seed", strconv.FormatUint(seed, 10))
	}
	cmd := exec.CommandContext(ctx, r.bin, args...)
	cmd.Stdin = bytes.NewReader(in)
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/tmp", "GOTRACEBACK=all", "GODEBUG=", "GORACE=atexit_sleep_ms=0 halt_on_error=1 exitcode=66"}
	err := cmd.Run()
	if ctx.Err() != nil {
		return &Result{crash: fmt.Sprintf("hang: the run used more than %v of processor time without ending", lim)}, nil, true
	}
	if err == nil {
		res := &Result{raw: out.Bytes()}
		if e := json.Unmarshal(out.Bytes(), res); e != nil {
			return nil, fmt.Errorf("unreadable result of the simulator: %v", e), false
		}
		return res, nil, false
	}
	s := eb.String()
	kind, text := classifyCrash(s)
	if kind == "" {
		return nil, fmt.Errorf("the simulator failed (family %s seed %d): %v\n%s", family, seed, err, clip(s, 3000)), false
	}
	return &Result{crash: kind + ": " + text}, nil, false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

const lib = "github.com/jsimonetti/go-artnet"

// classifyCrash decides whether the process died because of the code under
// test.
func classifyCrash(s string) (kind, text string) {
	switch {
	case strings.Contains(s, "WARNING: DATA RACE"):
		i := strings.Index(s, "WARNING: DATA RACE")
		rep := s[i:]
		if j := strings.Index(rep[10:], "=================="); j > 0 {
			rep = rep[:j+10]
		}
		if !strings.Contains(rep, lib) {
			return "", ""
		}
		return "race", clip(rep, 6000)
	case strings.HasPrefix(s, "panic:"), strings.Contains(s, "\npanic:"), strings.Contains(s, "fatal error:"):
		if strings.Contains(s, "fatal error: sim:") || strings.Contains(s, "out of memory") {
			return "", ""
		}
		// the stack of the goroutine that died comes first
		i := strings.Index(s, "\ngoroutine ")
		if i < 0 {
			return "", ""
		}
		st := s[i+1:]
		if j := strings.Index(st, "\n\n"); j > 0 {
			st = st[:j]
		}
		if !strings.Contains(st, lib) {
			return "", ""
		}
		head := s[:i]
		return "panic", clip(strings.TrimSpace(head)+"\n"+st, 6000)
	}
	return "", ""
}

// crashClass names the place that failed.
func crashClass(c string) string {
	kind, _, _ := strings.Cut(c, ":")
	n := 0
	var fr []string
	for _, l := range strings.Split(c, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, lib) {
			f := l[strings.LastIndex(l, "/")+1:]
			if i := strings.LastIndex(f, "("); i > 0 && strings.HasSuffix(f, ")") {
				f = f[:i]
			}
			fr = append(fr, f)
			if n++; n == 2 || kind == "panic" {
				break
			}
		}
	}
	return kind + " " + strings.Join(fr, " / ")
}

// ---- properties ----

type spec struct {
	fams  string   // family:weight ...
	rare  string   // family/n ...: one run in n (these are expensive)
	race  bool     // use the race detector build
	alias bool     // any violation that disappears without these events counts
	strip []string // event kinds removed by the strip test
	re    bool     // any violation after a restart or a failed start counts
}

var specs = map[string]*spec{
	"C01": {fams: "dmx:5 edge:3 burst:1 disco:2 long:1 mix:2 ioerr:1 swap:1 many:1 churn:1", rare: "xframes/600 xdevices/300 xpairs/50"},
	"C02": {fams: "dmx:4 edge:1 disco:4 mix:2 e2e:1 swap:3 many:1 churn:1", rare: "xdevices/300"},
	"C03": {fams: "dmx:5 edge:1 disco:3 long:1 clock:1 mix:1 swap:1 many:1 churn:1", rare: "xday/800 xdevices/400 xframes/800 xpairs/100"},
	"C04": {fams: "burst:5 edge:1 dmx:3 long:1 restart:1 ioerr:1 mix:1", rare: "xframes/600 xpairs/100"},
	"C05": {fams: "long:2 edge:1 dmx:4 disco:3 burst:1 mix:1 swap:1 churn:2", rare: "xframes/300 xpairs/80"},
	"C06": {fams: "disco:6 edge:1 dmx:2 mix:2 restart:1 fuzz:1 swap:2 many:1 churn:2", rare: "xdevices/150"},
	"C07": {fams: "disco:7 long:1 mix:2 dmx:1 many:2 swap:1 churn:2", rare: "xdevices/200 xday/800", alias: true, strip: []string{"off"}},
	"C08": {fams: "poll:3 disco:3 dmx:2 long:1 ioerr:1 restart:1 churn:1", rare: "xday/600 xdevices/400 xrestarts/200"},
	"C09": {fams: "poll:5 cb:1 mix:2 e2e:1 restart:1 ioerr:1", rare: "xpackets/200 xidle/100 xrestarts/200"},
	"C10": {fams: "cb:8 block:1 mix:2 fuzz:2 e2e:1 app:1", rare: "xpackets/150 xidle/100"},
	"C11": {fams: "cb:8 restart:1 block:1 life:1", rare: "xrestarts/100"},
	"C12": {fams: "fuzz:6 mix:1", rare: "xjunk/100", alias: true, strip: []string{"bad", "corrupt", "trunc"}},
	"C13": {fams: "ioerr:6 mix:1", rare: "xerrors/50", alias: true, strip: []string{"rxerr", "txerr", "stuck", "rxcap"}},
	"C14": {fams: "stop:8 restart:2 mix:1 cb:1 block:1 ioerr:1 life:3", rare: "xrestarts/60 xblocked/60"},
	"C15": {fams: "restart:8 mix:2 cb:1 life:2", rare: "xrestarts/60", re: true},
	"C16": {fams: "poll:4 cb:3 disco:2 mix:1", alias: true, strip: []string{"own"}},
	"C17": {fams: "dmx:2 edge:2 disco:2 poll:2 cb:3 block:1 fuzz:1 ioerr:2 stop:3 restart:4 e2e:1 mix:3 life:3 swap:1 app:1", rare: "xrestarts/200 xblocked/200", race: true},
	"C18": {fams: "e2e:1"},
	"C19": {fams: "clock:4 disco:1 mix:1", alias: true, strip: []string{"wall"}},
	"C20": {fams: "dmx:3 poll:3 mix:2 e2e:1 long:1 restart:1", rare: "xframes/1000 xpackets/600"},
	"C21": {fams: "poll:3 cb:2 ioerr:2 mix:2 disco:2 block:1 fuzz:1 many:1 app:1 churn:2 leak:2", rare: "xpackets/100 xsubmit/200 xerrors/100 xrestarts/100 xjunk/100 xdevices/200 xday/250 xframes/250"},
	"C22": {fams: "block:1", rare: "xblocked/40", alias: true, strip: []string{"block"}},
	"C23": {fams: "app:1"},
}

// about lists the faults and events the strip test removes, by the names they
// are counted under.
var about = map[string][]string{
	"C12": {"malformed_datagram", "corrupt", "trunc"},
	"C13": {"recv_error", "send_error", "send_blocked", "rx_overflow"},
	"C16": {"own_address_datagram", "own_datagram_looped_back"},
	"C19": {"wall_clock_jump"},
	"C22": {"callback_blocked"},
}

// consulted counts the oracle evaluations of a run that could have shown a
// violation of the property.
func (s *spec) consulted(prop string, r *Result) (n int64) {
	n = r.Evals[prop]
	switch {
	case s.race: // every access to memory is the oracle's; count the schedules that had a choice
		n = int64(r.Stats.MultiPick)
	case s.alias && about[prop] != nil:
		var k int64
		for _, f := range about[prop] {
			k += r.Faults[f] + r.Probes[f]
		}
		if k == 0 {
			return n
		}
		n = 0
		for _, v := range r.Evals {
			n += v
		}
	}
	return n
}

func (s *spec) what(prop string) string {
	switch {
	case s.race:
		return "Every access to memory is checked by the race detector; the oracle evaluations counted here are the scheduling picks that had a choice."
	case s.alias && about[prop] != nil:
		return "The oracle evaluations counted are those of all oracles in the runs that had one of the faults the property is about, because a violation of any of them that disappears without these faults violates this property."
	}
	return "The oracle evaluations counted are those of this property's own oracle."
}

// pick is the family of run i.
func (s *spec) pick(fams []string, i int) string {
	for k, x := range strings.Fields(s.rare) {
		f, n, _ := strings.Cut(x, "/")
		if n, _ := strconv.Atoi(n); i%n == n/5+k {
			return f
		}
	}
	return fams[i%len(fams)]
}

func (s *spec) families() []string {
	type fw struct {
		f string
		w int
	}
	var l []fw
	total := 0
	for _, x := range strings.Fields(s.fams) {
		f, w, _ := strings.Cut(x, ":")
		n, _ := strconv.Atoi(w)
		l = append(l, fw{f, n})
		total += n
	}
	// spread evenly
	var out []string
	acc := make([]int, len(l))
	for len(out) < total {
		best := 0
		for i := range l {
			acc[i] += l[i].w
			if acc[i] > acc[best] {
				best = i
			}
		}
		acc[best] -= total
		out = append(out, l[best].f)
	}
	return out
}

// stripPlan removes the given kinds of events; it reports whether there were
// any.
func stripPlan(p *plan.Plan, kinds []string) (*plan.Plan, bool) {
	has := func(k string) bool {
		for _, x := range kinds {
			if x == k {
				return true
			}
		}
		return false
	}
	q := *p
	q.Events = nil
	n := 0
	for _, e := range p.Events {
		drop := has(e.K)
		switch {
		case e.K == "dgram" && has("bad") && (e.S == "bad" || e.S == "fuzz"):
			drop = true
		case e.K == "dgram" && has("own") && e.C > 0:
			drop = true
		case e.K == "reg" && has("block") && e.B == 1:
			e.B = 0
			n++
		}
		if drop {
			n++
			continue
		}
		q.Events = append(q.Events, e)
	}
	if has("own") && !q.NoLoop {
		q.NoLoop = true
		n++
	}
	return &q, n > 0
}

// hits returns the violation of the property in a result, if any.
func (s *spec) hit(prop string, res *Result) *Violation {
	if res.crash != "" {
		return &Violation{Prop: prop, Class: crashClass(res.crash), Msg: firstLine(res.crash)}
	}
	var first *Violation
	for i := range res.Violations {
		v := &res.Violations[i]
		if v.Prop == prop || v.Prop == "*" {
			return v
		}
		if s.re && v.Re {
			first = orv(first, v)
		}
	}
	return first
}

func orv(a, b *Violation) *Violation {
	if a != nil {
		return a
	}
	return b
}

func firstLine(s string) string {
	a, b, _ := strings.Cut(s, "\n")
	c, _, _ := strings.Cut(b, "\n")
	return strings.TrimSpace(a + " " + c)
}

// aliasHit: some other oracle fires, and does not without the events the
// property is about.
func (s *spec) aliasHit(r *runner, family string, seed uint64, res *Result) *Violation {
	if !s.alias || len(res.Violations) == 0 {
		return nil
	}
	p := plan.Gen(family, seed)
	q, any := stripPlan(p, s.strip)
	if !any {
		return nil
	}
	res2, err := r.exec(q, "", 0)
	if err != nil || res2.crash != "" {
		return nil
	}
	still := map[string]bool{}
	for _, v := range res2.Violations {
		still[v.Prop+v.Class] = true
	}
	for i := range res.Violations {
		v := &res.Violations[i]
		if !still[v.Prop+v.Class] {
			return v
		}
	}
	return nil
}

// ---- the search ----

type agg struct {
	mu         sync.Mutex
	runs       int
	simNs      int64
	faults     map[string]int64
	probes     map[string]int64
	evals      map[string]int64
	perFam     map[string]int
	inter      map[uint64]struct{}
	hists      map[uint64]struct{}
	nontriv    map[uint64]struct{}
	states     map[uint64]struct{}
	steps      uint64
	decisions  uint64
	yields     uint64
	multi      uint64
	selects    uint64
	samples    []any
	ours       int64
	withEval   int
	withFault  int
	maxRunq    int
	unrepeated int
}

func newAgg() *agg {
	return &agg{faults: map[string]int64{}, probes: map[string]int64{}, evals: map[string]int64{}, perFam: map[string]int{},
		inter: map[uint64]struct{}{}, hists: map[uint64]struct{}{}, nontriv: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
}

func (a *agg) add(prop, fam string, seed uint64, r *Result) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.runs++
	a.perFam[fam]++
	a.simNs += r.SimNs
	nf := int64(0)
	for k, v := range r.Faults {
		a.faults[k] += v
		nf += v
	}
	for k, v := range r.Probes {
		a.probes[k] += v
	}
	for k, v := range r.Evals {
		a.evals[k] += v
	}
	a.inter[r.Stats.Hash] = struct{}{}
	a.hists[r.HistHash] = struct{}{}
	for _, s := range r.States {
		a.states[s] = struct{}{}
	}
	n := specs[prop].consulted(prop, r)
	a.ours += n
	if n > 0 {
		a.withEval++
		if r.Stats.MultiPick > 0 {
			a.nontriv[plan.Hash(r.Stats.Hash, r.HistHash)] = struct{}{}
		}
	}
	if nf > 0 {
		a.withFault++
	}
	a.steps += r.Stats.Steps
	a.decisions += r.Stats.Decisions
	a.yields += r.Stats.Yields
	a.multi += r.Stats.MultiPick
	a.selects += r.Stats.Selects
	a.maxRunq = max(a.maxRunq, r.Stats.MaxRunq)
	if len(a.samples) < 4 && n > 0 {
		a.samples = append(a.samples, map[string]any{"family": fam, "seed": seed, "simulated_s": float64(r.SimNs) / 1e9, "oracle_evaluations": n,
			"faults": r.Faults, "history_events": r.Events, "scheduling_decisions": r.Stats.Decisions,
			"interleaving_hash": fmt.Sprintf("%016x", r.Stats.Hash), "history_hash": fmt.Sprintf("%016x", r.HistHash)})
	}
}

type found struct {
	fam  string
	seed uint64
	v    Violation
	res  *Result
	i    int
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", "", "quick or thorough (default: VERIF_TIER)")
	maxRuns := fs.Int("runs", 0, "number of runs")
	secs := fs.Float64("seconds", 0, "time limit of the search")
	workers := fs.Int("workers", runtime.NumCPU(), "parallel processes")
	fs.Parse(args)
	sp := specs[*prop]
	if sp == nil {
		fatal("unknown property %q", *prop)
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	if *maxRuns == 0 {
		*maxRuns = 12000
		if *tier == "thorough" {
			*maxRuns = 100000000
		}
	}
	if *secs == 0 {
		*secs = 45
		if *tier == "thorough" {
			*secs = 600
		}
	}
	t0 := time.Now()
	r := &runner{bin: build(sp.race), race: sp.race}
	built := time.Since(t0)
	fams := sp.families()
	a := newAgg()
	var mu sync.Mutex
	next := 0
	var best *found
	var herr error
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	ts := time.Now()
	var wg sync.WaitGroup
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= *maxRuns || best != nil || herr != nil || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				fam := sp.pick(fams, i)
				s := plan.Hash(seed, plan.HashStr(*prop), uint64(i)) >> 16
				res, err := r.exec(nil, fam, s)
				if err != nil {
					mu.Lock()
					herr = err
					mu.Unlock()
					return
				}
				v := sp.hit(*prop, res)
				if v == nil {
					v = sp.aliasHit(r, fam, s, res)
				}
				if v != nil && known(*prop, v) {
					v = nil
				}
				if v != nil && !confirmed(r, fam, s, v) {
					mu.Lock()
					a.unrepeated++
					fmt.Fprintf(os.Stderr, "%s: %s/%s in family %s seed %d did not show again in two more runs of the seed, not counted: %s\n", *prop, v.Prop, v.Class, fam, s, v.Msg)
					if a.unrepeated > 3 {
						herr = fmt.Errorf("%d reports did not repeat in further runs of their seeds: the simulation is not deterministic", a.unrepeated)
					}
					mu.Unlock()
					continue
				}
				if v != nil {
					mu.Lock()
					if best == nil || i < best.i {
						best = &found{fam, s, *v, res, i}
					}
					mu.Unlock()
					return
				}
				if res.crash == "" {
					a.add(*prop, fam, s, res)
				}
			}
		}()
	}
	wg.Wait()
	if herr != nil {
		fatal("%v", herr)
	}
	search := time.Since(ts)
	viol := 0
	if best != nil {
		viol = 1
	}
	for _, k := range knownPrinted() {
		fmt.Println(k)
	}
	var path string
	if best != nil {
		path = report(r, sp, *prop, best, *tier)
	}
	writeEvidence(*prop, *tier, seed, sp, a, viol, t0, built, search, *workers)
	if best != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		cleanup()
		os.Exit(1)
	}
	fmt.Printf("%s held in %d simulated runs (%.0f simulated seconds, %d distinct interleavings, %d oracle evaluations) in %.1f s\n",
		*prop, a.runs, float64(a.simNs)/1e9, len(a.inter), a.ours, time.Since(t0).Seconds())
}

// confirmed runs the seed again: a violation of the code under test repeats.
func confirmed(r *runner, fam string, seed uint64, v *Violation) bool {
	for i := 0; i < 2; i++ {
		if res, err := r.exec(nil, fam, seed); err == nil && same(v, res) {
			return true
		}
	}
	return false
}

// ---- evidence ----

func writeEvidence(prop, tier string, seed uint64, sp *spec, a *agg, viol int, t0 time.Time, built, search time.Duration, workers int) {
	h := search.Hours()
	perHour := 0.0
	if h > 0 {
		perHour = float64(a.runs) / h
	}
	ev := a.ours
	cov := map[string]any{
		"evaluations":         a.runs,
		"distinct_nontrivial": len(a.nontriv),
		"rule": "one evaluation is one simulated run of a generated plan (hosts, operations, faults, scheduling policy) of the families listed. " +
			sp.what(prop) + " " +
			"A run is non-trivial when this property's oracle was consulted in it and the scheduler had at least one real choice, and distinct when the pair (hash of every scheduling pick, hash of the recorded history) is new",
		"samples":                    a.samples,
		"unrepeated_reports":         a.unrepeated,
		"oracle_evaluations":         ev,
		"runs_where_oracle_ran":      a.withEval,
		"runs_with_faults":           a.withFault,
		"runs_and_seeds_per_hour":    int64(perHour),
		"simulated_seconds":          float64(a.simNs) / 1e9,
		"faults_injected":            a.faults,
		"events_observed":            a.probes,
		"distinct_interleavings":     len(a.inter),
		"interleaving_measure":       "hash over (goroutine, number of candidates) of every scheduling pick of the run",
		"distinct_histories":         len(a.hists),
		"distinct_states":            len(a.states),
		"state_measure":              "hash of the public state (listed devices, their ports, library goroutines, counts of packets sent) at quiescent points",
		"scheduling_decisions":       a.decisions,
		"picks_with_choice":          a.multi,
		"forced_preemptions":         a.yields,
		"select_choices":             a.selects,
		"statements_executed":        a.steps,
		"largest_run_queue":          a.maxRunq,
		"runs_per_family":            a.perFam,
		"build_s":                    built.Seconds(),
		"search_s":                   search.Seconds(),
		"worker_processes":           workers,
		"race_detector":              sp.race,
		"components_real":            []string{"github.com/jsimonetti/go-artnet (every statement, instrumented with scheduling points)", "packet and packet/code", "logrus", "Go standard library incl. net.UDPConn above the socket calls", "Go scheduler, channels, select, mutexes, timers (decisions taken by the simulator)"},
		"components_stub":            []string{"UDP sockets and the network between hosts (in-memory, seeded latency and faults)", "clock (virtual)", "scripted Art-Net devices (independent encoder)", "user callbacks and callers"},
		"oracle_evaluations_by_prop": a.evals,
	}
	e := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": []string{
			"goroutines are interleaved at statement boundaries of the library, at blocking operations and at forced stalls, on one processor (no weak-memory effects except through the race detector build of C17)",
			"the simulated socket follows Linux UDP semantics (bind conflicts, broadcast delivery, errors, close unblocking readers and writers)",
			"universes announced by several devices at once, and several devices behind one IP, are outside the claim (documented as unsupported by the library)",
		},
	}
	b, _ := json.MarshalIndent(e, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

// ---- known findings ----

type finding struct{ prop, class, text string }

var (
	findOnce sync.Once
	findings []finding
	findMu   sync.Mutex
	findHit  = map[string]bool{}
)

// known-findings.txt: lines "known: property=<id> class=<class> -- <text>"
// suppress exactly that class; lines "fixed: ..." suppress nothing.
func loadFindings() {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		rest, _ = strings.CutPrefix(rest, "class=")
		class, text, _ := strings.Cut(rest, " -- ")
		findings = append(findings, finding{id, class, text})
	}
}

func known(prop string, v *Violation) bool {
	findOnce.Do(loadFindings)
	for _, f := range findings {
		if f.prop == prop && f.class == v.Class {
			findMu.Lock()
			findHit[fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, f.text)] = true
			findMu.Unlock()
			return true
		}
	}
	return false
}

func knownPrinted() (out []string) {
	for k := range findHit {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
