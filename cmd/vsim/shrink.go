package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/internal/plan"
)

// same reports whether the result shows the violation v again.
func same(v *Violation, res *Result) bool {
	if res == nil {
		return false
	}
	if res.crash != "" {
		return crashClass(res.crash) == v.Class
	}
	for i := range res.Violations {
		w := &res.Violations[i]
		if w.Prop == v.Prop && w.Class == v.Class && (w.Re || !v.Re) {
			return true
		}
	}
	return false
}

type shrinker struct {
	r     *runner
	v     Violation
	until time.Time
	tried int
}

func (s *shrinker) expired() bool { return time.Now().After(s.until) }

func (s *shrinker) ok(p *plan.Plan) bool {
	res, err := s.r.exec(p, "", 0)
	return err == nil && same(&s.v, res)
}

// firstOK evaluates candidates in parallel and returns the first that still
// fails, or -1.
func (s *shrinker) firstOK(c []*plan.Plan) int {
	n := runtime.NumCPU()
	for i := 0; i < len(c); i += n {
		if s.expired() {
			return -1
		}
		k := min(n, len(c)-i)
		res := make([]bool, k)
		var wg sync.WaitGroup
		for j := 0; j < k; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res[j] = s.ok(c[i+j])
			}()
		}
		wg.Wait()
		s.tried += k
		for j := 0; j < k; j++ {
			if res[j] {
				return i + j
			}
		}
	}
	return -1
}

// ddmin removes chunks of n items as long as the violation stays.
func (s *shrinker) ddmin(n int, apply func(keep []int) *plan.Plan) []int {
	keep := make([]int, n)
	for i := range keep {
		keep[i] = i
	}
	size := (n + 1) / 2
	for size >= 1 && len(keep) > 0 && !s.expired() {
		var cands []*plan.Plan
		var sets [][]int
		for i := 0; i < len(keep); i += size {
			k := append([]int(nil), keep[:i]...)
			k = append(k, keep[min(len(keep), i+size):]...)
			cands = append(cands, apply(k))
			sets = append(sets, k)
			if len(cands) >= 64 {
				break
			}
		}
		// candidates beyond the first 64 are visited as the list shrinks
		if len(cands) == 64 {
			for i := 64 * size; i < len(keep); i += size {
				k := append([]int(nil), keep[:i]...)
				k = append(k, keep[min(len(keep), i+size):]...)
				sets = append(sets, k)
			}
		}
		hit := s.firstOK(cands)
		if hit < 0 && len(sets) > 64 {
			for b := 64; b < len(sets) && hit < 0 && !s.expired(); b += 64 {
				cands = nil
				for _, k := range sets[b:min(len(sets), b+64)] {
					cands = append(cands, apply(k))
				}
				if h := s.firstOK(cands); h >= 0 {
					hit = b + h
				}
			}
		}
		if hit >= 0 {
			keep = sets[hit]
			if size > len(keep) {
				size = max(1, len(keep))
			}
			continue
		}
		if size == 1 {
			break
		}
		size = (size + 1) / 2
	}
	return keep
}

// report minimises, verifies and writes the replay file.
func report(r *runner, sp *spec, prop string, f *found, tier string) string {
	budget := 40 * time.Second
	if tier == "thorough" {
		budget = 180 * time.Second
	}
	p := plan.Gen(f.fam, f.seed)
	v := f.v
	s := &shrinker{r: r, v: v, until: time.Now().Add(budget)}
	orig := len(p.Events)
	fmt.Printf("%s: %s/%s in family %s seed %d: %s\n", prop, v.Prop, v.Class, f.fam, f.seed, v.Msg)
	if !s.ok(p) {
		fatal("the violation does not repeat in a second run of the same seed: the simulation is not deterministic")
	}
	events := p.Events
	with := func(p *plan.Plan, keep []int) *plan.Plan {
		q := *p
		q.Events = make([]plan.Event, 0, len(keep))
		for _, k := range keep {
			q.Events = append(q.Events, events[k])
		}
		return &q
	}
	simpl := func() {
		for _, m := range []func(q *plan.Plan){
			func(q *plan.Plan) { q.Sched.StallDen, q.Sched.StallTotal = 0, 0 },
			func(q *plan.Plan) { q.Sched.Policy, q.Sched.YieldDen = 0, 0 },
			func(q *plan.Plan) { q.Sched.Policy = 0 },
			func(q *plan.Plan) { q.Sched.YieldDen = 0 },
			func(q *plan.Plan) { q.LatMin, q.LatMax = 100, 100 },
			func(q *plan.Plan) { q.NoLoop = true },
		} {
			if s.expired() {
				return
			}
			q := *p
			m(&q)
			if s.ok(&q) {
				p = &q
			}
		}
	}
	simpl()
	keep := s.ddmin(len(events), func(k []int) *plan.Plan { return with(p, k) })
	p = with(p, keep)
	events = p.Events
	// end the run soon after the violation
	if res, err := r.exec(p, "", 0); err == nil && res.crash == "" {
		for _, w := range res.Violations {
			if w.Prop == v.Prop && w.Class == v.Class {
				q := *p
				q.End = min(p.End, w.T/1000+200000)
				if s.ok(&q) {
					p = &q
				}
			}
		}
	}
	simpl()
	// the schedule: keep only the decisions that matter
	mini := fmt.Sprintf("operations and faults %d -> %d", orig, len(p.Events))
	if res, err := r.exec(p, "", 0, "-rec"); err == nil && res.crash == "" && !res.Stats.RecFull && !s.expired() {
		q := *p
		q.Replay, q.Pos, q.Val = true, res.Pos, res.Val
		if s.ok(&q) {
			all, av := q.Pos, q.Val
			k := s.ddmin(len(all), func(k []int) *plan.Plan {
				c := q
				c.Pos, c.Val = make([]uint64, len(k)), make([]uint64, len(k))
				for i, j := range k {
					c.Pos[i], c.Val[i] = all[j], av[j]
				}
				return &c
			})
			c := q
			c.Pos, c.Val = nil, nil
			for _, j := range k {
				c.Pos, c.Val = append(c.Pos, all[j]), append(c.Val, av[j])
			}
			if s.ok(&c) {
				p = &c
				mini += fmt.Sprintf("; scheduling decisions off the default %d -> %d", len(all), len(k))
			}
		}
	}
	// once more, in a fresh process, twice, with the history
	a, err1 := r.exec(p, "", 0, "-log")
	b, err2 := r.exec(p, "", 0, "-log")
	if err1 != nil || err2 != nil || !same(&v, a) || !same(&v, b) || a.HistHash != b.HistHash || a.Stats.Hash != b.Stats.Hash {
		fatal("the minimised run does not repeat exactly")
	}
	rep := &Replay{Property: prop, Class: v.Prop + "/" + v.Class, Message: v.Msg, Family: f.fam, Seed: f.seed, Race: r.race,
		HistHash: a.HistHash, SchedHash: a.Stats.Hash, Log: a.Log, Crash: a.crash, Minimised: mini + fmt.Sprintf(" (%d trial runs)", s.tried), Plan: *p}
	for _, w := range a.Violations {
		if w.Prop == v.Prop && w.Class == v.Class {
			rep.Message = w.Msg
		}
	}
	if len(rep.Log) > 600 {
		rep.Log = append(rep.Log[:300:300], rep.Log[len(rep.Log)-300:]...)
	}
	for i := range p.Events {
		rep.Faults = append(rep.Faults, eventText(&p.Events[i]))
	}
	dir := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, f.fam, f.seed))
	js, _ := json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(path, append(js, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s: %s\n%s: %s\n", prop, rep.Message, prop, rep.Minimised)
	return path
}

func eventText(e *plan.Event) string {
	s := fmt.Sprintf("t=%.6f s: host %d %s", float64(e.At)/1e6, e.H, e.K)
	if e.K == "send" {
		return s + fmt.Sprintf(" universe %d:%d.%d value %d", e.A, e.B>>4, e.B&15, e.V)
	}
	if e.D != 0 {
		s += fmt.Sprintf(" for %.6f s", float64(e.D)/1e6)
	}
	if e.A != 0 || e.B != 0 || e.C != 0 {
		s += fmt.Sprintf(" a=%d b=%d c=%d", e.A, e.B, e.C)
	}
	if e.P != 0 {
		s += fmt.Sprintf(" p=%d/1000", e.P)
	}
	if len(e.Data) > 0 {
		s += fmt.Sprintf(" %d bytes %x", len(e.Data), e.Data[:min(len(e.Data), 24)])
	}
	return s
}

func replay(args []string) {
	if len(args) != 1 {
		fatal("usage: vsim replay FILE")
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal("%v", err)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fatal("%v", err)
	}
	r := &runner{bin: build(rep.Race), race: rep.Race}
	cls := strings.SplitN(rep.Class, "/", 2)
	res, err := r.exec(&rep.Plan, "", 0, "-log")
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range res.Log {
		fmt.Println(l)
	}
	if res.crash != "" {
		fmt.Println(res.crash)
	}
	v := &Violation{Prop: cls[0], Class: cls[1]}
	if !same(v, res) {
		fmt.Println("the violation does not occur on this tree")
		for _, w := range res.Violations {
			fmt.Printf("other: %s/%s %s\n", w.Prop, w.Class, w.Msg)
		}
		return
	}
	exact := "the execution differs from the recorded one (the code under test has changed)"
	if res.HistHash == rep.HistHash && res.Stats.Hash == rep.SchedHash {
		exact = "exactly the recorded execution"
	}
	for _, w := range res.Violations {
		if w.Prop == v.Prop && w.Class == v.Class {
			fmt.Printf("%s/%s: %s\n", w.Prop, w.Class, w.Msg)
		}
	}
	fmt.Println(exact)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, args[0])
	cleanup()
	os.Exit(1)
}

// ---- tools for development ----

func sweep(args []string) {
	fs := flag.NewFlagSet("sweep", flag.ExitOnError)
	n := fs.Int("n", 100, "runs per family")
	from := fs.Uint64("from", 1, "first seed")
	race := fs.Bool("race", false, "race detector build")
	bin := fs.String("bin", "", "use this binary")
	fs.Parse(args)
	fams := fs.Args()
	if len(fams) == 0 {
		fams = plan.Families
	}
	r := &runner{bin: *bin, race: *race}
	if *bin == "" {
		r.bin = build(*race)
	}
	for _, fam := range fams {
		type ex struct {
			n    int
			seed uint64
			msg  string
		}
		m := map[string]*ex{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		next := 0
		t0 := time.Now()
		a := newAgg()
		for k := 0; k < runtime.NumCPU(); k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					i := next
					next++
					mu.Unlock()
					if i >= *n {
						return
					}
					seed := *from + uint64(i)
					res, err := r.exec(nil, fam, seed)
					put := func(k, msg string) {
						mu.Lock()
						defer mu.Unlock()
						if m[k] == nil {
							m[k] = &ex{0, seed, msg}
						}
						m[k].n++
						m[k].seed = min(m[k].seed, seed)
					}
					switch {
					case err != nil:
						put("HARNESS", err.Error())
					case res.crash != "":
						put("CRASH "+crashClass(res.crash), clip(res.crash, 400))
					default:
						a.add("C01", fam, seed, res)
						for _, v := range res.Violations {
							k := v.Prop + "/" + v.Class
							if v.Re {
								k += " (restarted)"
							}
							put(k, v.Msg)
						}
					}
				}
			}()
		}
		wg.Wait()
		fmt.Printf("== %s: %d runs in %.1f s, %.0f simulated s, %d interleavings, %d states\n", fam, *n, time.Since(t0).Seconds(), float64(a.simNs)/1e9, len(a.inter), len(a.states))
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   %5d %s seed %d: %s\n", m[k].n, k, m[k].seed, clip(m[k].msg, 600))
		}
	}
}

// determinism runs every seed twice, at different parallelism, and compares
// the complete output.
func determinism(args []string) {
	fs := flag.NewFlagSet("determinism", flag.ExitOnError)
	n := fs.Int("n", 30, "seeds per family")
	race := fs.Bool("race", false, "use the race detector build")
	fs.Parse(args)
	r := &runner{bin: build(*race), race: *race}
	type job struct {
		fam  string
		seed uint64
	}
	var jobs []job
	for _, f := range plan.Families {
		for i := 0; i < *n; i++ {
			jobs = append(jobs, job{f, plan.Hash(uint64(i), plan.HashStr(f)) >> 16})
		}
	}
	pass := func(r *runner, workers int) []string {
		out := make([]string, len(jobs))
		var wg sync.WaitGroup
		var mu sync.Mutex
		next := 0
		for k := 0; k < workers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					i := next
					next++
					mu.Unlock()
					if i >= len(jobs) {
						return
					}
					res, err := r.exec(nil, jobs[i].fam, jobs[i].seed, "-log")
					if err != nil {
						out[i] = err.Error()
					} else if res.crash != "" {
						out[i] = crashClass(res.crash)
					} else {
						out[i] = string(res.raw)
					}
				}
			}()
		}
		wg.Wait()
		return out
	}
	a := pass(r, runtime.NumCPU())
	b := pass(r, 3)
	bad := 0
	for i := range jobs {
		if a[i] != b[i] {
			bad++
			if bad < 5 {
				k := 0
				for k < len(a[i]) && k < len(b[i]) && a[i][k] == b[i][k] {
					k++
				}
				fmt.Printf("family %s seed %d differs at byte %d: %q / %q\n", jobs[i].fam, jobs[i].seed, k, clip(a[i][max(0, k-40):], 120), clip(b[i][max(0, k-40):], 120))
			}
		}
	}
	fmt.Printf("%d seeds run twice, %d differ\n", len(jobs), bad)
	if bad > 0 {
		cleanup()
		os.Exit(1)
	}
}
