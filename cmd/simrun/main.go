// simrun executes one simulated run and prints its outcome as JSON.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"

	"verif/internal/plan"
	"verif/internal/wire"
)

// Result is what one run reports.
type Result struct {
	Violations []Violation      `json:"violations,omitempty"`
	Stats      runtime.SimStats `json:"stats"`
	SimNs      int64            `json:"sim_ns"`
	Events     int              `json:"events"`
	HistHash   uint64           `json:"hist_hash"`
	StateHash  []uint64         `json:"states,omitempty"`
	Faults     map[string]int64 `json:"faults"`
	Probes     map[string]int64 `json:"probes"`
	Evals      map[string]int64 `json:"evals"`
	Pos        []uint64         `json:"pos,omitempty"`
	Val        []uint64         `json:"val,omitempty"`
	Log        []string         `json:"log,omitempty"`
	HeapGrown  int64            `json:"heap_grown,omitempty"`
	HeapLimit  int64            `json:"heap_limit,omitempty"`
}

// Violation is one broken property.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
	T     int64  `json:"t"`
	Run   int    `json:"run"`
	Re    bool   `json:"restarted,omitempty"`
}

func main() {
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	fam := flag.String("family", "", "generate a plan of this family")
	seed := flag.Uint64("seed", 1, "seed")
	in := flag.String("plan", "", "run this plan")
	emit := flag.Bool("emit", false, "print the plan instead of running it")
	full := flag.Bool("log", false, "include the event log")
	rec := flag.Bool("rec", false, "include the recorded schedule")
	flag.Parse()
	var p *plan.Plan
	if *in != "" {
		var b []byte
		var err error
		if *in == "-" {
			b, err = io.ReadAll(os.Stdin)
		} else {
			b, err = os.ReadFile(*in)
		}
		if err == nil {
			p = &plan.Plan{}
			err = json.Unmarshal(b, p)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "simrun:", err)
			os.Exit(3)
		}
	} else {
		p = plan.Gen(*fam, *seed)
	}
	if *emit {
		b, _ := json.MarshalIndent(p, "", " ")
		os.Stdout.Write(append(b, '\n'))
		return
	}
	r := run(p, *full || p.Full, *rec)
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simrun:", err)
		os.Exit(3)
	}
	os.Stdout.Write(append(b, '\n'))
}

func (w *world) bcastOf(h *host) ([4]byte, int) {
	if h.sut != nil {
		return bcastAddr(h.sut.bcast)
	}
	return bcastAddr(h.cfg.Bcast)
}

func bcastAddr(s string) ([4]byte, int) {
	if s != "" {
		a := udp(s)
		return parseIP(a.IP.String()), a.Port
	}
	return [4]byte{2, 255, 255, 255}, wire.Port
}

// listenOf is the address the library on this machine was told to listen on.
func (w *world) listenOf(h *host) (ip [4]byte, port int) {
	port = wire.Port
	if h.cfg.Listen != "" {
		if a, err := net.ResolveUDPAddr("udp4", h.cfg.Listen); err == nil {
			if a.IP != nil {
				ip = parseIP(a.IP.String())
			}
			port = a.Port
		} else {
			ip = parseIP(h.cfg.Listen)
		}
	}
	return
}

func (w *world) portOf(h *host) int {
	_, port := w.listenOf(h)
	return port
}

func run(p *plan.Plan, full, rec bool) *Result {
	before, gs := uint64(0), runtime.SimAllGs()
	if p.Heap {
		before = liveHeap()
	}
	w := &world{p: p, ids: map[identKey][]ident{}, links: map[[2]int]uint64{}, faults: map[string]int64{}, probes: map[string]int64{}}
	w.hist = make([]ev, 0, 4096)
	for i := range p.Hosts {
		c := &p.Hosts[i]
		h := &host{i: i, cfg: c, ip: parseIP(c.IP)}
		if c.Kind == "peer" {
			h.peer = &peer{w: w, h: h, off: c.Off, ports: c.Ports}
		}
		w.hosts = append(w.hosts, h)
	}
	for i := range p.Events {
		e := &p.Events[i]
		if isWindow(e.K) {
			w.win = append(w.win, &window{k: e.K, from: e.At * 1000, to: (e.At + e.D) * 1000, ev: e})
		}
	}
	cfg := &runtime.SimConfig{
		Seed: p.Sched.Seed, AuxSeed: p.Sched.Aux, Policy: p.Sched.Policy, YieldDen: p.Sched.YieldDen,
		StallDen: p.Sched.StallDen, StallMax: p.Sched.StallMax * 1000, StallTotal: p.Sched.StallTotal * 1000,
		PrioDen: p.Sched.PrioDen, MaxSteps: p.MaxSteps, InstSteps: p.InstSteps,
		Replay: p.Replay, ReplayPos: p.Pos, ReplayVal: p.Val,
	}
	if rec {
		cfg.RecPos = make([]uint64, 1<<22)
		cfg.RecVal = make([]uint64, 1<<22)
	}
	net.SimListen = w.listen
	runtime.SimHarness(true)
	runtime.SimStart(cfg)
	runtime.SimStallWindow(p.Sched.StallFrom*1000+epoch, p.Sched.StallTo*1000+epoch)
	for _, h := range w.hosts {
		if h.peer == nil {
			w.boot(h)
		}
	}
	for i := range p.Events {
		e := &p.Events[i]
		w.at(e.At*1000, func() { w.exec(e) })
	}
	end := p.End * 1000
	if p.Snap > 0 {
		for t := (p.SnapOff + p.Snap) * 1000; t < end; t += p.Snap * 1000 {
			w.at(t, func() { w.snapReq = true })
		}
	}
	if p.Quiet > 0 {
		w.at(p.Quiet*1000, func() { w.snapReq = true })
	}
	w.at(end, func() {
		w.snapReq = true
		w.ended = true
		if p.Heap {
			return
		}
		// teardown: everything is asked to stop
		w.at(end+1, func() {
			for _, h := range w.hosts {
				if h.sut != nil {
					h.sut.op(&plan.Event{K: "unblock"})
					h.sut.op(&plan.Event{K: "stop"})
				}
			}
		})
		w.at(end+2e9, func() { w.snapReq = true })
	})
	stop := end + 3e9
	w.at(stop, func() {})
	for {
		next := stop
		if len(w.q) > 0 {
			next = w.q[0].at
		}
		idle := runtime.SimWait(next+epoch, w.snapReq)
		if runtime.SimOverrun() {
			break
		}
		if idle {
			w.snapReq = false
			w.snapshot()
			continue
		}
		t := now()
		for len(w.q) > 0 && w.q[0].at <= t {
			w.pop().f()
		}
		if t >= stop {
			break
		}
	}
	st := runtime.SimRead()
	runtime.SimStop()
	r := &Result{Stats: st, SimNs: now(), Events: len(w.hist), Faults: w.faults, Probes: w.probes}
	if st.Stalls > 0 {
		w.faults["goroutine_stall"] = int64(st.Stalls)
	}
	if rec {
		r.Pos, r.Val = cfg.RecPos[:st.NRec], cfg.RecVal[:st.NRec]
	}
	o := judge(w, st)
	r.Violations, r.Evals = o.viol, o.evals
	r.HistHash = w.hash()
	r.StateHash = o.states
	if full {
		r.Log = w.log()
	}
	if p.Heap && len(o.runs) > 0 && !st.Overrun {
		devices, universes := 0, 0
		listed := map[string]bool{}
		for i := range w.hist {
			if s := w.hist[i].Snap; s != nil { // the most at a time, and those at the end
				devices = max(devices, len(s.Nodes))
				clear(listed)
				for _, n := range s.Nodes {
					listed[n.IP] = true
				}
			}
		}
		for _, v := range o.runs {
			universes += v.universes(p.End*1000, listed)
		}
		// all that the harness keeps goes, what the library keeps stays
		o, w.hist, w.ops, w.runs, w.q, w.links, w.expect, w.ids = nil, nil, nil, nil, nil, nil, nil, nil
		for _, h := range w.hosts {
			h.forget()
		}
		r.HeapGrown = int64(liveHeap()) - int64(before)
		r.Evals["C21"]++
		gs = runtime.SimAllGs() - gs // descriptors of goroutines are never given back
		r.HeapLimit = int64(192<<10 + devices<<13 + universes<<10 + gs<<10)
		if r.HeapGrown > r.HeapLimit {
			r.Violations = append(r.Violations, Violation{Prop: "C21", Class: "heap-growth", T: p.End * 1000,
				Msg: fmt.Sprintf("the live heap has grown by %d bytes, more than %d", r.HeapGrown, r.HeapLimit)})
		}
		runtime.KeepAlive(w)
	}
	return r
}

// liveHeap is the memory in use after a collection.
func liveHeap() uint64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func isWindow(k string) bool {
	switch k {
	case "loss", "dup", "delay", "corrupt", "trunc", "part", "stuck", "txerr", "rxcap":
		return true
	}
	return false
}

// exec performs one plan event.
func (w *world) exec(e *plan.Event) {
	switch e.K {
	case "start", "stop", "send", "reg", "dereg", "unblock", "tx", "cfg", "opt", "flood":
		if s := w.hosts[e.H].sut; s != nil {
			s.op(e)
		}
	case "crash":
		w.crash(w.hosts[e.H])
	case "ports":
		w.hosts[e.H].peer.ports = *e.Cfg
	case "announce":
		w.hosts[e.H].peer.announce(int(e.B))
	case "off":
		w.hosts[e.H].peer.off = true
		w.fault("device_off")
	case "on":
		w.hosts[e.H].peer.off = false
	case "dgram":
		h := w.hosts[e.H]
		if h.peer != nil && h.peer.off {
			return
		}
		src := h.ip
		if e.C > 0 { // the sender shares the address of host C-1
			src = w.hosts[e.C-1].ip
			w.fault("own_address_datagram")
		}
		if e.V > 0 { // a sender nobody has heard of
			src = [4]byte{byte(e.V >> 24), byte(e.V >> 16), byte(e.V >> 8), byte(e.V)}
		}
		if e.S == "bad" || e.S == "fuzz" {
			w.fault("malformed_datagram")
		}
		dst, port := w.bcastOf(h)
		if e.B >= 0 {
			dst, port = w.hosts[e.B].ip, w.portOf(w.hosts[e.B])
		}
		sport := wire.Port
		if e.D > 0 {
			sport = int(e.D)
		}
		w.route(e.H, src, sport, dst, port, e.Data)
	case "stuck":
		w.at((e.At+e.D)*1000, func() {
			for _, s := range w.hosts[e.H].socks {
				s.wakeWriters()
			}
		})
	case "rxerr":
		for _, s := range w.hosts[e.H].socks {
			for i := int64(0); i < max(e.B, 1); i++ {
				s.errs = append(s.errs, syscall.Errno(e.A))
			}
			s.wakeReader()
		}
	case "bindfail":
		for i := int64(0); i < max(e.B, 1); i++ {
			w.hosts[e.H].bindF = append(w.hosts[e.H].bindF, syscall.Errno(e.A))
		}
	case "wall":
		runtime.SimWallJump(e.A * 1000)
		w.fault("wall_clock_jump")
	case "snap":
		w.snapReq = true
	case "expect", "expectnodes":
		w.expect = append(w.expect, e)
		w.snapReq = true
	}
}

func (w *world) hash() uint64 {
	h := uint64(1)
	for i := range w.hist {
		e := &w.hist[i]
		h = plan.Mix(h ^ uint64(e.T)<<8 ^ uint64(e.K) ^ uint64(e.H)<<60 ^ uint64(e.Run+1)<<52)
		if len(e.Data) > 0 {
			h = plan.Mix(h ^ plan.HashStr(string(e.Data)))
		}
		if e.Op != nil {
			h = plan.Mix(h ^ uint64(e.Op.ID) ^ plan.HashStr(e.Op.K+e.Op.Err))
		}
		if e.Cb != nil {
			h = plan.Mix(h ^ plan.HashStr(e.Cb.Canon) ^ uint64(e.Cb.Cb))
		}
		if e.Snap != nil {
			h = plan.Mix(h ^ plan.HashStr(fmt.Sprint(*e.Snap)))
		}
	}
	return h
}

func (w *world) log() []string {
	var out []string
	for i := range w.hist {
		e := &w.hist[i]
		s := fmt.Sprintf("%d t=%.6f q=%d h%d", i, float64(e.T)/1e9, e.QC, e.H)
		switch e.K {
		case evTX, evRX:
			n, ip := "TX to", e.Dst
			if e.K == evRX {
				n, ip = "RX from", e.Src
			}
			d := ""
			if op, k := wire.Classify(e.Data); k == wire.Valid {
				d = fmt.Sprintf("op=%#x", op)
				if op == wire.OpDmx {
					x := wire.DecodeDmx(e.Data)
					d += fmt.Sprintf(" %d:%#x seq=%d %x", x.Addr.Net, x.Addr.SubUni, x.Seq, plan.HashStr(string(x.Data[:])))
				}
			} else {
				d = "malformed"
			}
			s += fmt.Sprintf(" run%d %s %v:%d %dB %s err=%v", e.Run, n, ip, e.Port, len(e.Data), d, e.Err)
		case evInv:
			s += fmt.Sprintf(" call#%d %s v=%d %v", e.Op.ID, e.Op.K, e.Op.V, e.Op.Addr)
		case evRet:
			s += fmt.Sprintf(" return#%d %s err=%q", e.Op.ID, e.Op.K, e.Op.Err)
		case evCB:
			s += fmt.Sprintf(" callback %d op=%#x", e.Cb.Cb, e.Cb.Op)
		case evCBEnd:
			s += fmt.Sprintf(" callback %d done", e.Cb.Cb)
		case evOpen:
			s += fmt.Sprintf(" bind run%d port %d", e.Run, e.Port)
		case evClose:
			s += fmt.Sprintf(" close run%d", e.Run)
		case evCrash:
			s += " crash"
		case evRxErr:
			s += fmt.Sprintf(" run%d read error", e.Run)
		case evSnap:
			s += fmt.Sprintf(" snapshot live=%d mine=%d nodes=%d out=%d in=%d", e.Snap.Live, e.Snap.Mine, len(e.Snap.Nodes), len(e.Snap.Out), len(e.Snap.In))
		}
		out = append(out, s)
	}
	return out
}
