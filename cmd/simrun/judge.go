package main

import (
	"fmt"
	"net"
	"runtime"
	"sort"
	"strings"

	"verif/internal/plan"
	"verif/internal/wire"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)

	refresh  = 250 * ms // every universe is repeated at least this often
	pollGap  = 3 * sec  // polls and house-keeping run every 3 s
	staleAge = 7 * sec  // a device is kept at least this long
	tight    = 1 * ms
)

type oracle struct {
	sent  map[uint64][]*opRec // submissions by value
	w     *world
	viol  []Violation
	evals map[string]int64
	seen  map[string]bool
	// per run
	runs   []*runView
	states []uint64
	stuck  map[int][][2]int64 // times during which a host's socket blocked writers, merged
}

type rxv struct {
	i       int // history index
	e       *ev
	op      uint16
	kind    wire.Kind
	foreign bool
	rep     *wire.Reply
	elig    bool
}

type frame struct {
	i  int
	e  *ev
	d  *wire.Dmx
	v  uint64
	ok bool // payload recognised
}

type runView struct {
	r       *runInfo
	h       *host
	end     int               // history index where it stops being observed (stop call, crash, end)
	endT    int64             // and the time
	startI  int               // Start returned without error, -1
	silent  map[[4]byte][]gap // cache of mayExpire
	cbs     map[uint16]int
	rx      []rxv
	frames  []frame
	polls   []int
	replies []int
	byIP    map[[4]byte][]*rxv // eligible announcements
	addrIP  map[wire.Addr]map[[4]byte]bool
	inIP    map[wire.Addr]map[[4]byte]bool
	// universes that two devices announce at the same time in no clear order
	contested, contestedIn map[wire.Addr]bool
	// universes that one device takes over from another
	owners, ownersIn map[wire.Addr][]block

	left   map[[4]byte][]*rxv // announcements an earlier run received and this one may have handled
	openQC uint64
	dirty  bool // a previous run, a failed start or a second start precedes events of this run
}

func judge(w *world, st runtime.SimStats) *oracle {
	o := &oracle{w: w, evals: map[string]int64{}, seen: map[string]bool{}}
	if st.Overrun {
		c := "runaway"
		if st.Stuck {
			c = "livelock"
		}
		o.add("*", c, now(), -1, "the library kept running without letting simulated time advance (%d steps)", st.Steps)
		return o
	}
	o.collect()
	for _, v := range o.runs {
		o.wireFormat(v)
		if v.h.cfg.Kind == "ctrl" {
			o.pollCadence(v)
			o.routing(v)
			o.sequence(v)
			o.registers(v)
			o.keepalive(v)
			o.rate(v)
		}
		o.replyContent(v)
	}
	o.snapshots()
	o.callbacks()
	o.lifecycle()
	o.expectations()
	for _, e := range o.w.optErrs {
		o.add("C04", "option", e.t, -1, "%s", e.s)
	}
	sort.SliceStable(o.viol, func(i, j int) bool { return o.viol[i].T < o.viol[j].T })
	return o
}

func (o *oracle) add(prop, class string, t int64, run int, f string, a ...any) {
	k := prop + "/" + class
	if o.seen[k] {
		return
	}
	o.seen[k] = true
	re := false
	if run >= 0 && run < len(o.runs) {
		re = o.runs[run].dirty
	}
	o.viol = append(o.viol, Violation{Prop: prop, Class: class, Msg: fmt.Sprintf(f, a...), T: t, Run: run, Re: re})
}

func (o *oracle) n(prop string) { o.evals[prop]++ }

// allow is how much later than usual something between t0 and t1 may happen
// on host h because the simulator itself delayed it.
func (o *oracle) allow(h int, t0, t1 int64) int64 {
	a := int64(0)
	for _, x := range o.stuck[h] {
		if x[0] <= t1 && x[1] >= t0 {
			a += x[1] - x[0]
		}
	}
	return a + o.stalled(t0, t1)
}

// stalled is the part of it that is due to stalled goroutines.
func (o *oracle) stalled(t0, t1 int64) (a int64) {
	s := &o.w.p.Sched
	if s.StallDen > 0 && s.StallFrom*1000 <= t1 && (s.StallTo+s.StallMax)*1000 >= t0 {
		a += s.StallTotal * 1000
	} else if o.w.p.Replay && s.StallTotal > 0 && s.StallFrom*1000 <= t1 && (s.StallTo+s.StallMax)*1000 >= t0 {
		a += s.StallTotal * 1000
	}
	return a
}

func (o *oracle) collect() {
	w := o.w
	o.stuck = map[int][][2]int64{}
	for _, x := range w.win {
		if x.k == "stuck" {
			o.stuck[x.ev.H] = append(o.stuck[x.ev.H], [2]int64{x.from, x.to})
		}
	}
	for h, l := range o.stuck {
		sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
		m := l[:1]
		for _, x := range l[1:] {
			// what one window delays may still be on its way when the next begins
			if p := &m[len(m)-1]; x[0] <= p[1]+pollGap {
				p[1] = max(p[1], x[1])
			} else {
				m = append(m, x)
			}
		}
		o.stuck[h] = m
	}
	for _, r := range w.runs {
		h := w.hosts[r.H]
		v := &runView{r: r, h: h, end: len(w.hist), endT: now(), startI: -1, silent: map[[4]byte][]gap{}, byIP: map[[4]byte][]*rxv{},
			addrIP: map[wire.Addr]map[[4]byte]bool{}, inIP: map[wire.Addr]map[[4]byte]bool{}, left: map[[4]byte][]*rxv{}, openQC: w.hist[r.Open].QC, dirty: r.Restart}
		if r.Close >= 0 {
			v.end, v.endT = r.Close, r.CloseT
		}
		if r.StopInv >= 0 && r.StopInv < v.end {
			v.end, v.endT = r.StopInv, r.StopInvT
		}
		o.runs = append(o.runs, v)
	}
	for _, op := range w.ops {
		if op.K != "start" {
			continue
		}
		opened := false
		for _, v := range o.runs {
			if v.r.Label != op.Label {
				continue
			}
			if v.r.Open > op.Inv && (op.Ret < 0 || v.r.Open < op.Ret) {
				opened = true
				if op.Ret >= 0 && op.Err == "" {
					v.startI = op.Ret
				}
			}
		}
		if !opened {
			for _, v := range o.runs {
				if v.r.Label == op.Label && v.end > op.Inv {
					v.dirty = true
				}
			}
		}
	}
	for i := range w.hist {
		e := &w.hist[i]
		if e.Run < 0 {
			continue
		}
		v := o.runs[e.Run]
		switch e.K {
		case evTX:
			if i > v.end || e.Op != nil {
				continue
			}
			op, k := wire.Classify(e.Data)
			if k != wire.Valid {
				continue
			}
			switch op {
			case wire.OpPoll:
				v.polls = append(v.polls, i)
			case wire.OpPollReply:
				v.replies = append(v.replies, i)
			case wire.OpDmx:
				d := wire.DecodeDmx(e.Data)
				f := frame{i: i, e: e, d: d}
				v.frames = append(v.frames, f)
			}
		case evRX:
			x := rxv{i: i, e: e}
			x.op, x.kind = wire.Classify(e.Data)
			x.foreign = e.Src != v.h.ip
			if x.op == wire.OpPollReply && x.kind == wire.Valid {
				x.rep = wire.DecodeReply(e.Data)
				x.elig = x.foreign && (x.rep.Style == wire.StNode || x.rep.Style == wire.StController && len(x.rep.Outputs()) > 0)
			}
			v.rx = append(v.rx, x)
		}
	}
	vals := map[[512]byte]uint64{{}: 0}
	o.sent = map[uint64][]*opRec{}
	for _, op := range w.ops {
		if op.K == "send" {
			d := plan.Fill(op.V)
			if u, ok := vals[d]; ok {
				op.V = u // the same payload under two names
			}
			vals[d] = op.V
			o.sent[op.V] = append(o.sent[op.V], op)
		}
	}
	for _, v := range o.runs {
		announced := func(x *rxv) {
			for _, a := range x.rep.Outputs() {
				if v.addrIP[a] == nil {
					v.addrIP[a] = map[[4]byte]bool{}
				}
				v.addrIP[a][x.rep.IP] = true
			}
			for _, a := range x.rep.Inputs() {
				if v.inIP[a] == nil {
					v.inIP[a] = map[[4]byte]bool{}
				}
				v.inIP[a][x.rep.IP] = true
			}
		}
		for _, u := range o.runs {
			if u == v || u.r.Label != v.r.Label || u.r.Open > v.r.Open {
				continue
			}
			for i := range u.rx {
				if x := &u.rx[i]; x.elig && u.unsettled(o, x) {
					v.left[x.rep.IP] = append(v.left[x.rep.IP], x)
					announced(x)
				}
			}
		}
		for i := range v.rx {
			x := &v.rx[i]
			if !x.elig {
				continue
			}
			v.byIP[x.rep.IP] = append(v.byIP[x.rep.IP], x)
			announced(x)
		}
		v.contested, v.owners = o.contest(v, v.addrIP, (*wire.Reply).Outputs)
		v.contestedIn, v.ownersIn = o.contest(v, v.inIP, (*wire.Reply).Inputs)
		for i := range v.frames {
			f := &v.frames[i]
			f.v, f.ok = vals[f.d.Data]
		}
	}
}

func lists(r *wire.Reply, a wire.Addr) bool {
	for _, x := range r.Outputs() {
		if x == a {
			return true
		}
	}
	return false
}

// tainted universes are announced by more than one device at a time, and the
// order in which the controller learnt of it is open.
func (v *runView) tainted(a wire.Addr) bool   { return v.contested[a] }
func (v *runView) taintedIn(a wire.Addr) bool { return v.contestedIn[a] }

// block is a time during which one device is the one that announced a
// universe last; it ends where the next one begins.
type block struct {
	ip [4]byte
	x  *rxv // the announcement with which it begins
}

// contest finds the universes that two devices may hold at the same time: those
// for which it is open who announced them last, and the others, with the
// devices in order.
func (o *oracle) contest(v *runView, m map[wire.Addr]map[[4]byte]bool, ports func(*wire.Reply) []wire.Addr) (map[wire.Addr]bool, map[wire.Addr][]block) {
	owners := map[wire.Addr][]block{}
	res := map[wire.Addr]bool{}
	has := func(x *rxv, a wire.Addr) bool {
		for _, b := range ports(x.rep) {
			if a == b {
				return true
			}
		}
		return false
	}
	for a, who := range m {
		if len(who) < 2 {
			continue
		}
		type span struct {
			ip       [4]byte
			from, to int64
		}
		var l []span
		for ip := range who {
			if len(v.left[ip]) > 0 {
				res[a] = true
			}
			for k, x := range v.byIP[ip] {
				if !has(x, a) {
					continue
				}
				s := span{ip, x.e.T, x.e.T + staleAge + pollGap + tight}
				s.to += o.allow(v.h.i, s.from, s.to)
				for _, y := range v.byIP[ip][k+1:] {
					if y.e.QC > x.e.QC && !has(y, a) {
						s.to = min(s.to, y.e.T+tight+o.allow(v.h.i, y.e.T, y.e.T+tight))
						break
					}
				}
				l = append(l, s)
			}
		}
		for i := range l {
			for j := range l[:i] {
				if l[i].ip != l[j].ip && l[i].from <= l[j].to && l[j].from <= l[i].to {
					res[a] = true
				}
			}
		}
		if !res[a] {
			continue
		}
		// in order, and each settled before the next came?
		var all []*rxv
		open := false
		for ip := range who {
			open = open || len(v.left[ip]) > 0
			for _, x := range v.byIP[ip] {
				if has(x, a) {
					all = append(all, x)
				}
			}
		}
		sort.Slice(all, func(i, j int) bool { return all[i].i < all[j].i })
		var bs []block
		for k, x := range all {
			if k > 0 && x.rep.IP == all[k-1].rep.IP {
				continue
			}
			open = open || k > 0 && all[k-1].e.QC >= x.e.QC
			bs = append(bs, block{x.rep.IP, x})
		}
		if !open {
			delete(res, a)
			owners[a] = bs
		}
	}
	return res, owners
}

// holder is the device that holds a universe taken over from another one at
// history index i for quiescence number qc, and the number of its block; ok is
// false if it is about to change hands.
func holder(bs []block, i int, qc uint64) (k int, ok bool) {
	k = sort.Search(len(bs), func(k int) bool { return bs[k].x.i >= i }) - 1
	return k, k >= 0 && bs[k].x.e.QC < qc
}

// lost reports whether ip lost the universe to another device, for good or for
// the time being, before quiescence number qc.
func lost(bs []block, ip [4]byte, i int, qc uint64) bool {
	for k := len(bs) - 1; k >= 0; k-- {
		if bs[k].x.i >= i {
			continue
		}
		if bs[k].ip == ip {
			return false
		}
		if bs[k].x.e.QC < qc {
			return true
		}
	}
	return false
}

// candidates are the announcements of ip that may be the controller's current
// view at history index i: the last settled batch plus everything unsettled.
func (v *runView) candidates(ip [4]byte, i int, qc uint64) (c []*rxv) {
	l := v.byIP[ip]
	l = l[:before(l, i)]
	n := sort.Search(len(l), func(k int) bool { return l[k].e.QC >= qc }) // settled
	batch := uint64(0)
	if n > 0 {
		batch = l[n-1].e.QC
	}
	m := n
	for m > 0 && l[m-1].e.QC == batch {
		m--
	}
	c = l[m:len(l):len(l)]
	if batch <= v.openQC {
		c = append(c, v.left[ip]...)
	}
	return
}

// before is the number of announcements received before history index i.
func before(l []*rxv, i int) int {
	return sort.Search(len(l), func(k int) bool { return l[k].i >= i })
}

// lastRX is the time of the last eligible announcement of ip before index i,
// settled ones only if settled is set.
func (v *runView) lastRX(ip [4]byte, i int, qc uint64, settled bool) (int64, bool) {
	l := v.byIP[ip]
	l = l[:before(l, i)]
	if settled {
		l = l[:sort.Search(len(l), func(k int) bool { return l[k].e.QC >= qc })]
	}
	if len(l) > 0 {
		return l[len(l)-1].e.T, true
	}
	if x := v.left[ip]; !settled && len(x) > 0 {
		return x[len(x)-1].e.T, true
	}
	return 0, false
}

type gap struct {
	i int
	t int64
}

// mayExpire reports whether the device may have been dropped and found again
// between times t0 and index i.
func (o *oracle) mayExpire(v *runView, ip [4]byte, t0 int64, i int) bool {
	gs, ok := v.silent[ip]
	if !ok {
		l := append(append([]*rxv(nil), v.left[ip]...), v.byIP[ip]...)
		for k := 1; k < len(l); k++ {
			a := o.allow(v.h.i, l[k-1].e.T, l[k].e.T+staleAge)
			if l[k].e.T-l[k-1].e.T > staleAge-a-tight && !o.sameEntry(v, ip, l[k].i) {
				gs = append(gs, gap{l[k].i, l[k].e.T + a + tight})
			}
		}
		v.silent[ip] = gs
	}
	for _, g := range gs {
		if g.i >= i {
			break
		}
		if g.t >= t0 {
			return true
		}
	}
	return false
}

// sameEntry reports whether the announcement at index i found the device listed
// and the very same entry was there when it had been handled.
func (o *oracle) sameEntry(v *runView, ip [4]byte, i int) bool {
	l := o.w.ids[identKey{v.h.i, ip}]
	k := sort.Search(len(l), func(k int) bool { return l[k].i >= i })
	if k == len(l) || l[k].i != i || l[k].ptr == 0 {
		return false
	}
	for j := k + 1; j < len(l) && l[j].i < v.end; j++ {
		if l[j].ptr != l[k].ptr {
			return false
		}
		if l[j].qc > l[k].qc {
			return true
		}
	}
	return false
}

func (v *runView) period() int64 {
	f := v.r.FPS
	if f == 0 {
		f = 1000
	}
	return sec / int64(f)
}

func ips(ip [4]byte) string { return fmt.Sprintf("%d.%d.%d.%d", ip[0], ip[1], ip[2], ip[3]) }

func as(a wire.Addr) string { return fmt.Sprintf("%d:%d.%d", a.Net, a.SubUni>>4, a.SubUni&15) }

// ---- C20: everything on the wire is well-formed ----

func (o *oracle) wireFormat(v *runView) {
	for i := range o.w.hist {
		e := &o.w.hist[i]
		if e.K != evTX || e.Run != v.r.ID {
			continue
		}
		if e.Op != nil {
			o.n("C23")
			if k := differ(e.Data, e.Op.Want); k >= 0 {
				o.add("C23", "wrong-encoding", e.T, v.r.ID, "host %d: a packet with opcode %#x that the application marshalled differs from its Art-Net form at byte %d", v.h.i, wire.Opcode(e.Op.Want), k)
			}
			continue
		}
		o.n("C20")
		op, k := wire.Classify(e.Data)
		bad := ""
		switch {
		case k != wire.Valid:
			bad = "not a well-formed Art-Net packet"
		case op == wire.OpPoll && v.h.cfg.Kind != "ctrl":
			bad = "a node sent an ArtPoll"
		case op == wire.OpDmx && v.h.cfg.Kind != "ctrl":
			bad = "a node sent an ArtDmx"
		case op == wire.OpPoll && len(e.Data) != 14:
			bad = fmt.Sprintf("ArtPoll of %d bytes", len(e.Data))
		case op == wire.OpPollReply && len(e.Data) != 239:
			bad = fmt.Sprintf("ArtPollReply of %d bytes", len(e.Data))
		case op == wire.OpPollReply && (e.Data[14] != 0x36 || e.Data[15] != 0x19):
			bad = "ArtPollReply port is not 0x1936 low byte first"
		case op == wire.OpPollReply && !zero(e.Data[194:200]) || op == wire.OpPollReply && !zero(e.Data[213:]):
			bad = "ArtPollReply spare bytes are not zero"
		case op == wire.OpDmx && (len(e.Data) != 530 || e.Data[16] != 2 || e.Data[17] != 0):
			bad = fmt.Sprintf("ArtDmx of %d bytes announces %d channels", len(e.Data), be(e.Data, 16))
		case op != wire.OpDmx && op != wire.OpPoll && op != wire.OpPollReply:
			bad = fmt.Sprintf("unexpected opcode %#x", op)
		case op != wire.OpPollReply && (e.Data[10] != 0 || e.Data[11] != 14):
			bad = "protocol version is not 14"
		}
		if bad != "" {
			o.add("C20", "malformed-output", e.T, v.r.ID, "host %d sent to %s: %s", v.h.i, ips(e.Dst), bad)
		}
	}
}

// differ is the first position at which two datagrams differ, or -1.
func differ(a, b []byte) int {
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	if k == len(a) && k == len(b) {
		return -1
	}
	return k
}

func zero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

// ---- C08: poll cadence ----

func (o *oracle) pollCadence(v *runView) {
	if v.startI < 0 {
		return
	}
	dst, port := bcastAddr(v.r.Bcast)
	prev := v.r.OpenT
	for k, i := range v.polls {
		e := &o.w.hist[i]
		o.n("C08")
		if e.Dst != dst || e.Port != port {
			o.add("C08", "poll-destination", e.T, v.r.ID, "controller %d sent an ArtPoll to %s:%d instead of %s:%d", v.h.i, ips(e.Dst), e.Port, ips(dst), port)
			o.add("C02", "poll-destination", e.T, v.r.ID, "controller %d sent an ArtPoll to %s:%d instead of %s:%d", v.h.i, ips(e.Dst), e.Port, ips(dst), port)
		}
		if e.Data[12]&2 == 0 {
			o.add("C08", "poll-flags", e.T, v.r.ID, "ArtPoll does not ask for replies on change (TalkToMe %#x)", e.Data[12])
		}
		gap, want := e.T-prev, pollGap
		if k == 0 {
			want = 0
		}
		a := o.allow(v.h.i, prev, e.T)
		if gap > want+tight+a {
			o.add("C08", "poll-late", e.T, v.r.ID, "controller %d: poll %d came %.3f s after the previous one (or the start)", v.h.i, k, float64(gap)/1e9)
		}
		// the previous poll may have been late
		if k > 0 && gap < want-tight-o.allow(v.h.i, prev-pollGap, e.T) {
			o.add("C08", "poll-early", e.T, v.r.ID, "controller %d: poll %d came only %.3f s after the previous one", v.h.i, k, float64(gap)/1e9)
		}
		prev = e.T
	}
	want := pollGap
	if len(v.polls) == 0 {
		want = 0
	}
	if v.endT-prev > want+tight+o.allow(v.h.i, prev, v.endT) {
		o.add("C08", "poll-missing", v.endT, v.r.ID, "controller %d: no poll for %.3f s", v.h.i, float64(v.endT-prev)/1e9)
	}
}

// ---- C02: routing ----

func (o *oracle) routing(v *runView) {
	for k := range v.frames {
		f := &v.frames[k]
		a, ip := f.d.Addr, f.e.Dst
		o.n("C02")
		if f.e.Port != wire.Port {
			o.add("C02", "frame-port", f.e.T, v.r.ID, "ArtDmx for %s sent to port %d", as(a), f.e.Port)
		}
		if isBcast(ip) {
			o.add("C02", "frame-broadcast", f.e.T, v.r.ID, "ArtDmx for %s broadcast to %s", as(a), ips(ip))
			continue
		}
		cand := v.candidates(ip, f.i, f.e.QC)
		hit := false
		for _, x := range cand {
			hit = hit || lists(x.rep, a)
		}
		if !hit && !v.tainted(a) {
			o.add("C02", "frame-unannounced", f.e.T, v.r.ID, "ArtDmx for universe %s sent to %s, which does not announce it", as(a), ips(ip))
			continue
		}
		if lost(v.owners[a], ip, f.i, f.e.QC) {
			o.add("C02", "frame-taken-over", f.e.T, v.r.ID, "ArtDmx for universe %s sent to %s after another device has announced it", as(a), ips(ip))
			continue
		}
		if last, ok := v.lastRX(ip, f.i, 0, false); ok {
			lim := staleAge + pollGap + tight + o.allow(v.h.i, last, f.e.T)
			if f.e.T-last > lim {
				o.add("C07", "frame-after-expiry", f.e.T, v.r.ID, "ArtDmx still sent to %s %.3f s after its last announcement", ips(ip), float64(f.e.T-last)/1e9)
			}
		}
		if f.ok && f.v != 0 && !v.tainted(a) {
			for _, op := range o.sent[f.v] {
				if op.Addr != a || op.H != v.h.i {
					o.add("C02", "cross-talk", f.e.T, v.r.ID, "universe %s at %s was sent data submitted for universe %s (controller %d)", as(a), ips(ip), as(op.Addr), op.H)
				}
			}
		}
	}
}

// ---- C05: sequence numbers ----

func (o *oracle) sequence(v *runView) {
	last := map[[4]byte]*frame{}
	for k := range v.frames {
		f := &v.frames[k]
		ip := f.e.Dst
		p := last[ip]
		last[ip] = f
		o.n("C05")
		if f.d.Seq == 0 {
			o.add("C05", "sequence-zero", f.e.T, v.r.ID, "ArtDmx to %s carries sequence number 0, which switches resequencing off", ips(ip))
			continue
		}
		if p == nil {
			if f.d.Seq != 1 {
				o.add("C05", "sequence-start", f.e.T, v.r.ID, "first ArtDmx to %s carries sequence number %d", ips(ip), f.d.Seq)
			}
			continue
		}
		want := p.d.Seq + 1
		if want == 0 {
			want = 1
		}
		if f.d.Seq != want && !(f.d.Seq == 1 && o.mayExpire(v, ip, p.e.T, f.i)) && p.d.Seq != 0 {
			o.add("C05", "sequence-gap", f.e.T, v.r.ID, "ArtDmx to %s: sequence number %d follows %d", ips(ip), f.d.Seq, p.d.Seq)
		}
	}
}

// ---- C01: every universe is an atomic register ----

type write struct {
	op      *opRec
	known   bool // certainly for a universe known to the controller
	unknown bool // certainly not
	ip      [4]byte
}

func (o *oracle) registers(v *runView) {
	w := o.w
	byAddr := map[wire.Addr][]*write{}
	byVal := map[valKey][]*write{} // in the order of invocation
	for _, op := range w.ops {
		if op.K != "send" || op.Label != v.r.Label || op.Ret >= 0 && op.Ret < v.r.Open {
			continue
		}
		if v.r.Close >= 0 && op.Inv > v.r.Close {
			continue
		}
		x := &write{op: op}
		o.classify(v, x)
		byAddr[op.Addr] = append(byAddr[op.Addr], x)
		byVal[valKey{op.Addr, op.V}] = append(byVal[valKey{op.Addr, op.V}], x)
	}
	for _, ws := range byAddr {
		sort.SliceStable(ws, func(i, j int) bool { return ws[i].op.Inv < ws[j].op.Inv })
	}
	for _, ws := range byVal {
		sort.SliceStable(ws, func(i, j int) bool { return ws[i].op.Inv < ws[j].op.Inv })
	}
	type key struct {
		ip [4]byte
		a  wire.Addr
	}
	type reg struct {
		prev    *frame
		cur     uint64
		entered map[uint64]int // how often the universe changed to this value
		reset   int            // history index of the last possible reset
	}
	regs := map[key]*reg{}
	byKey := map[key][]*frame{}
	for k := range v.frames {
		f := &v.frames[k]
		a, ip := f.d.Addr, f.e.Dst
		byKey[key{ip, a}] = append(byKey[key{ip, a}], f)
		if v.tainted(a) {
			continue
		}
		o.n("C01")
		if !f.ok {
			o.add("C01", "foreign-data", f.e.T, v.r.ID, "universe %s at %s was sent data nobody submitted (torn or mixed frame)", as(a), ips(ip))
			continue
		}
		// the submissions this frame may show
		inst := byVal[valKey{a, f.v}]
		if f.v != 0 && len(inst) == 0 {
			// data of another universe, controller or run
			o.add("C01", "not-submitted", f.e.T, v.r.ID, "universe %s at %s was sent data that was not submitted for it in this session", as(a), ips(ip))
			continue
		}
		all := inst
		for len(inst) > 0 && inst[len(inst)-1].op.Inv > f.i {
			inst = inst[:len(inst)-1]
		}
		if f.v != 0 && len(inst) == 0 {
			o.add("C01", "from-the-future", f.e.T, v.r.ID, "universe %s was sent data before it was submitted", as(a))
			inst = all
		}
		r := regs[key{ip, a}]
		if r == nil {
			r = &reg{entered: map[uint64]int{}, cur: f.v}
			if f.v != 0 { // the blackout of a new universe takes no submission
				r.entered[f.v] = 1
			}
			regs[key{ip, a}] = r
		}
		if r.prev != nil && o.mayExpire(v, ip, r.prev.e.T, f.i) {
			// the buffer may have been created anew: a blackout is fine
			r.reset = f.i
			r.entered = map[uint64]int{}
			if f.v != 0 {
				if r.cur != 0 {
					r.entered[r.cur] = 1
				}
				r.entered[f.v] = 1
			}
			r.cur = f.v
		}
		if f.v != 0 {
			unknown := true
			for _, x := range inst {
				unknown = unknown && x.unknown
			}
			if unknown {
				o.add("C02", "unknown-universe-data", f.e.T, v.r.ID, "data submitted for universe %s while no device announced it was sent later", as(a))
				o.add("C01", "unknown-universe-data", f.e.T, v.r.ID, "data submitted for universe %s while no device announced it was sent later", as(a))
			}
		}
		if f.v != r.cur {
			// each time the universe changes to a value takes a submission of its own
			r.entered[f.v]++
			if r.entered[f.v] > len(inst) {
				o.add("C01", "revert", f.e.T, v.r.ID, "universe %s at %s went back to older data (value %d after %d)", as(a), ips(ip), f.v, r.cur)
			}
			r.cur = f.v
		}
		// certainly superseded, whichever submission it shows?
		var by *write
		for i := len(inst) - 1; i >= 0; i-- {
			if by = o.superseded(v, byAddr[a], inst[i], f, r.reset); by == nil {
				break
			}
		}
		if f.v == 0 && (by != nil || len(inst) == 0) {
			by = o.superseded(v, byAddr[a], nil, f, r.reset)
		}
		if by != nil {
			o.add("C01", "stale", f.e.T, v.r.ID, "universe %s at %s was sent value %d although value %d had been submitted before", as(a), ips(ip), f.v, by.op.V)
		}
		r.prev = f
	}
	// every certain write reaches the wire in time
	for a, ws := range byAddr {
		if v.tainted(a) {
			continue
		}
		for _, y := range ws {
			if !y.known || y.op.Ret < 0 {
				continue
			}
			base := 2*v.period() + 5*ms
			al := o.allow(v.h.i, y.op.InvT, y.op.RetT+base)
			al = max(al, o.allow(v.h.i, y.op.InvT, y.op.RetT+base+al))
			dl := y.op.RetT + base + al
			if dl >= v.endT || !o.stays(v, y.ip, a, y.op.Ret, dl) {
				continue
			}
			o.n("C01")
			ok := false
			fr := byKey[key{y.ip, a}]
			for _, f := range fr[sort.Search(len(fr), func(i int) bool { return fr[i].i >= y.op.Inv }):] {
				if f.e.T > dl || ok {
					break
				}
				if !f.ok {
					continue
				}
				ok = f.v == y.op.V
				for _, z := range byVal[valKey{a, f.v}] {
					ok = ok || z.op.Ret < 0 || z.op.Ret > y.op.Inv
				}
			}
			if !ok {
				o.add("C01", "lost-update", dl, v.r.ID, "data submitted for universe %s at %.6f s was not sent within %.3f s", as(a), float64(y.op.InvT)/1e9, float64(dl-y.op.RetT)/1e9)
			}
		}
	}
}

type valKey struct {
	a wire.Addr
	v uint64
}

// superseded returns a write that had certainly replaced write x (nil: the
// initial blackout) when the frame was sent.
func (o *oracle) superseded(v *runView, ws []*write, x *write, f *frame, reset int) *write {
	w, ip := o.w, f.e.Dst
	if x != nil && x.op.Ret < 0 {
		return nil
	}
	if y := o.lingers(v, ws, x, f); y != nil {
		return y
	}
	for i := sort.Search(len(ws), func(i int) bool { return ws[i].op.Inv > f.i }) - 1; i >= 0; i-- {
		y := ws[i]
		if y.op.Inv < reset || x != nil && y.op.Inv <= x.op.Ret {
			break
		}
		if !y.known || y.op.Ret < 0 || y.op.V == f.v || y.ip != ip || y.op.Ret > f.i || w.hist[y.op.Ret].QC >= f.e.QC {
			continue
		}
		if o.mayExpire(v, ip, y.op.InvT, f.i) {
			continue // the buffer may have been created anew since
		}
		return y
	}
	return nil
}

// lingers returns a write that must have replaced write x because the device
// is still listed when the frame is sent and has not announced itself since
// before that write: it was listed then, too, however long it has been silent.
func (o *oracle) lingers(v *runView, ws []*write, x *write, f *frame) *write {
	w, ip, a := o.w, f.e.Dst, f.d.Addr
	l := v.byIP[ip]
	k := before(l, f.i) - 1
	if k < 0 || len(v.left[ip]) > 0 || l[k].i <= v.r.Open || !lists(l[k].rep, a) {
		return nil
	}
	for i := sort.Search(len(ws), func(i int) bool { return ws[i].op.Inv > f.i }) - 1; i >= 0; i-- {
		y := ws[i]
		if iq := w.hist[y.op.Inv].QC; x != nil && y.op.Inv <= x.op.Ret || l[k].e.QC >= iq {
			break
		} else if y.op.Ret >= 0 && y.op.Ret < f.i && w.hist[y.op.Ret].QC < f.e.QC && y.op.V != f.v && v.holds(ip, a, y.op.Inv, f.i, iq) {
			return y
		}
	}
	return nil
}

// classify decides whether the universe of a write was certainly known or
// certainly unknown during the call.
func (o *oracle) classify(v *runView, x *write) {
	op := x.op
	w := o.w
	iq := w.hist[op.Inv].QC
	ret, rt := op.Ret, op.RetT
	if ret < 0 {
		ret, rt = len(w.hist), now()
	}
	may := false
	for ip := range v.addrIP[op.Addr] {
		all, any := true, false
		settled := false
		for _, c := range v.candidates(ip, op.Inv, iq) {
			l := lists(c.rep, op.Addr)
			all, any = all && l, any || l
			settled = settled || c.e.QC < iq && c.i > v.r.Open
		}
		l := v.byIP[ip]
		for _, c := range l[before(l, op.Inv):before(l, ret)] {
			if c.i > op.Inv && c.i < ret {
				l := lists(c.rep, op.Addr)
				all, any = all && l, any || l
			}
		}
		last, _ := v.lastRX(ip, op.Inv, iq, true)
		lastAny, ok := v.lastRX(ip, ret, 0, false)
		if any && ok && op.InvT-lastAny <= staleAge+pollGap+tight+o.allow(v.h.i, lastAny, op.InvT) {
			may = true
		}
		if all && any && settled && rt-last <= staleAge-tight && !v.tainted(op.Addr) &&
			v.startI >= 0 && op.Inv > v.startI && op.Ret >= 0 && op.Ret < v.end && v.holds(ip, op.Addr, op.Inv, ret, iq) {
			x.known = true
			x.ip = ip
		}
	}
	x.unknown = !may
}

// holds reports whether ip is the device that announced the universe last from
// history index i to j.
func (v *runView) holds(ip [4]byte, a wire.Addr, i, j int, qc uint64) bool {
	bs := v.owners[a]
	if bs == nil {
		return true
	}
	k, ok := holder(bs, i, qc)
	return ok && bs[k].ip == ip && (k+1 == len(bs) || bs[k+1].x.i > j)
}

// stays reports whether the device certainly stays known with this universe
// from index i until time t.
func (o *oracle) stays(v *runView, ip [4]byte, a wire.Addr, i int, t int64) bool {
	last := int64(-1)
	for _, b := range v.owners[a] {
		if b.ip != ip && b.x.i > i && b.x.e.T <= t {
			return false
		}
	}
	l := v.byIP[ip]
	for _, x := range l[max(0, before(l, i)-1):] {
		if x.e.T > t {
			break
		}
		if x.i > i && last >= 0 && x.e.T-last > staleAge-tight-o.allow(v.h.i, last, x.e.T) {
			return false
		}
		if x.i > i && !lists(x.rep, a) {
			return false
		}
		last = x.e.T
	}
	return last >= 0 && t-last <= staleAge-tight
}

// ---- C03 and C04: refresh and rate ----

func (o *oracle) keepalive(v *runView) {
	T := v.period()
	type key struct {
		ip [4]byte
		a  wire.Addr
	}
	times := map[key][]int64{}
	for k := range v.frames {
		f := &v.frames[k]
		q := key{f.e.Dst, f.d.Addr}
		times[q] = append(times[q], f.e.T)
	}
	for ip, l := range v.byIP {
		addrs := map[wire.Addr]bool{}
		for _, x := range l {
			for _, a := range x.rep.Outputs() {
				addrs[a] = true
			}
		}
		for a := range addrs {
			if v.tainted(a) {
				continue
			}
			// maximal intervals during which the universe is certainly known
			first := len(v.left[ip]) == 0
			for k := 0; k < len(l); {
				if !lists(l[k].rep, a) {
					k++
					continue
				}
				from := l[k].e.T
				to := from + staleAge - tight
				next := int64(1) << 62 // another device takes it over
				for _, b := range v.owners[a] {
					if b.ip != ip && b.x.i > l[k].i {
						next = b.x.e.T
						break
					}
				}
				j := k + 1
				for j < len(l) && lists(l[j].rep, a) && l[j].e.T < next && l[j].e.T <= to-o.allow(v.h.i, l[j-1].e.T, l[j].e.T) {
					to = l[j].e.T + staleAge - tight
					j++
				}
				if j < len(l) && l[j].e.T < to {
					to = l[j].e.T
				}
				to = min(to, next)
				// a batch with contradicting announcements is not certain
				unsure := false
				for _, y := range l {
					if !lists(y.rep, a) && (y.e.QC == l[k].e.QC || y.i < l[k].i && y.e.QC >= l[k].e.QC) {
						unsure = true
					}
				}
				for _, y := range v.left[ip] {
					if !lists(y.rep, a) && l[k].e.QC <= v.openQC {
						unsure = true
					}
				}
				if to > v.endT {
					to = v.endT
				}
				if !unsure && to > from {
					o.gaps(v, ip, a, from, to, T, times[key{ip, a}], first)
				}
				first = false
				k = j
			}
		}
	}
}

func (o *oracle) gaps(v *runView, ip [4]byte, a wire.Addr, from, to, T int64, ts []int64, first bool) {
	prev := from
	bound := refresh + T + tight
	lim := bound
	if first {
		lim = T + tight
	}
	check := func(t int64) bool {
		o.n("C03")
		al := o.allow(v.h.i, prev, t)
		if t-prev > lim+al {
			class, what := "refresh-gap", "was not refreshed for"
			if prev == from && first {
				class, what = "slow-first-frame", "got no frame within"
			}
			o.add("C03", class, prev, v.r.ID, "universe %s of %s %s %.3f s (limit %.3f s)", as(a), ips(ip), what, float64(t-prev)/1e9, float64(lim+al)/1e9)
			return false
		}
		return true
	}
	for _, t := range ts {
		if t < from {
			continue
		}
		if t > to {
			break
		}
		if !check(t) {
			return
		}
		prev, lim = t, bound
	}
	check(to)
}

func (o *oracle) rate(v *runView) {
	fps := v.r.FPS
	if fps == 0 {
		fps = 1000
	}
	type key struct {
		ip [4]byte
		a  wire.Addr
	}
	ts := map[key][]int64{}
	for k := range v.frames {
		f := &v.frames[k]
		q := key{f.e.Dst, f.d.Addr}
		ts[q] = append(ts[q], f.e.T)
	}
	for q, l := range ts {
		if v.tainted(q.a) {
			continue
		}
		j := 0
		for i := range l {
			for j < len(l) && l[j] < l[i]+sec {
				j++
			}
			o.n("C04")
			lim := fps + 1
			if o.allow(v.h.i, l[i]-sec, l[i]+sec) > 0 {
				lim += 300 // frames queued behind a blocked sender leave in a burst
			}
			if j-i > lim {
				o.add("C04", "too-fast", l[i], v.r.ID, "universe %s of %s got %d frames within one second (limit %d)", as(q.a), ips(q.ip), j-i, fps)
				return
			}
		}
		// and no two frames of one universe closer than half an update period,
		// unless the simulator delayed the first
		T := v.period()
		for i := 1; i < len(l); i++ {
			if l[i]-l[i-1] < T/2 && o.allow(v.h.i, l[i-1]-2*sec, l[i]) == 0 {
				o.add("C04", "back-to-back", l[i], v.r.ID, "universe %s of %s got two frames %.6f s apart (update period %.6f s)", as(q.a), ips(q.ip), float64(l[i]-l[i-1])/1e9, float64(T)/1e9)
				return
			}
		}
	}
}

// ---- C09: content and destination of poll replies ----

func (o *oracle) replyContent(v *runView) {
	if v.r.Want == nil {
		return
	}
	want := v.r.Want.Encode()
	dst, port := bcastAddr(v.r.Bcast)
	for _, i := range v.replies {
		e := &o.w.hist[i]
		o.n("C09")
		if e.Dst != dst || e.Port != port {
			o.add("C09", "reply-destination", e.T, v.r.ID, "host %d sent its ArtPollReply to %s:%d instead of %s:%d", v.h.i, ips(e.Dst), e.Port, ips(dst), port)
		}
		if k := differ(e.Data, want); k >= 0 {
			o.add("C09", "reply-content", e.T, v.r.ID, "host %d: ArtPollReply differs from the node's configuration at byte %d", v.h.i, k)
		}
	}
}

// ---- checks at quiescent points: C06, C07, C09, C21 ----

func (o *oracle) activeRun(label int32, i int) *runView {
	for _, v := range o.runs {
		if v.r.Label == label && v.r.Open < i && v.end > i {
			return v
		}
	}
	return nil
}

func (o *oracle) snapshots() {
	base := map[int]int{} // run -> goroutines after start
	type memory struct{ first, most, devices int }
	mem := map[int]*memory{}
	for i := range o.w.hist {
		e := &o.w.hist[i]
		if e.K != evSnap {
			continue
		}
		s := e.Snap
		v := o.activeRun(s.Label, i)
		h := o.w.hosts[s.H]
		sh := plan.Hash(uint64(s.H), uint64(len(s.Nodes)), uint64(s.Live-s.Mine))
		for _, n := range s.Nodes {
			sh = plan.Hash(sh, plan.HashStr(n.IP), plan.HashStr(fmt.Sprint(n.Out, n.In)))
		}
		if v == nil {
			sh = plan.Hash(sh, 77)
		} else {
			sh = plan.Hash(sh, uint64(len(v.polls)), uint64(len(v.replies)), uint64(min(len(v.frames), 64)))
		}
		o.states = append(o.states, sh)
		if v == nil || v.startI < 0 || v.startI > i {
			continue
		}
		// goroutines
		extra := s.Live - s.Mine
		if b, ok := base[v.r.ID]; !ok {
			base[v.r.ID] = extra
		} else {
			o.n("C21")
			if extra > b+4+len(s.Nodes) {
				o.add("C21", "goroutine-leak", e.T, v.r.ID, "host %d: %d goroutines at rest, %d after start", s.H, extra, b)
			}
		}
		// memory: at most so much for each device ever listed at a time and each universe announced
		m := mem[v.r.ID]
		if m == nil {
			m = &memory{first: s.Bytes}
			mem[v.r.ID] = m
		}
		m.devices = max(m.devices, len(s.Nodes))
		if grown := s.Bytes - m.first; grown > m.most {
			m.most = grown
			if limit := 256<<10 + 8<<10*m.devices; grown > limit && grown > limit+1<<10*v.universes(e.T, nil) {
				o.add("C21", "memory-growth", e.T, v.r.ID, "host %d: its state takes %d bytes, %d after start", s.H, s.Bytes, m.first)
			}
		}
		if s.Pending > 0 && o.allow(h.i, e.T, e.T) == 0 {
			o.add(map[string]string{"ctrl": "C06", "node": "C10"}[h.cfg.Kind], "not-receiving", e.T, v.r.ID, "host %d is at rest and %d datagrams wait in its socket", s.H, s.Pending)
		}
		o.replyCount(v, i, e)
		if h.cfg.Kind == "ctrl" {
			o.view(v, i, e, s)
		}
	}
}

// universes counts what devices (all, or those given) have announced until t.
func (v *runView) universes(t int64, of map[string]bool) int {
	type key struct {
		ip [4]byte
		a  wire.Addr
	}
	m := map[key]bool{}
	for ip, l := range v.byIP {
		if of != nil && !of[net.IP(ip[:]).String()] {
			continue
		}
		for _, x := range l {
			if x.e.T <= t {
				for _, a := range append(x.rep.Outputs(), x.rep.Inputs()...) {
					m[key{ip, a}] = true
				}
			}
		}
	}
	return len(m)
}

// replyCount: one ArtPollReply per valid foreign ArtPoll (and per own poll).
func (o *oracle) replyCount(v *runView, i int, e *ev) {
	if m := o.callbackMap(v); m != nil {
		if cb := m[wire.OpPoll]; cb == unsure {
			return
		} else if cb != builtin {
			// the user took over (or removed) the poll handler
			left := o.leftover(v, wire.OpPoll)
			for _, k := range v.replies {
				if left--; k < i && v.h.cfg.Kind == "node" && left < 0 {
					o.add("C11", "builtin-still-active", e.T, v.r.ID, "host %d answered an ArtPoll although its poll handler was replaced", v.h.i)
				}
			}
			return
		}
	}
	lo, hi, own, bad := 0, 0, 0, 0
	for k := range v.rx {
		x := &v.rx[k]
		if x.i > i || x.op != wire.OpPoll {
			continue
		}
		switch {
		case !x.foreign:
			own++
		case x.kind == wire.Valid:
			lo++
			hi++
		case x.kind == wire.Ambiguous:
			hi++
		default:
			bad++
		}
	}
	mine := 0
	for _, k := range v.polls {
		if k < i {
			mine++
		}
	}
	got := 0
	for _, k := range v.replies {
		if k < i {
			got++
		}
	}
	lo, hi = lo+mine, hi+mine
	// a poll received just before the previous stop may be answered now
	hi += o.leftover(v, wire.OpPoll)
	o.n("C09")
	if got < lo {
		o.add("C09", "reply-missing", e.T, v.r.ID, "host %d sent %d ArtPollReply for %d ArtPoll", v.h.i, got, lo)
		if v.h.cfg.Kind == "ctrl" {
			o.add("C08", "own-reply-missing", e.T, v.r.ID, "controller %d sent %d ArtPollReply for %d ArtPoll (%d of its own)", v.h.i, got, lo, mine)
		}
	}
	if got > hi {
		o.add("C09", "reply-extra", e.T, v.r.ID, "host %d sent %d ArtPollReply for %d ArtPoll", v.h.i, got, hi)
		if own > 0 {
			o.add("C16", "answered-itself", e.T, v.r.ID, "host %d sent %d ArtPollReply for %d foreign polls; %d polls were its own", v.h.i, got, hi, own)
		}
		if bad > 0 {
			o.add("C12", "answered-malformed", e.T, v.r.ID, "host %d sent %d ArtPollReply for %d valid polls; %d polls were malformed", v.h.i, got, hi, bad)
		}
	}
	if own > 0 {
		o.n("C16")
	}
	if bad > 0 {
		o.n("C12")
	}
}

// leftover counts datagrams of an opcode that an earlier run of the same
// object received but may not have finished handling when it was stopped.
func (o *oracle) leftover(v *runView, op uint16) int {
	n := 0
	for _, u := range o.runs {
		if u == v || u.r.Label != v.r.Label || u.r.Open > v.r.Open {
			continue
		}
		for k := range u.rx {
			x := &u.rx[k]
			if x.op == op && x.foreign && x.kind != wire.Invalid && u.unsettled(o, x) {
				n++
			}
		}
	}
	return n
}

// unsettled: no quiescent point lies between the receipt and the stop.
func (v *runView) unsettled(o *oracle, x *rxv) bool {
	if v.end >= len(o.w.hist) {
		return false
	}
	return x.e.QC >= o.w.hist[v.end].QC
}

// unsettledKey: such a packet was received with no quiescent point before the stop.
func (o *oracle) unsettledKey(v *runView, op uint16, canon string) bool {
	for k := range v.rx {
		if x := &v.rx[k]; x.op == op && x.kind != wire.Invalid && v.unsettled(o, x) && canonRaw(x.e.Data) == canon {
			return true
		}
	}
	return false
}

// view compares the controller's public tables with the announcements.
func (o *oracle) view(v *runView, i int, e *ev, s *snap) {
	t, id := e.T, v.r.ID
	got := map[string][]nodeSnap{}
	for _, n := range s.Nodes {
		got[n.IP] = append(got[n.IP], n)
	}
	known := map[string]bool{}
	left := map[string]bool{}
	for ip := range v.left {
		left[ips(ip)] = true
	}
	for ip := range v.byIP {
		c := v.candidates(ip, i, e.QC)
		last, ok := v.lastRX(ip, i, e.QC, true)
		if !ok {
			continue
		}
		name := ips(ip)
		known[name] = true
		age := t - last
		al := o.allow(v.h.i, last, t)
		g := got[name]
		o.n("C06")
		o.n("C07")
		if len(g) > 1 {
			o.add("C06", "duplicate-node", t, id, "device %s is listed %d times", name, len(g))
		}
		if age <= staleAge-tight && len(g) == 0 {
			o.add("C06", "node-missing", t, id, "device %s announced itself %.3f s ago and is not listed", name, float64(age)/1e9)
			if age > 100*ms {
				o.add("C07", "expired-early", t, id, "device %s is not listed %.3f s after its last announcement", name, float64(age)/1e9)
			}
		}
		if age > staleAge+pollGap+tight+al && len(g) > 0 {
			o.add("C07", "not-expired", t, id, "device %s is still listed %.3f s after its last announcement", name, float64(age)/1e9)
		}
		for _, n := range g {
			okc, why := false, ""
			for _, x := range c {
				if d := diffNode(n, wantNode(x.rep)); d == "" {
					okc = true
				} else {
					why = d
				}
			}
			if !okc && !left[name] {
				o.add("C06", "node-differs", t, id, "device %s is listed with %s", name, why)
			}
		}
	}
	for name := range got {
		if known[name] || left[name] {
			continue
		}
		o.add("C06", "phantom-node", t, id, "device %s is listed but never announced itself as a device to control", name)
		for k := range v.rx {
			x := &v.rx[k]
			if x.i > i || x.op != wire.OpPollReply {
				continue
			}
			if len(x.e.Data) >= 14 && ips([4]byte(x.e.Data[10:14])) == name {
				if !x.foreign {
					o.add("C16", "listed-itself", t, id, "device %s is listed because of a datagram the controller sent itself", name)
				} else if x.kind == wire.Invalid {
					o.add("C12", "listed-malformed", t, id, "device %s is listed because of a malformed datagram", name)
				}
			}
		}
	}
	o.table(v, i, t, "output", s.Out, s.Nodes, func(n nodeSnap) []portSnap { return n.Out }, v.tainted, v.owners)
	o.table(v, i, t, "input", s.In, s.Nodes, func(n nodeSnap) []portSnap { return n.In }, v.taintedIn, v.ownersIn)
}

func (o *oracle) table(v *runView, i int, t int64, what string, m map[wire.Addr]string, nodes []nodeSnap, ports func(nodeSnap) []portSnap, tainted func(wire.Addr) bool, owners map[wire.Addr][]block) {
	want := map[wire.Addr]string{}
	more := map[wire.Addr][]string{}
	for _, n := range nodes {
		for _, p := range ports(n) {
			want[p.A] = n.IP
			more[p.A] = append(more[p.A], n.IP)
		}
	}
	for a := range want {
		bs := owners[a]
		if bs == nil {
			continue
		}
		k, _ := holder(bs, i, 1<<62)
		if k < 0 {
			continue
		}
		// the device that announced it last has it; if that one has left it
		// or gone, another one may get it back or not
		has := false
		for _, ip := range more[a] {
			has = has || ip == ips(bs[k].ip)
		}
		if has {
			want[a] = ips(bs[k].ip)
		} else if m[a] == "" || m[a] == more[a][0] {
			want[a] = m[a]
		}
	}
	for a, ip := range want {
		if !tainted(a) && m[a] != ip {
			o.add("C06", what+"-table", t, v.r.ID, "%s universe %s of listed device %s maps to %q", what, as(a), ip, m[a])
		}
	}
	for a, ip := range m {
		if _, ok := want[a]; ok || tainted(a) {
			continue
		}
		if ip == "?" {
			o.add("C07", what+"-table-stale", t, v.r.ID, "%s universe %s still maps to a device that is no longer listed", what, as(a))
		}
		o.add("C06", what+"-table-stale", t, v.r.ID, "%s universe %s maps to %s, which does not announce it", what, as(a), ip)
	}
}

func diffNode(a, b nodeSnap) string {
	if b.Name == "*" {
		a.Name = "*"
	}
	if b.Desc == "*" {
		a.Desc = "*"
	}
	if b.Esta == "*" {
		a.Esta = "*"
	}
	x, y := fmt.Sprintf("%+v", a), fmt.Sprintf("%+v", b)
	if x == y {
		return ""
	}
	return fmt.Sprintf("%s, announced was %s", clip(x), clip(y))
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// ---- C10, C11: callbacks ----

const builtin = -1

// unsure marks an opcode in the callback map whose registration is not
// certain, because it was changed concurrently with a Start or Stop.
const unsure = -7

// callbackMap is the registration table in force during a run of a node.
func (o *oracle) callbackMap(v *runView) map[uint16]int {
	if v.h.cfg.Kind != "node" {
		return nil
	}
	if v.cbs != nil {
		return v.cbs
	}
	m := map[uint16]int{wire.OpPoll: builtin, wire.OpPollReply: builtin}
	over := func(a, b *opRec) bool { // the calls overlap
		return (a.Ret < 0 || a.Ret > b.Inv) && (b.Ret < 0 || b.Ret > a.Inv)
	}
	var regs, life []*opRec
	for _, op := range o.w.ops {
		if op.Label != v.r.Label {
			continue
		}
		switch op.K {
		case "reg", "dereg":
			regs = append(regs, op)
		case "start", "stop":
			life = append(life, op)
		}
	}
	for _, op := range regs {
		if op.Inv > v.r.Open {
			continue
		}
		running, sure := false, true
		for _, u := range o.runs {
			if u.r.Label == op.Label && u.r.Open < op.Inv && u.end > op.Inv && u.startI >= 0 {
				running = true
				sure = u.startI < op.Inv && op.Ret >= 0 && op.Ret < u.end
			}
		}
		if !running || !sure {
			sure = true
			for _, l := range life {
				sure = sure && !over(op, l)
			}
			for _, x := range regs {
				sure = sure && (x == op || x.Code != op.Code || !over(op, x))
			}
		}
		switch {
		case !sure:
			m[op.Code] = unsure
		case running:
		case op.K == "reg":
			m[op.Code] = op.Cb
		default:
			delete(m, op.Code)
		}
	}
	// a change that was under way while this run was opened
	for _, op := range regs {
		if op.Inv > v.r.Open && (v.startI < 0 || op.Inv < v.startI) {
			m[op.Code] = unsure
		}
	}
	v.cbs = m
	return m
}

func (o *oracle) callbacks() {
	w := o.w
	type key struct {
		op    uint16
		canon string
	}
	app, appOp := map[key]bool{}, map[uint16]bool{} // sent by applications of this library
	for i := range w.hist {
		if e := &w.hist[i]; e.K == evTX && e.Op != nil && !e.Err {
			op := wire.Opcode(e.Op.Want)
			app[key{op, canonRaw(e.Op.Want)}] = true
			appOp[op] = true
		}
	}
	byLabel := map[int32][]*runView{}
	for _, v := range o.runs {
		if v.h.cfg.Kind == "node" {
			byLabel[v.r.Label] = append(byLabel[v.r.Label], v)
		}
	}
	for label, vs := range byLabel {
		running := map[uint16]bool{} // opcodes with a (to be ignored) change while running
		for _, op := range w.ops {
			if op.Label == label && (op.K == "reg" || op.K == "dereg") {
				for _, u := range vs {
					if u.r.Open < op.Inv && u.end > op.Inv {
						running[op.Code] = true
					}
				}
			}
		}
		left := map[key]int{} // received earlier, maybe still to be delivered
		for n, v := range vs {
			m := o.callbackMap(v)
			from := v.r.Open
			to := len(w.hist)
			if n+1 < len(vs) {
				to = vs[n+1].r.Open
			}
			lo, hi := map[key]int{}, map[key]int{}
			ownK, badOps := map[key]int{}, 0
			pend := map[key]int{} // received just before the stop, with no callback at that time
			got := map[key]int{}
			rxi := 0
			lastBlocked := false
			outstanding := 0
			for i := from; i < to; i++ {
				e := &w.hist[i]
				for rxi < len(v.rx) && v.rx[rxi].i <= i {
					x := &v.rx[rxi]
					rxi++
					cb, reg := m[x.op]
					if x.kind == wire.Invalid {
						badOps++
						continue
					}
					k := key{x.op, canonRaw(x.e.Data)}
					if !x.foreign {
						ownK[k]++
						continue
					}
					if !reg || cb == builtin {
						if v.unsettled(o, x) {
							pend[k]++
						}
						continue
					}
					if x.kind == wire.Valid && cb != unsure {
						lo[k]++
					}
					hi[k]++
				}
				switch {
				case e.K == evCBEnd && e.Cb.Label == label:
					outstanding--
				case e.K == evCB && e.Cb.Label == label:
					outstanding++
					c := e.Cb
					k := key{c.Op, c.Canon}
					cb, reg := m[c.Op]
					o.n("C10")
					o.n("C11")
					if !reg || cb != c.Cb && cb != unsure {
						if left[k] > 0 {
							left[k]--
							continue
						}
						if i > v.end && pend[k] > 0 {
							pend[k]--
							continue
						}
						if i > v.end && hi[k] > got[k] && o.unsettledKey(v, c.Op, c.Canon) {
							got[k]++
							continue
						}
						o.add("C11", "wrong-callback", e.T, v.r.ID, "host %d: callback %d ran for opcode %#x, registered was %v", v.h.i, c.Cb, c.Op, regName(m, c.Op))
						continue
					}
					got[k]++
					if got[k] > hi[k] {
						if left[k] > 0 {
							left[k]--
							got[k]--
							continue
						}
						class := "callback-extra"
						if hi[k] == 0 {
							class = "callback-wrong-content"
						}
						o.add("C10", class, e.T, v.r.ID, "host %d: callback %d ran %d times for a packet received %d times: %s", v.h.i, c.Cb, got[k], hi[k], clip(c.Canon))
						if class == "callback-wrong-content" && appOp[k.op] {
							o.add("C23", "received-differently", e.T, v.r.ID, "host %d: a callback got a packet nobody sent: %s", v.h.i, clip(c.Canon))
						}
						if ownK[k] > 0 {
							o.add("C16", "callback-for-own", e.T, v.r.ID, "host %d: callback ran for a datagram sent from its own address", v.h.i)
						}
						if badOps > 0 && class == "callback-wrong-content" && ownK[k] == 0 {
							o.add("C12", "callback-for-malformed", e.T, v.r.ID, "host %d: callback ran for content no valid datagram carried: %s", v.h.i, clip(c.Canon))
						}
					}
				case e.K == evSnap && e.Snap.Label == label && i < v.end:
					lastBlocked = outstanding > 0
					for k, want := range lo {
						o.n("C10")
						if got[k] < want {
							o.add("C10", "callback-missing", e.T, v.r.ID, "host %d: %d packets with opcode %#x received, callback ran %d times: %s", v.h.i, want, k.op, got[k], clip(k.canon))
							if app[k] {
								o.add("C23", "not-received", e.T, v.r.ID, "host %d: a packet sent by another application did not reach its callback: %s", v.h.i, clip(k.canon))
							}
							if running[k.op] {
								o.add("C11", "change-while-running", e.T, v.r.ID, "host %d: callback for %#x no longer runs after a registration call made while the node was running", v.h.i, k.op)
							}
							if lastBlocked {
								o.add("C22", "blocked-callback", e.T, v.r.ID, "host %d: a blocked callback keeps other packets from being delivered", v.h.i)
							}
						}
					}
				}
			}
			for k, want := range hi {
				if d := want - got[k]; d > 0 {
					left[k] += d
				}
			}
			for k, d := range pend {
				left[k] += d
			}
		}
	}
	for i := range w.hist {
		if c := w.hist[i].Cb; c != nil && w.hist[i].K == evCB {
			if l := c.Late(); l != c.Canon {
				o.add("C10", "packet-mutated", w.hist[i].T, -1, "a packet handed to a callback changed afterwards: %s became %s", clip(c.Canon), clip(l))
			}
		}
	}
}

func regName(m map[uint16]int, op uint16) string {
	cb, ok := m[op]
	switch {
	case !ok:
		return "none"
	case cb == builtin:
		return "the built-in handler"
	}
	return fmt.Sprintf("callback %d", cb)
}

// ---- C14, C15: lifecycle ----

func (o *oracle) lifecycle() {
	w := o.w
	end := now()
	crashed := map[int32]int{}
	for i := range w.hist {
		if w.hist[i].K == evCrash {
			h := w.hosts[w.hist[i].H]
			for _, op := range w.ops {
				if op.H == h.i && op.Inv < i && (h.sut == nil || op.Label != h.sut.label) {
					if _, ok := crashed[op.Label]; !ok {
						crashed[op.Label] = i
					}
				}
			}
		}
	}
	stopped := map[int32]int{}
	for _, op := range w.ops {
		if op.K == "stop" {
			if _, ok := stopped[op.Label]; !ok {
				stopped[op.Label] = op.Inv
			}
		}
	}
	for _, op := range w.ops {
		if _, dead := crashed[op.Label]; dead && op.Ret < 0 {
			continue
		}
		lim := 100*ms + o.allow(op.H, op.InvT, op.InvT+100*ms)
		late := op.Ret < 0 && end-op.InvT > lim || op.Ret >= 0 && op.RetT-op.InvT > lim+o.allow(op.H, op.InvT, op.RetT)
		if op.K == "stop" { // sends that block do not hold it up
			lim = 100*ms + o.stalled(op.InvT, op.InvT+100*ms)
			late = op.Ret < 0 && end-op.InvT > lim || op.Ret >= 0 && op.RetT-op.InvT > lim+o.stalled(op.InvT, op.RetT)
		}
		st, wasStopped := stopped[op.Label]
		wasStopped = wasStopped && (op.Ret < 0 || st < op.Ret)
		switch op.K {
		case "stop":
			o.n("C14")
			if late {
				o.add("C14", "stop-hangs", op.InvT, -1, "Stop on host %d %s", op.H, howLong(op))
			}
		case "start":
			o.n("C15")
			if late {
				o.add("C15", "start-hangs", op.InvT, -1, "Start on host %d %s", op.H, howLong(op))
			}
		case "send", "flood":
			if late {
				if wasStopped {
					o.add("C14", "call-hangs", op.InvT, -1, "SendDMXToAddress around a Stop on host %d %s", op.H, howLong(op))
				} else {
					o.add("C01", "call-hangs", op.InvT, -1, "SendDMXToAddress on host %d %s", op.H, howLong(op))
				}
			}
		case "tx":
			if late {
				o.add("C23", "call-hangs", op.InvT, -1, "sending a packet from host %d %s", op.H, howLong(op))
			}
		default:
			if late {
				o.add("C11", "call-hangs", op.InvT, -1, "%s on host %d %s", op.K, op.H, howLong(op))
			}
		}
		if op.K == "start" && op.Ret >= 0 {
			opened, active := false, false
			for _, v := range o.runs {
				if v.r.Label != op.Label {
					continue
				}
				if v.r.Open > op.Inv && v.r.Open < op.Ret {
					opened = true
				}
				if v.r.Open < op.Inv && (v.r.Close < 0 || v.r.Close > op.Inv) {
					active = true
				}
			}
			alone := true // concurrent calls of Start: which one opened the socket?
			for _, x := range w.ops {
				if x != op && x.K == "start" && x.Label == op.Label && (x.Ret < 0 || x.Ret > op.Inv) && x.Inv < op.Ret {
					alone = false
				}
			}
			switch {
			case !alone && (opened || op.Err != ""):
			case op.Bad && opened:
				o.add("C15", "invalid-config-accepted", op.RetT, -1, "Start on host %d opened its socket with a configuration that cannot be announced", op.H)
			case opened && op.Err != "":
				o.add("C15", "start-reports-old-error", op.RetT, -1, "Start on host %d opened its socket and returned error %q", op.H, op.Err)
			case !opened && op.Err == "":
				o.add("C15", "start-hides-error", op.RetT, -1, "Start on host %d returned no error but has no new socket", op.H)
			case !opened && !active && !strings.Contains(op.Err, "bind") && !op.Bad:
				o.add("C15", "start-refused", op.RetT, -1, "Start on host %d failed although the port is free: %s", op.H, op.Err)
			}
		}
		if op.K == "stop" && op.Ret >= 0 {
			for _, v := range o.runs {
				if v.r.Label == op.Label && v.r.Open < op.Inv && v.startI >= 0 && v.startI < op.Inv && (v.r.Close < 0 || v.r.Close > op.Ret) {
					o.add("C14", "socket-open-after-stop", op.RetT, v.r.ID, "host %d: the socket is still open when Stop returns", op.H)
				}
			}
		}
	}
	// as many sockets as successful calls
	for _, h := range w.hosts {
		if h.sut == nil {
			continue
		}
		opens, good, n := map[int32]int{}, map[int32]int{}, map[int32]int{}
		for _, v := range o.runs {
			opens[v.r.Label]++
		}
		for _, op := range w.ops {
			if op.K == "start" && op.H == h.i {
				if n[op.Label]++; op.Ret < 0 {
					n[op.Label] = -1 << 30
				} else if op.Err == "" {
					good[op.Label]++
				}
			}
		}
		for l, k := range n {
			if _, dead := crashed[l]; !dead && k > 0 && opens[l] != good[l] {
				o.add("C15", "start-count", end, -1, "host %d: %d calls of Start succeeded and %d sockets were opened", h.i, good[l], opens[l])
			}
		}
	}
	for _, v := range o.runs {
		o.n("C15")
		ip, port := o.w.listenOf(v.h)
		if v.r.IP != ip || v.r.Port != port {
			o.add("C15", "wrong-address", v.r.OpenT, v.r.ID, "host %d listens on %s:%d instead of %s:%d", v.h.i, ips(v.r.IP), v.r.Port, ips(ip), port)
		}
	}
	// silence and no leftovers after Stop
	for _, v := range o.runs {
		if v.r.StopInv < 0 || v.r.Crash || v.startI < 0 || v.startI > v.r.StopInv {
			continue
		}
		ret := -1
		for _, op := range w.ops {
			if op.K == "stop" && op.Label == v.r.Label && op.Inv == v.r.StopInv {
				ret = op.Ret
			}
		}
		if ret < 0 {
			continue
		}
		for i := ret; i < len(w.hist); i++ {
			if e := &w.hist[i]; e.K == evTX && e.Run == v.r.ID {
				o.add("C14", "traffic-after-stop", e.T, v.r.ID, "host %d sent a datagram after Stop returned", v.h.i)
			}
		}
	}
	for i := range w.hist {
		e := &w.hist[i]
		if e.K != evSnap {
			continue
		}
		s := e.Snap
		idle, any := true, false
		for _, v := range o.runs {
			if v.r.Label == s.Label && v.r.Open < i {
				any = true
				if v.r.Close < 0 || v.r.Close > i {
					idle = false
				}
			}
		}
		for _, op := range w.ops {
			if op.Label == s.Label && op.Inv < i && (op.Ret < 0 || op.Ret > i) {
				idle = false
			}
		}
		if any && idle {
			o.n("C14")
			if s.Live > s.Mine {
				o.add("C14", "goroutines-after-stop", e.T, -1, "host %d: %d goroutines are left after Stop", s.H, s.Live-s.Mine)
			}
		}
	}
}

func howLong(op *opRec) string {
	if op.Ret < 0 {
		return "never returned"
	}
	return fmt.Sprintf("took %.3f s", float64(op.RetT-op.InvT)/1e9)
}

// ---- C18: convergence once faults have stopped ----

func (o *oracle) expectations() {
	for _, e := range o.w.expect {
		switch e.K {
		case "expect":
			o.expectData(e)
		case "expectnodes":
			o.expectNodes(e)
		}
	}
}

// calm: no fault of any kind between the two times.
func (o *oracle) calm(from, to int64) bool {
	for _, x := range o.w.win {
		if x.from < to && x.to > from {
			return false
		}
	}
	s := &o.w.p.Sched
	if s.StallTotal > 0 && s.StallFrom*1000 < to && (s.StallTo+s.StallMax)*1000 > from {
		return false
	}
	for i := range o.w.p.Events {
		e := &o.w.p.Events[i]
		t := e.At * 1000
		if t < from || t > to {
			continue
		}
		switch e.K {
		case "rxerr", "bindfail", "crash", "off", "on", "ports", "start", "stop", "wall", "dgram":
			return false
		}
	}
	return true
}

// up: the machine works throughout.
func (o *oracle) up(h *host, from, to int64) bool {
	if h.peer != nil {
		off := h.cfg.Off
		for i := range o.w.p.Events {
			e := &o.w.p.Events[i]
			if e.H == h.i && e.At*1000 <= from {
				if e.K == "off" {
					off = true
				}
				if e.K == "on" {
					off = false
				}
			}
		}
		return !off
	}
	for _, v := range o.runs {
		if v.r.H == h.i && v.startI >= 0 && v.r.OpenT <= from && v.endT >= to {
			return true
		}
	}
	return false
}

// now is what the machine announces, with nothing changing.
func (o *oracle) now(h *host, from, to int64) *wire.Reply {
	if h.peer != nil {
		return wire.DecodeReply(h.peer.reply())
	}
	for _, v := range o.runs {
		if v.r.H == h.i && v.startI >= 0 && v.r.OpenT <= from && v.endT >= to && v.r.Want != nil {
			return v.r.Want
		}
	}
	return &wire.Reply{}
}

// shared: more than one device has this universe.
func (o *oracle) shared(a wire.Addr, from, to int64) bool {
	n := 0
	for _, h := range o.w.hosts {
		for _, b := range o.now(h, from, to).Outputs() {
			if a == b {
				n++
			}
		}
	}
	return n > 1
}

func (o *oracle) expectData(e *plan.Event) {
	w := o.w
	at, sent := e.At*1000, e.D*1000
	c, n := w.hosts[e.H], w.hosts[e.C]
	from := sent - 10*sec
	if !o.calm(from, at) || !o.up(c, from, at) || !o.up(n, from, at) {
		return
	}
	submitted := 0
	for _, op := range w.ops {
		if op.K == "send" && op.Addr == (wire.Addr{Net: uint8(e.A), SubUni: uint8(e.B)}) && op.H == e.H && op.InvT >= sent {
			submitted++
			if op.V != e.V || op.Ret < 0 {
				return
			}
		}
	}
	if submitted != 1 {
		return
	}
	ctrls := 0
	for _, h := range w.hosts {
		if h.cfg.Kind == "ctrl" {
			ctrls++
		}
	}
	want := plan.Fill(e.V)
	a := wire.Addr{Net: uint8(e.A), SubUni: uint8(e.B)}
	has := false
	for _, b := range o.now(n, from, at).Outputs() {
		has = has || a == b
	}
	if !has || o.shared(a, from, at) {
		return
	}
	got, last := false, false
	if n.sut != nil {
		ok := false
		for _, v := range o.runs {
			if v.r.H == n.i && v.startI >= 0 && v.r.OpenT <= from && v.endT >= at {
				cb, reg := o.callbackMap(v)[wire.OpDmx]
				ok = reg && cb != builtin && cb != unsure
			}
		}
		if !ok {
			return
		}
	}
	seq := uint8(0)
	for i := range w.hist {
		x := &w.hist[i]
		if x.H != n.i || x.T > at || x.T < sent {
			continue
		}
		var d *wire.Dmx
		if x.K == evPeerRX && x.Src == c.ip {
			d = wire.DecodeDmx(x.Data)
		} else if x.K == evCB && x.Cb.Dmx != nil {
			d = x.Cb.Dmx
		}
		if d != nil && d.Addr == a {
			// the network may reorder: the sequence number decides which is newer
			if ctrls == 1 && seq != 0 && int8(d.Seq-seq) < 0 {
				continue
			}
			seq = d.Seq
			last = d.Data == want
			got = got || last
		}
	}
	o.n("C18")
	if !got || ctrls == 1 && !last {
		o.add("C18", "data-not-delivered", at, -1, "data submitted for universe %s on controller %d was not what host %d showed %.3f s later, with no fault for %.0f s", as(a), e.H, n.i, float64(at-sent)/1e9, float64(sent-from)/1e9)
	}
}

func (o *oracle) expectNodes(e *plan.Event) {
	w := o.w
	at := e.At * 1000
	c := w.hosts[e.H]
	from := at - 10*sec - 100*ms
	if !o.calm(from, at) || !o.up(c, from, at) {
		return
	}
	want := map[string]bool{}
	ports := map[string]*wire.Reply{}
	for _, i := range e.Hs {
		if o.up(w.hosts[i], from, at) {
			ip := ips(w.hosts[i].ip)
			want[ip] = true
			ports[ip] = o.now(w.hosts[i], from, at)
		}
	}
	for i := range w.hist {
		x := &w.hist[i]
		if x.K != evSnap || x.H != e.H || x.T < at {
			continue
		}
		if x.T > at+100*ms {
			return
		}
		o.n("C18")
		got := map[string]bool{}
		for _, n := range x.Snap.Nodes {
			got[n.IP] = true
			if !want[n.IP] {
				o.add("C18", "extra-device", x.T, -1, "controller %d lists %s, which has been gone for 10 s", e.H, n.IP)
			}
		}
		for _, n := range x.Snap.Nodes {
			if !want[n.IP] {
				continue
			}
			as1, as2 := map[wire.Addr]bool{}, map[wire.Addr]bool{}
			for _, a := range ports[n.IP].Outputs() {
				as1[a] = true
				if x.Snap.Out[a] != n.IP && !o.shared(a, from, at) {
					o.add("C18", "missing-universe", x.T, -1, "controller %d does not associate universe %s with %s although both have been up with no fault for 10 s", e.H, as(a), n.IP)
				}
			}
			for _, p := range n.Out {
				as2[p.A] = true
			}
			if fmt.Sprint(as1) != fmt.Sprint(as2) {
				o.add("C18", "wrong-ports", x.T, -1, "controller %d lists %s with outputs %v, it has had %v for 10 s", e.H, n.IP, as2, as1)
			}
		}
		for ip := range want {
			if !got[ip] {
				o.add("C18", "missing-device", x.T, -1, "controller %d does not list %s although both have been up with no fault for 10 s", e.H, ip)
			}
		}
		return
	}
}
