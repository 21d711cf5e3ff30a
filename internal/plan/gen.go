package plan

import (
	"fmt"
	"net"
	"sort"
	"strings"

	"verif/internal/wire"
)

// Families lists the generator families.
var Families = []string{"dmx", "burst", "disco", "poll", "cb", "block", "fuzz", "ioerr", "stop", "restart", "e2e", "clock", "long", "mix", "app", "swap", "many", "life", "churn",
	"xframes", "xday", "xpackets", "xidle", "xblocked", "xrestarts", "xdevices", "xerrors", "xjunk"}

const (
	ms  = int64(1000)
	sec = int64(1000000)
)

type gen struct {
	r      *Rng
	p      *Plan
	used   map[[2]uint8]bool
	val    uint64
	cb     uint64
	blocks [][2]uint8
	start  int64 // when host 0 is first started
	unique bool  // every submission has a value of its own
	vals   map[sendKey][]uint64
}

// Gen makes the plan of (family, seed).
func Gen(family string, seed uint64) *Plan {
	r := NewRng(Hash(HashStr(family), seed))
	g := &gen{r: r, used: map[[2]uint8]bool{}}
	g.p = &Plan{Family: family, Seed: seed, NetSeed: r.U(), MaxSteps: 400000000, InstSteps: 20000000}
	if family[0] == 'x' {
		g.p.MaxSteps, g.p.InstSteps = 2000000000, 400000000
	}
	switch family {
	case "dmx":
		g.dmx()
	case "burst":
		g.burst()
	case "disco":
		g.disco()
	case "poll":
		g.poll()
	case "cb":
		g.callbacks(g.r.P(1, 8))
	case "block":
		g.callbacks(true)
	case "fuzz":
		g.fuzz()
	case "ioerr":
		g.ioerr()
	case "stop":
		g.stop()
	case "restart":
		g.restart()
	case "e2e":
		g.e2e()
	case "clock":
		g.clock()
	case "long":
		g.long()
	case "mix":
		g.mix()
	case "app":
		g.app()
	case "swap":
		g.swap()
	case "many":
		g.many()
	case "life":
		g.life()
	case "xframes":
		g.xframes()
	case "edge":
		g.edge()
	case "xpairs":
		g.xpairs()
	case "xday":
		g.xday()
	case "xpackets":
		g.xpackets()
	case "churn":
		g.churn()
	case "xidle":
		g.xidle()
	case "xblocked":
		g.xblocked()
	case "xrestarts":
		g.xrestarts()
	case "xdevices":
		g.xdevices()
	case "xerrors":
		g.xerrors()
	case "xjunk":
		g.xjunk()
	case "xsubmit":
		g.xsubmit()
	case "leak":
		g.leak()
	default:
		panic("unknown family " + family)
	}
	switch family {
	case "xpackets", "xjunk", "xsubmit", "xerrors", "xdevices", "xframes", "xday":
		g.p.Heap = r.P(1, 2) && g.p.SnapOff == 0
	case "leak":
		g.p.Heap = true
	}
	g.bystander()
	g.listen()
	g.snap()
	sort.SliceStable(g.p.Events, func(i, j int) bool { return g.p.Events[i].At < g.p.Events[j].At })
	return g.p
}

// bystander adds another object of the library to the process, which belongs
// to another network and has other options.
func (g *gen) bystander() {
	r := NewRng(Hash(g.p.NetSeed, 4713))
	f := g.p.Family
	if f[0] == 'x' || f == "leak" || f == "e2e" || len(g.p.Hosts) == 0 || !r.P(1, 6) {
		return
	}
	pre, bc := "2.44.0.", ""
	if b := g.p.Hosts[0].Bcast; b == "" || b[0] == '2' && b[1] == '.' {
		pre, bc = "10.44.0.", "10.255.255.255:6454"
	}
	var h int
	if r.P(1, 2) {
		h = g.ctrl(pre, bc, Pick(r, 1, 2, 10, 44))
		as := g.allAddrs()
		if len(as) > 0 {
			for i := r.N(30); i > 0; i-- {
				g.send(r.R(0, max(1, g.p.End)), h, as[r.N(len(as))])
			}
		}
	} else {
		h = g.node(pre, bc, r.N(5), r.N(3))
		g.p.Hosts[h].Ports.Style = 0
	}
	t := r.R(0, max(1, g.p.End/2))
	switch r.N(3) {
	case 0:
		t = 0
	case 1: // in step with the first
		t = g.start
		if fps := g.p.Hosts[0].FPS; g.p.Hosts[h].Kind == "ctrl" && fps > 0 && fps <= 500 {
			g.p.Hosts[h].FPS = fps
		}
	}
	g.ev(Event{At: t, K: "start", H: h})
	if r.P(1, 3) {
		g.ev(Event{At: r.R(t, max(t+1, g.p.End)), K: "stop", H: h})
	}
}

// listen varies the listen address of the machines under test and the source
// port of injected datagrams.
func (g *gen) listen() {
	r := NewRng(Hash(g.p.NetSeed, 4711))
	for i := range g.p.Hosts {
		h := &g.p.Hosts[i]
		if h.Kind == "peer" || h.Listen != "" || !r.P(1, 5) {
			continue
		}
		h.Listen = Pick(r, "0.0.0.0:6454", "0.0.0.0:6454", ":6454", "0.0.0.0")
		if g.p.Family != "e2e" && g.p.Family != "long" && h.Kind == "node" && r.P(1, 4) {
			h.Listen = Pick(r, h.IP, h.IP+":6454") // broadcasts do not arrive
		}
	}
	for i := range g.p.Events {
		if e := &g.p.Events[i]; e.K == "dgram" && r.P(1, 8) {
			e.D = Pick(r, int64(1024), 6453, 50000, 65535)
		}
	}
}

// snap moves events to the very moments at which a controller's own timers
// fire, where calls and datagrams meet its loops.
func (g *gen) snap() {
	r := NewRng(Hash(g.p.NetSeed, 4712))
	if g.p.Family[0] == 'x' || !r.P(1, 3) {
		return
	}
	if r.P(1, 2) {
		g.p.LatMax = g.p.LatMin
	}
	starts := map[int]int64{}
	for i := range g.p.Events {
		if e := &g.p.Events[i]; e.K == "start" {
			if t, ok := starts[e.H]; !ok || e.At < t {
				starts[e.H] = e.At
			}
		}
	}
	last := map[int]int64{} // a stop must stay before the start that follows
	for i := range g.p.Events {
		if e := &g.p.Events[i]; e.K == "start" {
			last[e.H] = max(last[e.H], e.At)
		}
	}
	den := 1 + r.N(3)
	for i := range g.p.Events {
		e := &g.p.Events[i]
		var lead int64
		h := e.H
		if g.p.Family == "e2e" && e.K != "send" {
			continue
		}
		switch e.K {
		case "send", "reg", "dereg", "stuck", "rxerr", "txerr", "wall":
		case "stop":
			if e.At <= last[e.H] {
				continue
			}
		case "dgram", "announce":
			h = max(0, int(e.B))
			if g.p.LatMin != g.p.LatMax {
				continue
			}
			lead = g.p.LatMin
		default:
			continue
		}
		if h >= len(g.p.Hosts) || !r.P(1, den) {
			continue
		}
		if g.p.Hosts[h].Kind != "ctrl" {
			h = 0
		}
		t0, ok := starts[h]
		if !ok || g.p.Hosts[h].Kind != "ctrl" || e.At < t0 {
			continue
		}
		fps := int64(g.p.Hosts[h].FPS)
		if fps == 0 {
			fps = 1000
		}
		p := sec / fps
		if e.K != "send" && r.P(1, 2) {
			p = Pick(r, 3*sec, 250*ms)
		}
		e.At = max(0, t0+(e.At-t0+p-1)/p*p-lead)
	}
}

func (g *gen) ev(e Event) { g.p.Events = append(g.p.Events, e) }

// ---- environment ----

func (g *gen) sched(stalls bool) {
	r := g.r
	s := &g.p.Sched
	s.Seed, s.Aux = r.U(), r.U()
	s.Policy = Pick(r, int32(0), 1, 1, 1, 2, 2, 3)
	s.YieldDen = Pick(r, uint32(0), 2, 3, 6, 15, 50, 300)
	if s.Policy == 0 && s.YieldDen == 0 {
		s.YieldDen = 10
	}
	if s.Policy == 2 {
		s.PrioDen = Pick(r, uint32(0), 20, 200, 2000)
	}
	if stalls {
		s.StallDen = Pick(r, uint32(40), 200, 1000, 5000)
		s.StallMax = Pick(r, 2*ms, 20*ms, 100*ms, 500*ms)
		s.StallTotal = Pick(r, 20*ms, 200*ms, 800*ms, 2*sec)
		s.StallFrom = r.R(0, g.p.End)
		s.StallTo = s.StallFrom + r.R(200*ms, 3*sec)
	}
}

func (g *gen) net() {
	r := g.r
	switch r.N(4) {
	case 0:
		g.p.LatMin, g.p.LatMax = 50, 150
	case 1:
		g.p.LatMin, g.p.LatMax = 100, 2000
	case 2:
		g.p.LatMin, g.p.LatMax = 0, 0
	default:
		g.p.LatMin, g.p.LatMax = 500, 20000
	}
	g.p.NoLoop = r.P(1, 4)
	g.p.Snap = r.R(250*ms, 1100*ms)
}

var subnets = []struct{ pre, bc string }{
	{"2.0.0.", ""}, {"2.0.0.", ""}, {"2.0.0.", ""}, {"2.17.3.", "2.255.255.255:6454"}, {"10.0.7.", "10.255.255.255:6454"}, {"192.168.1.", "255.255.255.255:6454"},
}

func (g *gen) subnet() (string, string) {
	s := subnets[g.r.N(len(subnets))]
	return s.pre, s.bc
}

// block picks an unused (net, sub) pair.
func (g *gen) block() (uint8, uint8) {
	for {
		b := [2]uint8{uint8(g.r.N(3)), uint8(g.r.N(4))}
		switch g.r.N(6) {
		case 0:
			b = [2]uint8{uint8(g.r.N(128)), uint8(g.r.N(16))}
		case 1:
			b = [2]uint8{Pick(g.r, uint8(0), 127), Pick(g.r, uint8(0), 15)}
		}
		if !g.used[b] {
			g.used[b] = true
			g.blocks = append(g.blocks, b)
			return b[0], b[1]
		}
	}
}

func (g *gen) nibbles(n int) []uint8 {
	var out []uint8
	seen := map[uint8]bool{}
	for len(out) < n {
		x := uint8(g.r.N(16))
		if g.r.P(1, 2) {
			x = uint8(len(out))
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	if n > 1 && g.r.P(1, 12) {
		// the same universe on two ports
		out[g.r.N(n)] = out[g.r.N(n)]
	}
	return out
}

func (g *gen) ports(out, in int) Ports {
	n, s := g.block()
	return Ports{Net: n, Sub: s, Out: g.nibbles(out), In: g.nibbles(in)}
}

// peer adds a scripted device.
func (g *gen) peer(pre, bc string, out, in int) int {
	r := g.r
	i := len(g.p.Hosts)
	h := Host{Kind: "peer", IP: ip(pre, i), Bcast: bc, Ports: g.ports(out, in)}
	if i > 0 && r.P(1, 6) {
		h.IP = g.nearIP(h.IP)
	}
	h.Ports.Name = g.pname(i)
	h.Desc = Pick(r, "", "a device", "long description of this device", desc63)
	h.Ports.BE = r.P(1, 6)
	if r.P(1, 2) {
		h.Extra = r.U() | 1
	}
	h.RMin = Pick(r, int64(0), 100, 2000)
	h.RMax = h.RMin + Pick(r, int64(0), 500, 20000, 900000)
	h.Reply = Pick(r, 0, 0, 1)
	g.p.Hosts = append(g.p.Hosts, h)
	return i
}

func (g *gen) pname(i int) string {
	return Pick(g.r, "node", "a", "dimmer rack 1", "seventeen chars 1", "") // at most 17
}

const desc63 = "a description of as many characters as fit: sixty-three of them"

// ip is the address of host i.
func ip(pre string, i int) string {
	if i <= 240 {
		return fmt.Sprintf("%s%d", pre, 10+i)
	}
	p := strings.SplitN(pre, ".", 3)
	return fmt.Sprintf("%s.%s.%d.%d", p[0], p[1], 100+i/200, 1+i%200)
}

// nearIP is an address that differs from that of another host, mostly the first,
// in one byte that is not the last.
func (g *gen) nearIP(def string) string {
	r := g.r
	b := net.ParseIP(g.p.Hosts[Pick(r, 0, 0, r.N(len(g.p.Hosts)))].IP).To4()
	k := r.N(3)
	b[k] = Pick(r, b[k]^1, b[k]^128, byte(1+r.N(200)))
	if b[0] == 0 || b[0] == 127 || b[0] >= 224 || b[1] == 255 {
		return def
	}
	for i := range g.p.Hosts {
		if g.p.Hosts[i].IP == b.String() {
			return def
		}
	}
	return b.String()
}

// ctrl adds the real controller.
func (g *gen) ctrl(pre, bc string, fps int) int {
	r := g.r
	i := len(g.p.Hosts)
	h := Host{Kind: "ctrl", IP: ip(pre, i), Name: Pick(r, "ctrl", "c", "controller name x", ""), FPS: fps, Bcast: bc, Extra: r.U()}
	h.Log = Pick(r, 0, 0, 0, 0, 1, 2)
	g.p.Hosts = append(g.p.Hosts, h)
	return i
}

// node adds a real node.
func (g *gen) node(pre, bc string, out, in int) int {
	r := g.r
	i := len(g.p.Hosts)
	h := Host{Kind: "node", IP: ip(pre, i), Name: g.pname(i), Desc: Pick(r, "", "a real node", desc63), Bcast: bc, Ports: g.ports(out, in)}
	h.Ports.Bind = uint8(r.N(3))
	h.Log = Pick(r, 0, 0, 0, 0, 1, 2)
	if r.P(2, 3) {
		h.Extra = r.U()
	}
	g.p.Hosts = append(g.p.Hosts, h)
	return i
}

func (g *gen) fps() int {
	return Pick(g.r, 0, 500, 100, 44, 44, 40, 30, 25, 10, 7, 2, 1)
}

// universes of host i under configuration c.
func addrs(c *Ports) []wire.Addr {
	var out []wire.Addr
	for _, n := range c.Out {
		out = append(out, wire.Addr{Net: c.Net, SubUni: c.Sub<<4 | n})
	}
	return out
}

func (g *gen) send(t int64, h int, a wire.Addr) uint64 {
	g.val++
	v := g.val
	k := sendKey{h, a}
	if !g.unique {
		switch g.r.N(16) {
		case 0: // a blackout
			v = 0
		case 1: // the same as some time before
			if l := g.vals[k]; len(l) > 0 {
				v = l[g.r.N(len(l))]
			}
		case 2, 3: // almost the same as the latest
			if l := g.vals[k]; len(l) > 0 && l[len(l)-1] != 0 {
				v = l[len(l)-1]&(1<<40-1) | uint64(1+g.r.N(2048))<<40
			}
		}
	}
	if g.vals == nil {
		g.vals = map[sendKey][]uint64{}
	}
	g.vals[k] = append(g.vals[k], v)
	g.ev(Event{At: t, K: "send", H: h, A: int64(a.Net), B: int64(a.SubUni), V: v})
	return v
}

type sendKey struct {
	h int
	a wire.Addr
}

// sends schedules n writes by controller h over the window to the universes.
func (g *gen) sends(h int, from, to int64, n int, as []wire.Addr) {
	r := g.r
	if len(as) == 0 || to <= from {
		return
	}
	for n > 0 {
		t := r.R(from, to)
		a := as[r.N(len(as))]
		k := 1
		switch r.N(6) {
		case 0: // racing writers of one universe
			k = 2 + r.N(4)
			for j := 0; j < k; j++ {
				g.send(t+Pick(r, int64(0), 0, 1, 30), h, a)
			}
		case 1: // a frame over all universes
			k = len(as)
			for _, b := range as {
				g.send(t, h, b)
			}
		case 2: // a short fade
			k = 3 + r.N(8)
			step := r.R(1, 60*ms)
			for j := 0; j < k; j++ {
				g.send(t+int64(j)*step, h, a)
			}
		default:
			g.send(t, h, a)
		}
		n -= k
	}
}

func (g *gen) allAddrs() []wire.Addr {
	var as []wire.Addr
	for i := range g.p.Hosts {
		if h := &g.p.Hosts[i]; h.Kind != "ctrl" {
			as = append(as, addrs(&h.Ports)...)
		}
	}
	return as
}

// strangers are universes nobody announces as an output.
func (g *gen) strangers(n int) []wire.Addr {
	var as []wire.Addr
	for i := 0; i < n; i++ {
		switch g.r.N(4) {
		case 3: // one that differs little from an existing one, or is none at all
			if l := g.allAddrs(); len(l) > 0 {
				a := l[g.r.N(len(l))]
				switch g.r.N(4) {
				case 0:
					a.Net ^= 0x80
				case 1:
					a.Net ^= 1 << g.r.N(7)
				case 2:
					a.SubUni ^= 1 << g.r.N(8)
				case 3:
					a.Net, a.SubUni = a.SubUni, a.Net
				}
				as = append(as, a)
			}
		case 0:
			a, b := g.block()
			as = append(as, wire.Addr{Net: a, SubUni: b<<4 | uint8(g.r.N(16))})
		case 1: // a neighbour of an existing one
			if len(g.blocks) > 0 {
				b := g.blocks[g.r.N(len(g.blocks))]
				as = append(as, wire.Addr{Net: b[0], SubUni: b[1]<<4 | uint8(g.r.N(16))})
			}
		case 2: // an input
			for i := range g.p.Hosts {
				c := &g.p.Hosts[i].Ports
				for _, x := range c.In {
					as = append(as, wire.Addr{Net: c.Net, SubUni: c.Sub<<4 | x})
				}
			}
		}
	}
	return as
}

// mutate changes the ports of peer h now and then.
func (g *gen) changes(h int, from, to int64, n int) {
	r := g.r
	cur := g.p.Hosts[h].Ports
	var ts []int64
	for i := 0; i < n; i++ {
		ts = append(ts, r.R(from, to))
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	for _, t := range ts {
		c := cur
		switch r.N(8) {
		case 6:
			c.X = r.U() | 1
		case 7:
			c.Bind = uint8(r.N(4))
			c.X = Pick(r, c.X, r.U()|1)
		case 0:
			c.Out = g.nibbles(r.N(5))
		case 1:
			c.In = g.nibbles(r.N(5))
		case 2:
			c.Name = g.pname(h) + "2"
			if len(c.Name) > 17 {
				c.Name = c.Name[:17]
			}
		case 3:
			c.Net, c.Sub = g.block()
		case 4:
			c.Style = Pick(r, uint8(0), 1, 2, 4, 6)
		case 5:
			c.Num = r.N(6) + 1
		}
		cur = c
		cc := c
		g.ev(Event{At: t, K: "ports", H: h, Cfg: &cc})
		if r.P(2, 3) {
			g.ev(Event{At: t + r.R(0, 50*ms), K: "announce", H: h, B: Pick(r, int64(-1), 0)})
		}
		if r.P(1, 4) {
			// two announcements close together, the second with other ports
			g.ev(Event{At: t + 60*ms, K: "announce", H: h, B: 0})
			d := c
			d.Out = g.nibbles(r.N(5))
			cur = d
			dd := d
			g.ev(Event{At: t + 60*ms, K: "ports", H: h, Cfg: &dd})
			g.ev(Event{At: t + 60*ms + r.R(0, 3), K: "announce", H: h, B: 0})
		}
	}
}

// power switches peer h off and on.
func (g *gen) power(h int, from, to int64) {
	r := g.r
	t := r.R(from, to)
	if r.P(1, 2) { // the last sign of life comes at any time between two polls
		g.ev(Event{At: max(0, t-r.R(0, 50*ms)), K: "announce", H: h, B: Pick(r, int64(-1), 0)})
	}
	g.ev(Event{At: t, K: "off", H: h})
	t += Pick(r, r.R(100*ms, 3*sec), r.R(6*sec, 8*sec), r.R(9*sec, 14*sec))
	if t < to {
		g.ev(Event{At: t, K: "on", H: h})
		if r.P(1, 2) {
			g.ev(Event{At: t + r.R(0, 20*ms), K: "announce", H: h, B: -1})
		}
	}
}

// netFaults adds n fault windows on the network.
func (g *gen) netFaults(from, to int64, n int, kinds ...string) {
	r := g.r
	if len(kinds) == 0 {
		kinds = []string{"loss", "dup", "delay", "part"}
	}
	for i := 0; i < n; i++ {
		e := Event{At: r.R(from, to), K: Pick(r, kinds...), A: -1, B: -1, P: Pick(r, int64(30), 200, 500, 1000)}
		e.D = r.R(50*ms, max(100*ms, min(to-e.At, 12*sec)))
		if e.At+e.D > to {
			e.D = to - e.At
		}
		switch e.K {
		case "delay":
			e.C = Pick(r, 2*ms, 50*ms, 400*ms)
		case "part":
			for h := range g.p.Hosts {
				if r.P(1, 2) {
					e.Hs = append(e.Hs, h)
				}
			}
		}
		if r.P(1, 3) {
			e.B = int64(r.N(len(g.p.Hosts)))
		}
		g.ev(e)
	}
}

// wallJumps adds clock jumps.
func (g *gen) wallJumps(from, to int64, n int) {
	r := g.r
	for i := 0; i < n; i++ {
		j := Pick(r, 1*ms, 300*ms, 5*sec, 8*sec, 60*sec, 3600*sec, 400*86400*sec)
		if r.P(1, 2) {
			j = -j
		}
		g.ev(Event{At: r.R(from, to), K: "wall", A: j})
	}
}

// ---- datagrams ----

// Packet builds a random well-formed datagram with the given opcode.
func (g *gen) Packet(op uint16) []byte {
	r := g.r
	mode := r.N(12)
	fill := func(b []byte) {
		for i := range b {
			b[i] = byte(r.U())
			switch {
			case mode == 0, mode == 1 && i >= len(b)/2, mode == 2 && i%7 != 0:
				b[i] = 0
			case mode == 3:
				b[i] = 0xff
			case mode == 4:
				b[i] = 'A' + b[i]%26
			}
		}
	}
	var b []byte
	switch op {
	case wire.OpPoll:
		b = wire.Poll(Pick(r, uint8(0), 2, 6, 0x1e, uint8(r.U())), uint8(r.U()))
	case wire.OpDmx:
		n := Pick(r, 2, 4, 24, 100, 256, 510, 512, 512, 2+2*r.N(256))
		d := make([]byte, n)
		fill(d)
		b = wire.EncodeDmx(uint8(r.U()), wire.Addr{Net: uint8(r.N(128)), SubUni: uint8(r.U())}, d)
		if r.P(1, 2) {
			b[13] = uint8(r.U())
		}
	case wire.OpPollReply:
		b = wire.Header(op, 239)
		fill(b[10:213])
		b[14], b[15] = 0x36, 0x19
		if r.P(1, 4) {
			b[14], b[15] = 0x19, 0x36
		}
		b[200] = uint8(r.N(wire.MaxStyle + 1))
	default:
		b = wire.Header(op, wire.Size(op))
		fill(b[12:])
		if op == wire.OpCommand {
			b[12], b[13] = 0xff, 0xff
		}
	}
	if op != wire.OpPollReply && r.P(1, 10) {
		b[11] = uint8(r.R(14, 255))
	}
	if r.P(1, 12) {
		pad := make([]byte, 1+r.N(Pick(r, 40, 40, 40, 1400)))
		fill(pad)
		b = append(b, pad...)
	}
	return b
}

// op picks a packet type, often one the library itself deals with.
func (g *gen) op() uint16 {
	if g.r.P(1, 3) {
		return Pick(g.r, uint16(wire.OpPoll), wire.OpDmx, wire.OpPollReply)
	}
	return wire.Ops[g.r.N(len(wire.Ops))]
}

// bad builds a datagram that must have no effect, or (fuzz) an arbitrary one.
func (g *gen) bad() []byte {
	r := g.r
	rnd := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.U())
		}
		return b
	}
	switch r.N(13) {
	case 0:
		return rnd(r.N(64))
	case 1:
		return rnd(Pick(r, 0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 530, 1472, 4096, 5000))
	case 2: // wrong identifier
		b := g.Packet(g.op())
		b[r.N(8)] ^= byte(1 << r.N(8))
		return b
	case 3: // truncated
		b := g.Packet(g.op())
		return b[:r.N(len(b))]
	case 4: // truncated just short of the end
		op := g.op()
		b := g.Packet(op)
		n := wire.Size(op)
		if op == wire.OpDmx {
			n = 18 + int(b[16])<<8 + int(b[17])
		}
		if n > len(b) {
			n = len(b)
		}
		return b[:n-1-r.N(3)]
	case 5: // opcode nobody knows, or one that has no packet type
		o := g.op()
		b := g.Packet(o)
		op := Pick(r, uint16(0), 0x2001, 0x0020, 0x0050, 0x5300, 0x8000, 0x9800, 0xffff, uint16(r.U()))
		if r.P(1, 2) { // close to the real one
			op = Pick(r, o|uint16(1+r.N(255)), o<<8|o>>8, o^1<<(8+r.N(8)), o+0x100)
		}
		b[8], b[9] = byte(op), byte(op>>8)
		return b
	case 6: // old protocol version
		op := g.op()
		if op == wire.OpPollReply || r.P(1, 2) {
			op = Pick(r, uint16(wire.OpPoll), wire.OpDmx)
		}
		b := g.Packet(op)
		b[10], b[11] = 0, Pick(r, uint8(13), 0, uint8(r.N(14)))
		return b
	case 7: // ArtDmx whose length field lies
		b := g.Packet(wire.OpDmx)
		n := Pick(r, 0, 1, 3, 511, 513, 514, 1024, 65535, len(b)-18+2, r.N(65536))
		b[16], b[17] = byte(n>>8), byte(n)
		return b
	case 8: // announcement with a wrong port, style or length
		b := g.Packet(wire.OpPollReply)
		switch r.N(3) {
		case 0:
			b[14+r.N(2)] ^= byte(1 + r.N(255))
		case 1:
			b[200] = uint8(r.R(wire.MaxStyle+1, 255))
		case 2:
			b = b[:r.R(12, 238)]
		}
		return b
	case 9: // headers only
		b := wire.Header(g.op(), 12)
		return b[:Pick(r, 8, 10, 11, 12)]
	case 10: // strings without end, all ones
		b := g.Packet(wire.OpPollReply)
		for i := 26; i < 172; i++ {
			b[i] = 0xff
		}
		b[172], b[173] = 0xff, 0xff
		return b
	case 11: // several bit flips
		b := g.Packet(g.op())
		for i := r.N(6); i >= 0; i-- {
			b[r.N(min(len(b), 24))] ^= byte(1 << r.N(8))
		}
		return b
	default: // ArtPoll shorter than it has to be / command with foreign maker code
		if r.P(1, 2) {
			return g.Packet(wire.OpPoll)[:12+r.N(2)]
		}
		b := g.Packet(wire.OpCommand)
		b[12+r.N(2)] = byte(r.N(255))
		return b
	}
}

// safeDgram drops announcements that would claim the address of another
// machine or a universe of another device (unsupported by design).
func (g *gen) safeDgram(b []byte) []byte {
	op, k := wire.Classify(b)
	if op == wire.OpPollReply && k != wire.Invalid {
		// an address of its own and a block of its own
		b = append([]byte(nil), b...)
		b[10], b[11], b[12], b[13] = 2, 200, byte(len(g.p.Events)>>8), byte(len(g.p.Events))
		n, s := g.blockOrRandom()
		b[18], b[19] = n, s
	}
	return b
}

func (g *gen) blockOrRandom() (uint8, uint8) {
	for i := 0; i < 50; i++ {
		b := [2]uint8{uint8(g.r.N(128)), uint8(g.r.N(16))}
		if !g.used[b] {
			g.used[b] = true
			return b[0], b[1]
		}
	}
	return 127, 15
}

func (g *gen) dgram(t int64, from int, to int64, b []byte, s string) {
	g.ev(Event{At: t, K: "dgram", H: from, B: to, Data: g.safeDgram(b), S: s})
}

// junk sends n malformed datagrams to host h.
func (g *gen) junk(h int, from, to int64, n int) {
	r := g.r
	src := g.somePeer()
	if src < 0 {
		return
	}
	for n > 0 {
		t := r.R(from, to)
		k := 1
		if r.P(1, 5) {
			k = 2 + r.N(15)
		}
		for j := 0; j < k; j++ {
			g.dgram(t, src, Pick(r, int64(-1), int64(h)), g.bad(), "fuzz")
		}
		n -= k
	}
}

func (g *gen) somePeer() int {
	var ps []int
	for i := range g.p.Hosts {
		if g.p.Hosts[i].Kind == "peer" {
			ps = append(ps, i)
		}
	}
	if len(ps) == 0 {
		return -1
	}
	return ps[g.r.N(len(ps))]
}

// own sends datagrams whose source is host h itself.
func (g *gen) own(h int, from, to int64, n int) {
	r := g.r
	for i := 0; i < n; i++ {
		b := g.Packet(Pick(r, uint16(wire.OpPoll), wire.OpPoll, wire.OpPollReply, wire.OpDmx, wire.OpSync))
		if wire.Opcode(b) == wire.OpPollReply {
			b[200] = wire.StNode
		}
		g.ev(Event{At: r.R(from, to), K: "dgram", H: g.other(h), B: int64(h), C: int64(h) + 1, Data: g.safeDgram(b), S: "valid"})
	}
}

func (g *gen) other(h int) int {
	for {
		i := g.r.N(len(g.p.Hosts))
		if i != h || len(g.p.Hosts) == 1 {
			return i
		}
	}
}

// polls sends n ArtPolls to host h.
func (g *gen) polls(h int, from, to int64, n int) {
	r := g.r
	for n > 0 {
		t := r.R(from, to)
		k := 1
		if r.P(1, 4) {
			k = 2 + r.N(25)
		}
		for j := 0; j < k; j++ {
			if p := g.somePeer(); p >= 0 {
				g.ev(Event{At: t + Pick(r, int64(0), 0, 1, 100), K: "dgram", H: p, B: Pick(r, int64(-1), int64(h)), Data: g.Packet(wire.OpPoll), S: "valid"})
			}
		}
		n -= k
	}
}

// ---- families ----

func (g *gen) begin(end int64) {
	g.p.End = end
	g.net()
	g.start = g.r.R(0, 300*ms)
}

// control is one real controller and some scripted devices.
func (g *gen) control(fps int, end int64) {
	r := g.r
	g.begin(end)
	pre, bc := g.subnet()
	g.ctrl(pre, bc, fps)
	n := 1 + r.N(4)
	for i := 0; i < n; i++ {
		h := g.peer(pre, bc, r.N(5), Pick(r, 0, 0, 1, 4))
		g.p.Hosts[h].Ports.Style = Pick(r, uint8(0), 0, 0, 0, 1, 1, 3)
		g.p.Hosts[h].Off = r.P(1, 8)
	}
	if r.P(1, 8) { // another port
		for i := range g.p.Hosts {
			h := &g.p.Hosts[i]
			b := "2.255.255.255:7000"
			if bc != "" {
				b = bc[:len(bc)-4] + "7000"
			}
			h.Bcast = b
		}
		g.p.Hosts[0].Listen = ":7000"
	} else if r.P(1, 10) { // bound to one address: no broadcasts arrive
		g.p.Hosts[0].Listen = g.p.Hosts[0].IP
		for i := 1; i <= n; i++ {
			g.p.Hosts[i].Reply = 0
		}
	}
	g.ev(Event{At: g.start, K: "start", H: 0})
}

func (g *gen) span(fps int) int64 {
	r := g.r
	switch {
	case fps == 0 || fps >= 500:
		return r.R(2*sec, 9*sec)
	case fps >= 100:
		return r.R(4*sec, 14*sec)
	}
	return r.R(4*sec, 22*sec)
}

func (g *gen) dmx() {
	r := g.r
	fps := g.fps()
	end := g.span(fps)
	g.control(fps, end)
	g.sched(r.P(1, 4))
	as := g.allAddrs()
	g.sends(0, g.start, end, 10+r.N(120), as)
	g.sends(0, g.start, end, r.N(10), g.strangers(2))
	if r.P(1, 3) {
		g.changes(1+r.N(len(g.p.Hosts)-1), g.start, end, 1+r.N(4))
	}
	if r.P(1, 4) {
		g.power(1+r.N(len(g.p.Hosts)-1), g.start, end)
	}
	if r.P(1, 4) {
		g.netFaults(g.start, end, 1+r.N(3))
	}
	if r.P(1, 8) {
		g.ev(Event{At: r.R(g.start, end), K: "stuck", H: 0, D: r.R(5*ms, 700*ms)})
	}
	if r.P(1, 8) {
		g.polls(0, g.start, end, 10)
	}
}

// edge: calls and datagrams at the very moments at which the controller's
// loops are at work.
func (g *gen) edge() {
	r := g.r
	fps := Pick(r, 0, 500, 250, 200, 100, 50, 40, 25, 10)
	end := Pick(r, 3*sec, 3*sec, 7*sec)
	g.control(fps, end)
	g.p.LatMin, g.p.LatMax = 50, 50
	for i := range g.p.Hosts {
		if h := &g.p.Hosts[i]; h.Kind == "peer" {
			h.Off = false
			h.RMin, h.RMax = 0, Pick(r, int64(0), 0, 5*ms)
		}
	}
	g.sched(false)
	g.p.Sched.YieldDen = Pick(r, uint32(2), 3, 5, 10, 30)
	if fps == 0 {
		fps = 1000
	}
	p := sec / int64(fps)
	as := g.allAddrs()
	for t := g.start + max(p, 2*ms)/p*p; t < end && len(g.p.Events) < 1500; t += p * int64(2+r.N(8)) {
		if len(as) > 0 {
			a := as[r.N(len(as))]
			switch r.N(4) {
			case 0, 1: // one to be sent, the next while it is
				g.send(t-r.R(1, p-1), 0, a)
				g.send(t, 0, a)
			case 2:
				for _, b := range as {
					g.send(t, 0, b)
				}
				g.send(t, 0, a)
			case 3:
				for j := 1 + r.N(3); j > 0; j-- {
					g.send(t+r.R(-1, 1), 0, a)
				}
			}
		}
		if r.P(1, 6) {
			h := 1 + r.N(len(g.p.Hosts)-1)
			if r.P(1, 2) {
				c := g.p.Hosts[h].Ports
				c.Out = g.nibbles(r.N(5))
				g.ev(Event{At: t - 51, K: "ports", H: h, Cfg: &c})
			}
			g.ev(Event{At: t - 50, K: "announce", H: h, B: 0})
		}
		if r.P(1, 10) {
			g.dgram(t-50, g.somePeer(), 0, g.Packet(wire.OpPoll), "valid")
		}
	}
}

// burst writes faster than the rate limit for more than a second.
func (g *gen) burst() {
	r := g.r
	fps := Pick(r, 500, 100, 60, 44, 40, 30, 25, 10, 7, 3, 2, 1)
	end := r.R(4*sec, 9*sec)
	g.control(fps, end)
	g.sched(false)
	as := g.allAddrs()
	if len(as) == 0 {
		g.p.Hosts[1].Ports.Out = []uint8{0, 5}
		as = g.allAddrs()
	}
	t := g.start + r.R(100*ms, sec)
	stop := min(end, t+r.R(1200*ms, 3*sec))
	step := sec / int64(fps) / int64(Pick(r, 2, 3, 7))
	step = max(step, 700)
	n := 1 + r.N(min(3, len(as)))
	for ; t < stop; t += step {
		for _, a := range as[:n] {
			g.send(t, 0, a)
		}
	}
}

func (g *gen) disco() {
	r := g.r
	fps := Pick(r, 100, 30, 10, 2, 1)
	end := r.R(9*sec, 40*sec)
	g.control(fps, end)
	g.sched(r.P(1, 5))
	for i := 1; i < len(g.p.Hosts); i++ {
		if r.P(2, 3) {
			g.changes(i, g.start, end, 1+r.N(6))
		}
		if r.P(1, 2) {
			g.power(i, g.start, end)
		}
		if r.P(1, 4) {
			g.p.Hosts[i].Reply = 2 // never answers polls, announces itself
			t := r.R(0, 4*sec)
			for t < end {
				g.ev(Event{At: t, K: "announce", H: i, B: Pick(r, int64(-1), 0)})
				t += Pick(r, r.R(100*ms, 3*sec), r.R(6500*ms, 7500*ms), r.R(6990*ms, 7010*ms), r.R(9*sec, 11*sec))
			}
		}
	}
	if r.P(1, 2) {
		g.netFaults(g.start, end, 1+r.N(4))
	}
	if r.P(1, 5) {
		g.own(0, g.start, end, 1+r.N(5))
	}
	as := g.allAddrs()
	g.sends(0, g.start, end, r.N(60), as)
	g.sends(0, g.start, end, r.N(20), g.strangers(2))
	if r.P(1, 6) {
		g.wallJumps(g.start, end, 1+r.N(2))
	}
}

func (g *gen) poll() {
	r := g.r
	end := r.R(4*sec, 20*sec)
	if r.P(1, 2) {
		g.control(Pick(r, 100, 10, 1), end)
	} else {
		g.begin(end)
		pre, bc := g.subnet()
		g.node(pre, bc, r.N(5), r.N(5))
		g.p.Hosts[0].Style = Pick(r, uint8(0), 0, 0, 0, 1, 3)
		for i := 0; i < 1+r.N(3); i++ {
			g.peer(pre, bc, r.N(5), r.N(3))
		}
		g.ev(Event{At: g.start, K: "start", H: 0})
	}
	g.sched(r.P(1, 5))
	g.polls(0, g.start, end, 5+r.N(80))
	if r.P(1, 2) {
		g.own(0, g.start, end, 1+r.N(12))
	}
	if r.P(1, 3) {
		g.netFaults(g.start, end, 1+r.N(2), "dup", "delay", "loss")
	}
	if r.P(1, 5) {
		for i := 0; i < 20; i++ { // announcements a node has to ignore
			g.ev(Event{At: r.R(g.start, end), K: "announce", H: g.somePeer(), B: -1})
		}
	}
	if r.P(1, 8) {
		g.ev(Event{At: r.R(g.start, end), K: "stuck", H: 0, D: r.R(5*ms, 700*ms)})
	}
	if g.p.Hosts[0].Kind == "ctrl" && r.P(1, 2) {
		g.sends(0, g.start, end, r.N(40), g.allAddrs())
	}
}

func (g *gen) traffic(h int, from, to int64, n int) {
	r := g.r
	for n > 0 {
		t := r.R(from, to)
		k := 1
		if r.P(1, 4) {
			k = 2 + r.N(20)
		}
		one := Pick(r, wire.Ops...)
		for j := 0; j < k; j++ {
			op := one
			if r.P(1, 2) {
				op = Pick(r, wire.Ops...)
			}
			b := g.Packet(op)
			g.dgram(t+Pick(r, int64(0), 0, 0, 2), g.somePeer(), Pick(r, int64(-1), int64(h)), b, "valid")
			if r.P(1, 12) { // the very same datagram again
				g.dgram(t+Pick(r, int64(0), 10, 1000), g.somePeer(), int64(h), b, "valid")
			}
		}
		n -= k
	}
}

func (g *gen) reg(t int64, h int, mode int64) {
	g.cb++
	g.ev(Event{At: t, K: "reg", H: h, A: int64(Pick(g.r, wire.Ops...)), V: g.cb, B: mode})
}

func (g *gen) callbacks(blocky bool) {
	r := g.r
	end := r.R(1*sec, 6*sec)
	g.begin(end)
	pre, bc := g.subnet()
	g.node(pre, bc, r.N(5), r.N(3))
	for i := 0; i < 1+r.N(2); i++ {
		g.peer(pre, bc, 1, 0)
	}
	g.start = r.R(20*ms, 300*ms)
	g.sched(r.P(1, 5))
	stopper := !blocky && r.P(1, 8)
	changer := !blocky && !stopper && r.P(1, 6)
	for i := 0; i < 2+r.N(12); i++ {
		mode := int64(0)
		if blocky && r.P(1, 4) {
			mode = 1
		}
		if stopper && r.P(1, 3) {
			mode = 2
		}
		if changer && r.P(1, 2) {
			mode = 3
		}
		g.reg(r.R(0, g.start-1), 0, mode)
	}
	for i := 0; i < r.N(3); i++ {
		g.ev(Event{At: r.R(0, g.start-1), K: "dereg", H: 0, A: int64(Pick(r, wire.Ops...))})
	}
	g.ev(Event{At: g.start, K: "start", H: 0})
	g.traffic(0, g.start, end, 10+r.N(150))
	if r.P(1, 2) {
		for i := 0; i < 1+r.N(6); i++ {
			t := r.R(g.start+1, end)
			if r.P(1, 2) {
				g.reg(t, 0, 0)
			} else {
				g.ev(Event{At: t, K: "dereg", H: 0, A: int64(Pick(r, wire.Ops...))})
			}
		}
	}
	if r.P(1, 3) {
		g.own(0, g.start, end, 1+r.N(8))
	}
	if r.P(1, 4) {
		g.netFaults(g.start, end, 1+r.N(2), "dup", "delay", "loss")
	}
	if blocky {
		for i := 0; i < r.N(4); i++ {
			g.ev(Event{At: r.R(g.start, end), K: "unblock", H: 0})
		}
	} else if !stopper && !changer && r.P(1, 3) {
		// stop, change the registrations, start again
		t := r.R(g.start+100*ms, end)
		g.ev(Event{At: t, K: "stop", H: 0})
		for i := 0; i < r.N(8); i++ {
			if r.P(1, 2) {
				g.reg(t+r.R(1, 200*ms), 0, 0)
			} else {
				g.ev(Event{At: t + r.R(1, 200*ms), K: "dereg", H: 0, A: int64(Pick(r, wire.Ops...))})
			}
		}
		if r.P(1, 3) {
			g.cfg(t+r.R(1, 200*ms), 0, 0)
		}
		g.ev(Event{At: t + r.R(201*ms, 500*ms), K: "start", H: 0})
	}
	if r.P(1, 6) {
		g.junk(0, g.start, end, 10)
	}
}

// either builds one of the base scenarios around host 0.
func (g *gen) either() int64 {
	r := g.r
	var end int64
	switch r.N(3) {
	case 0:
		fps := g.fps()
		end = g.span(fps)
		g.control(fps, end)
		g.sends(0, g.start, end, 5+r.N(60), g.allAddrs())
		g.sends(0, g.start, end, r.N(5), g.strangers(1))
	case 1:
		end = r.R(3*sec, 14*sec)
		g.control(Pick(r, 44, 10, 1), end)
		g.sends(0, g.start, end, r.N(20), g.allAddrs())
		g.polls(0, g.start, end, 5+r.N(40))
	case 2:
		end = r.R(2*sec, 6*sec)
		g.begin(end)
		pre, bc := g.subnet()
		g.node(pre, bc, r.N(5), r.N(5))
		for i := 0; i < 1+r.N(2); i++ {
			g.peer(pre, bc, 1, 0)
		}
		g.start = r.R(20*ms, 200*ms)
		for i := 0; i < r.N(12); i++ {
			g.reg(r.R(0, g.start-1), 0, 0)
		}
		g.ev(Event{At: g.start, K: "start", H: 0})
		g.traffic(0, g.start, end, 5+r.N(60))
	}
	return end
}

func (g *gen) fuzz() {
	r := g.r
	end := g.either()
	g.sched(false)
	g.junk(0, g.start, end, 20+r.N(200))
	if r.P(1, 3) {
		g.netFaults(g.start, end, 1+r.N(3), "corrupt", "trunc")
	}
	if r.P(1, 4) {
		g.polls(0, g.start, end, 10)
	}
}

// errnos that sockets really return.
const (
	eINTR, eAGAIN, eNOMEM, eMSGSIZE, eACCES      = 4, 11, 12, 90, 13
	eNETUNREACH, eHOSTUNREACH, eNOBUFS, eCONNREF = 101, 113, 105, 111
	eNETDOWN, eADDRINUSE, eADDRNOTAVAIL, ePERM   = 100, 98, 99, 1
	eMFILE, eTIMEDOUT, eHOSTDOWN, eINVAL         = 24, 110, 112, 22
)

func (g *gen) ioerr() {
	r := g.r
	end := g.either()
	g.sched(false)
	for i := 0; i < 1+r.N(6); i++ {
		t := r.R(g.start, end)
		switch r.N(5) {
		case 0, 1:
			g.ev(Event{At: t, K: "rxerr", H: 0, A: Pick(r, int64(eCONNREF), eNOBUFS, eNOMEM, eHOSTUNREACH, eNETDOWN, eTIMEDOUT, eHOSTDOWN), B: Pick(r, int64(1), 1, 3, 20)})
		case 2:
			e := Event{At: t, K: "txerr", H: 0, A: Pick(r, int64(eNETUNREACH), eHOSTUNREACH, eNOBUFS, ePERM, eNETDOWN, eACCES, eTIMEDOUT, eINVAL), B: -1, D: r.R(ms, 5*sec)}
			if r.P(1, 2) {
				e.B = int64(r.N(len(g.p.Hosts)))
				e.C = int64(r.N(2))
			}
			g.ev(e)
		case 3:
			e := Event{At: t, K: "stuck", H: 0, D: r.R(ms, 1500*ms)}
			if r.P(1, 6) { // for long, with much to answer
				e.D = r.R(2*sec, 8*sec)
				g.polls(0, t, min(end, t+e.D), 60)
			}
			g.ev(e)
		case 4:
			g.ev(Event{At: t, K: "rxcap", H: 0, A: Pick(r, int64(0), 1, 3), D: r.R(100*ms, 3*sec)})
		}
	}
	if r.P(1, 3) {
		g.polls(0, g.start, end, 20)
	}
}

// storm is traffic of every kind around time t.
func (g *gen) storm(t int64, n int) {
	r := g.r
	as := g.allAddrs()
	for i := 0; i < n; i++ {
		at := max(0, t+r.R(-3*ms, 3*ms))
		if r.P(1, 2) {
			at = t
		}
		if g.p.Hosts[0].Kind == "ctrl" && len(as) > 0 && r.P(1, 2) {
			g.send(at, 0, as[r.N(len(as))])
			continue
		}
		switch r.N(3) {
		case 0:
			g.dgram(at, g.somePeer(), 0, g.Packet(wire.OpPoll), "valid")
		case 1:
			g.ev(Event{At: at, K: "announce", H: g.somePeer(), B: 0})
		case 2:
			g.dgram(at, g.somePeer(), 0, g.Packet(Pick(r, wire.Ops...)), "valid")
		}
	}
}

func (g *gen) stop() {
	r := g.r
	end := g.either()
	g.sched(r.P(1, 4))
	if r.P(1, 6) {
		g.ev(Event{At: r.R(0, max(0, g.start-1)), K: "stop", H: 0})
	}
	t := r.R(g.start, end)
	if r.P(1, 4) {
		t = g.start + r.R(0, 2*ms)
	}
	if r.P(1, 3) && g.p.Hosts[0].Kind == "ctrl" {
		t = g.start + int64(r.N(4))*3*sec + r.R(-300, 300) // around a poll
		t = max(t, g.start)
	}
	if r.P(2, 3) {
		g.storm(t, 1+r.N(60))
	}
	if r.P(1, 6) {
		g.ev(Event{At: max(0, t-r.R(0, 200*ms)), K: "stuck", H: 0, D: Pick(r, r.R(10*ms, 600*ms), r.R(3*sec, 30*sec))})
	}
	if r.P(1, 10) && g.p.Hosts[0].Kind == "ctrl" { // everything is jammed when the time to poll comes
		t = g.start + int64(1+r.N(3))*3*sec
		from := t - r.R(10*ms, 2*sec)
		g.ev(Event{At: from, K: "stuck", H: 0, D: 30 * sec})
		for i := 0; i < 30+r.N(60); i++ {
			g.dgram(from+r.R(0, t-from), g.somePeer(), 0, g.Packet(Pick(r, uint16(wire.OpPoll), wire.OpPoll, wire.OpPollReply)), "valid")
		}
		t += r.R(0, 50*ms)
	}
	async := int64(r.N(2))
	g.ev(Event{At: t, K: "stop", H: 0, A: async})
	for i := 0; i < r.N(3); i++ {
		g.ev(Event{At: t + Pick(r, int64(0), 1, 100*ms, sec), K: "stop", H: 0, A: int64(r.N(2))})
	}
	if g.p.Hosts[0].Kind == "ctrl" {
		g.sends(0, t, min(end, t+sec), r.N(10), g.allAddrs())
	}
	g.p.End = min(g.p.End, t+r.R(500*ms, 5*sec))
}

func (g *gen) restart() {
	r := g.r
	end := g.either()
	g.sched(r.P(1, 5))
	if g.p.Hosts[0].Kind == "node" && r.P(1, 4) { // the very first start is refused
		g.cfg(0, 0, int64(1+r.N(6)))
		t := g.start + r.R(1, 300*ms)
		g.cfg(t, 0, 0)
		g.ev(Event{At: t, K: "start", H: 0})
	} else if r.P(1, 4) { // the very first start fails
		g.ev(Event{At: 0, K: "bindfail", H: 0, A: Pick(r, int64(eADDRINUSE), eACCES, eMFILE, eADDRNOTAVAIL), B: Pick(r, int64(1), 1, 2)})
		g.ev(Event{At: g.start + r.R(10*ms, 300*ms), K: "start", H: 0})
		g.ev(Event{At: g.start + r.R(400*ms, 900*ms), K: "start", H: 0})
		if r.P(1, 3) {
			g.ev(Event{At: g.start + r.R(0, 10*ms), K: "stop", H: 0})
		}
	}
	t := g.start + r.R(0, 3*sec)
	for i := 0; i < 1+r.N(4); i++ {
		if r.P(1, 2) {
			g.storm(t, 1+r.N(40))
		}
		g.ev(Event{At: t, K: "stop", H: 0})
		gap := Pick(r, int64(0), 1, r.R(0, 5*ms), r.R(0, 400*ms), r.R(0, 9*sec))
		if g.p.Hosts[0].Kind == "node" && r.P(1, 2) { // a new configuration, perhaps after a refused one
			if r.P(1, 2) {
				g.cfg(t+gap, 0, int64(1+r.N(6)))
				g.ev(Event{At: t + gap, K: "start", H: 0})
				if r.P(1, 4) {
					g.ev(Event{At: t + gap, K: "stop", H: 0})
				}
				gap += Pick(r, int64(0), r.R(1, 200*ms))
			}
			g.cfg(t+gap, 0, 0)
		}
		if r.P(1, 3) {
			g.opt(t+gap, 0)
		}
		if r.P(1, 3) {
			g.ev(Event{At: t + gap, K: "bindfail", H: 0, A: Pick(r, int64(eADDRINUSE), eACCES, eMFILE, eADDRNOTAVAIL), B: 1})
			g.ev(Event{At: t + gap, K: "start", H: 0})
			gap += r.R(1, 200*ms)
		}
		g.ev(Event{At: t + gap, K: "start", H: 0})
		if r.P(1, 5) {
			g.ev(Event{At: t + gap + r.R(1, 500*ms), K: "start", H: 0}) // already running
		}
		t += gap + r.R(200*ms, 5*sec)
	}
	g.p.End = max(end, t)
	if r.P(1, 3) && len(g.p.Hosts) > 2 {
		h := 1 + r.N(len(g.p.Hosts)-1)
		if g.p.Hosts[h].Kind == "peer" {
			g.power(h, g.start, g.p.End)
			g.changes(h, g.start, g.p.End, 1+r.N(3))
		}
	}
	if g.p.Hosts[0].Kind == "ctrl" {
		g.sends(0, g.start, g.p.End, r.N(60), g.allAddrs())
	}
}

// e2e: real controllers and real nodes, faults, then a quiet phase.
func (g *gen) e2e() {
	r := g.r
	end := 14*sec + r.R(0, 20*sec)
	g.begin(end)
	pre, bc := g.subnet()
	fps := Pick(r, 100, 44, 44, 30, 10, 2)
	var ctrls, nodes []int
	ctrls = append(ctrls, g.ctrl(pre, bc, fps))
	if r.P(1, 3) {
		ctrls = append(ctrls, g.ctrl(pre, bc, Pick(r, 44, 25, 10)))
	}
	for i := 0; i < 1+r.N(3); i++ {
		h := g.node(pre, bc, 1+r.N(4), r.N(3))
		nodes = append(nodes, h)
	}
	for i := 0; i < r.N(3); i++ {
		h := g.peer(pre, bc, 1+r.N(4), r.N(2))
		g.p.Hosts[h].RMax = g.p.Hosts[h].RMin + min(g.p.Hosts[h].RMax-g.p.Hosts[h].RMin, 20000)
		nodes = append(nodes, h)
	}
	quiet := r.R(1*sec, end-12*sec) // when faults stop
	fault := func() int64 { return r.R(0, quiet) }
	for i := range g.p.Hosts {
		if g.p.Hosts[i].Kind == "node" {
			for _, op := range []uint16{wire.OpDmx} {
				g.cb++
				g.ev(Event{At: 0, K: "reg", H: i, A: int64(op), V: g.cb})
			}
		}
		if g.p.Hosts[i].Kind != "peer" {
			g.ev(Event{At: r.R(1, 500*ms), K: "start", H: i})
		}
	}
	g.sched(false)
	if r.P(1, 3) && quiet > 2*sec {
		s := &g.p.Sched
		s.StallDen, s.StallMax, s.StallTotal = Pick(r, uint32(100), 1000), 100*ms, 500*ms
		s.StallFrom = r.R(0, quiet-sec)
		s.StallTo = min(quiet-500*ms, s.StallFrom+2*sec)
	}
	g.netFaults(0, quiet, r.N(5))
	for i := 0; i < r.N(4); i++ {
		h := r.N(len(g.p.Hosts))
		t := fault()
		if g.p.Hosts[h].Kind == "peer" {
			g.ev(Event{At: t, K: "off", H: h})
			g.ev(Event{At: min(quiet, t+r.R(100*ms, 12*sec)), K: "on", H: h})
			continue
		}
		switch r.N(3) {
		case 0: // crash, restart after a while
			g.ev(Event{At: t, K: "crash", H: h})
			if g.p.Hosts[h].Kind == "node" {
				g.cb++
				g.ev(Event{At: t, K: "reg", H: h, A: int64(wire.OpDmx), V: g.cb})
			}
			g.ev(Event{At: min(quiet, t+r.R(0, 12*sec)), K: "start", H: h})
		case 1:
			g.ev(Event{At: t, K: "stop", H: h})
			g.ev(Event{At: min(quiet, t+r.R(0, 12*sec)), K: "start", H: h})
		case 2:
			g.ev(Event{At: t, K: "stuck", H: h, D: r.R(0, min(quiet-t, sec))})
		}
	}
	for i := 0; i < r.N(3); i++ {
		h := r.N(len(g.p.Hosts))
		if g.p.Hosts[h].Kind == "peer" {
			continue
		}
		t := fault()
		g.ev(Event{At: t, K: "rxerr", H: h, A: eCONNREF, B: 1})
		g.ev(Event{At: t, K: "txerr", H: h, A: eNETUNREACH, B: -1, D: r.R(0, quiet-t)})
	}
	if r.P(1, 4) {
		g.wallJumps(0, quiet, 1+r.N(2))
	}
	if r.P(1, 4) {
		g.netFaults(0, quiet, 1, "corrupt", "trunc")
	}
	// devices are given other universes, perhaps each other's
	as := g.allAddrs()
	cur := map[int]Ports{}
	all := map[int][]wire.Addr{}
	for _, n := range nodes {
		cur[n] = g.p.Hosts[n].Ports
		all[n] = addrs(&g.p.Hosts[n].Ports)
	}
	if r.P(1, 2) {
		for i := 0; i < 1+r.N(4); i++ {
			h := nodes[r.N(len(nodes))]
			c := cur[h]
			switch r.N(5) {
			case 0:
				c.Out = g.nibbles(len(c.Out)) // as many, others
			case 1:
				c.Net, c.Sub = g.block()
			case 2:
				c.Out = g.nibbles(1 + r.N(4))
			case 3:
				c.In = g.nibbles(r.N(4))
			case 4: // the block of another device, which gets this one's
				o := nodes[r.N(len(nodes))]
				d := cur[o]
				c.Net, c.Sub, d.Net, d.Sub = d.Net, d.Sub, c.Net, c.Sub
				if o != h {
					g.reconf(fault(), quiet, o, d)
					cur[o] = d
					all[o] = append(all[o], addrs(&d)...)
				}
			}
			g.reconf(fault(), quiet, h, c)
			cur[h] = c
			all[h] = append(all[h], addrs(&c)...)
			as = append(as, addrs(&c)...)
		}
	}
	for _, c := range ctrls {
		g.sends(c, 0, quiet, r.N(40), as)
	}
	// after the quiet phase every device is known and fresh data arrives
	settle := quiet + 10500*ms
	for _, c := range ctrls {
		g.ev(Event{At: settle, K: "expectnodes", H: c, Hs: nodes})
	}
	last := settle + 1
	g.unique = true
	done := map[int]map[wire.Addr]bool{}
	for _, c := range ctrls {
		for _, n := range nodes {
			seen := map[wire.Addr]bool{}
			for _, a := range all[n] {
				if seen[a] || done[c][a] || r.P(1, 3) {
					continue
				}
				seen[a] = true
				t := settle + r.R(1, 300*ms)
				v := g.send(t, c, a)
				x := t + 2*sec/int64(max(g.p.Hosts[c].FPS, 1)) + 60*ms + 2*g.p.LatMax
				for _, o := range nodes { // whoever has it then
					g.ev(Event{At: x, K: "expect", H: c, C: int64(o), A: int64(a.Net), B: int64(a.SubUni), V: v, D: t})
				}
				last = max(last, x)
			}
			for a := range seen {
				if done[c] == nil {
					done[c] = map[wire.Addr]bool{}
				}
				done[c][a] = true
			}
		}
	}
	g.p.End = last + 100*ms
}

// reconf gives a device other ports between t and quiet.
func (g *gen) reconf(t, quiet int64, h int, c Ports) {
	r := g.r
	if g.p.Hosts[h].Kind == "peer" {
		g.ev(Event{At: t, K: "ports", H: h, Cfg: &c})
		if r.P(1, 2) {
			g.ev(Event{At: min(quiet, t+r.R(0, 50*ms)), K: "announce", H: h, B: -1})
		}
		return
	}
	g.ev(Event{At: t, K: "stop", H: h})
	t = min(quiet, t+Pick(r, int64(0), r.R(0, 2*sec)))
	g.ev(Event{At: t, K: "cfg", H: h, V: r.U(), Cfg: &c})
	g.ev(Event{At: t, K: "start", H: h})
}

func (g *gen) clock() {
	r := g.r
	end := g.either()
	if end < 9*sec && g.p.Hosts[0].Kind == "ctrl" && g.p.Hosts[0].FPS > 0 && g.p.Hosts[0].FPS < 100 {
		end += 8 * sec
		g.p.End = end
		g.sends(0, g.start, end, r.N(40), g.allAddrs())
	}
	g.sched(false)
	g.wallJumps(0, end, 1+r.N(5))
	if r.P(1, 3) && len(g.p.Hosts) > 1 && g.p.Hosts[1].Kind == "peer" {
		g.power(1, g.start, end)
	}
}

func (g *gen) long() {
	r := g.r
	switch r.N(3) {
	case 0: // many frames quickly
		g.control(Pick(r, 500, 0), r.R(2*sec, 4*sec))
		as := g.allAddrs()
		if len(as) == 0 {
			g.p.Hosts[1].Ports.Out = []uint8{3}
			as = g.allAddrs()
		}
		t := g.start + 50*ms
		for i := 0; i < 700; i++ {
			g.send(t, 0, as[i%len(as)])
			t += r.R(500, 2500)
		}
	case 1: // keep-alive traffic for a long time
		g.control(Pick(r, 44, 10, 5), r.R(40*sec, 90*sec))
		for i := 1; i < len(g.p.Hosts); i++ {
			g.p.Hosts[i].Ports.Out = g.nibbles(4)
			g.p.Hosts[i].Ports.Style = 0
		}
		g.sends(0, g.start, g.p.End, 100, g.allAddrs())
		g.power(1, g.start, g.p.End)
	case 2: // a quarter of an hour
		g.control(Pick(r, 10, 3), r.R(300*sec, 900*sec))
		g.p.Snap = 5 * sec
		g.sends(0, g.start, g.p.End, 300, g.allAddrs())
		for i := 0; i < 10; i++ {
			g.power(1+r.N(len(g.p.Hosts)-1), g.start, g.p.End)
		}
		g.netFaults(g.start, g.p.End, 10)
	}
	g.sched(false)
}

func (g *gen) mix() {
	r := g.r
	end := g.either()
	g.sched(r.P(1, 4))
	if r.P(1, 2) {
		g.netFaults(g.start, end, 1+r.N(4), "loss", "dup", "delay", "part", "corrupt", "trunc")
	}
	if r.P(1, 3) {
		g.junk(0, g.start, end, 1+r.N(40))
	}
	if r.P(1, 3) {
		g.own(0, g.start, end, 1+r.N(5))
	}
	if r.P(1, 4) {
		g.wallJumps(g.start, end, 1+r.N(3))
	}
	if r.P(1, 4) {
		g.ev(Event{At: r.R(g.start, end), K: "rxerr", H: 0, A: eCONNREF, B: int64(1 + r.N(3))})
	}
	if r.P(1, 4) {
		g.ev(Event{At: r.R(g.start, end), K: "txerr", H: 0, A: eNETUNREACH, B: -1, D: r.R(ms, 2*sec)})
	}
	if r.P(1, 4) {
		g.ev(Event{At: r.R(g.start, end), K: "stuck", H: 0, D: r.R(ms, 800*ms)})
	}
	for i := 1; i < len(g.p.Hosts); i++ {
		if g.p.Hosts[i].Kind != "peer" {
			continue
		}
		if r.P(1, 3) {
			g.changes(i, g.start, end, 1+r.N(4))
		}
		if r.P(1, 3) {
			g.power(i, g.start, end)
		}
	}
	if r.P(1, 3) {
		t := r.R(g.start, end)
		g.ev(Event{At: t, K: "stop", H: 0})
		if r.P(2, 3) {
			g.ev(Event{At: t + r.R(0, 2*sec), K: "start", H: 0})
		}
	} else if r.P(1, 4) {
		t := r.R(g.start, end)
		g.ev(Event{At: t, K: "crash", H: 0})
		g.ev(Event{At: t + r.R(0, 2*sec), K: "start", H: 0})
	}
	g.polls(0, g.start, end, r.N(20))
}

// cfg changes the configuration of a stopped node.
func (g *gen) cfg(t int64, h int, bad int64) {
	r := g.r
	p := g.ports(r.N(5), r.N(5))
	p.Bind = uint8(r.N(5))
	g.ev(Event{At: t, K: "cfg", H: h, A: bad, V: r.U(), S: Pick(r, "", "another description", desc63), Cfg: &p})
}

// opt changes options of a stopped machine.
func (g *gen) opt(t int64, h int) {
	r := g.r
	e := Event{At: t, K: "opt", H: h}
	if r.P(1, 2) {
		e.S = Pick(r, "2.255.255.255:6454", "255.255.255.255:6454", "10.255.255.255:6454")
	}
	if r.P(2, 3) && g.p.Hosts[h].Kind == "ctrl" {
		e.B, e.A = 1, int64(Pick(r, 500, 100, 44, 44, 30, 25, 10, 7, 2, 1))
		if r.P(1, 4) {
			e.A = Pick(r, int64(0), -1, -44, 1<<31, 1e9+1)
		}
	}
	g.ev(e)
}

// spare lists the bytes of a packet that carry nothing.
var spare = map[uint16][][2]int{
	wire.OpPollReply: {{197, 200}, {213, 239}}, wire.OpDiagData: {{12, 13}, {14, 16}}, wire.OpSync: {{12, 14}}, wire.OpTimeCode: {{12, 14}},
	wire.OpTrigger: {{12, 14}}, wire.OpIPProg: {{12, 14}, {15, 16}, {26, 34}}, wire.OpIPProgReply: {{12, 16}, {27, 34}},
}

// appPacket is the datagram an application wants to send.
func (g *gen) appPacket(op uint16) []byte {
	b := g.Packet(op)
	if op == wire.OpDmx {
		b = append(b, make([]byte, 530)...)[:530]
		b[16], b[17] = 2, 0
		b[13] = byte(g.r.U())
	} else {
		b = b[:wire.Size(op)]
	}
	if op == wire.OpPollReply {
		b[14], b[15] = 0x36, 0x19
	} else {
		b[10], b[11] = 0, 14
	}
	for _, s := range spare[op] {
		for i := s[0]; i < s[1]; i++ {
			b[i] = 0
		}
	}
	return b
}

// app: applications on real nodes send each other packets of every kind.
func (g *gen) app() {
	r := g.r
	end := r.R(1*sec, 5*sec)
	g.begin(end)
	pre, bc := g.subnet()
	n := 2 + r.N(2)
	for i := 0; i < n; i++ {
		g.node(pre, bc, r.N(5), r.N(3))
	}
	for i := 0; i < r.N(2); i++ {
		g.peer(pre, bc, 1, 0)
	}
	g.sched(r.P(1, 5))
	g.start = 200 * ms
	for i := 0; i < n; i++ {
		for _, op := range wire.Ops {
			if r.P(3, 4) {
				g.cb++
				g.ev(Event{At: r.R(0, 100*ms), K: "reg", H: i, A: int64(op), V: g.cb})
			}
		}
		g.ev(Event{At: r.R(100*ms, g.start), K: "start", H: i})
	}
	for k := 10 + r.N(120); k > 0; {
		t := r.R(g.start, end)
		h := r.N(n)
		op := Pick(r, wire.Ops...)
		slot := int64(r.N(4))
		rep := 1
		if r.P(1, 3) {
			rep = 2 + r.N(6)
		}
		for j := 0; j < rep; j++ {
			if r.P(1, 3) {
				op = Pick(r, wire.Ops...)
			}
			g.ev(Event{At: t + Pick(r, int64(0), 0, 10, 5*ms), K: "tx", H: h, B: int64((h + 1 + r.N(n-1)) % n), A: slot, C: Pick(r, int64(0), 0, 0, 1, 2), Data: g.appPacket(op)})
			k--
		}
	}
	if r.P(1, 4) {
		g.netFaults(g.start, end, 1+r.N(3), "dup", "delay", "loss")
	}
	if r.P(1, 6) {
		h := r.N(n)
		t := r.R(g.start, end)
		g.ev(Event{At: t, K: "stop", H: h})
		g.ev(Event{At: t + r.R(0, 500*ms), K: "start", H: h})
	}
	if r.P(1, 6) {
		g.ev(Event{At: r.R(g.start, end), K: "stuck", H: r.N(n), D: r.R(ms, 300*ms)})
	}
	if r.P(1, 6) {
		g.ev(Event{At: r.R(g.start, end), K: "txerr", H: r.N(n), A: eNOBUFS, B: -1, D: r.R(ms, 300*ms)})
	}
}

// swap: universes move from one device to another.
func (g *gen) swap() {
	r := g.r
	fps := Pick(r, 100, 44, 30, 10, 2)
	end := r.R(12*sec, 45*sec)
	g.control(fps, end)
	if len(g.p.Hosts) < 3 {
		g.peer(g.p.Hosts[1].IP[:len(g.p.Hosts[1].IP)-2], g.p.Hosts[1].Bcast, r.N(5), r.N(3))
	}
	n := len(g.p.Hosts)
	for i := 1; i < n; i++ {
		h := &g.p.Hosts[i]
		h.Ports.Style = 0
		h.RMax = h.RMin + min(h.RMax-h.RMin, 5000)
		if len(h.Ports.Out) == 0 {
			h.Ports.Out = g.nibbles(1 + r.N(4))
		}
		if len(h.Ports.In) == 0 && r.P(1, 3) {
			h.Ports.In = g.nibbles(1 + r.N(4))
		}
	}
	g.sched(false)
	as := g.allAddrs()
	cur := map[int]Ports{}
	on := map[int]bool{}
	for i := 1; i < n; i++ {
		cur[i] = g.p.Hosts[i].Ports
		on[i] = !g.p.Hosts[i].Off
	}
	ann := func(t int64, h int, c Ports) {
		cur[h] = c
		cc := c
		g.ev(Event{At: t, K: "ports", H: h, Cfg: &cc})
		g.ev(Event{At: t + 1, K: "announce", H: h, B: 0})
	}
	t := g.start + r.R(500*ms, 3*sec)
	for t < end-500*ms {
		a := 1 + r.N(n-1)
		b := 1 + r.N(n-1)
		if a == b || !on[a] && !on[b] {
			t += 50 * ms
			continue
		}
		ca, cb := cur[a], cur[b]
		gap := r.R(150*ms, 2*sec)
		switch r.N(8) {
		case 5: // a spare takes a dead device's place before that is forgotten
			if !on[a] {
				t += 50 * ms
				continue
			}
			g.ev(Event{At: t, K: "off", H: a})
			on[a] = false
			t += r.R(100*ms, 9*sec)
			if !on[b] {
				g.ev(Event{At: t, K: "on", H: b})
				on[b] = true
			}
			nb := ca
			if r.P(1, 3) && len(ca.Out) > 1 { // only some of it
				k := r.N(len(ca.Out))
				nb.Out = []uint8{ca.Out[k]}
			}
			ann(t, b, nb)
			t += r.R(0, 12*sec)
			na := ca
			na.Net, na.Sub = g.block()
			ann(t, a, na)
			if r.P(1, 2) {
				g.ev(Event{At: t, K: "on", H: a})
				on[a] = true
			}
		case 6: // b takes over first, a gets something new, or nothing, later
			ann(t, b, ca)
			na := ca
			na.Net, na.Sub = g.block()
			if r.P(1, 3) {
				na.Out = g.nibbles(r.N(5))
			}
			ann(t+gap, a, na)
			t += gap
		case 7: // the two of them announce the same outputs in turns
			for i := 1 + r.N(4); i > 0; i-- {
				ann(t, b, ca)
				t += r.R(20*ms, gap)
				ann(t, a, ca)
				t += r.R(20*ms, gap)
			}
			na := ca
			na.Net, na.Sub = g.block()
			ann(t, Pick(r, a, b), na)
		case 0: // b takes everything over, a gets something new
			na := ca
			na.Net, na.Sub = g.block()
			ann(t, a, na)
			ann(t+gap, b, ca)
			t += gap
		case 1: // they change places by way of a third block
			na := ca
			na.Net, na.Sub = g.block()
			ann(t, a, na)
			ann(t+gap, b, ca)
			ann(t+2*gap, a, cb)
			t += 2 * gap
		case 2: // one of a's outputs moves
			if len(ca.Out) < 2 {
				t += 50 * ms
				continue
			}
			k := r.N(len(ca.Out))
			na, nb := ca, cb
			na.Out = append(append([]uint8(nil), ca.Out[:k]...), ca.Out[k+1:]...)
			nb.Net, nb.Sub, nb.Out = ca.Net, ca.Sub, []uint8{ca.Out[k]}
			if cb.Net == ca.Net && cb.Sub == ca.Sub && len(cb.Out) < 4 {
				nb.Out = append(append([]uint8(nil), cb.Out...), ca.Out[k])
			}
			nb.In = nil
			ann(t, a, na)
			ann(t+gap, b, nb)
			t += gap
		case 3: // a is replaced by b after it has been forgotten
			if !on[a] {
				t += 50 * ms
				continue
			}
			g.ev(Event{At: t, K: "off", H: a})
			on[a] = false
			t += r.R(10500*ms, 14*sec)
			if t < end {
				ann(t, b, ca)
				if !on[b] {
					g.ev(Event{At: t, K: "on", H: b})
					on[b] = true
				}
				na := ca
				na.Net, na.Sub = g.block()
				if r.P(1, 2) {
					t += r.R(200*ms, 4*sec)
					g.ev(Event{At: t, K: "on", H: a})
					on[a] = true
				}
				ann(t, a, na)
			}
		case 4: // an output becomes an input and the other way round
			na := ca
			na.Out, na.In = ca.In, ca.Out
			ann(t, a, na)
		}
		t += r.R(100*ms, 4*sec)
	}
	g.sends(0, g.start, end, 40+r.N(150), as)
	for i := 0; i < 4; i++ {
		var l []wire.Addr
		for _, b := range g.blocks {
			l = append(l, wire.Addr{Net: b[0], SubUni: b[1]<<4 | uint8(r.N(4))})
		}
		g.sends(0, g.start, end, r.N(40), l)
	}
}

// churn: a few devices that change what they announce, or come and go, again
// and again.
func (g *gen) churn() {
	r := g.r
	g.control(Pick(r, 44, 30, 10, 2), 0)
	n := len(g.p.Hosts)
	for i := 1; i < n; i++ {
		h := &g.p.Hosts[i]
		h.RMax = h.RMin + min(h.RMax-h.RMin, 20000)
	}
	g.sched(false)
	as := g.allAddrs()
	end := g.start + r.R(5*sec, 25*sec)
	switch r.N(3) {
	case 0: // changes
		for i := 1; i < n; i++ {
			g.changes(i, g.start, end, Pick(r, 10, 40, 150))
		}
	case 1: // the name and the like, over and over
		h := 1 + r.N(n-1)
		c := g.p.Hosts[h].Ports
		for i, k := 0, Pick(r, 15, 40, 300); i < k; i++ {
			cc := c
			switch r.N(3) {
			case 0:
				cc.Name = fmt.Sprintf("name %d", i)
			case 1:
				cc.X = r.U() | 1
			case 2:
				cc.Bind = uint8(r.N(4))
			}
			t := r.R(g.start, end)
			g.ev(Event{At: t, K: "ports", H: h, Cfg: &cc})
			g.ev(Event{At: t + 1, K: "announce", H: h, B: 0})
		}
	case 2: // devices come and go
		end = g.start + r.R(30*sec, 300*sec)
		for i := 1; i < n; i++ {
			for t := r.R(g.start, g.start+10*sec); t < end; {
				g.ev(Event{At: t, K: "off", H: i})
				t += Pick(r, r.R(5*sec, 9*sec), r.R(9*sec, 13*sec), r.R(10*sec, 11*sec))
				g.ev(Event{At: t, K: "on", H: i})
				if r.P(1, 2) {
					g.ev(Event{At: t, K: "announce", H: i, B: 0})
				}
				t += Pick(r, r.R(10*ms, 500*ms), r.R(100*ms, 9*sec))
			}
		}
	}
	g.p.End = end + r.R(0, 2*sec)
	g.sends(0, g.start, end, 40+r.N(60), as)
}

// many: more devices than usual.
func (g *gen) many() {
	r := g.r
	fps := Pick(r, 44, 30, 10, 2, 1)
	end := r.R(8*sec, 25*sec)
	g.begin(end)
	pre, bc := g.subnet()
	g.ctrl(pre, bc, fps)
	n := 6 + r.N(30)
	for i := 0; i < n; i++ {
		g.peer(pre, bc, r.N(5), Pick(r, 0, 0, 1, 4))
	}
	g.ev(Event{At: g.start, K: "start", H: 0})
	g.sched(false)
	as := g.allAddrs()
	g.sends(0, g.start, end, 50+r.N(300), as)
	t := r.R(g.start+sec, end)
	switch r.N(4) {
	case 0: // a whole part of the rig is switched off
		k := 1 + r.N(n)
		for i := 1; i <= n; i++ {
			if r.N(n) < k {
				g.ev(Event{At: t + r.R(0, 50*ms), K: "off", H: i})
				if r.P(1, 3) {
					g.ev(Event{At: t + r.R(200*ms, 14*sec), K: "on", H: i})
				}
			}
		}
	case 1:
		for i := 1; i <= n; i++ {
			if r.P(1, 3) {
				g.changes(i, g.start, end, 1+r.N(3))
			}
		}
	case 2:
		for i := 1; i <= n; i++ {
			if r.P(1, 3) {
				g.power(i, g.start, end)
			}
		}
	case 3:
		g.netFaults(g.start, end, 1+r.N(4))
	}
	if r.P(1, 4) {
		g.ev(Event{At: t, K: "stop", H: 0})
		g.ev(Event{At: t + r.R(0, 3*sec), K: "start", H: 0})
	}
}

// life: Start, Stop and registration calls made concurrently.
func (g *gen) life() {
	r := g.r
	end := g.either()
	g.sched(r.P(1, 5))
	g.p.Sched.YieldDen = Pick(r, uint32(2), 4, 8)
	node := g.p.Hosts[0].Kind == "node"
	as := g.allAddrs()
	t := g.start + Pick(r, int64(0), 0, r.R(0, 2*sec))
	for i := 0; i < 1+r.N(4); i++ {
		if r.P(1, 3) {
			g.storm(t, 1+r.N(20))
		}
		if r.P(1, 4) {
			g.ev(Event{At: t, K: "bindfail", H: 0, A: Pick(r, int64(eADDRINUSE), eACCES, eMFILE), B: 1})
		}
		for j := 0; j < 2+r.N(5); j++ {
			at := t + Pick(r, int64(0), 0, 0, 0, 1, 50)
			switch r.N(5) {
			case 0, 1:
				g.ev(Event{At: at, K: "start", H: 0, A: 1})
			case 2, 3:
				g.ev(Event{At: at, K: "stop", H: 0, A: 1})
			case 4:
				switch {
				case node && r.P(1, 2):
					g.cb++
					g.ev(Event{At: at, K: "reg", H: 0, A: int64(Pick(r, wire.Ops...)), V: g.cb, C: 1})
				case node:
					g.ev(Event{At: at, K: "dereg", H: 0, A: int64(Pick(r, wire.Ops...)), C: 1})
				case len(as) > 0:
					g.send(at, 0, as[r.N(len(as))])
				}
			}
		}
		t += Pick(r, int64(0), r.R(0, ms), r.R(0, 600*ms), r.R(0, 4*sec))
	}
	t += r.R(50*ms, 300*ms)
	g.ev(Event{At: t, K: Pick(r, "start", "start", "stop"), H: 0})
	g.p.End = max(end, t+r.R(100*ms, 4*sec))
	if node {
		g.traffic(0, t, g.p.End, 20)
	} else {
		g.sends(0, t, g.p.End, r.N(30), as)
		g.polls(0, t, g.p.End, r.N(10))
	}
}

// ---- large numbers ----
// These are rare in a search (each run is expensive): counters wrap, tables
// grow, limits somebody thought nobody would reach are passed.

// xframes: more than 65536 frames to one device.
func (g *gen) xframes() {
	r := g.r
	g.begin(0)
	pre, bc := g.subnet()
	quick := r.P(1, 2)
	fps := Pick(r, 5, 8, 10)
	if quick {
		fps = Pick(r, 0, 500)
	}
	g.ctrl(pre, bc, fps)
	k := Pick(r, 4, 4, 3)
	g.peer(pre, bc, k, 0)
	if r.P(1, 3) {
		g.peer(pre, bc, 1, 0)
	}
	g.p.Hosts[0].Log = 0
	g.p.Snap = 5 * sec
	g.ev(Event{At: g.start, K: "start", H: 0})
	as := addrs(&g.p.Hosts[1].Ports)
	total := 66000 + r.N(3000)
	if quick { // every universe changes in every frame
		p := int64(1000)
		if fps == 500 {
			p = 2000
		}
		t := g.start + 1200*ms
		for i := 0; i < total/k; i++ {
			for _, a := range as {
				g.send(t, 0, a)
			}
			t += p
		}
		g.p.End = t + 500*ms
	} else { // nothing but the refresh
		gap := 250*ms + sec/int64(fps)
		g.p.End = g.start + int64(total/k)*gap
		g.p.Snap = 20 * sec
		g.sends(0, g.start, g.p.End, 200, g.allAddrs())
	}
	g.sched(false)
	g.p.Sched.YieldDen = max(g.p.Sched.YieldDen, 512)
}

// xpairs: hundreds of short bursts, each followed by silence in which the
// last value has to come through.
func (g *gen) xpairs() {
	r := g.r
	g.begin(0)
	pre, bc := g.subnet()
	fps := Pick(r, 0, 1000, 500, 250, 100)
	g.ctrl(pre, bc, fps)
	for i := 0; i < 1+r.N(2); i++ {
		g.peer(pre, bc, Pick(r, 4, 4, 3, 2), 0)
	}
	g.p.Hosts[0].Log = 0
	g.p.Snap = 2 * sec
	g.ev(Event{At: g.start, K: "start", H: 0})
	if fps == 0 {
		fps = 1000
	}
	period := sec / int64(fps)
	g.p.End = g.start + r.R(20*sec, 60*sec)
	for _, a := range g.allAddrs() {
		for t := g.start + 1200*ms + r.R(0, 200*ms); t < g.p.End-500*ms; {
			for k := 2 + r.N(4); k > 0; k-- {
				g.send(t, 0, a)
				t += period*int64(1+r.N(3)) + r.R(0, period)
			}
			t += r.R(100*ms, 500*ms)
		}
	}
	g.sched(false)
	g.p.Sched.YieldDen = max(g.p.Sched.YieldDen, 64)
}

// xday: a controller that is up for a day.
func (g *gen) xday() {
	r := g.r
	g.begin(r.R(20000*sec, 90000*sec))
	pre, bc := g.subnet()
	g.ctrl(pre, bc, 1)
	g.peer(pre, bc, 1, 1)
	g.p.Hosts[0].Log = 0
	g.p.Snap = 60 * sec
	if r.P(1, 2) { // right after each of the controller's rounds
		g.p.Snap, g.p.SnapOff = 3*sec, g.start+20
	}
	g.ev(Event{At: g.start, K: "start", H: 0})
	g.sends(0, g.start, g.p.End, 300, g.allAddrs())
	for i := 0; i < 10; i++ {
		g.power(1, g.start, g.p.End)
	}
	g.sched(false)
	g.p.Sched.YieldDen = max(g.p.Sched.YieldDen, 512)
}

// lone is one real node and some scripted devices.
func (g *gen) lone(peers int) {
	r := g.r
	g.begin(0)
	pre, bc := g.subnet()
	g.node(pre, bc, r.N(5), r.N(5))
	g.p.Hosts[0].Log = 0
	for i := 0; i < peers; i++ {
		g.peer(pre, bc, 1, 0)
	}
	g.start = r.R(20*ms, 200*ms)
	g.ev(Event{At: g.start, K: "start", H: 0})
	g.sched(false)
	g.p.Sched.YieldDen = max(g.p.Sched.YieldDen, 64)
}

// xpackets: a flood of packets to a node, over time or at once.
func (g *gen) xpackets() {
	r := g.r
	g.lone(1 + r.N(3))
	for i := 0; i < 8; i++ {
		g.reg(r.R(0, g.start-1), 0, 0)
	}
	n := Pick(r, 300, 1100, 5000, 40000, 66000)
	step := Pick(r, int64(0), 0, 1, 200)
	if n > 10000 {
		step = Pick(r, int64(50), 200)
	}
	one := r.P(1, 2)
	op := uint16(wire.OpPoll)
	if r.P(1, 2) {
		op = Pick(r, wire.Ops...)
	}
	same := g.Packet(op)
	crowd := r.P(1, 2)
	t := g.start + sec
	for i := 0; i < n; i++ {
		b := same
		if !one {
			if op != wire.OpPoll {
				op = Pick(r, wire.Ops...)
			}
			b = g.Packet(op)
		}
		g.dgram(t, g.somePeer(), 0, b, "valid")
		if crowd {
			g.from()
		}
		t += step
	}
	g.polls(0, t, t+3*sec, 20)
	g.traffic(0, t, t+3*sec, 40)
	g.p.End = t + 4*sec
}

// xidle: a node that is idle for months.
func (g *gen) xidle() {
	r := g.r
	g.lone(1)
	for i := 0; i < 8; i++ {
		g.reg(r.R(0, g.start-1), 0, 0)
	}
	t := g.start
	for i := 0; i < 2+r.N(3); i++ {
		g.polls(0, t, t+sec, 10)
		g.traffic(0, t, t+sec, 20)
		t += Pick(r, int64(3600), 86400, 50*86400, 200*86400) * sec
	}
	g.polls(0, t, t+sec, 10)
	g.traffic(0, t, t+sec, 20)
	g.p.End = t + 2*sec
	g.p.Snap = g.p.End / 50
}

// xblocked: very many blocked callbacks.
func (g *gen) xblocked() {
	r := g.r
	g.lone(1 + r.N(2))
	ops := append([]uint16(nil), wire.Ops...)
	for i := range ops {
		j := i + r.N(len(ops)-i)
		ops[i], ops[j] = ops[j], ops[i]
	}
	nb := 1 + r.N(2)
	for i := 0; i < 8; i++ {
		mode := int64(0)
		if i < nb {
			mode = 1
		}
		g.cb++
		g.ev(Event{At: r.R(0, g.start-1), K: "reg", H: 0, A: int64(ops[i]), V: g.cb, B: mode})
	}
	t := g.start + 100*ms
	n := Pick(r, 17, 33, 65, 130, 260, 520, 1100, 3000)
	for i := 0; i < n; i++ {
		g.dgram(t, g.somePeer(), 0, g.Packet(ops[r.N(nb)]), "valid")
		t += Pick(r, int64(0), 100, 1000)
	}
	g.traffic(0, t, t+2*sec, 60)
	g.polls(0, t, t+2*sec, 20)
	t += 2 * sec
	if r.P(1, 2) {
		g.ev(Event{At: t, K: "unblock", H: 0})
		g.traffic(0, t, t+sec, 20)
		t += sec
	}
	if r.P(1, 2) {
		g.ev(Event{At: t, K: "stop", H: 0})
		t += 500 * ms
	}
	g.p.End = t + sec
}

// xrestarts: hundreds of sessions, or of failed starts.
func (g *gen) xrestarts() {
	r := g.r
	if r.P(1, 2) {
		g.lone(1)
		g.reg(r.R(0, g.start-1), 0, 0)
	} else {
		g.begin(0)
		pre, bc := g.subnet()
		g.ctrl(pre, bc, Pick(r, 100, 44, 10))
		g.p.Hosts[0].Log = 0
		for i := 0; i < 1+r.N(2); i++ {
			g.peer(pre, bc, 1+r.N(2), 0)
		}
		g.ev(Event{At: g.start, K: "start", H: 0})
		g.sched(false)
	}
	node := g.p.Hosts[0].Kind == "node"
	t := g.start + 100*ms
	n := Pick(r, 40, 130, 300, 600)
	fails := r.P(1, 3)
	as := g.allAddrs()
	for i := 0; i < n; i++ {
		if fails {
			if i == 0 {
				g.ev(Event{At: t, K: "stop", H: 0})
			}
			g.ev(Event{At: t, K: "bindfail", H: 0, A: Pick(r, int64(eADDRINUSE), eMFILE), B: 1})
			g.ev(Event{At: t, K: "start", H: 0})
			t += r.R(1, 20*ms)
			continue
		}
		g.ev(Event{At: t, K: "stop", H: 0})
		t += Pick(r, int64(0), 10, 10*ms)
		g.ev(Event{At: t, K: "start", H: 0})
		t += Pick(r, int64(1), 10*ms, 10*ms, 60*ms)
		if node {
			g.dgram(t-1, g.somePeer(), 0, g.Packet(Pick(r, wire.Ops...)), "valid")
		} else if len(as) > 0 && r.P(1, 3) {
			g.send(t-1, 0, as[r.N(len(as))])
		}
	}
	if fails {
		g.ev(Event{At: t, K: "start", H: 0})
	}
	g.p.End = t + r.R(4*sec, 12*sec)
	if node {
		g.polls(0, t, g.p.End, 10)
		g.traffic(0, t, g.p.End, 30)
	} else {
		g.sends(0, t, g.p.End, 50, as)
	}
}

// xdevices: hundreds of devices.
func (g *gen) xdevices() {
	r := g.r
	g.begin(r.R(8*sec, 16*sec))
	pre, bc := g.subnet()
	g.ctrl(pre, bc, Pick(r, 10, 2, 1))
	g.p.Hosts[0].Log = 0
	n := Pick(r, 60, 120, 230, 330, 560)
	for i := 0; i < n; i++ {
		h := &g.p.Hosts[g.peer(pre, bc, r.N(5), Pick(r, 0, 0, 1, 4))]
		h.Reply = 0 // to the controller only
	}
	g.p.Snap = sec
	g.ev(Event{At: g.start, K: "start", H: 0})
	g.sched(false)
	g.p.Sched.YieldDen = max(g.p.Sched.YieldDen, 64)
	g.sends(0, g.start, g.p.End, 200, g.allAddrs())
	t := r.R(g.start+sec, g.start+5*sec)
	for i := 1; i <= n; i++ {
		switch r.N(4) {
		case 0:
			g.ev(Event{At: t + r.R(0, 50*ms), K: "off", H: i})
		case 1:
			g.ev(Event{At: t + r.R(0, 3*sec), K: "announce", H: i, B: 0})
		}
	}
}

// xerrors: the socket fails again and again.
func (g *gen) xerrors() {
	r := g.r
	if r.P(1, 2) {
		g.lone(1)
		for i := 0; i < 8; i++ {
			g.reg(r.R(0, g.start-1), 0, 0)
		}
	} else {
		g.begin(0)
		pre, bc := g.subnet()
		g.ctrl(pre, bc, Pick(r, 44, 10))
		g.p.Hosts[0].Log = 0
		for i := 0; i < 1+r.N(2); i++ {
			g.peer(pre, bc, 1+r.N(2), 0)
		}
		g.ev(Event{At: g.start, K: "start", H: 0})
		g.sched(false)
	}
	t := g.start + r.R(0, sec)
	switch r.N(3) {
	case 0: // many read errors in a row
		g.ev(Event{At: t, K: "rxerr", H: 0, A: Pick(r, int64(eCONNREF), eNOBUFS, eHOSTUNREACH), B: Pick(r, int64(50), 120, 300, 1100, 5000)})
		t += 100 * ms
	case 1: // one read error every now and then
		for i := 0; i < Pick(r, 50, 150, 300); i++ {
			g.ev(Event{At: t, K: "rxerr", H: 0, A: Pick(r, int64(eCONNREF), eNOBUFS, eHOSTUNREACH), B: 1})
			t += r.R(1*ms, 100*ms)
		}
	case 2: // nothing can be sent for minutes
		d := r.R(60*sec, 400*sec)
		g.ev(Event{At: t, K: "txerr", H: 0, A: Pick(r, int64(eNETUNREACH), eHOSTUNREACH, eNOBUFS, ePERM), B: -1, D: d})
		g.polls(0, t, t+d, 1200)
		t += d
	}
	g.p.End = t + 14*sec
	g.p.Snap = sec
	if g.p.Hosts[0].Kind == "node" {
		g.traffic(0, t, g.p.End, 40)
	} else {
		g.sends(0, g.start, g.p.End, 200, g.allAddrs())
	}
	g.polls(0, t, g.p.End, 20)
}

// xjunk: very many malformed datagrams.
func (g *gen) xjunk() {
	r := g.r
	end := g.either()
	g.sched(false)
	g.p.Hosts[0].Log = 0
	t := r.R(g.start, end)
	src := g.somePeer()
	n := Pick(r, 300, 1100, 5000, 20000)
	one := g.bad()
	crowd := r.P(1, 2)
	if len(one) >= 12 && one[9] == 0x21 && n > 1100 {
		n = 1100 // every announcement may be a device of its own
	}
	for i := 0; i < n; i++ {
		b := one
		if i%2 == 0 {
			b = g.bad()
		}
		g.dgram(t, src, 0, b, "fuzz")
		if crowd {
			g.from()
		}
		t += Pick(r, int64(0), 0, 100, 1000)
	}
	g.p.End = t + 8*sec
	g.polls(0, t, g.p.End, 20)
	if g.p.Hosts[0].Kind == "node" {
		g.traffic(0, t, g.p.End, 30)
	} else {
		g.sends(0, t, g.p.End, 30, g.allAddrs())
	}
}

// from makes the latest datagram one of a sender nobody has heard of.
func (g *gen) from() {
	e := &g.p.Events[len(g.p.Events)-1]
	e.V = 11<<24 | g.r.U()&(1<<24-1)
	if g.r.P(1, 2) {
		e.D = g.r.R(1024, 65535)
	}
}

// xsubmit: a great many submissions for universes that do not exist.
func (g *gen) xsubmit() {
	r := g.r
	g.begin(20 * sec)
	pre, bc := g.subnet()
	g.ctrl(pre, bc, Pick(r, 1, 20, 44))
	g.peer(pre, bc, 1+r.N(4), r.N(4))
	g.p.Hosts[0].Log = 0
	g.ev(Event{At: g.start, K: "start", H: 0})
	for i := 0; i < 4; i++ {
		g.ev(Event{At: r.R(g.start+sec, 15*sec), K: "flood", H: 0, A: 75000, B: Pick(r, int64(1), 16, 128), V: 1 << 39})
	}
	g.sends(0, g.start, g.p.End, 30, g.allAddrs())
	g.sched(false)
	g.p.Sched.YieldDen = max(g.p.Sched.YieldDen, 4096)
}

// leak: thousands of the same kind of thing, then the live heap is measured.
func (g *gen) leak() {
	r := g.r
	kind := r.N(7)
	if kind < 3 {
		g.lone(1)
		for i := 0; i < 8; i++ {
			g.reg(r.R(0, g.start-1), 0, 0)
		}
	} else {
		g.begin(0)
		pre, bc := g.subnet()
		g.ctrl(pre, bc, Pick(r, 1, 5, 20))
		g.p.Hosts[0].Log = 0
		g.peer(pre, bc, 1+r.N(4), r.N(4))
		g.ev(Event{At: g.start, K: "start", H: 0})
		g.sched(false)
		g.p.Sched.YieldDen = max(g.p.Sched.YieldDen, 64)
	}
	g.p.Snap = sec
	n := 3000 + r.N(2000)
	t := g.start + 500*ms
	step := r.R(1, 1500)
	switch kind {
	case 0, 1, 2:
		op := Pick(r, wire.Ops...)
		for i := 0; i < n; i++ {
			switch kind {
			case 0: // packets of all kinds from everywhere
				g.dgram(t, 1, 0, g.Packet(Pick(r, wire.Ops...)), "valid")
				g.from()
			case 1: // packets of one kind from one sender
				g.dgram(t, 1, 0, g.Packet(op), "valid")
			case 2: // no packets at all
				g.dgram(t, 1, 0, g.bad(), "fuzz")
				if r.P(1, 2) {
					g.from()
				}
			}
			t += step
		}
	case 3: // one device that has much to tell
		c := g.p.Hosts[1].Ports
		for i := 0; i < n; i++ {
			if r.P(1, 2) {
				c.X = r.U() | 1
				c.Name = fmt.Sprintf("device %d", r.N(100000))
				cfg := c
				g.ev(Event{At: t, K: "ports", H: 1, Cfg: &cfg})
			}
			g.ev(Event{At: t, K: "announce", H: 1, B: 0})
			t += step
		}
	case 4: // devices that come and go
		for i := 0; i < 300; i++ {
			b := g.Packet(wire.OpPollReply)
			b[200], b[172], b[173], b[174] = wire.StNode, 0, 1, 0x80
			g.dgram(t, 1, 0, b, "valid")
			t += r.R(sec, 3*sec)
		}
	case 5: // submissions
		g.sends(0, t, t+20*sec, n, append(g.allAddrs(), g.strangers(3)...))
		g.ev(Event{At: t + r.R(0, 10*sec), K: "flood", H: 0, A: 20000, B: Pick(r, int64(1), 16, 128), V: 1 << 39})
		t += 20 * sec
	case 6: // failures
		for i := 0; i < 200; i++ {
			g.ev(Event{At: t, K: "rxerr", H: 0, A: Pick(r, int64(eCONNREF), eNOBUFS, eHOSTUNREACH), B: r.R(1, 40)})
			t += r.R(1*ms, 100*ms)
		}
		g.ev(Event{At: t, K: "txerr", H: 0, A: Pick(r, int64(eNETUNREACH), eHOSTUNREACH, eNOBUFS, ePERM), B: -1, D: 100 * sec})
		t += 100 * sec
	}
	g.p.End = t + 11*sec
}
