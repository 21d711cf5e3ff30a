package main

import (
	"verif/internal/plan"
	"verif/internal/wire"
)

// peer is a scripted Art-Net device: it answers polls, announces ports and
// records the frames it is sent.  It shares no code with the library.
type peer struct {
	w     *world
	h     *host
	off   bool
	ports plan.Ports
	nrep  uint64
}

func (p *peer) bcast() ([4]byte, int) { return p.w.bcastOf(p.h) }

func (p *peer) reply() []byte {
	c := &p.ports
	r := &wire.Reply{IP: p.h.ip, Net: c.Net, Sub: c.Sub, Style: c.Style, Short: c.Name, Long: p.h.cfg.Desc, PortBE: c.BE, BindIndex: c.Bind}
	x := p.h.cfg.Extra
	if c.X != 0 {
		x = c.X
	}
	fillReply(r, x)
	if x%4 == 1 {
		// a unit of a device whose root unit is another device
		r.BindIP = p.w.hosts[x>>3%uint64(len(p.w.hosts))].ip
		if x%8 == 1 && r.BindIndex == 0 {
			r.BindIndex = 2
		}
	}
	n := max(len(c.Out), len(c.In))
	for i := 0; i < 4; i++ {
		if i < len(c.Out) {
			r.PortTypes[i] |= 0x80
			r.SwOut[i] = c.Out[i]
			r.GoodOut[i] = 0x80
		}
		if i < len(c.In) {
			r.PortTypes[i] |= 0x40
			r.SwIn[i] = c.In[i]
			r.GoodIn[i] = 0x80
		}
	}
	if c.X != 0 {
		g := plan.NewRng(c.X ^ 0x5151)
		r.Long = p.h.cfg.Desc[:g.N(len(p.h.cfg.Desc)+1)]
		for i := 0; i < 4; i++ {
			r.PortTypes[i] |= uint8(g.N(6))
			r.GoodOut[i], r.GoodIn[i] = uint8(g.U()), uint8(g.U())
		}
	}
	r.NumPorts = uint16(n)
	if c.Num > 0 {
		r.NumPorts = uint16(c.Num - 1)
	}
	return r.Encode()
}

// fillReply derives the remaining fields of an announcement.
func fillReply(r *wire.Reply, x uint64) {
	if x == 0 {
		return
	}
	g := plan.NewRng(x)
	r.Oem, r.Version, r.Ubea = uint16(g.U()), uint16(g.U()), uint8(g.U())
	r.Status1, r.Status2 = uint8(g.U()), uint8(g.U())
	r.Esta = [2]byte{byte('A' + g.N(26)), byte('A' + g.N(26))}
	for i := range r.Mac {
		r.Mac[i] = byte(g.U())
	}
	for i := range r.BindIP {
		r.BindIP[i] = byte(1 + g.N(200))
	}
	if g.N(2) == 0 {
		rep := make([]byte, g.N(65))
		for i := range rep {
			rep[i] = byte(g.U())
		}
		r.Report = string(rep)
	}
}

// announce sends the announcement: to host i, or broadcast when i < 0.
func (p *peer) announce(i int) {
	if p.off {
		return
	}
	b := p.reply()
	if i < 0 {
		ip, port := p.bcast()
		p.w.route(p.h.i, p.h.ip, wire.Port, ip, port, b)
		return
	}
	t := p.w.hosts[i]
	p.w.route(p.h.i, p.h.ip, wire.Port, t.ip, p.w.portOf(t), b)
}

func (p *peer) recv(src [4]byte, sport int, b []byte) {
	if p.off {
		return
	}
	op, k := wire.Classify(b)
	if k != wire.Valid {
		return
	}
	w := p.w
	switch op {
	case wire.OpPoll:
		c := p.h.cfg
		if c.Reply == 2 {
			return
		}
		p.nrep++
		d := c.RMin + int64(plan.Hash(w.p.NetSeed, uint64(p.h.i), p.nrep, 999)%uint64(c.RMax-c.RMin+1))
		w.at(now()+d*1000, func() {
			if p.off {
				return
			}
			if c.Reply == 1 {
				p.announce(-1)
				return
			}
			w.route(p.h.i, p.h.ip, wire.Port, src, sport, p.reply())
		})
	case wire.OpDmx:
		w.rec(ev{K: evPeerRX, H: p.h.i, Run: -1, Src: src, Port: sport, Data: b})
	}
}
