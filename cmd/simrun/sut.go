package main

import (
	"fmt"
	"io"
	"net"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unsafe"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/sirupsen/logrus"

	"verif/internal/plan"
	"verif/internal/wire"
)

// sut is one machine running the real library.
type sut struct {
	w     *world
	h     *host
	label int32
	obj   int // how many times the machine was (re)booted
	ctrl  *artnet.Controller
	node  *artnet.Node

	g      unsafe.Pointer // operator goroutine
	parked bool
	q      []func()
	mine   int // harness goroutines alive under this label

	blocked []unsafe.Pointer // user callbacks that are blocked on purpose
	baseG   int              // goroutines right after Start
	wireCfg *wire.Reply      // what the node should announce (as of Start)
	badCfg  bool             // the configuration is one Start has to refuse
	fps     int              // options as of now
	bcast   string

	appG  unsafe.Pointer // the application is sending from this goroutine
	appOp *opRec
	objs  map[int64]packet.ArtNetPacket // packets the application uses again
}

func (w *world) logger(h *host) artnet.Logger {
	if h.cfg.Log == 2 { // the library's own, with its output thrown away
		var l artnet.Logger
		lib(func() { l = artnet.NewDefaultLogger() })
		v := reflect.ValueOf(l)
		for v.Kind() == reflect.Pointer {
			v = v.Elem()
		}
		if v.Kind() == reflect.Struct {
			if f := v.FieldByName("Entry"); f.IsValid() && f.CanInterface() {
				if e, ok := f.Interface().(*logrus.Entry); ok && e != nil && e.Logger != nil {
					e.Logger.SetOutput(io.Discard)
					return l
				}
			}
		}
	}
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.PanicLevel)
	if h.cfg.Log > 0 {
		l.SetLevel(logrus.DebugLevel)
	}
	return artnet.NewLogger(logrus.NewEntry(l))
}

func udp(s string) net.UDPAddr {
	a, err := net.ResolveUDPAddr("udp4", s)
	if err != nil {
		panic(err)
	}
	return *a
}

func parseIP(s string) (r [4]byte) {
	copy(r[:], net.ParseIP(s).To4())
	return
}

// boot creates the object under test and its operator goroutine.
func (w *world) boot(h *host) {
	w.nlabel++
	obj := 0
	if h.sut != nil {
		obj = h.sut.obj + 1
	}
	s := &sut{w: w, h: h, label: w.nlabel, obj: obj}
	h.sut = s
	lib(func() { go s.operator() })
}

func (s *sut) create() {
	c := s.h.cfg
	s.fps, s.bcast = c.FPS, c.Bcast
	log := s.w.logger(s.h)
	ip := net.ParseIP(c.IP)
	if c.Extra&1 == 0 {
		ip = ip.To4()
	}
	switch c.Kind {
	case "ctrl":
		var o []artnet.Option
		if c.FPS > 0 {
			o = append(o, artnet.MaxFPS(c.FPS))
		}
		if c.Bcast != "" {
			o = append(o, artnet.BroadcastAddr(udp(c.Bcast)))
		}
		if c.Listen != "" {
			if a, err := net.ResolveUDPAddr("udp4", c.Listen); err == nil {
				o = append(o, artnet.ListenAddress(*a))
			} else {
				o = append(o, artnet.ListenIP(net.ParseIP(c.Listen)))
			}
		}
		lib(func() { s.ctrl = artnet.NewController(c.Name, ip, log, o...) })
		s.wireCfg = &wire.Reply{IP: s.h.ip, Short: c.Name, Style: wire.StController}
	case "node":
		var o []artnet.NodeOption
		if c.Bcast != "" {
			o = append(o, artnet.NodeBroadcastAddress(udp(c.Bcast)))
		}
		if c.Listen != "" {
			if a, err := net.ResolveUDPAddr("udp4", c.Listen); err == nil {
				o = append(o, artnet.NodeListenAddress(*a))
			} else {
				o = append(o, artnet.NodeListenIP(net.ParseIP(c.Listen)))
			}
		}
		lib(func() { s.node = artnet.NewNode(c.Name, code.StyleCode(c.Style), ip, log, o...) })
		s.configure(c)
	}
}

// configure fills the node's public configuration and computes, with the
// independent encoder, what it has to announce.
func (s *sut) configure(c *plan.Host) {
	p := &c.Ports
	r := &wire.Reply{IP: s.h.ip, Short: c.Name, Long: c.Desc, Style: c.Style, Net: p.Net, Sub: p.Sub, BindIndex: p.Bind}
	fillReply(r, c.Extra)
	g := plan.NewRng(c.Extra + 5)
	n := s.node
	n.Config.Description = c.Desc
	n.Config.OEM, n.Config.Version, n.Config.BiosVersion = r.Oem, r.Version, r.Ubea
	n.Config.Status1, n.Config.Status2 = code.Status1(r.Status1), code.Status2(r.Status2)
	if r.Esta[0] != 0 {
		n.Config.Manufacturer = string(r.Esta[:])
	}
	n.Config.Ethernet = append(net.HardwareAddr(nil), r.Mac[:]...)
	n.Config.BindIP = net.IPv4(r.BindIP[0], r.BindIP[1], r.BindIP[2], r.BindIP[3])
	n.Config.BindIndex = p.Bind
	n.Config.Report = nil
	for i := 0; i < len(r.Report); i++ {
		n.Config.Report = append(n.Config.Report, code.NodeReportCode(r.Report[i]))
	}
	n.Config.BaseAddress = artnet.Address{Net: p.Net, SubUni: p.Sub << 4}
	n.Config.OutputPorts, n.Config.InputPorts = nil, nil
	for i := 0; i < 4; i++ {
		ty := uint8(g.N(6))
		if i < len(p.Out) {
			st := uint8(g.U())
			n.Config.OutputPorts = append(n.Config.OutputPorts, artnet.OutputPort{
				Address: artnet.Address{Net: p.Net, SubUni: p.Sub<<4 | p.Out[i]}, Type: code.PortType(ty), Status: code.GoodOutput(st)})
			r.PortTypes[i] |= 0x80 | ty
			r.SwOut[i], r.GoodOut[i] = p.Out[i], st
		}
		if i < len(p.In) {
			st := uint8(g.U())
			n.Config.InputPorts = append(n.Config.InputPorts, artnet.InputPort{
				Address: artnet.Address{Net: p.Net, SubUni: p.Sub<<4 | p.In[i]}, Type: code.PortType(ty), Status: code.GoodInput(st)})
			r.PortTypes[i] |= 0x40 | ty
			r.SwIn[i], r.GoodIn[i] = p.In[i], st
		}
	}
	r.NumPorts = uint16(max(len(p.Out), len(p.In)))
	s.wireCfg = r
}

// spoil makes the configuration one that has to be refused.
func (s *sut) spoil(k int64) {
	c := &s.node.Config
	s.badCfg = k > 0
	switch k {
	case 1:
		for len(c.OutputPorts) < 5 {
			c.OutputPorts = append(c.OutputPorts, artnet.OutputPort{})
		}
	case 2:
		for len(c.InputPorts) < 5 {
			c.InputPorts = append(c.InputPorts, artnet.InputPort{})
		}
	case 3, 4, 5, 6: // the two directions of a port differ in type
		i := k - 3
		c.OutputPorts, c.InputPorts = make([]artnet.OutputPort, i+1), make([]artnet.InputPort, i+1)
		c.OutputPorts[i].Type, c.InputPorts[i].Type = 1, 2
	}
}

// tx: the application sends a packet of its own over the node's connection.
func (s *sut) tx(e *plan.Event) {
	if s.node == nil || s.badCfg {
		return
	}
	o := s.begin(e)
	o.Want = e.Data
	var conn *net.UDPConn
	lib(func() { conn = s.node.Connection() })
	if conn == nil {
		s.end(o, nil)
		return
	}
	p := s.objs[e.A]
	if q := newPacket(e.Data); p == nil || fmt.Sprintf("%T", p) != fmt.Sprintf("%T", q) {
		p = q
	}
	if s.objs == nil {
		s.objs = map[int64]packet.ArtNetPacket{}
	}
	if e.A > 0 {
		s.objs[e.A] = p
	}
	var b []byte
	var err error
	lib(func() {
		fillPacket(p, e.Data)
		for i := int64(0); i <= e.C; i++ {
			b, err = p.MarshalBinary()
		}
	})
	if err == nil {
		t := s.w.hosts[e.B]
		a := &net.UDPAddr{IP: net.IP(t.ip[:]), Port: s.w.portOf(t)}
		s.appG, s.appOp = runtime.SimSelf(), o
		lib(func() { conn.WriteToUDP(b, a) })
		s.appG = nil
	}
	s.end(o, err)
}

// operator runs this machine's API calls one after the other.
func (s *sut) operator() {
	runtime.SimSetHost(s.label)
	runtime.SimHarness(true)
	s.g = runtime.SimSelf()
	s.mine++
	s.create()
	for {
		for len(s.q) == 0 {
			s.parked = true
			runtime.SimPark()
		}
		f := s.q[0]
		s.q = s.q[1:]
		f()
	}
}

func (s *sut) do(f func()) {
	s.q = append(s.q, f)
	if s.parked {
		s.parked = false
		runtime.SimReady(s.g)
	}
}

func (s *sut) begin(e *plan.Event) *opRec {
	o := &opRec{ID: len(s.w.ops), H: s.h.i, K: e.K, V: e.V, Code: uint16(e.A), Cb: int(e.V), Ret: -1, Label: s.label}
	if e.K == "send" {
		o.Addr = wire.Addr{Net: uint8(e.A), SubUni: uint8(e.B)}
	}
	o.Bad = e.K == "start" && s.badCfg
	s.w.ops = append(s.w.ops, o)
	o.InvT = now()
	o.Inv = s.w.rec(ev{K: evInv, H: s.h.i, Run: -1, Op: o})
	if e.K == "stop" {
		for _, r := range s.w.runs {
			if r.Label == s.label && r.StopInv < 0 && r.Close < 0 {
				r.StopInv, r.StopInvT = o.Inv, o.InvT
			}
		}
	}
	return o
}

func (s *sut) end(o *opRec, err error) {
	if err != nil {
		o.Err = err.Error()
		if o.Err == "" {
			o.Err = "error"
		}
	}
	o.RetT = now()
	o.Ret = s.w.rec(ev{K: evRet, H: s.h.i, Run: -1, Op: o, Err: err != nil})
}

func (s *sut) op(e *plan.Event) {
	switch e.K {
	case "start":
		start := func() {
			o := s.begin(e)
			var err error
			lib(func() {
				if s.ctrl != nil {
					err = s.ctrl.Start()
				} else {
					err = s.node.Start()
				}
			})
			s.end(o, err)
			s.w.snapReq = true
		}
		if e.A == 1 {
			s.do(func() { s.async(start) })
		} else {
			s.do(start)
		}
	case "stop":
		stop := func() {
			o := s.begin(e)
			lib(func() {
				if s.ctrl != nil {
					s.ctrl.Stop()
				} else {
					s.node.Stop()
				}
			})
			s.end(o, nil)
			s.w.snapReq = true
		}
		if e.A == 1 { // from a goroutine of its own, possibly concurrent with another call
			s.do(func() { s.async(stop) })
		} else {
			s.do(stop)
		}
	case "send":
		s.do(func() {
			s.async(func() {
				o := s.begin(e)
				data := plan.Fill(e.V)
				lib(func() { s.ctrl.SendDMXToAddress(data, artnet.Address{Net: uint8(e.A), SubUni: uint8(e.B)}) })
				s.end(o, nil)
			})
		})
	case "flood": // many submissions for universes that nobody can announce
		s.do(func() {
			s.async(func() {
				o := s.begin(e)
				data := plan.Fill(e.V)
				lib(func() {
					for i := int64(0); i < e.A; i++ {
						s.ctrl.SendDMXToAddress(data, artnet.Address{Net: 0x80 | uint8(i%e.B), SubUni: uint8(i)})
					}
				})
				s.end(o, nil)
			})
		})
	case "reg":
		reg := func() {
			o := s.begin(e)
			cb := s.callback(int(e.V), int(e.B))
			lib(func() { s.node.RegisterCallback(code.OpCode(e.A), cb) })
			s.end(o, nil)
		}
		if e.C == 1 {
			s.do(func() { s.async(reg) })
		} else {
			s.do(reg)
		}
	case "dereg":
		dereg := func() {
			o := s.begin(e)
			lib(func() { s.node.DeregisterCallback(code.OpCode(e.A)) })
			s.end(o, nil)
		}
		if e.C == 1 {
			s.do(func() { s.async(dereg) })
		} else {
			s.do(dereg)
		}
	case "tx":
		s.do(func() { s.tx(e) })
	case "cfg":
		s.do(func() {
			for _, r := range s.w.runs {
				if r.Label == s.label && r.Close < 0 {
					return // only between runs
				}
			}
			c := *s.h.cfg
			c.Ports, c.Extra, c.Desc = *e.Cfg, e.V, e.S
			s.configure(&c)
			s.spoil(e.A)
			s.w.probe("configuration_changed")
		})
	case "opt":
		s.do(func() {
			for _, r := range s.w.runs {
				if r.Label == s.label && r.Close < 0 {
					return // only between runs
				}
			}
			s.options(e)
		})
	case "unblock":
		b := s.blocked
		s.blocked = nil
		for _, g := range b {
			runtime.SimReady(g)
		}
	}
}

// options changes options of a stopped controller or node.
func (s *sut) options(e *plan.Event) {
	var err error
	if e.S != "" {
		if s.ctrl != nil {
			lib(func() { err = s.ctrl.SetOption(artnet.BroadcastAddr(udp(e.S))) })
		} else {
			lib(func() { err = s.node.SetOption(artnet.NodeBroadcastAddress(udp(e.S))) })
		}
		s.bcast = e.S
		if err != nil {
			s.w.optErr("the broadcast address " + e.S + " was refused: " + err.Error())
		}
		s.w.probe("option_changed")
	}
	if e.B == 1 && s.ctrl != nil {
		lib(func() { err = s.ctrl.SetOption(artnet.MaxFPS(int(e.A))) })
		switch good := e.A >= 1 && e.A <= 1e9; {
		case good && err != nil:
			s.w.optErr(fmt.Sprintf("MaxFPS(%d) was refused: %v", e.A, err))
		case !good && err == nil:
			s.w.optErr(fmt.Sprintf("MaxFPS(%d) was accepted", e.A))
		case good:
			s.fps = int(e.A)
			s.w.probe("option_changed")
		default:
			s.w.probe("option_refused")
		}
	}
}

// async runs f in a goroutine of its own (the caller is an operator).
func (s *sut) async(f func()) {
	s.mine++
	lib(func() {
		go func() {
			runtime.SimHarness(true)
			f()
			s.mine--
			runtime.SimHarness(false)
		}()
	})
}

// lib runs code of the library from harness code (or starts a goroutine, which
// the race detector has to see).
func lib(f func()) {
	runtime.SimHarness(false)
	f()
	runtime.SimHarness(true)
}

// callback builds a user callback.  mode 1 blocks until released, mode 2
// stops the node from inside, mode 3 tries to change its registration.
func (s *sut) callback(id, mode int) artnet.NodeCallbackFn {
	return func(p packet.ArtNetPacket) {
		runtime.SimHarness(true)
		defer runtime.SimHarness(false)
		c := &cbRec{H: s.h.i, Cb: id, Op: uint16(p.GetOpCode()), Canon: canonPacket(p), Label: s.label, Run: -1, Obj: s.obj}
		c.Late = func() string { return canonPacket(p) }
		if d, ok := p.(*packet.ArtDMXPacket); ok {
			c.Dmx = &wire.Dmx{Addr: wire.Addr{Net: d.Net, SubUni: d.SubUni}, Seq: d.Sequence, Data: d.Data}
		}
		s.w.rec(ev{K: evCB, H: s.h.i, Run: -1, Cb: c})
		switch mode {
		case 1:
			s.w.fault("callback_blocked")
			s.mine++
			s.blocked = append(s.blocked, runtime.SimSelf())
			runtime.SimPark()
			s.mine--
		case 2:
			s.mine++
			o := s.begin(&plan.Event{K: "stop"})
			o.InCB = true
			lib(s.node.Stop)
			s.end(o, nil)
			s.mine--
		}
		if mode == 3 {
			// changing the registrations from inside a callback: the node is running
			s.mine++
			k := "reg"
			if id%2 == 0 {
				k = "dereg"
			}
			o := s.begin(&plan.Event{K: k, A: int64(c.Op), V: uint64(id)})
			o.InCB = true
			lib(func() {
				if k == "reg" {
					s.node.RegisterCallback(code.OpCode(c.Op), func(p packet.ArtNetPacket) {
						runtime.SimHarness(true)
						s.w.rec(ev{K: evCB, H: s.h.i, Run: -1, Cb: &cbRec{H: s.h.i, Cb: 1 << 20, Op: uint16(p.GetOpCode()), Canon: canonPacket(p), Label: s.label, Run: -1, Obj: s.obj, Late: func() string { return canonPacket(p) }}})
						runtime.SimHarness(false)
					})
				} else {
					s.node.DeregisterCallback(code.OpCode(c.Op))
				}
			})
			s.end(o, nil)
			s.mine--
		}
		s.w.rec(ev{K: evCBEnd, H: s.h.i, Run: -1, Cb: c})
	}
}

// crash kills the machine: its goroutines never run again and its sockets
// vanish.
func (w *world) crash(h *host) {
	s := h.sut
	if s == nil {
		return
	}
	w.fault("crash")
	runtime.SimKillHost(s.label)
	for _, k := range append([]*sock(nil), h.socks...) {
		for range k.writers {
			runtime.SimBlocked(-1)
		}
		k.writers, k.readers = nil, nil
		k.run.Crash = true
		k.shut()
	}
	w.rec(ev{K: evCrash, H: h.i, Run: -1})
	w.boot(h)
}

// ---- snapshots of public state at quiescent points ----

type portSnap struct {
	A      wire.Addr
	Type   uint8
	Status uint8
}

type nodeSnap struct {
	IP       string
	Name     string
	Desc     string
	Type     uint8
	Oem      uint16
	Version  uint16
	Bios     uint8
	Esta     string
	Mac      string
	BindIP   string
	Bind     uint8
	Port     uint16
	St1, St2 uint8
	Base     wire.Addr
	Report   string
	Out, In  []portSnap
	UDP      string
}

type snap struct {
	H       int
	Label   int32
	Obj     int
	Live    int
	Mine    int
	Nodes   []nodeSnap
	Out     map[wire.Addr]string // universe -> node IP, "?" when not a listed node
	In      map[wire.Addr]string
	Pending int
	Bytes   int // memory reachable from the object
}

// weight is the memory reachable from v, without what the harness put there.
func weight(v reflect.Value, seen map[uintptr]bool) int {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] || v.Type() == udpConn {
			return 0
		}
		seen[v.Pointer()] = true
		return int(v.Type().Elem().Size()) + weight(v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() || v.Type() == logger {
			return 0
		}
		return 16 + weight(v.Elem(), seen)
	case reflect.Struct:
		n := 0
		for i := 0; i < v.NumField(); i++ {
			n += weight(v.Field(i), seen)
		}
		return n
	case reflect.String:
		return v.Len()
	case reflect.Slice:
		n := v.Cap() * int(v.Type().Elem().Size())
		if flat(v.Type().Elem()) {
			return n
		}
		for i := 0; i < v.Len(); i++ {
			n += weight(v.Index(i), seen)
		}
		return n
	case reflect.Array:
		n := 0
		if !flat(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				n += weight(v.Index(i), seen)
			}
		}
		return n
	case reflect.Map:
		n := v.Len() * int(v.Type().Key().Size()+v.Type().Elem().Size())
		if flat(v.Type().Key()) && flat(v.Type().Elem()) {
			return n
		}
		for it := v.MapRange(); it.Next(); {
			n += weight(it.Key(), seen) + weight(it.Value(), seen)
		}
		return n
	case reflect.Chan:
		return v.Cap() * int(v.Type().Elem().Size())
	}
	return 0
}

func flat(t reflect.Type) bool { return t.Kind() <= reflect.Complex128 }

var udpConn, logger = reflect.TypeOf((*net.UDPConn)(nil)), reflect.TypeOf((*artnet.Logger)(nil)).Elem()

func (w *world) snapshot() {
	for _, h := range w.hosts {
		s := h.sut
		if s == nil {
			continue
		}
		n := &snap{H: h.i, Label: s.label, Obj: s.obj, Live: runtime.SimLive(s.label), Mine: s.mine}
		for _, k := range h.socks {
			if k.label == s.label {
				n.Pending += len(k.rx)
			}
		}
		if c := s.ctrl; c != nil {
			listed := map[*artnet.ControlledNode]bool{}
			for _, x := range c.Nodes {
				if x == nil {
					n.Nodes = append(n.Nodes, nodeSnap{IP: "nil"})
					continue
				}
				listed[x] = true
				n.Nodes = append(n.Nodes, nodeOf(x))
			}
			sort.SliceStable(n.Nodes, func(i, j int) bool { return n.Nodes[i].IP < n.Nodes[j].IP })
			conv := func(m map[artnet.Address]*artnet.ControlledNode) map[wire.Addr]string {
				r := map[wire.Addr]string{}
				for a, x := range m {
					v := "?"
					if x != nil && listed[x] {
						v = x.Node.IP.String()
					}
					r[wire.Addr{Net: a.Net, SubUni: a.SubUni}] = v
				}
				return r
			}
			n.Out, n.In = conv(c.OutputAddress), conv(c.InputAddress)
		}
		if s.ctrl != nil {
			n.Bytes = weight(reflect.ValueOf(s.ctrl), map[uintptr]bool{})
		} else if s.node != nil {
			n.Bytes = weight(reflect.ValueOf(s.node), map[uintptr]bool{})
		}
		i := w.rec(ev{K: evSnap, H: h.i, Run: -1, Snap: n})
		if s.ctrl != nil {
			for k := range w.ids {
				if k.h == h.i {
					w.ids[k] = append(w.ids[k], ident{i, w.hist[i].QC, s.listed(k.ip)})
				}
			}
		}
	}
}

func nodeOf(x *artnet.ControlledNode) nodeSnap {
	c := &x.Node
	s := nodeSnap{IP: c.IP.String(), Name: c.Name, Desc: c.Description, Type: uint8(c.Type), Oem: c.OEM, Version: c.Version,
		Bios: c.BiosVersion, Esta: c.Manufacturer, Mac: c.Ethernet.String(), BindIP: c.BindIP.String(), Bind: c.BindIndex,
		Port: c.Port, St1: uint8(c.Status1), St2: uint8(c.Status2), UDP: x.UDPAddress.String(), Base: wire.Addr{Net: c.BaseAddress.Net, SubUni: c.BaseAddress.SubUni}}
	for _, r := range c.Report {
		s.Report += fmt.Sprintf("%02x", uint8(r))
	}
	s.Report = strings.TrimRight(s.Report, "0")
	for _, p := range c.OutputPorts {
		s.Out = append(s.Out, portSnap{wire.Addr{Net: p.Address.Net, SubUni: p.Address.SubUni}, uint8(p.Type), uint8(p.Status)})
	}
	for _, p := range c.InputPorts {
		s.In = append(s.In, portSnap{wire.Addr{Net: p.Address.Net, SubUni: p.Address.SubUni}, uint8(p.Type), uint8(p.Status)})
	}
	return s
}

// wantNode is the entry a controller has to show for an announcement.
func wantNode(r *wire.Reply) nodeSnap {
	ip := func(b [4]byte) string { return net.IP(b[:]).String() }
	s := nodeSnap{IP: ip(r.IP), Name: r.Short, Desc: r.Long, Type: r.Style, Oem: r.Oem, Version: r.Version, Bios: r.Ubea,
		Mac: net.HardwareAddr(r.Mac[:]).String(), BindIP: ip(r.BindIP), Bind: r.BindIndex, Port: wire.Port,
		St1: r.Status1, St2: r.Status2, UDP: fmt.Sprintf("%s:%d", ip(r.IP), wire.Port),
		Base: wire.Addr{Net: r.Net, SubUni: r.Sub & 15 << 4}, Report: strings.TrimRight(fmt.Sprintf("%x", r.Report), "0")}
	for _, c := range r.Esta {
		if c == 0 {
			break
		}
		s.Esta += string(rune(c))
		if c >= 128 {
			s.Esta = "*"
			break
		}
	}
	// the strings are ASCII by definition: no claim about anything else
	s.Name, s.Desc = ascii(s.Name), ascii(s.Desc)
	for i := 0; i < int(r.NumPorts) && i < 4; i++ {
		if r.PortTypes[i]&0x80 != 0 {
			s.Out = append(s.Out, portSnap{wire.Addr{Net: r.Net, SubUni: r.Sub&15<<4 | r.SwOut[i]&15}, r.PortTypes[i], r.GoodOut[i]})
		}
		if r.PortTypes[i]&0x40 != 0 {
			s.In = append(s.In, portSnap{wire.Addr{Net: r.Net, SubUni: r.Sub&15<<4 | r.SwIn[i]&15}, r.PortTypes[i], r.GoodIn[i]})
		}
	}
	return s
}

func ascii(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return "*"
		}
	}
	return s
}

// canonPacket renders the fields of a decoded packet; canonRaw renders the
// same from the datagram, independently.
func canonPacket(p packet.ArtNetPacket) string {
	switch x := p.(type) {
	case *packet.ArtPollPacket:
		return fmt.Sprintf("poll %d %d", uint8(x.TalkToMe), uint8(x.Priority))
	case *packet.ArtPollReplyPacket:
		var rep [64]byte
		for i, c := range x.NodeReport {
			rep[i] = byte(c)
		}
		return fmt.Sprintf("reply %v %d %d %d %d %d %d %v %x %x %x %d %v %v %v %v %v %d %v %v %d %d", x.IPAddress, x.VersionInfo, x.NetSwitch, x.SubSwitch,
			x.Oem, x.UBEAVersion, uint8(x.Status1), x.ESTAmanufacturer, x.ShortName, x.LongName, rep, x.NumPorts,
			nums(x.PortTypes), nums(x.GoodInput), nums(x.GoodOutput), x.SwIn, x.SwOut, uint8(x.Style), x.Macaddress, x.BindIP, x.BindIndex, uint8(x.Status2)) + fmt.Sprint(" ", x.SwVideo, uint8(x.SwMacro), uint8(x.SwRemote))
	case *packet.ArtDiagDataPacket:
		return fmt.Sprintf("diag %d %d %x", uint8(x.Priority), x.Length, x.Data)
	case *packet.ArtCommandPacket:
		return fmt.Sprintf("cmd %d %x", x.Length, x.Data)
	case *packet.ArtDMXPacket:
		return fmt.Sprintf("dmx %d %d %d %d %d %x", x.Sequence, x.Physical, x.SubUni, x.Net, x.Length, x.Data)
	case *packet.ArtNzsPacket:
		return fmt.Sprintf("nzs %d %d %d %d %d %x", x.Sequence, x.StartCode, x.SubUni, x.Net, x.Length, x.Data)
	case *packet.ArtSyncPacket:
		return "sync"
	case *packet.ArtAddressPacket:
		return fmt.Sprintf("addr %d %d %x %x %v %v %d %d %d", x.NetSwitch, x.BindIndex, x.ShortName, x.LongName, x.SwIn, x.SwOut, x.SubSwitch, x.SwVideo, x.Command)
	case *packet.ArtTimeCodePacket:
		return fmt.Sprintf("tc %d %d %d %d %d", x.Frames, x.Seconds, x.Minutes, x.Hours, x.Type)
	case *packet.ArtTriggerPacket:
		return fmt.Sprintf("trig %d %d %d %x", x.Oem, x.Key, x.SubKey, x.Data)
	case *packet.ArtIPProgPacket:
		return fmt.Sprintf("ipprog %d %v %v %v", x.Command, x.ProgIP, x.ProgSubNet, x.ProgPort)
	case *packet.ArtIPProgReplyPacket:
		return fmt.Sprintf("ipprogreply %v %v %v %d", x.ProgIP, x.ProgSubNet, x.ProgPort, x.Status)
	}
	return fmt.Sprintf("%T", p)
}

// newPacket is an empty library packet of the datagram's kind.
func newPacket(b []byte) packet.ArtNetPacket {
	switch wire.Opcode(b) {
	case wire.OpPoll:
		return packet.NewArtPollPacket()
	case wire.OpPollReply:
		return packet.NewArtPollReplyPacket()
	case wire.OpDiagData:
		return packet.NewArtDiagDataPacket()
	case wire.OpCommand:
		return packet.NewArtCommandPacket()
	case wire.OpDmx:
		return packet.NewArtDMXPacket()
	case wire.OpNzs:
		return packet.NewArtNzsPacket()
	case wire.OpSync:
		return packet.NewArtSyncPacket()
	case wire.OpAddress:
		return packet.NewArtAddressPacket()
	case wire.OpTimeCode:
		return packet.NewArtTimeCodePacket()
	case wire.OpTrigger:
		return packet.NewArtTriggerPacket()
	case wire.OpIPProg:
		return packet.NewArtIPProgPacket()
	case wire.OpIPProgReply:
		return packet.NewArtIPProgReplyPacket()
	}
	panic("unknown opcode")
}

// fillPacket sets the fields of a library packet to what the datagram carries.
func fillPacket(p packet.ArtNetPacket, b []byte) {
	be16 := func(i int) uint16 { return uint16(b[i])<<8 | uint16(b[i+1]) }
	switch x := p.(type) {
	case *packet.ArtPollPacket:
		x.TalkToMe, x.Priority = code.TalkToMe(b[12]), code.PriorityCode(b[13])
	case *packet.ArtPollReplyPacket:
		copy(x.IPAddress[:], b[10:])
		x.Port = packet.ArtNetPort
		x.VersionInfo, x.NetSwitch, x.SubSwitch = be16(16), b[18], b[19]
		x.Oem, x.UBEAVersion, x.Status1 = be16(20), b[22], code.Status1(b[23])
		copy(x.ESTAmanufacturer[:], b[24:])
		copy(x.ShortName[:], b[26:])
		copy(x.LongName[:], b[44:])
		for i := range x.NodeReport {
			x.NodeReport[i] = code.NodeReportCode(b[108+i])
		}
		x.NumPorts = be16(172)
		for i := 0; i < 4; i++ {
			x.PortTypes[i], x.GoodInput[i], x.GoodOutput[i] = code.PortType(b[174+i]), code.GoodInput(b[178+i]), code.GoodOutput(b[182+i])
			x.SwIn[i], x.SwOut[i] = b[186+i], b[190+i]
		}
		x.SwVideo, x.SwMacro, x.SwRemote = b[194], code.SwMacro(b[195]), code.SwRemote(b[196])
		x.Style = code.StyleCode(b[200])
		copy(x.Macaddress[:], b[201:])
		copy(x.BindIP[:], b[207:])
		x.BindIndex, x.Status2 = b[211], code.Status2(b[212])
	case *packet.ArtDiagDataPacket:
		x.Priority, x.Length = code.PriorityCode(b[13]), be16(16)
		copy(x.Data[:], b[18:])
	case *packet.ArtCommandPacket:
		x.Length = be16(14)
		copy(x.Data[:], b[16:])
	case *packet.ArtDMXPacket:
		x.Sequence, x.Physical, x.SubUni, x.Net, x.Length = b[12], b[13], b[14], b[15], be16(16)
		copy(x.Data[:], b[18:])
	case *packet.ArtNzsPacket:
		x.Sequence, x.StartCode, x.SubUni, x.Net, x.Length = b[12], b[13], b[14], b[15], be16(16)
		copy(x.Data[:], b[18:])
	case *packet.ArtAddressPacket:
		x.NetSwitch, x.BindIndex = b[12], b[13]
		copy(x.ShortName[:], b[14:])
		copy(x.LongName[:], b[32:])
		copy(x.SwIn[:], b[96:])
		copy(x.SwOut[:], b[100:])
		x.SubSwitch, x.SwVideo, x.Command = b[104], b[105], b[106]
	case *packet.ArtTimeCodePacket:
		x.Frames, x.Seconds, x.Minutes, x.Hours, x.Type = b[14], b[15], b[16], b[17], b[18]
	case *packet.ArtTriggerPacket:
		x.Oem, x.Key, x.SubKey = be16(14), b[16], b[17]
		copy(x.Data[:], b[18:])
	case *packet.ArtIPProgPacket:
		x.Command = b[14]
		copy(x.ProgIP[:], b[16:])
		copy(x.ProgSubNet[:], b[20:])
		copy(x.ProgPort[:], b[24:])
	case *packet.ArtIPProgReplyPacket:
		copy(x.ProgIP[:], b[16:])
		copy(x.ProgSubNet[:], b[20:])
		copy(x.ProgPort[:], b[24:])
		x.Status = b[26]
	}
}

func nums[T ~uint8](a [4]T) (r [4]uint8) {
	for i, x := range a {
		r[i] = uint8(x)
	}
	return
}

func be(b []byte, i int) int { return int(b[i])<<8 | int(b[i+1]) }

func canonRaw(b []byte) string {
	a4 := func(i int) (r [4]byte) { copy(r[:], b[i:]); return }
	switch wire.Opcode(b) {
	case wire.OpPoll:
		return fmt.Sprintf("poll %d %d", b[12], b[13])
	case wire.OpPollReply:
		var mac [6]byte
		copy(mac[:], b[201:207])
		return fmt.Sprintf("reply %v %d %d %d %d %d %d %v %x %x %x %d %v %v %v %v %v %d %v %v %d %d", a4(10), be(b, 16), b[18], b[19],
			be(b, 20), b[22], b[23], [2]byte{b[24], b[25]}, b[26:44], b[44:108], b[108:172], be(b, 172),
			a4(174), a4(178), a4(182), a4(186), a4(190), b[200], mac, a4(207), b[211], b[212]) + fmt.Sprint(" ", b[194], b[195], b[196])
	case wire.OpDiagData:
		return fmt.Sprintf("diag %d %d %x", b[13], be(b, 16), b[18:530])
	case wire.OpCommand:
		return fmt.Sprintf("cmd %d %x", be(b, 14), b[16:528])
	case wire.OpDmx:
		d := wire.DecodeDmx(b)
		return fmt.Sprintf("dmx %d %d %d %d %d %x", d.Seq, d.Phys, d.Addr.SubUni, d.Addr.Net, d.Len, d.Data)
	case wire.OpNzs:
		return fmt.Sprintf("nzs %d %d %d %d %d %x", b[12], b[13], b[14], b[15], be(b, 16), b[18:530])
	case wire.OpSync:
		return "sync"
	case wire.OpAddress:
		return fmt.Sprintf("addr %d %d %x %x %v %v %d %d %d", b[12], b[13], b[14:32], b[32:96], a4(96), a4(100), b[104], b[105], b[106])
	case wire.OpTimeCode:
		return fmt.Sprintf("tc %d %d %d %d %d", b[14], b[15], b[16], b[17], b[18])
	case wire.OpTrigger:
		return fmt.Sprintf("trig %d %d %d %x", be(b, 14), b[16], b[17], b[18:530])
	case wire.OpIPProg:
		return fmt.Sprintf("ipprog %d %v %v %v", b[14], a4(16), a4(20), [2]byte{b[24], b[25]})
	case wire.OpIPProgReply:
		return fmt.Sprintf("ipprogreply %v %v %v %d", a4(16), a4(20), [2]byte{b[24], b[25]}, b[26])
	}
	return "?"
}
