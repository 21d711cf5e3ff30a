package main

import (
	"net"
	"os"
	"runtime"
	"syscall"
	"time"
	"unsafe"

	"verif/internal/plan"
	"verif/internal/wire"
)

const epoch = int64(1700000000000000000)

func now() int64 { return runtime.SimNow() - epoch }

// ---- recorded history ----

type evKind uint8

const (
	evTX    evKind = iota // datagram handed to the network by real code
	evRX                  // datagram handed to real code
	evInv                 // API call
	evRet                 // API return
	evCB                  // user callback entered
	evCBEnd               // user callback left
	evOpen                // socket bound
	evClose               // socket closed
	evCrash
	evRxErr // error handed to a reader
	evSnap
	evPeerRX // datagram received by a scripted device
)

type ev struct {
	T    int64
	QC   uint64
	K    evKind
	H    int // host
	Run  int // run id (socket), -1 none
	Src  [4]byte
	Dst  [4]byte
	Port int
	Data []byte
	Err  bool
	Op   *opRec
	Cb   *cbRec
	Snap *snap
}

type opRec struct {
	ID       int
	H        int
	K        string
	Addr     wire.Addr
	V        uint64
	Code     uint16
	Cb       int
	Inv, Ret int // history index, -1
	InvT     int64
	RetT     int64
	Err      string
	Label    int32
	InCB     bool
	Bad      bool   // start: the configuration is invalid
	Want     []byte // tx: what has to go out
}

type cbRec struct {
	H     int
	Cb    int
	Op    uint16
	Canon string
	Late  func() string
	Dmx   *wire.Dmx
	Label int32
	Run   int
	Obj   int
}

type optErr struct {
	t int64
	s string
}

func (w *world) optErr(s string) { w.optErrs = append(w.optErrs, optErr{now(), s}) }

type world struct {
	instAt  int64 // records made at this instant
	instN   int
	optErrs []optErr
	p       *plan.Plan
	q       evq
	qseq    uint64
	hosts   []*host
	links   map[[2]int]uint64
	win     []*window
	hist    []ev
	ids     map[identKey][]ident
	ops     []*opRec
	runs    []*runInfo
	faults  map[string]int64
	probes  map[string]int64
	nlabel  int32
	snapReq bool
	ended   bool
	expect  []*plan.Event
}

type window struct {
	k        string
	from, to int64
	ev       *plan.Event
	n        int64
}

type host struct {
	i     int
	cfg   *plan.Host
	ip    [4]byte
	socks []*sock
	sut   *sut
	peer  *peer
	bindF []syscall.Errno
	rxcap int
}

type dgram struct {
	src  [4]byte
	port int
	b    []byte
}

func (w *world) rec(e ev) int {
	e.T = now()
	e.QC = runtime.SimQuietCount()
	if e.T != w.instAt {
		w.instAt, w.instN = e.T, 0
	}
	if w.instN++; w.instN == 300000 {
		runtime.SimRunaway()
	}
	w.hist = append(w.hist, e)
	return len(w.hist) - 1
}

func (w *world) fault(k string) { w.faults[k]++ }
func (w *world) probe(k string) { w.probes[k]++ }

// ---- event queue ----

type qev struct {
	at  int64
	seq uint64
	f   func()
}

type evq []qev

func (q evq) less(i, j int) bool {
	return q[i].at < q[j].at || q[i].at == q[j].at && q[i].seq < q[j].seq
}

func (w *world) at(t int64, f func()) {
	w.qseq++
	q := append(w.q, qev{t, w.qseq, f})
	i := len(q) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !q.less(i, p) {
			break
		}
		q[i], q[p] = q[p], q[i]
		i = p
	}
	w.q = q
	runtime.SimPullWake(t + epoch)
}

func (w *world) pop() qev {
	q := w.q
	e := q[0]
	n := len(q) - 1
	q[0] = q[n]
	q[n] = qev{}
	q = q[:n]
	i := 0
	for {
		c := 2*i + 1
		if c >= n {
			break
		}
		if c+1 < n && q.less(c+1, c) {
			c++
		}
		if !q.less(c, i) {
			break
		}
		q[i], q[c] = q[c], q[i]
		i = c
	}
	w.q = q
	return e
}

// ---- fault windows ----

func (w *world) active(k string, t int64) []*window {
	var r []*window
	for _, x := range w.win {
		if x.k == k && x.from <= t && t < x.to {
			r = append(r, x)
		}
	}
	return r
}

func match(x int64, h int) bool { return x < 0 || int(x) == h }

// ---- sockets ----

type runInfo struct {
	ID       int
	H        int
	Label    int32
	Obj      int // object number on this host
	Open     int // history index
	OpenT    int64
	Close    int // -1 while open
	CloseT   int64
	Crash    bool
	StopInv  int // history index of the first Stop call that ends it, -1
	StopInvT int64
	StopRet  int
	IP       [4]byte
	Port     int
	Want     *wire.Reply // what has to be announced
	FPS      int         // 0: the default
	Bcast    string      // "": the default
	Restart  bool        // a previous run of the same object exists
}

type sock struct {
	w       *world
	h       *host
	label   int32
	run     *runInfo
	ip      [4]byte
	port    int
	rx      []dgram
	readers []unsafe.Pointer
	writers []unsafe.Pointer
	errs    []syscall.Errno
	closed  bool
	rdl     int64
	wdl     int64
}

func (w *world) listen(l, r *net.UDPAddr) (net.SimSocket, *net.UDPAddr, error) {
	h := w.byLabel(runtime.SimHost())
	if h == nil {
		return nil, nil, syscall.EPERM
	}
	if len(h.bindF) > 0 {
		e := h.bindF[0]
		h.bindF = h.bindF[1:]
		w.fault("bind_error")
		return nil, nil, e
	}
	s := &sock{w: w, h: h, label: runtime.SimHost(), rdl: -1, wdl: -1}
	if l != nil {
		if ip := l.IP.To4(); ip != nil {
			copy(s.ip[:], ip)
		}
		s.port = l.Port
	}
	if s.ip != [4]byte{} && s.ip != h.ip && !isBcast(s.ip) {
		return nil, nil, syscall.EADDRNOTAVAIL
	}
	if s.port == 0 {
		s.port = 40000 + len(w.runs)
	}
	for _, o := range h.socks {
		if o.port == s.port && (o.ip == s.ip || o.ip == [4]byte{} || s.ip == [4]byte{}) {
			return nil, nil, syscall.EADDRINUSE
		}
	}
	h.socks = append(h.socks, s)
	ri := &runInfo{ID: len(w.runs), H: h.i, Label: s.label, IP: s.ip, Port: s.port, Close: -1, StopInv: -1, StopRet: -1}
	if h.sut != nil {
		ri.Obj = h.sut.obj
		ri.Want = h.sut.wireCfg
		ri.FPS, ri.Bcast = h.sut.fps, h.sut.bcast
		for _, o := range w.runs {
			if o.H == h.i && o.Obj == ri.Obj {
				ri.Restart = true
			}
		}
	}
	s.run = ri
	w.runs = append(w.runs, ri)
	ri.Open = w.rec(ev{K: evOpen, H: h.i, Run: ri.ID, Port: s.port})
	ri.OpenT = now()
	a := &net.UDPAddr{IP: append(net.IP(nil), s.ip[:]...), Port: s.port}
	return s, a, nil
}

func (s *sock) wakeReader() {
	if len(s.readers) > 0 {
		g := s.readers[0]
		s.readers = s.readers[1:]
		runtime.SimReady(g)
	}
}

func (s *sock) SimRead(p []byte) (int, [4]byte, int, error) {
	for {
		if s.closed {
			return 0, [4]byte{}, 0, net.ErrClosed
		}
		if len(s.errs) > 0 {
			e := s.errs[0]
			s.errs = s.errs[1:]
			s.w.fault("recv_error")
			s.w.rec(ev{K: evRxErr, H: s.h.i, Run: s.run.ID})
			return 0, [4]byte{}, 0, e
		}
		if s.rdl >= 0 && now() >= s.rdl {
			return 0, [4]byte{}, 0, os.ErrDeadlineExceeded
		}
		if len(s.rx) > 0 {
			d := s.rx[0]
			s.rx = s.rx[1:]
			n := copy(p, d.b)
			s.w.entry(s.h, s.w.rec(ev{K: evRX, H: s.h.i, Run: s.run.ID, Src: d.src, Port: d.port, Data: d.b[:n]}))
			return n, d.src, d.port, nil
		}
		s.readers = append(s.readers, runtime.SimSelf())
		runtime.SimPark()
	}
}

func (s *sock) SimWrite(p []byte, ip [4]byte, port int) (int, error) {
	for {
		if s.closed {
			return 0, net.ErrClosed
		}
		stuck := false
		for _, x := range s.w.active("stuck", now()) {
			if match(int64(x.ev.H), s.h.i) {
				stuck = true
			}
		}
		if !stuck {
			break
		}
		if s.wdl >= 0 && now() >= s.wdl {
			return 0, os.ErrDeadlineExceeded
		}
		s.w.fault("send_blocked")
		s.writers = append(s.writers, runtime.SimSelf())
		runtime.SimBlocked(1)
		runtime.SimPark()
	}
	if runtime.SimOverrun() {
		runtime.SimPark()
	}
	b := append([]byte(nil), p...)
	var app *opRec // the application itself is sending
	if u := s.h.sut; u != nil && u.appG == runtime.SimSelf() {
		app = u.appOp
	}
	for _, x := range s.w.active("txerr", now()) {
		if match(int64(x.ev.H), s.h.i) && (x.ev.B < 0 || s.w.hosts[x.ev.B].ip == ip || x.ev.C == 1 && isBcast(ip)) {
			s.w.fault("send_error")
			s.w.rec(ev{K: evTX, H: s.h.i, Run: s.run.ID, Src: s.h.ip, Dst: ip, Port: port, Data: b, Err: true, Op: app})
			return 0, syscall.Errno(x.ev.A)
		}
	}
	s.w.rec(ev{K: evTX, H: s.h.i, Run: s.run.ID, Src: s.h.ip, Dst: ip, Port: port, Data: b, Op: app})
	s.w.route(s.h.i, s.h.ip, s.port, ip, port, b)
	return len(p), nil
}

func (s *sock) wakeWriters() {
	ws := s.writers
	s.writers = nil
	for _, g := range ws {
		runtime.SimBlocked(-1)
		runtime.SimReady(g)
	}
}

func (s *sock) SimClose() error {
	if s.closed {
		return net.ErrClosed
	}
	s.shut()
	for _, g := range s.readers {
		runtime.SimReady(g)
	}
	s.readers = nil
	s.wakeWriters()
	return nil
}

// shut unbinds the socket.
func (s *sock) shut() {
	s.closed = true
	for i, o := range s.h.socks {
		if o == s {
			s.h.socks = append(s.h.socks[:i:i], s.h.socks[i+1:]...)
			break
		}
	}
	s.run.Close = s.w.rec(ev{K: evClose, H: s.h.i, Run: s.run.ID})
	s.run.CloseT = now()
}

func (s *sock) SimSetDeadline(read, write bool, t time.Time) error {
	if s.closed {
		return net.ErrClosed
	}
	at := int64(-1)
	if !t.IsZero() {
		at = now() + int64(time.Until(t))
		if at < 0 {
			at = 0
		}
	}
	if read {
		s.rdl = at
	}
	if write {
		s.wdl = at
	}
	if at >= 0 {
		w := s.w
		w.at(max(at, now()), func() {
			if read {
				for _, g := range s.readers {
					runtime.SimReady(g)
				}
				s.readers = nil
			}
			if write {
				s.wakeWriters()
			}
		})
	}
	return nil
}

// ---- the network ----

func isBcast(ip [4]byte) bool {
	return ip == [4]byte{255, 255, 255, 255} || ip[1] == 255 && ip[2] == 255 && ip[3] == 255
}

func (w *world) byLabel(l int32) *host {
	for _, h := range w.hosts {
		if h.sut != nil && h.sut.label == l {
			return h
		}
	}
	return nil
}

// route decides the fate of one datagram on every link it takes.
func (w *world) route(from int, src [4]byte, sport int, dst [4]byte, port int, b []byte) {
	for _, h := range w.hosts {
		if isBcast(dst) {
			if h.i == from && (w.p.NoLoop || w.hosts[from].peer != nil) {
				continue
			}
		} else if h.ip != dst {
			continue
		}
		w.link(from, h, src, sport, dst, port, b)
	}
}

func (w *world) link(from int, h *host, src [4]byte, sport int, dst [4]byte, port int, b []byte) {
	t := now()
	k := [2]int{from, h.i}
	n := w.links[k]
	w.links[k] = n + 1
	hash := func(tag uint64) uint64 { return plan.Hash(w.p.NetSeed, uint64(from), uint64(h.i), n, tag) }
	lat := func(tag uint64) int64 {
		return (w.p.LatMin + int64(hash(tag)%uint64(w.p.LatMax-w.p.LatMin+1))) * 1000
	}
	copies := 1
	extra := int64(0)
	if from == h.i {
		// loopback inside the machine
		w.at(t, func() { w.deliver(h, src, sport, dst, port, b) })
		w.probe("own_datagram_looped_back")
		return
	}
	for _, x := range w.win {
		if t < x.from || t >= x.to {
			continue
		}
		switch x.k {
		case "part":
			a, c := false, false
			for _, i := range x.ev.Hs {
				a = a || i == from
				c = c || i == h.i
			}
			if a != c {
				w.fault("partition_drop")
				return
			}
		case "loss", "dup", "delay", "corrupt", "trunc":
			if !match(x.ev.A, from) || !match(x.ev.B, h.i) {
				continue
			}
			if int64(hash(plan.HashStr(x.k)^uint64(x.from))%1000) >= x.ev.P {
				continue
			}
			switch x.k {
			case "loss":
				w.fault("loss")
				return
			case "dup":
				w.fault("dup")
				copies++
			case "delay":
				w.fault("delay")
				extra += int64(hash(77)%uint64(x.ev.C+1)) * 1000
			case "corrupt":
				w.fault("corrupt")
				b = append([]byte(nil), b...)
				for j := uint64(0); j <= hash(5)%3; j++ {
					if len(b) > 0 {
						lim := len(b)
						if hash(90+j)%2 == 0 && lim > 24 {
							lim = 24
						}
						b[hash(10+j)%uint64(lim)] ^= byte(1 << (hash(20+j) % 8))
					}
				}
			case "trunc":
				w.fault("trunc")
				b = b[:hash(6)%uint64(len(b)+1)]
			}
		}
	}
	for c := 0; c < copies; c++ {
		bb := b
		w.at(t+lat(uint64(100+c))+extra, func() { w.deliver(h, src, sport, dst, port, bb) })
	}
}

func (w *world) deliver(h *host, src [4]byte, sport int, dst [4]byte, port int, b []byte) {
	if h.peer != nil {
		h.peer.recv(src, sport, b)
		return
	}
	for _, s := range h.socks {
		if s.port != port {
			continue
		}
		if s.ip != [4]byte{} && s.ip != dst {
			continue
		}
		lim := 256
		for _, x := range w.active("rxcap", now()) {
			if match(int64(x.ev.H), h.i) {
				lim = int(x.ev.A)
			}
		}
		if len(s.rx) >= lim {
			w.fault("rx_overflow")
			continue
		}
		s.rx = append(s.rx, dgram{src, sport, b})
		s.wakeReader()
	}
}

// forget drops what the harness remembers about this machine.
func (h *host) forget() {
	for _, k := range h.socks {
		if len(k.rx) == 0 {
			k.rx = nil
		}
		if len(k.errs) == 0 {
			k.errs = nil
		}
		k.readers, k.writers = append(k.readers[:0:0], k.readers...), append(k.writers[:0:0], k.writers...)
	}
	if s := h.sut; s != nil {
		if len(s.q) == 0 {
			s.q = nil
		}
		s.objs, s.appOp = nil, nil
	}
}

// ident is the object that stood for a device in a controller's list.
type ident struct {
	i   int // history index
	qc  uint64
	ptr uintptr // 0: not listed
}

type identKey struct {
	h  int
	ip [4]byte
}

// entry notes how the sender of an announcement is listed before it is handled.
func (w *world) entry(h *host, i int) {
	e := &w.hist[i]
	if h.sut == nil || h.sut.ctrl == nil || wire.Opcode(e.Data) != wire.OpPollReply || len(e.Data) < 14 {
		return
	}
	k := identKey{h: h.i, ip: [4]byte(e.Data[10:14])}
	w.ids[k] = append(w.ids[k], ident{i, e.QC, h.sut.listed(k.ip)})
}

func (s *sut) listed(ip [4]byte) uintptr {
	for _, x := range s.ctrl.Nodes {
		if x != nil && x.Node.IP.Equal(net.IP(ip[:])) {
			return uintptr(unsafe.Pointer(x))
		}
	}
	return 0
}
