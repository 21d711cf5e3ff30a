// Package plan describes one simulated run: hosts, operations, faults and the
// scheduling policy.  A plan is generated from (family, seed) and is also the
// body of a replay file.
package plan

// Times are microseconds since the start of the run.

// Ports is what a device announces.
type Ports struct {
	Net   uint8   `json:"net,omitempty"`
	Sub   uint8   `json:"sub,omitempty"`
	Out   []uint8 `json:"out,omitempty"` // low nibbles
	In    []uint8 `json:"in,omitempty"`
	Style uint8   `json:"style,omitempty"`
	Num   int     `json:"num,omitempty"`    // announced NumPorts when not the natural one (+1)
	Name  string  `json:"name,omitempty"`   // short name
	BE    bool    `json:"portbe,omitempty"` // port high byte first
	Bind  uint8   `json:"bind,omitempty"`
	X     uint64  `json:"x,omitempty"` // peers: seeds the remaining fields instead of the host's extra
}

// Host is one machine on the simulated network.
type Host struct {
	Kind   string `json:"kind"` // ctrl, node: real code; peer: scripted device
	IP     string `json:"ip"`
	Name   string `json:"name,omitempty"`
	Desc   string `json:"desc,omitempty"`
	FPS    int    `json:"fps,omitempty"`
	Bcast  string `json:"bcast,omitempty"`  // option, ip:port
	Listen string `json:"listen,omitempty"` // option: "ip" or "ip:port"
	Style  uint8  `json:"style,omitempty"`
	Ports  Ports  `json:"ports"`
	Extra  uint64 `json:"extra,omitempty"` // seeds the remaining config fields
	Log    int    `json:"log,omitempty"`   // 0 quiet, 1 debug to a sink
	Reply  int    `json:"reply,omitempty"` // peers: 0 unicast to the poller, 1 broadcast, 2 silent
	RMin   int64  `json:"rmin,omitempty"`
	RMax   int64  `json:"rmax,omitempty"`
	Off    bool   `json:"off,omitempty"` // peers: powered off at the start
	Stray  bool   `json:"stray,omitempty"`
}

// Event is one operation or fault.
type Event struct {
	At   int64  `json:"at"`
	K    string `json:"k"`
	H    int    `json:"h"`
	A    int64  `json:"a,omitempty"`
	B    int64  `json:"b,omitempty"`
	C    int64  `json:"c,omitempty"`
	D    int64  `json:"d,omitempty"` // duration
	P    int64  `json:"p,omitempty"` // per mille
	V    uint64 `json:"v,omitempty"`
	Hs   []int  `json:"hs,omitempty"`
	S    string `json:"s,omitempty"`
	Data []byte `json:"data,omitempty"`
	Cfg  *Ports `json:"cfg,omitempty"`
}

// Sched is the scheduling policy.
type Sched struct {
	Seed       uint64 `json:"seed"`
	Aux        uint64 `json:"aux"`
	Policy     int32  `json:"policy"`
	YieldDen   uint32 `json:"yield_den"`
	StallDen   uint32 `json:"stall_den,omitempty"`
	StallMax   int64  `json:"stall_max_us,omitempty"`
	StallTotal int64  `json:"stall_total_us,omitempty"`
	StallFrom  int64  `json:"stall_from,omitempty"`
	StallTo    int64  `json:"stall_to,omitempty"`
	PrioDen    uint32 `json:"prio_den,omitempty"`
}

// Plan is one run.
type Plan struct {
	Family    string   `json:"family"`
	Seed      uint64   `json:"seed"`
	End       int64    `json:"end"`
	Sched     Sched    `json:"sched"`
	NetSeed   uint64   `json:"net_seed"`
	LatMin    int64    `json:"lat_min"`
	LatMax    int64    `json:"lat_max"`
	NoLoop    bool     `json:"no_loopback,omitempty"` // do not loop own broadcasts back
	Snap      int64    `json:"snap"`                  // snapshot period
	SnapOff   int64    `json:"snapoff,omitempty"`     // time of the first less one period
	Heap      bool     `json:"heap,omitempty"`        // nothing is stopped at the end; the live heap is compared
	Quiet     int64    `json:"quiet,omitempty"`       // when the convergence check is due (0: none)
	Hosts     []Host   `json:"hosts"`
	Events    []Event  `json:"events"`
	MaxSteps  uint64   `json:"max_steps"`
	InstSteps uint64   `json:"inst_steps"`
	Replay    bool     `json:"replay,omitempty"`
	Pos       []uint64 `json:"pos,omitempty"`
	Val       []uint64 `json:"val,omitempty"`
	Full      bool     `json:"full_log,omitempty"`
}

// Rng is splitmix64.
type Rng struct{ s uint64 }

// Mix hashes one word.
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Hash folds words.
func Hash(xs ...uint64) uint64 {
	h := uint64(0x1234567)
	for _, x := range xs {
		h = Mix(h ^ x)
	}
	return h
}

// HashStr hashes a string.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return Mix(h)
}

// NewRng seeds a generator.
func NewRng(seed uint64) *Rng { return &Rng{Mix(seed)} }

func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return Mix(r.s)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// R returns a value in [lo,hi].
func (r *Rng) R(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	return lo + int64(r.U()%uint64(hi-lo+1))
}

// P is true with probability k/n.
func (r *Rng) P(k, n int) bool { return r.N(n) < k }

// Pick chooses an element.
func Pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }

// Fill is the 512 byte payload of value id (id > 0): every id gives a
// different payload, some of them almost empty.
func Fill(id uint64) (d [512]byte) {
	if id == 0 {
		return
	}
	if w := int(id >> 40); w > 0 { // almost the payload of another id
		id &= 1<<40 - 1
		d = Fill(id)
		i := 8 + (w>>2)%495 // beside the identity
		if off := int(Mix(id) % 505); id%4 == 1 && i+1 >= off && i < off+8 {
			i = (off + 10) % 500
		}
		switch w % 4 {
		case 0: // one channel differs by one
			d[i] ^= 1
		case 1: // one channel differs much
			d[i] ^= 0xff
		default: // the same sum of channels
			d[i]++
			d[i+1]--
		}
		return
	}
	switch id % 4 {
	case 1: // sparse: only the identity, anywhere in the frame
		off := int(Mix(id) % 505)
		for i := 0; i < 8; i++ {
			d[off+i] = byte(id >> (8 * i))
		}
		d[off+7] |= 0x80
	case 2: // identity in the last bytes, rest full on
		for i := range d {
			d[i] = 0xff
		}
		for i := 0; i < 8; i++ {
			d[504+i] = byte(id >> (8 * i))
		}
	default:
		r := NewRng(id)
		for i := 0; i < 512; i += 8 {
			x := r.U()
			for j := 0; j < 8; j++ {
				d[i+j] = byte(x >> (8 * j))
			}
		}
		for i := 0; i < 8; i++ {
			d[i] = byte(id >> (8 * i))
		}
	}
	return
}
