// Package wire is an encoder and decoder for the Art-Net packets the checks
// need, written from the Art-Net 4 packet tables, independently of the
// repository under test.
package wire

const (
	OpPoll        = 0x2000
	OpPollReply   = 0x2100
	OpDiagData    = 0x2300
	OpCommand     = 0x2400
	OpDmx         = 0x5000
	OpNzs         = 0x5100
	OpSync        = 0x5200
	OpAddress     = 0x6000
	OpTimeCode    = 0x9700
	OpTrigger     = 0x9900
	OpIPProg      = 0xf800
	OpIPProgReply = 0xf900

	Port = 6454

	StNode       = 0
	StController = 1
	MaxStyle     = 6
)

// Addr is a 15 bit port address.
type Addr struct {
	Net    uint8
	SubUni uint8
}

func (a Addr) Int() int { return int(a.Net)<<8 | int(a.SubUni) }

// Reply is an ArtPollReply.
type Reply struct {
	IP        [4]byte
	Version   uint16
	Net, Sub  uint8
	Oem       uint16
	Ubea      uint8
	Status1   uint8
	Esta      [2]byte
	Short     string
	Long      string
	Report    string
	NumPorts  uint16
	PortTypes [4]uint8
	GoodIn    [4]uint8
	GoodOut   [4]uint8
	SwIn      [4]uint8
	SwOut     [4]uint8
	Style     uint8
	Mac       [6]byte
	BindIP    [4]byte
	BindIndex uint8
	Status2   uint8
	PortBE    bool // port high byte first, as some software does
}

func hdr(op uint16, n int) []byte {
	b := make([]byte, n)
	copy(b, "Art-Net\x00")
	b[8], b[9] = byte(op), byte(op>>8)
	if op != OpPollReply {
		b[10], b[11] = 0, 14
	}
	return b
}

// Header builds a packet of n bytes with a valid header.
func Header(op uint16, n int) []byte { return hdr(op, n) }

// Poll encodes an ArtPoll.
func Poll(talk, prio uint8) []byte {
	b := hdr(OpPoll, 14)
	b[12], b[13] = talk, prio
	return b
}

// Encode builds the 239 byte ArtPollReply.
func (r *Reply) Encode() []byte {
	b := hdr(OpPollReply, 239)
	copy(b[10:14], r.IP[:])
	b[14], b[15] = 0x36, 0x19
	if r.PortBE {
		b[14], b[15] = 0x19, 0x36
	}
	b[16], b[17] = byte(r.Version>>8), byte(r.Version)
	b[18], b[19] = r.Net, r.Sub
	b[20], b[21] = byte(r.Oem>>8), byte(r.Oem)
	b[22], b[23] = r.Ubea, r.Status1
	copy(b[24:26], r.Esta[:])
	copy(b[26:44], r.Short)
	copy(b[44:108], r.Long)
	copy(b[108:172], r.Report)
	b[172], b[173] = byte(r.NumPorts>>8), byte(r.NumPorts)
	copy(b[174:178], r.PortTypes[:])
	copy(b[178:182], r.GoodIn[:])
	copy(b[182:186], r.GoodOut[:])
	copy(b[186:190], r.SwIn[:])
	copy(b[190:194], r.SwOut[:])
	b[200] = r.Style
	copy(b[201:207], r.Mac[:])
	copy(b[207:211], r.BindIP[:])
	b[211], b[212] = r.BindIndex, r.Status2
	return b
}

// Kind is the verdict of Classify.
type Kind int

const (
	Invalid   Kind = iota // must have no effect
	Valid                 // must be handled
	Ambiguous             // no claim either way
)

// Opcode returns the opcode field, or 0 when there is none.
func Opcode(b []byte) uint16 {
	if len(b) < 10 {
		return 0
	}
	return uint16(b[8]) | uint16(b[9])<<8
}

// sizes of the fixed-layout packets.
var sizes = map[uint16]int{
	OpPoll: 14, OpPollReply: 239, OpDiagData: 530, OpCommand: 528, OpDmx: 18, OpNzs: 530, OpSync: 14,
	OpAddress: 107, OpTimeCode: 19, OpTrigger: 530, OpIPProg: 34, OpIPProgReply: 34,
}

// Size returns the size of the fixed-layout packet with this opcode.
func Size(op uint16) int { return sizes[op] }

// Ops lists the opcodes that are decoded into packets.
var Ops = []uint16{OpPoll, OpPollReply, OpDiagData, OpCommand, OpDmx, OpNzs, OpSync, OpAddress, OpTimeCode, OpTrigger, OpIPProg, OpIPProgReply}

// Classify says whether a datagram is a well-formed Art-Net packet.
func Classify(b []byte) (uint16, Kind) {
	if len(b) < 12 || string(b[:8]) != "Art-Net\x00" {
		return 0, Invalid
	}
	op := Opcode(b)
	n, ok := sizes[op]
	if !ok {
		return op, Invalid
	}
	if len(b) < n {
		return op, Invalid
	}
	if op != OpPollReply && b[10] == 0 && b[11] < 14 {
		return op, Invalid // older protocol than this library accepts
	}
	switch op {
	case OpDmx:
		l := int(b[16])<<8 | int(b[17])
		if l < 2 || l > 512 || l%2 != 0 || len(b) < 18+l {
			return op, Invalid
		}
	case OpPollReply:
		le := b[14] == 0x36 && b[15] == 0x19
		be := b[14] == 0x19 && b[15] == 0x36
		if !le && !be || b[200] > MaxStyle {
			return op, Invalid
		}
	case OpCommand:
		if b[12] != 0xff || b[13] != 0xff {
			return op, Invalid
		}
	}
	if op != OpPollReply && b[10] != 0 {
		return op, Ambiguous // a protocol version above 255
	}
	return op, Valid
}

func cstr(b []byte) string {
	for i, c := range b {
		if c == 0 {
			return string(b[:i])
		}
	}
	return string(b)
}

// DecodeReply decodes a datagram that Classify called a valid ArtPollReply.
func DecodeReply(b []byte) *Reply {
	r := &Reply{}
	copy(r.IP[:], b[10:14])
	r.PortBE = b[14] == 0x19
	r.Version = uint16(b[16])<<8 | uint16(b[17])
	r.Net, r.Sub = b[18], b[19]
	r.Oem = uint16(b[20])<<8 | uint16(b[21])
	r.Ubea, r.Status1 = b[22], b[23]
	copy(r.Esta[:], b[24:26])
	r.Short, r.Long, r.Report = cstr(b[26:44]), cstr(b[44:108]), string(b[108:172])
	r.NumPorts = uint16(b[172])<<8 | uint16(b[173])
	copy(r.PortTypes[:], b[174:178])
	copy(r.GoodIn[:], b[178:182])
	copy(r.GoodOut[:], b[182:186])
	copy(r.SwIn[:], b[186:190])
	copy(r.SwOut[:], b[190:194])
	r.Style = b[200]
	copy(r.Mac[:], b[201:207])
	copy(r.BindIP[:], b[207:211])
	r.BindIndex, r.Status2 = b[211], b[212]
	return r
}

// Outputs and Inputs are the port addresses a reply announces.
func (r *Reply) Outputs() []Addr { return r.ports(0x80, r.SwOut) }
func (r *Reply) Inputs() []Addr  { return r.ports(0x40, r.SwIn) }

func (r *Reply) ports(bit uint8, sw [4]uint8) []Addr {
	var out []Addr
	for i := 0; i < int(r.NumPorts) && i < 4; i++ {
		if r.PortTypes[i]&bit != 0 {
			out = append(out, Addr{r.Net, r.Sub&0x0f<<4 | sw[i]&0x0f})
		}
	}
	return out
}

// Dmx is a decoded ArtDmx.
type Dmx struct {
	Seq, Phys uint8
	Addr      Addr
	Len       int
	Data      [512]byte
}

// EncodeDmx builds an ArtDmx with n channels.
func EncodeDmx(seq uint8, a Addr, data []byte) []byte {
	b := hdr(OpDmx, 18+len(data))
	b[12] = seq
	b[14], b[15] = a.SubUni, a.Net
	b[16], b[17] = byte(len(data)>>8), byte(len(data))
	copy(b[18:], data)
	return b
}

// DecodeDmx decodes a datagram that Classify called a valid ArtDmx.
func DecodeDmx(b []byte) *Dmx {
	d := &Dmx{Seq: b[12], Phys: b[13], Addr: Addr{b[15], b[14]}, Len: int(b[16])<<8 | int(b[17])}
	copy(d.Data[:d.Len], b[18:18+d.Len])
	return d
}
