package artnet_test

// A small set of fake Art-Net devices on the loopback network, for the
// demonstration beside this file.

import (
	"bytes"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/sirupsen/logrus"
)

func quiet() artnet.Logger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return artnet.NewLogger(logrus.NewEntry(l))
}

type frame struct {
	t      time.Time
	net    byte
	subuni byte
	seq    byte
	first  byte
	data   []byte
}

type dev struct {
	t      *testing.T
	ip     string
	c      *net.UDPConn
	mu     sync.Mutex
	frames []frame
	polls  []time.Time
	reply  [][]byte
	onPoll func()
}

func addr(ip string) *net.UDPAddr { return &net.UDPAddr{IP: net.ParseIP(ip).To4(), Port: 6454} }

// device listens on ip:6454 and records what it gets.
func device(t *testing.T, ip string) *dev {
	c, err := net.ListenUDP("udp4", addr(ip))
	if err != nil {
		t.Fatal(err)
	}
	d := &dev{t: t, ip: ip, c: c}
	t.Cleanup(func() { c.Close() })
	go func() {
		b := make([]byte, 4096)
		for {
			n, _, err := c.ReadFromUDP(b)
			if err != nil {
				return
			}
			if n < 12 || !bytes.Equal(b[:8], []byte("Art-Net\x00")) {
				continue
			}
			d.mu.Lock()
			f := d.onPoll
			switch op := int(b[8]) | int(b[9])<<8; op {
			case 0x2000:
				d.polls = append(d.polls, time.Now())
			case 0x2100:
				d.reply = append(d.reply, append([]byte(nil), b[:n]...))
				f = nil
			case 0x5000:
				d.frames = append(d.frames, frame{time.Now(), b[15], b[14], b[12], b[18], append([]byte(nil), b[18:n]...)})
				f = nil
			default:
				f = nil
			}
			d.mu.Unlock()
			if f != nil {
				f()
			}
		}
	}()
	return d
}

func (d *dev) got() []frame {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]frame(nil), d.frames...)
}

func (d *dev) replies() [][]byte {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([][]byte(nil), d.reply...)
}

func (d *dev) send(to string, b []byte) {
	if _, err := d.c.WriteToUDP(b, addr(to)); err != nil {
		d.t.Error(err)
	}
}

// pollReply is an announcement of a node at ip with up to four output ports
// (universes in the low nibble) under the given net and sub-net.
func pollReply(ip string, netw, sub byte, outs ...byte) []byte {
	b := make([]byte, 239)
	copy(b, "Art-Net\x00")
	b[9] = 0x21
	copy(b[10:], net.ParseIP(ip).To4())
	b[14], b[15] = 0x36, 0x19
	b[18], b[19] = netw, sub
	copy(b[26:43], "fake device")
	copy(b[44:107], "a fake device")
	b[173] = byte(len(outs))
	for i, o := range outs {
		b[174+i] = 0x80
		b[190+i] = o
	}
	return b
}

func header(op uint16, n int) []byte {
	b := make([]byte, n)
	copy(b, "Art-Net\x00")
	b[8], b[9], b[11] = byte(op), byte(op>>8), 14
	return b
}

// controller at ip, broadcasting to bcast.
func controller(t *testing.T, ip, bcast string, opts ...artnet.Option) *artnet.Controller {
	opts = append([]artnet.Option{artnet.ListenIP(net.ParseIP(ip)), artnet.BroadcastAddr(*addr(bcast))}, opts...)
	c := artnet.NewController("demo", net.ParseIP(ip).To4(), quiet(), opts...)
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(c.Stop)
	return c
}

func fill(v byte) (d [512]byte) {
	for i := range d {
		d[i] = v
	}
	return
}

// eventually waits up to limit for f.
func eventually(limit time.Duration, f func() bool) bool {
	for end := time.Now().Add(limit); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
