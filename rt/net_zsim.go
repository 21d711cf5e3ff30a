// Simulated datagram sockets, compiled INTO package net through
// `go build -overlay`.  With SimListen set, socket() hands every datagram
// socket to the simulator; the whole of UDPConn above netFD stays real code.

package net

import (
	"internal/race"
	"os"
	"runtime"
	"syscall"
	"time"
	"unsafe"
)

// SimSocket is what the simulator implements.
type SimSocket interface {
	SimRead(p []byte) (n int, ip [4]byte, port int, err error)
	SimWrite(p []byte, ip [4]byte, port int) (int, error)
	SimClose() error
	SimSetDeadline(read, write bool, t time.Time) error
}

// SimListen creates a simulated datagram socket, or refuses with an errno.
var SimListen func(laddr, raddr *UDPAddr) (SimSocket, *UDPAddr, error)

func simSocketFD(network string, family, sotype int, laddr, raddr sockaddr) (*netFD, error) {
	var la, ra *UDPAddr
	if a, ok := laddr.(*UDPAddr); ok && a != nil {
		la = a
	}
	if a, ok := raddr.(*UDPAddr); ok && a != nil {
		ra = a
	}
	runtime.SimHarness(true)
	s, bound, err := SimListen(la, ra)
	runtime.SimHarness(false)
	if err != nil {
		if e, ok := err.(syscall.Errno); ok {
			err = os.NewSyscallError("bind", e)
		}
		return nil, err
	}
	fd := newFD(-1, family, sotype, network)
	fd.sim = s
	fd.laddr = bound
	if ra != nil {
		fd.raddr = ra
		fd.isConnected = true
	}
	return fd, nil
}

func simErr(call string, err error) error {
	if e, ok := err.(syscall.Errno); ok {
		return os.NewSyscallError(call, e)
	}
	return err
}

func sim4in6(ip [4]byte) (r [16]byte) {
	r[10], r[11] = 0xff, 0xff
	copy(r[12:], ip[:])
	return
}

func sim6to4(ip [16]byte) (r [4]byte) {
	copy(r[:], ip[12:])
	return
}

// The simulator's own code is hidden from the race detector; the accesses a
// system call would make to the caller's buffer are not.
func (fd *netFD) simReadFrom(p []byte) (n int, ip [4]byte, port int, err error) {
	runtime.SimHarness(true)
	n, ip, port, err = fd.sim.SimRead(p)
	runtime.SimHarness(false)
	if race.Enabled && n > 0 {
		race.WriteRange(unsafe.Pointer(&p[0]), n)
	}
	return
}

func (fd *netFD) simWriteTo(p []byte, ip [4]byte, port int) (n int, err error) {
	if race.Enabled && len(p) > 0 {
		race.ReadRange(unsafe.Pointer(&p[0]), len(p))
	}
	runtime.SimHarness(true)
	n, err = fd.sim.SimWrite(p, ip, port)
	runtime.SimHarness(false)
	return
}

func (fd *netFD) simClose() error {
	runtime.SimHarness(true)
	err := fd.sim.SimClose()
	runtime.SimHarness(false)
	return err
}

func (fd *netFD) simDeadline(read, write bool, t time.Time) error {
	runtime.SimHarness(true)
	err := fd.sim.SimSetDeadline(read, write, t)
	runtime.SimHarness(false)
	return err
}

func (fd *netFD) simRead(p []byte) (int, error) {
	n, _, _, err := fd.simReadFrom(p)
	return n, simErr("read", err)
}

func (fd *netFD) simWrite(p []byte) (int, error) {
	ra, ok := fd.raddr.(*UDPAddr)
	if !ok || ra == nil {
		return 0, os.NewSyscallError("write", syscall.EDESTADDRREQ)
	}
	var ip [4]byte
	copy(ip[:], ra.IP.To4())
	n, err := fd.simWriteTo(p, ip, ra.Port)
	return n, simErr("write", err)
}

func (fd *netFD) simRead4(p []byte, sa *syscall.SockaddrInet4) (int, error) {
	n, ip, port, err := fd.simReadFrom(p)
	if err == nil {
		sa.Addr, sa.Port = ip, port
	}
	return n, simErr("recvfrom", err)
}

func (fd *netFD) simRead6(p []byte, sa *syscall.SockaddrInet6) (int, error) {
	n, ip, port, err := fd.simReadFrom(p)
	if err == nil {
		sa.Addr, sa.Port = sim4in6(ip), port
	}
	return n, simErr("recvfrom", err)
}

func (fd *netFD) simReadSA(p []byte) (int, syscall.Sockaddr, error) {
	n, ip, port, err := fd.simReadFrom(p)
	if err != nil {
		return n, nil, simErr("recvfrom", err)
	}
	return n, &syscall.SockaddrInet4{Addr: ip, Port: port}, nil
}

func (fd *netFD) simWrite4(p []byte, sa *syscall.SockaddrInet4) (int, error) {
	n, err := fd.simWriteTo(p, sa.Addr, sa.Port)
	return n, simErr("sendto", err)
}

func (fd *netFD) simWrite6(p []byte, sa *syscall.SockaddrInet6) (int, error) {
	n, err := fd.simWriteTo(p, sim6to4(sa.Addr), sa.Port)
	return n, simErr("sendto", err)
}

func (fd *netFD) simWriteSA(p []byte, sa syscall.Sockaddr) (int, error) {
	switch a := sa.(type) {
	case *syscall.SockaddrInet4:
		return fd.simWrite4(p, a)
	case *syscall.SockaddrInet6:
		return fd.simWrite6(p, a)
	}
	return 0, os.NewSyscallError("sendto", syscall.EINVAL)
}
