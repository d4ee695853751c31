// Package simnet replaces the parts of package net the code under test uses:
// a simulated UDP network.
package simnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vsim/rt"
)

// Fault is what happens to one datagram.
type Fault int

const (
	None    Fault = iota
	Drop          // lost on the way
	Dup           // delivered twice
	Delay         // delivered late (and so, possibly, out of order)
	SendErr       // the send call fails
	Block         // the send call blocks for a while, then succeeds
)

var faultNames = []string{"none", "drop", "dup", "delay", "send_error", "send_block"}

// Net is the UDP network of one simulation.
type Net struct {
	Rx     map[string]func(from string, b []byte)
	Policy func(from *rt.Node, to string, b []byte) Fault
	// Tap sees every send call with its outcome.
	Tap   func(from *rt.Node, to string, b []byte, err error)
	conns int
	Open  int
}

func Of(s *rt.Sim) *Net {
	n, _ := s.Ext["udp"].(*Net)
	if n == nil {
		n = &Net{Rx: map[string]func(string, []byte){}}
		s.Ext["udp"] = n
	}
	return n
}

// Listen registers a receiver for datagrams to addr (host:port).
func (n *Net) Listen(addr string, f func(from string, b []byte)) { n.Rx[addr] = f }

func (n *Net) send(from *rt.Node, src, to string, b []byte) (int, error) {
	s := rt.S
	f := None
	if n.Policy != nil {
		f = n.Policy(from, to, b)
	}
	if f != None {
		s.Count("fault.udp."+faultNames[f], 1)
	}
	data := append([]byte(nil), b...)
	deliver := func() {
		if rx := n.Rx[to]; rx != nil {
			rx(src, data)
		}
	}
	switch f {
	case SendErr:
		err := &net.OpError{Op: "write", Net: "udp", Err: os.NewSyscallError("sendto", syscall.ENOBUFS)}
		if n.Tap != nil {
			n.Tap(from, to, data, err)
		}
		return 0, err
	case Block:
		s.Sleep(int64(50+s.Choose(400, rt.KFault)) * 1e6)
	}
	if len(b) > 65507 {
		err := &net.OpError{Op: "write", Net: "udp", Err: os.NewSyscallError("sendto", syscall.EMSGSIZE)}
		if n.Tap != nil {
			n.Tap(from, to, data, err)
		}
		return 0, err
	}
	if n.Tap != nil {
		n.Tap(from, to, data, nil)
	}
	lat := int64(1+s.Choose(3, rt.KFault)) * 1e5
	switch f {
	case Drop:
	case Dup:
		s.After(nil, lat, deliver)
		s.After(nil, lat+int64(s.Choose(1000, rt.KFault))*1e5, deliver)
	case Delay:
		s.After(nil, lat+int64(1+s.Choose(5000, rt.KFault))*1e5, deliver)
	default:
		s.After(nil, lat, deliver)
	}
	return len(b), nil
}

var errClosed = net.ErrClosed

// UDPConn stands for net.UDPConn.
type UDPConn struct {
	node   *rt.Node
	laddr  *net.UDPAddr
	raddr  *net.UDPAddr
	closed bool
	rxc    chan pkt
	rdl    time.Time
}

type pkt struct {
	from *net.UDPAddr
	b    []byte
}

func newConn(laddr, raddr *net.UDPAddr) *UDPConn {
	s := rt.S
	n := Of(s)
	n.conns++
	n.Open++
	if laddr == nil || laddr.Port == 0 {
		laddr = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + n.conns}
	}
	c := &UDPConn{node: s.CurNode(), laddr: laddr, raddr: raddr, rxc: make(chan pkt, 4096)}
	n.Rx[laddr.String()] = func(from string, b []byte) {
		if c.closed || c.node.Down {
			return
		}
		fa, _ := net.ResolveUDPAddr("udp", from)
		rt.TrySendSched(s, c.rxc, pkt{fa, b})
	}
	return c
}

func (c *UDPConn) check() error {
	if c == nil {
		return syscall.EINVAL
	}
	rt.Y()
	if c.closed {
		return &net.OpError{Op: "write", Net: "udp", Err: errClosed}
	}
	return nil
}

func (c *UDPConn) WriteToUDP(b []byte, addr *net.UDPAddr) (int, error) {
	if err := c.check(); err != nil {
		return 0, err
	}
	if addr == nil {
		return 0, errors.New("missing address")
	}
	return Of(rt.S).send(c.node, c.laddr.String(), addr.String(), b)
}

func (c *UDPConn) WriteTo(b []byte, addr net.Addr) (int, error) {
	if err := c.check(); err != nil {
		return 0, err
	}
	return Of(rt.S).send(c.node, c.laddr.String(), addr.String(), b)
}

func (c *UDPConn) Write(b []byte) (int, error) {
	if err := c.check(); err != nil {
		return 0, err
	}
	if c.raddr == nil {
		return 0, errors.New("not connected")
	}
	return Of(rt.S).send(c.node, c.laddr.String(), c.raddr.String(), b)
}

func (c *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	p, ok := rt.Recv2(c.rxc)
	if !ok {
		return 0, nil, errClosed
	}
	return copy(b, p.b), p.from, nil
}
func (c *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := c.ReadFromUDP(b)
	return n, a, err
}
func (c *UDPConn) Read(b []byte) (int, error) {
	n, _, err := c.ReadFromUDP(b)
	return n, err
}
func (c *UDPConn) Close() error {
	if c.closed {
		return errClosed
	}
	c.closed = true
	if s := rt.S; s != nil && !s.Aborting() {
		Of(s).Open--
		rt.CloseSched(s, c.rxc)
	}
	return nil
}
func (c *UDPConn) LocalAddr() net.Addr { return c.laddr }
func (c *UDPConn) RemoteAddr() net.Addr {
	if c.raddr == nil {
		return nil
	}
	return c.raddr
}
func (c *UDPConn) SetDeadline(t time.Time) error      { return nil }
func (c *UDPConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetWriteBuffer(n int) error         { return nil }
func (c *UDPConn) SetReadBuffer(n int) error          { return nil }

var _ net.PacketConn = (*UDPConn)(nil)
var _ net.Conn = (*UDPConn)(nil)
var _ io.Writer = (*UDPConn)(nil)

func udp(network string) bool { return strings.HasPrefix(network, "udp") }

func ListenPacket(network, address string) (net.PacketConn, error) {
	rt.Y()
	if !udp(network) {
		return nil, fmt.Errorf("vsim: ListenPacket %s is not simulated", network)
	}
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	if a.Port == 0 {
		a = nil
	}
	return newConn(a, nil), nil
}

func ListenUDP(network string, laddr *net.UDPAddr) (*UDPConn, error) {
	rt.Y()
	return newConn(laddr, nil), nil
}

func DialUDP(network string, laddr, raddr *net.UDPAddr) (*UDPConn, error) {
	rt.Y()
	return newConn(laddr, raddr), nil
}

func Dial(network, address string) (net.Conn, error) {
	rt.Y()
	if !udp(network) {
		return nil, fmt.Errorf("vsim: dial %s is not simulated", network)
	}
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	return newConn(nil, a), nil
}

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

// ResolveUDPAddr resolves without a name service: a name maps to an address
// made from it.
func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(p)
	if err != nil || port < 0 || port > 65535 {
		return nil, &net.AddrError{Err: "invalid port", Addr: address}
	}
	a := &net.UDPAddr{Port: port}
	if h == "" {
		return a, nil
	}
	if h == "localhost" {
		a.IP = net.IPv4(127, 0, 0, 1)
		return a, nil
	}
	if ip := net.ParseIP(h); ip != nil {
		a.IP = ip
		return a, nil
	}
	var x uint32 = 7
	for i := 0; i < len(h); i++ {
		x = x*31 + uint32(h[i])
	}
	a.IP = net.IPv4(10, byte(x>>16), byte(x>>8), byte(x))
	return a, nil
}
