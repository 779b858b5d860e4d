// Package vnet replaces sockets: datagrams and byte streams are scripted and
// recorded by the harness.
package vnet

import (
	"errors"
	"io"
	"net"
	"net/netip"
	"os"
	"syscall"
	"time"

	"github.com/GalaIO/P2Pcrawler/zz/vctx"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

type Pkt struct {
	Data []byte
	Addr *net.UDPAddr
	Err  error
}

type Net struct {
	o     vrt.Obj
	UDP   []*UDPConn
	TCP   []*TCPConn
	Dials []string
	// every TCP port is taken
	Busy bool
	// OnSend sees every datagram sent; an error makes the send fail (nothing goes out).
	OnSend func(c *UDPConn, data []byte, to *net.UDPAddr) error
	// OnDial provides the remote side of a connection.
	OnDial func(addr string, timeout time.Duration) (*TCPConn, error)
	// Seg decides how many of the avail bytes a read of up to want bytes returns (default: all that fit).
	Sent []Pkt
}

var cur *Net
var gen interface{}

func World() *Net {
	if g := vrt.Gen(); cur == nil || g != gen {
		gen = g
		cur = &Net{}
	}
	return cur
}

func hashB(b []byte) uint64 { return vrt.HashStr(string(b)) }

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "udp", Err: err} }

// ---- UDP -----------------------------------------------------------------------

type UDPConn struct {
	o      vrt.Obj
	Laddr  *net.UDPAddr
	Remote *net.UDPAddr
	In     []Pkt
	Closed bool
	Closes int
	Reads  int
	rdl    deadline
}

type deadline struct {
	at    time.Time
	hit   bool
	timer *vrt.Timer
}

func (d *deadline) set(t time.Time) {
	if d.timer != nil {
		vrt.StopTimer(d.timer)
		d.timer = nil
	}
	d.at = t
	d.hit = false
	if t.IsZero() || !vrt.Active() {
		return
	}
	rem := t.UnixNano() - vrt.SysNow()
	if rem <= 0 {
		d.hit = true
		return
	}
	d.timer = vrt.NewTimer(rem, 0, func() { d.hit = true })
}

func ListenUDP(network string, laddr *net.UDPAddr) (*UDPConn, error) {
	c := &UDPConn{Laddr: laddr}
	w := World()
	if vrt.Point("udp listen") {
		w.o.Op(1, 0)
	}
	w.UDP = append(w.UDP, c)
	return c, nil
}

func ListenPacket(network, addr string) (net.PacketConn, error) {
	a, err := net.ResolveUDPAddr("udp", addr)
	if err != nil {
		return nil, err
	}
	return ListenUDP(network, a)
}

func DialUDP(network string, laddr, raddr *net.UDPAddr) (*UDPConn, error) {
	c, err := ListenUDP(network, laddr)
	if c != nil {
		c.Remote = raddr
	}
	return c, err
}

// Inject makes a datagram (or a read error) arrive. Harness threads only.
func (c *UDPConn) Inject(data []byte, from *net.UDPAddr) {
	c.o.Op(2, hashB(data))
	c.In = append(c.In, Pkt{Data: append([]byte(nil), data...), Addr: ownAddr(from)})
}

// ownAddr copies byte by byte: bulk copies and the net package are seen by the race detector.
func ownAddr(a *net.UDPAddr) *net.UDPAddr {
	if a == nil {
		return nil
	}
	ip := make([]byte, len(a.IP))
	for i := range ip {
		ip[i] = a.IP[i]
	}
	return &net.UDPAddr{IP: ip, Port: a.Port, Zone: a.Zone}
}

func (c *UDPConn) InjectErr(err error) {
	c.o.Op(3, 0)
	c.In = append(c.In, Pkt{Err: err})
}

func (c *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	if !vrt.Point("udp read") {
		return 0, nil, opErr("read", net.ErrClosed)
	}
	c.o.Op(4, 0)
	c.Reads++
	if len(c.In) == 0 && !c.Closed && !c.rdl.hit {
		vrt.Block("udp read", func() bool { return len(c.In) > 0 || c.Closed || c.rdl.hit })
		if vrt.Aborting() {
			return 0, nil, opErr("read", net.ErrClosed)
		}
		c.o.Op(5, 0)
	}
	if c.Closed {
		return 0, nil, opErr("read", net.ErrClosed)
	}
	if len(c.In) == 0 {
		return 0, nil, opErr("read", os.ErrDeadlineExceeded)
	}
	p := c.In[0]
	c.In = c.In[1:]
	if p.Err != nil {
		return 0, nil, opErr("read", p.Err)
	}
	n := copy(b, p.Data)
	vrt.RaceWriteRange(b[:n])
	return n, ownAddr(p.Addr), nil
}

func (c *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := c.ReadFromUDP(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}

func (c *UDPConn) Read(b []byte) (int, error) {
	n, _, err := c.ReadFromUDP(b)
	return n, err
}

func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *net.UDPAddr, err error) {
	n, addr, err = c.ReadFromUDP(b)
	return
}

func (c *UDPConn) WriteToUDP(b []byte, to *net.UDPAddr) (int, error) {
	if !vrt.Point("udp write") {
		return 0, opErr("write", net.ErrClosed)
	}
	w := World()
	c.o.Op(6, 0)
	if c.Closed {
		return 0, opErr("write", net.ErrClosed)
	}
	if to == nil {
		return 0, opErr("write", errors.New("missing address"))
	}
	vrt.RaceReadRange(b)
	d := append([]byte(nil), b...)
	a := ownAddr(to)
	if w.OnSend != nil {
		if err := w.OnSend(c, d, a); err != nil {
			return 0, opErr("write", err)
		}
	}
	vrt.HistOp(hashB(d))
	w.Sent = append(w.Sent, Pkt{Data: d, Addr: a})
	return len(b), nil
}

func (c *UDPConn) WriteTo(b []byte, to net.Addr) (int, error) {
	a, ok := to.(*net.UDPAddr)
	if !ok {
		return 0, opErr("write", errors.New("bad address type"))
	}
	return c.WriteToUDP(b, a)
}

func (c *UDPConn) Write(b []byte) (int, error) { return c.WriteToUDP(b, c.Remote) }

func (c *UDPConn) WriteMsgUDP(b, oob []byte, addr *net.UDPAddr) (n, oobn int, err error) {
	n, err = c.WriteToUDP(b, addr)
	return
}

func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.ReadFromUDP(b)
	if a == nil {
		return n, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), err
}

func (c *UDPConn) ReadMsgUDPAddrPort(b, oob []byte) (n, oobn, flags int, addr netip.AddrPort, err error) {
	n, addr, err = c.ReadFromUDPAddrPort(b)
	return
}

func (c *UDPConn) WriteToUDPAddrPort(b []byte, addr netip.AddrPort) (int, error) {
	if !addr.IsValid() {
		return c.WriteToUDP(b, nil)
	}
	return c.WriteToUDP(b, net.UDPAddrFromAddrPort(addr))
}

func (c *UDPConn) WriteMsgUDPAddrPort(b, oob []byte, addr netip.AddrPort) (n, oobn int, err error) {
	n, err = c.WriteToUDPAddrPort(b, addr)
	return
}

func (c *UDPConn) Close() error {
	if !vrt.Point("udp close") {
		return nil
	}
	c.o.Op(7, 0)
	c.Closes++
	if c.Closed {
		return opErr("close", net.ErrClosed)
	}
	c.Closed = true
	return nil
}

func (c *UDPConn) LocalAddr() net.Addr  { return c.Laddr }
func (c *UDPConn) RemoteAddr() net.Addr { return c.Remote }
func (c *UDPConn) SetDeadline(t time.Time) error {
	c.rdl.set(t)
	return nil
}
func (c *UDPConn) SetReadDeadline(t time.Time) error {
	vrt.Point("udp deadline")
	c.o.Op(8, 0)
	c.rdl.set(t)
	return nil
}
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(n int) error          { return nil }
func (c *UDPConn) SetWriteBuffer(n int) error         { return nil }

// ---- TCP -----------------------------------------------------------------------

// TCPConn is the program's end of a connection whose peer is scripted.
type TCPConn struct {
	o       vrt.Obj
	Addr    string
	in      []byte   // bytes ready to be read
	EOF     bool     // peer closed its sending side after in
	ReadErr error    // instead of EOF
	Out     [][]byte // writes of the program, in order
	Closed  bool
	Closes  int
	Reads   int
	rdl     deadline
	wdl     deadline
	// Seg limits one read (avail bytes ready, want requested); nil: as many as fit.
	Seg func(c *TCPConn, avail, want int) int
	// OnWrite reacts to the program's writes (the peer's program); n<0: accept all.
	OnWrite func(c *TCPConn, b []byte) error
	// More is asked for bytes when none are ready (endless peers).
	More func(c *TCPConn) []byte
	// WriteStall: the peer's window is full, writes block.
	WriteStall bool
	// ReadCost is the virtual time every successful read takes.
	ReadCost time.Duration
	OnClose  func(c *TCPConn)
}

// Feed makes bytes available to the program.
func (c *TCPConn) Feed(b []byte) {
	c.o.Op(1, hashB(b))
	c.in = append(c.in, b...)
}

// Avail is the number of unread bytes.
func (c *TCPConn) Avail() int { return len(c.in) }

func (c *TCPConn) Finish(err error) {
	c.o.Op(2, 0)
	c.EOF = true
	c.ReadErr = err
}

func tcpErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

func (c *TCPConn) Read(b []byte) (int, error) {
	if !vrt.Point("tcp read") {
		return 0, tcpErr("read", net.ErrClosed)
	}
	c.o.Op(3, 0)
	c.Reads++
	if c.Closed {
		return 0, tcpErr("read", net.ErrClosed)
	}
	if c.rdl.hit {
		return 0, tcpErr("read", os.ErrDeadlineExceeded)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 && c.More != nil {
		c.in = append(c.in, c.More(c)...)
	}
	if len(c.in) == 0 && !c.EOF {
		vrt.Block("tcp read", func() bool { return len(c.in) > 0 || c.EOF || c.Closed || c.rdl.hit })
		if vrt.Aborting() {
			return 0, tcpErr("read", net.ErrClosed)
		}
		c.o.Op(4, 0)
		if c.Closed {
			return 0, tcpErr("read", net.ErrClosed)
		}
		if len(c.in) == 0 && c.rdl.hit {
			return 0, tcpErr("read", os.ErrDeadlineExceeded)
		}
	}
	if len(c.in) == 0 {
		if c.ReadErr != nil {
			return 0, tcpErr("read", c.ReadErr)
		}
		return 0, io.EOF
	}
	n := len(c.in)
	if n > len(b) {
		n = len(b)
	}
	if c.Seg != nil {
		if k := c.Seg(c, len(c.in), len(b)); k >= 1 && k < n {
			n = k
		}
	}
	copy(b, c.in[:n])
	vrt.RaceWriteRange(b[:n])
	c.in = c.in[n:]
	if c.ReadCost > 0 {
		sleep(c.ReadCost)
	}
	return n, nil
}

func sleep(d time.Duration) {
	fired := false
	vrt.NewTimer(int64(d), 0, func() { fired = true })
	vrt.Block("io", func() bool { return fired })
}

func (c *TCPConn) Write(b []byte) (int, error) {
	if !vrt.Point("tcp write") {
		return 0, tcpErr("write", net.ErrClosed)
	}
	c.o.Op(5, hashB(b))
	if c.Closed {
		return 0, tcpErr("write", net.ErrClosed)
	}
	if c.wdl.hit {
		return 0, tcpErr("write", os.ErrDeadlineExceeded)
	}
	if c.WriteStall {
		vrt.Block("tcp write (peer does not read)", func() bool { return c.Closed || c.wdl.hit || !c.WriteStall })
		if vrt.Aborting() || c.Closed {
			return 0, tcpErr("write", net.ErrClosed)
		}
		if c.wdl.hit {
			return 0, tcpErr("write", os.ErrDeadlineExceeded)
		}
	}
	vrt.RaceReadRange(b)
	d := append([]byte(nil), b...)
	c.Out = append(c.Out, d)
	if c.OnWrite != nil {
		if err := c.OnWrite(c, d); err != nil {
			c.Out = c.Out[:len(c.Out)-1]
			return 0, tcpErr("write", err)
		}
	}
	return len(b), nil
}

func (c *TCPConn) Close() error {
	if !vrt.Point("tcp close") {
		return nil
	}
	c.o.Op(6, 0)
	c.Closes++
	if c.Closed {
		return tcpErr("close", net.ErrClosed)
	}
	c.Closed = true
	c.rdl.set(time.Time{})
	c.wdl.set(time.Time{})
	if c.OnClose != nil {
		c.OnClose(c)
	}
	return nil
}

func (c *TCPConn) CloseRead() error  { return nil }
func (c *TCPConn) CloseWrite() error { return nil }

type strAddr string

func (a strAddr) Network() string { return "tcp" }
func (a strAddr) String() string  { return string(a) }

func (c *TCPConn) LocalAddr() net.Addr  { return strAddr("127.0.0.1:40000") }
func (c *TCPConn) RemoteAddr() net.Addr { return strAddr(c.Addr) }
func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if vrt.Point("tcp deadline") {
		c.o.Op(7, 0)
		c.rdl.set(t)
	}
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if vrt.Point("tcp deadline") {
		c.o.Op(8, 0)
		c.wdl.set(t)
	}
	return nil
}
func (c *TCPConn) SetKeepAlive(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                    { return nil }
func (c *TCPConn) SetLinger(int) error                      { return nil }
func (c *TCPConn) SetReadBuffer(int) error                  { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                 { return nil }

// Blackhole, returned by OnDial, makes the dial take its whole timeout.
var Blackhole = errors.New("blackhole")

func DialTimeout(network, addr string, timeout time.Duration) (net.Conn, error) {
	return dial(network, addr, timeout, nil)
}

func dial(network, addr string, timeout time.Duration, ctx vctx.Context) (net.Conn, error) {
	if !vrt.Point("tcp dial") {
		return nil, tcpErr("dial", net.ErrClosed)
	}
	w := World()
	w.o.Op(2, vrt.HashStr(addr))
	vrt.HistOp(vrt.HashStr(addr))
	w.Dials = append(w.Dials, addr)
	// the real dialer's own checks of the address
	if _, err := net.ResolveTCPAddr("tcp", addr); err != nil {
		return nil, tcpErr("dial", err)
	}
	if w.OnDial == nil {
		return nil, tcpErr("dial", errors.New("connection refused"))
	}
	c, err := w.OnDial(addr, timeout)
	if err == Blackhole {
		if timeout <= 0 {
			timeout = 130 * time.Second
		}
		fired := false
		vrt.NewTimer(int64(timeout), 0, func() { fired = true })
		vrt.Block("tcp dial", func() bool { return fired || ctx != nil && vctx.Ended(ctx) })
		return nil, tcpErr("dial", os.ErrDeadlineExceeded)
	}
	if err != nil {
		return nil, tcpErr("dial", err)
	}
	c.Addr = addr
	w.TCP = append(w.TCP, c)
	return c, nil
}

func Dial(network, addr string) (net.Conn, error) { return DialTimeout(network, addr, 0) }

// Dialer has the fields of net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return d.DialContext(vctx.Background(), network, addr)
}

func (d *Dialer) DialContext(ctx vctx.Context, network, addr string) (net.Conn, error) {
	timeout := d.Timeout
	sooner := func(t time.Time) bool {
		rem := time.Duration(t.UnixNano() - vrt.SysNow())
		if timeout <= 0 || rem < timeout {
			timeout = rem
		}
		return rem > 0
	}
	late := !d.Deadline.IsZero() && !sooner(d.Deadline)
	if t, ok := ctx.Deadline(); ok && !sooner(t) {
		late = true
	}
	if late {
		return nil, tcpErr("dial", os.ErrDeadlineExceeded)
	}
	if err := ctx.Err(); err != nil {
		return nil, tcpErr("dial", err)
	}
	return dial(network, addr, timeout, ctx)
}

func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	c, err := dial(network, raddr.String(), 0, nil)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

// Listener is an endpoint nobody connects to.
type Listener struct {
	address string
	closed  bool
}

func Listen(network, address string) (net.Listener, error) {
	w := World()
	if vrt.Point("tcp listen") {
		w.o.Op(3, vrt.HashStr(address))
	}
	if w.Busy {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("bind: address already in use")}
	}
	return &Listener{address: address}, nil
}

// Asked is the address the listener was opened with.
func (l *Listener) Asked() string { return l.address }

func (l *Listener) Accept() (net.Conn, error) {
	if vrt.Point("tcp accept") {
		vrt.EnvOp(7, 0)
	}
	vrt.Block("tcp accept", func() bool { return l.closed })
	return nil, tcpErr("accept", net.ErrClosed)
}

func (l *Listener) Close() error {
	if vrt.Point("tcp close") {
		vrt.EnvOp(8, 0)
	}
	if l.closed {
		return tcpErr("close", net.ErrClosed)
	}
	l.closed = true
	return nil
}

func (l *Listener) Addr() net.Addr {
	if a, err := net.ResolveTCPAddr("tcp", l.address); err == nil {
		return a
	}
	return &net.TCPAddr{}
}

// ListenConfig has the fields of net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (l *ListenConfig) Listen(ctx vctx.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

func (l *ListenConfig) ListenPacket(ctx vctx.Context, network, address string) (net.PacketConn, error) {
	return ListenPacket(network, address)
}
