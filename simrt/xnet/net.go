// Package xnet replaces package net in simulation builds: connections and
// listeners live in memory, with simulated latency, fragmentation, windows
// and failures.
package xnet

import (
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/simrt/sim"
)

// Cfg are the per-run network settings.
type Cfg struct {
	FragP    float64 `json:"frag_p"`    // probability that a write is cut into small segments
	LatMaxUS int     `json:"lat_us"`    // latency up to this many microseconds
	DelayP   float64 `json:"delay_p"`   // probability of an exceptional delay of a segment
	DelayMax int64   `json:"delay_max"` // ns
	Window   int     `json:"window"`    // receive window in bytes
	ShortRdP float64 `json:"short_rd_p"`
	ReuseP   float64 `json:"reuse_p,omitempty"` // probability that a client gets the port of a connection that has ended
}

type netState struct {
	cfg       Cfg
	listeners map[string]*SimListener
	nextPort  int
	dials     map[string]int
	used      map[string][]*SimConn // by address, connections whose port may be used again
}

func st() *netState {
	return sim.Ext("net", func() any {
		return &netState{listeners: map[string]*SimListener{}, nextPort: firstPort, dials: map[string]int{}, used: map[string][]*SimConn{}, cfg: Cfg{Window: 65536, LatMaxUS: 50}}
	}).(*netState)
}

func Configure(c Cfg) {
	if c.Window == 0 {
		c.Window = 65536
	}
	st().cfg = c
}

type SimConn struct {
	name          string
	local, remote *net.TCPAddr
	peer          *SimConn
	proc          *sim.Proc
	rbuf          []byte
	inflight      int
	lastArr       time.Duration
	eof           bool
	rst           error
	closed        bool
	rq, wq        sim.WaitQ
	rdl, wdl      time.Time
	str           *sim.Stream
	srv           bool

	// Written and Delivered count the bytes written by this end and received by it.
	Written, Delivered int
	// ResetAt > 0: the connection is reset once this end has received that many bytes.
	ResetAt int
	Broken  bool
	delayed time.Duration // exceptional delays of what this end sent
}

func (c *SimConn) op(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *SimConn) Read(b []byte) (int, error) {
	if sim.Dying() {
		return 0, c.op("read", net.ErrClosed)
	}
	sim.SyncPoint()
	for {
		if c.closed {
			return 0, c.op("read", net.ErrClosed)
		}
		if len(c.rbuf) > 0 {
			if len(b) == 0 {
				return 0, nil
			}
			n := len(c.rbuf)
			if n > len(b) {
				n = len(b)
			}
			if n > 1 && st().cfg.ShortRdP > 0 && c.str.Chance(st().cfg.ShortRdP) {
				n = 1 + c.str.Choose(n-1)
				sim.Fault("net.shortread")
			}
			copy(b, c.rbuf[:n])
			c.rbuf = c.rbuf[n:]
			c.peer.wq.WakeAll()
			return n, nil
		}
		if c.rst != nil {
			return 0, c.op("read", c.rst)
		}
		if c.eof {
			return 0, io.EOF
		}
		if len(b) == 0 {
			return 0, nil
		}
		if !c.rdl.IsZero() {
			d := c.rdl.Sub(sim.Now())
			if d <= 0 {
				return 0, c.op("read", os.ErrDeadlineExceeded)
			}
			c.rq.WaitTimeout("read "+c.name, d)
		} else {
			c.rq.Wait("read " + c.name)
		}
	}
}

func (c *SimConn) Write(b []byte) (int, error) {
	if sim.Dying() {
		return 0, c.op("write", net.ErrClosed)
	}
	sim.SyncPoint()
	cfg := &st().cfg
	total := 0
	first := true
	for first || len(b) > 0 {
		first = false
		if c.closed {
			return total, c.op("write", net.ErrClosed)
		}
		if c.rst != nil {
			return total, c.op("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if len(b) == 0 {
			break
		}
		p := c.peer
		room := cfg.Window - len(p.rbuf) - p.inflight
		if room <= 0 {
			sim.Probe("net.backpressure")
			if !c.wdl.IsZero() {
				d := c.wdl.Sub(sim.Now())
				if d <= 0 {
					return total, c.op("write", os.ErrDeadlineExceeded)
				}
				c.wq.WaitTimeout("write "+c.name, d)
			} else {
				c.wq.Wait("write " + c.name)
			}
			continue
		}
		n := len(b)
		if n > room {
			n = room
		}
		if n > 1 && cfg.FragP > 0 && c.str.Chance(cfg.FragP) {
			m := n
			if m > 64 && c.str.Choose(2) == 1 {
				m = 64
			}
			n = 1 + c.str.Choose(m-1)
			sim.Fault("net.fragment")
		}
		c.deliver(append([]byte(nil), b[:n]...))
		b = b[n:]
		total += n
	}
	return total, nil
}

func (c *SimConn) lat() time.Duration {
	cfg := &st().cfg
	d := 20 * time.Microsecond
	if cfg.LatMaxUS > 0 {
		d += time.Duration(c.str.Choose(cfg.LatMaxUS)) * time.Microsecond
	}
	if cfg.DelayP > 0 && c.delayed < 30*time.Second && c.str.Chance(cfg.DelayP) {
		x := time.Duration(1+c.str.Choose(1000)) * time.Duration(cfg.DelayMax) / 1000
		c.delayed += x
		d += x
		sim.Fault("net.delay")
	}
	return d
}

func (c *SimConn) deliver(seg []byte) {
	p := c.peer
	p.inflight += len(seg)
	c.Written += len(seg)
	at := sim.Elapsed() + c.lat()
	if at <= p.lastArr {
		at = p.lastArr + 1
	}
	p.lastArr = at
	sim.AddTimer(at-sim.Elapsed(), func() {
		p.inflight -= len(seg)
		if p.rst != nil {
			return
		}
		if p.closed {
			// data for a closed socket is answered with a reset
			c.reset(syscall.ECONNRESET)
			return
		}
		if p.ResetAt > 0 && p.Delivered+len(seg) >= p.ResetAt {
			keep := p.ResetAt - p.Delivered
			p.rbuf = append(p.rbuf, seg[:keep]...)
			p.Delivered += keep
			sim.Fault("net.reset")
			p.Broken, c.Broken = true, true
			p.reset(syscall.ECONNRESET)
			c.reset(syscall.ECONNRESET)
			return
		}
		p.Delivered += len(seg)
		p.rbuf = append(p.rbuf, seg...)
		p.rq.WakeAll()
	})
}

func (c *SimConn) reset(err error) {
	if c.rst == nil {
		c.rst = os.NewSyscallError("read", err)
	}
	c.rq.WakeAll()
	c.wq.WakeAll()
}

func (c *SimConn) Close() error {
	if sim.Dying() || sim.CurProc() == nil && c.closed {
		return nil
	}
	sim.SyncPoint()
	if c.closed {
		return c.op("close", net.ErrClosed)
	}
	c.shut()
	return nil
}

// shut closes this end; the peer sees end of file after all data in flight.
func (c *SimConn) shut() {
	if c.closed {
		return
	}
	c.closed = true
	sim.Logf("net close %s", c.name)
	c.rq.WakeAll()
	c.wq.WakeAll()
	p := c.peer
	at := sim.Elapsed() + 20*time.Microsecond
	if at <= p.lastArr {
		at = p.lastArr + 1
	}
	p.lastArr = at
	sim.AddTimer(at-sim.Elapsed(), func() {
		p.eof = true
		p.rq.WakeAll()
		// a writer blocked on the window of a closed peer gets a reset
		if p.wq.Len() > 0 {
			p.reset(syscall.ECONNRESET)
		}
	})
}

// Abort resets the connection (RST): the peer loses unread data.
func (c *SimConn) Abort() {
	if c.closed {
		return
	}
	sim.Fault("net.abort")
	c.closed = true
	c.rq.WakeAll()
	c.wq.WakeAll()
	p := c.peer
	sim.AddTimer(20*time.Microsecond, func() {
		p.rbuf = nil
		p.reset(syscall.ECONNRESET)
	})
}

// CloseWrite half-closes.
func (c *SimConn) CloseWrite() error {
	p := c.peer
	at := sim.Elapsed() + 20*time.Microsecond
	if at <= p.lastArr {
		at = p.lastArr + 1
	}
	p.lastArr = at
	sim.AddTimer(at-sim.Elapsed(), func() {
		p.eof = true
		p.rq.WakeAll()
	})
	return nil
}

func (c *SimConn) LocalAddr() net.Addr  { return c.local }
func (c *SimConn) RemoteAddr() net.Addr { return c.remote }
func (c *SimConn) Name() string         { return c.name }

// Closed reports whether this end was closed locally.
func (c *SimConn) Closed() bool { return c.closed }

// Peer returns the other end.
func (c *SimConn) Peer() *SimConn { return c.peer }

func (c *SimConn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = t, t
	c.rq.WakeAll()
	c.wq.WakeAll()
	return nil
}
func (c *SimConn) SetReadDeadline(t time.Time) error {
	c.rdl = t
	c.rq.WakeAll()
	return nil
}
func (c *SimConn) SetWriteDeadline(t time.Time) error {
	c.wdl = t
	c.wq.WakeAll()
	return nil
}

// Methods of *net.TCPConn that code may reach by type assertion.
func (c *SimConn) SetKeepAlive(bool) error                  { return nil }
func (c *SimConn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *SimConn) SetNoDelay(bool) error                    { return nil }
func (c *SimConn) SetLinger(int) error                      { return nil }

type SimListener struct {
	key    string
	addr   *net.TCPAddr
	proc   *sim.Proc
	queue  []*SimConn
	closed bool
	q      sim.WaitQ
	errs   []error
	down   time.Duration // until then nothing can be accepted
}

func splitAddr(addr string) (string, int, error) {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return "", 0, err
	}
	n, err := strconv.Atoi(p)
	if err != nil {
		return "", 0, &net.AddrError{Err: "unknown port", Addr: addr}
	}
	return h, n, nil
}

func Listen(network, address string) (net.Listener, error) {
	if !sim.Active() {
		return nil, errors.New("listen outside of simulation")
	}
	sim.SyncPoint()
	if !strings.HasPrefix(network, "tcp") {
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	h, port, err := splitAddr(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	s := st()
	if port == 0 {
		s.nextPort++
		port = s.nextPort
	}
	ip := net.ParseIP(h)
	a := &net.TCPAddr{IP: ip, Port: port}
	key := strconv.Itoa(port)
	if o := s.listeners[key]; o != nil && !o.closed {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: a, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &SimListener{key: key, addr: a, proc: sim.CurProc()}
	s.listeners[key] = l
	if l.proc != nil {
		l.proc.OnDeath(func() { l.shut() })
	}
	sim.Logf("listen %s", address)
	return l, nil
}

func (l *SimListener) opErr(err error) error {
	return &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: err}
}

func (l *SimListener) Accept() (net.Conn, error) {
	if sim.Dying() {
		return nil, l.opErr(net.ErrClosed)
	}
	sim.SyncPoint()
	for {
		if l.closed {
			return nil, l.opErr(net.ErrClosed)
		}
		if len(l.queue) > 0 && sim.Elapsed() < l.down {
			sim.Fault("net.acceptdown")
			sim.Sleep(100 * time.Microsecond)
			return nil, l.opErr(os.NewSyscallError("accept4", syscall.EMFILE))
		}
		if len(l.errs) > 0 {
			e := l.errs[0]
			l.errs = l.errs[1:]
			sim.Fault("net.accepterror")
			return nil, l.opErr(e)
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			c.proc = sim.CurProc()
			if c.proc != nil {
				c.proc.OnDeath(func() {
					if !c.closed {
						if c.str.Choose(2) == 1 {
							c.Abort()
						} else {
							c.shut()
						}
					}
				})
			}
			sim.Logf("accept %s", c.name)
			c.Accepted()
			return c, nil
		}
		l.q.Wait("accept")
	}
}

// Accepted marks the connection as seen by the server.
func (c *SimConn) Accepted() { c.peer.srv = true }

// WasAccepted reports (on the client end) whether the server accepted the connection.
func (c *SimConn) WasAccepted() bool { return c.srv }

func (l *SimListener) shut() {
	if l.closed {
		return
	}
	l.closed = true
	for _, c := range l.queue {
		c.Abort()
	}
	l.queue = nil
	l.q.WakeAll()
}

func (l *SimListener) Close() error {
	if sim.Dying() {
		return nil
	}
	sim.SyncPoint()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	sim.Logf("listener close")
	l.shut()
	return nil
}

func (l *SimListener) Addr() net.Addr { return l.addr }

// InjectAcceptErrors makes the next accepts on the port fail.
func InjectAcceptErrors(port int, n int, emfile bool) bool {
	l := st().listeners[strconv.Itoa(port)]
	if l == nil || l.closed {
		return false
	}
	for i := 0; i < n; i++ {
		if emfile {
			l.errs = append(l.errs, os.NewSyscallError("accept4", syscall.EMFILE))
		} else {
			l.errs = append(l.errs, os.NewSyscallError("accept4", syscall.ENOBUFS))
		}
	}
	l.q.WakeAll()
	return true
}

// AcceptDown makes accepts on the port fail for some time whenever a
// connection is waiting, as if the process had no descriptors left.
func AcceptDown(port int, d time.Duration) bool {
	l := st().listeners[strconv.Itoa(port)]
	if l == nil || l.closed {
		return false
	}
	l.down = sim.Elapsed() + d
	return true
}

// Listening reports whether somebody listens on the port.
func Listening(port int) bool {
	l := st().listeners[strconv.Itoa(port)]
	return l != nil && !l.closed
}

// oldPort is the port of the last connection from that address which has
// ended for TCP: both ends closed it, or the reset of one end has reached the
// other.
func (s *netState) oldPort(fromIP string, str *sim.Stream) int {
	if s.cfg.ReuseP == 0 {
		return 0
	}
	l := s.used[fromIP]
	for i := len(l) - 1; i >= 0; i-- {
		c := l[i]
		if c.closed && c.peer.closed || c.closed && c.peer.rst != nil || c.rst != nil && c.peer.closed {
			if !str.Chance(s.cfg.ReuseP) {
				return 0
			}
			s.used[fromIP] = append(l[:i:i], l[i+1:]...)
			sim.Fault("net.portreuse")
			return c.local.Port
		}
	}
	return 0
}

const firstPort = 40000

// otherPort is a port that another address uses or has used.
func (s *netState) otherPort(fromIP string, str *sim.Stream) int {
	if s.cfg.ReuseP == 0 || s.nextPort == firstPort || !str.Chance(s.cfg.ReuseP/4) {
		return 0
	}
	p := firstPort + 1 + str.Choose(s.nextPort-firstPort)
	for _, c := range s.used[fromIP] {
		if c.local.Port == p {
			return 0
		}
	}
	sim.Fault("net.portreuse")
	return p
}

// DialFrom connects a client at the given address.
func DialFrom(name, fromIP string, port int) (*SimConn, error) {
	sim.SyncPoint()
	s := st()
	s.dials[name]++
	cn := name + "#" + strconv.Itoa(s.dials[name])
	l := s.listeners[strconv.Itoa(port)]
	if l == nil || l.closed {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	str := sim.GetStream("net/" + cn)
	ip := net.ParseIP(fromIP).String()
	cp := s.oldPort(ip, str)
	if cp == 0 {
		cp = s.otherPort(ip, str)
	}
	if cp == 0 {
		s.nextPort++
		cp = s.nextPort
	}
	ca := &net.TCPAddr{IP: net.ParseIP(fromIP), Port: cp}
	sip := "10.0.0.1"
	if ca.IP.IsLoopback() {
		sip = fromIP
	}
	sa := &net.TCPAddr{IP: net.ParseIP(sip), Port: port}
	cl := &SimConn{name: cn, local: ca, remote: sa, str: str}
	sv := &SimConn{name: cn + "/srv", local: sa, remote: ca, str: sim.GetStream("net/" + cn + "/srv")}
	cl.peer, sv.peer = sv, cl
	s.used[ip] = append(s.used[ip], cl)
	l.queue = append(l.queue, sv)
	l.q.WakeOne()
	sim.Logf("dial %s", cn)
	return cl, nil
}

// Dial is net.Dial.
func Dial(network, address string) (net.Conn, error) {
	_, p, err := splitAddr(address)
	if err != nil {
		return nil, err
	}
	return DialFrom(sim.CurName(), "127.0.0.1", p)
}

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

// Pipe is net.Pipe over a simulated connection.
func Pipe() (net.Conn, net.Conn) {
	a := &SimConn{name: "pipeA", local: &net.TCPAddr{}, remote: &net.TCPAddr{}, str: sim.GetStream("net/pipe")}
	b := &SimConn{name: "pipeB", local: &net.TCPAddr{}, remote: &net.TCPAddr{}, str: sim.GetStream("net/pipe")}
	a.peer, b.peer = b, a
	return a, b
}

// ListenedBy returns the process that listens on the port.
func ListenedBy(port int) *sim.Proc {
	if l := st().listeners[strconv.Itoa(port)]; l != nil && !l.closed {
		return l.proc
	}
	return nil
}
