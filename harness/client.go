package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"time"

	"verif.local/simrt/sim"
	"verif.local/simrt/xnet"
	"verif.local/simrt/xtls"
)

const (
	ldapPort  = 389
	ldapsPort = 636
	sec       = int64(time.Second)
)

// client is one simulated LDAP client; its requests run one after the other
// unless pipelined.
type client struct {
	w      *world
	n      int
	spec   *Client
	conn   *xnet.SimConn
	connID int
	srv    int // server incarnation the connection belongs to
	msg    int64
	who    string
	pend   []*Rec
	ents   []REnt
	own    bool // we broke the connection ourselves
	errDon bool // the last answered search ended with an error (server hangs up then)
	pages  map[int]*pageState
	gaveUp bool
	rd     *slowReader
	loop   bool
	resAt  int
	early  bool // does not wait for the server to be up
}

type pageState struct {
	id       int
	first    *Rec
	cookie   []byte
	got      []REnt
	lens     []int
	sizes    []int
	over     bool // ended: complete, failed or abandoned
	failed   bool
	op       *Op
	code     int
	dead     bool // continuation is known to be unserveable
	conn     int
	complete bool
	lastT    int64
	maxGap   int64
}

type slowReader struct {
	c *client
}

func (s *slowReader) Read(b []byte) (int, error) {
	if s.c.spec.Slow {
		st := sim.GetStream("slow/" + s.c.conn.Name())
		if st.Chance(0.3) {
			sim.Fault("client.slowread")
			sim.Sleep(time.Duration(1+st.Choose(200)) * time.Millisecond)
		}
		if len(b) > 7 {
			b = b[:1+st.Choose(len(b))]
		}
	}
	return s.c.conn.Read(b)
}

func (c *client) connect() bool {
	w := c.w
	deadline := sim.Elapsed() + 300*time.Second
	for {
		if w.over {
			c.gaveUp = true
			return false
		}
		port := ldapPort
		if c.tls() {
			port = ldapsPort
		}
		if c.early && !w.up && (w.deadNow() || xnet.ListenedBy(port) != w.proc) {
			c.gaveUp = true
			return false
		}
		if (w.up || c.early) && !w.stopping {
			cn, err := xnet.DialFrom(fmt.Sprintf("c%d", c.n), c.spec.IP, port)
			if err == nil {
				w.connN++
				w.dialed++
				w.conns = append(w.conns, cn)
				w.stat.conns = append(w.stat.conns, &connInfo{cn, w.connN})
				c.conn, c.connID, c.srv, c.who = cn, w.connN, w.inc, ""
				c.own, c.errDon, c.pend, c.ents = false, false, nil, nil
				c.msg = int64(c.connID)*1000 + 1
				c.loop = net.ParseIP(c.spec.IP).IsLoopback()
				c.rd = &slowReader{c}
				if c.resAt > 0 {
					// the network breaks the connection after that many bytes towards the client
					cn.ResetAt = c.resAt
					c.resAt = 0
				}
				if c.tls() && !c.spec.Mute && !c.greet() {
					if c.gaveUp {
						return false
					}
					continue
				}
				return true
			}
			if w.up && !w.stopping && !w.deadNow() && w.inc == w.inc {
				w.refused++
				if w.acceptFaulted == 0 {
					sim.Sleep(time.Millisecond)
					if w.up && !w.stopping && !w.deadNow() && !xnet.Listening(port) {
						w.violate("listener", "", "connection refused although the server is running")
						c.gaveUp = true
						return false
					}
				}
			}
		}
		if sim.Elapsed() > deadline {
			c.gaveUp = true
			if w.up && !w.stopping {
				w.violate("listener", "", "no connection possible within 300 s although the server is running")
			}
			return false
		}
		sim.Sleep(20 * time.Millisecond)
	}
}

func (c *client) tls() bool { return c.w.sc.TLS > 1 || c.w.sc.TLS == 1 && c.spec.TLS }

// greet does what stands for the TLS handshake.
func (c *client) greet() bool {
	w := c.w
	fail := func() bool {
		c.own = true
		c.conn.Close()
		c.lose("handshake")
		sim.Sleep(20 * time.Millisecond)
		return false
	}
	for b := []byte(xtls.Hello); len(b) > 0; {
		n, err := c.conn.Write(b)
		if err != nil {
			return fail()
		}
		b = b[n:]
	}
	inc := w.inc
	c.conn.SetReadDeadline(sim.Now().Add(w.limit))
	b := make([]byte, len(xtls.Answer))
	_, err := io.ReadFull(c.conn, b)
	if errors.Is(err, os.ErrDeadlineExceeded) && w.up && w.inc == inc && !w.stopping && !w.deadNow() {
		w.violate("noanswer", "handshake", fmt.Sprintf("client %d waited %v for the handshake", c.n, w.limit))
		c.gaveUp = true
	}
	if err != nil || string(b) != xtls.Answer {
		return fail()
	}
	c.conn.SetReadDeadline(time.Time{})
	return true
}

func (c *client) ready() bool {
	if c.conn != nil {
		return true
	}
	if c.gaveUp || !c.connect() {
		return false
	}
	if !c.spec.Lazy && c.spec.DN != "" {
		c.request(&Op{K: "bind", DN: c.spec.DN, PW: c.spec.PW})
		c.drain()
		if c.conn == nil {
			return false
		}
	}
	return true
}

func (c *client) run() {
	defer func() { c.w.stat.running-- }()
	for _, o := range c.spec.Ops {
		if c.gaveUp || c.w.over {
			return
		}
		c.do(o)
	}
	c.drain()
	if c.conn != nil {
		c.linger()
	}
	c.hangup()
}

// linger makes sure that nothing else arrives on the connection.
func (c *client) linger() {
	if !c.w.watchExtra || c.conn == nil || len(c.pend) > 0 {
		return
	}
	c.conn.SetReadDeadline(sim.Now().Add(500 * time.Millisecond))
	b := make([]byte, 1)
	if n, _ := c.conn.Read(b); n > 0 {
		c.w.violate("protocol", "", fmt.Sprintf("client %d got data although every request had been answered", c.n))
	}
}

func (c *client) hangup() {
	if c.conn != nil {
		c.own = true
		c.conn.Close()
		c.conn = nil
		c.w.closed++
	}
}

func (c *client) subst(s string) string {
	if strings.HasPrefix(s, "@gen:") {
		if g, ok := c.w.gen[normKey(s[5:])]; ok {
			return g
		}
		return "no-such-password"
	}
	return s
}

func (c *client) do(o *Op) {
	w := c.w
	if o.Pre > 0 {
		if !o.Pipe {
			// think time is spent with nothing outstanding
		}
		sim.Sleep(time.Duration(o.Pre) * time.Microsecond)
	}
	switch o.K {
	case "sleep":
		c.drain()
		sim.Sleep(time.Duration(o.US) * time.Microsecond)
	case "nap":
		// neither reads nor writes
		sim.Sleep(time.Duration(o.US) * time.Microsecond)
	case "drain":
		c.drain()
	case "close":
		c.drain()
		c.hangup()
	case "abort":
		// drop the connection with requests outstanding
		if c.conn != nil {
			c.own = true
			c.conn.Abort()
			c.lose("client reset")
		}
	case "vanish":
		if c.conn != nil {
			c.own = true
			c.conn.Close()
			c.lose("client closed")
			w.closed++
		}
	case "resetat":
		// the network breaks the next connection after N bytes towards the client
		c.drain()
		c.hangup()
		c.resAt = o.N
	case "resetsrv":
		// the network breaks the connection after N more bytes towards the server
		if c.ready() {
			c.own = true
			p := c.conn.Peer()
			p.ResetAt = p.Delivered + 1 + o.N
		}
	case "unbind":
		if !c.ready() {
			return
		}
		c.drain()
		if c.conn == nil {
			return
		}
		w.count("unbind")
		w.seq++
		u := &span{inv: w.seq}
		w.stat.unbinds = append(w.stat.unbinds, u)
		cn, sure := c.conn, !c.errDon
		c.send(message(c.nextID(), []byte{0x42, 0}, nil), 0)
		c.expectEOF("after unbind")
		if sure && !cn.Broken {
			w.seq++
			u.ret = w.seq
		}
	case "raw":
		c.raw(o)
	case "audit":
		c.audit()
	case "barrier":
		c.barrier()
	case "page":
		c.page(o)
	default:
		if !c.ready() {
			return
		}
		c.request(o)
		if !o.Pipe {
			c.drain()
		}
	}
}

func (c *client) nextID() int64 {
	c.msg++
	return c.msg
}

// expectEOF waits for the server to close the connection.
func (c *client) expectEOF(why string) {
	if c.conn == nil {
		return
	}
	c.conn.SetReadDeadline(sim.Now().Add(c.w.limit))
	b := make([]byte, 16)
	n, err := c.conn.Read(b)
	if n > 0 {
		c.w.violate("protocol", "", fmt.Sprintf("client %d got data %s", c.n, why))
	} else if errors.Is(err, os.ErrDeadlineExceeded) && !c.excused() {
		c.w.violate("release", "", fmt.Sprintf("connection of client %d still open %v %s", c.n, c.w.limit, why))
	}
	c.own = true
	c.conn.Close()
	c.conn = nil
	c.w.closed++
}

func (c *client) send(b []byte, cut int) bool {
	if cut > 0 && cut-1 < len(b) {
		b = b[:cut-1]
	}
	end := sim.Now().Add(c.w.limit)
	for {
		d := end
		if len(c.pend) > 1 {
			d = sim.Now().Add(time.Second)
		}
		c.conn.SetWriteDeadline(d)
		n, err := c.conn.Write(b)
		if err == nil {
			return true
		}
		if !errors.Is(err, os.ErrDeadlineExceeded) || d == end {
			return false
		}
		// nobody can expect the server to take more requests while its
		// answers are not taken
		b = b[n:]
		for k := len(c.pend); c.conn != nil && k > 1 && len(c.pend) == k; {
			c.recvOne()
		}
		if c.conn == nil {
			return false
		}
		end = sim.Now().Add(c.w.limit)
	}
}

func scopeEnum(s int) []byte { return berInt(0x0a, int64(s)) }

func (f *Filter) encode() []byte {
	switch f.Op {
	case "and", "or":
		var l [][]byte
		for _, g := range f.F {
			l = append(l, g.encode())
		}
		if f.Op == "and" {
			return tlv(0xa0, l...)
		}
		return tlv(0xa1, l...)
	case "not":
		return tlv(0xa2, f.F[0].encode())
	case "eq":
		return tlv(0xa3, berStr(f.A), berStr(f.V))
	case "pres":
		return tlv(0x87, []byte(f.A))
	case "sub":
		var l [][]byte
		if f.Ini != "" {
			l = append(l, tlv(0x80, []byte(f.Ini)))
		}
		for _, a := range f.Any {
			l = append(l, tlv(0x81, []byte(a)))
		}
		if f.Fin != "" {
			l = append(l, tlv(0x82, []byte(f.Fin)))
		}
		return tlv(0xa4, berStr(f.A), berSeq(l...))
	case "ge":
		return tlv(0xa5, berStr(f.A), berStr(f.V))
	case "le":
		return tlv(0xa6, berStr(f.A), berStr(f.V))
	case "ext":
		return tlv(0xa9, tlv(0x81, []byte("caseExactMatch")), tlv(0x82, []byte(f.A)), tlv(0x83, []byte(f.V)))
	case "approx":
		return tlv(0xa8, berStr(f.A), berStr(f.V))
	}
	panic("filter " + f.Op)
}

var anyFilter = &Filter{Op: "pres", A: "objectClass"}

func attrList(at []Attr) []byte {
	var l [][]byte
	for _, a := range at {
		var v [][]byte
		for _, x := range a.V {
			v = append(v, berStr(x))
		}
		l = append(l, berSeq(berStr(a.N), berSet(v...)))
	}
	return berSeq(l...)
}

// encode builds the protocol operation.
func (c *client) encode(r *Rec) (op []byte, controls []byte) {
	o := r.Op
	switch o.K {
	case "bind":
		v := o.Vers
		if v == 0 {
			v = 3
		}
		auth := tlv(0x80, []byte(r.PW))
		if o.Mode == "sasl" {
			auth = tlv(0xa3, berStr("PLAIN"), berStr("x"))
		}
		vers := berInt(2, int64(v))
		switch o.Mode {
		case "othertag":
			auth = tlv(0x85, []byte(r.PW))
		case "textversion":
			vers = berStr("3")
		case "more":
			return tlv(0x60, vers, berStr(r.DN), auth, tlv(0x84, []byte("x"))), nil
		}
		return tlv(0x60, vers, berStr(r.DN), auth), nil
	case "add":
		return tlv(0x68, berStr(r.DN), attrList(o.Attrs)), nil
	case "del":
		return tlv(0x4a, []byte(r.DN)), nil
	case "mod":
		var l [][]byte
		for _, m := range o.Mods {
			t := map[string]int64{"add": 0, "del": 1, "rep": 2, "inc": 3}[m.T]
			var v [][]byte
			for _, x := range m.V {
				v = append(v, berStr(x))
			}
			l = append(l, berSeq(berInt(0x0a, t), berSeq(berStr(m.A), berSet(v...))))
		}
		return tlv(0x66, berStr(r.DN), berSeq(l...)), nil
	case "ren":
		p := [][]byte{berStr(r.DN), berStr(o.NewRDN), berBool(o.DelOld)}
		if o.Sup != "" {
			p = append(p, tlv(0x80, []byte(o.Sup)))
		}
		return tlv(0x6c, p...), nil
	case "pw":
		var l [][]byte
		if r.DN != "" {
			l = append(l, tlv(0x80, []byte(r.DN)))
		}
		if o.Old != "" {
			l = append(l, tlv(0x81, []byte(o.Old)))
		}
		if o.New != "" {
			l = append(l, tlv(0x82, []byte(o.New)))
		}
		return tlv(0x77, tlv(0x80, []byte("1.3.6.1.4.1.4203.1.11.1")), tlv(0x81, berSeq(l...))), nil
	case "ext":
		return tlv(0x77, tlv(0x80, []byte(o.DN))), nil
	case "search":
		f := o.Filter
		if f == nil {
			f = anyFilter
		}
		var l [][]byte
		for _, a := range o.Want {
			l = append(l, berStr(a))
		}
		if o.Page > 0 || o.Mode == "abandon" {
			var ck []byte
			if r.Page != nil {
				ck = r.Page.cookie
			}
			val := berSeq(berInt(2, int64(o.Page)), tlv(0x04, ck))
			controls = tlv(0xa0, berSeq(berStr("1.2.840.113556.1.4.319"), tlv(0x04, val)))
		}
		return tlv(0x63, berStr(r.DN), scopeEnum(o.Scope), berInt(0x0a, int64(o.Deref)), berInt(2, int64(o.Limit)), berInt(2, int64(o.Secs)), berBool(false), f.encode(), berSeq(l...)), controls
	}
	panic("encode " + o.K)
}

var finalTag = map[string]byte{"bind": 0x61, "add": 0x69, "del": 0x6b, "mod": 0x67, "ren": 0x6d, "pw": 0x78, "ext": 0x78, "search": 0x65}

func (c *client) newRec(o *Op) *Rec {
	w := c.w
	r := &Rec{ID: len(w.recs), Cl: c.n, Conn: c.connID, Op: o, DN: o.DN, PW: c.subst(o.PW), Loop: c.loop, Ret: 1 << 61, Ver0: w.srcVer}
	if o.K == "pw" && (o.Old != "" || o.New != "") {
		p := *o
		p.Old, p.New = c.subst(o.Old), c.subst(o.New)
		r.Op = &p
	}
	w.recs = append(w.recs, r)
	return r
}

func (c *client) request(o *Op) *Rec {
	r := c.newRec(o)
	c.sendRec(r)
	return r
}

func (c *client) sendRec(r *Rec) {
	w := c.w
	r.Msg = c.nextID()
	if r.Op.N > 0 && r.Op.K != "page" && w.sc.Name == "protocol" {
		r.Msg = int64(r.Op.N)
	}
	op, ctl := c.encode(r)
	b := message(r.Msg, op, ctl)
	r.T0 = int64(sim.Elapsed())
	w.inject0(r)
	w.seq++
	r.Inv = w.seq
	r.Who = c.who
	// pipelined behind a bind: the identity is the one of that bind
	for _, p := range c.pend {
		if p.Op.K == "bind" {
			r.Who = ""
			if p.DN != "" {
				r.Who = normKey(p.DN)
			}
		}
	}
	sim.Logf("req #%d %s %s %q", r.ID, c.conn.Name(), r.Op.K, r.DN)
	cut := r.Op.Cut
	if cut > 0 && cut-1 < len(b) {
		// incomplete request, then the connection goes away
		r.Drop = true
		c.own = true
		c.send(b, cut)
		if r.Op.Mode == "rst" {
			c.conn.Abort()
		} else {
			c.conn.Close()
		}
		c.lose("client left in the middle of a request")
		return
	}
	w.count(r.Op.K)
	c.pend = append(c.pend, r)
	if !c.send(b, 0) {
		c.broken("write failed")
	}
}

// excused tells whether a broken connection is explained by what the harness did.
func (c *client) excused() bool {
	return c.own || c.conn == nil || c.conn.Broken || c.w.inc != c.srv || !c.w.up || c.w.stopping || c.w.deadNow()
}

// lose gives up the connection; outstanding requests stay unanswered.
func (c *client) lose(why string) {
	if c.conn == nil {
		return
	}
	for _, r := range c.pend {
		sim.Logf("lost #%d %s", r.ID, why)
		if d, ok := c.w.deathSeq[c.srv]; ok {
			r.Ret = d
		} else {
			c.w.open = append(c.w.open, lostRec{r, c.srv})
		}
	}
	c.pend = nil
	for _, p := range c.pages {
		p.over, p.failed = true, true
	}
	if !c.conn.Closed() {
		c.conn.Close()
	}
	c.conn = nil
	c.w.closed++
}

// mayHangUp tells whether an outstanding search may have been refused. The
// server closes the connection after that, and as further requests are on
// their way the refusal itself may get lost as well.
func (c *client) mayHangUp() bool {
	anon := c.who == ""
	for i, r := range c.pend {
		switch r.Op.K {
		case "bind":
			anon = true
		case "search":
			if i < len(c.pend)-1 && (anon && !(c.loop && c.w.sc.Anon) || r.Op.Limit > 0 || r.Op.Secs > 0) {
				return true
			}
		}
	}
	return false
}

// broken handles a connection that ended unexpectedly.
func (c *client) broken(why string) {
	if c.conn == nil {
		return
	}
	if !c.excused() && len(c.pend) > 0 && !c.errDon && !c.mayHangUp() {
		r := c.pend[0]
		if !r.raw {
			c.w.violate("noanswer", r.Op.K, fmt.Sprintf("connection ended (%s) without an answer to %s", why, r))
		}
	}
	c.lose(why)
}

// drain waits for the answers of all outstanding requests.
func (c *client) drain() {
	for c.conn != nil && len(c.pend) > 0 {
		c.recvOne()
	}
}

func (c *client) recvOne() {
	w := c.w
	lim := c.pend[0].T0 + int64(w.limit)
	if now := int64(sim.Elapsed()) + int64(w.limit)/2; now > lim {
		lim = now
	}
	c.conn.SetReadDeadline(sim.Now().Add(time.Duration(lim - int64(sim.Elapsed()))))
	b, err := readMessage(c.rd)
	if err != nil {
		if errors.Is(err, os.ErrDeadlineExceeded) {
			if !c.excused() {
				w.violate("hang", c.pend[0].Op.K, fmt.Sprintf("no answer within %v to %s", w.limit, c.pend[0]))
			}
			c.own = true
			c.lose("timeout")
			return
		}
		if errors.Is(err, errBER) {
			w.violate("protocol", "", fmt.Sprintf("client %d received malformed data", c.n))
			c.own = true
		}
		why := err.Error()
		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
			why = "closed by the server"
		}
		c.broken(why)
		return
	}
	c.handle(b)
}

func (c *client) handle(b []byte) {
	w := c.w
	w.scanSecrets(b)
	bad := func(f string, a ...any) {
		w.violate("protocol", "", fmt.Sprintf("client %d: ", c.n)+fmt.Sprintf(f, a...))
		c.own = true
		c.lose("protocol error")
	}
	m, rest, err := parseTLV(b)
	if err != nil || len(rest) != 0 || m.tag != 0x30 || len(m.kids) < 2 || m.kids[0].tag != 2 {
		bad("malformed response % x", b)
		return
	}
	id := m.kids[0].int()
	op := m.kids[1]
	r := c.pend[0]
	if id != r.Msg {
		bad("response (tag %#x) carries message ID %d while %d is outstanding (%s)", op.tag, id, r.Msg, r)
		return
	}
	if op.tag == 0x64 && r.Op.K == "search" {
		if len(op.kids) != 2 || op.kids[0].tag != 4 || op.kids[1].tag != 0x30 {
			bad("malformed search entry")
			return
		}
		e := REnt{DN: string(op.kids[0].data)}
		for _, a := range op.kids[1].kids {
			if a.tag != 0x30 || len(a.kids) != 2 || a.kids[1].tag != 0x31 {
				bad("malformed attribute in search entry")
				return
			}
			at := Attr{N: string(a.kids[0].data)}
			for _, v := range a.kids[1].kids {
				at.V = append(at.V, string(v.data))
			}
			e.Attrs = append(e.Attrs, at)
		}
		c.ents = append(c.ents, e)
		return
	}
	if r.raw {
		// answer to a request of our own making: anything goes
		r.Code = -1
		if op.tag != 0x64 {
			w.seq++
			r.Ret, r.Done = w.seq, true
			c.pend = c.pend[1:]
			c.ents = nil
		}
		return
	}
	if op.tag != finalTag[r.Op.K] {
		bad("response with tag %#x to %s", op.tag, r)
		return
	}
	if len(op.kids) < 3 || op.kids[0].tag != 0x0a || op.kids[1].tag != 4 || op.kids[2].tag != 4 {
		bad("malformed result to %s", r)
		return
	}
	r.Code = int(op.kids[0].int())
	r.Diag = string(op.kids[2].data)
	if r.Op.K == "pw" {
		for _, k := range op.kids[3:] {
			if k.tag&0x1f == 11 {
				v := k
				if len(v.kids) == 0 {
					if n, _, err := parseTLV(v.data); err == nil {
						v = n
					}
				}
				if len(v.kids) > 0 && v.kids[0].tag == 0x30 {
					v = v.kids[0]
				}
				for _, g := range v.kids {
					if g.tag == 0x80 {
						r.Gen, r.HasGn = string(g.data), true
					}
				}
			}
		}
	}
	if len(m.kids) > 2 {
		r.Ctl = m.kids[2]
	}
	r.Ents, c.ents = c.ents, nil
	w.seq++
	r.Ret, r.Done = w.seq, true
	r.T1 = int64(sim.Elapsed())
	r.Ver1 = w.srcVer
	w.inject1(r)
	r.Term = w.stopping || w.inc != c.srv || c.early && !w.up
	c.pend = c.pend[1:]
	c.errDon = r.Op.K == "search" && r.Code != 0
	sim.Logf("ans #%d code=%d ents=%d", r.ID, r.Code, len(r.Ents))
	r.Who = c.who
	if r.Op.K == "bind" {
		c.who = ""
		if r.Code == 0 && r.DN != "" {
			c.who = normKey(r.DN)
		}
	}
	if r.Op.K == "pw" && r.Code == 0 && r.Op.New == "" {
		tk := r.Who
		if r.DN != "" {
			tk = normKey(r.DN)
		}
		if !r.HasGn || r.Gen == "" {
			w.violate("genpw", "", "generated password missing in the answer to "+r.String())
		}
		w.gen[tk] = r.Gen
	}
	w.answered++
}

// raw sends bytes of our own making and reads whatever comes back.
func (c *client) raw(o *Op) {
	if !c.ready() {
		return
	}
	c.drain()
	if c.conn == nil {
		return
	}
	w := c.w
	sim.Fault("client.malformed")
	sim.Logf("raw %s % x", c.conn.Name(), o.Raw)
	c.own = true
	b := o.Raw
	if o.N > 0 {
		b = bytes.Repeat(b, o.N)
	}
	if !c.send(b, 0) {
		c.lose("raw write failed")
		return
	}
	switch o.Mode {
	case "stall":
		// keep the connection open for a while, then go on to the next operation
		sim.Sleep(time.Duration(o.US) * time.Microsecond)
		c.conn.Abort()
		c.lose("stalled")
	case "close":
		c.conn.Close()
		c.lose("raw closed")
	case "half":
		c.conn.CloseWrite()
		fallthrough
	default:
		c.conn.SetReadDeadline(sim.Now().Add(2 * time.Second))
		b := make([]byte, 512)
		for {
			_, err := c.conn.Read(b)
			if err != nil {
				break
			}
		}
		c.lose("raw done")
	}
	_ = w
}

// audit looks at the directory from every side.
func (c *client) audit() {
	w := c.w
	if !c.ready() {
		return
	}
	c.drain()
	s := func(dn string, scope int) *Rec {
		if !c.ready() {
			return nil
		}
		r := c.request(&Op{K: "search", DN: dn, Scope: scope, Filter: anyFilter})
		c.drain()
		if !r.Done {
			return nil
		}
		return r
	}
	full := s(w.sc.Base, 2)
	if full == nil {
		return
	}
	if !w.sc.Audit {
		return
	}
	seen := map[string]bool{}
	var names []string
	for _, e := range full.Ents {
		if k := normKey(e.DN); !seen[k] {
			seen[k] = true
			names = append(names, e.DN)
		}
	}
	if len(names) > 60 {
		// some of them; the search above told about all
		step := len(names) / 24
		for i := 12; i < len(names)-12; i++ {
			if i%step != 0 {
				seen[normKey(names[i])], names[i] = false, ""
			}
		}
	}
	n := len(names)
	for _, r := range w.recs {
		if r.Op.K == "add" || r.Op.K == "del" || r.Op.K == "ren" {
			if k := normKey(r.DN); !seen[k] && len(names) < n+6 {
				seen[k] = true
				names = append(names, r.DN)
			}
		}
	}
	for _, dn := range names {
		if dn == "" {
			continue
		}
		for scope := 0; scope < 3; scope++ {
			if s(dn, scope) == nil {
				return
			}
		}
	}
}
