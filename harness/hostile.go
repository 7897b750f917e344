package main

import (
	"fmt"
	"strings"

	"verif.local/simrt/xnet"
)

// Requests that no decent client would send.

// tree is a BER element under construction.
type tree struct {
	tag  byte
	data []byte
	kids []*tree
	cons bool
	lie  int // length adjustment
	long bool
	indf bool
}

func toTree(n *node) *tree {
	t := &tree{tag: n.tag, cons: n.tag&0x20 != 0}
	if t.cons {
		for _, k := range n.kids {
			t.kids = append(t.kids, toTree(k))
		}
	} else {
		t.data = append([]byte(nil), n.data...)
	}
	return t
}

func (t *tree) encode() []byte {
	var body []byte
	if len(t.kids) > 0 {
		for _, k := range t.kids {
			body = append(body, k.encode()...)
		}
	} else {
		body = t.data
	}
	n := len(body) + t.lie
	if n < 0 {
		n = 0
	}
	out := []byte{t.tag}
	switch {
	case t.indf:
		out = append(out, 0x80)
		body = append(append([]byte(nil), body...), 0, 0)
	case t.long:
		out = append(out, 0x84, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	case n < 128:
		out = append(out, byte(n))
	case n < 65536:
		out = append(out, 0x82, byte(n>>8), byte(n))
	default:
		out = append(out, 0x83, byte(n>>16), byte(n>>8), byte(n))
	}
	return append(out, body...)
}

func (t *tree) all(out []*tree) []*tree {
	out = append(out, t)
	for _, k := range t.kids {
		out = k.all(out)
	}
	return out
}

func (g *gen) junk() []byte {
	b := make([]byte, g.n(12))
	for i := range b {
		b[i] = byte(g.u())
	}
	return b
}

// mangle damages a well-formed message somewhere.
func (g *gen) mangle(msg []byte) []byte {
	n, _, err := parseTLV(msg)
	if err != nil {
		return msg
	}
	t := toTree(n)
	for k := 1 + g.n(2); k > 0; k-- {
		l := t.all(nil)
		x := l[g.n(len(l))]
		if len(l) > 3 && x == t && g.p(0.8) {
			x = l[1+g.n(len(l)-1)]
		}
		switch g.n(13) {
		case 0:
			x.kids, x.data = nil, nil
		case 1:
			if len(x.kids) > 0 {
				i := g.n(len(x.kids))
				x.kids = append(x.kids[:i:i], x.kids[i+1:]...)
			} else {
				x.data = nil
			}
		case 2:
			if len(x.kids) > 0 {
				i := g.n(len(x.kids))
				x.kids = append(x.kids, x.kids[i])
			} else {
				x.data = g.junk()
			}
		case 3:
			x.tag = byte(g.pi(0x02, 0x04, 0x0a, 0x01, 0x05, 0x30, 0x31, 0x80, 0xa0, 0xa3, 0xa4, 0x87, 0x64, 0x42, 0x09, 0x18, 0x1f))
		case 4:
			x.tag ^= byte(1 << g.n(8))
		case 5:
			x.lie = g.pi(-1, 1, -2, 2, 5, -1000)
		case 6:
			x.long = true
			if g.p(0.2) {
				x.lie = g.pi(1<<24, 0x7fffff00, 1<<16)
			}
		case 7:
			x.kids, x.data = nil, g.junk()
		case 8:
			// wrap
			c := *x
			*x = tree{tag: byte(g.pi(0x30, 0xa0, 0xa2, 0x24)), kids: []*tree{&c}}
		case 9:
			x.indf = true
		case 10:
			if len(x.kids) > 1 {
				i, j := g.n(len(x.kids)), g.n(len(x.kids))
				x.kids[i], x.kids[j] = x.kids[j], x.kids[i]
			}
		case 11:
			x.kids = nil
			x.data = []byte(g.pick("", "=", ",", "\\", "a=\\", "cn=#zz", "cn=\\0", "uid=a+", "(", "\xff\xfe", "dc=org", "*", "+", "{", "{}"))
		case 12:
			x.kids, x.data = nil, make([]byte, 1+g.n(300))
			for i := range x.data {
				x.data[i] = byte(g.u())
			}
		}
	}
	b := t.encode()
	switch g.n(10) {
	case 0:
		if len(b) > 1 {
			b = b[:1+g.n(len(b)-1)]
		}
	case 1:
		b[g.n(len(b))] ^= byte(1 << g.n(8))
	}
	return b
}

// edge makes a well-formed request whose parts are at the limits of what is
// possible, each on its own.
func (g *gen) edge() []byte {
	name := func() []byte {
		return berStr(g.pick("", "", g.base, g.base, "uid=u0,ou=people,"+g.base, "uid=nobody,ou=people,"+g.base, "dc=org", ",", "=", "uid=u0", "\\", "uid=\\zz,"+g.base, "+", " ", "uid=#0403", "uid=u0+cn=x,"+g.base, g.base+","))
	}
	word := func() string {
		return g.pick("", "cn", "uid", "objectClass", "*", "+", "1.1", "userPassword", "cn;lang-en", "2.5.4.3", " ", "a=b", "\xff", ":dn:", "jpegPhoto;binary")
	}
	some := func(n int, f func() []byte) []byte {
		var out []byte
		for k := g.n(n + 1); k > 0; k-- {
			out = append(out, f()...)
		}
		return out
	}
	val := func() []byte {
		return berStr(g.pick("", "a", "top", "u0", "\x00", "\xff\xff", " x ", "{ARGON2}", "{SSHA}x", "{"))
	}
	vals := func() []byte { return tlv(0x31, some(2, val)) }
	num := func(tag byte) []byte { return berInt(tag, int64(g.pi(0, 0, 0, 1, 2, 3, -1, 1<<31-1, 1<<31, 1<<40))) }
	var filter func(d int) []byte
	filter = func(d int) []byte {
		k := g.n(10)
		if d == 0 {
			k = 3 + g.n(7)
		}
		switch k {
		case 0, 1:
			return tlv(byte(0xa0+k), some(3, func() []byte { return filter(d - 1) }))
		case 2:
			return tlv(0xa2, some(2, func() []byte { return filter(d - 1) }))
		case 3:
			return tlv(0x87, []byte(word()))
		case 4:
			return tlv(0xa4, berStr(word()), tlv(0x30, some(3, func() []byte { return tlv(byte(0x80+g.n(4)), val()[2:]) })))
		case 5:
			return tlv(0xa9, some(4, func() []byte { return tlv(byte(0x81+g.n(4)), val()[2:]) }))
		}
		return tlv(byte(g.pi(0xa3, 0xa3, 0xa5, 0xa6, 0xa8)), berStr(word()), val())
	}
	attr := func() []byte { return berSeq(berStr(word()), vals()) }
	var op []byte
	switch g.n(10) {
	case 0:
		auth := tlv(0x80, []byte(g.pick("", "x", "\x00")))
		if g.p(0.3) {
			auth = tlv(0xa3, berStr(g.pick("", "PLAIN", "EXTERNAL")), some(1, val))
		}
		op = tlv(0x60, berInt(2, int64(g.pi(3, 3, 3, 2, 0, 4, 127, 128))), name(), auth)
	case 1, 2:
		op = tlv(0x63, name(), num(0x0a), num(0x0a), num(2), num(2), berBool(g.p(0.5)), filter(3), tlv(0x30, some(3, func() []byte { return berStr(word()) })))
	case 3:
		op = tlv(0x66, name(), tlv(0x30, some(3, func() []byte { return berSeq(num(0x0a), attr()) })))
	case 4:
		op = tlv(0x68, name(), tlv(0x30, some(3, attr)))
	case 5:
		op = tlv(0x4a, name()[2:])
	case 6, 7:
		p := [][]byte{name(), name(), berBool(g.p(0.5))}
		if g.p(0.6) {
			p = append(p, tlv(0x80, name()[2:]))
		}
		op = tlv(0x6c, p...)
	case 8:
		var l []byte
		for t := byte(0x80); t < 0x83; t++ {
			if g.p(0.5) {
				l = append(l, tlv(t, []byte(g.pick("", g.base, "uid=u0,ou=people,"+g.base, "x", "\xff")))...)
			}
		}
		p := [][]byte{tlv(0x80, []byte("1.3.6.1.4.1.4203.1.11.1"))}
		if g.p(0.8) {
			p = append(p, tlv(0x81, tlv(0x30, l)))
		}
		op = tlv(0x77, p...)
	default:
		op = tlv(byte(g.pi(0x6e, 0x77, 0x50, 0x42)), some(3, val))
	}
	return message(int64(g.pi(1, 5, 0, -1, 1<<31-1, 1<<40)), op, nil)
}

// oddMessage makes a message that may or may not be acceptable.
func (g *gen) oddMessage(who string) []byte {
	if g.p(0.25) {
		g.lastOdd = ""
		return g.edge()
	}
	c := &client{}
	kinds := []string{"add", "del", "mod", "ren", "search", "bind", "pw", "search", "ext"}
	old := g.w
	g.w = map[string]int{kinds[g.n(len(kinds))]: 1}
	keys, sum := g.keys, g.wsum
	g.keys, g.wsum = sortedKeys(g.w), 1
	d := g.d
	simple := g.simple
	g.simple = g.p(0.3)
	o := g.op(who)
	g.lastOdd = o.K
	g.w, g.keys, g.wsum, g.d, g.simple = old, keys, sum, d, simple
	if o.K == "search" && g.p(0.3) {
		o.Page = g.pi(1, 5, 0, -1, 1<<30)
		if g.p(0.3) {
			o.Mode = "abandon"
		}
		if g.p(0.2) {
			o.Limit = g.pi(-1, 1<<30)
		}
		if g.p(0.2) {
			o.Scope = g.pi(3, -1, 77)
		}
	}
	if o.K == "search" && g.p(0.15) {
		o.Filter = &Filter{Op: g.pick("ge", "le", "approx"), A: "cn", V: "a"}
	}
	op, ctl := c.encode(&Rec{Op: o, DN: o.DN, PW: o.PW})
	if g.p(0.1) {
		// controls of all sorts
		val := tlv(0x04, g.junk())
		if g.p(0.3) {
			val = tlv(0x04, berSeq(berInt(2, int64(g.n(5)))))
		}
		oid := g.pick("1.2.840.113556.1.4.319", "1.3.6.1.1.13.1", "2.16.840.1.113730.3.4.2", "1.3.6.1.4.1.42.2.27.8.5.1", "1.2.3", "", "2.16.840.1.113730.3.4.4", "2.16.840.1.113730.3.4.5", "1.2.840.113556.1.4.528", "1.3.6.1.4.1.4203.1.9.1.1", "1.2.840.113556.1.4.841", "1.3.6.1.4.1.4203.1.9.1.2", "1.2.840.113556.1.4.473", "1.2.840.113556.1.4.474")
		switch g.n(3) {
		case 0:
			ctl = tlv(0xa0, berSeq(berStr(oid), berBool(g.p(0.5)), val))
		case 1:
			ctl = tlv(0xa0, berSeq(berStr(oid), val))
		default:
			ctl = tlv(0xa0, berSeq(berStr(oid)))
		}
	}
	b := message(int64(g.pi(1, 2, 7, 1<<20)), op, ctl)
	if g.p(0.04) {
		b = message(3, tlv(byte(g.pi(0x6e, 0x50, 0x7f, 0x61, 0x79)), berInt(2, 1)), nil) // compare, abandon, responses
	}
	if g.p(0.75) {
		b = g.mangle(b)
	}
	return b
}

func (g *gen) deep(n int) []byte {
	var b []byte
	f := tlv(0x87, []byte("cn"))
	for i := 0; i < n; i++ {
		f = tlv(byte(g.pi(0xa0, 0xa1, 0xa2)), f)
	}
	op := tlv(0x63, berStr(g.base), scopeEnum(2), berInt(0x0a, 0), berInt(2, 0), berInt(2, 0), berBool(false), f, berSeq())
	b = message(9, op, nil)
	return b
}

func (g *gen) rawOp(who string) *Op {
	o := &Op{K: "raw", Raw: g.oddMessage(who), Mode: g.pick("", "", "", "half", "close", "stall")}
	switch g.n(14) {
	case 0:
		o.Raw = g.junk()
	case 1:
		// two at once; without rights they must not obtain any
		a, b := g.oddMessage(who), g.oddMessage(who)
		for who == "" && g.lastOdd == "bind" {
			b = g.oddMessage(who)
		}
		o.Raw = append(b[:len(b):len(b)], a...)
	case 2:
		o.Raw = g.deep(g.pi(3, 30, 300))
	}
	if o.Mode == "stall" {
		o.US = int64(g.n(3_000_000))
	}
	return o
}

// bottomless adds a client that sends a packet of elements within elements,
// more of them than a stack can take.
func (g *gen) bottomless() {
	unit := g.pick("0\x80", "0\x84\x7f\x00\x00\x00", "0\x88\xff\xff\xff\xff\xff\xff\xff\xff", "0\x80\x04\x00", "\x7f\x22\x80", "\xa0\x80\x02\x01\x05")
	g.sc.Clients = append(g.sc.Clients, &Client{IP: "10.9.9.9", Ops: []*Op{{K: "raw", Raw: []byte(unit), N: 3_000_000}}})
	// without hurry on anything else
	g.sc.Net = xnet.Cfg{LatMaxUS: 10, Window: 65536}
	g.sc.Params.PreemptMean, g.sc.Params.SyncP, g.sc.Params.StallP = 0, 0, 0
}

// hostile adds clients that misbehave.
func (g *gen) hostile(n, ops int, dn, pw string) {
	for i := 0; i < n; i++ {
		c := &Client{IP: g.pick("127.0.0.1", "10.9.9.9"), DN: dn, PW: pw}
		for k := 0; k < ops; k++ {
			o := g.rawOp(dn)
			if g.p(0.3) {
				o.Pre = int64(g.n(5000))
			}
			c.Ops = append(c.Ops, o)
		}
		g.sc.Clients = append(g.sc.Clients, c)
	}
}

// patience is how long a peer keeps others waiting, longer than anybody else
// waits for it.
func (g *gen) patience() int64 {
	return int64(g.n(g.pi(40_000_000, 1_000_000_000, 1_000_000_000)))
}

// stalled adds clients that do not read their answers.
func (g *gen) stalled(n int) {
	for ; n > 0; n-- {
		c := &Client{IP: "10.9.9.9", DN: "uid=auditor,ou=sys," + g.base, PW: auditPW}
		for k := 2 + g.n(6); k > 0; k-- {
			c.Ops = append(c.Ops, &Op{K: "search", DN: g.base, Scope: 2, Filter: anyFilter, Pipe: true})
		}
		c.Ops = append(c.Ops, &Op{K: "nap", US: g.patience()})
		c.Ops = append(c.Ops, &Op{K: g.pick("abort", "vanish", "drain")})
		g.sc.Clients = append(g.sc.Clients, c)
	}
}

// idle adds clients that are connected and do nothing, or stop in the middle
// of a request.
func (g *gen) idle(n int) {
	for ; n > 0; n-- {
		if g.p(0.5) {
			g.hostile(1, 1, "", "")
			o := g.sc.Clients[len(g.sc.Clients)-1].Ops[0]
			o.Mode, o.US = "stall", g.patience()
			continue
		}
		c := &Client{IP: "10.9.9.9", DN: "uid=auditor,ou=sys," + g.base, PW: auditPW}
		c.Ops = []*Op{{K: "search", DN: g.base, Filter: anyFilter}, {K: "nap", US: g.patience()}}
		g.sc.Clients = append(g.sc.Clients, c)
	}
}

// crowd adds clients that come and go many times, in every way there is.
func (g *gen) crowd(n, ops int) {
	for ; n > 0; n-- {
		c := &Client{IP: g.pick("127.0.0.1", "10.9.9.9"), Lazy: true}
		if g.p(0.4) {
			c.DN, c.PW = "uid=auditor,ou=sys,"+g.base, auditPW
			c.Lazy = false
		}
		end := []string{"abort", "vanish", "close", "unbind"}
		if g.p(0.5) {
			end = []string{g.pick(end...)}
		}
		for k := 0; k < ops; k++ {
			switch m := g.n(3); {
			case m == 0 && c.DN == "":
				o := g.rawOp("")
				if o.Mode == "stall" || o.N > 0 {
					o.Mode, o.N = "close", 0
				}
				c.Ops = append(c.Ops, o)
			case m == 1:
				c.Ops = append(c.Ops, &Op{K: "resetsrv", N: g.n(40)}, &Op{K: "raw", Raw: message(1, []byte{0x42, 0}, nil), Mode: "close"})
			default:
				c.Ops = append(c.Ops, &Op{K: "search", DN: g.base, Filter: anyFilter, Pipe: g.p(0.5)}, &Op{K: g.pick(end...)})
			}
		}
		g.sc.Clients = append(g.sc.Clients, c)
	}
}

// withTLS gives the server an LDAPS listener in some of the runs.
func withTLS(sc *Scenario, seed uint64) {
	if sc.Prop == "C22" {
		return
	}
	r := newRng(seed, "tls")
	p := 0.1
	sc.Cmd = (sc.World == "boltdb" || sc.World == "ldif") && !sc.Metrics && r.p(0.15)
	sc.CmdEnv = sc.Cmd && r.p(0.4)
	switch sc.Prop {
	case "C12", "C13", "C14", "C15":
		p = 0.35
	}
	if sc.World != "boltdb" && sc.World != "ldif" || !r.p(p) {
		return
	}
	sc.TLS = r.pi(1, 1, 1, 2)
	for _, c := range sc.Clients {
		c.TLS = r.p(0.5)
	}
	if sc.Prop == "C13" || sc.Prop == "C14" {
		// those that do not even greet
		g := &gen{rng: r}
		for k := r.n(3); k > 0; k-- {
			o := &Op{K: "raw", Mode: r.pick("stall", "stall", "half", ""), US: g.patience(), Raw: []byte(r.pick("", "\x16", "\x16hel", "\x16hellx", "0\x0c\x02\x01\x01`\x07\x02\x01\x03\x04\x00\x80\x00"))}
			sc.Clients = append(sc.Clients, &Client{IP: "10.9.9.9", TLS: true, Mute: true, Ops: []*Op{o}})
		}
	}
}

// C13
func genRobust(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(1 + g.n(3))
	g.sc.Anon = g.p(0.4)
	g.invalid = 0.15
	g.badCred = 0.1
	g.sc.Metrics = g.p(0.3)
	g.weights(map[string]int{"add": 5, "del": 3, "mod": 5, "ren": 3, "search": 6, "bind": 3, "pw": 3, "ext": 1})
	switch name {
	case "bytes":
		g.clients(1+g.n(2), 5+g.n(8), 0.7)
		if g.p(0.005) {
			g.bottomless()
			break
		}
		g.hostile(1+g.n(3), 4+g.n(8), "", "")
	case "bytesadmin":
		// hostile requests with all rights: the outcome is not predicted
		g.sc.NoLin = true
		g.clients(1, 3+g.n(4), 0)
		g.hostile(1+g.n(3), 6+g.n(10), g.sc.Admin, adminPW)
	case "cut":
		g.clients(2+g.n(4), 10+g.n(20), 0.6)
		for _, c := range g.sc.Clients[1:] {
			for _, o := range c.Ops {
				if g.p(0.3) {
					o.Cut = 1 + g.n(80)
					if g.p(0.5) {
						o.Mode = "rst"
					}
				}
			}
		}
	case "reset":
		g.clients(2+g.n(4), 10+g.n(24), 0.7)
		for _, c := range g.sc.Clients[1:] {
			var l []*Op
			for _, o := range c.Ops {
				if g.p(0.3) {
					o.Pipe = true
				}
				if g.p(0.2) {
					l = append(l, &Op{K: g.pick("resetat", "resetsrv"), N: 1 + g.n(400)})
				}
				l = append(l, o)
				if g.p(0.2) {
					l = append(l, &Op{K: g.pick("abort", "vanish")})
				}
			}
			c.Ops = l
		}
	case "stalled":
		// readers that do not read
		g.clients(1+g.n(2), 6+g.n(10), 0.8)
		g.sc.Net.Window = g.pi(200, 1000, 4096)
		g.stalled(1 + g.n(3))
		g.idle(g.n(2))
	case "accept":
		g.clients(2+g.n(4), 8+g.n(16), 0.7)
		for _, c := range g.sc.Clients {
			var l []*Op
			for _, o := range c.Ops {
				l = append(l, o)
				if g.p(0.4) {
					l = append(l, &Op{K: "close"})
				}
			}
			c.Ops = l
		}
		if g.p(0.08) {
			g.crowd(1+g.n(3), 120)
		}
		for k := 1 + g.n(3); k > 0; k-- {
			g.sc.Events = append(g.sc.Events, &Event{K: "accept", US: int64(g.n(20000)), N: g.n(8)})
		}
		if g.p(0.5) {
			// nothing can be accepted for a while
			g.sc.Events = append(g.sc.Events, &Event{K: "accept", US: int64(g.n(20000)), Wait: int64(1 + g.n(g.pi(100_000, 3_000_000, 8_000_000)))})
		}
	}
	return g.sc
}

// C12
func genProtocol(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(1 + g.n(4))
	if g.p(0.01) {
		g.grow(g.pi(100, 300))
	}
	g.invalid = 0.1
	if g.p(0.5) {
		g.sc.Net.FragP = g.pf(0.3, 0.9)
	}
	g.weights(map[string]int{"add": 5, "del": 3, "mod": 5, "ren": 3, "search": 8, "bind": 2, "pw": 3, "ext": 3})
	g.clients(1+g.n(5), 10+g.n(40), 0.7)
	for _, c := range g.sc.Clients {
		c.Slow = g.p(0.3)
		ids := g.p(0.4)
		var l []*Op
		n := 0
		for _, o := range c.Ops {
			o.Pipe = g.p(0.6)
			if ids {
				n += 1 + g.n(g.pi(3, 300, 1<<24))
				o.N = n
			}
			l = append(l, o)
			if g.p(0.05) {
				l = append(l, &Op{K: g.pick("unbind", "close", "drain")})
			}
		}
		c.Ops = l
	}
	if g.p(0.006) {
		// more than a megabyte on one connection
		c := g.sc.Clients[0]
		for i := 0; i < 20; i++ {
			o := &Op{K: "mod", DN: g.base, Pipe: g.p(0.3), Mods: []Mod{{"rep", "description", []string{strings.Repeat(g.pick("bulk", "mass"), 15000)}}}}
			c.Ops = append(c.Ops, o, &Op{K: "mod", DN: g.base, Mods: []Mod{{"rep", "description", []string{fmt.Sprint(i)}}}})
		}
	}
	if g.p(0.008) {
		// one connection for hours, never idle for long
		c := g.sc.Clients[0]
		for k := g.pi(18, 36); k > 0; k-- {
			c.Ops = append(c.Ops, &Op{K: "sleep", US: 240_000_000}, &Op{K: "search", DN: g.base, Filter: anyFilter})
		}
	}
	return g.sc
}

// C14
func genStop(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(1 + g.n(3))
	g.sc.Metrics = g.p(0.2)
	g.weights(map[string]int{"add": 6, "del": 3, "mod": 6, "ren": 3, "search": 8, "bind": 1, "pw": 3})
	g.clients(1+g.n(5), 8+g.n(30), 0.9)
	for _, c := range g.sc.Clients {
		for _, o := range c.Ops {
			o.Pipe = g.p(0.3)
		}
	}
	for k := 1 + g.n(2); k > 0; k-- {
		ev := &Event{K: "term", US: int64(g.n(g.pi(1000, 10000, 60000))), Wait: int64(g.n(20000)), Src: g.n(4) / 3}
		if g.p(0.3) {
			ev.N = 1 + g.n(2)
		}
		g.sc.Events = append(g.sc.Events, ev)
	}
	if g.p(0.3) {
		g.idle(1 + g.n(2))
	}
	if g.p(0.3) {
		g.stalled(1)
	}
	g.final(0, 1)
	return g.sc
}

var _ = xnet.Cfg{}

func init() {
	profiles["C12"] = []profile{{"protocol", 1, genProtocol}}
	profiles["C13"] = []profile{{"bytes", 3, genRobust}, {"bytesadmin", 3, genRobust}, {"cut", 1, genRobust}, {"reset", 2, genRobust}, {"stalled", 1, genRobust}, {"accept", 1, genRobust}}
	profiles["C14"] = []profile{{"term", 1, genStop}}
}
