package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"verif.local/simrt/sim"
	"verif.local/simrt/xnet"
)

// statsState is what the harness knows about the connections and requests of
// a run, for the comparison with the statistics of the server.
type statsState struct {
	conns    []*connInfo
	unbinds  []*span
	waiting  int
	running  int
	gen      int
	busy     bool
	maxLow   float64 // connections that were certainly open at the same time
	maxHigh  float64 // connections that can have been open at the same time
	seenMax  float64 // highest current value ever reported
	dialBase int     // connections dialed up to the last quiet moment
	openBase int     // connections open at the last quiet moment
	quiet    int
	scrapes  int
}

type span struct{ inv, ret int64 }

type connInfo struct {
	c  *xnet.SimConn
	id int
}

type reading struct {
	s, e int64 // sequence numbers around it
	v    map[string]float64
}

var fqName = regexp.MustCompile(`fqName: "ldapserver_([a-z_]+)"`)

var statMetrics = []string{"connections_total", "connections_current", "connections_max", "binds_total", "unbinds_total", "searches_total"}

var statFields = map[string]string{
	"Conns": "connections_total", "ConnsCurrent": "connections_current", "ConnsMax": "connections_max",
	"Adds": "adds_total", "Binds": "binds_total", "Deletes": "deletes_total", "ModifyDNs": "modifydns_total",
	"Modifies": "modifies_total", "Unbinds": "unbinds_total", "Searches": "searches_total",
}

var statKinds = map[string]string{"add": "adds_total", "bind": "binds_total", "del": "deletes_total", "ren": "modifydns_total", "mod": "modifies_total", "search": "searches_total", "page": "searches_total"}

// scrape reads the statistics both as metrics and as snapshot.
func (w *world) scrape() (l []*reading) {
	if w.reg == nil || w.srv == nil || w.deadNow() {
		return
	}
	m := &reading{v: map[string]float64{}}
	t0 := sim.Elapsed()
	w.seq++
	m.s = w.seq
	for _, c := range w.reg.cs {
		ch := make(chan prometheus.Metric, 1000)
		c.Collect(ch)
		close(ch)
		for x := range ch {
			var d dto.Metric
			if x.Write(&d) != nil {
				continue
			}
			n := fqName.FindStringSubmatch(x.Desc().String())
			if n == nil {
				continue
			}
			switch {
			case d.Counter != nil:
				m.v[n[1]] = d.Counter.GetValue()
			case d.Gauge != nil:
				m.v[n[1]] = d.Gauge.GetValue()
			case d.Untyped != nil:
				m.v[n[1]] = d.Untyped.GetValue()
			}
		}
	}
	w.seq++
	m.e = w.seq
	if len(m.v) > 0 {
		l = append(l, m)
		for _, k := range statMetrics {
			if _, ok := m.v[k]; !ok {
				w.violate("stats", "missing", fmt.Sprintf("%s is not reported although metrics are enabled", k))
			}
		}
	}
	if w.srv.LDAPServer != nil {
		if f := reflect.ValueOf(w.srv.LDAPServer).MethodByName("GetStats"); f.IsValid() && f.Type().NumIn() == 0 && f.Type().NumOut() == 1 {
			s := &reading{v: map[string]float64{}, s: w.seq}
			r := f.Call(nil)[0]
			if r.Kind() == reflect.Pointer {
				r = r.Elem()
			}
			if r.Kind() == reflect.Struct {
				for i := 0; i < r.NumField(); i++ {
					if n, ok := statFields[r.Type().Field(i).Name]; ok && r.Field(i).CanUint() {
						s.v[n] = float64(r.Field(i).Uint())
					}
				}
			}
			w.seq++
			s.e = w.seq
			if len(s.v) > 0 {
				l = append(l, s)
			}
		}
	}
	w.stat.scrapes++
	if len(l) == 0 {
		w.violate("stats", "missing", "no statistics although metrics are enabled")
	}
	if d := sim.Elapsed() - t0; d > 60*time.Second {
		w.violate("stats", "blocked", fmt.Sprintf("reading the statistics took %v", d))
	}
	for _, r := range l {
		if v, ok := r.v["connections_current"]; ok && v > w.stat.seenMax {
			w.stat.seenMax = v
		}
	}
	return l
}

// scraper reads the statistics while requests are being served.
func (w *world) scraper(n int) {
	st := sim.GetStream("scraper")
	for i := 0; i < n && !w.over; i++ {
		sim.Sleep(time.Duration(1+st.Choose(4000)) * time.Microsecond)
		if !w.up || w.stopping {
			continue
		}
		for _, r := range w.scrape() {
			w.compare(r, false)
		}
	}
}

// compare holds one reading against what the clients did.
func (w *world) compare(r *reading, quiet bool) {
	low, high := map[string]float64{}, map[string]float64{}
	ans := map[int]bool{}
	for _, q := range w.recs {
		k, ok := statKinds[q.Op.K]
		if q.Done && q.Ret < r.s {
			ans[q.Conn] = true
			if ok {
				low[k]++
			}
		}
		if ok && q.Inv > 0 && q.Inv < r.e && !q.Drop {
			high[k]++
		}
	}
	for _, u := range w.stat.unbinds {
		if u.ret > 0 && u.ret < r.s {
			low["unbinds_total"]++
		}
		if u.inv < r.e {
			high["unbinds_total"]++
		}
	}
	for _, c := range w.stat.conns {
		sure := ans[c.id] || quiet && w.acceptFaulted == 0 && !c.c.Closed() && !c.c.Broken
		high["connections_total"]++
		if sure {
			low["connections_total"]++
		}
		if quiet && !c.c.Peer().Closed() {
			high["connections_current"]++
			if sure {
				low["connections_current"]++
			}
		}
	}
	if quiet {
		n := high["connections_current"]
		if low["connections_current"] > w.stat.maxLow {
			w.stat.maxLow = low["connections_current"]
		}
		if h := float64(w.stat.openBase + len(w.stat.conns) - w.stat.dialBase); h > w.stat.maxHigh {
			w.stat.maxHigh = h
		}
		low["connections_max"], high["connections_max"] = w.stat.maxLow, w.stat.maxHigh
		if w.stat.seenMax > low["connections_max"] {
			low["connections_max"] = w.stat.seenMax
		}
		w.stat.openBase, w.stat.dialBase = int(n), len(w.stat.conns)
	} else {
		high["connections_current"] = high["connections_total"]
		high["connections_max"] = high["connections_total"]
	}
	var ks []string
	for k := range r.v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if v := r.v[k]; v < low[k] || v > high[k] {
			at := "while requests were served"
			if quiet {
				at = "at a quiet moment"
			}
			w.violate("stats", k, fmt.Sprintf("%s reported as %v %s, but it is between %v and %v", k, v, at, low[k], high[k]))
		}
	}
}

// barrier waits until no client has anything going on, and compares then.
func (c *client) barrier() {
	w := c.w
	c.drain()
	s := &w.stat
	s.waiting++
	gen := s.gen
	for s.gen == gen && !w.over {
		if s.waiting == s.running && !s.busy {
			s.busy = true
			w.quietCheck()
			s.busy = false
			s.waiting = 0
			s.gen++
			return
		}
		sim.Sleep(500 * time.Microsecond)
	}
}

func (w *world) quietCheck() {
	ok := settle(releaseBound, func() bool {
		if w.deadNow() {
			return true
		}
		for _, c := range w.stat.conns {
			if (c.c.Closed() || c.c.Broken) && !c.c.Peer().Closed() {
				return false
			}
		}
		return w.proc.Idle()
	})
	if w.deadNow() || w.stopping || w.inc > 1 {
		return
	}
	if !ok {
		w.violate("release", "", fmt.Sprintf("a connection that the client has left is still open after %v", releaseBound))
		return
	}
	sim.Sleep(time.Second)
	w.stat.quiet++
	for _, r := range w.scrape() {
		w.compare(r, true)
	}
}

// C15
func genStats(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(1 + g.n(3))
	g.sc.NoLin = true
	g.sc.Anon = g.p(0.3)
	g.invalid = 0.1
	g.badCred = 0.15
	g.weights(map[string]int{"add": 5, "del": 3, "mod": 5, "ren": 3, "search": 6, "bind": 4, "pw": 2, "ext": 1})
	g.clients(2+g.n(5), 10+g.n(40), 0.7)
	g.statsClients(name)
	if name == "rough" {
		if g.p(0.2) {
			g.sc.Events = append(g.sc.Events, &Event{K: "accept", US: int64(g.n(20000)), Wait: int64(1 + g.n(g.pi(100_000, 3_000_000)))})
		}
		for k := g.n(3); k > 0; k-- {
			g.sc.Events = append(g.sc.Events, &Event{K: "accept", US: int64(g.n(20000)), N: g.n(8)})
		}
	}
	return g.sc
}

// statsClients makes the clients come and go, and meet at quiet moments.
func (g *gen) statsClients(name string) {
	g.sc.Metrics = true
	g.sc.Scrapes = g.pi(0, 5, 40, 200)
	phases := 1 + g.n(4)
	for _, c := range g.sc.Clients {
		c.Lazy = g.p(0.3)
		var l []*Op
		n := len(c.Ops)
		k := 0
		for i, o := range c.Ops {
			for k < phases-1 && i >= (k+1)*n/phases {
				l = append(l, &Op{K: "barrier"})
				k++
			}
			o.Pipe = o.K != "page" && g.p(0.25)
			l = append(l, o)
			switch name {
			case "churn":
				if g.p(0.45) {
					l = append(l, &Op{K: g.pick("close", "close", "unbind")})
				}
				if g.p(0.1) {
					l = append(l, &Op{K: "barrier"})
				}
			case "rough":
				if g.p(0.1) {
					o.Cut = 1 + g.n(80)
					if g.p(0.5) {
						o.Mode = "rst"
					}
				}
				if g.p(0.12) {
					l = append(l, g.strange())
				}
				if g.p(0.25) {
					l = append(l, &Op{K: g.pick("abort", "vanish", "close", "unbind", "resetat", "resetsrv"), N: 1 + g.n(400)})
				}
			default:
				if g.p(0.06) {
					l = append(l, g.strange())
				}
				if g.p(0.12) {
					l = append(l, &Op{K: g.pick("close", "unbind")})
				}
			}
		}
		c.Ops = append(l, &Op{K: "barrier"})
	}
}

// strange is something to send that is none of the counted operations.
func (g *gen) strange() *Op {
	o := &Op{K: "raw", Mode: g.pick("", "", "half", "close")}
	id := int64(1000 + g.n(100))
	switch g.n(8) {
	case 0, 1:
		// compare
		o.Raw = message(id, tlv(0x6e, berStr(g.base), berSeq(berStr("dc"), berStr("x"))), nil)
	case 2:
		// an operation there is not
		o.Raw = message(id, tlv(byte(g.pi(0x7f, 0x6f, 0x75, 0x5a)), berStr("x")), nil)
	case 3:
		// an answer
		o.Raw = message(id, tlv(byte(g.pi(0x61, 0x65, 0x64, 0x78)), berInt(0x0a, 0), berStr(""), berStr("")), nil)
	case 4:
		// the beginning of a message
		b := message(id, tlv(0x63, berStr(g.base)), nil)
		o.Raw = b[:1+g.n(8)]
		o.Mode = g.pick("half", "close")
	case 5:
		o.Raw = []byte(g.pick("\x00", "GET / HTTP/1.0\r\n\r\n", "\xff\xff\xff\xff", "0\x00", "0\x03\x02\x01\x01", "0\x80", "\x16\x03\x01\x00\x05hello"))
	case 6:
		// without a number, with a wrong one, without anything else
		o.Raw = tlv(0x30, []byte(g.pick("", "\x04\x01a", "\x02\x01\x01", "\x02\x01\x01\x02\x01\x01")))
	default:
		// extended, of an unknown kind
		o.Raw = message(id, tlv(0x77, tlv(0x80, []byte("1.2.3.4"))), nil)
	}
	return o
}

func init() {
	profiles["C15"] = []profile{{"stats", 2, genStats}, {"churn", 3, genStats}, {"rough", 1, genStats}, {"ldif", 2, genLDIF}}
}
