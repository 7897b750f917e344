package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/libregraph/idm/server"

	"verif.local/simrt/sim"
	"verif.local/simrt/xnet"
	"verif.local/simrt/xos"
)

// Starts of the server that meet all kinds of trouble: unusable options,
// missing files, occupied addresses, disk errors and signals.

const (
	startBound = 120 * time.Second
	otherFile  = "/data/other.db"
)

// spoil changes the configuration to what the attempt says, and returns the
// log level.
func (w *world) spoil(c *server.Config) string {
	switch w.attempt.Wrong {
	case "handler":
		c.LDAPHandler = "nosuch"
	case "base":
		c.LDAPBaseDN = "nonsense"
	case "admin":
		c.LDAPAdminDN = "uid=admin,,"
	case "ldif":
		c.LDIFMain = "/data/missing.ldif"
	case "config":
		c.LDIFConfig = "/data/missing.ldif"
	case "cert":
		c.TLSCertFile = "/etc/missing.pem"
	case "key":
		c.TLSKeyFile = "/etc/missing.pem"
	case "emptycert":
		w.disk.Put(c.TLSCertFile, nil)
	case "nocert":
		c.TLSCertFile, c.TLSKeyFile = "", ""
	case "dir":
		c.BoltDBFile = "/missing/idm.db"
	case "garbage":
		c.BoltDBFile = otherFile
	case "address":
		if c.LDAPListenAddr != "" {
			c.LDAPListenAddr = ":port"
		} else {
			c.LDAPSListenAddr = "636"
		}
	case "level":
		return "nosuch"
	}
	return "error"
}

// mine counts the addresses the server process listens on.
func (w *world) mine() int {
	n := 0
	for _, p := range w.ports() {
		if xnet.ListenedBy(p) == w.proc {
			n++
		}
	}
	return n
}

// probe asks for everything as soon as somebody answers.
func (w *world) probe(n int, over *bool) {
	st := sim.GetStream(fmt.Sprintf("probe%d", n))
	spec := w.auditor()
	spec.TLS = n%2 == 1
	for p, k := w.proc, 0; k < 4 && !*over && !p.Dead && !w.over; {
		c := &client{w: w, n: 50 + n, spec: spec, pages: map[int]*pageState{}, early: true}
		c.audit()
		if c.connID > 0 {
			k++
		}
		c.hangup()
		sim.Sleep(time.Duration(1+st.Choose(20000)) * time.Microsecond)
	}
}

// begin starts the server once, as the attempt says.
func (w *world) begin(t *Attempt) {
	w.attempt = t
	var squat *sim.Proc
	if t.Taken != 0 {
		squat = sim.NewProc("squatter")
		ready := false
		sim.GoIn("squatter", squat, func() {
			for i, p := range w.ports() {
				if t.Taken>>i&1 != 0 {
					sim.Fault("net.addrinuse")
					if _, err := xnet.Listen("tcp", fmt.Sprintf(":%d", p)); err != nil {
						panic(err)
					}
				}
			}
			ready = true
			sim.Sleep(1 << 50)
		})
		settle(time.Minute, func() bool { return ready })
	}
	inj, served := w.disk.Injected, false
	w.disk.F, w.disk.On = t.Disk, true
	l := w.launch()
	p := l.p
	w.inc, w.proc, w.up = l.inc, p, false
	w.startErr, w.served, w.serveErr, w.srv = nil, false, nil, nil
	w.stopping, w.expected = false, false
	over, signalled := false, false
	for i := range w.ports() {
		i := i
		if w.sc.TLS > 1 {
			i = 1
		}
		sim.GoIn(fmt.Sprintf("probe%d", i), nil, func() { w.probe(i, &over) })
	}
	if t.Sig > 0 {
		sim.GoIn("signal", nil, func() {
			sim.Sleep(time.Duration(t.At) * time.Microsecond)
			if over || p.Dead {
				return
			}
			sim.Fault("signal.start")
			signalled = true
			switch {
			case !deliver(p, []os.Signal{term, hup, intr}[t.Sig-1]):
				p.Kill() // nobody handles it yet
			case t.Sig != 2:
				w.stopping = true
			}
		})
	}
	if squat != nil && t.Free > 0 {
		sim.GoIn("free", nil, func() {
			sim.Sleep(time.Duration(t.Free) * time.Microsecond)
			squat.Kill()
		})
	}
	end := sim.Elapsed() + startBound + time.Duration(t.Free)*time.Microsecond
	for !p.Dead && !w.stopping && sim.Elapsed() < end && !(w.mine() == len(w.ports())) {
		sim.Sleep(10 * time.Millisecond)
	}
	if !p.Dead && !w.stopping && w.mine() == len(w.ports()) {
		// it may still find out about something
		sim.Sleep(time.Second)
	}
	w.disk.On = false
	trouble := t.Taken != 0 || t.Wrong != "" || w.disk.Injected != inj || signalled
	what := fmt.Sprintf("start with %s", w.circumstances(t, w.disk.Injected-inj, signalled))
	switch {
	case p.Dead && p.Crash != "":
		w.violate("crash", crashKey(p.Crash), what+": server crashed: "+firstLines(p.Crash, 12))
	case p.Dead && !signalled && (w.sc.Cmd && p.Exited && p.ExitCode == 0 || !w.sc.Cmd && l.served && l.serveErr == nil):
		w.violate("start", "success", what+": ended with success although nobody asked for it")
	case p.Dead && !trouble:
		w.violate("start", "refused", fmt.Sprintf("%s: server did not start: %v %v", what, l.startErr, l.serveErr))
	case p.Dead:
	case w.stopping:
		if !p.WaitDeath(stopBound) {
			w.violate("stop", "", fmt.Sprintf("%s: still running %v after the signal; tasks: %v", what, stopBound, p.LiveTasks()))
		}
	case w.mine() == 0:
		w.violate("start", "hang", fmt.Sprintf("%s: neither listening nor ended after %v; tasks: %v", what, startBound, p.LiveTasks()))
	case w.mine() < len(w.ports()):
		w.violate("start", "partial", fmt.Sprintf("%s: running with %d of %d listeners after %v", what, w.mine(), len(w.ports()), startBound))
	case t.Wrong != "":
		w.violate("start", "wrong", what+": running")
	default:
		served = true
	}
	if served && len(w.viols) == 0 {
		w.count("starts_ok")
		w.up = true
		w.conns, w.srv = nil, l.srv
		w.audits()
		w.checkAlive()
		if !t.Kill && len(w.viols) == 0 && !p.Dead {
			w.stopping = true
			if !deliver(p, term) {
				w.violate("start", "signal", what+": serving for seconds, but no handler for the termination signal")
			} else if !p.WaitDeath(stopBound) {
				w.violate("stop", "", fmt.Sprintf("server still running %v after the termination signal; tasks: %v", stopBound, p.LiveTasks()))
			}
		}
	} else {
		w.count("starts_failed")
	}
	over = true
	w.stopping = true
	w.up = false
	p.Kill()
	if squat != nil {
		squat.Kill()
	}
	sim.Sleep(time.Second) // lets the probes end
	w.attempt = nil
}

// audits looks at the directory through every listener.
func (w *world) audits() {
	for i := range w.ports() {
		spec := w.auditor()
		spec.TLS = i == 1
		c := &client{w: w, n: 100 + 2*w.inc + i, spec: spec, pages: map[int]*pageState{}}
		c.audit()
		c.hangup()
	}
}

func (w *world) circumstances(t *Attempt, inj int, signalled bool) string {
	var l []string
	if t.Wrong != "" {
		l = append(l, "unusable "+t.Wrong)
	}
	if t.Taken != 0 {
		l = append(l, "an occupied address")
	}
	if inj > 0 {
		l = append(l, "disk errors")
	}
	if signalled {
		l = append(l, "a signal")
	}
	if l == nil {
		return "no trouble"
	}
	return strings.Join(l, ", ")
}

func runStarts(w *world) {
	sc := w.sc
	w.disk.Match = func(p string) bool { return strings.HasPrefix(p, "/data/") || strings.HasPrefix(p, "/etc/") }
	if sc.World == "ldif" {
		w.setupLDIF()
		w.install(0)
		w.ldif.tries = append(w.ldif.tries, &attempt{s: w.tick(), q: w.tick()})
	} else {
		w.disk.Put(dbFile, dbImage(sc))
	}
	for _, t := range append(sc.Starts, &Attempt{}) {
		if t.Wrong == "garbage" {
			w.disk.Put(otherFile, t.Bytes)
		}
		w.begin(t)
		if len(w.viols) > 0 {
			return
		}
		if t.Wrong == "garbage" {
			if b, ok := w.disk.Get(otherFile); !ok || !bytes.Equal(b, t.Bytes) {
				w.violate("start", "overwritten", "a file that is no database has been changed by the start")
				return
			}
		}
	}
	w.over = true
	w.finish()
	for _, r := range w.recs {
		if r.Term && r.Code != 0 && len(r.Ents) == 0 {
			r.Drop = true // on its way down
		}
	}
	if sc.World == "ldif" {
		w.checkLDIF()
	} else {
		w.linCheck(newDir(sc.Init))
	}
}

// C22
func genStarts(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	sc := g.sc
	if name == "ldif" {
		g.ldifSources(1, 1+g.n(6), 0)
	} else {
		g.initTree(1 + g.n(4))
		if g.p(0.05) {
			g.grow(100)
		}
	}
	sc.Clients = nil
	sc.TLS = g.pi(0, 0, 1, 1, 1, 2)
	sc.Cmd = g.p(0.5)
	sc.CmdEnv = sc.Cmd && g.p(0.4)
	sc.Anon = g.p(0.3)
	wrong := []string{"handler", "base", "admin", "address"}
	if name == "ldif" {
		wrong = append(wrong, "ldif", "config")
	} else {
		wrong = append(wrong, "dir", "garbage")
	}
	if sc.TLS > 0 {
		wrong = append(wrong, "cert", "key", "emptycert", "nocert")
	}
	if sc.Cmd {
		wrong = append(wrong, "level")
	}
	for k := 1 + g.n(4); k > 0; k-- {
		t := &Attempt{Kill: g.p(0.5)}
		sc.Starts = append(sc.Starts, t)
		if g.p(0.3) {
			t.Wrong = wrong[g.n(len(wrong))]
			if t.Wrong == "garbage" {
				t.Bytes = make([]byte, 1+g.n(g.pi(100, 5000, 30000)))
				for i := range t.Bytes {
					t.Bytes[i] = byte(g.n(256))
				}
			}
		}
		if g.p(0.3) {
			t.Taken = g.pi(1, 2, 3)
			if sc.TLS != 1 {
				t.Taken = 1
			}
			if g.p(0.4) {
				t.Free = int64(1 + g.n(g.pi(2000, 200000, 5000000)))
			}
		}
		if g.p(0.4) {
			f := xos.Faults{}
			for _, x := range []*float64{&f.OpenErr, &f.ReadErr, &f.MmapErr, &f.StatErr, &f.WriteErr, &f.SyncErr, &f.NoSpace, &f.ShortWr} {
				if g.p(0.3) {
					*x = g.pf(0.02, 0.1, 0.4)
				}
			}
			t.Disk = f
		}
		if g.p(0.4) {
			t.Disk.ShortRead, t.Disk.SlowOp = g.pf(0, 0.3), g.pf(0, 0.1)
		}
		if g.p(0.2) {
			t.Sig, t.At = 1+g.n(3), int64(1+g.n(g.pi(300, 3000, 30000)))
		}
	}
	return sc
}

func init() {
	profiles["C22"] = []profile{{"boltdb", 1, genStarts}, {"ldif", 1, genStarts}}
}
