package main

import (
	"fmt"
	"hash/fnv"
	"time"

	"github.com/libregraph/idm/cmd/idmd/boltdb"

	"verif.local/simrt/sim"
	"verif.local/simrt/xos"
)

// Programs that are started on a database while a server is using it: load,
// export, and further servers that take over when the first one is gone.

// LoadFile is the input of one load.
type LoadFile struct {
	Ents []InitEnt `json:"ents"`
	Text []byte    `json:"text"`
}

// record puts something into the history that no client asked for.
func (w *world) record(o *Op) *Rec {
	w.seq++
	r := &Rec{ID: len(w.recs), Cl: 90, Op: o, DN: o.DN, Who: w.cfg.admin, Inv: w.seq, Ret: 1 << 61, T0: int64(sim.Elapsed())}
	w.recs = append(w.recs, r)
	return r
}

// running tells whether a program other than p has or waits for the database.
func (w *world) running(p *sim.Proc) bool {
	for _, q := range w.asides {
		if q != p && !q.Dead {
			return true
		}
	}
	return !w.deadNow() || w.restarting || w.standby != nil && !w.standby.p.Dead
}

// aside runs load or export next to the server. If nobody else used the
// database all the time it has to succeed.
func (w *world) aside(ev *Event) {
	io := xos.NewStdio(nil)
	var rec *Rec
	var p *sim.Proc
	shared := w.running(nil)
	starts := w.incs
	switch ev.K {
	case "load":
		l := w.sc.Loads[ev.N]
		in := fmt.Sprintf("/data/load%d.ldif", ev.N)
		w.disk.Put(in, l.Text)
		rec = w.record(&Op{K: "load", Ents: l.Ents})
		p = w.spawn("load", io, boltdb.CommandBoltDB, "load", "--boltdb-file", dbFile, "--input-file", in, "--ldap-base-dn", w.sc.Base, "--log-level", "error")
	case "export":
		rec = w.record(&Op{K: "search", DN: w.sc.Base, Scope: 2, Filter: anyFilter})
		p = w.spawn("export", io, boltdb.CommandBoltDB, "export", "--boltdb-file", dbFile, "--ldap-base-dn", w.sc.Base, "--log-level", "error")
	}
	w.asides = append(w.asides, p)
	w.commands++
	killed := false
	if ev.Wait > 0 {
		if !p.WaitDeath(time.Duration(ev.Wait) * time.Microsecond) {
			sim.Fault("crash.kill")
			killed = true
			p.Kill()
		}
	} else {
		p.WaitDeath(10 * time.Hour)
	}
	w.seq++
	rec.Ret = w.seq
	if p.Crash != "" {
		w.violate("crash", crashKey(p.Crash), ev.K+" crashed: "+firstLines(p.Crash, 14))
		return
	}
	h := fnv.New64a()
	fmt.Fprint(h, ev.K, p.Exited, p.ExitCode)
	h.Write(io.Out)
	w.hist = sim.Mix(w.hist, h.Sum64())
	sim.Logf("%s ended: exit=%v %d", p.Name, p.Exited, p.ExitCode)
	ok := exitedOK(p)
	switch {
	case ev.K == "export" && ok:
		l, err := parseLDIF(string(io.Out))
		if err != nil {
			w.violate("offline", "output", "the export is not valid LDIF: "+cutStr(err.Error()))
			return
		}
		for _, e := range l {
			rec.Ents = append(rec.Ents, REnt{e.DN, e.Attrs})
		}
		rec.Done = true
		sim.Probe("export-ok")
	case ev.K == "export":
		rec.Drop = true
		if !killed && p.Exited && !shared && w.incs == starts+1 && (len(w.sc.Init) > 0 || w.loaded) {
			w.violate("offline", "refused", "export of a database that nobody else used failed: "+firstLines(string(io.Err), 4))
		}
	case ok:
		rec.Done = true
		w.loaded = w.loaded || ev.N == 0
		sim.Probe("load-ok")
	}
}

// alone ends all servers and waits for the other programs, which have no
// reason to wait any longer.
func (w *world) alone() bool {
	w.closing = true
	if l := w.standby; l != nil {
		w.standby = nil
		l.p.Kill()
		if l.p.Crash != "" {
			w.violate("crash", crashKey(l.p.Crash), "waiting server crashed: "+firstLines(l.p.Crash, 14))
			return false
		}
	}
	w.up = false
	w.proc.Kill()
	busy := func() *sim.Proc {
		for _, p := range w.asides {
			if !p.Dead {
				return p
			}
		}
		return nil
	}
	if !settle(300*time.Second, func() bool { return busy() == nil }) {
		w.violate("hang", "aside", fmt.Sprintf("%s has not ended 300 s after the last server", busy().Name))
		return false
	}
	sim.Sleep(time.Millisecond)
	w.aside(&Event{K: "export"})
	return len(w.viols) == 0 && w.mustStart("start after everything else has ended")
}

// C21
func genShared(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(1 + g.n(3))
	g.invalid = 0.02
	g.weights(map[string]int{"add": 7, "del": 4, "mod": 5, "ren": 3, "search": 4, "pw": 2, "bind": 1, "sleep": 6})
	g.clients(1+g.n(3), 8+g.n(26), 0.9)
	sc := g.sc
	span := g.pi(5_000, 60_000, 300_000)
	at := func() int64 { return int64(g.n(span)) }
	for k := 1 + g.n(3); k > 0; k-- {
		l := LoadFile{}
		for n := 1 + g.n(5); n > 0; n-- {
			dn := fmt.Sprintf("uid=l%d,ou=people,%s", g.n(9), g.base)
			if g.p(0.3) {
				dn = g.names[g.n(len(g.names))]
			}
			dup := false
			for _, e := range l.Ents {
				dup = dup || normKey(e.DN) == normKey(dn)
			}
			if !dup {
				l.Ents = append(l.Ents, InitEnt{dn, g.entryAttrs(dn)})
			}
		}
		l.Text = []byte(g.ldifText(l.Ents, false, nil))
		sc.Loads = append(sc.Loads, l)
	}
	add := func(k string, n int, p float64) {
		ev := &Event{K: k, US: at(), N: n}
		if g.p(p) {
			ev.Wait = 1 + int64(g.n(g.pi(300, 5_000, 100_000)))
		}
		sc.Events = append(sc.Events, ev)
	}
	for i := range sc.Loads {
		add("load", i, 0.2)
	}
	for k := g.n(3); k > 0; k-- {
		add("export", 0, 0.2)
	}
	for k := g.n(3); k > 0; k-- {
		add("standby", 0, 0)
	}
	for k := g.n(4); k > 0; k-- {
		ev := &Event{K: g.pick("kill", "powerloss", "term"), US: at(), Wait: int64(g.n(g.pi(100, 20_000, 200_000)))}
		if ev.K != "term" && g.p(0.3) {
			ev.US, ev.Op = 0, 1+g.n(60)
		}
		sc.Events = append(sc.Events, ev)
	}
	g.trouble(0.2)
	if g.p(0.12) {
		// nothing there yet, the first load brings everything
		sc.Loads[0].Ents = sc.Init
		sc.Loads[0].Text = []byte(g.ldifText(sc.Init, false, nil))
		sc.Init = nil
		ts := []*Trouble{sc.First}
		for _, ev := range sc.Events {
			if ev.K == "powerloss" {
				ev.K = "kill"
			}
			ts = append(ts, ev.Trouble)
		}
		for _, t := range ts {
			// a database that was not written completely when it was
			// created is of no use to anybody
			if t != nil {
				t.Power, t.Disk.WriteErr, t.Disk.ShortWr, t.Disk.NoSpace, t.Disk.TruncErr = false, 0, 0, 0, 0
			}
		}
	}
	return sc
}

func init() {
	profiles["C21"] = []profile{{"shared", 1, genShared}}
}
