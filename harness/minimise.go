package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"verif.local/simrt/sim"
	"verif.local/simrt/xnet"
	"verif.local/simrt/xos"
)

// Minimisation: first the scenario (clients, requests, events, fault rates),
// retrying a few seeds for every candidate; then the recorded decisions.

type minimiser struct {
	key   string
	end   time.Time
	sc    *Scenario
	seed  uint64
	trace []sim.Choice
	rp    bool
	runs  int
}

func cloneSc(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	n := &Scenario{}
	json.Unmarshal(b, n)
	return n
}

func (m *minimiser) hits(o *Outcome) bool {
	if o.Error != "" {
		return false
	}
	for _, v := range o.Viols {
		if v.Key == m.key {
			return true
		}
	}
	return false
}

// try adopts a candidate scenario if it still shows the violation.
func (m *minimiser) try(sc *Scenario, tries int) bool {
	for i := 0; i < tries && time.Now().Before(m.end); i++ {
		seed := m.seed
		if i > 0 {
			seed = sim.Mix(m.seed, uint64(i))
		}
		m.runs++
		if o := execute(sc, seed, nil, false, false); m.hits(o) {
			m.sc, m.seed, m.trace = sc, seed, o.Res.Trace
			return true
		}
	}
	return false
}

func (m *minimiser) scenario() {
	for changed := true; changed && time.Now().Before(m.end); {
		changed = false
		for i := len(m.sc.Clients) - 1; i >= 0 && len(m.sc.Clients) > 1; i-- {
			c := cloneSc(m.sc)
			c.Clients = append(c.Clients[:i:i], c.Clients[i+1:]...)
			if m.try(c, 4) {
				changed = true
			}
		}
		for i := len(m.sc.Events) - 1; i >= 0; i-- {
			c := cloneSc(m.sc)
			c.Events = append(c.Events[:i:i], c.Events[i+1:]...)
			if m.try(c, 3) {
				changed = true
			}
		}
		for ci := range m.sc.Clients {
			for size := (len(m.sc.Clients[ci].Ops) + 1) / 2; size >= 1; size /= 2 {
				for i := len(m.sc.Clients[ci].Ops) - size; i >= 0; {
					c := cloneSc(m.sc)
					ops := c.Clients[ci].Ops
					c.Clients[ci].Ops = append(ops[:i:i], ops[i+size:]...)
					if m.try(c, 4) {
						changed = true
					}
					i -= size
					if n := len(m.sc.Clients[ci].Ops) - size; i > n {
						i = n
					}
				}
			}
		}
		for _, f := range []func(*Scenario) bool{
			func(s *Scenario) bool { r := s.Disk != (xos.Faults{}); s.Disk = xos.Faults{}; return r },
			func(s *Scenario) bool {
				n := xnet.Cfg{LatMaxUS: s.Net.LatMaxUS, Window: 65536}
				r := s.Net != n
				s.Net = n
				return r
			},
			func(s *Scenario) bool { r := s.Params.StallP != 0; s.Params.StallP = 0; return r },
			func(s *Scenario) bool {
				r := s.Params.HotShare+s.Params.HotTear != 0
				s.Params.HotShare, s.Params.HotTear = 0, 0
				return r
			},
			func(s *Scenario) bool { r := s.Params.PreemptMean != 0; s.Params.PreemptMean = 0; return r },
			func(s *Scenario) bool { r := s.Params.SyncP != 0; s.Params.SyncP = 0; return r },
			func(s *Scenario) bool { r := s.Params.Strategy != 1; s.Params.Strategy = 1; return r },
			func(s *Scenario) bool { r := s.Debug; s.Debug = false; return r },
			func(s *Scenario) bool { r := s.Metrics; s.Metrics = false; return r },
		} {
			c := cloneSc(m.sc)
			if f(c) && m.try(c, 4) {
				changed = true
			}
		}
		for i := len(m.sc.Init) - 1; i > 0; i-- {
			c := cloneSc(m.sc)
			k := newDir(c.Init)
			e := newEntry(c.Init[i].DN, nil)
			if k.hasKids(e.key) || e.pkey == normKey("ou=sys,"+c.Base) {
				continue
			}
			c.Init = append(c.Init[:i:i], c.Init[i+1:]...)
			if m.try(c, 2) {
				changed = true
			}
		}
	}
}

// decisions drops recorded decisions while the violation stays.
func (m *minimiser) decisions() bool {
	test := func(t []sim.Choice) bool {
		m.runs++
		return m.hits(execute(m.sc, m.seed, t, true, false))
	}
	if !test(m.trace) {
		return false
	}
	m.rp = true
	cur := m.trace
	if test(nil) {
		m.trace = nil
		return true
	}
	for n := 2; len(cur) > 1 && n <= len(cur)*2 && time.Now().Before(m.end); {
		size := (len(cur) + n - 1) / n
		hit := false
		for i := 0; i < len(cur) && time.Now().Before(m.end); i += size {
			j := i + size
			if j > len(cur) {
				j = len(cur)
			}
			c := append(append([]sim.Choice(nil), cur[:i]...), cur[j:]...)
			if test(c) {
				cur, hit = c, true
				i -= size
			}
		}
		if size == 1 && !hit {
			break
		}
		if !hit || size > 1 {
			n *= 2
			if n > len(cur) {
				n = len(cur)
			}
		}
		if size == 1 {
			break
		}
	}
	m.trace = cur
	return true
}

func minimiseCmd(args []string) int {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	secs := fs.Float64("secs", 40, "")
	fs.Parse(args)
	r, err := readReplay(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o := execute(r.Scenario, r.Seed, nil, false, false)
	m := &minimiser{key: r.Violation.Key, sc: r.Scenario, seed: r.Seed, trace: o.Res.Trace, end: time.Now().Add(time.Duration(*secs * 0.7 * float64(time.Second)))}
	if !m.hits(o) {
		fmt.Fprintln(os.Stderr, "not reproduced")
		return 2
	}
	m.scenario()
	m.end = time.Now().Add(time.Duration(*secs * 0.3 * float64(time.Second)))
	if !m.decisions() {
		m.trace = nil
	}
	o = execute(m.sc, m.seed, m.trace, m.rp, true)
	if !m.hits(o) {
		fmt.Fprintln(os.Stderr, "minimised run does not show the violation")
		return 2
	}
	r.All = nil
	for _, v := range o.Viols {
		if v.Key == m.key && len(r.All) == 0 {
			r.Violation = v
		}
		r.All = append(r.All, v.Key+" "+v.Msg)
	}
	r.Scenario, r.Seed, r.Trace, r.Replayed, r.Minimised = m.sc, m.seed, m.trace, m.rp, true
	r.LogHash = fmt.Sprintf("%016x", o.Res.LogHash)
	r.Log = o.Res.Log
	if len(r.Log) > 400 {
		r.Log = r.Log[len(r.Log)-400:]
	}
	if err := writeJSON(*out, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}
