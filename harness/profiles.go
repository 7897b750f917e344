package main

import (
	"strings"

	"verif.local/simrt/xos"
)

type profile struct {
	name string
	w    int
	gen  func(prop, name string, seed uint64) *Scenario
}

func (g *gen) ip() string {
	if g.p(0.2) {
		return g.pick("127.8.9.1", "::ffff:127.0.0.1", "172.0.0.1", "12.7.0.0", "fe80::1", "2001:db8::1", "::ffff:10.0.0.1", "0.0.0.0")
	}
	return g.pick("127.0.0.1", "10.1.2.3", "::1")
}

// clients spreads requests over n clients.
func (g *gen) clients(n, ops int, adminShare float64) {
	for i := 0; i < n; i++ {
		c := &Client{IP: g.ip()}
		switch {
		case g.p(adminShare) || i == 0 && adminShare > 0:
			c.DN, c.PW = g.sc.Admin, adminPW
		case g.p(0.8) && len(g.users) > 0:
			who := g.users[g.n(len(g.users))]
			c.DN, c.PW = who, g.pwOf[normKey(who)]
		}
		g.sc.Clients = append(g.sc.Clients, c)
	}
	// requests are generated in the order of their likely execution so that
	// the prediction of the directory state is roughly right
	for k := 0; k < ops; k++ {
		c := g.sc.Clients[g.n(n)]
		c.Ops = append(c.Ops, g.op(c.DN))
	}
}

// churn makes clients give up connections, and sometimes not identify
// themselves on the next one.
func (g *gen) churn(p float64) {
	for _, c := range g.sc.Clients {
		c.Lazy = g.p(0.3)
		var l []*Op
		for _, o := range c.Ops {
			if g.p(p) {
				l = append(l, &Op{K: g.pick("abort", "vanish", "close", "unbind")})
			}
			l = append(l, o)
		}
		c.Ops = l
	}
}

func (g *gen) crashes(n int, kinds ...string) {
	for i := 0; i < n; i++ {
		ev := &Event{K: g.pick(kinds...), Wait: int64(g.n(50000))}
		if g.p(0.75) {
			ev.Op = 1 + g.n(g.pi(20, 60, 150))
		} else {
			ev.US = int64(g.n(g.pi(3000, 40000)))
		}
		g.sc.Events = append(g.sc.Events, ev)
	}
}

// trouble makes some of the restarts difficult.
func (g *gen) trouble(prob float64) {
	one := func(power bool) *Trouble {
		if !g.p(prob) {
			return nil
		}
		t := &Trouble{N: 1 + g.n(3)}
		if g.p(0.7) {
			r := func() float64 { return g.pf(0, 0, 0, 0.1, 0.5) }
			t.Disk = xos.Faults{OpenErr: r(), ReadErr: r(), StatErr: r(), MmapErr: r(), WriteErr: r(), SyncErr: r(), ShortWr: r(), NoSpace: r(), TruncErr: r()}
		}
		if g.p(0.5) {
			t.Cut, t.Power = int64(g.n(g.pi(50, 500, 5000))), power && g.p(0.5)
		} else if g.p(0.7) {
			t.CutOp, t.Power = 1+g.n(g.pi(6, 20, 60, 200)), power && g.p(0.6)
			if g.p(0.6) {
				t.Disk = xos.Faults{}
			}
		}
		return t
	}
	g.sc.First = one(len(g.sc.Init) > 0)
	for _, ev := range g.sc.Events {
		switch ev.K {
		case "kill", "powerloss", "term":
			ev.Trouble = one(true)
		}
	}
}

func (g *gen) final(kinds ...int) {
	g.sc.Events = append(g.sc.Events, &Event{K: "final", N: kinds[g.n(len(kinds))]})
}

// C01
func genDurable(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(1 + g.n(3))
	g.invalid = 0.02
	g.weights(map[string]int{"add": 7, "del": 4, "mod": 5, "ren": 3, "search": 2, "pw": 3, "bind": 1})
	g.clients(1+g.n(3), 8+g.n(26), 0.9)
	switch name {
	case "kill":
		g.crashes(1+g.n(3), "kill")
		g.final(0)
	case "powerloss":
		g.crashes(1+g.n(3), "powerloss", "powerloss", "kill")
		g.final(1)
	default:
		g.final(0, 1, 1)
	}
	if g.p(0.2) {
		g.sc.Disk = xos.Faults{SlowOp: g.pf(0.05, 0.3)}
	}
	g.trouble(0.3)
	return g.sc
}

// C02
func genAtomic(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(1 + g.n(3))
	kinds := map[string]int{"add": 6, "del": 4, "mod": 8, "ren": 4, "search": 4, "pw": 4, "bind": 1}
	switch name {
	case "refused":
		g.invalid = 0.35
		g.weights(kinds)
		g.clients(1+g.n(4), 8+g.n(26), 0.7)
	case "diskerr":
		f := &g.sc.Disk
		r := func() float64 { return g.pf(0, 0, 0.01, 0.05, 0.2) }
		f.WriteErr, f.SyncErr, f.ShortWr, f.NoSpace, f.TruncErr = r(), r(), r(), r(), r()
		if g.p(0.3) {
			f.SlowOp = 0.1
		}
		g.invalid = 0.05
		g.weights(kinds)
		g.clients(1+g.n(3), 8+g.n(26), 0.9)
		if g.p(0.4) {
			g.crashes(1+g.n(2), "kill")
		}
		if g.p(0.5) {
			g.final(0)
		}
	default:
		g.invalid = 0.05
		g.weights(kinds)
		g.clients(1+g.n(4), 8+g.n(26), 0.8)
		g.crashes(1+g.n(3), "kill", "powerloss")
	}
	g.trouble(0.15)
	return g.sc
}

// C03
func genLin(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(1 + g.n(3))
	g.sc.Anon = g.p(0.5)
	switch name {
	case "contended":
		// few names, many clients
		g.names = g.names[:3+g.n(3)]
		g.weights(map[string]int{"add": 5, "del": 3, "mod": 9, "ren": 3, "search": 6, "bind": 1, "pw": 4})
		g.clients(3+g.n(5), 12+g.n(30), 0.9)
	case "snapshot":
		g.weights(map[string]int{"add": 5, "del": 3, "mod": 4, "ren": 5, "search": 10})
		g.clients(2+g.n(5), 12+g.n(30), 1)
	default:
		g.weights(map[string]int{"add": 6, "del": 4, "mod": 6, "ren": 3, "search": 6, "bind": 2, "pw": 3, "sleep": 1})
		g.clients(2+g.n(4), 10+g.n(26), 0.6)
	}
	return g.sc
}

// C04
func genTree(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(1 + g.n(2))
	if name == "large" {
		g.grow(g.pi(245, 250, 300, 600))
	}
	g.sc.Audit = true
	g.invalid = 0.06
	g.weights(map[string]int{"add": 9, "del": 6, "ren": 6, "mod": 2, "search": 2})
	n := 1
	if name == "concurrent" || name == "large" && g.p(0.3) {
		n = 2 + g.n(3)
	}
	g.clients(n, 10+g.n(30), 1)
	if name == "restart" {
		g.crashes(1+g.n(2), "kill", "powerloss")
		g.final(0, 1)
	}
	if g.p(0.3) {
		c := g.sc.Clients[g.n(n)]
		i := g.n(len(c.Ops) + 1)
		c.Ops = append(c.Ops[:i:i], append([]*Op{{K: "audit"}}, c.Ops[i:]...)...)
	}
	return g.sc
}

// C05
func genModify(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(2 + g.n(2))
	if g.p(0.4) {
		g.with("cn=a+uid=b,ou=people,"+g.base, Attr{"sn", g.vals(2)})
	}
	g.invalid = 0.02
	if name == "rename" {
		g.weights(map[string]int{"ren": 10, "add": 4, "mod": 3, "search": 3, "del": 1})
	} else {
		g.weights(map[string]int{"mod": 14, "add": 3, "ren": 2, "search": 3, "del": 1})
	}
	g.clients(1+g.n(2), 8+g.n(24), 1)
	for _, c := range g.sc.Clients {
		// look at the result of every change
		var l []*Op
		for _, o := range c.Ops {
			l = append(l, o)
			if (o.K == "mod" || o.K == "ren") && g.p(0.6) {
				l = append(l, &Op{K: "search", DN: g.base, Scope: 2, Filter: anyFilter})
			}
		}
		c.Ops = l
	}
	return g.sc
}

// C06
func genPriv(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(2 + g.n(2))
	g.sc.Anon = g.p(0.4)
	g.invalid = 0.02
	switch name {
	case "noadmin":
		g.sc.Admin = ""
		g.cfg.admin = ""
	case "otheradmin":
		// an administrator that does not exist (yet), or that is spelled differently
		if g.p(0.5) {
			g.sc.Admin = g.names[g.n(len(g.names))]
			g.cfg.admin = normKey(g.sc.Admin)
		} else {
			g.sc.Admin = g.spell(g.sc.Admin)
		}
	}
	if g.p(0.6) {
		g.lookalikes()
	}
	if g.p(0.5) {
		g.nested()
	}
	g.weights(map[string]int{"add": 5, "del": 4, "mod": 5, "ren": 3, "search": 2, "pw": 6, "bind": 9})
	g.clients(2+g.n(4), 12+g.n(30), 0.35)
	if g.p(0.5) {
		g.churn(g.pf(0.05, 0.2))
	}
	return g.sc
}

// lookalikes adds users whose names resemble that of the administrator.
func (g *gen) lookalikes() {
	admin := "uid=admin,ou=sys," + g.base
	l := []string{
		"uid=helper," + admin, "cn=x\\,uid=admin,ou=sys," + g.base, "cn=x+uid=admin,ou=sys," + g.base, "uid=xuid\\=admin,ou=sys," + g.base,
		"uid=admin2,ou=sys," + g.base, "uid=adm,ou=sys," + g.base, "cn=admin,ou=sys," + g.base, "uid=admin,ou=people," + g.base,
		"uid=admin\\,ou\\=sys," + g.base, "uid=\\ admin,ou=sys," + g.base,
	}
	for k := 1 + g.n(4); k > 0; k-- {
		i := g.n(len(l))
		dn := l[i]
		l = append(l[:i:i], l[i+1:]...)
		st, _ := g.cred()
		g.with(dn, Attr{"userPassword", []string{st}})
		g.users = append(g.users, dn)
	}
}

// nested adds users below users, and users whose names contain each other.
func (g *gen) nested() {
	u := g.users[g.n(len(g.users))]
	l := []string{"uid=below," + u, "uid=u,ou=people," + g.base}
	if !strings.Contains(u, "\\") {
		l = append(l, "cn=p\\,"+strings.Replace(u, ",", "\\,", 1))
	}
	l = append(l, "uid=deep,"+l[0])
	for k, dn := range l {
		if k > 0 && g.p(0.5) {
			continue
		}
		if normKey(dn) == "" || g.d.ents[normKey(dn)] != nil {
			continue
		}
		st, _ := g.cred()
		g.with(dn, Attr{"userPassword", []string{st}})
		g.users = append(g.users, dn)
		g.names = append(g.names, dn)
	}
	if g.p(0.3) {
		dn := "cn=group,ou=people," + g.base
		st, _ := g.cred()
		g.with(dn, Attr{"userPassword", []string{st}})
		g.users = append(g.users, dn)
	}
	// those concerned are of more interest than others
	g.users = append(g.users, u, l[0])
}

// with adds an entry to the initial directory.
func (g *gen) with(dn string, attrs ...Attr) {
	e := InitEnt{DN: dn, Attrs: append([]Attr{oc("person")}, attrs...)}
	n, _ := parseDN(dn)
	for _, a := range n[0] {
		e.Attrs = append(e.Attrs, Attr{a.t, []string{a.v}})
	}
	g.sc.Init = append(g.sc.Init[:len(g.sc.Init):len(g.sc.Init)], e)
	g.d = newDir(g.sc.Init)
}

// C07
func genAuth(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.initTree(2 + g.n(3))
	g.badCred = 0.15
	g.nearPW = g.pf(0, 0.1, 0.25)
	g.invalid = 0.02
	if g.p(0.3) {
		// a user nobody can be
		dn := "uid=nobody,ou=people," + g.base
		g.with(dn, Attr{"userPassword", []string{badCreds[g.n(len(badCreds))]}})
		g.users = append(g.users, dn)
	}
	g.weights(map[string]int{"add": 2, "del": 2, "mod": 3, "ren": 2, "pw": 9, "bind": 14})
	if name == "contended" {
		// everybody is interested in the same one or two entries
		g.badCred = 0
		g.users = g.users[:1+g.n(2)]
		g.names = append([]string(nil), g.users...)
		g.weights(map[string]int{"del": 1, "add": 1, "mod": 4, "pw": 8, "bind": 12})
		g.clients(3+g.n(5), 14+g.n(30), 0.5)
		return g.sc
	}
	g.clients(1+g.n(4), 12+g.n(30), 0.5)
	if name == "restart" {
		g.crashes(1, "kill", "powerloss")
	}
	return g.sc
}

// C08
func genRead(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.initTree(2 + g.n(2))
	g.sc.Anon = g.p(0.5)
	g.invalid = 0.02
	g.weights(map[string]int{"search": 12, "bind": 10, "pw": 1, "mod": 1, "del": 1})
	g.clients(2+g.n(4), 10+g.n(26), 0.15)
	if g.p(0.5) {
		g.churn(g.pf(0.05, 0.2))
	}
	return g.sc
}

// C09
func genSearch(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.initTree(3 + g.n(6))
	large := g.p(0.02)
	if large {
		g.grow(g.pi(100, 300))
	}
	g.invalid = 0.01
	g.weights(map[string]int{"search": 20, "add": 3, "mod": 3, "ren": 1, "del": 1})
	g.clients(1+g.n(3), 16+g.n(40), 0.8)
	for _, c := range g.sc.Clients {
		c.Slow = g.p(0.1) || large && g.p(0.5)
	}
	return g.sc
}

var profiles = map[string][]profile{
	"C01": {{"kill", 3, genDurable}, {"powerloss", 5, genDurable}, {"final", 2, genDurable}},
	"C02": {{"refused", 3, genAtomic}, {"diskerr", 4, genAtomic}, {"crash", 3, genAtomic}},
	"C03": {{"mixed", 4, genLin}, {"contended", 4, genLin}, {"snapshot", 2, genLin}},
	"C04": {{"sequential", 5, genTree}, {"concurrent", 8, genTree}, {"restart", 5, genTree}, {"large", 1, genTree}},
	"C05": {{"modify", 3, genModify}, {"rename", 2, genModify}},
	"C06": {{"admin", 4, genPriv}, {"noadmin", 1, genPriv}, {"otheradmin", 2, genPriv}},
	"C07": {{"auth", 4, genAuth}, {"contended", 2, genAuth}, {"restart", 1, genAuth}},
	"C08": {{"read", 1, genRead}},
	"C09": {{"search", 1, genSearch}},
}
