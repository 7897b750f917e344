package main

import (
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"strings"

	"golang.org/x/crypto/argon2"

	"verif.local/simrt/sim"
	"verif.local/simrt/xnet"
)

// Scenario generation. Everything is derived from the run's seed.

type rng struct{ s uint64 }

func newRng(seed uint64, what string) *rng { return &rng{sim.Mix(seed, hstr(what))} }

func (r *rng) u() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u() % uint64(n))
}
func (r *rng) p(p float64) bool { return float64(r.u()>>11)/(1<<53) < p }
func (r *rng) pick(l ...string) string {
	return l[r.n(len(l))]
}
func (r *rng) pf(l ...float64) float64 { return l[r.n(len(l))] }
func (r *rng) pi(l ...int) int         { return l[r.n(len(l))] }

func (r *rng) bytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u())
	}
	return string(b)
}

// Stored credentials whose clear text is known to the model.
var credTable = map[string]string{}

var passwords = []string{"pw-alpha", "Pw-Alpha", "s3cret word", "pässwort", "x", "pw-crypt"}

const longPW = "0123456789-abcdefghijklmnopqrstuvwxyz-ABCDEFGHIJKLMNOPQRSTUVWXYZ-and-some-more"

func sshaHash(pw string) string {
	salt := []byte("sAl7")
	h := sha1.Sum(append([]byte(pw), salt...))
	return "{SSHA}" + base64.StdEncoding.EncodeToString(append(h[:], salt...))
}

func argonHash(pw string) string {
	salt := []byte("saltsalt")
	k := argon2.IDKey([]byte(pw), salt, 1, 8, 1, 16)
	e := base64.RawStdEncoding
	return fmt.Sprintf("{ARGON2}$argon2id$v=19$m=8,t=1,p=1$%s$%s", e.EncodeToString(salt), e.EncodeToString(k))
}

var cryptHashes = []string{"{CRYPT}$1$ab12$bwNKGyIZ1hCgigOvIQN6R/", "{CRYPT}abIwY6fJcl4lQ"}

func init() {
	for _, p := range append(passwords, longPW) {
		credTable[sshaHash(p)] = p
		credTable[argonHash(p)] = p
	}
	for _, h := range cryptHashes {
		credTable[h] = "pw-crypt"
	}
	// matched by nothing but the empty password, which nobody can use
	for _, h := range []string{sshaHash(""), argonHash("")} {
		credTable[h] = ""
		badCreds = append(badCreds, h, h)
	}
}

// cred returns a stored credential and its clear text ("" if it has none).
func (r *rng) cred() (stored, clear string) {
	p := passwords[r.n(len(passwords))]
	switch r.n(6) {
	case 0, 1:
		return p, p
	case 2:
		return sshaHash(p), p
	case 3:
		return argonHash(p), p
	case 4:
		return cryptHashes[r.n(2)], "pw-crypt"
	}
	return longPW, longPW
}

var badCreds = []string{"{SSHA}", "{SSHA}!!!", "{SSHA}YWI=", "{CRYPT}", "{CRYPT}a", "{ARGON2}", "{ARGON2}nonsense", "{ARGON2}$argon2id$v=19$m=8,t=0,p=1$c2FsdHNhbHQ$AAAAAAAAAAAAAAAAAAAAAA", "{FOO}pw-alpha", "{}", "{CRYPT}$1$"}

// anyCred is cred, or something malformed.
func (g *gen) anyCred() (stored, clear string) {
	if g.p(g.badCred) {
		return badCreds[g.n(len(badCreds))], ""
	}
	return g.cred()
}

type gen struct {
	*rng
	nearPW   float64 // how often a password differs a little from the right one
	sc       *Scenario
	base     string
	names    []string // names requests talk about
	cfg      modelCfg
	d        *dir // what the directory probably looks like
	w        map[string]int
	wsum     int
	keys     []string
	users    []string
	pwOf     map[string]string
	ascii    bool
	fuzzy    bool // spelling variants of names
	caseOnly bool // spelling variants differ in case only
	invalid  float64
	noRen    bool
	valid    bool
	lastOdd  string
	big      bool    // large values
	simple   bool    // searches use the simplest filters
	badCred  float64 // share of stored credentials nobody can match
}

func (g *gen) params() {
	p := sim.Params{Strategy: g.pi(0, 0, 1, 2), PreemptMean: g.pi(0, 8, 40, 150, 600, 3000), SyncP: g.pf(0, 0.02, 0.1, 0.4), MaxSteps: 40_000_000}
	if g.p(0.3) {
		p.StallP = g.pf(0.001, 0.01)
		p.StallMax = int64(g.pi(100_000, 5_000_000, 80_000_000))
	}
	if g.p(0.5) {
		p.HotShare = g.pf(0.002, 0.006, 0.015)
		if g.p(0.3) || g.sc.Prop == "C15" {
			p.HotTear = g.pf(0.1, 0.4)
		}
		p.HotSalt = uint32(g.n(1 << 31))
		p.HotMax = int64(g.pi(300_000, 5_000_000, 30_000_000, 100_000_000, 300_000_000))
	}
	g.sc.Params = p
	n := xnet.Cfg{LatMaxUS: g.pi(10, 60, 400, 4000), Window: g.pi(65536, 65536, 4096, 200)}
	if g.p(0.4) {
		n.FragP = g.pf(0.05, 0.3, 0.9)
	}
	if g.p(0.3) {
		n.DelayP = g.pf(0.005, 0.05)
		n.DelayMax = int64(g.pi(5, 50, 1500)) * 1_000_000
	}
	if g.p(0.3) {
		n.ShortRdP = g.pf(0.1, 0.6)
	}
	if g.p(0.5) {
		n.ReuseP = g.pf(0.5, 1)
	}
	g.sc.Net = n
}

func newGen(prop, profile string, seed uint64) *gen {
	g := &gen{rng: newRng(seed, prop+"/"+profile), sc: &Scenario{Prop: prop, Name: profile, World: "boltdb", Base: "dc=example,dc=org"}, pwOf: map[string]string{}, fuzzy: true, invalid: 0.05}
	g.params()
	g.sc.Debug = g.p(0.15)
	g.big = g.p(0.12)
	return g
}

func (g *gen) weights(m map[string]int) {
	g.w = map[string]int{}
	// swarm: leave out some request kinds in some runs
	for _, k := range sortedKeys(m) {
		w := m[k]
		if w > 0 && g.p(0.15) {
			w = 0
		}
		g.w[k] = w
	}
	g.keys = sortedKeys(g.w)
	g.wsum = 0
	for _, k := range g.keys {
		g.wsum += g.w[k]
	}
	if g.wsum == 0 {
		g.w = m
		for _, k := range g.keys {
			g.wsum += m[k]
		}
	}
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	return sortedCopy(l)
}

func (g *gen) kind() string {
	x := g.n(g.wsum)
	for _, k := range g.keys {
		x -= g.w[k]
		if x < 0 {
			return k
		}
	}
	return g.keys[0]
}

func oc(v ...string) Attr { return Attr{"objectClass", append([]string{"top"}, v...)} }

// initTree builds the initial directory: base, containers, administrator,
// auditor and some users.
func (g *gen) initTree(users int) {
	sc := g.sc
	if g.p(0.3) {
		sc.Base = g.pick("o=Ex Ample", "dc=Example,dc=ORG", "ou=Root\\, Org,o=x")
	}
	b := sc.Base
	g.base = b
	bn, _ := parseDN(b)
	add := func(dn string, at ...Attr) {
		n, _ := parseDN(dn)
		var l []Attr
		for _, a := range n[0] {
			l = append(l, Attr{a.t, []string{a.v}})
		}
		for _, a := range at {
			hit := false
			for i := range l {
				if fold(l[i].N) == fold(a.N) {
					hit = true
				}
			}
			if !hit {
				l = append(l, a)
			}
		}
		sc.Init = append(sc.Init, InitEnt{dn, l})
	}
	_ = bn
	add(b, oc("organization"))
	add("ou=sys,"+b, oc("organizationalUnit"))
	sc.Admin = "uid=admin,ou=sys," + b
	add(sc.Admin, oc("person"), Attr{"userPassword", []string{adminPW}})
	add("uid=auditor,ou=sys,"+b, oc("person"), Attr{"userPassword", []string{auditPW}})
	add("ou=people,"+b, oc("organizationalUnit"))
	if g.p(0.7) {
		add("ou=Groups,"+b, oc("organizationalUnit"))
	}
	g.names = []string{
		"ou=n0,ou=people," + b, "ou=n1,ou=people," + b, "uid=u0,ou=n0,ou=people," + b, "uid=u1,ou=n0,ou=people," + b,
		"uid=u0,ou=people," + b, "uid=u1,ou=people," + b, "uid=u2,ou=people," + b, "uid=u3,ou=Groups," + b,
	}
	if g.p(0.6) {
		g.names = append(g.names, "cn=Doe\\, J,ou=people,"+b, "cn=a+uid=b,ou=people,"+b, "cn=Ämter,ou=Groups,"+b, "ou=n1,ou=n0,ou=people,"+b, "uid=u0,ou=n1,ou=n0,ou=people,"+b)
	}
	if g.p(0.3) {
		// characters with a meaning in names, and what the name is without them
		l := []string{"cn=Trail\\20", "cn=Trail", "cn=\\ lead", "cn=lead", "cn=\\#1", "cn=1", "cn=a\\;b", "cn=q\\\"q", "cn=x\\=y", "cn=l\\<g\\>", "cn=b\\5Cs", "cn=two  words", "cn=two words", "cn=st\\2Ar", "cn=\\C3\\A9t\\C3\\A9"}
		for k := 2 + g.n(4); k > 0; k-- {
			i := g.n(len(l))
			g.names = append(g.names, l[i]+",ou=people,"+b)
			if i < 6 {
				g.names = append(g.names, l[i^1]+",ou=people,"+b)
			}
		}
	}
	for i := 0; i < users; i++ {
		dn := fmt.Sprintf("uid=u%d,ou=people,%s", i, b)
		st, clear := g.anyCred()
		g.pwOf[normKey(dn)] = clear
		at := []Attr{oc("person"), {"cn", []string{g.val()}}, {g.secretName(), []string{st}}}
		if g.p(0.5) {
			at = append(at, Attr{"mail", g.vals(3)})
		}
		if g.p(0.3) {
			at = append(at, Attr{"description", g.vals(2)})
		}
		add(dn, at...)
		g.users = append(g.users, dn)
	}
	g.d = newDir(sc.Init)
	g.cfg = modelCfg{base: bn, baseK: bn.key(), admin: normKey(sc.Admin), creds: credTable}
}

// grow adds many entries to the initial directory.
func (g *gen) grow(n int) {
	b := "ou=many," + g.base
	l := append(g.sc.Init[:len(g.sc.Init):len(g.sc.Init)], InitEnt{b, []Attr{{"ou", []string{"many"}}, oc("organizationalUnit")}})
	for i := 0; i < n; i++ {
		u := fmt.Sprintf("m%d", i)
		l = append(l, InitEnt{"uid=" + u + "," + b, []Attr{{"uid", []string{u}}, oc("person")}})
	}
	if n >= 300 && g.p(0.6) {
		// and deep
		d := "uid=m2," + b
		for i := 8 + g.n(16); i > 0; i-- {
			u := fmt.Sprintf("d%d", i)
			d = "uid=" + u + "," + d
			l = append(l, InitEnt{d, []Attr{{"uid", []string{u}}, oc("person")}})
		}
		g.names = append(g.names, d, "uid=new,"+d)
	}
	g.sc.Init = l
	g.names = append(g.names, "uid=m0,"+b, "uid=m17,"+b, "uid=new,"+b, "uid=sub,uid=m1,"+b)
	g.d = newDir(l)
}

const auditPW = "audit-secret"

func (g *gen) val() string {
	if g.big && g.p(0.3) {
		return fmt.Sprintf("%d:", g.n(1000)) + strings.Repeat("large", 100+g.n(g.pi(200, 2500)))
	}
	if g.p(0.1) {
		return fmt.Sprintf("v%d", g.n(1000))
	}
	return g.pick("Alpha", "alpha", "ALPHA", "beta", "Beta x", "gamma", "a,b=c", "ünï", "ÜNÏ", "d*l(t)a", "e\\f", " lead", "9", strings.Repeat("long ", 1+g.n(40)))
}

// vals returns up to n values that differ also when compared case-insensitively.
func (g *gen) vals(n int) []string {
	var l []string
	for k := 1 + g.n(n); k > 0; k-- {
		v := g.val()
		if idx(l, v) < 0 {
			l = append(l, v)
		}
	}
	return l
}

func (g *gen) caseMix(s string) string {
	b := []byte(s)
	for i := range b {
		if g.p(0.5) {
			if b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			} else if b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 32
			}
		}
	}
	return string(b)
}

// spell writes a name in one of its spellings.
func (g *gen) spell(dn string) string {
	if !g.fuzzy || g.p(0.6) {
		return dn
	}
	if g.caseOnly {
		return g.caseMix(dn)
	}
	n, ok := parseDN(dn)
	if !ok {
		return dn
	}
	sep := g.pick(",", ", ", ",")
	var l []string
	for _, r := range n {
		var p []string
		for _, a := range r {
			t, v := a.t, a.v
			if g.p(0.4) {
				t = g.caseMix(t)
			}
			if g.p(0.4) {
				v = g.caseMix(v)
			}
			ev := escVal(v)
			if g.p(0.15) && len(v) > 0 && v[0] >= 'a' && v[0] <= 'z' {
				ev = fmt.Sprintf("\\%02x", v[0]) + escVal(v[1:])
			}
			p = append(p, t+"="+ev)
		}
		l = append(l, strings.Join(p, "+"))
	}
	return strings.Join(l, sep)
}

func (g *gen) anyName() string {
	if g.p(0.65) {
		// something that probably exists and may be touched
		k := g.d.keys()
		for try := 0; try < 8; try++ {
			e := g.d.ents[k[g.n(len(k))]]
			if !strings.Contains(e.key, "ou=sys,") && e.key != g.cfg.baseK {
				return e.dn
			}
		}
	}
	return g.names[g.n(len(g.names))]
}

func (g *gen) attrName() string {
	a := g.pick("cn", "mail", "description", "sn", "title")
	if g.p(0.2) {
		a = g.caseMix(a)
	}
	return a
}

func (g *gen) entryAttrs(dn string) []Attr {
	n, _ := parseDN(dn)
	l := []Attr{}
	for _, a := range n[0] {
		l = append(l, Attr{a.t, []string{a.v}})
	}
	put := func(a Attr) {
		for i := range l {
			if fold(l[i].N) == fold(a.N) {
				for _, v := range a.V {
					if idx(l[i].V, v) < 0 {
						l[i].V = append(l[i].V, v)
					}
				}
				return
			}
		}
		l = append(l, a)
	}
	put(oc("person"))
	for k := g.n(4); k > 0; k-- {
		put(Attr{g.attrName(), g.vals(3)})
	}
	if g.p(0.4) {
		st, _ := g.anyCred()
		put(Attr{g.secretName(), []string{st}})
	}
	return l
}

// divide lists the values of an attribute in two places.
func (g *gen) divide(l []Attr) []Attr {
	i := g.n(len(l))
	if len(l[i].V) < 2 {
		return l
	}
	l = append(l, Attr{g.caseMix(l[i].N), l[i].V[1:]})
	if g.p(0.5) {
		l[len(l)-1].N = l[i].N
	}
	l[i].V = l[i].V[:1:1]
	return l
}

// secretName is how an entry spells the attribute with its password.
func (g *gen) secretName() string {
	if g.p(0.2) {
		return g.caseMix("userPassword")
	}
	return "userPassword"
}

func (g *gen) newRDN(dn string) string {
	switch g.n(6) {
	case 0:
		return "uid=u" + fmt.Sprint(g.n(5))
	case 1:
		return g.pick("cn=Ren", "cn=ren\\, amed", "CN=REN", "cn=Ämter")
	case 2:
		return g.pick("cn=a+uid=b", "cn=a+uid=c")
	case 3:
		return "ou=n" + fmt.Sprint(g.n(3))
	case 4:
		n, _ := parseDN(dn)
		if len(n) > 0 {
			return g.caseMix(spellDN(n[:1]))
		}
	}
	return fmt.Sprintf("uid=r%d", g.n(3))
}

func (g *gen) mods(dn string) []Mod {
	var l []Mod
	n, _ := parseDN(dn)
	e := g.d.ents[normKey(dn)]
	for k := 1 + g.n(4); k > 0; k-- {
		a := g.attrName()
		m := Mod{T: g.pick("add", "add", "rep", "rep", "del", "del"), A: a}
		if len(n) > 0 && g.p(0.15) {
			x := n[0][g.n(len(n[0]))] // a naming value
			m.A = x.t
			if g.p(0.4) {
				m.A = g.caseMix(m.A)
			}
			m.V = []string{x.v}
			if g.p(0.5) {
				m.V = g.vals(2)
			}
			if g.p(0.3) && idx(m.V, x.v) < 0 {
				m.V = append(m.V, g.caseMix(x.v))
			}
			if m.T == "del" && g.p(0.3) {
				m.V = nil
			}
			l = append(l, m)
			continue
		}
		m.V = g.vals(3)
		if m.T == "rep" && g.p(0.25) || m.T == "del" && g.p(0.35) {
			m.V = nil
		}
		if m.T == "del" && len(m.V) > 0 && e != nil && g.p(0.8) {
			// values the entry probably has
			if at := e.get(m.A); at != nil {
				m.V = nil
				for _, v := range at.V {
					if g.p(0.6) {
						m.V = append(m.V, g.maybeCase(v))
					}
				}
			}
		}
		l = append(l, m)
	}
	if g.p(0.02) {
		l = append(l, Mod{T: "inc", A: "title", V: []string{"1"}})
	}
	return l
}

func (g *gen) maybeCase(s string) string {
	if g.p(0.3) {
		return g.caseMix(s)
	}
	return s
}

func (g *gen) invalidName() string {
	return g.pick("", "nonsense", "uid=u0", "uid=u0,dc=other", "uid=u0,ou=nowhere,"+g.base, "uid=u0,ou=people,x"+g.base, "=x,"+g.base, "uid=u0,,"+g.base)
}

func (g *gen) filter(depth int) *Filter {
	if g.simple {
		if g.p(0.7) {
			return anyFilter
		}
		return &Filter{Op: "eq", A: "uid", V: fmt.Sprintf("u%d", g.n(4))}
	}
	if depth > 0 && g.p(0.4) {
		switch g.n(3) {
		case 0:
			return &Filter{Op: "not", F: []*Filter{g.filter(depth - 1)}}
		case 1:
			return &Filter{Op: "and", F: g.filters(depth - 1)}
		}
		return &Filter{Op: "or", F: g.filters(depth - 1)}
	}
	a := g.attrName()
	v := g.val()
	switch g.n(6) {
	case 0:
		return &Filter{Op: "pres", A: g.pick(a, "objectClass", "uid", "nosuch")}
	case 1:
		return &Filter{Op: "eq", A: g.pick("objectClass", "OBJECTCLASS"), V: g.pick("person", "PERSON", "organizationalUnit", "top", "none")}
	case 2:
		return &Filter{Op: "eq", A: "uid", V: g.caseMix(fmt.Sprintf("u%d", g.n(4)))}
	case 3, 4:
		return &Filter{Op: "eq", A: a, V: v}
	}
	f := &Filter{Op: "sub", A: a}
	if g.p(0.3) {
		f.A, v = "uid", "u1"
	}
	rs := []rune(v)
	cut := func() string {
		if len(rs) == 0 {
			return "a"
		}
		i := g.n(len(rs))
		j := i + 1 + g.n(len(rs)-i)
		s := string(rs[i:j])
		return g.maybeCase(s)
	}
	if g.p(0.3) {
		if g.p(0.5) {
			f.Ini = g.maybeCase(string(rs[:1+g.n(len(rs))]))
		} else {
			f.Fin = g.maybeCase(string(rs[g.n(len(rs)):]))
		}
	}
	for f.Ini == "" && f.Fin == "" && len(f.Any) == 0 {
		if g.p(0.4) {
			f.Ini = g.maybeCase(string(rs[:1+g.n(len(rs))]))
		}
		if g.p(0.4) {
			f.Any = append(f.Any, cut())
			if g.p(0.3) {
				f.Any = append(f.Any, cut())
			}
		}
		if g.p(0.4) {
			f.Fin = g.maybeCase(string(rs[g.n(len(rs)):]))
		}
	}
	return f
}

func (g *gen) filters(depth int) []*Filter {
	var l []*Filter
	for k := 1 + g.n(3); k > 0; k-- {
		l = append(l, g.filter(depth))
	}
	return l
}

func (g *gen) want() []string {
	if g.simple || g.p(0.6) {
		return nil
	}
	var l []string
	for k := 1 + g.n(3); k > 0; k-- {
		l = append(l, g.pick("cn", "CN", "mail", "uid", "objectclass", "userPassword", "description", "*", "1.1", "nosuch"))
	}
	return l
}

func (g *gen) search() *Op {
	o := &Op{K: "search", Scope: g.n(3), Filter: g.filter(2), Want: g.want()}
	if g.p(0.3) {
		o.Filter = anyFilter
	}
	switch g.n(4) {
	case 0, 1:
		o.DN = g.base
		if g.p(0.7) {
			o.Scope = 2
		}
	case 2:
		o.DN = g.pick("ou=people,"+g.base, "ou=n0,ou=people,"+g.base)
	default:
		o.DN = g.anyName()
	}
	o.DN = g.spell(o.DN)
	if !g.simple && g.p(0.1) {
		o.Limit = 1 + g.n(4)
	}
	if !g.simple && g.p(0.1) {
		o.Secs, o.Deref = g.pi(0, 1, 1, 2, 10), g.n(4)
	}
	if g.sc.Prop == "C09" && g.p(0.08) {
		o.Filter = g.oddFilter(o.Filter)
	}
	return o
}

// oddFilter adds something to a filter that servers may refuse to evaluate.
func (g *gen) oddFilter(f *Filter) *Filter {
	x := &Filter{Op: g.pick("ge", "le", "approx", "ext"), A: "nosuch", V: g.pick("a", "1", "")}
	if g.p(0.3) {
		x = &Filter{Op: g.pick("and", "or")}
	}
	switch g.n(5) {
	case 0:
		return x
	case 1:
		return &Filter{Op: "and", F: []*Filter{x, f}}
	case 2:
		return &Filter{Op: "and", F: []*Filter{f, x}}
	case 3:
		return &Filter{Op: "or", F: []*Filter{f, x}}
	}
	return &Filter{Op: "or", F: []*Filter{x, f}}
}

// op generates a request and predicts its effect.
func (g *gen) op(who string) *Op {
	o := &Op{K: g.kind()}
	switch o.K {
	case "add":
		o.DN = g.names[g.n(len(g.names))]
		if g.p(0.25) {
			o.DN = g.anyName()
		}
		o.Attrs = g.entryAttrs(o.DN)
		if g.p(0.5) {
			// make a parent
			n, _ := parseDN(o.DN)
			if g.d.ents[n.parent().key()] == nil && len(n) > len(g.cfg.base)+1 {
				o.DN = spellDN(n.parent())
				o.Attrs = g.entryAttrs(o.DN)
			}
		}
		if g.p(0.04) && (g.sc.Prop == "C03" || g.sc.Prop == "C04" || g.sc.Prop == "C05") {
			o.Attrs = g.divide(o.Attrs)
		}
		o.DN = g.spell(o.DN)
	case "del", "mod", "ren":
		o.DN = g.anyName()
		if o.K == "mod" {
			o.Mods = g.mods(o.DN)
			if g.p(0.1) {
				st, _ := g.anyCred()
				o.Mods = append(o.Mods, Mod{T: "rep", A: g.secretName(), V: []string{st}})
			}
		}
		if o.K == "ren" {
			o.NewRDN = g.newRDN(o.DN)
			o.DelOld = g.p(0.5)
			if g.p(0.04) {
				o.Sup = g.anyName()
			}
		}
		o.DN = g.spell(o.DN)
	case "pw":
		g.pwOp(o, who)
	case "bind":
		g.bindOp(o)
	case "search":
		o = g.search()
	case "ext":
		o.DN = g.pick("1.3.6.1.4.1.4203.1.11.3", "1.3.6.1.4.1.1466.20037", "1.2.3")
	case "sleep":
		o.US = int64(g.n(20000))
	}
	if isWrite(o.K) && o.K != "pw" && g.p(g.invalid) {
		switch {
		case o.K == "ren" && g.p(0.5):
			o.NewRDN = g.pick("", "nonsense", "uid=a,ou=b", "=x")
		default:
			o.DN = g.invalidName()
		}
	}
	if g.p(0.3) {
		o.Pre = int64(g.n(3000))
	}
	if isWrite(o.K) {
		r := &Rec{Op: o, DN: o.DN, Who: normKey(who), PW: o.PW}
		if res, nd := g.cfg.write(g.d, r); res != mustFail && o.Sup == "" {
			g.d = nd
		}
	}
	return o
}

func (g *gen) userName() string {
	if len(g.users) == 0 || g.p(0.1) {
		return g.anyName()
	}
	return g.users[g.n(len(g.users))]
}

func (g *gen) pwOp(o *Op, who string) {
	o.K = "pw"
	t := g.userName()
	if who != "" && normKey(who) != g.cfg.admin && g.p(0.7) {
		t = who
	}
	o.DN = g.spell(t)
	if who != "" && normKey(t) == normKey(who) && g.p(0.5) {
		o.DN = ""
	}
	o.New = passwords[g.n(len(passwords))]
	if g.nearPW > 0 {
		switch g.n(6) {
		case 0:
			o.New = longPW
		case 1:
			o.New = g.near(o.New)
		}
	}
	if g.p(0.25) {
		o.New = ""
	}
	if g.p(0.3) {
		o.Old = g.guess(t)
		if g.p(0.1) && o.New != "" {
			o.Old = o.New
		}
	}
	if g.p(g.invalid) {
		o.DN = g.invalidName()
	}
}

// near is a password that differs from pw only a little. What CRYPT accepts
// beyond the stored password (anything after eight characters or a NUL) is
// left alone.
func (g *gen) near(pw string) string {
	n := len(pw)
	if n < 2 || strings.HasPrefix(pw, "@gen:") {
		return pw
	}
	k := g.n(10)
	if pw == "pw-crypt" {
		k = g.n(4)
	}
	switch k {
	case 0:
		return pw[:n-1]
	case 1:
		if u := strings.ToUpper(pw); u != pw {
			return u
		}
		return strings.ToLower(pw)
	case 2:
		return " " + pw
	case 3:
		return pw[1:]
	case 4, 5:
		return pw + g.pick("\n", "\x00", " ", "\r\n", "\t", "\u00a0", "\x00x")
	case 6, 7:
		if n > 72 {
			return pw[:72] + strings.Repeat("z", g.pi(0, 1, n-72))
		}
		return pw + pw
	case 8:
		return pw + strings.Repeat("x", g.pi(1, 64, 200))
	}
	return "\ufeff" + pw
}

// lookalike is the name of another entry, which most likely does not exist.
func (g *gen) lookalike(dn string) string {
	head, rest, ok := strings.Cut(dn, ",")
	switch k := g.n(5); {
	case !ok || k < 2:
		return g.pick("cn=x,", "uid=nobody,", "ou=n9,") + dn
	case k == 2:
		return "x" + dn
	case k == 3:
		return head + "x," + rest
	}
	return head + ",ou=sub," + rest
}

// guess is the probable password of an entry, or something else.
func (g *gen) guess(dn string) string {
	pw := g.guess0(dn)
	if g.nearPW > 0 && g.p(g.nearPW) {
		return g.near(pw)
	}
	return pw
}

func (g *gen) guess0(dn string) string {
	k := normKey(dn)
	if e := g.d.ents[k]; e != nil && g.p(0.75) {
		st := g.cfg.stored(e)
		if strings.HasPrefix(st, pwMark) {
			if p := st[len(pwMark):]; !strings.HasPrefix(p, "\x00") {
				return p
			}
			return "@gen:" + dn
		}
		if c, ok := credTable[st]; ok {
			return c
		}
		if st != "" && !strings.HasPrefix(st, "{") {
			return st
		}
	}
	if g.p(0.1) {
		return "@gen:" + dn
	}
	return passwords[g.n(len(passwords))]
}

func (g *gen) bindOp(o *Op) {
	o.K = "bind"
	t := g.userName()
	switch {
	case g.p(0.1):
		t = g.sc.Admin
		o.PW = g.pick(adminPW, adminPW, "wrong")
	case g.p(0.1):
		t = "uid=auditor,ou=sys," + g.base
		o.PW = auditPW
	default:
		o.PW = g.guess(t)
	}
	o.DN = g.spell(t)
	switch g.n(16) {
	case 0:
		o.PW = ""
	case 1:
		o.DN, o.PW = "", ""
	case 2:
		o.DN = g.invalidName()
	case 3:
		if g.p(0.4) {
			o.Vers = 2
		} else if g.p(0.4) {
			o.Mode = g.pick("sasl", "sasl", "othertag", "textversion", "more")
		}
	case 4:
		if g.p(0.5) {
			o.DN = g.lookalike(o.DN)
		}
	}
}
