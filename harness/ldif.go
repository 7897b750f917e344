package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/simrt/sim"
)

// The LDIF backend: sources on disk that change and are reloaded, a server
// that only reads, and a register of source versions as its model.

func mainPath(sc *Scenario) string {
	if sc.IsDir {
		return "/data/main"
	}
	return "/data/main.ldif"
}

// version is what one version of the sources means.
type version struct {
	read *dir // what searches see
	main *dir // with credentials
	conf *dir
}

// readable returns what searches can show of the entries.
func readable(base string, l []InitEnt) []InitEnt {
	bn, _ := parseDN(base)
	var out []InitEnt
	for _, e := range l {
		n := InitEnt{DN: e.DN}
		if name, _ := parseDN(e.DN); !name.under(bn) {
			continue
		}
		for _, a := range e.Attrs {
			if fold(a.N) != "userpassword" {
				n.Attrs = append(n.Attrs, a)
			}
		}
		out = append(out, n)
	}
	return out
}

// attempt is one reload (or start) of a source version. It takes effect at
// one moment between s and q, if at all.
type attempt struct {
	ver   int
	s, q  int64
	never bool // must not take effect
	maybe bool // may fail as a whole
}

type ldifState struct {
	vers    []version
	cur     int
	tries   []*attempt
	pend    []*attempt // not waited for
	secrets [][]byte
	confs   map[string]bool
}

func (w *world) setupLDIF() {
	st := &ldifState{confs: map[string]bool{}}
	w.ldif = st
	seen := map[string]bool{}
	secret := func(v string) {
		if len(v) >= 8 && !seen[v] {
			seen[v] = true
			st.secrets = append(st.secrets, []byte(v))
		}
	}
	for _, s := range w.sc.Sources {
		v := version{read: newDir(readable(w.sc.Base, s.Main)), main: newDir(s.Main), conf: newDir(s.Conf)}
		st.vers = append(st.vers, v)
		for i, l := range [][]InitEnt{s.Main, s.Conf} {
			for _, e := range l {
				if i == 1 {
					st.confs[normKey(e.DN)] = true
					secret(e.DN)
				}
				for _, a := range e.Attrs {
					if fold(a.N) == "userpassword" || i == 1 && fold(a.N) == "description" {
						for _, x := range a.V {
							secret(x)
						}
					}
				}
			}
		}
	}
}

// install puts one version of the sources on the disk.
func (w *world) install(v int) {
	for _, f := range w.sc.Sources[w.ldif.cur].Files {
		w.disk.Del(path.Join("/data", f.Name))
	}
	w.ldif.cur = v
	for _, f := range w.sc.Sources[v].Files {
		w.disk.Put(path.Join("/data", f.Name), f.Data)
	}
	sim.Logf("sources version %d %s", v, w.sc.Sources[v].Bad)
}

func (w *world) tick() int64 { w.seq++; return w.seq }

const reloadBound = 10 * time.Second

// idle waits until the server has nothing to do.
func (w *world) idle() bool {
	return settle(60*time.Second, func() bool { return w.deadNow() || w.proc.Idle() })
}

// reload changes the sources and asks the server to load them.
func (w *world) reload(ev *Event) {
	st := w.ldif
	if w.reloading && len(st.pend) == 0 || w.deadNow() || !w.up || w.stopping || w.over {
		return
	}
	w.reloading = true
	defer func() { w.reloading = len(st.pend) > 0 }()
	if len(st.pend) == 0 && !w.idle() || w.deadNow() || !w.up || w.stopping {
		return
	}
	inj := w.disk.Injected
	inc := w.inc
	w.install(ev.Src)
	src := w.sc.Sources[ev.Src]
	a := &attempt{ver: ev.Src, s: w.tick(), q: 1 << 61, never: src.Bad != "", maybe: src.Half || src.Bad == "" && inc != w.inc}
	st.tries = append(st.tries, a)
	w.disk.On = true
	for i := 0; i <= ev.N; i++ {
		for !deliver(w.proc, hup) {
			if w.deadNow() || !w.up || w.stopping {
				a.maybe = true
				return
			}
			sim.Sleep(time.Millisecond)
		}
		sim.Fault("sighup")
		if ev.N > 0 {
			sim.Sleep(time.Duration(sim.GetStream("hups").Choose(3000)) * time.Microsecond)
		}
	}
	if ev.Wait > 0 {
		// the next version comes while this one is being loaded
		sim.Sleep(time.Duration(ev.Wait) * time.Microsecond)
		a.maybe = true
		st.pend = append(st.pend, a)
		return
	}
	sim.Sleep(reloadBound)
	w.idle()
	w.disk.On = false
	if w.disk.Injected != inj || w.inc != inc || w.deadNow() || w.stopping {
		a.maybe = true
	}
	a.q = w.tick()
	for _, p := range st.pend {
		p.q = a.q
	}
	st.pend = nil
}

// startLDIF starts the server; what the start may do depends on the sources.
func (w *world) startLDIF(what string) bool {
	st := w.ldif
	src := w.sc.Sources[st.cur]
	inj := w.disk.Injected
	a := &attempt{ver: st.cur, s: w.tick(), q: 1 << 61}
	st.tries = append(st.tries, a)
	ok := w.start()
	a.q, a.never = w.tick(), !ok
	switch {
	case ok && src.Bad != "":
		w.violate("partial", "start", fmt.Sprintf("%s: the server started although its sources cannot be loaded (%s)", what, src.Bad))
		return false
	case ok:
		return true
	case w.proc.Crash != "":
		w.violate("crash", crashKey(w.proc.Crash), what+": server crashed: "+firstLines(w.proc.Crash, 12))
	case w.startErr == nil:
		w.violate("start", "", what+": server neither started listening nor failed within 60 s")
		w.proc.Kill()
	case src.Bad == "" && !src.Half && w.disk.Injected == inj:
		w.violate("start", "", fmt.Sprintf("%s: server did not start: %v", what, w.startErr))
	}
	return false
}

// startSound starts the server after it failed to start as a whole; with
// sound sources it has to.
func (w *world) startSound() bool {
	if len(w.viols) > 0 {
		return false
	}
	for v, s := range w.sc.Sources {
		if s.Bad == "" && !s.Half {
			w.install(v)
			return w.startLDIF("start with sound sources")
		}
	}
	return false
}

func runLDIF(w *world) {
	sc := w.sc
	w.setupLDIF()
	w.disk.Match = func(p string) bool { return strings.HasPrefix(p, "/data/") }
	w.install(0)
	faulty := false
	for _, ev := range sc.Events {
		if ev.K == "startfaults" {
			faulty = true
		}
	}
	w.disk.On = faulty
	ok := w.startLDIF("first start")
	w.disk.On = false
	if !ok && !w.startSound() {
		return
	}
	evs := sc.Events
	sim.GoIn("sources", nil, func() {
		for _, ev := range evs {
			if ev.K == "source" {
				sim.Sleep(time.Duration(ev.US) * time.Microsecond)
				w.reload(ev)
			}
		}
		w.srcDone = true
	})
	w.timers(evs, func(ev *Event) {
		switch ev.K {
		case "term":
			w.terminate(ev)
		case "clock":
			sim.Fault("clock.jump")
			sim.AdvanceClock(time.Duration(ev.N) * time.Second)
		}
	})
	w.runClients()
	if !settle(1000*time.Second, func() bool { return w.srcDone && !w.restarting && !w.reloading }) {
		return
	}
	w.checkAlive()
	if !w.deadNow() && len(w.viols) == 0 {
		w.finalLDIF()
		w.checkAlive()
		w.checkReleased()
	}
	w.over = true
	w.finish()
	if len(w.viols) == 0 && !sc.NoLin {
		w.checkLDIF()
	}
}

// finalLDIF looks at everything once more.
func (w *world) finalLDIF() {
	c := &client{w: w, n: 100 + w.inc, spec: w.auditor(), pages: map[int]*pageState{}}
	c.audit()
	c.do(&Op{K: "page", DN: w.sc.Base, Scope: 2, Filter: anyFilter, Page: 3, Mode: "rest"})
	n := 0
	for v := len(w.sc.Sources) - 1; v >= 0; v-- {
		for _, l := range [][]InitEnt{w.sc.Sources[v].Conf, w.sc.Sources[v].Main} {
			for _, e := range l {
				for _, a := range e.Attrs {
					if fold(a.N) != "userpassword" || n >= 16 {
						continue
					}
					pw, ok := credTable[a.V[0]]
					if !ok {
						pw = a.V[0]
					}
					n++
					c.do(&Op{K: "bind", DN: e.DN, PW: pw})
				}
			}
		}
	}
	c.hangup()
}

// scanSecrets looks for secrets in what the LDIF backend sends.
func (w *world) scanSecrets(b []byte) {
	if w.ldif == nil {
		return
	}
	for _, s := range w.ldif.secrets {
		if bytes.Contains(b, s) {
			w.violate("secret", "", fmt.Sprintf("a response contains the secret %q", s))
			return
		}
	}
}

// vread is one observation of the source version.
type vread struct {
	inv, ret int64
	ok       []bool // by version
	what     string
	why      []string
}

func (w *world) checkLDIF() {
	st := w.ldif
	n := len(st.vers)
	var mains, confs []*vread
	add := func(l *[]*vread, r *Rec, eval func(v int) (bool, string)) {
		o := &vread{inv: r.Inv, ret: r.Ret, what: r.String()}
		for v := 0; v < n; v++ {
			ok, why := eval(v)
			o.ok = append(o.ok, ok)
			o.why = append(o.why, why)
		}
		*l = append(*l, o)
	}
	for _, r := range w.recs {
		if r.Drop || !r.Done {
			continue
		}
		r := r
		r.Fault = false
		switch {
		case isWrite(r.Op.K):
			if r.Code == 0 {
				w.violate("write", "", "the LDIF backend accepted "+r.String())
			}
		case r.Op.K == "search" && r.Page == nil:
			if r.Op.Lenien {
				continue
			}
			add(&mains, r, func(v int) (bool, string) {
				if r.Term && r.Code != 0 && len(r.Ents) == 0 {
					return true, "" // refused because of the stop
				}
				s, why := w.cfg.next(st.vers[v].read, r)
				return len(s) > 0, why
			})
		case r.Op.K == "bind":
			l := &mains
			if st.confs[normKey(r.DN)] {
				l = &confs
			}
			add(l, r, func(v int) (bool, string) {
				d := st.vers[v].main
				if l == &confs {
					d = st.vers[v].conf
				}
				s, why := w.cfg.next(d, r)
				return len(s) > 0, why
			})
		}
	}
	for _, p := range w.pagesAll {
		p := p
		if p.first == nil || !p.first.Done || p.first.Code != 0 {
			continue
		}
		o := &vread{inv: p.first.Inv, ret: p.first.Ret, what: fmt.Sprintf("paged %s, pages of %v, complete=%v", p.first, p.lens, p.complete)}
		for v := 0; v < n; v++ {
			ok, why := w.pageOK(p, st.vers[v].read)
			o.ok = append(o.ok, ok)
			o.why = append(o.why, why)
		}
		mains = append(mains, o)
	}
	if len(w.viols) > 0 {
		return
	}
	// the outcome of faulted reloads is open, but it is one of two for
	// everything that is loaded
	var open []int
	for i, a := range st.tries {
		if a.maybe && !a.never {
			open = append(open, i)
		}
	}
	best := ""
	for m := 0; m < 1<<len(open); m++ {
		var eff []*attempt
		for i, a := range st.tries {
			on := !a.never
			for k, j := range open {
				if i == j && m>>k&1 == 0 {
					on = false
				}
			}
			if on {
				eff = append(eff, a)
			}
		}
		why := checkVersions(eff, mains)
		if why == "" {
			why = checkVersions(eff, confs)
		}
		if why == "" {
			return
		}
		best = why
	}
	w.violate("history", "", best)
}

// checkVersions finds for every observation a version such that versions only
// move forward, or says why that is impossible.
func checkVersions(eff []*attempt, reads []*vread) string {
	rs := append([]*vread(nil), reads...)
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].inv < rs[j].inv })
	pos := make([]int, len(rs))
	for i, r := range rs {
		lo, hi := 0, 0
		for k, a := range eff {
			if a.q < r.inv {
				lo = k
			}
			if a.s < r.ret {
				hi = k
			}
		}
		for j := 0; j < i; j++ {
			if rs[j].ret < r.inv && pos[j] > lo {
				lo = pos[j]
			}
		}
		p := lo
		for ; p <= hi; p++ {
			if r.ok[eff[p].ver] {
				break
			}
		}
		if p > hi {
			s := fmt.Sprintf("%s is not the answer of any version of the sources it may show:", r.what)
			for k := lo; k <= hi; k++ {
				s += fmt.Sprintf(" version %d: %s;", eff[k].ver, r.why[eff[k].ver])
			}
			for v := range r.ok {
				if r.ok[v] {
					s += fmt.Sprintf(" (it is the answer of version %d)", v)
				}
			}
			return s
		}
		pos[i] = p
	}
	return ""
}

// pageOK compares what the pages delivered with a version of the directory.
func (w *world) pageOK(p *pageState, d *dir) (bool, string) {
	base, ok := parseDN(p.op.DN)
	if !ok {
		return true, ""
	}
	want := map[string]*mEntry{}
	for _, e := range d.search(base, p.op.Scope, p.op.Filter) {
		want[e.key] = e
	}
	seen := map[string]bool{}
	for _, e := range p.got {
		k := normKey(e.DN)
		if seen[k] {
			return false, "entry delivered twice: " + e.DN
		}
		seen[k] = true
		m := want[k]
		if m == nil {
			return false, "unexpected entry " + k
		}
		if v := canonAttrs(e.Attrs, nil); v != m.view(p.op.Want) {
			return false, fmt.Sprintf("entry %s is [%s], expected [%s]", k, v, m.view(p.op.Want))
		}
	}
	if p.complete && p.op.Limit == 0 {
		for k := range want {
			if !seen[k] {
				return false, fmt.Sprintf("%d of %d entries, missing %s", len(seen), len(want), k)
			}
		}
	}
	return true, ""
}

const (
	abandonBound = 20 * time.Second
	pageGap      = 10 * time.Second // a continuation after less than that has to work
)

// page performs one step (or all the rest) of a paged search.
func (c *client) page(o *Op) {
	w := c.w
	if !c.ready() {
		return
	}
	c.drain()
	if c.conn == nil {
		return
	}
	for steps := 0; ; steps++ {
		ps := c.pages[o.Slot]
		fresh := ps == nil || ps.conn != c.connID || ps.over && o.Mode != "stale"
		if fresh {
			if o.Mode == "abandon" || o.Mode == "stale" {
				return
			}
			ps = &pageState{op: o, conn: c.connID, id: len(w.pagesAll), lastT: int64(sim.Elapsed())}
			c.pages[o.Slot] = ps
			w.pagesAll = append(w.pagesAll, ps)
		}
		if o.Mode == "stale" && len(ps.cookie) == 0 {
			return
		}
		so := &Op{K: "search", DN: ps.op.DN, Scope: ps.op.Scope, Filter: ps.op.Filter, Want: ps.op.Want, Limit: ps.op.Limit, Page: o.Page}
		if o.Mode == "abandon" {
			so.Page, so.Mode = 0, "abandon"
		}
		r := c.newRec(so)
		r.Page = ps
		if ps.first == nil {
			ps.first = r
		}
		gap := time.Duration(int64(sim.Elapsed()) - ps.lastT)
		c.sendRec(r)
		c.drain()
		if !r.Done {
			ps.over = true
			return
		}
		ps.lastT = r.T0 // sending the answer may have taken long
		if !w.cfg.mayRead(r) {
			if r.Code == 0 || len(r.Ents) > 0 {
				w.violate("history", "", "search without permission was answered: "+r.String())
			}
			ps.over = true
			return
		}
		if o.Mode == "abandon" {
			if d := time.Duration(r.T1 - r.T0); d > abandonBound {
				w.violate("abandon", "", fmt.Sprintf("the abandon of a paged search was answered only after %v", d))
			}
			ps.over, ps.dead = true, true
			return
		}
		if r.Code != 0 {
			ps.over = true
			if len(r.Ents) > 0 {
				w.violate("paging", "", "entries with a refused page: "+r.String())
			}
			if !ps.dead && gap < pageGap && !r.Term && !w.stopping {
				if r == ps.first {
					w.violate("paging", "first", "first page refused: "+r.String())
				} else {
					w.violate("paging", "refused", fmt.Sprintf("page %d refused %v after the previous one, with result %d (%s): %s", len(ps.lens)+1, gap, r.Code, r.Diag, r))
				}
			}
			return
		}
		if o.Page > 0 && len(r.Ents) > o.Page {
			w.violate("paging", "size", fmt.Sprintf("%d entries in a page of at most %d: %s", len(r.Ents), o.Page, r))
		}
		if so.Limit > 0 && len(r.Ents) > so.Limit {
			w.violate("paging", "limit", fmt.Sprintf("%d entries with size limit %d: %s", len(r.Ents), so.Limit, r))
		}
		ps.got = append(ps.got, r.Ents...)
		ps.lens = append(ps.lens, len(r.Ents))
		ps.cookie = pageCookie(r.Ctl)
		if len(ps.cookie) == 0 {
			ps.over, ps.complete = true, true
			return
		}
		if o.Mode != "rest" {
			return
		}
		if steps > 1000 {
			w.violate("paging", "endless", "no end after 1000 pages: "+r.String())
			return
		}
		if o.US > 0 {
			sim.Sleep(time.Duration(o.US) * time.Microsecond)
		}
	}
}

func pageCookie(ctl *node) []byte {
	if ctl == nil {
		return nil
	}
	for _, k := range ctl.kids {
		if len(k.kids) < 2 || string(k.kids[0].data) != "1.2.840.113556.1.4.319" {
			continue
		}
		v := k.kids[len(k.kids)-1]
		if n, _, err := parseTLV(v.data); err == nil && len(n.kids) == 2 {
			return n.kids[1].data
		}
	}
	return nil
}

// ---- generation

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

func safeLDIF(s string) bool {
	if s == "" || strings.TrimSpace(s) != s || strings.IndexByte(":<#{", s[0]) >= 0 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 || s[i] < 32 {
			return false
		}
	}
	return true
}

// ldifText renders entries.
func (g *gen) ldifText(ents []InitEnt, tpl bool, files *[]SrcFile) string {
	var b strings.Builder
	nl := "\n"
	wrap := g.pi(0, 0, 76, 20)
	line := func(s string) {
		for wrap > 0 && len(s) > wrap && !strings.Contains(s, "{{") {
			b.WriteString(s[:wrap] + nl)
			s = " " + s[wrap:]
		}
		b.WriteString(s + nl)
	}
	if g.p(0.2) {
		b.WriteString("# a comment" + nl)
	}
	company, number := "Default", ""
	for i, e := range ents {
		if i > 0 {
			b.WriteString(nl)
			if g.p(0.1) {
				b.WriteString(nl)
			}
		}
		if g.p(0.1) {
			b.WriteString("# entry " + fmt.Sprint(i) + nl)
		}
		dn := e.DN
		if tpl && g.p(0.04) {
			company = g.pick("ACME", "Default")
			b.WriteString("{{WithCompany \"" + company + "\"}}")
		}
		switch {
		case tpl && strings.HasSuffix(dn, g.base) && g.p(0.3):
			b.WriteString("dn: " + strings.TrimSuffix(dn, g.base) + "{{.BaseDN}}" + nl)
		case !safeLDIF(dn) || g.p(0.05):
			line("dn:: " + b64(dn))
		default:
			line("dn: " + dn)
		}
		for _, a := range e.Attrs {
			for _, v := range a.V {
				switch {
				case tpl && fold(a.N) == "jpegphoto":
					fn := fmt.Sprintf("photo%d.bin", len(*files))
					pre := ""
					if g.sc.IsDir {
						pre = "main/"
					}
					*files = append(*files, SrcFile{pre + fn, []byte(v)})
					b.WriteString(a.N + ":: {{formatAsFileBase64 \"" + fn + "\"}}" + nl)
				case tpl && v == company:
					b.WriteString(a.N + ": {{.Company}}" + nl)
				case tpl && a.N == "uidNumber":
					if v == number {
						b.WriteString(a.N + ": {{AutoIncrement}}" + nl)
					} else {
						b.WriteString(a.N + ": {{AutoIncrement " + v + "}}" + nl)
					}
					n, _ := strconv.Atoi(v)
					number = strconv.Itoa(n + 1)
				case tpl && safeLDIF(v) && !strings.ContainsAny(v, "\"\\") && g.p(0.03):
					b.WriteString(a.N + ":: {{formatAsBase64 \"" + v + "\"}}" + nl)
				case !safeLDIF(v) || g.p(0.03):
					line(a.N + ":: " + b64(v))
				default:
					line(a.N + ": " + v)
				}
			}
		}
	}
	s := b.String()
	if g.p(0.1) {
		s = strings.TrimRight(s, "\n")
	} else if g.p(0.1) {
		s += "\n\n"
	}
	return s
}

var badKinds = []string{"missing", "badline", "dup", "badtemplate", "badexec", "badb64", "longline"}

// damage makes a source text unloadable.
func (g *gen) damage(kind, s string) (out, why string) {
	lines := strings.Split(s, "\n")
	at := 1 + g.n(len(lines))
	if at >= len(lines) {
		at = len(lines) - 1
	}
	// in the middle of an entry, where a line of its own is expected
	for at < len(lines)-1 && (lines[at] == "" || lines[at-1] == "" || strings.HasPrefix(lines[at], " ") || strings.HasPrefix(lines[at-1], "#")) {
		at++
	}
	ins := func(l string) string {
		return strings.Join(append(append(append([]string(nil), lines[:at]...), l), lines[at:]...), "\n")
	}
	switch kind {
	case "badline":
		return ins("this is not an attribute"), "malformed line"
	case "dup":
		first := s
		if i := strings.Index(s, "\n\n"); i > 0 {
			first = s[:i]
		}
		return s + "\n\n" + g.dupCase(first) + "\n", "duplicate entry"
	case "badtemplate":
		return ins("cn: {{.Company | noSuchFunction}}"), "malformed template"
	case "badexec":
		return ins("cn: {{formatAsFileBase64 \"" + g.pick("/etc/no-such-file", "nothing.bin", "../secret.bin", "../main-old/secret.bin", "/main-old/secret.bin") + "\"}}"), "failing template"
	case "badb64":
		return ins("sn:: !!!not base64"), "malformed value"
	}
	return s, ""
}

func (g *gen) dupCase(s string) string {
	i := strings.Index(s, "dn: ")
	j := strings.IndexByte(s[max(i, 0):], '\n')
	if i < 0 || j < 0 || strings.Contains(s, "{{") || g.p(0.5) {
		return s
	}
	return s[:i+4] + g.caseMix(s[i+4:i+j]) + s[i+j:]
}

// ldifSources makes nv versions of the sources; badP is the share of
// versions that cannot be loaded.
func (g *gen) ldifSources(nv, users int, badP float64) {
	sc := g.sc
	sc.World = "ldif"
	sc.Init = nil
	sc.Base = g.pick("dc=example,dc=org", "dc=example,dc=org", "dc=Example,dc=ORG", "o=Ex Ample")
	b := sc.Base
	g.base = b
	bn, _ := parseDN(b)
	g.caseOnly = true
	sc.Admin = "uid=admin,ou=sys," + b
	sc.IsDir = g.p(0.4)
	sc.Config = g.p(0.6)
	if sc.Name == "rapid" {
		// what is loaded comes from one file
		sc.IsDir, sc.Config = false, false
	}
	g.names = []string{"uid=u0,ou=people," + b, "uid=nobody,ou=people," + b, "ou=people," + b, "ou=groups," + b}
	g.users = nil
	for i := 0; i < users; i++ {
		g.users = append(g.users, fmt.Sprintf("uid=u%d,ou=people,%s", i, b))
	}
	trap := g.p(0.4)
	outside, hidden := g.p(0.3), g.n(4)
	var photo string
	many := 0
	if sc.Name != "rapid" && g.p(0.015) {
		photo = g.bytes(g.pi(40_000, 70_000, 140_000))
	}
	if sc.Name != "rapid" && g.p(0.01) {
		many = 100 + g.n(150)
	}
	var mark uint64
	for v := 0; v < nv; v++ {
		src := Source{}
		if v > 0 && g.p(0.2) {
			if p := sc.Sources[v-1]; p.Bad == "" && !p.Half {
				// differs from the one before in nothing but a few characters
				sc.Sources = append(sc.Sources, g.twin(p, v, mark))
				continue
			}
		}
		add := func(l *[]InitEnt, dn string, at ...Attr) {
			n, _ := parseDN(dn)
			e := InitEnt{DN: dn}
			e.Attrs = append(e.Attrs, Attr{n[0][0].t, []string{n[0][0].v}})
			for _, a := range at {
				hit := false
				for i := range e.Attrs {
					if fold(e.Attrs[i].N) == fold(a.N) {
						hit = true
					}
				}
				if !hit {
					e.Attrs = append(e.Attrs, a)
				}
			}
			e.Attrs = append(e.Attrs, Attr{"title", []string{fmt.Sprintf("v%d", v)}})
			*l = append(*l, e)
		}
		add(&src.Main, b, oc("organization"))
		add(&src.Main, "ou=sys,"+b, oc("organizationalUnit"))
		add(&src.Main, sc.Admin, oc("person"), Attr{g.secretName(), []string{adminPW}})
		add(&src.Main, "uid=auditor,ou=sys,"+b, oc("person"), Attr{g.secretName(), []string{auditPW}})
		add(&src.Main, "ou=people,"+b, oc("organizationalUnit"))
		if g.p(0.7) {
			add(&src.Main, "ou=groups,"+b, oc("organizationalUnit"))
		}
		if trap {
			// a name that ends like another one
			add(&src.Main, "xou=people,"+b, oc("organizationalUnit"))
			add(&src.Main, "uid=u1,xou=people,"+b, oc("person"), Attr{"cn", []string{g.val()}})
		}
		number := 1000
		for _, u := range g.users {
			if v > 0 && g.p(0.15) {
				continue
			}
			at := []Attr{oc("person"), {"cn", g.vals(2)}}
			if !g.p(0.1) {
				st, _ := g.anyCred()
				at = append(at, Attr{g.secretName(), []string{st}})
			}
			for k := g.n(3); k > 0; k-- {
				at = append(at, Attr{g.attrName2(), g.vals(3)})
			}
			if g.p(0.1) {
				at = append(at, Attr{"o", []string{g.pick("Default", "ACME")}})
			}
			if g.p(0.15) {
				number++
				if g.p(0.3) {
					number = g.n(5000)
				}
				at = append(at, Attr{"uidNumber", []string{fmt.Sprint(number)}})
			}
			if sc.Name != "rapid" && g.p(0.1) {
				at = append(at, Attr{"jpegPhoto", []string{g.bytes(g.n(40) + 1)}})
			}
			add(&src.Main, u, at...)
			if g.p(0.1) {
				add(&src.Main, "cn=Doe\\, J,"+u, oc("person"), Attr{"sn", g.vals(2)})
			}
		}
		if photo != "" {
			add(&src.Main, "uid=large,ou=people,"+b, oc("person"), Attr{"jpegPhoto", []string{photo}})
		}
		for i := 0; i < many; i++ {
			add(&src.Main, fmt.Sprintf("uid=m%d,ou=people,%s", i, b), oc("person"))
		}
		if sc.Config {
			for i := 0; i < 2; i++ {
				if v > 0 && g.p(0.15) {
					continue
				}
				st, _ := g.anyCred()
				add(&src.Conf, fmt.Sprintf("cn=svc%d,ou=hidden,%s", i, b), oc("account"), Attr{g.secretName(), []string{st}}, Attr{"description", []string{fmt.Sprintf("hidden-entry-%d-%d", i, v)}})
			}
		}
		if outside {
			// entries that are not below the base although the sources have them
			for i, n := range []string{"dc=other", "x" + b, "cn=a\\," + b} {
				l := &src.Main
				if sc.Config && i == hidden {
					l = &src.Conf
				}
				st, _ := g.anyCred()
				add(l, "uid=out,"+n, oc("person"), Attr{"cn", g.vals(2)}, Attr{g.secretName(), []string{st}})
			}
		}
		// shuffle the order of entries
		if g.p(0.3) {
			for i := len(src.Main) - 1; i > 0; i-- {
				j := g.n(i + 1)
				src.Main[i], src.Main[j] = src.Main[j], src.Main[i]
			}
		}
		bad := v > 0 && g.p(badP)
		mark = g.s
		g.render(&src, bad)
		sc.Sources = append(sc.Sources, src)
	}
	g.d = newDir(readable(b, sc.Sources[0].Main))
	g.cfg = modelCfg{base: bn, baseK: bn.key(), admin: normKey(sc.Admin), creds: credTable}
}

func (g *gen) twin(p Source, v int, mark uint64) Source {
	var src Source
	for i, l := range [][]InitEnt{p.Main, p.Conf} {
		for _, e := range l {
			c := InitEnt{DN: e.DN}
			for _, a := range e.Attrs {
				if a.N == "title" {
					a.V = []string{fmt.Sprintf("v%d", v)}
				}
				c.Attrs = append(c.Attrs, a)
			}
			if i == 0 {
				src.Main = append(src.Main, c)
			} else {
				src.Conf = append(src.Conf, c)
			}
		}
	}
	s := g.s
	g.s = mark
	g.render(&src, false)
	g.s = s
	return src
}

func (g *gen) attrName2() string {
	a := g.pick("mail", "description", "sn", "givenName", "mobile")
	if g.p(0.2) {
		a = g.caseMix(a)
	}
	return a
}

// render writes the files of a version.
func (g *gen) render(src *Source, bad bool) {
	sc := g.sc
	tpl := true
	var texts []SrcFile
	kind := ""
	if bad {
		kind = badKinds[g.n(len(badKinds))]
	}
	if kind == "longline" {
		// may be too long to be read, but then for the source as a whole
		src.Main = append([]InitEnt(nil), src.Main...)
		e := &src.Main[g.n(len(src.Main))]
		e.Attrs = append(append([]Attr(nil), e.Attrs...), Attr{"labeledURI", []string{strings.Repeat("x", 70000)}})
		src.Half, bad = true, false
	}
	if sc.IsDir {
		n := 1 + g.n(4)
		per := len(src.Main)/n + 1
		for i := 0; i < n; i++ {
			lo, hi := min(i*per, len(src.Main)), min((i+1)*per, len(src.Main))
			if lo == hi && i > 0 {
				break
			}
			texts = append(texts, SrcFile{fmt.Sprintf("main/%02d.ldif", i), []byte(g.ldifText(src.Main[lo:hi], tpl, &src.Files))})
		}
		if g.p(0.2) {
			texts = append(texts, SrcFile{"main/readme.txt", []byte("not LDIF at all")})
		}
	} else {
		texts = append(texts, SrcFile{"main.ldif", []byte(g.ldifText(src.Main, tpl, &src.Files))})
	}
	if sc.Config {
		texts = append(texts, SrcFile{"config.ldif", []byte(g.ldifText(src.Conf, false, &src.Files))})
	}
	if bad {
		i := g.n(len(texts))
		for strings.HasSuffix(texts[i].Name, ".txt") {
			i = g.n(len(texts))
		}
		switch {
		case kind == "missing" && !sc.IsDir:
			src.Bad = "missing file"
			texts = append(texts[:i:i], texts[i+1:]...)
		default:
			if kind == "missing" || len(texts[i].Data) < 40 {
				kind = "badtemplate"
			}
			// files next to the sources that must not be read
			texts = append(texts, SrcFile{"../secret.bin", []byte("secret")}, SrcFile{"../main-old/secret.bin", []byte("secret")})
			if sc.IsDir {
				texts = append(texts, SrcFile{"main-old/secret.bin", []byte("secret")}, SrcFile{"secret.bin", []byte("secret")})
			}
			s, why := g.damage(kind, string(texts[i].Data))
			texts[i].Data, src.Bad = []byte(s), why
		}
	}
	src.Files = append(src.Files, texts...)
}

func (g *gen) ldifOp(who string) *Op {
	o := &Op{K: g.kind()}
	switch o.K {
	case "search":
		o = g.search()
	case "page":
		s := g.search()
		s.K, s.Limit = "page", 0
		s.Page = g.pi(1, 2, 3, 4, 5, 7, 100)
		s.Slot = g.n(2)
		s.Mode = g.pick("", "", "", "rest", "abandon", "stale")
		if s.Mode == "rest" && g.p(0.3) {
			s.US = int64(g.n(3_000_000))
		}
		if g.p(0.5) {
			s.DN, s.Scope, s.Filter = g.base, 2, anyFilter
			if g.p(0.5) {
				s.Filter = g.alternatives()
			}
		}
		o = s
	case "bind":
		g.ldifBind(o)
	case "add":
		o.DN = g.names[g.n(len(g.names))]
		o.Attrs = g.entryAttrs(o.DN)
	case "del":
		o.DN = g.anyName()
	case "mod":
		o.DN = g.anyName()
		o.Mods = g.mods(o.DN)
	case "ren":
		o.DN = g.anyName()
		o.NewRDN = g.newRDN(o.DN)
	case "pw":
		g.pwOp(o, who)
		if strings.HasPrefix(o.Old, "@") {
			o.Old = "x"
		}
	case "ext":
		o.DN = g.pick("1.3.6.1.4.1.4203.1.11.3", "1.3.6.1.4.1.1466.20037", "1.2.3")
	case "sleep":
		o.US = int64(g.n(g.pi(20000, 5_000_000, 20_000_000, 80_000_000)))
	}
	if g.p(0.3) {
		o.Pre = int64(g.n(g.pi(3000, 3000, 500_000, 4_000_000)))
	}
	return o
}

// alternatives is a filter with several parts that match many entries each.
func (g *gen) alternatives() *Filter {
	f := &Filter{Op: "or"}
	for k := 2 + g.n(2); k > 0; k-- {
		f.F = append(f.F, []*Filter{
			{Op: "eq", A: "objectClass", V: "person"}, {Op: "eq", A: "objectClass", V: "organizationalUnit"},
			{Op: "pres", A: "uid"}, {Op: "pres", A: "ou"}, {Op: "sub", A: "uid", Ini: "u"}, {Op: "sub", A: "title", Ini: "v"},
		}[g.n(6)])
	}
	return f
}

func (g *gen) ldifBind(o *Op) {
	o.K = "bind"
	src := g.sc.Sources[g.n(len(g.sc.Sources))]
	l := src.Main
	if len(src.Conf) > 0 && g.p(0.35) {
		l = src.Conf
	}
	e := l[g.n(len(l))]
	for k := 0; k < 5; k++ {
		if newEntry(e.DN, e.Attrs).get("userPassword") != nil {
			break
		}
		e = l[g.n(len(l))]
	}
	o.DN = g.spell(e.DN)
	o.PW = passwords[g.n(len(passwords))]
	if a := newEntry(e.DN, e.Attrs).get("userPassword"); a != nil && g.p(0.8) {
		o.PW = a.V[0]
		if c, ok := credTable[o.PW]; ok {
			o.PW = c
		}
		if g.p(0.2) {
			o.PW = g.near(o.PW)
		}
	}
	switch g.n(14) {
	case 0:
		o.PW = ""
	case 1:
		o.DN, o.PW = "", ""
	case 2:
		o.DN = g.invalidName()
	case 3:
		if g.p(0.4) {
			o.Vers = 2
		} else if g.p(0.4) {
			o.Mode = g.pick("sasl", "sasl", "othertag", "textversion", "more")
		}
	case 4:
		if g.p(0.5) {
			o.DN = g.lookalike(o.DN)
		}
	}
}

func (g *gen) ldifClients(n, ops int) {
	for i := 0; i < n; i++ {
		c := &Client{IP: g.ip()}
		switch {
		case g.p(0.3):
			c.DN, c.PW = g.sc.Admin, adminPW
		case g.p(0.8):
			c.DN, c.PW = "uid=auditor,ou=sys,"+g.base, auditPW
		}
		g.sc.Clients = append(g.sc.Clients, c)
	}
	for k := 0; k < ops; k++ {
		c := g.sc.Clients[g.n(n)]
		c.Ops = append(c.Ops, g.ldifOp(c.DN))
	}
}

func (g *gen) reloads() {
	for v := 1; v < len(g.sc.Sources); v++ {
		ev := &Event{K: "source", Src: v, US: int64(g.n(g.pi(2000, 30000, 3_000_000)))}
		if g.p(0.3) {
			ev.N = 1 + g.n(3)
		}
		g.sc.Events = append(g.sc.Events, ev)
		if g.p(0.2) {
			// the same once more
			g.sc.Events = append(g.sc.Events, &Event{K: "source", Src: v, US: int64(g.n(2000))})
		}
	}
}

// C10
func genPaging(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.big = false
	g.simple = g.p(0.5)
	g.ldifSources(1+g.n(3), g.n(g.pi(6, 14, 30)), 0.1)
	g.reloads()
	g.weights(map[string]int{"page": 20, "search": 3, "bind": 1, "sleep": 2})
	if g.w["page"] == 0 {
		g.w["page"] = 20
		g.wsum += 20
	}
	g.ldifClients(1+g.n(3), 10+g.n(30))
	for _, c := range g.sc.Clients {
		if g.p(0.1) {
			c.Slow = true
		}
		var l []*Op
		for _, o := range c.Ops {
			l = append(l, o)
			if g.p(0.03) {
				l = append(l, &Op{K: g.pick("abort", "vanish", "close")})
			}
			if o.K == "page" && o.Mode == "" && g.p(0.4) {
				p := *o
				p.Mode = g.pick("rest", "abandon", "", "")
				if p.Mode == "" {
					p.Pre = int64(g.pi(100, 59_990_000, 59_999_000, 60_000_000, 61_000_000, 300_000_000)) + int64(g.n(2000))
				}
				l = append(l, &p)
			}
		}
		c.Ops = l
	}
	if name == "stop" {
		g.sc.Events = append(g.sc.Events, &Event{K: "term", US: int64(g.n(g.pi(3000, 100_000, 2_000_000))), Wait: 1000})
	}
	return g.sc
}

// C11
func genReload(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = true
	g.big = g.p(0.05)
	switch name {
	case "reload":
		g.ldifSources(2+g.n(3), 2+g.n(8), 0)
	case "rapid":
		g.ldifSources(3+g.n(4), 2+g.n(6), g.pf(0, 0.2))
	case "bad":
		g.ldifSources(2+g.n(3), 2+g.n(6), 0.6)
	case "readerr":
		g.ldifSources(2+g.n(3), 2+g.n(8), 0.15)
		g.sourceFaults()
	case "start":
		g.ldifSources(1+g.n(2), 2+g.n(6), 0)
		if g.p(0.5) {
			g.render2(&g.sc.Sources[0])
		} else {
			g.sourceFaults()
			g.sc.Events = append(g.sc.Events, &Event{K: "startfaults"})
		}
		if len(g.sc.Sources) == 1 {
			// something sound to start with afterwards
			s := g.sc.Sources[0]
			s.Files, s.Bad, s.Half = nil, "", false
			s.Main = append([]InitEnt(nil), s.Main...)
			for i, e := range s.Main {
				if l := len(e.Attrs) - 1; e.Attrs[l].N == "labeledURI" {
					s.Main[i].Attrs = e.Attrs[:l:l]
				}
			}
			g.render(&s, false)
			g.sc.Sources = append(g.sc.Sources, s)
		}
		g.weights(map[string]int{"search": 6, "bind": 3})
		g.ldifClients(1+g.n(2), 4+g.n(6))
		return g.sc
	}
	g.reloads()
	if name == "rapid" {
		for _, ev := range g.sc.Events {
			if g.p(0.7) {
				ev.Wait = int64(1 + g.n(g.pi(100, 1000, 5000)))
			}
			if ev.US > 30000 {
				ev.US = 1
			}
		}
		g.sc.Events[len(g.sc.Events)-1].Wait = 0
	}
	g.weights(map[string]int{"search": 10, "bind": 8, "sleep": 2})
	g.ldifClients(1+g.n(4), 10+g.n(40))
	return g.sc
}

func (g *gen) render2(s *Source) {
	for s.Bad == "" && !s.Half {
		s.Files = nil
		g.render(s, true)
	}
}

func (g *gen) sourceFaults() {
	f := &g.sc.Disk
	r := func() float64 { return g.pf(0, 0.02, 0.1, 0.3) }
	f.ReadErr, f.OpenErr, f.StatErr, f.ShortRead = r(), r(), r(), r()
	if f.ReadErr+f.OpenErr+f.StatErr == 0 {
		f.ReadErr = 0.2
	}
	if g.p(0.3) {
		f.SlowOp = g.pf(0.05, 0.3)
	}
}

// the other properties on the LDIF backend
func genLDIF(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.simple = prop != "C09" && prop != "C08"
	nv := 1 + g.n(2)
	if prop == "C07" || prop == "C06" {
		g.badCred = 0.15
	}
	if prop == "C09" {
		nv = 1
	}
	if prop != "C14" {
		g.sc.Anon = g.p(0.5)
	}
	g.ldifSources(nv, 2+g.n(8), 0)
	g.reloads()
	kinds := map[string]map[string]int{
		"C06": {"add": 4, "del": 4, "mod": 4, "ren": 4, "pw": 4, "bind": 8, "search": 4},
		"C07": {"bind": 16, "pw": 2, "search": 1, "sleep": 1},
		"C08": {"search": 12, "bind": 10, "page": 3},
		"C09": {"search": 20, "sleep": 1},
		"C12": {"add": 2, "del": 2, "mod": 2, "ren": 2, "pw": 2, "bind": 2, "search": 12, "ext": 2},
		"C13": {"add": 2, "del": 2, "mod": 2, "ren": 2, "pw": 2, "bind": 3, "search": 8, "page": 8, "ext": 1, "sleep": 1},
		"C14": {"search": 14, "page": 4, "bind": 2},
		"C15": {"add": 2, "del": 2, "mod": 2, "ren": 2, "pw": 1, "bind": 4, "search": 8, "page": 4, "ext": 1},
	}[prop]
	g.weights(kinds)
	g.ldifClients(1+g.n(4), 10+g.n(30))
	switch prop {
	case "C09":
		// begin with much the same at the same time
		f := g.filter(1)
		for _, c := range g.sc.Clients {
			for k := g.n(3); k > 0; k-- {
				o := g.search()
				o.DN, o.Scope = g.base, 2
				if g.p(0.7) {
					o.Filter = f
				}
				c.Ops = append([]*Op{o}, c.Ops...)
			}
		}
	case "C15":
		g.sc.NoLin = true
		g.statsClients(g.pick("stats", "churn"))
	case "C06":
		if g.p(0.4) {
			g.churn(0.1)
		}
	case "C08":
		if g.p(0.4) {
			g.churn(0.1)
		}
		for _, c := range g.sc.Clients {
			if g.p(0.5) {
				c.DN, c.PW = "", ""
			}
			for _, o := range c.Ops {
				if o.Filter != nil && g.p(0.25) {
					o.Filter = g.secretFilter()
				}
				if o.K == "search" && g.p(0.2) {
					o.Want = []string{g.pick("userPassword", "USERPASSWORD", "*", "+"), "cn"}
				}
			}
		}
	case "C12":
		for _, c := range g.sc.Clients {
			c.Slow = g.p(0.3)
			for _, o := range c.Ops {
				o.Pipe = g.p(0.6)
			}
		}
	case "C13":
		g.hostile(1+g.n(2), 3+g.n(8), "", "")
		g.hostile(1+g.n(2), 3+g.n(8), "uid=auditor,ou=sys,"+g.base, auditPW)
		for _, c := range g.sc.Clients[1:] {
			var l []*Op
			for _, o := range c.Ops {
				if o.K != "raw" && o.K != "page" && g.p(0.1) {
					o.Cut = 1 + g.n(60)
				}
				if o.K != "raw" && o.K != "page" && o.Cut == 0 && g.p(0.2) {
					o.Pipe = true
				}
				l = append(l, o)
				if g.p(0.1) {
					l = append(l, &Op{K: g.pick("abort", "vanish")})
				}
			}
			c.Ops = l
		}
		if g.p(0.2) {
			g.sc.Net.Window = g.pi(200, 1000, 4096)
			g.stalled(1 + g.n(2))
			g.idle(g.n(2))
		}
	case "C14":
		for _, c := range g.sc.Clients {
			for _, o := range c.Ops {
				o.Pipe = o.K != "page" && g.p(0.3)
			}
		}
		for k := 1 + g.n(2); k > 0; k-- {
			ev := &Event{K: "term", US: int64(g.n(g.pi(1000, 10000, 60000))), Wait: int64(g.n(20000)), Src: g.n(4) / 3}
			if g.p(0.3) {
				ev.N = 1 + g.n(2)
			}
			g.sc.Events = append(g.sc.Events, ev)
		}
		if g.p(0.3) {
			g.idle(1 + g.n(2))
		}
		if g.p(0.3) {
			g.stalled(1)
		}
	}
	return g.sc
}

func (g *gen) secretFilter() *Filter {
	src := g.sc.Sources[g.n(len(g.sc.Sources))]
	e := src.Main[g.n(len(src.Main))]
	f := &Filter{Op: "pres", A: g.pick("userPassword", "USERPASSWORD")}
	if a := newEntry(e.DN, e.Attrs).get("userPassword"); a != nil && g.p(0.7) {
		f = &Filter{Op: "eq", A: "userPassword", V: a.V[0]}
		if g.p(0.4) && len(a.V[0]) > 1 {
			f = &Filter{Op: "sub", A: "userPassword", Ini: a.V[0][:1]}
		}
	}
	if len(src.Conf) > 0 && g.p(0.2) {
		f = &Filter{Op: "eq", A: "cn", V: g.pick("svc0", "svc1")}
	}
	if g.p(0.2) {
		f = &Filter{Op: "not", F: []*Filter{f}}
	}
	return f
}

func init() {
	profiles["C10"] = []profile{{"paging", 4, genPaging}, {"stop", 1, genPaging}}
	for _, p := range []string{"C06", "C07", "C08", "C09", "C12", "C13", "C14"} {
		w := 0
		for _, x := range profiles[p] {
			w += x.w
		}
		profiles[p] = append(profiles[p], profile{"ldif", (w + 2) / 3, genLDIF})
	}
	profiles["C11"] = []profile{{"reload", 3, genReload}, {"bad", 3, genReload}, {"readerr", 3, genReload}, {"rapid", 2, genReload}, {"start", 2, genReload}}
}
