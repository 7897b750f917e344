package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/libregraph/idm/cmd/idmd/boltdb"
	"github.com/spf13/cobra"
	"verif.local/simrt/sim"
	"verif.local/simrt/xos"
)

// The offline commands: load, export and newusers, each as a process of its
// own with the simulated disk and standard streams.

const inputFile = "/data/input.ldif"

// command runs one command line to its end.
func (w *world) command(name string, io *xos.Stdio, mk func() *cobra.Command, args ...string) *sim.Proc {
	sim.Sleep(time.Millisecond)
	p := w.spawn(name, io, mk, args...)
	w.proc, w.inc = p, w.incs
	if !p.WaitDeath(time.Hour) {
		w.violate("hang", name, name+" did not end within an hour")
		p.Kill()
	}
	if p.Crash != "" {
		w.violate("crash", crashKey(p.Crash), name+" crashed: "+firstLines(p.Crash, 14))
	}
	sim.Logf("%s exit=%v %d", name, p.Exited, p.ExitCode)
	w.commands++
	h := fnv.New64a()
	fmt.Fprint(h, name, args, p.Exited, p.ExitCode, w.disk.Ops)
	h.Write(io.Out)
	w.hist = sim.Mix(w.hist, h.Sum64())
	return p
}

// spawn starts one command line.
func (w *world) spawn(name string, io *xos.Stdio, mk func() *cobra.Command, args ...string) *sim.Proc {
	w.incs++
	name = fmt.Sprintf("%s%d", name, w.incs)
	p := sim.NewProc(name)
	p.Values["stdio"] = io
	w.count(name[:len(name)-len(strconv.Itoa(w.incs))])
	sim.GoIn(name, p, func() {
		boot()
		c := mk()
		c.SetArgs(args)
		c.SilenceUsage, c.SilenceErrors = true, true
		if err := c.Execute(); err != nil {
			sim.Logf("%s: %v", name, err)
			sim.Exit(1)
		}
		sim.Exit(0)
	})
	return p
}

func exitedOK(p *sim.Proc) bool { return p.Exited && p.ExitCode == 0 }

// parseLDIF reads LDIF content records as defined by RFC 2849.
func parseLDIF(s string) ([]InitEnt, error) {
	var out []InitEnt
	var cur *InitEnt
	s = strings.ReplaceAll(s, "\r\n", "\n")
	raw := strings.Split(s, "\n")
	if raw[len(raw)-1] != "" {
		return nil, errors.New("last line is not terminated")
	}
	var lines []string
	for _, l := range raw {
		if strings.HasPrefix(l, " ") && len(lines) > 0 && lines[len(lines)-1] != "" {
			lines[len(lines)-1] += l[1:]
			continue
		}
		lines = append(lines, l)
	}
	flush := func() {
		if cur != nil {
			out = append(out, *cur)
			cur = nil
		}
	}
	for i, l := range lines {
		if l == "" {
			flush()
			continue
		}
		if l[0] == '#' {
			continue
		}
		at := strings.IndexByte(l, ':')
		if at <= 0 {
			return nil, fmt.Errorf("line %d %q has no attribute name", i+1, l)
		}
		n, v := l[:at], l[at+1:]
		switch {
		case strings.HasPrefix(v, ":"):
			b, err := base64.StdEncoding.DecodeString(strings.TrimLeft(v[1:], " "))
			if err != nil {
				return nil, fmt.Errorf("line %d %q: %v", i+1, l, err)
			}
			v = string(b)
		case strings.HasPrefix(v, "<"):
			return nil, fmt.Errorf("line %d %q refers to a URL", i+1, l)
		default:
			v = strings.TrimLeft(v, " ")
			if strings.HasPrefix(v, ":") || strings.HasPrefix(v, "<") {
				return nil, fmt.Errorf("line %d %q: value must be encoded", i+1, l)
			}
		}
		if cur == nil {
			if n == "version" {
				continue
			}
			if n != "dn" {
				return nil, fmt.Errorf("line %d %q: entry without name", i+1, l)
			}
			cur = &InitEnt{DN: v}
			continue
		}
		hit := false
		for k := range cur.Attrs {
			if fold(cur.Attrs[k].N) == fold(n) {
				cur.Attrs[k].V = append(cur.Attrs[k].V, v)
				hit = true
			}
		}
		if !hit {
			cur.Attrs = append(cur.Attrs, Attr{n, []string{v}})
		}
	}
	flush()
	return out, nil
}

// sameEntries tells in words how two sets of entries differ.
func sameEntries(got, want []InitEnt) string {
	a, b := map[string]string{}, map[string]string{}
	for _, e := range got {
		k := normKey(e.DN)
		if _, ok := a[k]; ok {
			return "twice: " + e.DN
		}
		a[k] = canonAttrs(e.Attrs, nil)
	}
	for _, e := range want {
		b[normKey(e.DN)] = canonAttrs(e.Attrs, nil)
	}
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok1 := a[k]
		y, ok2 := b[k]
		switch {
		case !ok1:
			return "missing: " + k
		case !ok2:
			return "not in the input: " + k
		case x != y:
			return fmt.Sprintf("different: %s has %s instead of %s", k, cutStr(x), cutStr(y))
		}
	}
	return ""
}

func cutStr(s string) string {
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}

func runOffline(w *world) {
	sc := w.sc
	off := sc.Off
	d := w.disk
	ops := func(path string, at int, hit func()) func(op, p string) {
		n := 0
		return func(op, p string) {
			if p != path || sim.CurProc() != w.proc {
				return
			}
			n++
			w.dbOps = n
			if n == at {
				sim.Probe("crash-before-" + op)
				hit()
			}
		}
	}
	load := func(in, db string) *sim.Proc {
		return w.command("load", xos.NewStdio(nil), boltdb.CommandBoltDB, "load", "--boltdb-file", db, "--input-file", in, "--ldap-base-dn", sc.Base, "--log-level", "error")
	}
	// how many disk operations it takes to create a database
	d.Match = func(p string) bool { return p == "/data/empty.db" }
	d.OnOp = ops("/data/empty.db", 0, nil)
	d.Put("/data/empty.ldif", nil)
	load("/data/empty.ldif", "/data/empty.db")
	initOps := w.dbOps
	w.viols = nil

	d.Put(inputFile, off.Input)
	d.Match = func(p string) bool { return p == dbFile || p == inputFile }
	killed := false
	w.dbOps = 0
	d.OnOp = ops(dbFile, off.KillAt, func() {
		killed = true
		sim.Fault("crash.kill")
		if off.PowerLs {
			sim.Fault("crash.powerloss")
			d.PowerLoss()
		}
		w.proc.Kill()
	})
	inj := d.Injected
	firstOp := -1
	count := d.OnOp
	d.OnOp = func(op, p string) {
		if d.Injected != inj && firstOp < 0 {
			firstOp = w.dbOps
		}
		count(op, p)
	}
	d.On = sc.Disk != (xos.Faults{})
	p := load(inputFile, dbFile)
	d.On = false
	d.OnOp = nil
	done := w.dbOps
	faulted := d.Injected != inj
	if faulted && firstOp >= 0 && firstOp < done {
		done = firstOp
	}
	ok := exitedOK(p)
	if len(w.viols) > 0 {
		return
	}
	switch {
	case ok && off.Bad != "":
		w.violate("offline", "accepted", "load reports success although the input has a "+off.Bad)
	case !ok && off.Bad == "" && !faulted && !killed:
		w.violate("offline", "refused", fmt.Sprintf("load failed without a reason: %q", stderrOf(p)))
	}
	if ok && off.PowerLs {
		sim.Fault("crash.powerloss")
		d.PowerLoss()
	}
	// what is in the database now
	got, err := w.export()
	if !ok && done <= initOps {
		// not even the creation of the database has been completed
		w.viols = nil
	}
	if len(w.viols) > 0 {
		return
	}
	if err != nil {
		if ok {
			w.violate("offline", "unreadable", fmt.Sprintf("the database cannot be exported after a successful load: %v", err))
			return
		}
		// nothing has been loaded, but what has been created has to be usable
		if done > initOps {
			w.mustStart("start after an interrupted load")
		}
		return
	}
	k := min(len(got), len(off.Ents))
	if ok {
		k = len(off.Ents)
	}
	if why := sameEntries(got, off.Ents[:k]); why != "" {
		w.violate("offline", "content", fmt.Sprintf("after load (success: %v) of %d entries the export has %d; %s", ok, len(off.Ents), len(got), why))
		return
	}
	switch k {
	case 0:
		w.count("loaded_none")
	case len(off.Ents):
		w.count("loaded_all")
	default:
		w.count("loaded_part")
	}
	// export over faults
	for i := range off.Outs {
		w.exportFaulty(off.Ents[:k], &off.Outs[i])
		if len(w.viols) > 0 {
			return
		}
	}
	if off.Serve {
		has := false
		for _, e := range off.Ents[:k] {
			if normKey(e.DN) == normKey("uid=auditor,ou=sys,"+sc.Base) {
				has = true
			}
		}
		if has {
			if !w.mustStart("start on the loaded database") {
				return
			}
			w.finalAudit()
			w.checkAlive()
			w.over = true
			if len(w.viols) == 0 {
				w.linCheck(newDir(off.Ents[:k]))
			}
		}
	}
}

func stderrOf(p *sim.Proc) string {
	if s, ok := p.Values["stdio"].(*xos.Stdio); ok {
		return firstLines(string(s.Err), 4)
	}
	return ""
}

var errNoExport = errors.New("export failed")

func (w *world) exportTo(io *xos.Stdio) *sim.Proc {
	return w.command("export", io, boltdb.CommandBoltDB, "export", "--boltdb-file", dbFile, "--ldap-base-dn", w.sc.Base, "--log-level", "error")
}

// export dumps the database without faults.
func (w *world) export() ([]InitEnt, error) {
	io := xos.NewStdio(nil)
	p := w.exportTo(io)
	if !exitedOK(p) {
		return nil, fmt.Errorf("%w: %s", errNoExport, firstLines(string(io.Err), 4))
	}
	l, err := parseLDIF(string(io.Out))
	if err != nil {
		w.violate("offline", "output", "the export is not valid LDIF: "+cutStr(err.Error()))
	}
	return l, nil
}

// exportFaulty dumps the database over faults; it may fail but must not claim success.
func (w *world) exportFaulty(want []InitEnt, f *OutFault) {
	d := w.disk
	io := xos.NewStdio(nil)
	if f.At >= 0 {
		io.OutErrAt = f.At
	}
	d.F, d.On = f.Disk, f.Disk != (xos.Faults{})
	d.Match = func(p string) bool { return p == dbFile }
	p := w.exportTo(io)
	d.On = false
	if len(w.viols) > 0 || !exitedOK(p) {
		return
	}
	if io.OutFailed {
		w.violate("offline", "export", fmt.Sprintf("export reports success although its output could only be written up to byte %d", len(io.Out)))
		return
	}
	l, err := parseLDIF(string(io.Out))
	why := ""
	if err != nil {
		why = err.Error()
	} else {
		why = sameEntries(l, want)
	}
	if why != "" {
		w.violate("offline", "export", "export reports success for an incomplete dump: "+cutStr(why))
	}
}

// C16
func genOffline(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	g.initTree(g.n(8))
	sc := g.sc
	sc.World = "offline"
	off := &Offline{}
	sc.Off = off
	ents := sc.Init
	sc.Init = nil
	have := map[string]bool{}
	for _, e := range ents {
		have[normKey(e.DN)] = true
	}
	add := func(dn string, at ...Attr) {
		if have[normKey(dn)] {
			return
		}
		n, ok := parseDN(dn)
		if !ok || !have[n[1:].key()] {
			return
		}
		have[normKey(dn)] = true
		e := InitEnt{DN: dn}
		for _, a := range n[0] {
			e.Attrs = append(e.Attrs, Attr{a.t, []string{a.v}})
		}
		for _, a := range at {
			dup := false
			for i := range e.Attrs {
				if fold(e.Attrs[i].N) == fold(a.N) {
					dup = true
				}
			}
			if !dup {
				e.Attrs = append(e.Attrs, a)
			}
		}
		ents = append(ents, e)
	}
	people := "ou=people," + g.base
	for i, n := 0, g.pi(0, 2, 5, 15); i < n; i++ {
		dn := fmt.Sprintf("%s=%s,%s", g.pick("uid", "cn", "ou"), g.pick(fmt.Sprintf("x%d", i), fmt.Sprintf("Über %d", i), fmt.Sprintf("a\\, b%d", i), fmt.Sprintf("a\\+b%d", i), fmt.Sprintf("\\#%d", i), fmt.Sprintf("a\\\"%d", i), strings.Repeat("long", 30)+strconv.Itoa(i)), people)
		if i > 0 && g.p(0.4) {
			dn = fmt.Sprintf("uid=y%d,%s", i, ents[len(ents)-1].DN)
		}
		at := []Attr{oc("person")}
		for _, a := range []string{"cn", "sn", "description", "mail", "jpegPhoto", "userCertificate;binary"} {
			if g.p(0.4) {
				at = append(at, Attr{a, g.oddVals(1 + g.n(3))})
			}
		}
		add(dn, at...)
	}
	if g.p(0.015) {
		add("cn=large,"+people, oc("person"), Attr{"jpegPhoto", []string{g.bytes(g.pi(40_000, 70_000, 140_000))}})
	}
	if g.p(0.015) {
		for i := 100 + g.n(150); i > 0; i-- {
			add(fmt.Sprintf("uid=m%d,%s", i, people), oc("person"))
		}
	}
	off.Ents = ents
	text := g.ldifText(ents, false, nil)
	if g.p(0.2) {
		text = "version: 1\n" + text
	}
	if g.p(0.1) {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	off.Serve = g.p(0.4)
	switch name {
	case "faithful":
		off.PowerLs = g.p(0.3)
	case "malformed":
		off.Bad = ""
		for off.Bad == "" {
			text, off.Bad = g.damage(g.pick("badline", "dup", "badb64"), text)
		}
	case "crash":
		off.KillAt = 1 + g.n(g.pi(10, 40, 40, 150))
		off.PowerLs = g.p(0.6)
	case "diskerr":
		f := &sc.Disk
		r := g.pf(0.01, 0.05, 0.2)
		for _, x := range []*float64{&f.WriteErr, &f.SyncErr, &f.ShortWr, &f.NoSpace, &f.ReadErr, &f.OpenErr, &f.TruncErr, &f.StatErr} {
			if g.p(0.3) {
				*x = r
			}
		}
		if g.p(0.5) {
			f.ShortRead = g.pf(0.1, 0.5)
		}
	}
	if name == "export" || g.p(0.15) {
		for i := 1 + g.n(4); i > 0; i-- {
			o := OutFault{At: -1}
			if g.p(0.6) {
				o.At = g.n(g.pi(10, 1+len(text), 1+2*len(text)))
			}
			if g.p(0.5) {
				o.Disk = xos.Faults{ReadErr: g.pf(0, 0.2), OpenErr: g.pf(0, 0.2), StatErr: g.pf(0, 0.2), ShortRead: g.pf(0, 0.3)}
			}
			off.Outs = append(off.Outs, o)
		}
	}
	off.Input = []byte(text)
	return sc
}

// oddVals are values that need care in text form.
func (g *gen) oddVals(n int) []string {
	var l []string
	for len(l) < n {
		v := g.pick("plain", " leading", "trailing ", ":colon", "<less", "#hash", "Zürich", "line\nbreak", "nul\x00byte", "\xff\xfe\x80", "a: b", "::", " ", "tab\t", "{ARGON2}x", "-", "\r", "0")
		if g.p(0.2) {
			v = strings.Repeat(v, 1+g.n(200))
		}
		if g.p(0.02) {
			v = strings.Repeat("0123456789", 700)
		}
		v += g.pick("", "", strconv.Itoa(g.n(100)))
		dup := false
		for _, x := range l {
			if fold(x) == fold(v) {
				dup = true
			}
		}
		if !dup {
			l = append(l, v)
		}
	}
	return l
}

func init() {
	profiles["C16"] = []profile{{"faithful", 3, genOffline}, {"malformed", 1, genOffline}, {"crash", 3, genOffline}, {"diskerr", 3, genOffline}, {"export", 2, genOffline}}
}
