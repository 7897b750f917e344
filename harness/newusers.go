package main

import (
	"bytes"
	"fmt"
	"slices"
	"strconv"
	"strings"

	cmdgen "github.com/libregraph/idm/cmd/idmd/gen"
	"verif.local/simrt/xos"
)

func runNewusers(w *world) {
	sc := w.sc
	off := sc.Off
	d := w.disk
	io := xos.NewStdio(nil)
	src := "-"
	if off.File {
		src = "/data/users.txt"
		d.Put(src, off.Input)
		d.Match = func(p string) bool { return p == src }
	} else {
		io.In = off.Input
		if off.InErr > 0 {
			io.InErrAt = off.InErr - 1
		}
		if off.InShort {
			io.InShort = 0.5
		}
	}
	if off.OutErr > 0 {
		io.OutErrAt = off.OutErr - 1
	}
	d.On = sc.Disk != (xos.Faults{})
	inj := d.Injected
	args := append([]string{"newusers", "--argon2-memory", "8", "--argon2-iterations", "1", "--argon2-lanes", "1"}, off.Args...)
	p := w.command("newusers", io, cmdgen.CommandGen, append(args, src)...)
	d.On = false
	if len(w.viols) > 0 {
		return
	}
	ok := exitedOK(p)
	inFault := io.InFailed || d.Injected != inj
	switch {
	case !ok && off.Bad == "" && !inFault && !io.OutFailed:
		w.violate("newusers", "refused", fmt.Sprintf("failed without a reason: %q", firstLines(string(io.Err), 4)))
		return
	case ok && off.Bad != "" && off.Bad != "maybe":
		w.violate("newusers", "accepted", "success although the list has a "+off.Bad)
		return
	case ok && io.InFailed:
		w.violate("newusers", "input", "success although the input could not be read to its end")
		return
	case ok && io.OutFailed:
		w.violate("newusers", "output", fmt.Sprintf("success although the output could only be written up to byte %d of it", len(io.Out)))
		return
	case !ok:
		return
	}
	w.count("generated")
	// the directory loaded from the output
	d.F = xos.Faults{}
	sc.World = "ldif"
	w.setupLDIF()
	d.Put(mainPath(sc), io.Out)
	up := w.mustStart("start with the generated entries")
	sc.World = "newusers"
	if !up {
		return
	}
	c := &client{w: w, n: 0, spec: &Client{IP: "127.0.0.1"}, pages: map[int]*pageState{}}
	if !c.ready() {
		return
	}
	r := c.request(&Op{K: "search", DN: sc.Base, Scope: 2, Filter: anyFilter})
	c.drain()
	w.checkAlive()
	if len(w.viols) > 0 {
		return
	}
	if !r.Done || r.Code != 0 {
		w.violate("newusers", "search", "the generated directory cannot be searched: "+r.String())
		return
	}
	byUID := map[string]REnt{}
	for _, e := range r.Ents {
		u := e.get("uid")
		if len(u) != 1 {
			w.violate("newusers", "entries", "entry without user name: "+e.DN)
			return
		}
		if _, dup := byUID[u[0]]; dup {
			w.violate("newusers", "entries", "two entries for "+u[0])
			return
		}
		byUID[u[0]] = e
	}
	taken := map[string]string{}
	listed := map[string]bool{}
	for _, u := range off.Users {
		if u.UID != "" {
			listed[num(u.UID)] = true
		}
	}
	for _, u := range off.Users {
		e, ok := byUID[u.Name]
		if !ok {
			w.violate("newusers", "entries", fmt.Sprintf("no entry for the listed user %q (%d listed, %d generated)", u.Name, len(off.Users), len(r.Ents)))
			return
		}
		n := e.get("uidNumber")
		switch {
		case len(n) != 1:
			w.violate("newusers", "numbers", fmt.Sprintf("user %s has user numbers %q", u.Name, n))
		case u.UID != "" && n[0] != num(u.UID):
			w.violate("newusers", "numbers", fmt.Sprintf("user %s is listed with number %s but has %s", u.Name, u.UID, n[0]))
		case u.UID == "" && listed[n[0]]:
			w.violate("newusers", "numbers", fmt.Sprintf("user %s without listed number got %s, which is listed for another user", u.Name, n[0]))
		case u.UID == "" && taken[n[0]] != "":
			w.violate("newusers", "numbers", fmt.Sprintf("users %s and %s both got number %s", taken[n[0]], u.Name, n[0]))
		}
		if len(w.viols) > 0 {
			return
		}
		if _, err := strconv.ParseInt(n[0], 10, 64); err != nil || u.UID == "" && strings.HasPrefix(n[0], "-") {
			w.violate("newusers", "numbers", fmt.Sprintf("user %s got %q as number", u.Name, n[0]))
			return
		}
		taken[n[0]] = u.Name
		if gid := e.get("gidNumber"); len(gid) != 1 || !isNum(gid[0]) || u.GID != "" && gid[0] != num(u.GID) {
			w.violate("newusers", "numbers", fmt.Sprintf("user %s with the listed group number %q got %q", u.Name, u.GID, gid))
			return
		}
		if cn := e.get("cn"); u.Full != "" && (len(cn) != 1 || cn[0] != u.Full) {
			w.violate("newusers", "name", fmt.Sprintf("user %s is listed as %q but became %q", u.Name, u.Full, cn))
			return
		}
		if m := append(append([]string{}, e.get("mail")...), e.get("mailAlternateAddress")...); u.Mail != "" && !slices.Contains(m, u.Mail) {
			w.violate("newusers", "mail", fmt.Sprintf("user %s is listed with the address %s but has %q", u.Name, u.Mail, m))
			return
		}
		if u.PW == "" {
			continue
		}
		if !c.ready() {
			return
		}
		b := c.request(&Op{K: "bind", DN: e.DN, PW: u.PW})
		c.drain()
		if !b.Done || b.Code != 0 {
			w.violate("newusers", "bind", fmt.Sprintf("user %s cannot bind with the listed password %q: %s", u.Name, u.PW, b))
			return
		}
		x := c.request(&Op{K: "bind", DN: e.DN, PW: u.PW + "x"})
		c.drain()
		if x.Done && x.Code == 0 {
			w.violate("newusers", "bind", fmt.Sprintf("user %s can bind with a wrong password", u.Name))
			return
		}
	}
	if len(r.Ents) != len(off.Users) {
		w.violate("newusers", "entries", fmt.Sprintf("%d entries for %d listed users", len(r.Ents), len(off.Users)))
	}
	c.hangup()
	w.checkAlive()
	w.over = true
}

// num is the canonical form of a decimal number.
func num(s string) string {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return s
	}
	return strconv.FormatInt(n, 10)
}

func isNum(s string) bool {
	_, err := strconv.ParseInt(s, 10, 64)
	return err == nil
}

func (e REnt) get(n string) []string {
	for _, a := range e.Attrs {
		if fold(a.N) == fold(n) {
			return a.V
		}
	}
	return nil
}

// C17
func genNewusers(prop, name string, seed uint64) *Scenario {
	g := newGen(prop, name, seed)
	sc := g.sc
	sc.World = "newusers"
	sc.Anon = true
	sc.NoLin = true
	off := &Offline{}
	sc.Off = off
	scheme := g.pick("{ARGON2}", "{ARGON2}", "{CLEARTEXT}")
	strength := g.pick("0", "0", "0", "0", "1", "2", "3", "4")
	if strength != "0" {
		// may be refused: the passwords might be too weak
		off.Bad = "maybe"
	}
	off.Args = []string{"--min-password-strength", strength, "--password-scheme", scheme}
	if g.p(0.3) {
		off.Args = append(off.Args, "--argon2-memory", g.pick("1024", "8", "100"), "--argon2-iterations", g.pick("1", "2"), "--argon2-lanes", g.pick("1", "2"))
	}
	var b bytes.Buffer
	n := g.pi(1, 3, 8, 25)
	next := 1 + g.n(3000)
	numbers := g.pf(0, 0.3, 0.6, 1)
	used := map[string]bool{}
	uid := func() string {
		if !g.p(numbers) {
			return ""
		}
		for {
			var v int
			switch g.n(5) {
			case 0:
				v = 0
			case 1:
				v = 1000 + g.n(12)
			case 2:
				v = g.n(1 << 31)
			default:
				v = next
				next += 1 + g.n(3)
			}
			if s := strconv.Itoa(v); !used[s] {
				used[s] = true
				return s
			}
		}
	}
	var lines []string
	for i := 0; i < n; i++ {
		u := User{Name: g.pick("alice", "bob", "carol.d", "dave-x", "Eve_1", "x", "ünal", "o'neil") + strconv.Itoa(i)}
		switch g.n(8) {
		case 0:
		case 1:
			u.PW = g.pick("two words", " spaces ", "{{x}}", "<b>", "pä$$", "#hash", "{SSHA}x", "a,b=c", "<<.>>", "\"q\"", "{{", "%s%d", "a  b", "<f", "-", "=", "trail ")
			if i := strconv.Itoa(g.n(1000)); g.p(0.6) {
				u.PW += i
			} else {
				u.PW = i + u.PW
			}
		default:
			u.PW = fmt.Sprintf("secret-%d", g.n(100000))
		}
		if scheme == "{CLEARTEXT}" && strings.HasPrefix(u.PW, "{") && strings.Contains(u.PW, "}") {
			// may be refused: it cannot be told from a hashed one
			off.Bad = "maybe"
		}
		u.UID = uid()
		if g.p(numbers) {
			u.GID = g.pick("0", "100", "1000", strconv.Itoa(g.n(5000)))
		}
		gecos := g.pick("", "Full Name", "Jörg Müller", "One", "A B C,Room 1,+49 123,a.b@example.com,x@lg.local", ",", "Full Name,,,", ": colon", "<less", " lead", "{{.BaseDN}} x", "{{", "Name <<x>>", "Trail ,a@b.c ", "-", "x\ty")
		if g.p(0.03) {
			gecos = strings.Repeat("long ", 3000)
		}
		if first := strings.Split(gecos, ",")[0]; !strings.Contains(gecos, ":") && strings.TrimSpace(first) != "" {
			u.Full = first
			if g.p(0.3) {
				u.Mail = g.pick("me@example.org", "a.b-c@x.example", "o'x+y@sub.example.net")
				gecos += "," + u.Mail
			}
		}
		off.Users = append(off.Users, u)
		l := strings.Join([]string{u.Name, u.PW, u.UID, u.GID, gecos, g.pick("", "/home/"+u.Name), g.pick("", "/bin/sh")}, ":")
		if g.p(0.1) {
			l = g.pick(" ", "\t") + l + g.pick("", " ", "\r")
		}
		lines = append(lines, l)
		if g.p(0.15) {
			lines = append(lines, g.pick("", "   ", "# comment", "# a:b:c:d:e:f:g", "#"))
		}
	}
	switch name {
	case "malformed":
		if off.Bad != "" {
			break
		}
		off.Bad = g.pick("line with missing fields", "line with missing fields", "user number that is not a number", "group number that is not a number", "maybe")
		at := g.n(len(lines) + 1)
		bad := ""
		switch off.Bad {
		case "line with missing fields":
			bad = g.pick("x", "x:y", "x:y:1", "x:y:1:1", "x:y:1:1:g", "x:y:1:1:g:h")
		case "user number that is not a number":
			bad = "x:y:" + g.pick("one", "1x", "0x10", "1.5", "99999999999999999999", "1 2") + ":1:g:h:s"
		case "group number that is not a number":
			bad = "x:y:1:" + g.pick("one", "1x", "1.5", "99999999999999999999") + ":g:h:s"
		case "maybe":
			// too long to be read as a line, or not
			bad = "longuser:pw:::" + strings.Repeat("x", g.pi(70000, 200000)) + "::"
			off.Users = append(off.Users, User{Name: "longuser", PW: "pw"})
		}
		lines = append(lines[:at:at], append([]string{bad}, lines[at:]...)...)
	}
	b.WriteString(strings.Join(lines, "\n"))
	if g.p(0.7) {
		b.WriteString("\n")
	}
	off.Input = b.Bytes()
	off.File = g.p(0.4)
	off.InShort = g.p(0.6)
	f := &sc.Disk
	if off.InShort && off.File {
		f.ShortRead = 0.5
	}
	switch name {
	case "inerr":
		if off.File {
			f.ReadErr, f.OpenErr = g.pf(0.1, 0.4), g.pf(0, 0.1)
		} else {
			off.InErr = 1 + g.n(len(off.Input)+1)
		}
	case "outerr":
		off.OutErr = 1 + g.n(g.pi(200, 400*n))
	}
	return sc
}

func init() {
	profiles["C17"] = []profile{{"list", 4, genNewusers}, {"malformed", 2, genNewusers}, {"inerr", 2, genNewusers}, {"outerr", 2, genNewusers}}
}
