package main

import (
	"fmt"
	"sort"
	"strings"

	"verif.local/simrt/sim"
)

// Sequential reference model of a directory.

type mEntry struct {
	dn    string
	name  dname
	key   string
	pkey  string
	attrs []Attr
	hash  uint64
	canon map[string]string
}

const pwMark = "\x00pw:"

func hstr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func newEntry(dn string, attrs []Attr) *mEntry {
	n, _ := parseDN(dn)
	e := &mEntry{dn: dn, name: n, key: n.key(), pkey: n.parent().key(), attrs: attrs}
	e.hash = sim.Mix(hstr(e.key), hstr(canonAttrs(attrs, nil)))
	return e
}

func (e *mEntry) get(a string) *Attr {
	f := fold(a)
	for i := range e.attrs {
		if fold(e.attrs[i].N) == f {
			return &e.attrs[i]
		}
	}
	return nil
}

// canonAttrs renders the requested attributes independent of their order.
func canonAttrs(attrs []Attr, want []string) string {
	all := len(want) == 0
	for _, w := range want {
		if w == "*" {
			all = true
		}
	}
	var l []string
	for _, a := range attrs {
		if !all {
			hit := false
			for _, w := range want {
				if fold(w) == fold(a.N) {
					hit = true
				}
			}
			if !hit {
				continue
			}
		}
		l = append(l, fmt.Sprintf("%s=%q", fold(a.N), sortedCopy(a.V)))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (e *mEntry) view(want []string) string {
	k := strings.Join(want, "\x01")
	if c, ok := e.canon[k]; ok {
		return c
	}
	if e.canon == nil {
		e.canon = map[string]string{}
	}
	c := canonAttrs(e.attrs, want)
	e.canon[k] = c
	return c
}

type dir struct {
	ents map[string]*mEntry
	hash uint64
}

func newDir(init []InitEnt) *dir {
	d := &dir{ents: map[string]*mEntry{}}
	for _, i := range init {
		e := newEntry(i.DN, cloneAttrs(i.Attrs))
		d.ents[e.key] = e
		d.hash ^= e.hash
	}
	return d
}

func cloneAttrs(a []Attr) []Attr {
	o := make([]Attr, len(a))
	for i := range a {
		o[i] = Attr{a[i].N, append([]string(nil), a[i].V...)}
	}
	return o
}

func (d *dir) with(old string, e *mEntry) *dir {
	n := &dir{ents: make(map[string]*mEntry, len(d.ents)+1), hash: d.hash}
	for k, v := range d.ents {
		if k == old {
			n.hash ^= v.hash
			continue
		}
		n.ents[k] = v
	}
	if e != nil {
		if o := n.ents[e.key]; o != nil {
			n.hash ^= o.hash
		}
		n.ents[e.key] = e
		n.hash ^= e.hash
	}
	return n
}

func (d *dir) hasKids(key string) bool {
	for _, e := range d.ents {
		if e.pkey == key && e.key != key {
			return true
		}
	}
	return false
}

func (d *dir) keys() []string {
	l := make([]string, 0, len(d.ents))
	for k := range d.ents {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Outcome of a request in a state.
const (
	mustOK = iota
	mustFail
	either
)

type modelCfg struct {
	base  dname
	baseK string
	admin string // key, "" if none
	anon  bool
	creds map[string]string // stored hash -> clear text
}

func idx(v []string, s string) int {
	f := fold(s)
	for i := range v {
		if fold(v[i]) == f {
			return i
		}
	}
	return -1
}

// checkPW tells whether pw matches a stored credential.
func (c *modelCfg) checkPW(stored, pw string) bool {
	if pw == "" || stored == "" {
		return false
	}
	if strings.HasPrefix(stored, pwMark) {
		return stored == pwMark+pw
	}
	if clear, ok := c.creds[stored]; ok {
		return clear == pw
	}
	if strings.HasPrefix(stored, "{") {
		return false
	}
	return stored == pw
}

func (c *modelCfg) stored(e *mEntry) string {
	if a := e.get("userPassword"); a != nil && len(a.V) > 0 {
		return a.V[0]
	}
	return ""
}

// write evaluates a write request: whether it must succeed or fail and the
// state after success.
func (c *modelCfg) write(d *dir, r *Rec) (int, *dir) {
	o := r.Op
	if o.K != "pw" && (c.admin == "" || r.Who != c.admin) {
		return mustFail, nil
	}
	switch o.K {
	case "add":
		n, ok := parseDN(r.DN)
		if !ok || len(n) == 0 || !n.under(c.base) {
			return mustFail, nil
		}
		k := n.key()
		if d.ents[k] != nil {
			return mustFail, nil
		}
		if k != c.baseK && d.ents[n.parent().key()] == nil {
			return mustFail, nil
		}
		var at []Attr
		res := mustOK
		for _, a := range o.Attrs {
			hit := false
			for i := range at {
				if fold(at[i].N) == fold(a.N) {
					at[i].V = append(at[i].V, a.V...)
					hit = true
					res = either // may be refused, but not lose anything
				}
			}
			if !hit {
				at = append(at, Attr{a.N, append([]string(nil), a.V...)})
			}
		}
		return res, d.with("", newEntry(r.DN, at))
	case "del":
		n, ok := parseDN(r.DN)
		if !ok || len(n) == 0 {
			return mustFail, nil
		}
		k := n.key()
		if d.ents[k] == nil || d.hasKids(k) {
			return mustFail, nil
		}
		if k == c.baseK {
			return either, d.with(k, nil)
		}
		return mustOK, d.with(k, nil)
	case "mod":
		n, ok := parseDN(r.DN)
		if !ok || len(n) == 0 {
			return mustFail, nil
		}
		e := d.ents[n.key()]
		if e == nil {
			return mustFail, nil
		}
		at, res := applyMods(e, o.Mods)
		if res == mustFail {
			return mustFail, nil
		}
		return res, d.with("", newEntry(e.dn, at))
	case "ren":
		return c.rename(d, r)
	case "pw":
		if r.Who == "" {
			return mustFail, nil
		}
		tk := r.Who
		if r.DN != "" {
			n, ok := parseDN(r.DN)
			if !ok || len(n) == 0 {
				return mustFail, nil
			}
			tk = n.key()
		}
		if tk != r.Who && (c.admin == "" || r.Who != c.admin) {
			return mustFail, nil
		}
		e := d.ents[tk]
		if e == nil {
			return mustFail, nil
		}
		if o.Old != "" && !c.checkPW(c.stored(e), o.Old) {
			return mustFail, nil
		}
		// the naming values of an entry are protected
		for _, a := range e.name[0] {
			if fold(a.t) == "userpassword" {
				return mustFail, nil
			}
		}
		np := o.New
		if np == "" {
			np = "\x00unknown"
			if r.HasGn {
				np = r.Gen
			}
		}
		at := cloneAttrs(e.attrs)
		hit := false
		for i := range at {
			if fold(at[i].N) == "userpassword" {
				at[i].V = []string{pwMark + np}
				hit = true
			}
		}
		if !hit {
			at = append(at, Attr{"userPassword", []string{pwMark + np}})
		}
		return mustOK, d.with("", newEntry(e.dn, at))
	}
	panic("model: " + o.K)
}

func applyMods(e *mEntry, mods []Mod) ([]Attr, int) {
	at := cloneAttrs(e.attrs)
	res := mustOK
	find := func(a string) int {
		for i := range at {
			if fold(at[i].N) == fold(a) {
				return i
			}
		}
		return -1
	}
	for _, m := range mods {
		i := find(m.A)
		switch m.T {
		case "add":
			if i < 0 {
				at = append(at, Attr{N: m.A})
				i = len(at) - 1
			}
			for _, v := range m.V {
				if idx(at[i].V, v) >= 0 {
					res = either // may be ignored or refused
					continue
				}
				at[i].V = append(at[i].V, v)
			}
		case "rep":
			if i < 0 {
				if len(m.V) > 0 {
					at = append(at, Attr{m.A, append([]string(nil), m.V...)})
				}
			} else if len(m.V) == 0 {
				at = append(at[:i:i], at[i+1:]...)
			} else {
				at[i].V = append([]string(nil), m.V...)
			}
		case "del":
			if i < 0 {
				res = either
				break
			}
			if len(m.V) == 0 {
				at = append(at[:i:i], at[i+1:]...)
				break
			}
			nv := append([]string(nil), at[i].V...)
			for _, v := range m.V {
				j := idx(nv, v)
				if j < 0 {
					res = either
					continue
				}
				nv = append(nv[:j:j], nv[j+1:]...)
			}
			if len(nv) == 0 {
				at = append(at[:i:i], at[i+1:]...)
			} else {
				at[i].V = nv
			}
		default:
			return nil, mustFail
		}
		// An intermediate state without the naming values may be refused.
		if res == mustOK && !hasNaming(e.name, at) {
			res = either
		}
	}
	if !hasNaming(e.name, at) {
		if hasNaming(e.name, e.attrs) {
			return nil, mustFail
		}
		res = either
	}
	return at, res
}

func hasNaming(n dname, at []Attr) bool {
	if len(n) == 0 {
		return true
	}
	for _, a := range n[0] {
		ok := false
		for i := range at {
			if fold(at[i].N) == fold(a.t) && idx(at[i].V, a.v) >= 0 {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (c *modelCfg) rename(d *dir, r *Rec) (int, *dir) {
	n, ok := parseDN(r.DN)
	if !ok || len(n) == 0 {
		return mustFail, nil
	}
	e := d.ents[n.key()]
	nr, ok := parseDN(r.Op.NewRDN)
	if e == nil || !ok || len(nr) != 1 || d.hasKids(e.key) {
		return mustFail, nil
	}
	if e.key == c.baseK {
		return mustFail, nil
	}
	res := mustOK
	sup := e.name.parent()
	if r.Op.Sup != "" {
		// a move may be refused, but never end somewhere else
		res = either
		if sup, ok = parseDN(r.Op.Sup); !ok || d.ents[sup.key()] == nil || sup.under(e.name) {
			return mustFail, nil
		}
	}
	nn := append(dname{nr[0]}, sup...)
	if nn.key() == e.key {
		res = either
	} else if d.ents[nn.key()] != nil {
		return mustFail, nil
	}
	at := cloneAttrs(e.attrs)
	find := func(a string) int {
		for i := range at {
			if fold(at[i].N) == fold(a) {
				return i
			}
		}
		return -1
	}
	if r.Op.DelOld {
		for _, a := range e.name[0] {
			shared := false
			for _, b := range nr[0] {
				if fold(a.t) == fold(b.t) && fold(a.v) == fold(b.v) {
					shared = true
				}
			}
			if shared {
				res = either
				continue
			}
			if i := find(a.t); i >= 0 {
				if j := idx(at[i].V, a.v); j >= 0 {
					at[i].V = append(at[i].V[:j:j], at[i].V[j+1:]...)
					if len(at[i].V) == 0 {
						at = append(at[:i:i], at[i+1:]...)
					}
				}
			}
		}
	}
	for _, b := range nr[0] {
		i := find(b.t)
		if i < 0 {
			at = append(at, Attr{b.t, []string{b.v}})
		} else if idx(at[i].V, b.v) < 0 {
			at[i].V = append(at[i].V, b.v)
		}
	}
	// name of the renamed entry: new RDN plus the old parent's spelling
	dn := spellDN(nn)
	return res, d.with(e.key, newEntry(dn, at))
}

// spellDN writes a DN in plain RFC 4514 form.
func spellDN(d dname) string {
	var l []string
	for _, r := range d {
		var p []string
		for _, a := range r {
			p = append(p, a.t+"="+escVal(a.v))
		}
		l = append(l, strings.Join(p, "+"))
	}
	return strings.Join(l, ",")
}

func escVal(v string) string {
	var b strings.Builder
	for i := 0; i < len(v); i++ {
		ch := v[i]
		switch {
		case strings.IndexByte("\\,+\"<>;=", ch) >= 0,
			ch == ' ' && (i == 0 || i == len(v)-1),
			ch == '#' && i == 0:
			b.WriteByte('\\')
			b.WriteByte(ch)
		case ch == 0:
			b.WriteString("\\00")
		default:
			b.WriteByte(ch)
		}
	}
	return b.String()
}

// bind evaluates a simple bind.
func (c *modelCfg) bind(d *dir, dn, pw string, ver int) int {
	if ver != 0 && ver != 3 {
		return mustFail
	}
	if dn == "" {
		return either
	}
	if pw == "" {
		return mustFail
	}
	n, ok := parseDN(dn)
	if !ok || len(n) == 0 || !n.under(c.base) {
		return mustFail
	}
	e := d.ents[n.key()]
	if e == nil || !c.checkPW(c.stored(e), pw) {
		return mustFail
	}
	return mustOK
}

func (f *Filter) match(e *mEntry) bool {
	switch f.Op {
	case "and":
		for _, g := range f.F {
			if !g.match(e) {
				return false
			}
		}
		return true
	case "or":
		for _, g := range f.F {
			if g.match(e) {
				return true
			}
		}
		return false
	case "not":
		return !f.F[0].match(e)
	}
	a := e.get(f.A)
	switch f.Op {
	case "pres":
		return a != nil && len(a.V) > 0
	case "eq":
		return a != nil && idx(a.V, f.V) >= 0
	case "sub":
		if a == nil {
			return false
		}
		for _, v := range a.V {
			if f.subMatch(fold(v)) {
				return true
			}
		}
		return false
	case "ge", "le", "approx", "ext":
		// only asked for an attribute that no entry has
		return false
	}
	panic("filter " + f.Op)
}

// odd tells whether the filter has parts that a server may refuse to evaluate.
func (f *Filter) odd() bool {
	switch f.Op {
	case "ge", "le", "approx", "ext":
		return true
	case "and", "or":
		if len(f.F) == 0 {
			return true
		}
	}
	for _, g := range f.F {
		if g.odd() {
			return true
		}
	}
	return false
}

func (f *Filter) subMatch(v string) bool {
	if f.Ini != "" {
		p := fold(f.Ini)
		if !strings.HasPrefix(v, p) {
			return false
		}
		v = v[len(p):]
	}
	for _, a := range f.Any {
		p := fold(a)
		i := strings.Index(v, p)
		if i < 0 {
			return false
		}
		v = v[i+len(p):]
	}
	return f.Fin == "" || strings.HasSuffix(v, fold(f.Fin))
}

func (f *Filter) String() string {
	if f == nil {
		return "()"
	}
	switch f.Op {
	case "and", "or", "not":
		s := "(" + map[string]string{"and": "&", "or": "|", "not": "!"}[f.Op]
		for _, g := range f.F {
			s += g.String()
		}
		return s + ")"
	case "pres":
		return "(" + f.A + "=*)"
	case "eq":
		return "(" + f.A + "=" + f.V + ")"
	case "ge", "le", "approx", "ext":
		return "(" + f.A + map[string]string{"ge": ">=", "le": "<=", "approx": "~=", "ext": ":caseExactMatch:="}[f.Op] + f.V + ")"
	}
	s := "(" + f.A + "=" + f.Ini + "*"
	for _, a := range f.Any {
		s += a + "*"
	}
	return s + f.Fin + ")"
}

// search returns the matching entries.
func (d *dir) search(base dname, scope int, f *Filter) []*mEntry {
	var out []*mEntry
	bk := base.key()
	for _, e := range d.ents {
		switch scope {
		case 0:
			if e.key != bk {
				continue
			}
		case 1:
			if e.pkey != bk || e.key == bk || len(e.name) == 0 {
				continue
			}
		default:
			if !e.name.under(base) {
				continue
			}
		}
		if f == nil || f.match(e) {
			out = append(out, e)
		}
	}
	return out
}

// mayRead tells whether a search is permitted on a connection.
func (c *modelCfg) mayRead(r *Rec) bool {
	return r.Who != "" || (c.anon && r.Loop)
}

// searchOK tells whether the answer of a permitted search is right in state d;
// the reason is given otherwise.
func (c *modelCfg) searchOK(d *dir, r *Rec) (bool, string) {
	o := r.Op
	base, ok := parseDN(r.DN)
	var exp []*mEntry
	exists := false
	if ok {
		exp = d.search(base, o.Scope, o.Filter)
		exists = d.ents[base.key()] != nil
	}
	if r.canon == nil {
		r.canon = map[string]string{}
		for _, e := range r.Ents {
			k := normKey(e.DN)
			if _, dup := r.canon[k]; dup {
				r.canon["!dup"] = e.DN
				continue
			}
			if dupAttr(e.Attrs) {
				r.canon["!dupattr"] = e.DN
			}
			r.canon[k] = canonAttrs(e.Attrs, nil)
		}
	}
	if v, ok := r.canon["!dup"]; ok {
		return false, "entry returned twice: " + v
	}
	if v, ok := r.canon["!dupattr"]; ok {
		return false, "attribute returned twice in " + v
	}
	if !exists && (r.Code != 0 || len(r.Ents) == 0) {
		if len(r.Ents) == 0 {
			return true, ""
		}
		return false, "entries below a base that does not exist"
	}
	limited := o.Limit > 0 && len(exp) >= o.Limit
	if o.Limit > 0 && len(r.Ents) > o.Limit {
		return false, fmt.Sprintf("%d entries with size limit %d", len(r.Ents), o.Limit)
	}
	refused := r.Code != 0 && o.Filter != nil && o.Filter.odd() || r.Code == 3 && o.Secs > 0
	if r.Code != 0 && !(limited && r.Code == 4) && !refused {
		return false, fmt.Sprintf("refused with result %d (%s)", r.Code, r.Diag)
	}
	want := map[string]*mEntry{}
	for _, e := range exp {
		want[e.key] = e
	}
	for k, v := range r.canon {
		e := want[k]
		if e == nil {
			return false, "unexpected entry " + k
		}
		if mv := e.view(o.Want); mv != v && !sameBut(mv, v, e, r, k) {
			return false, fmt.Sprintf("entry %s is [%s], expected [%s]", k, v, mv)
		}
	}
	if refused {
		return true, ""
	}
	n := len(exp)
	if limited {
		n = o.Limit
		if r.Code == 0 && len(exp) > o.Limit && false {
			return false, ""
		}
	}
	if len(r.canon) != n {
		for _, e := range exp {
			if _, ok := r.canon[e.key]; !ok {
				return false, fmt.Sprintf("%d of %d entries, missing %s", len(r.canon), n, e.key)
			}
		}
	}
	return true, ""
}

func dupAttr(at []Attr) bool {
	for i := range at {
		for j := i + 1; j < len(at); j++ {
			if fold(at[i].N) == fold(at[j].N) {
				return true
			}
		}
	}
	return false
}

// sameBut compares leaving aside the text of a password hash made by the server.
func sameBut(mv, v string, e *mEntry, r *Rec, k string) bool {
	p := e.get("userPassword")
	if p == nil || len(p.V) != 1 || !strings.HasPrefix(p.V[0], pwMark) {
		return false
	}
	for _, x := range r.Ents {
		if normKey(x.DN) != k {
			continue
		}
		at := cloneAttrs(x.Attrs)
		for i := range at {
			if fold(at[i].N) == "userpassword" && len(at[i].V) == 1 && at[i].V[0] != "" {
				at[i].V = p.V
			}
		}
		return canonAttrs(at, nil) == mv
	}
	return false
}
