package main

import (
	"encoding/hex"
	"sort"
	"strings"
	"unicode"
)

// Own distinguished name handling (RFC 4514), independent of the server's.

type ava struct{ t, v string }
type rdn []ava
type dname []rdn

func parseDN(s string) (dname, bool) {
	if strings.TrimSpace(s) == "" {
		return nil, true
	}
	var out dname
	var cur rdn
	i := 0
	for {
		// type
		j := i
		for j < len(s) && s[j] != '=' {
			if s[j] == ',' || s[j] == '+' {
				return nil, false
			}
			j++
		}
		if j >= len(s) {
			return nil, false
		}
		typ := strings.TrimSpace(s[i:j])
		if typ == "" {
			return nil, false
		}
		j++
		// value
		for j < len(s) && s[j] == ' ' {
			j++
		}
		var v []byte
		keep := 0 // length of v that may not be trimmed
		for j < len(s) && s[j] != ',' && s[j] != '+' {
			if s[j] == '\\' {
				if j+1 >= len(s) {
					return nil, false
				}
				if j+2 < len(s) {
					if b, err := hex.DecodeString(s[j+1 : j+3]); err == nil {
						v = append(v, b[0])
						keep = len(v)
						j += 3
						continue
					}
				}
				v = append(v, s[j+1])
				keep = len(v)
				j += 2
				continue
			}
			v = append(v, s[j])
			j++
		}
		for len(v) > keep && v[len(v)-1] == ' ' {
			v = v[:len(v)-1]
		}
		cur = append(cur, ava{typ, string(v)})
		if j >= len(s) {
			out = append(out, cur)
			return out, true
		}
		if s[j] == ',' {
			out = append(out, cur)
			cur = nil
		}
		i = j + 1
	}
}

func fold(s string) string {
	ascii := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ascii = false
			break
		}
	}
	if ascii {
		return strings.ToLower(s)
	}
	return strings.Map(func(r rune) rune {
		// smallest rune of the folding orbit
		m := r
		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
			if f < m {
				m = f
			}
		}
		return unicode.ToLower(m)
	}, s)
}

func (r rdn) key() string {
	var b strings.Builder
	for i, a := range r {
		if i > 0 {
			b.WriteByte('+')
		}
		b.WriteString(fold(a.t))
		b.WriteByte('=')
		b.WriteString(escKey(fold(a.v)))
	}
	return b.String()
}

func escKey(s string) string {
	if !strings.ContainsAny(s, "\\,+=") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte("\\,+=", s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (d dname) key() string {
	p := make([]string, len(d))
	for i, r := range d {
		p[i] = r.key()
	}
	return strings.Join(p, ",")
}

func (d dname) parent() dname {
	if len(d) == 0 {
		return nil
	}
	return d[1:]
}

// under reports whether d equals b or lies below it.
func (d dname) under(b dname) bool {
	if len(d) < len(b) {
		return false
	}
	return d[len(d)-len(b):].key() == b.key()
}

var keyCache = map[string]string{}

// normKey returns the canonical key of a DN string; "!..." if malformed.
func normKey(s string) string {
	if k, ok := keyCache[s]; ok {
		return k
	}
	k := "!" + s
	if d, ok := parseDN(s); ok {
		k = d.key()
	}
	if len(keyCache) > 20000 {
		keyCache = map[string]string{}
	}
	keyCache[s] = k
	return k
}

func sortedCopy(v []string) []string {
	o := append([]string(nil), v...)
	sort.Strings(o)
	return o
}
