package main

import (
	"fmt"
	"sort"
	"strings"
)

// Linearizability of the recorded history against the reference model
// (Wing & Gong search with memoisation).

func isWrite(k string) bool {
	switch k {
	case "add", "del", "mod", "ren", "pw", "load":
		return true
	}
	return false
}

// next returns the states possible after r was executed in d; none if the
// recorded answer is impossible there.
func (c *modelCfg) next(d *dir, r *Rec) ([]*dir, string) {
	o := r.Op
	switch {
	case o.K == "load":
		// one entry after the other; all of them, or those before the end
		l := []*dir{d}
		for _, e := range o.Ents {
			res, nd := c.write(d, &Rec{Op: &Op{K: "add", DN: e.DN, Attrs: e.Attrs}, DN: e.DN, Who: c.admin})
			if res == mustFail {
				if r.Done {
					return nil, "a successful load of an entry that cannot be added: " + e.DN
				}
				return l, ""
			}
			d = nd
			l = append(l, d)
		}
		if r.Done {
			return []*dir{d}, ""
		}
		return l, ""
	case isWrite(o.K):
		res, nd := c.write(d, r)
		if !r.Done {
			if res == mustFail {
				return []*dir{d}, ""
			}
			return []*dir{nd, d}, ""
		}
		if r.Code == 0 {
			if res == mustFail {
				return nil, "success of a request that has to be refused"
			}
			return []*dir{nd}, ""
		}
		if r.Fault {
			if res == mustFail {
				return []*dir{d}, ""
			}
			return []*dir{d, nd}, ""
		}
		if res == mustOK && !o.Lenien {
			return nil, fmt.Sprintf("refused (result %d, %s) although it should succeed", r.Code, r.Diag)
		}
		return []*dir{d}, ""
	case o.K == "bind":
		if !r.Done {
			return []*dir{d}, ""
		}
		res := c.bind(d, r.DN, r.PW, o.Vers)
		switch o.Mode {
		case "sasl", "othertag":
			res = mustFail
		case "textversion", "more":
			if res == mustOK {
				res = either
			}
		}
		if res == mustOK && r.Code != 0 && !r.Fault {
			return nil, fmt.Sprintf("refused (result %d) with the right password", r.Code)
		}
		if res == mustFail && r.Code == 0 {
			return nil, "bind succeeded although it has to fail"
		}
		return []*dir{d}, ""
	case o.K == "search":
		if !r.Done {
			return []*dir{d}, ""
		}
		if !c.mayRead(r) {
			if r.Code == 0 || len(r.Ents) > 0 {
				return nil, fmt.Sprintf("search without permission got result %d and %d entries", r.Code, len(r.Ents))
			}
			return []*dir{d}, ""
		}
		if r.Fault && r.Code != 0 {
			return []*dir{d}, ""
		}
		if ok, why := c.searchOK(d, r); !ok {
			return nil, why
		}
		return []*dir{d}, ""
	}
	return []*dir{d}, ""
}

type linResult struct {
	ok      bool
	unknown bool
	msg     string
	nodes   int
	final   *dir
}

type linKey struct {
	u [6]uint64
	h uint64
}

const maxLinOps = 384

func (c *modelCfg) linearize(init *dir, hist []*Rec, budget int) linResult {
	var ops []*Rec
	for _, r := range hist {
		if r.Drop {
			continue
		}
		if !r.Done && !isWrite(r.Op.K) {
			continue
		}
		if isWrite(r.Op.K) || r.Op.K == "bind" || r.Op.K == "search" {
			ops = append(ops, r)
		}
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Inv < ops[j].Inv })
	res := linResult{}
	n := len(ops)
	if n > maxLinOps {
		res.unknown = true
		return res
	}
	used := [6]uint64{}
	seen := map[linKey]struct{}{}
	bestDepth := -1
	bestWhy := ""
	order := []*Rec{}
	var rec func(d *dir, done int, lo int) bool
	rec = func(d *dir, done int, lo int) bool {
		if done == n {
			res.final = d
			return true
		}
		res.nodes++
		if res.nodes > budget {
			res.unknown = true
			return false
		}
		k := linKey{used, d.hash}
		if _, ok := seen[k]; ok {
			return false
		}
		seen[k] = struct{}{}
		for lo < n && used[lo>>6]&(1<<(lo&63)) != 0 {
			lo++
		}
		minRet := int64(1) << 62
		for i := lo; i < n; i++ {
			if used[i>>6]&(1<<(i&63)) != 0 {
				continue
			}
			if ops[i].Inv > minRet {
				break
			}
			if ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		var why []string
		for i := lo; i < n; i++ {
			if used[i>>6]&(1<<(i&63)) != 0 {
				continue
			}
			r := ops[i]
			if r.Inv > minRet {
				break
			}
			ns, w := c.next(d, r)
			if len(ns) == 0 {
				why = append(why, fmt.Sprintf("%s: %s", r, w))
				continue
			}
			used[i>>6] |= 1 << (i & 63)
			order = append(order, r)
			for _, nd := range ns {
				if rec(nd, done+1, lo) {
					return true
				}
				if res.unknown {
					return false
				}
			}
			order = order[:len(order)-1]
			used[i>>6] &^= 1 << (i & 63)
		}
		if done > bestDepth {
			bestDepth = done
			var b strings.Builder
			fmt.Fprintf(&b, "after an order of %d requests no continuation is possible; ", done)
			if len(order) > 0 {
				fmt.Fprintf(&b, "last: %s; ", order[len(order)-1])
			}
			b.WriteString(strings.Join(why, " | "))
			bestWhy = b.String()
		}
		return false
	}
	res.ok = rec(init, 0, 0)
	if !res.ok && !res.unknown {
		res.msg = bestWhy
	}
	return res
}

func (r *Rec) String() string {
	o := r.Op
	s := fmt.Sprintf("#%d c%d/%d[%s] %s", r.ID, r.Cl, r.Conn, r.Who, o.K)
	switch o.K {
	case "bind":
		s += fmt.Sprintf(" %q pw=%q", r.DN, r.PW)
	case "add":
		s += fmt.Sprintf(" %q %s", r.DN, canonAttrs(o.Attrs, nil))
	case "mod":
		s += fmt.Sprintf(" %q", r.DN)
		for _, m := range o.Mods {
			s += fmt.Sprintf(" %s:%s%q", m.T, m.A, m.V)
		}
	case "ren":
		s += fmt.Sprintf(" %q to %q delold=%v", r.DN, o.NewRDN, o.DelOld)
		if o.Sup != "" {
			s += fmt.Sprintf(" below %q", o.Sup)
		}
	case "pw":
		s += fmt.Sprintf(" %q old=%q new=%q", r.DN, o.Old, o.New)
		if r.HasGn {
			s += fmt.Sprintf(" generated=%q", r.Gen)
		}
	case "search":
		s += fmt.Sprintf(" base=%q scope=%d %s want=%q limit=%d page=%d", r.DN, o.Scope, o.Filter, o.Want, o.Limit, o.Page)
	case "load":
		for _, e := range o.Ents {
			s += fmt.Sprintf(" %q", e.DN)
		}
	default:
		s += fmt.Sprintf(" %q", r.DN)
	}
	if r.Done {
		s += fmt.Sprintf(" -> %d", r.Code)
		if o.K == "search" {
			s += fmt.Sprintf(" (%d entries)", len(r.Ents))
		}
	} else {
		s += " -> no answer"
	}
	return s
}
