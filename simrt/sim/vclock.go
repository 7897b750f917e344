package sim

// Vector clocks for happens-before tracking. They are only used to detect
// unsynchronised concurrent map accesses, which abort a real Go process.
type vclock []uint32

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func (v *vclock) grow(n int) {
	for len(*v) <= n {
		*v = append(*v, 0)
	}
}

func (v *vclock) tick(id int) {
	v.grow(id)
	(*v)[id]++
}

func (v *vclock) join(o vclock) {
	v.grow(len(o) - 1)
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) at(id int) uint32 {
	if id < len(v) {
		return v[id]
	}
	return 0
}

// HB is the happens-before clock of a synchronisation object.
type HB struct{ c vclock }

func (h *HB) Acquire() {
	if t := cur; t != nil {
		t.vc.join(h.c)
	}
}

func (h *HB) Release() {
	if t := cur; t != nil {
		h.c.join(t.vc)
		t.vc.tick(t.id)
	}
}

type mapAcc struct {
	keep   any
	wTask  int
	wClock uint32
	wWhere string
	reads  map[int]uint32
}

// mapAccess checks one access to a map for concurrency with earlier accesses.
func mapAccess(key uintptr, keep any, write bool) {
	t := cur
	if t == nil || t.dead || key == 0 {
		return
	}
	a := S.mapState[key]
	if a == nil {
		a = &mapAcc{keep: keep, wTask: -1, reads: map[int]uint32{}}
		S.mapState[key] = a
	}
	if a.wTask >= 0 && a.wTask != t.id && t.vc.at(a.wTask) < a.wClock {
		if write {
			Fatal("concurrent map writes")
		}
		Fatal("concurrent map read and map write")
	}
	if write {
		for id, c := range a.reads {
			if id != t.id && t.vc.at(id) < c {
				Fatal("concurrent map read and map write")
			}
		}
		a.wTask, a.wClock = t.id, t.vc.at(t.id)
		clear(a.reads)
	} else {
		a.reads[t.id] = t.vc.at(t.id)
	}
}
