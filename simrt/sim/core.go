// Package sim is the simulator core: a token passing scheduler, a virtual
// clock, simulated processes and the seeded decision streams. Exactly one task
// runs at any moment; every scheduling decision, delay and fault is drawn from
// a named stream derived from one seed, or replayed from a recorded trace.
package sim

import (
	"container/heap"
	"fmt"
	"hash/fnv"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Epoch is the virtual wall clock at the start of every run.
var Epoch = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)

// Params are the per-run scheduler settings (drawn per run: swarm).
type Params struct {
	Strategy    int     `json:"strategy"`     // 0 random, 1 fifo with preemptions, 2 priorities
	PreemptMean int     `json:"preempt_mean"` // mean number of plain yield points between preemptions, 0 = never
	SyncP       float64 `json:"sync_p"`       // probability of a switch at a synchronisation point
	StallP      float64 `json:"stall_p"`      // probability of a task stall at a synchronisation point
	StallMax    int64   `json:"stall_max"`    // longest stall in ns
	HotShare    float64 `json:"hot_share"`    // share of the statements at which tasks stall
	HotTear     float64 `json:"hot_tear"`     // share of the read-modify-write statements at which tasks stall in the middle
	HotSalt     uint32  `json:"hot_salt"`     // decides which statements these are
	HotMax      int64   `json:"hot_max"`      // longest stall there in ns
	MaxSteps    int64   `json:"max_steps"`
}

// Choice is one recorded non-default decision.
type Choice struct {
	S string `json:"s"`
	I int    `json:"i"`
	V int    `json:"v"`
}

type Config struct {
	Seed    uint64
	Params  Params
	Replay  []Choice // decisions to replay
	Replayd bool     // replay mode: decisions not listed take their default
	KeepLog bool
}

// Result is what a run leaves behind besides what the harness recorded itself.
type Result struct {
	Abort     string // "", "steps", "deadlock", "panic", "stop"
	AbortMsg  string
	Steps     int64
	Switches  int64
	SimTime   time.Duration
	Trace     []Choice
	SchedHash uint64
	LogHash   uint64
	Log       []string
	Faults    map[string]int
	Probes    map[string]int
	Tasks     int
}

type Task struct {
	id         int
	name       string
	kids       int
	proc       *Proc
	wake       chan struct{}
	dead       bool
	done       bool
	parked     string // reason while not runnable
	inRdy      bool
	y          int // local yield counter
	nextY      int
	ys         *Stream
	prio       int
	joiners    []*Task
	vc         vclock
	wtok       *waitTok
	fired      int
	firedPanic bool
	woken      bool
}

func (t *Task) Name() string { return t.name }

type Proc struct {
	Name     string
	Dead     bool
	Exited   bool
	ExitCode int
	Crash    string // panic message and stack if it crashed by itself
	tasks    map[*Task]struct{}
	onDeath  []func()
	exitW    []*Task
	Values   map[string]any
	kids     int
	saved    []reflect.Value // package level state, while that of another process is in place
}

type timerEnt struct {
	when int64
	seq  int64
	fn   func()
	idx  int
}

type timerHeap []*timerEnt

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { e := x.(*timerEnt); e.idx = len(*h); *h = append(*h, e) }
func (h *timerHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	e.idx = -1
	return e
}

type Sim struct {
	cfg     Config
	streams map[string]*Stream
	replay  map[string]map[int]int
	trace   []Choice

	ready  []*Task
	deadq  []*Task
	tasks  map[*Task]struct{}
	main   *Task
	nextID int

	timers timerHeap
	tseq   int64
	now    int64

	steps    int64
	switches int64
	schedH   uint64
	logH     uint64
	log      []string
	faults   map[string]int
	probes   map[string]int
	ntasks   int

	abort, abortMsg string
	finished        chan struct{}
	sched           *Stream
	stall           *Stream
	hot             *Stream
	hotBelow        uint32
	tearBelow       uint32
	hotAt           map[uint32]int // stalls so far
	chans           map[uintptr]*chanQ
	races           map[string]string
	mapState        map[uintptr]*mapAcc
	ext             map[string]any
	resets          int
	names           map[string]int
	prioSeq         int
	owner           *Proc // whose package level state is in place
}

// S is the current simulation, cur the running task.
var (
	S   *Sim
	cur *Task
)

// ResetFns re-initialise package level state of the instrumented packages.
var resetFns []func()

func RegisterReset(pkg string, fn func()) { resetFns = append(resetFns, fn) }

// ResetGlobals restores the package level state of all instrumented packages.
func ResetGlobals() {
	for _, fn := range resetFns {
		fn()
	}
}

// The package level variables of the instrumented packages. Every simulated
// process has its own; those of the running one are in place.
var globals []reflect.Value

func RegisterGlobals(ps ...any) {
	for _, p := range ps {
		globals = append(globals, reflect.ValueOf(p).Elem())
	}
}

// globalsOf puts the package level state of a process in place. One that has
// just been started resets it before it does anything else.
func (s *Sim) globalsOf(p *Proc) {
	if o := s.owner; o != nil && len(o.tasks) > 0 {
		o.saved = make([]reflect.Value, len(globals))
		for i, g := range globals {
			o.saved[i] = reflect.New(g.Type()).Elem()
			o.saved[i].Set(g)
		}
	}
	for i, v := range p.saved {
		globals[i].Set(v)
	}
	p.saved = nil
	s.owner = p
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func Mix(a, b uint64) uint64 {
	z := a + 0x9e3779b97f4a7c15*(b+1)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Stream is a named source of decisions. The default decision is always 0.
type Stream struct {
	name   string
	st     uint64
	n      int
	replay map[int]int
	order  []int // the replayed indexes ahead, sorted (preemption streams)
	rp     bool
}

func (s *Sim) stream(name string) *Stream {
	st := s.streams[name]
	if st == nil {
		st = &Stream{name: name, st: Mix(s.cfg.Seed, hash64(name)), rp: s.cfg.Replayd}
		if s.replay != nil {
			st.replay = s.replay[name]
		}
		s.streams[name] = st
	}
	return st
}

// GetStream returns the named decision stream of the current run.
func GetStream(name string) *Stream { return S.stream(name) }

func (s *Stream) next() uint64 {
	s.st += 0x9e3779b97f4a7c15
	z := s.st
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *Stream) rec(idx, v int) {
	if v != 0 {
		S.trace = append(S.trace, Choice{s.name, idx, v})
	}
}

// Choose picks 0..n-1; 0 is the default.
func (s *Stream) Choose(n int) int {
	idx := s.n
	s.n++
	v := 0
	if s.rp {
		v = s.replay[idx]
		if n > 0 && v >= n {
			v %= n
		}
	} else if n > 1 {
		v = int(s.next() % uint64(n))
	}
	s.rec(idx, v)
	return v
}

// Chance is true with probability p; false is the default.
func (s *Stream) Chance(p float64) bool {
	idx := s.n
	s.n++
	v := 0
	if s.rp {
		v = s.replay[idx]
	} else if p > 0 && float64(s.next()>>11)/(1<<53) < p {
		v = 1
	}
	s.rec(idx, v)
	return v != 0
}

// Bytes fills b from the stream; not part of the trace (values carry no choice).
func (s *Stream) Bytes(b []byte) {
	for i := 0; i < len(b); {
		x := s.next()
		for k := 0; k < 8 && i < len(b); k++ {
			b[i] = byte(x)
			x >>= 8
			i++
		}
	}
}

// Active reports whether the caller runs inside a simulation as a live task.
func Active() bool { return cur != nil }

// Dying reports whether the current task belongs to a dead process and is being unwound.
func Dying() bool { return cur != nil && cur.dead }

func Cur() *Task { return cur }

func CurProc() *Proc {
	if cur == nil {
		return nil
	}
	return cur.proc
}

func CurName() string {
	if cur == nil {
		return "-"
	}
	return cur.name
}

// Run executes one simulation; main is the harness task.
func Run(cfg Config, main func()) *Result {
	if cfg.Params.MaxSteps == 0 {
		cfg.Params.MaxSteps = 20_000_000
	}
	s := &Sim{cfg: cfg, streams: map[string]*Stream{}, tasks: map[*Task]struct{}{}, faults: map[string]int{}, probes: map[string]int{},
		finished: make(chan struct{}), chans: map[uintptr]*chanQ{}, races: map[string]string{}, mapState: map[uintptr]*mapAcc{}, ext: map[string]any{}, names: map[string]int{}}
	if cfg.Replayd {
		s.replay = map[string]map[int]int{}
		for _, c := range cfg.Replay {
			m := s.replay[c.S]
			if m == nil {
				m = map[int]int{}
				s.replay[c.S] = m
			}
			m[c.I] = c.V
		}
	}
	S = s
	s.sched = s.stream("sched")
	s.stall = s.stream("stall")
	s.hot = s.stream("hot")
	s.hotBelow = uint32(s.cfg.Params.HotShare * (1 << 32))
	s.tearBelow = uint32(s.cfg.Params.HotTear * (1 << 32))
	s.hotAt = map[uint32]int{}
	s.main = s.newTask("main", nil, nil)
	go s.taskBody(s.main, func() {
		main()
	})
	cur = s.main
	s.main.wake <- struct{}{}
	<-s.finished
	cur = nil
	res := &Result{Abort: s.abort, AbortMsg: s.abortMsg, Steps: s.steps, Switches: s.switches, SimTime: time.Duration(s.now), Trace: s.trace,
		SchedHash: s.schedH, LogHash: s.logH, Log: s.log, Faults: s.faults, Probes: s.probes, Tasks: s.ntasks}
	S = nil
	return res
}

func (s *Sim) newTask(name string, p *Proc, parent *Task) *Task {
	// the name identifies the decision stream, so it must be unique
	if s.names[name]++; s.names[name] > 1 {
		name = fmt.Sprintf("%s~%d", name, s.names[name])
	}
	t := &Task{id: s.nextID, name: name, proc: p, wake: make(chan struct{}, 1)}
	s.nextID++
	s.ntasks++
	t.ys = s.stream("y/" + name)
	t.prio = int(t.ys.next() & 0xffff)
	s.scheduleNextY(t)
	s.tasks[t] = struct{}{}
	if p != nil {
		p.tasks[t] = struct{}{}
	}
	if parent != nil {
		t.vc = parent.vc.clone()
		parent.vc.tick(parent.id)
	}
	t.vc.tick(t.id)
	return t
}

func (s *Sim) scheduleNextY(t *Task) {
	if s.cfg.Replayd {
		// next recorded preemption of this task
		if t.ys.order == nil {
			t.ys.order = make([]int, 0, len(t.ys.replay))
			for i := range t.ys.replay {
				t.ys.order = append(t.ys.order, i)
			}
			sort.Ints(t.ys.order)
		}
		for len(t.ys.order) > 0 && t.ys.order[0] <= t.y {
			t.ys.order = t.ys.order[1:]
		}
		t.nextY = 0
		if len(t.ys.order) > 0 {
			t.nextY = t.ys.order[0]
		}
		return
	}
	m := s.cfg.Params.PreemptMean
	if m <= 0 {
		t.nextY = 0
		return
	}
	// roughly geometric: mixture of short and long gaps
	g := 1 + int(t.ys.next()%uint64(2*m))
	if t.ys.next()&7 == 0 {
		g = 1 + int(t.ys.next()%8)
	}
	t.nextY = t.y + g
}

// Go starts a task in the process of the current task.
func Go(fn func()) {
	t := cur
	if t == nil {
		go fn()
		return
	}
	if t.dead {
		return
	}
	t.kids++
	S.start(fmt.Sprintf("%s.%d", t.name, t.kids), t.proc, fn)
	SyncPoint()
}

// GoIn starts a named task in the given process (nil: outside of any process).
func GoIn(name string, p *Proc, fn func()) *Task { return S.start(name, p, fn) }

func (s *Sim) start(name string, p *Proc, fn func()) *Task {
	t := s.newTask(name, p, cur)
	go s.taskBody(t, fn)
	s.makeReady(t)
	return t
}

func (s *Sim) taskBody(t *Task, fn func()) {
	<-t.wake
	defer func() {
		if r := recover(); r != nil && !t.dead {
			st := string(debug.Stack())
			msg := fmt.Sprintf("panic: %v", r)
			s.taskPanic(t, msg, st)
		}
		s.taskExit(t)
	}()
	if t.dead {
		return
	}
	// an access to unmapped memory ends the simulated process, not the simulator
	debug.SetPanicOnFault(true)
	fn()
}

func (s *Sim) taskPanic(t *Task, msg, stack string) {
	if t.proc != nil {
		t.proc.Crash = msg + "\n" + trimStack(stack)
		s.logf("CRASH proc=%s task=%s %s", t.proc.Name, t.name, msg)
		s.killProc(t.proc, t)
		return
	}
	s.abortRun("panic", t.name+": "+msg+"\n"+stack)
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "/simrt/sim/") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		out = append(out, strings.TrimSpace(l))
		if len(out) > 24 {
			break
		}
	}
	return addresses.ReplaceAllString(strings.Join(out, "\n"), "0x?")
}

// addresses differ from process to process
var addresses = regexp.MustCompile(`0x[0-9a-f]{6,}`)

func (s *Sim) taskExit(t *Task) {
	t.done = true
	delete(s.tasks, t)
	if t.proc != nil {
		delete(t.proc.tasks, t)
	}
	for _, j := range t.joiners {
		j.vc.join(t.vc)
		s.makeReady(j)
	}
	t.joiners = nil
	if t == s.main && s.abort == "" {
		s.abortAll()
	}
	next := s.pick()
	if next == nil {
		close(s.finished)
		return
	}
	s.enter(next)
	next.wake <- struct{}{}
}

// enter makes t the running task.
func (s *Sim) enter(t *Task) {
	cur = t
	if p := t.proc; p != nil && p != s.owner {
		s.globalsOf(p)
	}
}

func (s *Sim) abortAll() {
	if s.abort == "" {
		s.abort = "end"
	}
	var l []*Task
	for t := range s.tasks {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, t := range l {
		s.markDead(t)
	}
	s.timers = nil
}

func (s *Sim) abortRun(kind, msg string) {
	if s.abort == "" {
		s.abort, s.abortMsg = kind, msg
		s.logf("ABORT %s %s", kind, msg)
	}
	s.abortAll()
}

// Abort ends the run from harness or task code.
func Abort(kind, msg string) {
	S.abortRun(kind, msg)
	runtime.Goexit()
}

func (s *Sim) markDead(t *Task) {
	if t.dead || t.done {
		return
	}
	t.dead = true
	if t == cur && t.parked == "" {
		return
	}
	if t.inRdy {
		for i, r := range s.ready {
			if r == t {
				s.ready = append(s.ready[:i], s.ready[i+1:]...)
				break
			}
		}
		t.inRdy = false
	}
	s.deadq = append(s.deadq, t)
}

func (s *Sim) makeReady(t *Task) {
	if t.dead || t.done || t.inRdy || t == cur && t.parked == "" {
		return
	}
	t.parked = ""
	t.inRdy = true
	s.ready = append(s.ready, t)
}

// pick chooses the next task to run, advancing time when nothing is runnable.
func (s *Sim) pick() *Task {
	for {
		if len(s.deadq) > 0 {
			t := s.deadq[0]
			s.deadq = s.deadq[1:]
			return t
		}
		for len(s.timers) > 0 && s.timers[0].when <= s.now {
			e := heap.Pop(&s.timers).(*timerEnt)
			e.fn()
		}
		if len(s.deadq) > 0 {
			continue
		}
		if n := len(s.ready); n > 0 {
			i := 0
			if n > 1 {
				i = s.pickIndex(n)
			}
			t := s.ready[i]
			copy(s.ready[i:], s.ready[i+1:])
			s.ready = s.ready[:n-1]
			t.inRdy = false
			return t
		}
		if len(s.tasks) == 0 {
			return nil
		}
		if len(s.timers) == 0 {
			if s.abort != "" {
				return nil
			}
			s.abortRun("deadlock", s.describe())
			continue
		}
		s.now = s.timers[0].when
	}
}

func (s *Sim) pickIndex(n int) int {
	st := s.sched
	if st.rp {
		return st.Choose(n)
	}
	switch s.cfg.Params.Strategy {
	case 1:
		st.n++
		return 0
	case 2:
		best := 0
		for i := 1; i < n; i++ {
			if s.ready[i].prio > s.ready[best].prio {
				best = i
			}
		}
		if st.next()%64 == 0 { // priority change point
			s.ready[best].prio = int(st.next() & 0xffff)
		}
		idx := st.n
		st.n++
		st.rec(idx, best)
		return best
	}
	return st.Choose(n)
}

func (s *Sim) describe() string {
	var l []*Task
	for t := range s.tasks {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	var b strings.Builder
	for _, t := range l {
		fmt.Fprintf(&b, "%s[%s] ", t.name, t.parked)
	}
	return b.String()
}

// LiveTasks describes the live tasks of a process.
func (p *Proc) LiveTasks() []string {
	var l []*Task
	for t := range p.tasks {
		if !t.dead {
			l = append(l, t)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	var out []string
	for _, t := range l {
		out = append(out, t.name+"["+t.parked+"]")
	}
	return out
}

// Idle tells whether every task of the process waits for something to happen.
func (p *Proc) Idle() bool {
	for t := range p.tasks {
		if t.dead {
			continue
		}
		switch t.parked {
		case "", "ready", "sleep", "stall":
			return false
		}
	}
	return true
}

// switchOut gives up the token; t must already be parked or in the ready list.
func (s *Sim) switchOut(t *Task) {
	s.now += 2000
	s.switches++
	next := s.pick()
	if next == nil {
		// cannot happen: t itself is live
		panic("sim: no task")
	}
	if next != t {
		s.schedH = s.schedH*1099511628211 ^ uint64(next.id)
		s.enter(next)
		next.wake <- struct{}{}
		<-t.wake
	}
	t.parked = ""
	if t.dead {
		runtime.Goexit()
	}
}

// park blocks the current task until makeReady is called for it.
func (s *Sim) park(t *Task, why string) {
	t.parked = why
	s.switchOut(t)
}

func (s *Sim) preempt(t *Task) {
	t.parked = "ready"
	s.makeReady(t)
	s.switchOut(t)
}

func (s *Sim) step(t *Task) {
	s.steps++
	if t.dead {
		return
	}
	if s.steps > s.cfg.Params.MaxSteps {
		if s.abort == "" {
			s.abortRun("steps", "step limit reached; running "+t.name+"; "+s.describe())
		}
		runtime.Goexit()
	}
}

// Y is a plain yield point.
func Y() {
	t := cur
	if t == nil {
		return
	}
	s := S
	s.step(t)
	if t.dead {
		return
	}
	t.y++
	if t.y == t.nextY {
		s.firePreempt(t)
	}
}

func (s *Sim) firePreempt(t *Task) {
	if t.ys.rp {
		v := t.ys.replay[t.y]
		y := t.y
		s.scheduleNextY(t)
		if v != 0 {
			t.ys.rec(y, v)
			s.preempt(t)
		}
		return
	}
	t.ys.rec(t.y, 1)
	s.scheduleNextY(t)
	s.preempt(t)
}

// YS is a yield point at a statement. A few statements per run are hot: tasks
// are likely to stall there, which makes the narrow windows between two
// statements as wide as others.
func YS(site uint32) {
	t := cur
	if t == nil {
		return
	}
	s := S
	s.step(t)
	if t.dead {
		return
	}
	t.y++
	if t.y == t.nextY {
		s.firePreempt(t)
	}
	if s.hotBelow != 0 {
		s.stallAt(t, site, s.hotBelow)
	}
}

func (s *Sim) stallAt(t *Task, site, below uint32) {
	x := site ^ s.cfg.Params.HotSalt
	x ^= x >> 15
	x *= 0x2c1b3c6d
	x ^= x >> 12
	if x < below && s.hotAt[site] < 3 && len(s.hotAt) < 20 && !t.dead && s.hot.Chance(0.4) {
		s.hotAt[site]++
		d := time.Duration(1+s.hot.Choose(1000)) * time.Duration(s.cfg.Params.HotMax) / 1000
		Fault("stall.statement")
		t.sleep(d, "stall")
	}
}

// YV yields between the evaluation of a value and its assignment.
func YV[T any](site uint32, v T) T {
	YS(site)
	if t := cur; t != nil && S.tearBelow != 0 {
		S.stallAt(t, site, S.tearBelow)
	}
	return v
}

// SyncPoint is a yield point at a synchronisation operation.
func SyncPoint() {
	t := cur
	if t == nil {
		return
	}
	s := S
	s.step(t)
	if t.dead {
		return
	}
	t.y++
	p := &s.cfg.Params
	if t.ys.rp {
		if t.y == t.nextY {
			s.firePreempt(t)
		}
	} else {
		r := t.ys.next()
		if p.SyncP > 0 && float64(r>>11)/(1<<53) < p.SyncP {
			t.ys.rec(t.y, 1)
			if t.y == t.nextY {
				s.scheduleNextY(t)
			}
			s.preempt(t)
		} else if t.y == t.nextY {
			s.firePreempt(t)
		}
	}
	if p.StallP > 0 && s.stall.Chance(p.StallP) {
		d := time.Duration(1+s.stall.Choose(1000)) * time.Duration(p.StallMax) / 1000
		Fault("stall")
		t.sleep(d, "stall")
	}
}

func (t *Task) sleep(d time.Duration, why string) {
	s := S
	AddTimer(d, func() { s.makeReady(t) })
	s.park(t, why)
}

// Sleep blocks the current task for d of simulated time.
func Sleep(d time.Duration) {
	t := cur
	if t == nil || t.dead {
		return
	}
	if d <= 0 {
		SyncPoint()
		return
	}
	t.sleep(d, "sleep")
}

// Timer support -----------------------------------------------------------

type Timer struct{ e *timerEnt }

func AddTimer(d time.Duration, fn func()) *Timer {
	s := S
	if s == nil {
		return &Timer{&timerEnt{idx: -1}}
	}
	if d < 0 {
		d = 0
	}
	s.tseq++
	e := &timerEnt{when: s.now + int64(d), seq: s.tseq, fn: fn}
	heap.Push(&s.timers, e)
	return &Timer{e}
}

func (t *Timer) Stop() bool {
	if t == nil || t.e == nil || S == nil {
		return false
	}
	if t.e.idx >= 0 && t.e.idx < len(S.timers) && S.timers[t.e.idx] == t.e {
		heap.Remove(&S.timers, t.e.idx)
		t.e.idx = -1
		return true
	}
	return false
}

func Now() time.Time {
	if S == nil {
		return Epoch
	}
	return Epoch.Add(time.Duration(S.now))
}

func Elapsed() time.Duration {
	if S == nil {
		return 0
	}
	return time.Duration(S.now)
}

// AdvanceClock lets d pass without running anybody (a paused machine).
func AdvanceClock(d time.Duration) { S.now += int64(d) }

// Waiting -----------------------------------------------------------------

type waitTok struct{ fired bool }

// WaitQ is a FIFO queue of parked tasks.
type WaitQ struct{ q []*Task }

func (w *WaitQ) Wait(why string) {
	t := cur
	if t.dead {
		runtime.Goexit()
	}
	w.q = append(w.q, t)
	S.park(t, why)
}

// Enqueue and Park split Wait for condition variables.
func (w *WaitQ) Enqueue() *Task {
	t := cur
	t.woken = false
	w.q = append(w.q, t)
	return t
}

func (w *WaitQ) Park(t *Task, why string) {
	for _, x := range w.q {
		if x == t {
			S.park(t, why)
			return
		}
	}
}

// WaitTimeout waits until woken or until d has passed; false on timeout.
func (w *WaitQ) WaitTimeout(why string, d time.Duration) bool {
	t := cur
	if t.dead {
		runtime.Goexit()
	}
	w.q = append(w.q, t)
	timed := false
	s := S
	tm := AddTimer(d, func() {
		for i, x := range w.q {
			if x == t {
				w.q = append(w.q[:i:i], w.q[i+1:]...)
				timed = true
				s.makeReady(t)
				return
			}
		}
	})
	s.park(t, why)
	tm.Stop()
	return !timed
}

func (w *WaitQ) WakeOne() bool {
	for len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		if !t.dead && !t.done {
			S.makeReady(t)
			return true
		}
	}
	return false
}

func (w *WaitQ) WakeAll() {
	for w.WakeOne() {
	}
}

func (w *WaitQ) Len() int {
	n := 0
	for _, t := range w.q {
		if !t.dead && !t.done {
			n++
		}
	}
	return n
}

// Join waits for t to end, at most d; false on timeout.
func Join(t *Task, d time.Duration) bool {
	if t.done {
		cur.vc.join(t.vc)
		return true
	}
	me := cur
	t.joiners = append(t.joiners, me)
	timed := false
	s := S
	tm := AddTimer(d, func() {
		for i, x := range t.joiners {
			if x == me {
				t.joiners = append(t.joiners[:i:i], t.joiners[i+1:]...)
				timed = true
				s.makeReady(me)
				return
			}
		}
	})
	s.park(me, "join "+t.name)
	tm.Stop()
	return !timed
}

func (t *Task) Done() bool { return t.done }

// Processes ---------------------------------------------------------------

func NewProc(name string) *Proc {
	return &Proc{Name: name, tasks: map[*Task]struct{}{}, Values: map[string]any{}}
}

// OnDeath registers kernel-side cleanup (sockets, locks).
func (p *Proc) OnDeath(fn func()) { p.onDeath = append(p.onDeath, fn) }

// Kill ends the process abruptly.
func (p *Proc) Kill() {
	if p.Dead {
		return
	}
	S.logf("KILL %s", p.Name)
	S.killProc(p, cur)
	if cur.proc == p {
		runtime.Goexit()
	}
}

func (s *Sim) killProc(p *Proc, self *Task) {
	if p.Dead {
		return
	}
	p.Dead = true
	var l []*Task
	for t := range p.tasks {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, t := range l {
		s.markDead(t)
	}
	for _, fn := range p.onDeath {
		fn()
	}
	p.onDeath = nil
	for _, t := range p.exitW {
		s.makeReady(t)
	}
	p.exitW = nil
}

// Exit is os.Exit for the current process.
func Exit(code int) {
	t := cur
	if t == nil {
		panic(fmt.Sprintf("exit %d outside of simulation", code))
	}
	if t.dead {
		runtime.Goexit()
	}
	if t.proc == nil {
		Abort("panic", "os.Exit outside of a process")
	}
	t.proc.Exited = true
	t.proc.ExitCode = code
	S.logf("EXIT %s code=%d", t.proc.Name, code)
	S.killProc(t.proc, t)
	runtime.Goexit()
}

// Fatal is an unrecoverable runtime error (fatal error: ...) of the current process.
func Fatal(msg string) {
	t := cur
	if t == nil {
		panic("fatal error: " + msg)
	}
	if t.dead {
		runtime.Goexit()
	}
	st := string(debug.Stack())
	if t.proc == nil {
		Abort("panic", "fatal error: "+msg+"\n"+st)
	}
	t.proc.Crash = "fatal error: " + msg + "\n" + trimStack(st)
	S.logf("CRASH proc=%s task=%s %s", t.proc.Name, t.name, msg)
	S.killProc(t.proc, t)
	runtime.Goexit()
}

// WaitDeath waits until the process is dead, at most d.
func (p *Proc) WaitDeath(d time.Duration) bool {
	deadline := S.now + int64(d)
	for !p.Dead {
		if S.now >= deadline {
			return false
		}
		me := cur
		p.exitW = append(p.exitW, me)
		s := S
		tm := AddTimer(time.Duration(deadline-s.now), func() {
			for i, x := range p.exitW {
				if x == me {
					p.exitW = append(p.exitW[:i:i], p.exitW[i+1:]...)
					s.makeReady(me)
					return
				}
			}
		})
		s.park(me, "wait "+p.Name)
		tm.Stop()
	}
	return true
}

// Records -----------------------------------------------------------------

func (s *Sim) logf(format string, a ...any) {
	m := fmt.Sprintf("%d %s ", s.now, CurName()) + fmt.Sprintf(format, a...)
	for i := 0; i < len(m); i++ {
		s.logH = (s.logH ^ uint64(m[i])) * 1099511628211
	}
	if s.cfg.KeepLog {
		s.log = append(s.log, m)
	}
}

// Logf adds to the event log (never yields, never draws).
func Logf(format string, a ...any) {
	if S != nil {
		S.logf(format, a...)
	}
}

// Fault counts a fault that actually fired.
func Fault(kind string) {
	S.faults[kind]++
	S.logf("FAULT %s", kind)
}

func Faults() map[string]int { return S.faults }

// Probe counts reached situations.
func Probe(name string) { S.probes[name]++ }

// Ext is per-run storage for the simulated subsystems.
func Ext(key string, mk func() any) any {
	v, ok := S.ext[key]
	if !ok {
		v = mk()
		S.ext[key] = v
	}
	return v
}

func Steps() int64 { return S.steps }

// Zero resets a package level variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
