package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/simrt/sim"
)

// The driver: a supervisor starts worker processes, each of which performs
// simulated runs one after the other; run number j of a check is decided by
// the seed Mix(VERIF_SEED, j) alone, whatever worker performs it.

type sample struct {
	Seed    uint64         `json:"seed"`
	Profile string         `json:"profile"`
	World   string         `json:"world"`
	Clients int            `json:"clients"`
	Ops     []string       `json:"operations"`
	Faults  map[string]int `json:"faults"`
	Steps   int64          `json:"steps"`
	Choices int            `json:"choices"`
	SimS    float64        `json:"simulated_s"`
}

type summary struct {
	Runs     int            `json:"runs"`
	Nontriv  []uint64       `json:"nontriv"`
	Sched    []uint64       `json:"sched"`
	Hist     []uint64       `json:"hist"`
	Steps    int64          `json:"steps"`
	Switches int64          `json:"switches"`
	SimNS    int64          `json:"sim_ns"`
	Choices  int64          `json:"choices"`
	Stats    map[string]int `json:"stats"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Profiles map[string]int `json:"profiles"`
	Unknown  int            `json:"unknown"`
	Samples  []sample       `json:"samples"`
	Twice    int            `json:"twice"`
	Differ   int            `json:"differ"`
	Known    map[string]int `json:"known"`
}

type wmsg struct {
	T    string   `json:"t"` // start, viol, error, end
	J    uint64   `json:"j,omitempty"`
	Seed uint64   `json:"seed,omitempty"`
	Msg  string   `json:"msg,omitempty"`
	File *replay  `json:"file,omitempty"`
	Sum  *summary `json:"sum,omitempty"`
}

// replay is everything needed to repeat a run exactly.
type replay struct {
	Property  string       `json:"property"`
	Violation Violation    `json:"violation"`
	All       []string     `json:"all_violations,omitempty"`
	Seed      uint64       `json:"seed"`
	VerifSeed int64        `json:"verif_seed"`
	Run       uint64       `json:"run"`
	Tier      string       `json:"tier"`
	Minimised bool         `json:"minimised"`
	Replayed  bool         `json:"from_trace"` // decisions come from the trace, those not listed take their default
	LogHash   string       `json:"log_hash"`
	Scenario  *Scenario    `json:"scenario"`
	Trace     []sim.Choice `json:"trace,omitempty"`
	Log       []string     `json:"log,omitempty"`
}

func (o *Outcome) nontrivial() bool {
	return o.Stats["answered"]+o.Stats["offline"] > 0 && (len(o.Res.Faults) > 0 || o.Stats["overlapping"] > 0)
}

func describe(o *Outcome) sample {
	s := sample{Seed: o.Seed, Profile: o.Sc.Name, World: o.Sc.World, Clients: len(o.Sc.Clients), Faults: o.Res.Faults, Steps: o.Res.Steps, Choices: len(o.Res.Trace), SimS: o.Res.SimTime.Seconds()}
	for i, c := range o.Sc.Clients {
		for _, op := range c.Ops {
			if len(s.Ops) >= 14 {
				break
			}
			s.Ops = append(s.Ops, fmt.Sprintf("c%d %s", i, (&Rec{Op: op, DN: op.DN, PW: op.PW, Cl: i}).short()))
		}
	}
	for _, e := range o.Sc.Events {
		s.Ops = append(s.Ops, fmt.Sprintf("event %s at %dus/op %d", e.K, e.US, e.Op))
	}
	if o.Sc.Off != nil {
		s.Ops = append(s.Ops, fmt.Sprintf("offline: %d bytes of input, %d entries, %d users, bad %q", len(o.Sc.Off.Input), len(o.Sc.Off.Ents), len(o.Sc.Off.Users), o.Sc.Off.Bad))
	}
	return s
}

func (r *Rec) short() string {
	s := r.String()
	if i := strings.Index(s, "] "); i >= 0 {
		s = s[i+2:]
	}
	return strings.TrimSuffix(clip(s, 160), " -> no answer")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// known findings ---------------------------------------------------------------

type finding struct {
	prop string
	re   *regexp.Regexp
	text string
}

func loadFindings(path string) ([]finding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out []finding
	for n, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue // comments, and defects that have been fixed
		}
		m := regexp.MustCompile(`^known: property=(C\d+) match=/(.*)/ (.*)$`).FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("%s:%d: malformed", path, n+1)
		}
		re, err := regexp.Compile(m[2])
		if err != nil {
			return nil, fmt.Errorf("%s:%d: %v", path, n+1, err)
		}
		out = append(out, finding{m[1], re, m[3]})
	}
	return out, nil
}

func (f finding) matches(prop string, v Violation) bool {
	return f.prop == prop && f.re.MatchString(v.Key+" "+v.Msg)
}

// worker -----------------------------------------------------------------------

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	vseed := fs.Int64("seed", 1, "")
	id := fs.Uint64("id", 0, "")
	of := fs.Uint64("of", 1, "")
	secs := fs.Float64("secs", 10, "")
	max := fs.Uint64("max", 1<<40, "")
	kf := fs.String("known", "", "")
	fs.Parse(args)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	emit := func(m wmsg) {
		if err := enc.Encode(m); err != nil {
			os.Exit(3)
		}
		out.Flush()
	}
	known, err := loadFindings(*kf)
	if err != nil {
		emit(wmsg{T: "error", Msg: err.Error()})
		os.Exit(2)
	}
	s := &summary{Stats: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Profiles: map[string]int{}, Known: map[string]int{}}
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	var quit atomic.Bool
	go func() {
		io.Copy(io.Discard, os.Stdin) // closed by the supervisor
		quit.Store(true)
	}()
	for j := *id; j < *max && !quit.Load(); j += *of {
		if time.Now().After(deadline) {
			break
		}
		seed := sim.Mix(uint64(*vseed), j)
		fmt.Fprintf(out, "{\"t\":\"start\",\"j\":%d}\n", j)
		out.Flush()
		sc := makeScenario(*prop, seed)
		o := execute(sc, seed, nil, false, false)
		if o.Error != "" {
			emit(wmsg{T: "error", J: j, Seed: seed, Msg: o.Error})
			os.Exit(2)
		}
		s.Runs++
		s.Profiles[sc.Name]++
		s.Steps += o.Res.Steps
		s.Switches += o.Res.Switches
		s.SimNS += int64(o.Res.SimTime)
		s.Choices += int64(len(o.Res.Trace))
		for k, v := range o.Stats {
			s.Stats[k] += v
		}
		for k, v := range o.Res.Faults {
			s.Faults[k] += v
		}
		for k, v := range o.Res.Probes {
			s.Probes[k] += v
		}
		if o.Unk {
			s.Unknown++
		}
		s.Sched = append(s.Sched, o.Res.SchedHash)
		s.Hist = append(s.Hist, o.Hist)
		if o.nontrivial() {
			s.Nontriv = append(s.Nontriv, sim.Mix(o.Res.SchedHash, o.Hist))
			if len(s.Samples) < 1 || s.Runs%97 == 0 && len(s.Samples) < 2 {
				s.Samples = append(s.Samples, describe(o))
			}
		}
		for _, v := range o.Viols {
			hit := false
			for _, f := range known {
				if f.matches(*prop, v) {
					s.Known[f.text]++
					hit = true
				}
			}
			if hit {
				continue
			}
			r := &replay{Property: *prop, Violation: v, Seed: seed, VerifSeed: *vseed, Run: j, Scenario: sc}
			for _, x := range o.Viols {
				r.All = append(r.All, x.Key+" "+x.Msg)
			}
			emit(wmsg{T: "viol", J: j, Seed: seed, File: r})
			quit.Store(true)
			break
		}
		// one seed is one execution: now and then, prove it
		if s.Runs%50 == 7 {
			o2 := execute(makeScenario(*prop, seed), seed, nil, false, false)
			s.Twice++
			if o2.Res.LogHash != o.Res.LogHash || o2.Res.SchedHash != o.Res.SchedHash {
				s.Differ++
			}
			o3 := execute(sc, seed, o.Res.Trace, true, false)
			s.Twice++
			if o3.Res.LogHash != o.Res.LogHash {
				s.Differ++
			}
		}
	}
	emit(wmsg{T: "end", Sum: s})
}

// supervisor -------------------------------------------------------------------

type budget struct {
	secs float64
	max  uint64
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	vseed := fs.Int64("seed", 1, "")
	dir := fs.String("dir", "/verif", "")
	secs := fs.Float64("secs", 0, "")
	max := fs.Uint64("max", 0, "")
	nw := fs.Int("workers", 0, "")
	t0f := fs.Float64("t0", 0, "")
	fs.Parse(args)
	t0 := time.Now()
	if *t0f > 0 {
		t0 = time.UnixMicro(int64(*t0f * 1e6))
	}
	if len(profiles[*prop]) == 0 {
		fmt.Fprintf(os.Stderr, "no check for property %q\n", *prop)
		return 2
	}
	b := budget{40, 40000}
	if *tier == "thorough" {
		b = budget{600, 1 << 40}
	}
	if *secs > 0 {
		b.secs = *secs
	}
	if *max > 0 {
		b.max = *max
	}
	kf := filepath.Join(*dir, "known_findings.txt")
	known, err := loadFindings(kf)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	_ = known
	n := *nw
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	env := append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	var mu sync.Mutex
	var viols []*replay
	var sums []*summary
	var errs []string
	var procs []*exec.Cmd
	var ins []io.Closer
	stopped := false
	stop := func() {
		for _, c := range ins {
			c.Close()
		}
		time.Sleep(1500 * time.Millisecond)
		for _, p := range procs {
			p.Process.Kill()
		}
	}
	var wg sync.WaitGroup
	runT0 := time.Now()
	for i := 0; i < n; i++ {
		cmd := exec.Command(self, "worker", "-prop", *prop, "-seed", fmt.Sprint(*vseed), "-id", fmt.Sprint(i), "-of", fmt.Sprint(n),
			"-secs", fmt.Sprint(b.secs), "-max", fmt.Sprint(b.max), "-known", kf)
		cmd.Env = env
		var stderr tailBuf
		cmd.Stderr = &stderr
		pipe, err := cmd.StdoutPipe()
		var in io.WriteCloser
		if err == nil {
			in, err = cmd.StdinPipe()
		}
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		mu.Lock()
		procs = append(procs, cmd)
		ins = append(ins, in)
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rd := bufio.NewReaderSize(pipe, 1<<20)
			var last uint64
			ended := false
			for {
				line, err := rd.ReadBytes('\n')
				if err != nil {
					break
				}
				var m wmsg
				if json.Unmarshal(line, &m) != nil {
					continue
				}
				mu.Lock()
				switch m.T {
				case "start":
					last = m.J
				case "viol":
					viols = append(viols, m.File)
					// the others may finish what they are doing
					if len(viols) == 1 {
						stopped = true
						go stop()
					}
				case "error":
					errs = append(errs, fmt.Sprintf("run %d: %s", m.J, m.Msg))
					ended = true
				case "end":
					sums = append(sums, m.Sum)
					ended = true
				}
				mu.Unlock()
			}
			err := cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			if !ended && !stopped {
				if st := stderr.String(); strings.Contains(st, "stack overflow") || strings.Contains(st, "stack exceeds") {
					seed := sim.Mix(uint64(*vseed), last)
					viols = append(viols, &replay{Property: *prop, Seed: seed, VerifSeed: *vseed, Run: last, Scenario: makeScenario(*prop, seed),
						Violation: Violation{Rule: "fatal", Key: "fatal:stack", Msg: "the server exhausts its stack: " + firstLines(st, 12)}})
					stopped = true
					go stop()
				} else {
					errs = append(errs, fmt.Sprintf("worker ended at run %d: %v\n%s", last, err, st))
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Duration(b.secs*float64(time.Second)) + 150*time.Second):
		mu.Lock()
		errs = append(errs, "watchdog: workers did not end in time")
		stopped = true
		go stop()
		mu.Unlock()
		<-done
	}
	runSecs := time.Since(runT0).Seconds()

	total := &summary{Stats: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Profiles: map[string]int{}, Known: map[string]int{}}
	nontriv, sched, hist := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	for _, s := range sums {
		total.Runs += s.Runs
		total.Steps += s.Steps
		total.Switches += s.Switches
		total.SimNS += s.SimNS
		total.Choices += s.Choices
		total.Unknown += s.Unknown
		total.Twice += s.Twice
		total.Differ += s.Differ
		total.Samples = append(total.Samples, s.Samples...)
		for _, p := range []struct{ a, b map[string]int }{{total.Stats, s.Stats}, {total.Faults, s.Faults}, {total.Probes, s.Probes}, {total.Profiles, s.Profiles}, {total.Known, s.Known}} {
			for k, v := range p.b {
				p.a[k] += v
			}
		}
		for _, h := range s.Nontriv {
			nontriv[h] = true
		}
		for _, h := range s.Sched {
			sched[h] = true
		}
		for _, h := range s.Hist {
			hist[h] = true
		}
	}
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}

	sort.Slice(viols, func(i, j int) bool { return viols[i].Run < viols[j].Run })
	var rep *replay
	var repPath string
	if len(viols) > 0 {
		rep, repPath, err = settleViolation(self, *dir, *tier, viols)
		if err != nil {
			errs = append(errs, err.Error())
		}
	}
	nv := 0
	if rep != nil {
		nv = 1
	}
	wall := time.Since(t0).Seconds()
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *vseed, "level": "exploration", "wall_s": wall, "violations": nv,
		"coverage": map[string]any{
			"evaluations":              total.Runs,
			"distinct_nontrivial":      len(nontriv),
			"rule":                     "One evaluation is one simulated run decided by its seed (scenario, scheduling, network, disk and crash choices). A run counts as non-trivial if at least one request was answered (or offline command judged) and at least one injected fault fired or two requests overlapped in time; distinct means different pair of schedule hash (sequence of task switches) and history hash (invocation and answer order with results; for the offline commands: arguments, exit status, number of disk operations and output of each).",
			"samples":                  total.Samples,
			"distinct_interleavings":   len(sched),
			"distinct_histories":       len(hist),
			"runs_per_hour":            int(float64(total.Runs) / runSecs * 3600),
			"simulated_seconds":        float64(total.SimNS) / 1e9,
			"scheduler_steps":          total.Steps,
			"task_switches":            total.Switches,
			"recorded_choices":         total.Choices,
			"faults_injected":          total.Faults,
			"probes":                   total.Probes,
			"measures":                 total.Stats,
			"profiles":                 total.Profiles,
			"history_search_gave_up":   total.Unknown,
			"repeated_for_determinism": total.Twice,
			"repeats_that_differed":    total.Differ,
			"workers":                  n,
			"real_components":          realComponents,
			"stubbed_components":       stubComponents,
		},
		"assumptions": assumptions,
	}
	if err := writeJSON(filepath.Join(*dir, "evidence", *prop+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, f := range known {
		if c := total.Known[f.text]; c > 0 && f.prop == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.text)
		}
	}
	fmt.Printf("%s %s seed=%d: %d runs, %d distinct, %.0f s simulated, %.1f s\n", *prop, *tier, *vseed, total.Runs, len(nontriv), float64(total.SimNS)/1e9, wall)
	if total.Differ > 0 {
		fmt.Fprintf(os.Stderr, "warning: %d of %d repeated runs differed\n", total.Differ, total.Twice)
	}
	if rep != nil {
		fmt.Printf("violated: %s\n", rep.Violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, repPath)
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "error:", e)
		}
		return 2
	}
	if total.Runs == 0 || len(nontriv) == 0 {
		fmt.Fprintln(os.Stderr, "error: nothing was explored")
		return 2
	}
	return 0
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 20000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// settleViolation minimises a violation and proves that its replay file
// reproduces it in a fresh process.
func settleViolation(self, dir, tier string, viols []*replay) (*replay, string, error) {
	var lastErr error
	for i, r := range viols {
		if i >= 4 {
			break
		}
		r.Tier = tier
		path := filepath.Join(dir, "replays", fmt.Sprintf("%s-%x.json", r.Property, r.Seed))
		if err := writeJSON(path, r); err != nil {
			return nil, "", err
		}
		fatal := r.Violation.Rule == "fatal"
		if !fatal {
			tmp := path + ".min"
			cmd := exec.Command(self, "minimise", "-in", path, "-out", tmp)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			done := make(chan error, 1)
			if cmd.Start() == nil {
				go func() { done <- cmd.Wait() }()
				select {
				case <-done:
				case <-time.After(120 * time.Second):
					cmd.Process.Kill()
					<-done
				}
			}
			if m, err := readReplay(tmp); err == nil {
				if ok, _ := runReplay(self, tmp, false); ok {
					m.Tier = tier
					if err := writeJSON(path, m); err != nil {
						return nil, "", err
					}
					os.Remove(tmp)
					return m, path, nil
				}
			}
			os.Remove(tmp)
		}
		ok, out := runReplay(self, path, fatal)
		if ok {
			return r, path, nil
		}
		lastErr = fmt.Errorf("run %d reported %q, which a fresh process did not reproduce:\n%s", r.Run, r.Violation.Msg, out)
		os.Remove(path)
	}
	return nil, "", lastErr
}

func runReplay(self, path string, fatal bool) (bool, string) {
	cmd := exec.Command(self, "replay", "-file", path)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	if fatal {
		return strings.Contains(out.String(), "stack exceeds") || strings.Contains(out.String(), "stack overflow"), clip(out.String(), 4000)
	}
	x, ok := err.(*exec.ExitError)
	return ok && x.ExitCode() == 1, clip(out.String(), 4000)
}

func readReplay(path string) (*replay, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := &replay{}
	if err := json.Unmarshal(b, r); err != nil {
		return nil, err
	}
	if r.Scenario == nil {
		return nil, io.ErrUnexpectedEOF
	}
	return r, nil
}

// replayCmd repeats a run from its file: exit 1 if it shows the same violation
// (and, from a minimised file, exactly the same execution).
func replayCmd(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	file := fs.String("file", "", "")
	logs := fs.Bool("log", false, "")
	fs.Parse(args)
	r, err := readReplay(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o := execute(r.Scenario, r.Seed, r.Trace, r.Replayed, *logs)
	if *logs {
		for _, l := range o.Res.Log {
			fmt.Println(l)
		}
		for _, l := range o.Recs {
			fmt.Println(l)
		}
	}
	if o.Error != "" {
		fmt.Fprintln(os.Stderr, "error:", o.Error)
		return 2
	}
	for _, v := range o.Viols {
		if v.Key == r.Violation.Key {
			if r.LogHash != "" && r.LogHash != fmt.Sprintf("%016x", o.Res.LogHash) {
				fmt.Fprintf(os.Stderr, "same violation, but a different execution: %016x instead of %s\n", o.Res.LogHash, r.LogHash)
				return 2
			}
			fmt.Printf("violated: %s\n", v.Msg)
			abs, _ := filepath.Abs(*file)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, abs)
			return 1
		}
	}
	fmt.Println("not reproduced")
	for _, v := range o.Viols {
		fmt.Println("instead:", v.Key, v.Msg)
	}
	return 0
}

var realComponents = []string{
	"serve command line, server (listener, signal handling, serve and reload loops), LDAP protocol handling, both backends, bind middleware, LDIF parsing, templates and indexes, entry store, password hashing, statistics, load/export/newusers commands: the code of /repo's working tree",
	"go.etcd.io/bbolt, go-ldap, asn1-ber, go-ldif, argon2id, go-crypt, logrus, cobra: the pinned modules",
}

var stubComponents = []string{
	"goroutine scheduling, channels, select, sync, atomics, map iteration order, context timers: simulated, decided by the seed",
	"clock and timers: simulated time",
	"TCP sockets and listener: simulated network with delay, fragmentation, flow control, resets, accept errors",
	"files, fsync, mmap, file locks, directory listing, standard streams: simulated disk with crash, power loss and error injection",
	"TLS: a stand-in with a greeting and records instead of the real handshake and ciphers",
	"signals, process exit and crash: simulated processes, each with its own package level state",
	"crypto/rand: seeded stream",
}

var assumptions = []string{
	"bounded runs: a handful of clients, tens of requests and a few hundred directory entries at most per run",
	"the clients of the simulation and the reference model are trusted",
	"power loss keeps synced data and any subset of unsynced 512-byte sectors; synced data is never lost or altered",
	"preemption happens between statements of the repository's own code (also within read-modify-write statements) and at synchronisation and I/O of its dependencies, not between any two machine instructions",
	"cryptography of TLS, the HTTP listeners for metrics and profiling, and log output are not exercised",
}
