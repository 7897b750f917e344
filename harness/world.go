package main

import (
	"context"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/alexedwards/argon2id"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/sirupsen/logrus"

	"github.com/libregraph/idm/cmd/idmd/serve"
	"github.com/libregraph/idm/pkg/ldappassword"
	"github.com/libregraph/idm/server"

	"verif.local/simrt/sim"
	"verif.local/simrt/xcontext"
	"verif.local/simrt/xnet"
	"verif.local/simrt/xos"
)

type lostRec struct {
	r   *Rec
	srv int
}

// world is the state of the harness within one run.
type world struct {
	sc    *Scenario
	cfg   modelCfg
	seq   int64
	recs  []*Rec
	viols []Violation
	disk  *xos.FS
	limit time.Duration

	proc          *sim.Proc
	srv           *server.Server
	reg           *registry
	inc           int // incarnation of the server
	incs          int // all processes so far
	standby       *launched
	asides        []*sim.Proc
	loaded        bool
	attempt       *Attempt
	closing       bool // nothing is started next to the server any more
	up            bool
	stopping      bool
	over          bool
	startErr      error
	serveErr      error
	served        bool
	deathSeq      map[int]int64
	losses, ups   []int64 // when power was lost and when servers came up
	open          []lostRec
	expected      bool // the process is expected to end
	crashes       int
	connN         int
	dialed        int
	closed        int
	refused       int
	answered      int
	gen           map[string]string
	counts        map[string]int
	srcVer        int
	dbOps         int
	events        []*Event
	inj           map[*Rec]int
	metas         int  // commits that failed while or after writing their meta page
	rewrites      int  // how many of them were followed by another write
	shaky         int  // 1: such a commit failed and nothing was synced since; 2: and more was written
	overwritten   bool // power was lost then
	watchExtra    bool
	acceptFaulted int
	conns         []*xnet.SimConn
	baseTasks     int
	linNodes      int
	unknown       bool
	states        map[uint64]struct{}
	restarting    bool
	cleanup       []func()
	finalDir      *dir
	pagesAll      []*pageState
	quietTasks    []string
	ldif          *ldifState
	reloading     bool
	srcDone       bool
	stat          statsState
	commands      int    // offline commands judged
	hist          uint64 // what they did
}

func newWorld(sc *Scenario) *world {
	b, _ := parseDN(sc.Base)
	w := &world{sc: sc, limit: 150 * time.Second, deathSeq: map[int]int64{}, gen: map[string]string{}, counts: map[string]int{}, inj: map[*Rec]int{}, states: map[uint64]struct{}{}}
	w.cfg = modelCfg{base: b, baseK: b.key(), anon: sc.Anon, creds: credTable}
	if sc.Admin != "" {
		w.cfg.admin = normKey(sc.Admin)
	}
	w.disk = xos.Disk()
	w.disk.F = sc.Disk
	xnet.Configure(sc.Net)
	return w
}

func (w *world) violate(rule, key, msg string) {
	line, _, _ := strings.Cut(msg, "\n") // stack traces vary
	if w.overwritten && (rule == "crash" || rule == "start" || rule == "history") {
		key = "power-loss-over-failed-commit" // see known_findings.txt
	}
	sim.Logf("VIOLATION %s %s", rule, line)
	if len(w.viols) < 20 {
		w.viols = append(w.viols, Violation{Rule: rule, Msg: msg, Key: rule + ":" + key})
	}
}

func (w *world) count(k string) { w.counts[k]++ }

func (w *world) inject0(r *Rec) { w.inj[r], r.metas = w.disk.Injected, w.metas }
func (w *world) inject1(r *Rec) {
	if w.disk.Injected != w.inj[r] {
		r.Fault = true
		r.over = w.overFailed(r)
	}
	delete(w.inj, r)
}

// overFailed tells whether a commit failed as described in known_findings.txt
// and something else was written, while r has been in progress.
func (w *world) overFailed(r *Rec) bool {
	return w.sc.World == "boltdb" && (r.Op.K == "search" || r.Op.K == "bind") && w.rewrites > r.metas
}

func (w *world) onFault(kind string) {
	if kind != "readerr" && w.disk.LastOff < 2*4096 {
		w.metas++
		if w.sc.World == "boltdb" && w.shaky == 0 {
			w.shaky = 1
		}
	}
}

// onAnyOp follows what is on disk after a commit failed.
func (w *world) onAnyOp(op string) {
	switch {
	case op == "synced":
		w.shaky = 0
	case op == "write" && w.shaky == 1:
		w.shaky = 2
	}
}

func (w *world) deadNow() bool { return w.proc == nil || w.proc.Dead }

// registry is a metrics registerer that only keeps the collectors.
type registry struct{ cs []prometheus.Collector }

func (r *registry) Register(c prometheus.Collector) error   { r.cs = append(r.cs, c); return nil }
func (r *registry) MustRegister(cs ...prometheus.Collector) { r.cs = append(r.cs, cs...) }
func (r *registry) Unregister(prometheus.Collector) bool    { return true }

type nopFormatter struct{}

func (nopFormatter) Format(*logrus.Entry) ([]byte, error) { return nil, nil }

func quietLogger(debug bool) *logrus.Logger {
	l := logrus.New()
	l.Out = io.Discard
	l.Formatter = nopFormatter{}
	l.Level = logrus.ErrorLevel
	if debug {
		l.Level = logrus.DebugLevel
	}
	return l
}

func tinyArgon() {
	ldappassword.Argon2DefaultParams = &argon2id.Params{Memory: 8, Iterations: 1, Parallelism: 1, SaltLength: 8, KeyLength: 16}
}

const dbFile = "/data/idm.db"

func (w *world) config() *server.Config {
	sc := w.sc
	c := &server.Config{
		Logger:                      quietLogger(sc.Debug),
		LDAPHandler:                 "boltdb",
		LDAPListenAddr:              ":389",
		LDAPBaseDN:                  sc.Base,
		LDAPAdminDN:                 sc.Admin,
		LDAPAllowLocalAnonymousBind: sc.Anon,
		BoltDBFile:                  dbFile,
	}
	if sc.TLS > 0 {
		c.LDAPSListenAddr = ":636"
		c.TLSCertFile, c.TLSKeyFile = "/etc/cert.pem", "/etc/key.pem"
		w.disk.Put(c.TLSCertFile, []byte("certificate"))
		w.disk.Put(c.TLSKeyFile, []byte("key"))
		if sc.TLS > 1 {
			c.LDAPListenAddr = ""
		}
	}
	if sc.World == "ldif" {
		c.LDAPHandler = "ldif"
		c.LDIFMain = mainPath(sc)
		if sc.Config {
			c.LDIFConfig = "/data/config.ldif"
		}
		c.LDIFDefaultCompany = "Default"
		c.LDIFDefaultMailDomain = "mail.example"
	}
	if sc.Metrics {
		w.reg = &registry{}
		c.Metrics = w.reg
	}
	return c
}

// serveCommand does as the command line does.
func serveCommand(cfg *server.Config, env, debug bool, level string) {
	args := []string{"--ldap-handler=" + cfg.LDAPHandler, "--log-level=" + level, "--log-timestamp=false"}
	for _, o := range [][3]string{
		{"ldap-listen", "LDAP_LISTEN", cfg.LDAPListenAddr}, {"ldaps-listen", "LDAPS_LISTEN", cfg.LDAPSListenAddr},
		{"tls-cert-file", "TLS_CERT_FILE", cfg.TLSCertFile}, {"tls-key-file", "TLS_KEY_FILE", cfg.TLSKeyFile},
		{"ldap-base-dn", "LDAP_BASEDN", cfg.LDAPBaseDN}, {"ldap-admin-dn", "LDAP_ADMINDN", cfg.LDAPAdminDN},
		{"boltdb-file", "BOLTDB_FILE", cfg.BoltDBFile},
		{"ldif-main", "LDIF_MAIN_PATH", cfg.LDIFMain}, {"ldif-config", "LDIF_CONFIG_PATH", cfg.LDIFConfig},
		{"ldif-template-default-company", "LDIF_TEMPLATE_COMPANY", cfg.LDIFDefaultCompany},
		{"ldif-template-default-mail-domain", "LDIF_TEMPLATE_MAIL_DOMAIN", cfg.LDIFDefaultMailDomain},
	} {
		if env && o[2] != "" {
			xos.Setenv("IDMD_DEFAULT_"+o[1], o[2])
		} else {
			args = append(args, "--"+o[0]+"="+o[2])
		}
	}
	switch {
	case cfg.LDAPAllowLocalAnonymousBind:
		args = append(args, "--ldap-allow-local-anonymous")
	case env:
		args = append(args, "--ldap-allow-local-anonymous=false")
	}
	if debug && level == "error" {
		args = append(args, "--log-level=debug")
	}
	c := serve.CommandServe()
	c.SetArgs(args)
	c.SilenceUsage, c.SilenceErrors = true, true
	if err := c.Execute(); err != nil {
		sim.Logf("serve: %v", err)
		sim.Exit(1)
	}
	sim.Logf("serve ended")
	sim.Exit(0)
}

// start launches the server process and waits until it serves; false if it
// did not come up.
func (w *world) start() bool {
	sim.Sleep(time.Millisecond) // lets dead tasks unwind
	l := w.standby
	w.standby = nil
	if l == nil || l.p.Dead {
		l = w.launch()
	} else {
		sim.Fault("standby.takeover")
	}
	return w.adopt(l)
}

// boot is the beginning of every process.
func boot() {
	sim.ResetGlobals()
	tinyArgon()
}

// launched is a server process; it is the one that clients talk to once it
// has been adopted.
type launched struct {
	p        *sim.Proc
	inc      int
	srv      *server.Server
	startErr error
	serveErr error
	served   bool
}

// launch starts a server process.
func (w *world) launch() *launched {
	w.incs++
	l := &launched{p: sim.NewProc(fmt.Sprintf("srv%d", w.incs)), inc: w.incs}
	p, inc := l.p, l.inc
	cfg := w.config()
	level := "error"
	if w.attempt != nil {
		level = w.spoil(cfg)
	}
	cfg.OnReady = func(s *server.Server) {}
	ctx, cancel := xcontext.WithCancel(context.Background())
	w.cleanup = append(w.cleanup, cancel)
	io := &xos.Stdio{InErrAt: -1, OutErrAt: -1}
	p.Values["stdio"] = io
	sim.GoIn(fmt.Sprintf("main%d", inc), p, func() {
		boot()
		if w.sc.Cmd {
			serveCommand(cfg, w.sc.CmdEnv, w.sc.Debug, level)
		}
		s, err := server.NewServer(cfg)
		if err != nil {
			l.startErr = err
			sim.Logf("start failed: %v", err)
			sim.Exit(1)
		}
		l.srv = s
		l.serveErr = s.Serve(ctx)
		l.served = true
		sim.Logf("serve returned: %v", l.serveErr)
		sim.Exit(0)
	})
	p.OnDeath(func() {
		w.seq++
		w.deathSeq[inc] = w.seq
		up := w.up && w.proc == p
		switch {
		case !w.sc.Cmd || !p.Exited:
		case p.ExitCode == 0 || up:
			l.served = true
			l.serveErr = fmt.Errorf("exit code %d", p.ExitCode)
		default:
			l.startErr = fmt.Errorf("exit code %d: %s", p.ExitCode, io.Err)
		}
		if w.proc == p {
			w.up = false
			w.startErr, w.serveErr, w.served = l.startErr, l.serveErr, l.served
		}
	})
	return l
}

// adopt waits until a server process serves; false if it does not.
func (w *world) adopt(l *launched) bool {
	p, inc := l.p, l.inc
	w.inc, w.proc = inc, p
	w.startErr, w.served, w.serveErr, w.srv = nil, false, nil, nil
	w.stopping, w.expected = false, false
	for i := 0; i < 6000; i++ {
		sim.Sleep(10 * time.Millisecond)
		if p.Dead {
			break
		}
		if w.listening() == len(w.ports()) {
			w.up = true
			w.ups = append(w.ups, w.seq)
			sim.Sleep(time.Millisecond)
			w.baseTasks = len(p.LiveTasks())
			w.conns = nil
			w.srv = l.srv
			sim.Logf("server %d up", inc)
			return true
		}
	}
	return false
}

// ports are those the server has to listen on.
func (w *world) ports() []int {
	switch w.sc.TLS {
	case 1:
		return []int{ldapPort, ldapsPort}
	case 2:
		return []int{ldapsPort}
	}
	return []int{ldapPort}
}

func (w *world) listening() int {
	n := 0
	for _, p := range w.ports() {
		if xnet.Listening(p) {
			n++
		}
	}
	return n
}

// mustStart starts the server and reports a violation if that fails.
func (w *world) mustStart(what string) bool {
	if w.start() {
		return true
	}
	switch {
	case w.proc.Crash != "":
		w.violate("crash", crashKey(w.proc.Crash), what+": server crashed: "+firstLines(w.proc.Crash, 12))
		w.crashes++
	case w.startErr != nil:
		w.violate("start", "", fmt.Sprintf("%s: server did not start: %v", what, w.startErr))
	default:
		w.violate("start", "", what+": server did not start listening within 60 s")
		w.proc.Kill()
	}
	return false
}

func crashKey(c string) string {
	for _, l := range strings.Split(c, "\n") {
		if i := strings.Index(l, "github.com/libregraph/idm/"); i >= 0 && strings.Contains(l, "(") {
			s := l[i+len("github.com/libregraph/idm/"):]
			if j := strings.LastIndexByte(s, '('); j > 0 {
				s = s[:j]
			}
			return s
		}
	}
	return ""
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// outage ends all programs that run next to the server.
func (w *world) outage() {
	for _, q := range w.asides {
		q.Kill()
	}
	if w.standby != nil {
		w.standby.p.Kill()
	}
}

func (w *world) powerLoss() {
	w.seq++
	w.losses = append(w.losses, w.seq)
	if w.shaky == 2 {
		w.overwritten = true
	}
	w.shaky = 0
	w.disk.PowerLoss()
}

// undone tells whether a power loss may have undone a write that has not been
// answered: the write was in progress when its server died, and power was lost
// before the next one was up.
func (w *world) undone(u *Rec) bool {
	if u.Done || u.Drop || !isWrite(u.Op.K) {
		return false
	}
	for _, l := range w.losses {
		if l < u.Ret {
			continue
		}
		for _, s := range w.ups {
			if s >= u.Ret && s < l {
				return false
			}
		}
		return true
	}
	return false
}

// dropEarly leaves out the reads that may have seen such a write before it was
// durable. Nothing is promised about a write that was never answered.
func (w *world) dropEarly() int {
	n := 0
	for _, u := range w.recs {
		if !w.undone(u) {
			continue
		}
		for _, x := range w.recs {
			if x.Done && !x.Drop && (x.Op.K == "search" || x.Op.K == "bind") && x.Ret > u.Inv && x.Inv < u.Ret {
				x.Drop = true
				n++
			}
		}
	}
	return n
}

// tryStart starts the server under conditions in which it need not come up.
// Whatever happens, nothing stored may be lost.
func (w *world) tryStart(t *Trouble) bool {
	if t == nil {
		return false
	}
	for i := 0; i < t.N; i++ {
		sim.Fault("start.trouble")
		inj, faults, on, note := w.disk.Injected, w.disk.F, w.disk.On, w.disk.OnFault
		w.disk.F, w.disk.On, w.disk.OnFault = t.Disk, true, nil
		over, cut := false, false
		if t.Cut > 0 {
			sim.GoIn("cut", nil, func() {
				sim.Sleep(time.Millisecond + time.Duration(t.Cut)*time.Microsecond)
				if over || w.up || w.deadNow() {
					return
				}
				sim.Fault("crash.start")
				cut = true
				if t.Power {
					w.outage()
					w.proc.Kill()
					w.powerLoss()
					return
				}
				w.proc.Kill()
			})
		}
		onOp, ops, gone := w.disk.OnOp, 0, true
		w.disk.OnOp = func(op, path string) {
			w.onAnyOp(op)
			// from then on it is not the start any more that fails
			if w.listening() > 0 {
				w.disk.On = false
			}
		}
		if t.CutOp > 0 {
			off := w.disk.OnOp
			w.disk.OnOp = func(op, path string) {
				off(op, path)
				if w.up || cut || w.proc == nil || sim.CurProc() != w.proc {
					return
				}
				if ops++; ops != t.CutOp {
					return
				}
				sim.Fault("crash.start")
				sim.Probe("start-cut-before-" + op)
				cut, gone = true, false
				if t.Power {
					w.outage()
				}
				sim.GoIn("cut", nil, func() {
					if t.Power {
						w.outage()
						w.powerLoss()
					}
					gone = true
				})
				w.proc.Kill()
			}
		}
		ok := w.start()
		over = true
		w.disk.OnOp = onOp
		for !gone {
			sim.Sleep(time.Millisecond)
		}
		bad := w.disk.Injected != inj
		w.disk.Injected, w.disk.F, w.disk.On, w.disk.OnFault = inj, faults, on, note
		switch {
		case ok:
			return true
		case w.proc.Crash != "":
			w.violate("crash", crashKey(w.proc.Crash), "start with a failing disk: server crashed: "+firstLines(w.proc.Crash, 12))
			return false
		case cut:
		case w.startErr == nil:
			w.violate("start", "", "server neither started listening nor failed within 60 s")
			w.proc.Kill()
			return false
		case !bad:
			w.violate("start", "", fmt.Sprintf("server did not start: %v", w.startErr))
			return false
		}
	}
	return false
}

// crash kills the server now; a new one is started after ev.Wait.
func (w *world) crash(ev *Event) {
	if w.restarting || w.deadNow() || !w.up || w.over {
		return
	}
	w.restarting = true
	w.up = false
	sim.Fault("crash." + ev.K)
	p := w.proc
	if ev.K == "powerloss" {
		w.outage()
	}
	sim.GoIn("restart", nil, func() {
		if ev.K == "powerloss" {
			w.outage() // also what was started in the last moment
			w.powerLoss()
		}
		sim.Sleep(time.Duration(ev.Wait)*time.Microsecond + time.Millisecond)
		on := w.disk.On
		w.disk.On = false
		if !w.tryStart(ev.Trouble) && len(w.viols) == 0 {
			w.mustStart("restart after " + ev.K)
		}
		w.disk.On = on
		w.restarting = false
	})
	p.Kill()
}

// onDiskOp counts operations on the database and crashes at the scheduled ones.
func (w *world) onDiskOp(op, path string) {
	w.onAnyOp(op)
	if !w.up || sim.CurProc() != w.proc {
		return
	}
	w.dbOps++
	if op == "write" {
		w.rewrites = w.metas
	}
	for i, ev := range w.events {
		if ev.Op > 0 && ev.Op == w.dbOps {
			w.events = append(w.events[:i:i], w.events[i+1:]...)
			sim.Probe("crash-before-" + op)
			w.crash(ev)
			return
		}
	}
}

// checkAlive reports an unexpected end of the server.
func (w *world) checkAlive() {
	if w.proc != nil && w.proc.Crash != "" {
		for _, v := range w.viols {
			if v.Rule == "crash" {
				return
			}
		}
		key := crashKey(w.proc.Crash)
		for r := range w.inj {
			if w.overFailed(r) {
				key = "read-over-failed-commit"
			}
		}
		w.violate("crash", key, "server process crashed: "+firstLines(w.proc.Crash, 14))
		return
	}
	if w.served && !w.stopping {
		w.violate("crash", "serve", fmt.Sprintf("serve ended without being asked to: %v", w.serveErr))
	}
}

// settle waits until a condition holds, at most d of simulated time.
func settle(d time.Duration, cond func() bool) bool {
	for end := sim.Elapsed() + d; ; {
		if cond() {
			return true
		}
		if sim.Elapsed() > end {
			return false
		}
		sim.Sleep(10 * time.Millisecond)
	}
}

func (w *world) auditor() *Client {
	return &Client{IP: "127.0.0.1", DN: "uid=auditor,ou=sys," + w.sc.Base, PW: auditPW}
}

const adminPW = "admin-secret"

// runClients runs all clients of the scenario to their end.
func (w *world) runClients() {
	var ts []*sim.Task
	w.stat.running = len(w.sc.Clients)
	if w.sc.Scrapes > 0 {
		sim.GoIn("scraper", nil, func() { w.scraper(w.sc.Scrapes) })
	}
	for i, cs := range w.sc.Clients {
		c := &client{w: w, n: i, spec: cs, pages: map[int]*pageState{}}
		ts = append(ts, sim.GoIn(fmt.Sprintf("client%d", i), nil, c.run))
	}
	for _, t := range ts {
		if !sim.Join(t, 3*time.Hour) {
			sim.Abort("stop", "client did not finish")
		}
	}
}

// finish resolves the requests that stayed unanswered.
func (w *world) finish() {
	for _, l := range w.open {
		if d, ok := w.deathSeq[l.srv]; ok && !l.r.Done {
			l.r.Ret = d
		}
	}
	for _, r := range w.recs {
		if !r.Done && r.Ret < r.Inv {
			r.Drop = true // sent to a dead server
		}
		if !r.Done && w.disk.Injected != 0 {
			r.Fault = true
		}
	}
}

// terminate asks the server to stop; it has to do so in time.
func (w *world) terminate(ev *Event) {
	if w.restarting || w.deadNow() || !w.up || w.over {
		return
	}
	w.restarting = true
	w.stopping = true
	p := w.proc
	sim.Fault("sigterm")
	for i := 0; i < ev.N; i++ {
		deliver(p, hup)
	}
	sig := term
	if ev.Src == 1 {
		sig = intr
	}
	if !deliver(p, sig) {
		// nobody handles it yet: the default action ends the process
		p.Kill()
		w.served = true
	}
	if !p.WaitDeath(stopBound) {
		w.violate("stop", "", fmt.Sprintf("server still running %v after the termination signal; tasks: %v", stopBound, p.LiveTasks()))
		p.Kill()
	}
	w.up = false
	if p.Crash != "" {
		w.violate("crash", crashKey(p.Crash), "server crashed while stopping: "+firstLines(p.Crash, 12))
	} else if !w.served && len(w.viols) == 0 {
		w.violate("stop", "exit", "server process ended without the serve call returning")
	}
	if len(w.viols) > 0 {
		w.restarting = false
		return
	}
	if w.listening() > 0 {
		w.violate("stop", "listen", "still accepting connections after the stop")
	}
	sim.Sleep(time.Duration(ev.Wait)*time.Microsecond + time.Millisecond)
	on := w.disk.On
	w.disk.On = false
	if w.ldif != nil {
		if !w.startLDIF("start after termination") {
			w.startSound()
		}
	} else if !w.tryStart(ev.Trouble) && len(w.viols) == 0 {
		w.mustStart("start after termination")
	}
	w.disk.On = on
	w.restarting = false
}

const stopBound = 120 * time.Second

// checkReleased waits for the server to let go of everything it held for
// clients that are gone.
func (w *world) checkReleased() {
	if w.proc == nil || w.proc.Dead {
		return
	}
	open := func() int {
		n := 0
		for _, c := range w.conns {
			if !c.Peer().Closed() {
				n++
			}
		}
		return n
	}
	tasks := func() int { return len(w.proc.LiveTasks()) - w.baseTasks }
	if !settle(releaseBound, func() bool { return open() == 0 && tasks() <= 2 }) {
		w.violate("release", "", fmt.Sprintf("%v after the last client left, the server keeps %d connections and %d tasks: %v", releaseBound, open(), tasks(), w.proc.LiveTasks()))
	}
}

const releaseBound = 300 * time.Second

func (w *world) timers(evs []*Event, fn func(ev *Event)) {
	for _, ev := range evs {
		if ev.Op > 0 {
			continue
		}
		ev := ev
		sim.GoIn("event-"+ev.K, nil, func() {
			sim.Sleep(time.Duration(ev.US) * time.Microsecond)
			if !w.over {
				fn(ev)
			}
		})
	}
}

// linCheck compares the history with the model.
func (w *world) linCheck(init *dir) {
	w.finish()
	r := w.cfg.linearize(init, w.recs, 200000)
	w.linNodes += r.nodes
	if !r.ok && !r.unknown && w.dropEarly() > 0 {
		sim.Probe("lin-early-read")
		r = w.cfg.linearize(init, w.recs, 200000)
		w.linNodes += r.nodes
	}
	if r.unknown {
		w.unknown = true
		sim.Probe("lin-unknown")
		return
	}
	if !r.ok {
		// told apart: only answers of reads during which a commit failed are
		// wrong (a finding of its own, see known_findings.txt)
		n := 0
		for _, x := range w.recs {
			if x.Done && x.over {
				x.Drop = true
				n++
			}
		}
		key := ""
		if n > 0 && w.cfg.linearize(init, w.recs, 200000).ok {
			key = "read-over-failed-commit"
		}
		w.violate("history", key, "history is not explained by a sequential directory: "+r.msg)
		return
	}
	w.finalDir = r.final
}

func runBolt(w *world) {
	sc := w.sc
	w.disk.Match = func(p string) bool { return strings.HasPrefix(p, dbFile) }
	if len(sc.Init) > 0 {
		w.disk.Put(dbFile, dbImage(sc))
	}
	if !w.tryStart(sc.First) && (len(w.viols) > 0 || !w.mustStart("first start")) {
		return
	}
	w.disk.OnOp = w.onDiskOp
	w.disk.OnFault = w.onFault
	w.disk.On = true
	for _, ev := range sc.Events {
		if ev.Op > 0 {
			w.events = append(w.events, ev)
		}
	}
	w.timers(sc.Events, func(ev *Event) {
		switch ev.K {
		case "kill", "powerloss":
			w.crash(ev)
		case "accept":
			if ev.Wait > 0 {
				for _, p := range w.ports() {
					if xnet.AcceptDown(p, time.Duration(ev.Wait)*time.Microsecond) {
						w.acceptFaulted++
					}
				}
			} else if l := w.ports(); xnet.InjectAcceptErrors(l[ev.N%len(l)], 1+ev.N%3, ev.N%2 == 0) {
				w.acceptFaulted++
			}
		case "hup":
			if w.up && !w.deadNow() {
				deliver(w.proc, hup)
			}
		case "term":
			w.terminate(ev)
		case "load", "export":
			if !w.closing {
				w.aside(ev)
			}
		case "standby":
			if !w.closing && !w.restarting && (w.standby == nil || w.standby.p.Dead) {
				sim.Fault("standby.start")
				w.standby = w.launch()
			}
		case "clock":
			sim.Fault("clock.jump")
			sim.AdvanceClock(time.Duration(ev.N) * time.Second)
		}
	})
	w.runClients()
	// faults stop
	w.disk.On = false
	w.events = nil
	if !settle(400*time.Second, func() bool { return !w.restarting }) {
		return
	}
	w.checkAlive()
	if w.deadNow() || len(w.viols) > 0 {
		w.over = true
		w.finish()
		if len(w.viols) == 0 {
			return
		}
		return
	}
	if len(sc.Loads) > 0 && !w.alone() {
		return
	}
	w.finalAudit()
	for _, ev := range sc.Events {
		if ev.K == "final" {
			// one more crash after everything has been answered
			e := &Event{K: "kill", Wait: 1000}
			if ev.N > 0 {
				e.K = "powerloss"
			}
			w.crash(e)
			if !settle(400*time.Second, func() bool { return !w.restarting }) || len(w.viols) > 0 {
				return
			}
			w.finalAudit()
		}
	}
	w.checkAlive()
	w.checkReleased()
	w.over = true
	if !sc.NoLin {
		w.linCheck(newDir(sc.Init))
	}
}

// finalAudit records the directory as it is now.
func (w *world) finalAudit() {
	c := &client{w: w, n: 100 + w.inc, spec: w.auditor(), pages: map[int]*pageState{}}
	c.audit()
	c.hangup()
}
