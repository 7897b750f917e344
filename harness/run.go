package main

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"syscall"

	"github.com/go-ldap/ldap/v3"
	"github.com/libregraph/idm/pkg/ldbbolt"

	"verif.local/simrt/sim"
	"verif.local/simrt/xos"
	"verif.local/simrt/xsignal"
)

var hup, term, intr os.Signal = syscall.SIGHUP, syscall.SIGTERM, syscall.SIGINT

func deliver(p *sim.Proc, s os.Signal) bool { return xsignal.Deliver(p, s) }

// simRand makes the randomness of the system under test part of the seed.
type simRand struct{}

func (simRand) Read(b []byte) (int, error) {
	if sim.Active() && !sim.Dying() {
		sim.GetStream("rand").Bytes(b)
	} else {
		for i := range b {
			b[i] = byte(i)
		}
	}
	return len(b), nil
}

func setupProcess() {
	rand.Reader = simRand{}
	log.SetOutput(io.Discard)
}

// Outcome of one simulated run.
type Outcome struct {
	Sc    *Scenario
	Seed  uint64
	Viols []Violation
	Res   *sim.Result
	Error string // trouble of the harness itself
	Stats map[string]int
	Hist  uint64
	Unk   bool
	Recs  []string // the requests and their answers
}

var images = map[string][]byte{}

func imageKey(sc *Scenario) string {
	b, _ := json.Marshal(sc.Init)
	return sc.Base + string(b)
}

func dbImage(sc *Scenario) []byte { return images[imageKey(sc)] }

// buildImage creates a database with the initial directory, in a simulation
// of its own.
func buildImage(sc *Scenario) error {
	k := imageKey(sc)
	if _, ok := images[k]; ok {
		return nil
	}
	if len(images) > 200 {
		images = map[string][]byte{}
	}
	var out []byte
	var ferr error
	res := sim.Run(sim.Config{Seed: 1, Params: sim.Params{Strategy: 1, MaxSteps: 50_000_000}}, func() {
		sim.ResetGlobals()
		p := sim.NewProc("init")
		sim.GoIn("init", p, func() {
			bdb := &ldbbolt.LdbBolt{}
			if ferr = bdb.Configure(quietLogger(false), sc.Base, dbFile, nil); ferr != nil {
				return
			}
			if ferr = bdb.Initialize(); ferr != nil {
				return
			}
			for _, e := range sc.Init {
				m := map[string][]string{}
				for _, a := range e.Attrs {
					m[a.N] = a.V
				}
				if ferr = bdb.EntryPut(ldap.NewEntry(e.DN, m)); ferr != nil {
					ferr = fmt.Errorf("%s: %w", e.DN, ferr)
					return
				}
			}
			bdb.Close()
			d, _ := xos.Disk().Get(dbFile)
			out = append([]byte(nil), d...)
			sim.Exit(0)
		})
		p.WaitDeath(1 << 50)
		if p.Crash != "" {
			ferr = fmt.Errorf("%s", p.Crash)
		}
	})
	if ferr != nil {
		return ferr
	}
	if res.Abort != "end" || out == nil {
		return fmt.Errorf("%s %s", res.Abort, res.AbortMsg)
	}
	images[k] = out
	return nil
}

// execute performs one run.
func execute(sc *Scenario, seed uint64, replay []sim.Choice, replayed, keepLog bool) *Outcome {
	o := &Outcome{Sc: sc, Seed: seed, Stats: map[string]int{}}
	if sc.World == "boltdb" && len(sc.Init) > 0 {
		if err := buildImage(sc); err != nil {
			o.Viols = append(o.Viols, Violation{Rule: "init", Key: "init:", Msg: "the initial directory could not be created: " + firstLines(err.Error(), 14)})
			o.Res = &sim.Result{Abort: "end"}
			return o
		}
	}
	var w *world
	o.Res = sim.Run(sim.Config{Seed: seed, Params: sc.Params, Replay: replay, Replayd: replayed, KeepLog: keepLog}, func() {
		w = newWorld(sc)
		switch sc.World {
		case "boltdb", "ldif":
			if len(sc.Starts) > 0 {
				runStarts(w)
				break
			}
			if sc.World == "ldif" {
				runLDIF(w)
				break
			}
			runBolt(w)
		case "offline":
			runOffline(w)
		case "newusers":
			runNewusers(w)
		default:
			panic("world " + sc.World)
		}
		w.over = true
	})
	o.Viols = w.viols
	switch o.Res.Abort {
	case "end":
	case "steps":
		o.Viols = append(o.Viols, Violation{Rule: "livelock", Key: "livelock:", Msg: "run did not end within the step bound: " + firstLines(o.Res.AbortMsg, 20)})
	case "deadlock":
		o.Viols = append(o.Viols, Violation{Rule: "deadlock", Key: "deadlock:", Msg: firstLines(o.Res.AbortMsg, 20)})
	case "stop":
		if len(o.Viols) == 0 {
			o.Viols = append(o.Viols, Violation{Rule: "hang", Key: "hang:stop", Msg: o.Res.AbortMsg})
		}
	default:
		o.Error = o.Res.Abort + ": " + o.Res.AbortMsg
	}
	o.Unk = w.unknown
	if keepLog {
		for _, r := range w.recs {
			o.Recs = append(o.Recs, r.String())
			for _, e := range r.Ents {
				o.Recs = append(o.Recs, "    "+e.DN+" "+canonAttrs(e.Attrs, nil))
			}
		}
	}
	o.Stats["requests"] = len(w.recs)
	o.Stats["answered"] = w.answered
	o.Stats["servers"] = w.inc
	o.Stats["connections"] = w.dialed
	o.Stats["disk_ops"] = w.disk.Ops
	o.Stats["lin_nodes"] = w.linNodes
	for k, v := range w.counts {
		o.Stats["req_"+k] += v
	}
	o.Stats["offline"] = w.commands
	o.Hist = w.hist
	over := 0
	for i, r := range w.recs {
		if r.Done {
			o.Hist = sim.Mix(o.Hist, uint64(r.ID)<<32|uint64(r.Code)<<8|uint64(len(r.Ents)))
			if r.Code == 0 && isWrite(r.Op.K) {
				o.Stats["writes_ok"]++
			}
		}
		if i > 0 && w.recs[i-1].Ret > r.Inv {
			over++
		}
		o.Hist = sim.Mix(o.Hist, uint64(r.Inv))
	}
	o.Stats["overlapping"] = over
	return o
}
