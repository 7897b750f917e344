package main

import (
	"verif.local/simrt/sim"
	"verif.local/simrt/xnet"
	"verif.local/simrt/xos"
)

// A Scenario is everything that happens in one simulated run except for the
// choices of the scheduler and of the fault injector, which come from the
// run's seed (or from a recorded trace).

type Attr struct {
	N string   `json:"n"`
	V []string `json:"v,omitempty"`
}

type Mod struct {
	T string   `json:"t"` // add, del, rep, inc
	A string   `json:"a"`
	V []string `json:"v,omitempty"`
}

type Filter struct {
	Op  string    `json:"op"` // eq, pres, sub, and, or, not
	A   string    `json:"a,omitempty"`
	V   string    `json:"v,omitempty"`
	Ini string    `json:"ini,omitempty"`
	Any []string  `json:"any,omitempty"`
	Fin string    `json:"fin,omitempty"`
	F   []*Filter `json:"f,omitempty"`
}

type Op struct {
	K      string    `json:"k"`
	DN     string    `json:"dn,omitempty"`
	PW     string    `json:"pw,omitempty"`
	Attrs  []Attr    `json:"attrs,omitempty"`
	Mods   []Mod     `json:"mods,omitempty"`
	NewRDN string    `json:"newrdn,omitempty"`
	Sup    string    `json:"sup,omitempty"` // new superior
	DelOld bool      `json:"delold,omitempty"`
	Old    string    `json:"old,omitempty"`
	New    string    `json:"new,omitempty"`
	Scope  int       `json:"scope,omitempty"` // 0 base, 1 one, 2 sub
	Filter *Filter   `json:"filter,omitempty"`
	Want   []string  `json:"want,omitempty"`
	Limit  int       `json:"limit,omitempty"`
	Secs   int       `json:"secs,omitempty"` // time limit
	Deref  int       `json:"deref,omitempty"`
	Page   int       `json:"page,omitempty"` // page size of a paged search
	Slot   int       `json:"slot,omitempty"` // which continuation of the client
	Mode   string    `json:"mode,omitempty"` // kind specific
	US     int64     `json:"us,omitempty"`   // microseconds
	N      int       `json:"num,omitempty"`  // kind specific
	Pipe   bool      `json:"pipe,omitempty"` // do not wait for the answer before the next operation
	Pre    int64     `json:"pre,omitempty"`  // think time before, microseconds
	Raw    []byte    `json:"raw,omitempty"`  // bytes
	Cut    int       `json:"cut,omitempty"`  // drop the connection after that many bytes of the request (+1)
	Lenien bool      `json:"len,omitempty"`  // success or failure both acceptable
	Vers   int       `json:"ver,omitempty"`  // bind protocol version, 0 = 3
	Ents   []InitEnt `json:"ents,omitempty"`
	NoIdOp bool      `json:"noid,omitempty"` // password change without user identity
}

type Client struct {
	IP   string `json:"ip"`
	DN   string `json:"dn,omitempty"` // automatic bind after (re)connect
	PW   string `json:"pw,omitempty"`
	Ops  []*Op  `json:"ops"`
	Slow bool   `json:"slow,omitempty"` // slow reader
	Lazy bool   `json:"lazy,omitempty"` // no automatic bind
	TLS  bool   `json:"tls,omitempty"`
	Mute bool   `json:"mute,omitempty"` // no TLS greeting
}

// Event is something the environment does.
type Event struct {
	K    string `json:"k"`              // kill, powerloss, term, hup, accept, reset, source, faults
	US   int64  `json:"us,omitempty"`   // at that time after start-up; or
	Op   int    `json:"op,omitempty"`   // before the n-th disk operation on the database
	N    int    `json:"n,omitempty"`    // kind specific
	Wait int64  `json:"wait,omitempty"` // pause until restart, microseconds
	Src  int    `json:"src,omitempty"`
	// starts before the one that has to succeed
	Trouble *Trouble `json:"trouble,omitempty"`
}

// Trouble describes starts of the server that need not succeed.
type Trouble struct {
	N     int        `json:"n"`               // attempts
	Disk  xos.Faults `json:"disk"`            // during them
	Cut   int64      `json:"cut,omitempty"`   // they are killed after so many microseconds
	CutOp int        `json:"cutop,omitempty"` // they are killed before so many disk operations
	Power bool       `json:"power,omitempty"` // by a power loss
}

// Attempt is one start of the server.
type Attempt struct {
	Wrong string     `json:"wrong,omitempty"` // what makes it impossible to serve
	Bytes []byte     `json:"bytes,omitempty"` // of a file that is not what it should be
	Taken int        `json:"taken,omitempty"` // addresses in use by somebody else, one bit each
	Free  int64      `json:"free,omitempty"`  // until then, microseconds; 0: all the time
	Disk  xos.Faults `json:"disk"`
	Sig   int        `json:"sig,omitempty"`  // 1 SIGTERM, 2 SIGHUP, 3 SIGINT; and
	At    int64      `json:"at,omitempty"`   // when, microseconds
	Kill  bool       `json:"kill,omitempty"` // how it ends
}

type Scenario struct {
	Prop    string     `json:"prop"`
	World   string     `json:"world"` // boltdb, ldif, offline, newusers
	Name    string     `json:"name"`  // profile
	Base    string     `json:"base"`
	Admin   string     `json:"admin,omitempty"`
	Anon    bool       `json:"anon,omitempty"`
	Metrics bool       `json:"metrics,omitempty"`
	Debug   bool       `json:"debug,omitempty"`
	Init    []InitEnt  `json:"init,omitempty"`
	Clients []*Client  `json:"clients,omitempty"`
	Events  []*Event   `json:"events,omitempty"`
	Net     xnet.Cfg   `json:"net"`
	Disk    xos.Faults `json:"disk"`
	Params  sim.Params `json:"params"`
	Audit   bool       `json:"audit,omitempty"`
	Sources []Source   `json:"sources,omitempty"` // LDIF source versions
	Config  bool       `json:"config,omitempty"`  // with configuration file
	IsDir   bool       `json:"isdir,omitempty"`
	Off     *Offline   `json:"off,omitempty"`
	First   *Trouble   `json:"first,omitempty"`
	Starts  []*Attempt `json:"starts,omitempty"`
	Loads   []LoadFile `json:"loads,omitempty"` // inputs of loads next to the server
	Scrapes int        `json:"scrapes,omitempty"`
	NoLin   bool       `json:"nolin,omitempty"`
	Cmd     bool       `json:"cmd,omitempty"`
	CmdEnv  bool       `json:"cmdenv,omitempty"`
	TLS     int        `json:"tls,omitempty"` // 1 with LDAPS listener, 2 without another one
}

type InitEnt struct {
	DN    string `json:"dn"`
	Attrs []Attr `json:"attrs"`
}

type SrcFile struct {
	Name string `json:"name"`
	Data []byte `json:"data"`
}

// Source is one version of the LDIF sources together with what it means.
type Source struct {
	Files []SrcFile `json:"files"`
	Main  []InitEnt `json:"main"`
	Conf  []InitEnt `json:"conf,omitempty"`
	Bad   string    `json:"bad,omitempty"` // why it cannot be loaded
	Half  bool      `json:"half,omitempty"`
	Read  float64   `json:"read,omitempty"` // read error rate while being loaded
}

type Offline struct {
	Input   []byte     `json:"input"`
	Ents    []InitEnt  `json:"ents"`
	Bad     string     `json:"bad,omitempty"`
	BadAt   int        `json:"badat,omitempty"` // number of leading good entries
	Serve   bool       `json:"serve,omitempty"`
	InErr   int        `json:"inerr,omitempty"`
	OutErr  int        `json:"outerr,omitempty"`
	InShort bool       `json:"inshort,omitempty"`
	Users   []User     `json:"users,omitempty"`
	Args    []string   `json:"args,omitempty"`
	KillAt  int        `json:"killat,omitempty"`
	PowerLs bool       `json:"powerloss,omitempty"`
	Outs    []OutFault `json:"outs,omitempty"`
	File    bool       `json:"file,omitempty"`
}

// OutFault is one export over faults.
type OutFault struct {
	At   int        `json:"at"` // writing fails at that byte, if not negative
	Disk xos.Faults `json:"disk"`
}

type User struct {
	Name string `json:"name"`
	PW   string `json:"pw"`
	UID  string `json:"uid,omitempty"`
	GID  string `json:"gid,omitempty"`
	Full string `json:"full,omitempty"` // listed full name
	Mail string `json:"mail,omitempty"` // listed mail address
}

type Violation struct {
	Rule string `json:"rule"` // stable name of the violated rule
	Msg  string `json:"msg"`
	Key  string `json:"key"` // rule plus what identifies a finding
}

// Rec is one recorded request.
type Rec struct {
	ID    int
	Cl    int
	Conn  int
	Msg   int64
	Op    *Op
	DN    string // after substitution
	PW    string
	Who   string // identity key on the connection when processed
	Loop  bool
	Inv   int64
	Ret   int64 // answer received, or latest point at which it may take effect
	Done  bool
	Code  int
	Diag  string
	Ents  []REnt
	Gen   string
	HasGn bool
	Ctl   *node
	Fault bool // a storage fault may have hit this request
	T0    int64
	T1    int64
	Drop  bool // not part of the history
	Term  bool // sent or answered while the server was stopping
	WhoOp *Rec // bind that determines the identity
	canon map[string]string
	raw   bool
	metas int
	over  bool
	Page  *pageState
	Ver0  int
	Ver1  int
}

type REnt struct {
	DN    string
	Attrs []Attr
}
