package world

import (
	"context"
	"fmt"
	"time"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"

	"xtormsim/simrt"
)

// Cfg is what one run varies besides its schedule.
type Cfg struct {
	Transport string // tcp, unix, tls
	Mech      string // mysql41, sha256, plain
	Network   string // as given to the connector
	Addr      string
	User, DB  string
	Pass      string // the account's
	CPass     string // the client's
	Sha2      bool   // account the server has to cache first
	Size      int
	Clients   int

	FaultGap  int // mean distance of faults in steps, 0: none
	Kinds     []int
	MsgErr    int // per 1000 messages
	MsgFatal  int
	MsgKill   int
	MsgCrash  int
	MsgEnd    int
	Hold      int // per 1000 messages
	CommitErr int
	Hostile   int
	AuthFault int // per 1000 sessions
	TLSFault  int
	DialFault int
	Extra     int
	ReadSplit int
	Chunk     int // per 1000 deliveries
	Pre       [3]int
	TimeW     int
	Cap       int
	WFault    int
	CloseErr  int
	DlErr     int
	TLSVar    int // of the client's TLS configuration
	Calls     int // calls per client at most, negative: exactly
	CloseOps  bool
	NoHeal    bool // long stall check before the network heals
}

type Op struct {
	ID, Client int
	Kind       string // send, csend, open, cclose, pclose, pause
	U          *UoW   // what this op adds to the builder
	Keep       bool   // no Reset before building
	Fresh      bool   // a new builder
	Msgs       []Msg
	Txs        []TxInfo
	Bad        bool
	First      error
	HasDl      bool
	Dl         time.Duration
	Cancel     int // 1: cancelled before, 2: may be cancelled during
	Pause      time.Duration
	Epilogue   bool
	direct     bool

	// execution
	ctx       context.Context
	cancel    func()
	Deadline  time.Time
	Cancelled bool
	Started   bool
	Returned  bool
	StartSeq  int
	EndSeq    int
	SendSeq   int // builder done, call into the sender
	StartAt   time.Time
	EndAt     time.Time
	Err       error
	Resp      []netx.Response
	kept      []string // the responses as they were on return
	Panic     any
	Twice     bool // closes the connection twice
	UserPan   bool // a callback of the workload panicked while it was built
	Stack     string
	BuildPan  any
	DialFault bool
	Dialed    int
	First1    int // sequence number of its first network activity
	Wires     []int
	Conn      netx.Conn
	Skipped   bool
	closesRan int // pool closes that had returned nil when it started
	phase2    bool
}

func (o *Op) String() string { return fmt.Sprintf("op %d (client %d %s)", o.ID, o.Client, o.Kind) }

type clientPlan struct {
	ID     int
	Direct bool
	Ops    []*Op
	x      *xtorm.XPipe
	conn   netx.Conn
	task   *simrt.Task
	Pre    int
}

type Plan struct {
	C       Cfg
	Clients []*clientPlan
	Epi     *clientPlan
	Huge    bool // has a value of 16 MB
	Ops     []*Op
}

// Props lists every property the world decides.
var Props = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C21", "C22"}

func (c *Cfg) kinds(k ...int) {
	c.Kinds = make([]int, nFaults)
	for i := 0; i < len(k); i += 2 {
		c.Kinds[k[i]] = k[i+1]
	}
}

// fault kinds of the scheduler
const (
	fReset = iota
	fKill
	fCrash
	fStall
	fUnstall
	fCorrupt
	fCancel
	fPartition
	fEndIdle
	nFaults
)

// variants of the client's TLS configuration
const (
	vNoName     = 1 + iota // no server name: crypto/tls needs one
	vRefuses               // a callback that refuses every connection
	vRefusesRaw            // the same with the other callback
	vTooOld                // needs TLS 1.3, the server has less
	vPinned                // verifies the certificate itself
	vClientCert            // the server wants a certificate of the client
)

// profile shapes the configuration for the property under check; a part of all runs is unshaped.
func mkCfg(s *simrt.Stream, prop string) (c Cfg, g genCfg) {
	c.Transport = []string{"tcp", "unix", "tls"}[s.Weighted(7, 2, 2)]
	c.Mech = []string{"mysql41", "sha256", "plain"}[s.Weighted(6, 3, 1)]
	c.Size = s.Weighted(0, 4, 4, 2, 1)
	if s.N(20) == 19 {
		c.Size = 0
	}
	c.Clients = 1 + s.Weighted(2, 4, 4, 2, 1)
	swarm := s.N(100)
	full := prop
	if prop != "" && s.N(5) == 4 {
		prop = ""
	}
	if c.Transport != "tcp" && prop != "C11" && prop != "C16" && prop != "C09" && prop != "C10" && prop != "" && s.N(2) == 0 {
		c.Transport = "tcp" // cheaper runs for what does not depend on it
	}
	pick := func(p int, vals ...int) int {
		if s.N(100) >= p {
			return 0
		}
		return vals[s.N(len(vals))]
	}
	if swarm < 75 {
		c.FaultGap = []int{20, 60, 200}[s.N(3)]
	}
	c.Kinds = make([]int, nFaults)
	for i := range c.Kinds {
		if s.N(2) == 1 {
			c.Kinds[i] = 1 + s.N(4)
		}
	}
	if s.N(3) != 2 {
		c.Kinds[fCorrupt] = 0
	}
	c.MsgErr = pick(50, 10, 50, 150)
	c.CommitErr = pick(25, 200)
	c.MsgFatal = pick(20, 10, 40)
	c.MsgKill = pick(20, 10, 40)
	c.MsgCrash = pick(15, 10, 30)
	c.MsgEnd = pick(15, 20)
	c.Hold = pick(25, 300, 1000)
	c.Hostile = pick(12, 20, 80)
	c.AuthFault = pick(20, 100, 400)
	c.TLSFault = pick(20, 100, 400)
	c.DialFault = pick(20, 100, 300)
	c.Extra = pick(60, 100, 400)
	c.ReadSplit = pick(50, 100, 500, 1000)
	c.Chunk = pick(60, 100, 500, 900)
	c.WFault = pick(20, 20, 100)
	c.CloseErr = pick(10, 200)
	c.TimeW = pick(60, 1, 4, 20)
	c.DlErr = pick(10, 50, 300)
	c.Cap = pick(20, 64, 700, 5000)
	switch s.N(4) {
	case 0:
		c.Pre = [3]int{1, 0, 0}
	case 1:
		c.Pre = [3]int{10, 1, 1}
	case 2:
		c.Pre = [3]int{2, 1, 1}
	case 3:
		c.Pre = [3]int{1, 4, 0}
	}
	c.CloseOps = s.N(4) == 3
	c.NoHeal = s.N(3) == 2
	c.Sha2 = s.N(3) == 2
	wrong := s.N(12) == 11
	// what is built
	g = genCfg{items: 1 + s.N(4), depth: s.N(3), bad: pick(15, 30, 100), big: 20, guarded: s.N(3) == 2, mis: pick(12, 50, 200)}
	switch prop {
	case "C01":
		g.guarded, g.bad = true, 0
		c.MsgErr = pick(80, 30, 100, 200)
		c.CommitErr = pick(50, 200, 500)
		c.MsgCrash = pick(40, 20, 60)
		c.MsgKill = pick(40, 20, 60)
		c.Hostile, wrong, c.TLSFault, c.AuthFault = 0, false, 0, 0
		if c.Size == 0 || s.N(2) == 1 {
			c.Size = 1
		}
	case "C02":
		g.items, g.depth = 1+s.N(5), s.N(4)
		g.big = 300
		g.many = pick(20, 15, 60)
		g.bad = pick(10, 30)
		wrong, c.AuthFault, c.TLSFault = false, 0, 0
	case "C03":
		g.many = pick(10, 30)
		c.Extra = pick(90, 200, 600, 1000)
		c.MsgErr = pick(70, 50, 150, 400)
		c.ReadSplit = pick(80, 100, 500, 1000)
		wrong, c.AuthFault, c.TLSFault, g.bad = false, 0, 0, 0
	case "C04":
		g.bad = []int{30, 80, 200}[s.N(3)]
		g.depth = s.N(4)
		wrong, c.AuthFault, c.TLSFault = false, 0, 0
		if s.N(2) == 0 {
			c.FaultGap = 0
		}
	case "C20":
		g.mis = []int{100, 300, 600}[s.N(3)]
		g.depth = 1 + s.N(3)
		g.items = 1 + s.N(3)
		g.bad = pick(20, 30)
		wrong, c.AuthFault, c.TLSFault, c.Hostile = false, 0, 0, 0
		c.kinds(fReset, 1, fKill, 1)
		if s.N(2) == 0 {
			c.FaultGap = 0
		}
	case "C05", "C06", "C15":
		c.Clients = 2 + s.N(4)
		g.items, g.depth, g.big = 1, 0, 0
		c.Pre = [3]int{2, 2, 1}
		if prop == "C15" {
			c.Hostile, c.AuthFault, c.TLSFault, wrong, g.bad = 0, 0, 0, false, 0
			if s.N(2) == 0 {
				c.FaultGap = 0
			}
			if s.N(2) == 0 {
				c.Clients = 1 + s.N(3)
			}
			c.MsgErr = pick(20, 50)
			c.CloseOps = s.N(8) == 7
			if s.N(2) == 0 { // contexts that end around the return
				c.FaultGap = []int{15, 40}[s.N(2)]
				c.kinds(fCancel, 4, fStall, 1, fUnstall, 1, fEndIdle, 1)
				c.TimeW = []int{1, 4, 20}[s.N(3)]
			}
		}
		if prop == "C06" {
			c.CloseErr = pick(30, 300)
			c.CloseOps = s.N(3) == 2
		}
	case "C21":
		c.Clients = 1 + s.N(3)
		c.Calls = []int{0, 0, -8, -20}[s.N(4)]
		c.CloseOps = s.N(3) == 2
		g.items, g.depth = 1+s.N(2), s.N(2)
		g.bad = pick(20, 30)
		if s.N(2) == 0 {
			c.kinds(fCancel, 4, fStall, 2, fUnstall, 1, fReset, 1, fEndIdle, 1)
		}
	case "C22":
		c.Clients = 2 + s.N(4)
		c.CloseOps = s.N(2) == 1
		c.Mech = []string{"mysql41", "sha256", "plain"}[s.Weighted(2, 2, 1)]
		g.items, g.depth, g.big = 1+s.N(2), s.N(2), 5
		g.bad = pick(20, 30)
		c.Hostile = pick(5, 20)
		if s.N(2) == 0 {
			c.FaultGap = 0
		}
	case "C07":
		c.CloseOps = true
		c.Clients = 2 + s.N(3)
		g.items, g.depth, g.big = 1, 0, 0
		c.Pre = [3]int{1, 2, 1}
		if s.N(2) == 0 {
			c.FaultGap = 0
		}
	case "C08":
		c.TimeW = []int{2, 6, 20}[s.N(3)]
		c.FaultGap = []int{15, 40}[s.N(2)]
		c.kinds(fStall, 5, fUnstall, 1, fPartition, 1, fCancel, 2, fReset, 1)
		c.Cap = pick(60, 16, 64, 700)
		c.AuthFault = pick(40, 200)
		c.DlErr = pick(30, 50, 300)
		c.Hostile, c.CloseOps = 0, false
		if s.N(8) == 7 { // full sockets while TLS connections are closed
			c.Transport, c.Cap = "tls", []int{64, 300, 700}[s.N(3)]
			c.FaultGap, c.AuthFault = 15+s.N(30), 0
			c.kinds(fStall, 5)
			c.TimeW = []int{1, 2, 6}[s.N(3)]
			c.Clients = 2 + s.N(3)
			g.big = 300
		}
	case "C09":
		c.AuthFault = []int{200, 600, 1000}[s.N(3)]
		c.TLSFault = []int{0, 300, 800}[s.N(3)]
		c.FaultGap = []int{0, 10, 25}[s.N(3)]
		c.DialFault = pick(50, 100, 300)
		wrong = s.N(3) == 2
		g.items, g.depth = 1, 0
		c.Size = s.N(2)
	case "C10":
		c.Transport = []string{"tcp", "tls", "unix"}[s.Weighted(5, 3, 1)]
		c.Mech = []string{"mysql41", "sha256"}[s.N(2)]
		c.AuthFault = []int{300, 700, 1000}[s.N(3)]
		c.TLSFault = []int{300, 700}[s.N(2)]
		wrong = s.N(3) == 2
		g.items, g.depth = 1, 0
		c.Size = s.N(2)
	case "C11":
		c.Transport = "tls"
		c.TLSFault = []int{300, 600, 1000}[s.N(3)]
		c.FaultGap = []int{0, 10, 40}[s.N(3)]
		g.items, g.depth = 1, 0
		c.Size = s.N(3)
	case "C12":
		c.Hostile = []int{50, 200, 500}[s.N(3)]
		c.FaultGap = []int{10, 30, 0}[s.N(3)]
		c.kinds(fCorrupt, 6, fReset, 1, fKill, 1)
		c.AuthFault = pick(40, 200, 600)
		c.Extra = pick(60, 200, 600)
		g.bad = 0
	case "C13":
		c.FaultGap = []int{10, 30, 60}[s.N(3)]
		c.NoHeal = s.N(2) == 1
		g.bad = 0
		c.CloseOps = s.N(4) == 3
		wrong = false
	case "C14":
		c.FaultGap = []int{10, 30, 60}[s.N(3)]
		c.MsgErr = pick(60, 50, 200)
		c.MsgFatal = pick(40, 50)
		c.Clients = 1 + s.N(3)
		c.Size = 1 + s.N(2)
		g.bad, wrong = 0, false
		c.AuthFault, c.TLSFault = 0, 0
	case "C16":
		c.AuthFault, c.TLSFault, c.Hostile = 0, 0, 0
		c.Transport = []string{"tcp", "unix", "tls"}[s.N(3)]
		c.Mech = []string{"mysql41", "sha256", "plain"}[s.N(3)]
		c.FaultGap = pick(30, 60)
		c.Size = s.N(2)
		c.Clients = 1 + s.N(4)
		c.Pre = [3]int{2, 2, 1}
		wrong = false
		g.items, g.depth = 1, 0
	case "C17":
		g.depth = 2
		g.bad, c.Hostile, c.AuthFault, c.TLSFault, wrong = 0, 0, 0, 0, false
		c.MsgErr = pick(70, 50, 150, 300)
		c.CommitErr = pick(50, 200, 500)
		c.Size = 1 + s.N(2)
	}
	if full == "C22" {
		g.mis = 0 // the race detector's stacks do not survive a recovered panic
	}
	switch s.Weighted(2000, 40, 3) {
	case 1: // a crowd: many clients, few calls each
		c.Clients = 6 + s.N(11)
		c.Size = 1 + s.N(20)
		c.Calls = 2
		g.items, g.depth, g.many, g.big = 1, 0, 0, 0
	case 2: // a marathon: few clients, hundreds of calls
		c.Clients = 1 + s.N(2)
		c.Size = s.N(4)
		c.Calls = -(80 + s.N(420))
		if c.FaultGap > 0 {
			c.FaultGap *= []int{1, 10, 100}[s.N(3)]
		}
		g.items, g.depth, g.many, g.big = 1, 0, 0, 0
	}
	if c.Mech == "plain" && c.Transport == "tcp" && !(prop == "" && s.N(3) == 2) {
		c.Mech = "mysql41" // refused by every server
	}
	if c.Transport == "tcp" && prop != "C09" && prop != "C10" && prop != "" {
		c.Sha2 = false // cannot connect there
	}
	if c.Mech == "sha256" && c.Transport == "tcp" {
		c.Sha2 = true // needs the server's cache, see run
	}
	if c.Transport == "tls" && full != "C08" {
		c.Cap = 0 // crypto/tls may wait 5 s to say goodbye on a full socket, and says it in the middle of a record
	}
	switch c.Transport {
	case "unix":
		c.Network, c.Addr = "unix", []string{"/sim/mysqlx.sock", "@mysqlx", "/tmp/mysqlx:33060"}[s.N(3)]
	default:
		k := s.Weighted(4, 2, 1)
		c.Network = []string{"tcp", "tcp4", "tcp6"}[k]
		c.Addr = []string{"db.sim:33060", "127.0.0.1:33060", "localhost:33060", "10.1.2.3:33060"}[s.Weighted(3, 1, 1, 1)]
		if k == 2 {
			c.Addr = []string{"db.sim:33060", "[::1]:33060", "[fd00::5]:33060"}[s.N(3)]
		}
	}
	// names and passwords
	x := &gen{s: s, u: &UoW{}}
	str := func(min int, bin bool) string {
		n := min + s.N(12)
		switch s.N(8) {
		case 6:
			n = min + 40 + s.N(100)
		case 7:
			n = min + 250 + s.N(60)
		}
		b := []byte(x.text(n, bin))
		switch s.N(8) {
		case 6:
			b = append(b, oddities[s.N(len(oddities))]...)
		case 7:
			b = append([]byte(oddities[s.N(len(oddities))]), b...)
		}
		for i := range b {
			if b[i] == 0 {
				b[i] = 'z'
			}
		}
		return string(b)
	}
	c.User = "u" + str(0, s.N(4) == 3)
	if s.N(16) == 15 { // the anonymous account
		c.User = ""
	}
	if s.N(3) != 2 {
		c.DB = str(1, false)
	}
	if s.N(8) != 7 {
		c.Pass = "pw!" + str(6, s.N(3) == 2)
	}
	c.CPass = c.Pass
	if wrong {
		c.CPass = "no!" + str(6, false)
	}
	if c.Transport == "tls" {
		switch prop {
		case "C09", "C10", "C11", "":
			c.TLSVar = s.Weighted(12, 2, 1, 1, 1, 2, 2)
		default:
			c.TLSVar = []int{0, vPinned, vClientCert}[s.Weighted(4, 1, 1)]
		}
	}
	return c, g
}

func (p *Plan) newOp(c *clientPlan, kind string) *Op {
	o := &Op{ID: len(p.Ops) + 1, Client: c.ID, Kind: kind, direct: c.Direct}
	p.Ops = append(p.Ops, o)
	c.Ops = append(c.Ops, o)
	return o
}

func mkPlan(s *simrt.Stream, prop string) *Plan {
	if isKnown(prop) {
		return knownPlan(prop)
	}
	p := &Plan{}
	var g genCfg
	p.C, g = mkCfg(s, prop)
	g.huge = &p.Huge
	sentN := 0
	var shared []exprGen
	var raws []*UoW
	if s.N(2) == 1 {
		sg := &gen{s: s, u: &UoW{Kinds: map[string]bool{}}, tx: -1, sentN: &sentN}
		for i := 0; i < 2; i++ {
			f, n := sg.expr(2)
			shared = append(shared, exprGen{f, n})
		}
	}
	directPct := 15
	switch prop {
	case "C21", "C22":
		directPct = 30
	case "C09", "C10", "C11", "C16", "C08":
		directPct = 45
	case "C01", "C05", "C06", "C07", "C14", "C15", "C17", "C13":
		directPct = 0
	}
	closer := -1
	if p.C.CloseOps {
		closer = s.N(p.C.Clients)
	}
	for i := 0; i < p.C.Clients; i++ {
		c := &clientPlan{ID: i + 1}
		c.Direct = s.N(100) < directPct && i != closer
		n := 1 + s.N(5)
		if p.C.Calls > 0 {
			n = 1 + n%p.C.Calls
		} else if p.C.Calls < 0 {
			n = -p.C.Calls
		}
		var cur []Msg
		var curTx []TxInfo
		bad, first := false, error(nil)
		build := func(o *Op) {
			if s.N(25) == 24 && g.bad == 0 {
				if len(raws) > 0 && s.N(2) == 1 {
					o.U = raws[s.N(len(raws))] // the very same bytes again, perhaps at the same time
				} else {
					o.U = genRaw(s)
					raws = append(raws, o.U)
				}
				o.Msgs = o.U.Msgs
				return
			}
			if len(cur) > 0 && s.N(12) == 11 {
				o.Keep = true
			} else {
				cur, curTx, bad, first = nil, nil, false, nil
				o.Fresh = s.N(6) == 5
			}
			if o.Keep && s.N(2) == 1 {
				o.U = &UoW{} // send the same again
			} else {
				o.U = genUoW(s, g, &sentN, shared)
			}
			if o.U.MayPanic {
				defer func() { cur, curTx, bad, first = nil, nil, false, nil }() // nothing can be added to that
			}
			base := len(cur)
			nt := len(curTx)
			for _, m := range o.U.Msgs {
				if m.Tx >= 0 {
					m.Tx += nt
				}
				cur = append(cur[:len(cur):len(cur)], m)
			}
			for _, t := range o.U.Txs {
				t.Start += base
				t.Commit += base
				mm := []int{}
				for _, x := range t.Members {
					mm = append(mm, x+base)
				}
				t.Members = mm
				curTx = append(curTx[:len(curTx):len(curTx)], t)
			}
			if o.U.Bad && !bad {
				bad, first = true, o.U.First
			}
			o.Msgs, o.Txs, o.Bad, o.First = cur, curTx, bad, first
		}
		ctxOf := func(o *Op) {
			w := [5]int{60, 8, 20, 4, 8}
			if prop == "C08" {
				w = [5]int{25, 10, 40, 10, 15}
			}
			switch s.Weighted(w[0], w[1], w[2], w[3], w[4]) {
			case 1:
				o.HasDl, o.Dl = true, 10*time.Minute
			case 2:
				o.HasDl = true
				o.Dl = time.Duration(1+s.N(2000)) * time.Millisecond
			case 3:
				o.HasDl = true
				o.Dl = -time.Duration(s.N(3)) * time.Second
			case 4:
				o.Cancel = 2
				if s.N(5) == 4 {
					o.Cancel = 1
				}
				if s.N(2) == 1 {
					o.HasDl = true
					o.Dl = time.Duration(1+s.N(5000)) * time.Millisecond
				}
			}
		}
		closeAt := -1
		if i == closer {
			closeAt = s.N(n + 1)
		}
		for j := 0; j < n; j++ {
			if s.N(6) == 5 {
				o := p.newOp(c, "pause")
				o.Pause = time.Duration(1+s.N(3000)) * time.Millisecond
				if s.N(5) == 4 { // minutes to days
					o.Pause *= []time.Duration{100, 3000, 100000}[s.N(3)]
				}
			}
			if j == closeAt {
				o := p.newOp(c, "pclose")
				if s.N(3) == 2 {
					ctxOf(o)
				}
				if s.N(3) == 2 {
					p.newOp(c, "pclose")
				}
			}
			if c.Direct {
				if j == 0 || s.N(3) == 2 {
					if j > 0 {
						p.newOp(c, "cclose").Twice = s.N(4) == 3
					}
					o := p.newOp(c, "open")
					ctxOf(o)
				}
				o := p.newOp(c, "csend")
				build(o)
				ctxOf(o)
				continue
			}
			o := p.newOp(c, "send")
			build(o)
			ctxOf(o)
		}
		if c.Direct {
			p.newOp(c, "cclose").Twice = s.N(4) == 3
		}
		if i != closer && p.C.CloseOps && s.N(4) == 3 && !c.Direct {
			p.newOp(c, "pclose")
		}
		p.Clients = append(p.Clients, c)
	}
	// epilogue: after the network has healed
	e := &clientPlan{ID: 100}
	for i := 0; i < p.C.Size+2; i++ {
		o := p.newOp(e, "send")
		o.Epilogue = true
		o.U = &UoW{Build: []step{func(b *xtorm.Builder) { b.StmtExecute("INSERT INTO t VALUES (1)") }},
			Msgs: []Msg{{Exp: &Node{K: "stmt", S: "INSERT INTO t VALUES (1)"}, Tx: -1}}}
		o.Msgs = o.U.Msgs
	}
	o := p.newOp(e, "pclose")
	o.Epilogue = true
	p.Epi = e
	return p
}
