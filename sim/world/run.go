package world

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime/debug"
	"runtime/metrics"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"

	"xtormsim/replay"
	"xtormsim/simnet"
	"xtormsim/simrt"
	"xtormsim/xsrv"
)

type Violation = replay.Violation

type Result struct {
	Violations []Violation
	Plan       []uint32
	Sched      []uint32
	Hash       uint64
	Switch     uint64
	Steps      int
	Yields     int
	SimTime    time.Duration
	Faults     map[string]int
	Probes     map[string]int
	Evals      map[string]int
	Trace      []string
	Stuck      []string
	Desc       string
}

type Spec struct {
	Seed    uint64
	Prop    string
	Plan    []uint32 // replay, if HasRec
	Sched   []uint32
	HasRec  bool
	Tracing bool
	Early   func(v Violation)
}

type wireState struct {
	w       *simnet.Wire
	touches []touch
	closed  int // sequence number of the close, 0: open
	authBad bool
	badTLS  bool // the same for the answer to the request for TLS
	badChal bool // a challenge that cannot be decoded was sent
	hostile bool
	noAns   bool // the script keeps silent: not a delay that heals by itself
	doubt   *Op  // the send that ended with an error on it

	lastRead int // sequence number of the last read from it
}

type touch struct {
	op          *Op
	first, last int
}

type sessPlan struct {
	at    string // start, answer, plain
	kind  int
	n     int
	tls   int
	inert bool
}

type World struct {
	spec  Spec
	s     *simrt.Stream // schedule and faults
	sc    *simrt.Sched
	p     *Plan
	c     *Cfg
	net   *simnet.Net
	srv   *xsrv.Server
	pool  pool.Pool
	conn  *connector.Connector
	ws    []*wireState
	phase int // 1 faults, 2 healed
	part  bool
	down  int
	gap   int
	res   *Result
	seen  map[string]bool

	evals, faults, probes counts

	anyHostile bool
	bigRow     bool // a row of megabytes was sent
	closing    int  // pool closes started
	closesNil  int  // pool closes that returned nil
	firstClose int  // sequence number of the first close's start
	closedSeq  int  // sequence number of the first return without error
	healSeq    int
	probing    bool
	closesRun  int // pool closes running
	active     []*Op
	wakes      []time.Time // when pausing clients go on
}

func (w *World) violate(prop, kind, format string, a ...any) {
	if prop == "C02" && len(a) > 0 {
		if o, ok := a[0].(*Op); ok && o.U != nil && o.U.Misused {
			w.violate("C20", kind, format, a...) // what was refused left traces
		}
	}
	key := prop + kind
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	v := Violation{Prop: prop, Kind: kind, Msg: fmt.Sprintf(format, a...)}
	w.sc.Ev("VIOLATION %s %s", v.Prop, v.Kind)
	w.res.Violations = append(w.res.Violations, v)
	if w.spec.Early != nil {
		w.spec.Early(v)
	}
}

func (w *World) eval(prop string)  { w.evals.add(prop) }
func (w *World) fault(kind string) { w.faults.add(kind); w.sc.Ev("fault %s", kind) }
func (w *World) probe(k string)    { w.probes.add(k) }

// counts is no map: the race detector watches maps even in code it is told to leave alone.
type counts struct {
	k []string
	n []int
}

func (c *counts) add(k string) {
	for i, x := range c.k {
		if x == k {
			c.n[i]++
			return
		}
	}
	c.k, c.n = append(c.k, k), append(c.n, 1)
}

func (c *counts) to(m map[string]int) {
	for i, k := range c.k {
		m[k] = c.n[i]
	}
}
func (w *World) op(id int) *Op {
	if id <= 0 || id > len(w.p.Ops) {
		return nil
	}
	return w.p.Ops[id-1]
}

// Event implements xsrv.Script.
func (w *World) Event(format string, a ...any) { w.sc.Ev(format, a...) }

func planOf(s *xsrv.Session) *sessPlan {
	p, _ := s.Plan.(*sessPlan)
	return p
}

var pki *xsrv.PKI

// Run executes one simulated run. It must be called inside a synctest bubble.
func Run(spec Spec) *Result {
	if pki == nil {
		panic("world.Init not called")
	}
	w := &World{spec: spec, phase: 1, seen: map[string]bool{}}
	w.res = &Result{Faults: map[string]int{}, Probes: map[string]int{}, Evals: map[string]int{}}
	var ps *simrt.Stream
	if spec.HasRec {
		ps, w.s = simrt.ReplayStream(spec.Plan), simrt.ReplayStream(spec.Sched)
	} else {
		ps, w.s = simrt.NewStream(spec.Seed, 1), simrt.NewStream(spec.Seed, 2)
	}
	w.sc = simrt.NewSched(w.s)
	w.sc.Tracing = spec.Tracing
	simrt.S = w.sc
	w.p = mkPlan(ps, spec.Prop)
	w.c = &w.p.C
	w.res.Plan = ps.Rec
	w.setup()
	w.sc.Begin()
	start := time.Now()
	if isKnown(spec.Prop) {
		w.knownLoop(spec.Prop)
	} else {
		w.loop()
	}
	w.final()
	w.evals.to(w.res.Evals)
	w.faults.to(w.res.Faults)
	w.probes.to(w.res.Probes)
	w.res.SimTime = time.Since(start)
	for _, t := range w.sc.Tasks {
		w.res.Yields += t.NYields
	}
	for _, t := range w.sc.Abort() {
		w.res.Stuck = append(w.res.Stuck, t.Name+" "+t.Why)
	}
	synctest.Wait()
	simrt.S, simnet.N = nil, nil
	w.res.Sched = w.s.Rec
	w.res.Hash, w.res.Switch, w.res.Steps, w.res.Trace = w.sc.Hash, w.sc.Switch, w.sc.Steps, w.sc.Trace
	w.res.Desc = w.describe()
	return w.res
}

// Init prepares what all runs share.
func Init() { pki = xsrv.NewPKI() }

func (w *World) describe() string {
	c := w.c
	n := map[string]int{}
	for _, o := range w.p.Ops {
		n[o.Kind]++
	}
	return fmt.Sprintf("transport=%s mech=%s pool=%d clients=%d ops=%v faults=%v steps=%d", c.Transport, c.Mech, c.Size, c.Clients, n, w.res.Faults, w.sc.Steps)
}

func (w *World) setup() {
	c := w.c
	n := &simnet.Net{OnDial: w.onDial, OnOpen: w.onOpen, OnIO: w.onIO, OnCall: w.onCall}
	w.net = n
	simnet.N = n
	n.OpOf = func(t *simrt.Task) int {
		if o, ok := t.Local.(*Op); ok && o != nil {
			return o.ID
		}
		return 0
	}
	if c.ReadSplit > 0 {
		n.ReadMax = func(_ *simnet.Wire, k int) int {
			if k > 1 && w.s.Per1000(c.ReadSplit) {
				if w.s.N(3) == 0 {
					return 1
				}
				return k - w.s.N(k)
			}
			return k
		}
	}
	n.WriteFault = func(sw *simnet.Wire, k int) int {
		if w.phase == 1 && c.WFault > 0 && w.s.Per1000(c.WFault) {
			w.fault("write broken off")
			return w.s.N(k + 1)
		}
		return -1
	}
	if c.CloseErr > 0 {
		n.CloseErr = func(sw *simnet.Wire) error {
			if w.s.Per1000(c.CloseErr) {
				w.fault("close reports an error")
				return syscall.EIO
			}
			return nil
		}
	}
	if c.DlErr > 0 {
		n.DlErr = func(sw *simnet.Wire) error {
			if w.phase != 1 || !w.s.Per1000(c.DlErr) {
				return nil
			}
			w.fault("setting a deadline fails, then silence")
			sw.Fault("deadline")
			sw.S2C.Stalled = true
			return syscall.ENOMEM
		}
	}
	w.srv = xsrv.NewServer(n, w)
	w.srv.Accounts[c.User] = xsrv.Account{Password: c.Pass, Sha2: c.Sha2}
	if c.Mech == "sha256" && c.Transport == "tcp" {
		w.srv.Cached[c.User] = true
	}
	w.srv.TLSConf = &tls.Config{SessionTicketsDisabled: true, CurvePreferences: []tls.CurveID{tls.X25519}}
	opts := []connector.Option{connector.WithUserPassword(c.User, c.CPass)}
	if c.DB != "" {
		opts = append(opts, connector.WithDatabase(c.DB))
	}
	switch c.Mech {
	case "sha256":
		opts = append(opts, connector.WithAuthentication(sha256.New()))
	case "plain":
		opts = append(opts, connector.WithAuthentication(plain.New()))
	default:
		if w.p.C.Clients%2 == 0 {
			opts = append(opts, connector.WithAuthentication(mysql41.New()))
		}
	}
	if c.Transport == "tls" || (c.Transport == "unix" && c.Clients == 2) {
		opts = append(opts, connector.WithTLSConfig(w.clientTLS()))
	}
	var err error
	if w.conn, err = connector.New(c.Network, c.Addr, opts...); err != nil {
		panic(err)
	}
	w.pool = fifoch.New(w.conn, c.Size)
	for _, cp := range w.p.Clients {
		w.spawn(cp)
	}
	w.drawGap()
}

func (w *World) clientTLS() *tls.Config {
	c := &tls.Config{RootCAs: pki.Roots, ServerName: "db.sim", CurvePreferences: []tls.CurveID{tls.X25519}}
	no := errors.New("not to be trusted")
	switch w.c.TLSVar {
	case vNoName:
		c.ServerName = ""
	case vRefuses:
		c.VerifyConnection = func(tls.ConnectionState) error { return no }
	case vRefusesRaw:
		c.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return no }
	case vTooOld:
		c.MinVersion = tls.VersionTLS13
		w.srv.TLSConf.MaxVersion = tls.VersionTLS12
	case vPinned:
		c.InsecureSkipVerify = true
		c.VerifyPeerCertificate = func(raw [][]byte, _ [][]*x509.Certificate) error {
			if len(raw) == 0 || !bytes.Equal(raw[0], pki.Good.Certificate[0]) {
				return no
			}
			return nil
		}
	case vClientCert:
		c.Certificates = []tls.Certificate{pki.Good}
		w.srv.TLSConf.ClientAuth = tls.RequireAnyClientCert
	}
	return c
}

func (w *World) spawn(cp *clientPlan) {
	cp.x = xtorm.New(64)
	cp.task = w.sc.Spawn(fmt.Sprintf("client%d", cp.ID), nil, func() { w.client(cp) })
}

func (w *World) client(cp *clientPlan) {
	for _, o := range cp.Ops {
		simrt.Y(0)
		w.exec(cp, o)
	}
}

func (w *World) exec(cp *clientPlan, o *Op) {
	switch o.Kind {
	case "pause":
		w.wakes = append(w.wakes, time.Now().Add(o.Pause))
		simrt.Sleep(o.Pause)
		return
	case "csend", "cclose":
		if cp.conn == nil {
			o.Skipped = true
			if o.U != nil && o.U.Raw == nil {
				w.build(cp, o) // the next one may add to it
				if o.UserPan {
					cp.x = xtorm.New(8)
				}
			}
			return
		}
	case "pclose":
		if o.Epilogue && w.closesNil > 0 {
			o.Skipped = true
			return
		}
	}
	t := simrt.Current()
	ctx := context.Context(context.Background())
	if o.HasDl {
		o.Deadline = time.Now().Add(o.Dl)
		var c context.CancelFunc
		ctx, c = context.WithDeadline(ctx, o.Deadline)
		defer c()
	}
	if o.Cancel > 0 {
		var c context.CancelFunc
		ctx, c = context.WithCancel(ctx)
		defer c()
		o.cancel = c
		if o.Cancel == 1 {
			o.Cancelled = true
			c()
		}
	}
	o.ctx = ctx
	t.Local = o
	simrt.Publish()
	w.begin(o)
	finished := false
	defer func() {
		if r := recover(); r != nil {
			o.Panic, o.Stack = r, string(debug.Stack())
			finished = true
		}
		if finished {
			t.Local = nil
			o.Conn = nil
			w.end(cp, o)
		}
	}()
	switch o.Kind {
	case "send", "csend":
		var b []byte
		if o.U.Raw != nil {
			b = o.U.Raw()
		} else {
			w.build(cp, o)
		}
		simrt.Y(0)
		var s netx.Sender = w.pool
		if o.Kind == "csend" {
			s = cp.conn
		}
		w.net.Seq++
		o.SendSeq = w.net.Seq
		if o.U.Raw != nil {
			o.Resp, o.Err = s.Send(ctx, b)
		} else {
			if o.UserPan {
				if !refused(func() { o.Resp, o.Err = cp.x.Send(ctx, s) }) && o.Err == nil {
					w.violate("C20", "sent", "%v: sent although a callback panicked while it was being built", o)
				} else if o.Err == nil {
					o.Err = errRefused
				}
				w.eval("C20")
				cp.x = xtorm.New(8)
			} else {
				o.Resp, o.Err = cp.x.Send(ctx, s)
			}
		}
	case "open":
		var c netx.Conn
		c, o.Err = w.conn.New(ctx)
		if o.Err == nil {
			if c == nil {
				w.violate("C09", "nil conn", "%v returned neither a connection nor an error", o)
			} else {
				w.checkSecure(o, c)
				cp.conn = c
			}
		}
	case "cclose":
		o.Err = cp.conn.Close()
		if o.Twice {
			cp.conn.Close()
		}
		cp.conn = nil
	case "pclose":
		o.Err = w.pool.Close(ctx)
	}
	finished = true
}

var errRefused = errors.New("refused")

func (w *World) build(cp *clientPlan, o *Op) {
	u := o.U
	u.X, u.Sender = cp.x, w.pool
	u.OnMisuse = func(what string, ok bool) {
		w.fault("call on an enclosing builder")
		w.eval("C20")
		if !ok {
			w.violate("C20", "not refused", "%v: %s on the enclosing builder inside a callback was not refused", o, what)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(userPanic); ok {
				w.fault("callback panics")
				o.UserPan = true
				return
			}
			o.BuildPan = r
			w.violate("C04", "panic while building", "%v: building panicked: %v", o, r)
			panic(r)
		}
	}()
	if o.Fresh {
		cp.x = xtorm.New(16)
		u.X = cp.x
	} else if !o.Keep {
		cp.x.Reset()
	}
	for _, f := range o.U.Build {
		f(&cp.x.Builder)
	}
	for _, f := range o.U.After {
		f()
	}
}

// ---- scheduling ----

func (w *World) drawGap() {
	w.gap = 0
	if w.c.FaultGap > 0 {
		w.gap = w.s.N(2 * w.c.FaultGap)
	}
}

func (w *World) clientsDone() bool {
	for _, t := range w.sc.Tasks {
		if !t.Daemon && !t.Lib && t.St != simrt.Done {
			return false
		}
	}
	return true
}

// started returns what the code under test has started and what has not ended.
func (w *World) started() (n []*simrt.Task) {
	for _, t := range w.sc.Tasks {
		if t.Lib && t.St != simrt.Done {
			n = append(n, t)
		}
	}
	return n
}

// settle lets everything the code under test has started run, with ever longer pauses, until it ends or nothing
// more happens in an hour.
func (w *World) settle() {
	pauses := []time.Duration{100 * time.Millisecond, time.Second, 10 * time.Second, time.Minute, 10 * time.Minute, time.Hour}
	k := 0
	for i := 0; i < 20000 && len(w.started()) > 0; i++ {
		if w.canRun() {
			if !w.step() {
				return
			}
			continue
		}
		if k == len(pauses) {
			return
		}
		w.advance(pauses[k])
		w.invariants()
		k++
	}
}

func (w *World) canRun() bool {
	for _, t := range w.sc.Tasks {
		if t.St == simrt.Ready {
			return true
		}
	}
	for _, x := range w.net.Wires {
		if x.C2S.CanDeliver() || x.S2C.CanDeliver() {
			return true
		}
	}
	for _, d := range w.net.Dials {
		if d.State == 0 && d.Waiting && !d.Stalled && !w.part {
			return true
		}
	}
	return false
}

const (
	maxFuel   = 200000
	capPhase1 = 2500
	capPhase2 = 60000
	spinCap   = 30000000
)

func (w *World) loop() {
	steps1 := 0
	for !w.clientsDone() {
		steps1++
		if steps1 > capPhase1+60*max(0, len(w.p.Ops)-40) {
			break
		}
		if w.gap > 0 {
			if w.gap--; w.gap == 0 {
				w.injectFault()
				w.net.Tick()
				w.drawGap()
			}
		}
		if !w.srv.Up {
			if w.down--; w.down <= 0 {
				w.srv.Up = true
				w.sc.Ev("server restarts")
			}
		}
		if !w.step() {
			break
		}
	}
	if w.c.NoHeal && !w.clientsDone() {
		w.longStall()
	}
	w.heal()
	w.drain()
	if !w.clientsDone() {
		return
	}
	w.settle()
	w.checkIdle()
	w.spawn(w.p.Epi)
	w.drain()
	if w.clientsDone() {
		w.settle()
		w.checkLeft()
	}
}

func (w *World) drain() {
	for i := 0; !w.clientsDone(); i++ {
		if i > capPhase2+500*len(w.p.Ops) {
			w.notDone("still running after %d steps", i)
			return
		}
		if !w.step() {
			w.notDone("blocked for ever")
			return
		}
	}
}

func (w *World) notDone(format string, a ...any) {
	why := fmt.Sprintf(format, a...)
	for _, t := range w.sc.Tasks {
		if !t.Daemon && !t.Lib && t.St != simrt.Done {
			o, _ := t.Local.(*Op)
			if o == nil {
				continue
			}
			w.violate("C13", "not finished", "%v: %s after all faults had stopped (task %s, waiting for %q)", o, why, t.Name, t.Why)
			if w.closing > 0 {
				w.violate("C07", "not finished", "%v: %s with the pool being closed (waiting for %q)", o, why, t.Why)
			}
			if o.Kind == "open" || !w.authed(o) {
				w.violate("C09", "not finished", "%v: %s while opening a connection (waiting for %q)", o, why, t.Why)
			}
		}
	}
}

func (w *World) authed(o *Op) bool {
	for _, id := range o.Wires {
		if s := w.ws[id-1].w.Sess.(*xsrv.Session); !s.Authed {
			return false
		}
	}
	return len(o.Wires) > 0
}

// step performs one scheduling decision; false: nothing can happen any more.
func (w *World) step() bool {
	var cl, da []*simrt.Task
	native := false
	for _, t := range w.sc.Tasks {
		switch t.St {
		case simrt.Ready:
			if t.Daemon {
				da = append(da, t)
			} else {
				cl = append(cl, t)
			}
		case simrt.Native:
			native = true
		}
	}
	var pipes []*simnet.Pipe
	for _, x := range w.net.Wires {
		if x.C2S.CanDeliver() {
			pipes = append(pipes, x.C2S)
		}
		if x.S2C.CanDeliver() {
			pipes = append(pipes, x.S2C)
		}
	}
	var dials []*simnet.Dialing
	for _, d := range w.net.Dials {
		if d.State == 0 && d.Waiting && !d.Stalled && !w.part {
			dials = append(dials, d)
		}
	}
	if len(cl) == 0 {
		w.quiet()
	}
	next := w.nextTime()
	wt := [5]int{10, 10, 10, 10, w.c.TimeW}
	if len(cl) == 0 {
		wt[0] = 0
	}
	if len(da) == 0 {
		wt[1] = 0
	}
	if len(pipes) == 0 {
		wt[2] = 0
	}
	if len(dials) == 0 {
		wt[3] = 0
	}
	canTime := native || !next.IsZero()
	if !canTime {
		wt[4] = 0
	}
	if wt[0]+wt[1]+wt[2]+wt[3] == 0 {
		if !canTime {
			return false
		}
		wt[4] = 1
	}
	k := w.s.Weighted(wt[:]...)
	if wt[k] == 0 {
		for k = 0; wt[k] == 0; k++ {
		}
	}
	switch k {
	case 0:
		w.run(cl[w.s.N(len(cl))])
	case 1:
		w.run(da[w.s.N(len(da))])
	case 2:
		p := pipes[w.s.N(len(pipes))]
		n := len(p.Fly)
		if n > 1 && w.c.Chunk > 0 && w.s.Per1000(w.c.Chunk) {
			switch w.s.N(3) {
			case 0:
				n = 1 + w.s.N(5)
			case 1:
				n = 1 + w.s.N(n)
			case 2:
				n--
			}
		}
		w.sc.Ev("deliver %s.%d %d", p.Dir, p.Wire.ID, n)
		p.Deliver(n)
	case 3:
		d := dials[w.s.N(len(dials))]
		if !w.srv.Up || d.Err != nil {
			if d.Err == nil {
				d.Err = syscall.ECONNREFUSED
				w.fault("dial refused, server down")
			}
			w.op(d.Op).DialFault = true
			d.State = 2
		} else {
			d.State = 1
		}
		w.sc.Ev("dial %d of op %d: state %d", d.ID, d.Op, d.State)
		simrt.Wake(d)
	case 4:
		d := 100 * time.Millisecond
		if !next.IsZero() {
			d = time.Until(next)
		}
		if native && d > 100*time.Millisecond && wt[0]+wt[1]+wt[2]+wt[3] == 0 && w.s.N(3) == 0 {
			d = 100 * time.Millisecond
		} else if w.s.N(3) == 2 {
			d = time.Duration(1+w.s.N(1500)) * time.Millisecond
		}
		w.advance(d)
	}
	w.net.Tick()
	w.invariants()
	return true
}

// allocCap is far beyond what any unit of work and answer of a run need in one step.
const allocCap = 200 << 20

func allocated() uint64 {
	x := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(x)
	return x[0].Value.Uint64()
}

func (w *World) received() (n int) {
	for _, x := range w.net.Wires {
		n += len(x.Read)
	}
	return n
}

func (w *World) run(t *simrt.Task) {
	fuel := maxFuel
	switch w.s.Weighted(w.c.Pre[:]...) {
	case 1:
		fuel = 1 + w.s.N(12)
	case 2:
		fuel = 1 + w.s.N(200)
	}
	w.sc.Ev("run %s %d", t.Name, fuel)
	before := uint64(0)
	if w.anyHostile {
		before = allocated()
	}
	w.sc.Step(t, fuel)
	if o, _ := t.Local.(*Op); before > 0 && o != nil && !t.Daemon && !w.p.Huge && allocated()-before > allocCap {
		w.violate("C12", "memory", "%v reserved more than %d MB in one go although all its connections together had delivered %d bytes", o, allocCap>>20, w.received())
	}
	if t.NYields > spinCap {
		o, _ := t.Local.(*Op)
		w.violate("C13", "spin", "%v: runs without end (%d scheduling points)", o, t.NYields)
		w.violate("C12", "spin", "%v: runs without end (%d scheduling points)", o, t.NYields)
		t.NYields = 0
	}
}

func (w *World) advance(d time.Duration) {
	if d <= 0 {
		d = time.Millisecond
	}
	w.sc.Ev("advance %s", d)
	time.Sleep(d)
	synctest.Wait()
	w.net.Tick()
}

// nextTime is the next instant at which something is due.
func (w *World) nextTime() (t time.Time) {
	t = w.net.NextDeadline()
	for _, x := range w.wakes {
		if x.After(time.Now()) && (t.IsZero() || x.Before(t)) {
			t = x
		}
	}
	for _, o := range w.active {
		if o.HasDl && o.Deadline.After(time.Now()) && (t.IsZero() || o.Deadline.Before(t)) {
			t = o.Deadline
		}
	}
	return t
}

// longStall stops injecting and runs everything that can run with stalls still in place, for a long
// simulated time: whoever is still waiting must be waiting for its own stalled connection.
func (w *World) longStall() {
	w.gap = 0
	w.probing = true
	for i := 0; i < 3000 && !w.clientsDone(); i++ {
		if !w.step() {
			break
		}
	}
	for i := 0; i < 40 && !w.clientsDone(); i++ {
		w.advance(15 * time.Second)
		for j := 0; j < 3000 && w.anyReady(); j++ {
			w.step()
		}
	}
	w.probing = false
	if w.anyReady() {
		return
	}
	w.eval("C13")
	own := map[*Op]bool{} // waits for the outside in one of its tasks, the others wait for that one
	for _, t := range w.sc.Tasks {
		if o, _ := t.Local.(*Op); o != nil && t.St == simrt.Blocked && w.ownWait(o, t) {
			own[o] = true
		}
	}
	for _, t := range w.sc.Tasks {
		o, _ := t.Local.(*Op)
		if t.Daemon || t.St == simrt.Done || o == nil || !o.Started || o.Returned {
			continue
		}
		w.probe("stalled at long stall")
		if own[o] {
			continue
		}
		w.violate("C13", "blocked on another", "%v waits for %q (state %d), which is not its own connection, while another client's connection is stalled", o, t.Why, t.St)
	}
}

func (w *World) anyReady() bool {
	for _, t := range w.sc.Tasks {
		if t.St == simrt.Ready {
			return true
		}
	}
	for _, x := range w.net.Wires {
		if x.C2S.CanDeliver() || x.S2C.CanDeliver() {
			return true
		}
	}
	for _, d := range w.net.Dials {
		if d.State == 0 && d.Waiting && !d.Stalled && !w.part {
			return true
		}
	}
	return false
}

// ownWait tells whether t waits for network input or output of a connection its operation uses.
func (w *World) ownWait(o *Op, t *simrt.Task) bool {
	switch k := t.Key.(type) {
	case *simnet.Pipe:
		for _, id := range o.Wires {
			if id == k.Wire.ID {
				return true
			}
		}
	case *simnet.Dialing:
		return k.Op == o.ID
	}
	return false
}

func (w *World) heal() {
	w.phase = 2
	w.gap = 0
	w.part = false
	w.srv.Up = true
	w.net.Seq++
	w.healSeq = w.net.Seq
	w.sc.Ev("heal")
	for _, d := range w.net.Dials {
		d.Stalled = false
	}
	for i, x := range w.net.Wires {
		x.C2S.Stalled, x.S2C.Stalled = false, false
		x.C2S.Cap = 0
		simrt.Wake(x.C2S)
		if (x.Faulted || w.ws[i].noAns) && x.Open() {
			x.Fault("unanswered")
			x.Reset(1<<30, 1<<30)
		}
	}
	w.net.Tick()
}

// ---- faults ----

func (w *World) openWires() (l []*simnet.Wire) {
	for _, x := range w.net.Wires {
		if x.Open() && !x.S2C.Rst {
			l = append(l, x)
		}
	}
	return l
}

func (w *World) keep(n int) int {
	switch w.s.N(3) {
	case 0:
		return 0
	case 1:
		return 1 << 30
	}
	return w.s.N(n + 1)
}

func (w *World) injectFault() {
	total := 0
	for _, k := range w.c.Kinds {
		total += k
	}
	if total == 0 {
		return
	}
	k := w.s.Weighted(w.c.Kinds...)
	l := w.openWires()
	var x *simnet.Wire
	if len(l) > 0 {
		// prefer connections in use
		var busy []*simnet.Wire
		for _, y := range l {
			if len(y.InCall) > 0 {
				busy = append(busy, y)
			}
		}
		if len(busy) > 0 && w.s.N(3) != 2 {
			l = busy
		}
		x = l[w.s.N(len(l))]
	}
	switch k {
	case fReset:
		if x != nil {
			w.fault("connection reset")
			x.Reset(w.keep(len(x.C2S.Fly)), w.keep(len(x.S2C.Fly)))
		}
	case fKill:
		if x != nil {
			if s := x.Sess.(*xsrv.Session); !s.Dead {
				w.fault("session killed by server")
				x.Fault("kill")
				s.Kill()
				simrt.Wake(x.C2S)
			}
		}
	case fEndIdle:
		for _, y := range w.openWires() {
			if s := y.Sess.(*xsrv.Session); len(y.InCall) == 0 && !s.Dead && s.Authed && s.InTx() == nil {
				w.fault("idle session ended by server")
				y.Fault("end")
				s.Kill()
				simrt.Wake(y.C2S)
				break
			}
		}
	case fCrash:
		if w.srv.Up {
			w.fault("server crash")
			w.srv.Crash(func(y *simnet.Wire) (int, int) { return w.keep(len(y.C2S.Fly)), w.keep(len(y.S2C.Fly)) })
			w.down = 1 + w.s.N(60)
		}
	case fStall:
		if x != nil {
			p := x.S2C
			if w.s.N(3) == 2 {
				p = x.C2S
			}
			if !p.Stalled {
				w.fault("one direction of a connection stalls")
				p.Stalled = true
			}
		}
	case fUnstall:
		for _, y := range w.net.Wires {
			y.C2S.Stalled, y.S2C.Stalled = false, false
		}
		for _, d := range w.net.Dials {
			d.Stalled = false
		}
		w.part = false
		w.sc.Ev("stalls end")
	case fPartition:
		w.fault("partition")
		w.part = true
		for _, y := range w.net.Wires {
			y.C2S.Stalled, y.S2C.Stalled = true, true
		}
	case fCancel:
		for _, o := range w.active {
			if o.Cancel == 2 && !o.Cancelled && w.s.N(2) == 1 {
				w.fault("context cancelled")
				o.Cancelled = true
				w.sc.Ev("cancel %v", o)
				o.cancel()
				synctest.Wait()
				break
			}
		}
	case fCorrupt:
		if x != nil {
			w.corrupt(x)
		}
	}
}

// corrupt damages bytes on their way to the client (plaintext connections: TLS detects damage itself).
func (w *World) corrupt(x *simnet.Wire) {
	n := len(x.S2C.Fly)
	if n == 0 {
		return
	}
	at := w.s.N(n)
	old := x.S2C.Fly
	nb := append([]byte(nil), old...)
	s := x.Sess.(*xsrv.Session)
	inAuth := !s.Authed || x.S2C.Delivered < len(s.AuthOut)
	switch k := w.s.N(4); {
	case k == 0 || inAuth && k > 1:
		nb[at] ^= byte(1 + w.s.N(255))
	case k == 1:
		nb[at] = byte(w.s.N(20))
	case k == 2: // bytes vanish
		m := 1 + w.s.N(8)
		if at+m > n {
			m = n - at
		}
		nb = append(nb[:at], nb[at+m:]...)
	case k == 3: // bytes appear
		ins := make([]byte, 1+w.s.N(8))
		for i := range ins {
			ins[i] = byte(w.s.N(20))
		}
		nb = append(nb[:at], append(ins, nb[at:]...)...)
	}
	if !x.Unix && w.c.Transport == "tls" {
		// any damage is fine
	} else {
		all := append(append(append([]byte(nil), x.Read...), x.S2C.Rcv...), nb...)
		for len(all) >= 4 {
			l := binary.LittleEndian.Uint32(all)
			if l > 1<<20 {
				return // the client would have to wait for (and make room for) that much
			}
			if l == 0 || int(l)+4 > len(all) {
				break
			}
			all = all[4+l:]
		}
	}
	x.S2C.Fly = nb
	w.fault("bytes from the server damaged")
	x.Fault("corrupt")
	st := w.ws[x.ID-1]
	st.hostile, w.anyHostile = true, true
	if inAuth {
		st.authBad = true
	}
	simrt.Wake(x.S2C)
}

func (w *World) onDial(d *simnet.Dialing) {
	o := w.op(d.Op)
	if o == nil {
		w.violate("C05", "dial outside", "a connection attempt outside any call")
		d.State, d.Err = 2, syscall.ECONNREFUSED
		return
	}
	w.sc.Ev("%v dials", o)
	if o.First1 == 0 {
		o.First1 = d.Seq
		w.checkReuse(o, nil)
	}
	o.Dialed++
	w.activity(o, "dial")
	if w.phase == 1 && w.c.DialFault > 0 && w.s.Per1000(w.c.DialFault) {
		switch w.s.N(3) {
		case 0:
			d.Err = syscall.ECONNREFUSED
			w.fault("dial refused")
		case 1:
			d.Err = syscall.EHOSTUNREACH
			w.fault("dial unreachable")
		case 2:
			d.Stalled = true
			w.fault("dial stalls")
		}
	}
}

func (w *World) onOpen(x *simnet.Wire) {
	st := &wireState{w: x}
	w.ws = append(w.ws, st)
	if w.phase == 1 {
		x.C2S.Cap = w.c.Cap
	}
	if w.part {
		x.C2S.Stalled, x.S2C.Stalled = true, true
	}
	w.srv.Open(x)
	s := x.Sess.(*xsrv.Session)
	sp := &sessPlan{kind: -1, tls: -1}
	s.Plan = sp
	if w.phase == 1 && w.c.AuthFault > 0 && w.s.Per1000(w.c.AuthFault) {
		sp.kind = w.s.N(nAuthKinds)
		sp.n = w.s.N(1 << 16)
	}
	if w.phase == 1 && w.c.Transport == "tls" && w.c.TLSFault > 0 && w.s.Per1000(w.c.TLSFault) {
		sp.tls = w.s.N(nTLSKinds)
		sp.n = w.s.N(1 << 16)
	}
}
