package xsrv

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"net"
	"strings"
	"time"

	"xtormsim/simnet"
	"xtormsim/simrt"
)

type Account struct {
	Password string
	Sha2     bool // caching_sha2_password: SHA256_MEMORY only works once cached
}

// Effect is a durable change.
type Effect struct {
	Op, Idx int
	Tx      int // 0: autocommit
	Pos     int
}

// Exec is one statement the server executed.
type Exec struct {
	Op, Idx int
	Sess    int
	Tx      int
	TxOp    int // operation whose START TRANSACTION opened the transaction
	TxIdx   int // message index of that START TRANSACTION
	Iso     string
	Snap    bool
	Effect  bool
}

type Tx struct {
	ID      int
	Op, Idx int
	Iso     string
	Snap    bool
	Pending []Effect
}

type block struct {
	noError bool
	failed  bool
}

// Reply is how the server answered one message.
type Reply struct {
	Op, Idx int
	Err     *SrvErr
	Seq     int
}

// Got is one received message after authentication.
type Got struct {
	Node *Node
	Err  error
	Op   int
	Idx  int
	Seq  int
	Typ  byte
}

// Action is what a script makes of one message.
type Action struct {
	Err     *SrvErr  // reject the message
	Kill    int      // 1: the session ends before executing, 2: after executing, before answering
	Hold    bool     // the answer stays in the server's output buffer
	Crash   int      // 1: server crashes before executing, 2: after executing, before answering
	Pre     [][]byte // frames before the final one
	Post    [][]byte // frames (notices) following the final one
	Raw     []byte   // hostile: sent instead of the honest final frame
	HasRaw  bool
	EndSess bool // close after the answer
}

// AuthAct is what a script makes of one authentication message.
type AuthAct struct {
	Deny *SrvErr
	Pre  [][]byte
	Raw  []byte // sent instead of the honest answer
	// Accept without verification
	Accept  bool
	Close   bool
	HasRaw  bool
	Silence bool
}

// TLSAct is what a script makes of the request to switch to TLS.
type TLSAct struct {
	Refuse  *SrvErr
	Silence bool
	Close   bool
	Pre     [][]byte
	NoOK    bool   // no acceptance, only Inject, and then the handshake all the same
	Inject  []byte // plaintext right after the acceptance
	Cert    *tls.Certificate
	// Plain: accept, then go on in plaintext
	Plain bool
}

type Script interface {
	Challenge(s *Session) []byte
	OnAuth(s *Session, n *Node, honest *SrvErr) AuthAct
	OnTLS(s *Session) TLSAct
	OnMsg(s *Session, n *Node, op, idx int) Action
	Attr(s *Session, end int) (op, idx int) // end: offset of the frame's end in the client's byte stream
	Event(format string, a ...any)
}

type Server struct {
	Script   Script
	Accounts map[string]Account
	Cached   map[string]bool
	Up       bool
	Durable  []Effect
	Execs    []Exec
	Sessions []*Session
	txSeq    int

	globalIso string
	Crashes   int
	Net       *simnet.Net
	TLSConf   *tls.Config // base
}

type Session struct {
	Plan   any // of the script
	ID     int
	Srv    *Server
	W      *simnet.Wire
	TLS    bool // handshake completed
	Dead   bool
	Ended  bool
	Authed bool
	User   string
	DB     string
	conn   net.Conn

	Recv    []Got
	Replies []Reply
	Out     []byte // every plaintext byte answered after authentication, from OutBase on
	AuthOut []byte
	held    []byte
	PreAuth []Got

	// authentication
	Mech       string
	challenge  []byte
	Starts     []string // mechanisms tried
	AuthErrs   []SrvErr
	AuthDenied int
	Plain      int // PLAIN attempts
	Responses  []AuthResp
	TLSRefused *SrvErr
	TLSAsked   bool
	TLSAct     TLSAct

	tx      *Tx
	nextIso string
	sessIso string
	noAuto  bool // autocommit is off
	release bool // the session ends after this answer
	prep    map[uint32]string
	blocks  []block
	Task    *simrt.Task

	Unavoidable bool // a rejection any correct client would have met
	Accepted    bool // accepted by the script without verification
	AuthIn      int  // bytes of the client's stream consumed when authentication was accepted
	Answered    int  // messages answered or being answered
}

type AuthResp struct{ Challenge, Response string }

func NewServer(n *simnet.Net, sc Script) *Server {
	return &Server{Script: sc, Net: n, Up: true, Accounts: map[string]Account{}, Cached: map[string]bool{}}
}

func (s *Session) Secure() bool { return s.TLS || s.W.Unix }

// InTx and NextIso expose session state to the oracles.
func (s *Session) InTx() *Tx       { return s.tx }
func (s *Session) NextIso() string { return s.nextIso }

func (srv *Server) Open(w *simnet.Wire) {
	s := &Session{ID: len(srv.Sessions) + 1, Srv: srv, W: w, conn: w.Server, prep: map[uint32]string{}, sessIso: srv.globalIso}
	w.Sess = s
	srv.Sessions = append(srv.Sessions, s)
	s.Task = simrt.S.Spawn(fmt.Sprintf("srv%d", s.ID), nil, func() { s.serve() })
	s.Task.Daemon = true
}

// Crash loses everything but committed effects. keep decides how many bytes in flight still arrive per wire.
func (srv *Server) Crash(keep func(w *simnet.Wire) (int, int)) {
	srv.Up = false
	srv.Crashes++
	srv.Cached = map[string]bool{}
	for _, s := range srv.Sessions {
		if !s.Ended {
			s.W.Fault("crash")
			a, b := keep(s.W)
			s.Kill()
			s.W.Reset(a, b)
		}
	}
}

// Kill ends the session: open transactions are rolled back.
func (s *Session) Kill() {
	if s.Dead {
		return
	}
	s.Dead = true
	s.tx = nil
	if !s.W.Server.Closed() {
		s.W.Server.Close()
	}
}

func (s *Session) write(b []byte) bool {
	if s.Dead || len(b) == 0 {
		return !s.Dead
	}
	if s.Authed {
		s.Out = append(s.Out, b...)
	} else {
		s.AuthOut = append(s.AuthOut, b...)
	}
	if _, err := s.conn.Write(b); err != nil {
		return false
	}
	return true
}

// flush writes what the server held back, then b.
func (s *Session) flush(b []byte) bool {
	b = append(s.held, b...)
	s.held = nil
	return s.write(b)
}

func (s *Session) readFrame() (typ byte, body []byte, err error) {
	var h [4]byte
	if _, err = io.ReadFull(s.conn, h[:]); err != nil {
		return
	}
	n := binary.LittleEndian.Uint32(h[:])
	if n < 1 || n > 64<<20 {
		return 0, nil, fmt.Errorf("bad frame length %d", n)
	}
	b := make([]byte, n)
	if _, err = io.ReadFull(s.conn, b); err != nil {
		return
	}
	return b[0], b[1:], nil
}

func (s *Session) serve() {
	defer func() {
		s.Ended = true
		if s.tx != nil {
			s.Srv.Script.Event("srv%d rollback of tx %d at session end", s.ID, s.tx.ID)
		}
		s.tx = nil
		s.Dead = true
		if !s.W.Server.Closed() {
			s.W.Server.Close()
		}
	}()
	simrt.Y(0)
	for !s.Dead {
		typ, body, err := s.readFrame()
		if err != nil || s.Dead {
			return
		}
		simrt.Y(0)
		if s.Dead {
			return
		}
		n, derr := Decode(typ, body)
		seq := s.W.Net.Seq
		if !s.Authed {
			s.PreAuth = append(s.PreAuth, Got{Node: n, Err: derr, Seq: seq, Typ: typ})
			if !s.preAuth(n, derr) {
				return
			}
			continue
		}
		op, idx := s.Srv.Script.Attr(s, s.W.C2S.Delivered-len(s.W.C2S.Rcv))
		s.Recv = append(s.Recv, Got{Node: n, Err: derr, Op: op, Idx: idx, Seq: seq, Typ: typ})
		if !s.message(n, derr, op, idx) {
			return
		}
	}
}

func (s *Session) preAuth(n *Node, derr error) bool {
	ev := s.Srv.Script.Event
	if derr != nil {
		ev("srv%d malformed message: %v", s.ID, derr)
		s.write((&SrvErr{Fatal: true, Code: 5000, State: "HY000", Msg: "Invalid message"}).Frame())
		return false
	}
	switch n.K {
	case "capset":
		return s.capset(n)
	case "authstart":
		s.Mech = n.S
		s.Starts = append(s.Starts, n.S)
		switch n.S {
		case "PLAIN":
			s.Plain++
			var honest *SrvErr
			f := strings.SplitN(n.Kids[0].S, "\x00", 3)
			if len(f) != 3 {
				honest = denied("")
			} else if !s.Secure() {
				s.Unavoidable = true
				honest = &SrvErr{Code: 1251, State: "08004", Msg: "Invalid authentication method PLAIN"}
			} else if a, ok := s.Srv.Accounts[f[1]]; !ok || a.Password != f[2] {
				honest = denied(f[1])
			}
			if len(f) == 3 {
				s.User, s.DB = f[1], f[0]
			}
			return s.authAnswer(n, honest)
		case "MYSQL41", "SHA256_MEMORY":
			act := s.Srv.Script.OnAuth(s, n, nil)
			for _, p := range act.Pre {
				s.write(p)
			}
			if act.Silence {
				return true
			}
			if act.Close {
				return false
			}
			if act.Deny != nil {
				s.AuthErrs = append(s.AuthErrs, *act.Deny)
				s.write(act.Deny.Frame())
				return !act.Deny.Fatal
			}
			if act.Accept {
				s.Accepted = true
				return s.accept("", "")
			}
			if act.HasRaw {
				return s.write(act.Raw)
			}
			s.challenge = s.Srv.Script.Challenge(s)
			ev("srv%d challenge %x", s.ID, s.challenge)
			return s.write(Frame(3, pbBytes(nil, 1, s.challenge)))
		}
		e := &SrvErr{Code: 1251, State: "08004", Msg: "Invalid authentication method " + n.S}
		s.AuthErrs = append(s.AuthErrs, *e)
		return s.write(e.Frame())
	case "authcont":
		var honest *SrvErr
		f := strings.SplitN(n.S, "\x00", 3)
		if s.challenge == nil || len(f) != 3 {
			honest = denied("")
		} else {
			s.User, s.DB = f[1], f[0]
			s.Responses = append(s.Responses, AuthResp{string(s.challenge), f[2]})
			honest = s.verify(f[1], f[2])
		}
		s.challenge = nil
		return s.authAnswer(n, honest)
	}
	ev("srv%d message %v before authentication", s.ID, n)
	s.write((&SrvErr{Fatal: true, Code: 5000, State: "HY000", Msg: "Invalid message"}).Frame())
	return false
}

func denied(user string) *SrvErr {
	return &SrvErr{Code: 1045, State: "HY000", Msg: "Invalid user or password (" + user + ")"}
}

func (s *Session) verify(user, resp string) *SrvErr {
	a, ok := s.Srv.Accounts[user]
	if !ok {
		return denied(user)
	}
	switch s.Mech {
	case "MYSQL41":
		if a.Sha2 {
			s.Unavoidable = true
			return denied(user)
		}
		if a.Password == "" {
			if resp == "" {
				return nil
			}
			return denied(user)
		}
		if len(resp) != 41 || resp[0] != '*' {
			return denied(user)
		}
		got, err := hex.DecodeString(resp[1:])
		if err != nil {
			return denied(user)
		}
		h1 := sha1.Sum([]byte(a.Password))
		h2 := sha1.Sum(h1[:])
		h3 := sha1.Sum(append(append([]byte{}, s.challenge...), h2[:]...))
		for i := range h3 {
			h3[i] ^= h1[i]
		}
		if !bytes.Equal(got, h3[:]) {
			return denied(user)
		}
		return nil
	case "SHA256_MEMORY":
		if !s.Srv.Cached[user] {
			s.Unavoidable = true
			return denied(user)
		}
		if len(resp) != 64 {
			return denied(user)
		}
		got, err := hex.DecodeString(resp)
		if err != nil {
			return denied(user)
		}
		h1 := sha256.Sum256([]byte(a.Password))
		h2 := sha256.Sum256(h1[:])
		h3 := sha256.Sum256(append(append([]byte{}, h2[:]...), s.challenge...))
		for i := range h3 {
			h3[i] ^= h1[i]
		}
		if !bytes.Equal(got, h3[:]) {
			return denied(user)
		}
		return nil
	}
	return denied(user)
}

func (s *Session) accept(user, db string) bool {
	b := []byte(nil)
	if len(s.Srv.Sessions)%2 == 0 {
		b = pbBytes(nil, 1, []byte("welcome"))
	}
	s.AuthIn = s.W.C2S.Delivered - len(s.W.C2S.Rcv)
	ok := s.write(Frame(4, b))
	s.Authed = true
	return ok
}

func (s *Session) authAnswer(n *Node, honest *SrvErr) bool {
	act := s.Srv.Script.OnAuth(s, n, honest)
	for _, p := range act.Pre {
		s.write(p)
	}
	if act.Silence {
		return true
	}
	if act.Close {
		return false
	}
	if act.HasRaw {
		return s.write(act.Raw)
	}
	if act.Deny != nil {
		honest = act.Deny
	}
	if honest != nil && act.Accept {
		s.Accepted = true
	}
	if honest != nil && !act.Accept {
		s.Srv.Script.Event("srv%d auth %s rejected: %d %s", s.ID, s.Mech, honest.Code, honest.Msg)
		s.AuthErrs = append(s.AuthErrs, *honest)
		s.AuthDenied++
		s.write(honest.Frame())
		return !honest.Fatal
	}
	if s.Mech == "PLAIN" {
		s.Srv.Cached[s.User] = true
	}
	s.Srv.Script.Event("srv%d auth %s ok user=%q db=%q", s.ID, s.Mech, s.User, s.DB)
	return s.accept(s.User, s.DB)
}

func (s *Session) capset(n *Node) bool {
	want := false
	for _, c := range n.Kids {
		if c.S == "tls" && c.Kids[0].Kids[0].K == "bool" && c.Kids[0].Kids[0].N == 1 {
			want = true
		}
	}
	if !want || s.TLS || s.TLSAsked {
		return s.write((&SrvErr{Code: 5001, State: "HY000", Msg: "Capability prepare failed"}).Frame())
	}
	s.TLSAsked = true
	act := s.Srv.Script.OnTLS(s)
	s.TLSAct = act
	var out []byte
	for _, p := range act.Pre {
		out = append(out, p...)
	}
	if act.Silence {
		s.write(out)
		return true
	}
	if act.Close {
		s.write(out)
		return false
	}
	if act.Refuse != nil {
		s.Srv.Script.Event("srv%d refuses TLS", s.ID)
		s.TLSRefused = act.Refuse
		return s.write(append(out, act.Refuse.Frame()...)) && !act.Refuse.Fatal
	}
	if !act.NoOK {
		out = append(out, Frame(0, nil)...)
	}
	out = append(out, act.Inject...)
	if !s.write(out) {
		return false
	}
	if act.Plain {
		return true
	}
	cfg := s.Srv.TLSConf.Clone()
	cfg.Certificates = []tls.Certificate{*act.Cert}
	t := tls.Server(s.W.Server, cfg)
	if err := t.Handshake(); err != nil {
		s.Srv.Script.Event("srv%d handshake failed", s.ID)
		return false
	}
	s.Srv.Script.Event("srv%d handshake done", s.ID)
	s.TLS = true
	s.conn = t
	return true
}

// IsEffect tells whether a statement text changes data.
func IsEffect(text string) bool {
	for _, p := range []string{"INSERT", "UPDATE", "DELETE", "REPLACE", "CALL"} {
		if strings.HasPrefix(text, p) {
			return true
		}
	}
	return false
}

func (s *Session) commit() {
	if s.tx != nil {
		for _, e := range s.tx.Pending {
			e.Pos = len(s.Srv.Durable)
			s.Srv.Durable = append(s.Srv.Durable, e)
		}
		s.Srv.Script.Event("srv%d commit tx %d (%d effects)", s.ID, s.tx.ID, len(s.tx.Pending))
	}
	s.tx = nil
}

func (s *Session) exec(op, idx int, effect bool) {
	x := Exec{Op: op, Idx: idx, Sess: s.ID, Effect: effect}
	e := Effect{Op: op, Idx: idx}
	if s.tx == nil && s.noAuto {
		iso := s.nextIso
		if iso == "" {
			iso = s.sessIso
		}
		s.nextIso = ""
		s.begin(op, idx, iso, false)
	}
	if s.tx != nil {
		x.Tx, x.TxOp, x.TxIdx, x.Iso, x.Snap = s.tx.ID, s.tx.Op, s.tx.Idx, s.tx.Iso, s.tx.Snap
		e.Tx = s.tx.ID
		if effect {
			s.tx.Pending = append(s.tx.Pending, e)
		}
	} else {
		x.Iso = s.nextIso
		if x.Iso == "" {
			x.Iso = s.sessIso
		}
		if effect {
			s.nextIso = ""
			e.Pos = len(s.Srv.Durable)
			s.Srv.Durable = append(s.Srv.Durable, e)
		}
	}
	s.Srv.Execs = append(s.Srv.Execs, x)
}

var isoLevels = map[string]bool{"READ UNCOMMITTED": true, "READ COMMITTED": true, "REPEATABLE READ": true, "SERIALIZABLE": true}

func (s *Session) begin(op, idx int, iso string, snap bool) {
	s.Srv.txSeq++
	s.tx = &Tx{ID: s.Srv.txSeq, Op: op, Idx: idx, Iso: iso, Snap: snap}
}

// sql executes a statement: transaction control as MySQL does it, everything else is an effect or a query.
func (s *Session) sql(text string, op, idx int) *SrvErr {
	f := strings.Fields(strings.ToUpper(strings.TrimRight(strings.TrimSpace(text), "; ")))
	first := ""
	if len(f) > 0 {
		first = f[0]
	}
	rest := strings.Join(f[min(len(f), 1):], " ")
	syntax := &SrvErr{Code: 1064, State: "42000", Msg: "You have an error in your SQL syntax"}
	switch first {
	case "START", "BEGIN":
		snap := false
		if first == "START" {
			if len(f) < 2 || f[1] != "TRANSACTION" {
				return syntax
			}
			for _, c := range strings.Split(strings.Join(f[2:], " "), ",") {
				if len(f) == 2 {
					break
				}
				switch strings.TrimSpace(c) {
				case "WITH CONSISTENT SNAPSHOT":
					snap = true
				case "READ ONLY", "READ WRITE":
				default:
					return syntax
				}
			}
		}
		if s.tx != nil {
			s.Srv.Script.Event("srv%d implicit commit of tx %d by op %d", s.ID, s.tx.ID, op)
		}
		s.commit()
		iso := s.nextIso
		if iso == "" {
			iso = s.sessIso
		}
		s.nextIso = ""
		s.begin(op, idx, iso, snap)
	case "COMMIT", "ROLLBACK":
		if first == "ROLLBACK" && strings.HasPrefix(strings.TrimPrefix(rest, "WORK "), "TO ") {
			return nil
		}
		var iso string
		if s.tx != nil {
			iso = s.tx.Iso
		}
		if first == "COMMIT" {
			s.commit()
		}
		s.tx = nil
		if strings.Contains(rest, "AND CHAIN") {
			s.begin(op, idx, iso, false)
		}
		s.release = strings.HasSuffix(rest, "RELEASE") && !strings.HasSuffix(rest, "NO RELEASE")
	case "SET":
		scope := ""
		if len(f) > 1 && (f[1] == "SESSION" || f[1] == "LOCAL" || f[1] == "GLOBAL") {
			scope = f[1]
			rest = strings.Join(f[2:], " ")
		}
		switch {
		case strings.HasPrefix(rest, "TRANSACTION ISOLATION LEVEL "):
			iso := strings.TrimPrefix(rest, "TRANSACTION ISOLATION LEVEL ")
			if !isoLevels[iso] {
				return syntax
			}
			switch scope {
			case "":
				if s.tx != nil {
					return &SrvErr{Code: 1568, State: "25001", Msg: "Transaction characteristics can't be changed while a transaction is in progress"}
				}
				s.nextIso = iso
			case "GLOBAL":
				s.Srv.globalIso = iso
			default:
				s.sessIso = iso
			}
		case strings.HasPrefix(strings.TrimPrefix(strings.TrimPrefix(rest, "@@"), "SESSION."), "AUTOCOMMIT"):
			v := strings.Trim(rest[strings.Index(rest, "AUTOCOMMIT")+10:], " =:'")
			s.noAuto = v == "0" || v == "OFF"
			if !s.noAuto {
				s.commit()
			}
		}
	default:
		s.exec(op, idx, IsEffect(text))
	}
	return nil
}

func (s *Session) failedBlock() bool { return len(s.blocks) > 0 && s.blocks[len(s.blocks)-1].failed }

// run executes one message and returns the server's error, if any, and the type of the final frame.
func (s *Session) run(n *Node, op, idx int) (*SrvErr, byte) {
	expectErr := func() *SrvErr {
		return &SrvErr{Code: 5159, State: "HY000", Msg: "Expectation failed: no_error"}
	}
	if s.failedBlock() && n.K != "open" && n.K != "close" {
		return expectErr(), 0
	}
	switch n.K {
	case "open":
		b := block{failed: s.failedBlock()}
		if n.N == 0 && len(s.blocks) > 0 {
			b.noError = s.blocks[len(s.blocks)-1].noError
		}
		var bad *SrvErr
		for _, c := range n.Kids {
			switch c.N {
			case 1:
				b.noError = c.S != "0"
			case 2:
				if !strings.HasPrefix(c.S, "1") {
					bad = &SrvErr{Code: 5168, State: "HY000", Msg: "Expectation failed: field_exists = '" + c.S + "'"}
					b.failed = true
				}
			default:
				bad = &SrvErr{Code: 5160, State: "HY000", Msg: "Unknown condition key"}
				b.failed = true
			}
		}
		if b.failed && bad == nil {
			bad = expectErr()
		}
		s.blocks = append(s.blocks, b)
		return bad, 0
	case "close":
		if len(s.blocks) == 0 {
			return &SrvErr{Code: 5158, State: "HY000", Msg: "Expect block currently not open"}, 0
		}
		failed := s.failedBlock()
		s.blocks = s.blocks[:len(s.blocks)-1]
		if failed {
			return expectErr(), 0
		}
		return nil, 0
	case "stmt":
		return s.sql(n.S, op, idx), 17
	case "prepare":
		s.prep[uint32(n.N)] = n.S
		return nil, 0
	case "execute":
		t, ok := s.prep[uint32(n.N)]
		if !ok {
			return &SrvErr{Code: 5110, State: "HY000", Msg: fmt.Sprintf("Statement with ID=%d was not prepared", n.N)}, 0
		}
		return s.sql(t, op, idx), 17
	case "dealloc":
		if _, ok := s.prep[uint32(n.N)]; !ok {
			return &SrvErr{Code: 5110, State: "HY000", Msg: fmt.Sprintf("Statement with ID=%d was not prepared", n.N)}, 0
		}
		delete(s.prep, uint32(n.N))
		return nil, 0
	case "insert", "update", "delete":
		s.exec(op, idx, true)
		return nil, 17
	case "sreset":
		s.tx = nil
		s.nextIso, s.sessIso, s.noAuto = "", s.Srv.globalIso, false
		s.prep = map[uint32]string{}
		s.blocks = nil
		return nil, 0
	}
	return &SrvErr{Fatal: true, Code: 5000, State: "HY000", Msg: "Invalid message"}, 0
}

func (s *Session) message(n *Node, derr error, op, idx int) bool {
	ev := s.Srv.Script.Event
	if derr != nil {
		ev("srv%d malformed message of op %d.%d: %v", s.ID, op, idx, derr)
		e := &SrvErr{Fatal: true, Code: 5000, State: "HY000", Msg: "Invalid message"}
		s.flush(e.Frame())
		return false
	}
	act := s.Srv.Script.OnMsg(s, n, op, idx)
	if act.Kill == 1 {
		ev("srv%d killed at op %d.%d %s", s.ID, op, idx, n.K)
		s.W.Fault("kill")
		s.Kill()
		return false
	}
	if act.Crash == 1 {
		ev("server crashes before op %d.%d %s", op, idx, n.K)
		s.Srv.Crash(func(*simnet.Wire) (int, int) { return 0, 1 << 30 })
		return false
	}
	var e *SrvErr
	var final byte
	inject := act.Err != nil && !(s.failedBlock() && n.K != "open" && n.K != "close")
	if inject {
		if (n.K == "open" || n.K == "close") && !act.Err.Fatal {
			inject = false
		}
	}
	if inject {
		e = act.Err
		if e.Code == 1213 || e.Fatal {
			s.tx = nil // deadlock: the transaction is rolled back
		}
		if n.K == "stmt" && strings.HasPrefix(n.S, "COMMIT") {
			s.tx = nil
		}
	} else {
		e, final = s.run(n, op, idx)
	}
	if act.Kill == 2 {
		ev("srv%d killed after op %d.%d %s, before answering", s.ID, op, idx, n.K)
		s.W.Fault("kill")
		s.Kill()
		return false
	}
	if act.Crash == 2 {
		ev("server crashes after op %d.%d %s, before answering", op, idx, n.K)
		s.Srv.Crash(func(*simnet.Wire) (int, int) { return 0, 1 << 30 })
		return false
	}
	if e != nil && len(s.blocks) > 0 {
		if b := &s.blocks[len(s.blocks)-1]; b.noError {
			b.failed = true
		}
	}
	var out []byte
	for _, p := range act.Pre {
		out = append(out, p...)
	}
	switch {
	case act.HasRaw:
		s.W.Fault("hostile")
		out = append(out, act.Raw...)
	case e != nil:
		out = append(out, e.Frame()...)
	case final == 0 && op%3 == 0:
		out = append(out, Frame(0, pbBytes(nil, 1, []byte("ok")))...)
	default:
		out = append(out, Frame(final, nil)...)
	}
	for _, p := range act.Post {
		out = append(out, p...)
	}
	if e != nil {
		ev("srv%d op %d.%d %s -> error %d fatal=%v", s.ID, op, idx, n.K, e.Code, e.Fatal)
	} else {
		ev("srv%d op %d.%d %s -> ok", s.ID, op, idx, n.K)
	}
	s.Replies = append(s.Replies, Reply{Op: op, Idx: idx, Err: e, Seq: s.W.Net.Seq})
	if act.Hold && !act.EndSess && !s.release && (e == nil || !e.Fatal) {
		s.held = append(s.held, out...)
		return true
	}
	if !s.flush(out) {
		return false
	}
	if e != nil && e.Fatal {
		return false
	}
	return !act.EndSess && !s.release
}

// Certificates for the simulated server, valid around the simulated epoch.
type PKI struct {
	Roots                        *x509.CertPool
	Good, OtherCA, Name, Expired tls.Certificate
}

func NewPKI() *PKI {
	seed := func(b byte) ed25519.PrivateKey {
		return ed25519.NewKeyFromSeed(bytes.Repeat([]byte{b}, 32))
	}
	ca := func(b byte, cn string) (*x509.Certificate, ed25519.PrivateKey) {
		k := seed(b)
		t := &x509.Certificate{SerialNumber: big.NewInt(int64(b)), Subject: pkix.Name{CommonName: cn},
			NotBefore: simrt.Epoch.Add(-time.Hour * 24 * 365), NotAfter: simrt.Epoch.Add(time.Hour * 24 * 3650),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		der, err := x509.CreateCertificate(nil, t, t, k.Public(), k)
		if err != nil {
			panic(err)
		}
		c, err := x509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		return c, k
	}
	leaf := func(b byte, c *x509.Certificate, ck ed25519.PrivateKey, name string, from, to time.Time) tls.Certificate {
		k := seed(b)
		t := &x509.Certificate{SerialNumber: big.NewInt(int64(b)), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name},
			NotBefore: from, NotAfter: to, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		der, err := x509.CreateCertificate(nil, t, c, k.Public(), ck)
		if err != nil {
			panic(err)
		}
		return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
	}
	c1, k1 := ca(1, "sim ca")
	c2, k2 := ca(2, "other ca")
	from, to := simrt.Epoch.Add(-time.Hour), simrt.Epoch.Add(24*3650*time.Hour)
	p := &PKI{Roots: x509.NewCertPool()}
	p.Roots.AddCert(c1)
	p.Good = leaf(3, c1, k1, "db.sim", from, to)
	p.OtherCA = leaf(4, c2, k2, "db.sim", from, to)
	p.Name = leaf(5, c1, k1, "evil.sim", from, to)
	p.Expired = leaf(6, c1, k1, "db.sim", from.Add(-time.Hour), from)
	return p
}
