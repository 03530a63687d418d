package world

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode/utf8"

	"xtormsim/simnet"
	"xtormsim/xsrv"
)

// The server's behaviour, decided by the schedule stream.

func (w *World) Challenge(s *xsrv.Session) []byte {
	seed := w.s.N(1 << 30)
	r := rand.New(rand.NewPCG(uint64(seed), 7))
	n := 20
	switch w.s.N(8) {
	case 6:
		n = 1 + w.s.N(64)
	case 7:
		n = w.s.N(300)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	if n > 0 && w.s.N(6) == 5 {
		b[w.s.N(n)] = 0
	}
	return b
}

const (
	aDenyFalse     = iota // access denied although the credentials are right
	aDenyBoth             // the same for the fallback
	aDenyOther            // another error
	aDenyFatal            // fatal error
	aDenyStart            // an error instead of the challenge
	aSilentStart          // no answer
	aSilentAnswer         // no answer
	aCloseStart           // end of stream
	aCloseAnswer          // end of stream
	aSecondChall          // a second challenge instead of the verdict
	aGarbageStart         // garbage
	aGarbageAnswer        // garbage
	aAcceptStart          // accepted at once
	aNotice               // notices before every answer (legitimate)
	aMalformedChal        // a challenge that is none
	nAuthKinds
)

var authNames = []string{"false access denied", "access denied twice", "rejected with another error", "rejected with a fatal error",
	"error instead of challenge", "silence instead of challenge", "silence instead of verdict", "end of stream instead of challenge",
	"end of stream instead of verdict", "second challenge", "garbage instead of challenge", "garbage instead of verdict",
	"accepted without challenge", "notices during authentication", "malformed challenge"}

func (w *World) OnAuth(s *xsrv.Session, n *Node, honest *xsrv.SrvErr) (a xsrv.AuthAct) {
	sp := planOf(s)
	if sp == nil || sp.kind < 0 || w.phase != 1 {
		return
	}
	st := w.ws[s.W.ID-1]
	start := n.K == "authstart" && n.S != "PLAIN"
	bad := func() {
		w.fault("authentication: " + authNames[sp.kind])
		s.W.Fault("auth")
	}
	deny := func(code uint32, fatal bool) *xsrv.SrvErr {
		return &xsrv.SrvErr{Fatal: fatal, Code: code, State: "HY000", Msg: w.oddText(fmt.Sprintf("rejected %d by script", sp.n))}
	}
	switch {
	case sp.kind == aDenyFalse && !start && s.AuthDenied == 0:
		w.fault("authentication: " + authNames[sp.kind])
		if !s.Secure() || n.K == "authstart" {
			s.W.Fault("auth")
		}
		a.Deny = deny(1045, false)
	case sp.kind == aDenyBoth && !start:
		bad()
		a.Deny = deny(1045, false)
	case sp.kind == aDenyOther && !start:
		bad()
		a.Deny = deny([]uint32{1251, 1130, 1049, 3118, 1820}[sp.n%5], false)
	case sp.kind == aDenyFatal && !start:
		bad()
		a.Deny = deny([]uint32{1045, 1040}[sp.n%2], true)
	case sp.kind == aDenyStart && start:
		bad()
		a.Deny = deny([]uint32{1045, 1251, 1040}[sp.n%3], sp.n%2 == 1)
	case sp.kind == aSilentStart && start, sp.kind == aSilentAnswer && !start:
		bad()
		st.noAns = true
		a.Silence = true
	case sp.kind == aCloseStart && start, sp.kind == aCloseAnswer && !start:
		bad()
		a.Close = true
	case sp.kind == aSecondChall && !start:
		bad()
		st.noAns = true
		a.HasRaw, a.Raw = true, xsrv.Frame(3, append([]byte{0x0a, 8}, "12345678"...))
	case sp.kind == aMalformedChal && !start && st.badChal && n.K == "authcont":
		a.Accept = true // whoever goes on is let in
	case sp.kind == aMalformedChal && start:
		bad()
		st.badChal = true
		st.noAns, st.hostile, st.authBad, w.anyHostile = true, true, true, true
		a.HasRaw, a.Raw = true, xsrv.Frame(3, [][]byte{nil, {0x0a, 200, 1}, {0x0a}, {0x12, 1, 'a'}, {8, 1}}[sp.n%5])
	case sp.kind == aGarbageStart && start, sp.kind == aGarbageAnswer && !start:
		bad()
		st.noAns, st.hostile, st.authBad, w.anyHostile = true, true, true, true
		a.HasRaw, a.Raw = true, w.garbage(false)
	case sp.kind == aAcceptStart && start:
		w.fault("authentication: " + authNames[sp.kind])
		a.Accept = true
	case sp.kind == aNotice:
		w.fault("authentication: " + authNames[sp.kind])
		a.Pre = w.notices()
	}
	return
}

const (
	tRefuse = iota
	tRefuseFatal
	tSilence
	tClose
	tInjectAuthOK
	tInjectGarbage
	tPlain
	tOtherCA
	tWrongName
	tExpired
	tNotice
	tMalformed
	nTLSKinds
)

var tlsNames = []string{"refused", "refused with a fatal error", "no answer", "end of stream", "plaintext answers injected after the acceptance",
	"garbage injected after the acceptance", "server goes on in plaintext", "certificate of an unknown authority", "certificate for another name",
	"expired certificate", "notice before the acceptance", "undecodable answer, then the handshake"}

func (w *World) OnTLS(s *xsrv.Session) (a xsrv.TLSAct) {
	a.Cert = &pki.Good
	sp := planOf(s)
	if sp == nil || sp.tls < 0 || w.phase != 1 {
		return
	}
	w.fault("TLS: " + tlsNames[sp.tls])
	st := w.ws[s.W.ID-1]
	if sp.tls != tNotice {
		s.W.Fault("tls")
	}
	switch sp.tls {
	case tRefuse:
		a.Refuse = &xsrv.SrvErr{Code: 5001, State: "HY000", Msg: w.oddText(fmt.Sprintf("Capability prepare failed for 'tls' %d", sp.n))}
	case tRefuseFatal:
		a.Refuse = &xsrv.SrvErr{Fatal: true, Code: 5001, State: "HY000", Msg: fmt.Sprintf("no TLS %d", sp.n)}
	case tSilence:
		a.Silence = true
		st.noAns = true
	case tClose:
		a.Close = true
	case tInjectAuthOK:
		b := xsrv.Frame(4, nil)
		if sp.n%3 == 1 {
			b = append(xsrv.Frame(3, append([]byte{0x0a, 20}, "abcdefghijklmnopqrst"...)), b...)
		}
		for i := 0; i < sp.n%4; i++ {
			b = append(b, xsrv.Frame(17, nil)...)
		}
		a.Inject = b
	case tInjectGarbage:
		a.Inject = w.garbage(false)
	case tPlain:
		a.Plain = true
		st.noAns = true
	case tOtherCA:
		a.Cert = &pki.OtherCA
	case tWrongName:
		a.Cert = &pki.Name
	case tExpired:
		a.Cert = &pki.Expired
	case tNotice:
		a.Pre = w.notices()
	case tMalformed:
		st.badTLS, st.hostile, w.anyHostile = true, true, true
		a.NoOK = true
		a.Inject = [][]byte{xsrv.Frame(1, []byte{0x0a, 200}), xsrv.Frame(1, []byte{0x10}), {0, 0, 0, 0, 0}, xsrv.Frame(1, nil)}[sp.n%4]
	}
	return
}

// Attr finds the operation a frame belongs to: the one whose write reached its end.
func (w *World) Attr(s *xsrv.Session, end int) (op, idx int) {
	var ops []int
	for _, ws := range s.W.WStarts {
		if ws.Off >= end {
			break
		}
		if ws.Op != 0 { // 0: a direct connection being closed, nothing of a unit of work
			op = ws.Op
		}
		if o := w.op(ws.Op); o != nil && o.sends() && !o.Bad && len(o.Msgs) > 0 && (len(ops) == 0 || ops[len(ops)-1] != ws.Op) {
			ops = append(ops, ws.Op)
		}
	}
	if w.c.Transport == "tls" && w.ws[s.W.ID-1].hostile && len(s.Recv) > 0 {
		// A faked answer may have let the next send begin before this one's messages were read, and the TLS
		// layer takes whole records off the wire: go on in the order of the writes.
		prev, n := s.Recv[len(s.Recv)-1].Op, 0
		for _, g := range s.Recv {
			if g.Op == prev {
				n++
			}
		}
		for i, id := range ops {
			if id != prev {
				continue
			}
			if o := w.op(id); n < len(o.Msgs) {
				op = prev
			} else if i+1 < len(ops) {
				op = ops[i+1]
			}
		}
	}
	for _, g := range s.Recv {
		if g.Op == op {
			idx++
		}
	}
	return
}

func (w *World) fill(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	return b
}

func (w *World) size() int {
	switch w.s.Weighted(4, 2, 3, 1, 1) {
	case 0:
		return w.s.N(40)
	case 1:
		return 120 + w.s.N(20)
	case 2:
		return 4080 + w.s.N(24)
	case 3:
		return 5000 + w.s.N(8000)
	}
	return 65500 + w.s.N(80)
}

func pb(tag int, v []byte) []byte {
	b := binary.AppendUvarint(nil, uint64(tag)<<3|2)
	b = binary.AppendUvarint(b, uint64(len(v)))
	return append(b, v...)
}

func (w *World) notices() (out [][]byte) {
	n := 1 + w.s.N(3)
	if w.s.N(60) == 59 {
		n = 20 + w.s.N(200)
		if w.s.N(4) == 3 {
			n = 1000 + w.s.N(2000)
		}
	}
	many := n > 3
	for ; n > 0; n-- {
		var body []byte
		if many {
			out = append(out, xsrv.Frame(11, w.fill(n&15)))
			continue
		}
		switch w.s.N(4) {
		case 0:
			body = nil
		case 1:
			body = append([]byte{8, 3, 16, 2}, pb(3, w.fill(w.s.N(60)))...)
		case 2:
			body = append([]byte{8, 1, 16, 1}, pb(3, w.fill(w.size()))...)
		case 3:
			body = w.fill(w.size())
		}
		out = append(out, xsrv.Frame(11, body))
	}
	return
}

func (w *World) resultset() (out [][]byte) {
	for i := 1 + w.s.N(3); i > 0; i-- {
		b := []byte{8, byte(1 + w.s.N(2))}
		b = append(b, pb(2, w.fill(w.s.N(30)))...)
		if w.s.N(4) == 3 {
			b = append(b, pb(4, w.fill(w.size()))...)
		}
		out = append(out, xsrv.Frame(12, b))
	}
	rows := w.s.N(4)
	if w.s.N(40) == 39 { // many rows, or one that spans megabytes
		if w.s.N(4) < 3 {
			n := 20 + w.s.N(400)
			if w.s.N(4) == 3 {
				n = 1000 + w.s.N(3000)
			}
			for i := n; i > 0; i-- {
				out = append(out, xsrv.Frame(13, pb(1, w.fill(i&63))))
			}
		} else if !w.bigRow {
			w.bigRow = true
			out = append(out, xsrv.Frame(13, pb(1, w.fill([]int{1 << 20, 1 << 22, 1<<24 - 10, 1<<24 + 10}[w.s.N(4)]))))
		}
	}
	for i := rows; i > 0; i-- {
		out = append(out, xsrv.Frame(13, pb(1, w.fill(w.size()))))
	}
	if w.s.N(5) == 4 {
		out = append(out, xsrv.Frame(16, nil))
		out = append(out, xsrv.Frame(12, []byte{8, 7}))
	}
	if w.s.N(12) == 11 { // out parameters of a procedure
		out = append(out, xsrv.Frame(18, nil), xsrv.Frame(12, []byte{8, 1}), xsrv.Frame(13, pb(1, []byte{4})))
	}
	return append(out, xsrv.Frame(14, nil))
}

// garbage is what no server should send; success tells whether success frames may be part of it.
func (w *World) garbage(success bool) []byte {
	w.probe("garbage frame")
	k := w.s.N(17)
	switch k {
	case 16: // claims a length nobody will ever send
		b := binary.LittleEndian.AppendUint32(nil, uint32(256<<20+w.s.N(768<<20)))
		return append(append(b, []byte{0, 1, 11, 12, 13, 17}[w.s.N(6)]), w.fill(w.s.N(60))...)
	case 0:
		return []byte{0, 0, 0, 0, 0} // length zero
	case 1:
		return []byte{0, 0, 0, 0, 17, 1, 0, 0, 0, 17}
	case 2: // error without code and text
		return xsrv.Frame(1, nil)
	case 3:
		return xsrv.Frame(1, []byte{16, 255})
	case 4:
		return xsrv.Frame(1, []byte{8, 1, 16, 20, 26, 200, 1, 'a'})
	case 5:
		return xsrv.Frame(12, []byte{18, 250, 1})
	case 6:
		return xsrv.Frame(12, nil) // no type
	case 7:
		return xsrv.Frame(3, []byte{10, 2, 'a', 'b'})
	case 8:
		return xsrv.Frame(byte(20+w.s.N(230)), w.fill(w.s.N(50)))
	case 9:
		return append(xsrv.Frame(byte(5+w.s.N(6)), w.fill(w.s.N(50))), xsrv.Frame(14, nil)...)
	case 10: // cut off
		f := (&xsrv.SrvErr{Code: 1064, State: "42000", Msg: "syntax"}).Frame()
		return f[:w.s.N(len(f))]
	case 11:
		return xsrv.Frame(2, w.fill(w.s.N(20)))
	case 12:
		b := w.fill(5 + w.s.N(40))
		b[2], b[3] = 0, 0
		return b
	case 13:
		if success {
			return append(xsrv.Frame(17, nil), xsrv.Frame(0, nil)...)
		}
		return xsrv.Frame(15, nil)
	case 14:
		return xsrv.Frame(14, nil)
	}
	if success {
		return xsrv.Frame(4, nil)
	}
	return xsrv.Frame(18, w.fill(w.s.N(30)))
}

var errCodes = []struct {
	code  uint32
	state string
}{{1062, "23000"}, {1146, "42S02"}, {1213, "40001"}, {1205, "HY000"}, {1064, "42000"}, {3140, "22032"}, {5115, "HY000"}, {1290, "HY000"}, {1317, "70100"}, {1317, "70100"}, {2006, "HY000"}, {1053, "08S01"}, {0, "HY000"}, {4294967295, "HY000"}}

// oddText puts an oddity (a valid one: error texts are UTF-8) in front of or behind an error text.
func (w *World) oddText(msg string) string {
	switch k := w.s.N(8); k {
	case 6, 7:
		x := oddities[w.s.N(len(oddities))]
		switch {
		case !utf8.ValidString(x):
		case k == 6:
			return x + msg
		default:
			return msg + x
		}
	}
	return msg
}

func (w *World) state(s string) string {
	if w.s.N(8) == 7 {
		return []string{"45000", "ab1cd", "", "00000", "0100C"}[w.s.N(5)] // SIGNAL knows few limits
	}
	return s
}

func (w *World) OnMsg(s *xsrv.Session, n *Node, op, idx int) (a xsrv.Action) {
	c := w.c
	if c.Extra > 0 && w.s.Per1000(c.Extra) {
		w.probe("extra frames")
		switch w.s.N(4) {
		case 0, 1:
			a.Pre = w.notices()
		case 2:
			a.Pre = w.resultset()
		case 3:
			a.Post = w.notices()
		}
	}
	if w.phase != 1 {
		return
	}
	if n.K != "sreset" && c.MsgErr > 0 && w.s.Per1000(c.MsgErr) || n.K == "stmt" && n.S == "COMMIT" && c.CommitErr > 0 && w.s.Per1000(c.CommitErr) {
		e := errCodes[w.s.N(len(errCodes))]
		msg := fmt.Sprintf("error of op %d message %d", op, idx)
		switch w.s.N(6) {
		case 4:
			msg = ""
		case 5:
			msg += strings.Repeat("x", w.size())
		}
		a.Err = &xsrv.SrvErr{Code: e.code, State: w.state(e.state), Msg: w.oddText(msg)}
		w.fault("server rejects a message")
		if len(a.Pre) > 1 && w.s.N(3) == 2 { // in the middle of a result set
			a.Pre = a.Pre[:1+w.s.N(len(a.Pre)-1)]
		}
	}
	if c.MsgFatal > 0 && w.s.Per1000(c.MsgFatal) {
		e := errCodes[w.s.N(len(errCodes))]
		a.Err = &xsrv.SrvErr{Fatal: true, Code: e.code, State: w.state(e.state), Msg: w.oddText(fmt.Sprintf("fatal error of op %d message %d", op, idx))}
		w.fault("fatal error")
		s.W.Fault("fatal")
	}
	if c.MsgKill > 0 && w.s.Per1000(c.MsgKill) {
		a.Kill = 1 + w.s.N(2)
		w.fault([]string{"", "session killed inside a unit of work", "session killed after executing a message"}[a.Kill])
	}
	if c.Hold > 0 {
		// answers stay in the server's own output buffer until it has nothing more to do
		if o := w.op(op); o != nil && idx < len(o.Msgs)-1 && w.s.Per1000(c.Hold) {
			a.Hold = true
			w.probe("answers held back")
		}
	}
	if c.MsgCrash > 0 && w.s.Per1000(c.MsgCrash) {
		a.Crash = 1 + w.s.N(2)
		w.down = 1 + w.s.N(60)
		w.fault([]string{"", "server crash before a message", "server crash after a message"}[a.Crash])
	}
	if c.MsgEnd > 0 && w.s.Per1000(c.MsgEnd) {
		a.EndSess = true
		w.fault("session ended after an answer")
		s.W.Fault("end")
	}
	if c.Hostile > 0 && w.s.Per1000(c.Hostile) {
		w.fault("hostile frames")
		w.ws[s.W.ID-1].hostile, w.anyHostile = true, true
		w.ws[s.W.ID-1].noAns = true
		last := false
		if o := w.op(op); o != nil {
			last = idx >= len(o.Msgs)-1
		}
		a.HasRaw = true
		a.Raw = w.garbage(!last)
		if w.s.N(2) == 1 {
			// followed by an honest answer
			a.Raw = append(a.Raw, xsrv.Frame(17, nil)...)
		}
		if w.s.N(3) == 2 {
			a.EndSess = true
		}
		if last {
			a.EndSess = true
		}
	}
	return
}

var _ xsrv.Script = (*World)(nil)
var _ = simnet.N
