package world

import (
	"bytes"
	"context"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"os"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_resultset"

	"xtormsim/simnet"
	"xtormsim/simrt"
	"xtormsim/xsrv"
)

// The oracles. They judge what crosses the transport, what calls return, what the server holds, and when;
// they know nothing about how the code under test does it.

func (w *World) sess(st *wireState) *xsrv.Session { return st.w.Sess.(*xsrv.Session) }

func (w *World) poolWire(st *wireState) bool {
	o := w.op(st.w.DialOp)
	return o != nil && o.Kind == "send"
}

func (o *Op) pooled() bool { return o.Kind == "send" }
func (o *Op) sends() bool  { return o.Kind == "send" || o.Kind == "csend" }
func (o *Op) opens() bool  { return o.Kind == "send" || o.Kind == "open" }

func (w *World) begin(o *Op) {
	simrt.Hide()
	defer simrt.Unhide()
	w.net.Seq++
	o.StartSeq, o.SendSeq = w.net.Seq, w.net.Seq
	o.StartAt = time.Now()
	o.Started = true
	o.phase2 = w.phase == 2
	if o.Kind == "pclose" {
		w.closing++
		w.closesRun++
		if w.firstClose == 0 {
			w.firstClose = w.net.Seq
		}
	}
	w.active = append(w.active, o)
	w.sc.Ev("%v starts", o)
}

func (w *World) end(cp *clientPlan, o *Op) {
	simrt.Publish()
	simrt.Hide()
	defer simrt.Unhide()
	w.net.Seq++
	o.EndSeq = w.net.Seq
	o.EndAt = time.Now()
	o.Returned = true
	for i, x := range w.active {
		if x == o {
			w.active = append(w.active[:i:i], w.active[i+1:]...)
			break
		}
	}
	if o.Panic != nil {
		w.sc.Ev("%v panics: %v", o, o.Panic)
	} else {
		w.sc.Ev("%v returns %d responses, error %v", o, len(o.Resp), o.Err != nil)
	}
	if o.Kind == "pclose" {
		w.closesRun--
		if o.Panic == nil && o.Err == nil {
			w.closesNil++
			if w.closedSeq == 0 {
				w.closedSeq = o.EndSeq
			}
			if w.closesRun > 0 {
				w.probe("close returns while another runs")
			}
		}
		w.endClose(o)
	}
	w.endOp(o)
	if o.Kind == "csend" && cp.conn != nil && (o.Err != nil || o.Panic != nil) {
		c := cp.conn
		cp.conn = nil
		func() {
			defer func() {
				if r := recover(); r != nil {
					w.violate("C12", "panic", "closing the connection of %v panicked: %v", o, r)
				}
			}()
			c.Close()
		}()
	}
}

// ---- network observation ----

func (w *World) onCall(x *simnet.Wire, kind string) {
	if o := w.op(w.net.OpOf(simrt.Current())); o != nil {
		w.touch(w.ws[x.ID-1], o, kind)
	}
}

func (w *World) onIO(x *simnet.Wire, io *simnet.IO) {
	if x.ID > len(w.ws) {
		// the dial itself, before onOpen
		o := w.op(io.Op)
		if o != nil {
			o.Wires = append(o.Wires, x.ID)
		}
		return
	}
	st := w.ws[x.ID-1]
	o := w.op(io.Op)
	w.sc.Ev("op %d %s wire %d n=%d err=%v", io.Op, io.Kind, x.ID, io.N, io.Err != nil)
	if io.Kind == "close" && io.Err == nil || io.Kind == "close" && st.closed == 0 && !x.Open() {
		st.closed = io.Seq
	}
	if o != nil {
		w.touch(st, o, io.Kind)
	}
}

func (w *World) touch(st *wireState, o *Op, kind string) {
	seq := w.net.Seq
	x := st.w
	has := false
	for _, id := range o.Wires {
		has = has || id == x.ID
	}
	if !has {
		o.Wires = append(o.Wires, x.ID)
	}
	if kind == "read" {
		st.lastRead = seq
	}
	if kind != "close" {
		if o.First1 == 0 {
			o.First1 = seq
			w.checkReuse(o, st)
		}
		w.activity(o, kind)
	}
	if !w.poolWire(st) {
		return
	}
	if st.doubt != nil && kind != "close" && o != st.doubt {
		w.violate("C14", "used again", "%v (%s) uses connection %d on which %v had ended with an error", o, kind, x.ID, st.doubt)
		if st.hostile {
			w.violate("C12", "used again", "%v (%s) uses connection %d on which %v had met undecodable bytes", o, kind, x.ID, st.doubt)
		}
	}
	// somebody else is inside a transport call
	for _, id := range x.InCall {
		if id == o.ID {
			continue
		}
		a := w.op(id)
		if a == nil {
			continue
		}
		if o.Kind == "pclose" || a.Kind == "pclose" {
			w.violate("C07", "interference", "%v (%s) touches connection %d while %v is using it", o, kind, x.ID, a)
		} else {
			w.violate("C05", "overlap", "%v (%s) touches connection %d while %v is using it", o, kind, x.ID, a)
		}
	}
	n := len(st.touches)
	if n > 0 && st.touches[n-1].op == o {
		st.touches[n-1].last = seq
		return
	}
	for i := 0; i < n; i++ {
		if st.touches[i].op != o {
			continue
		}
		b := st.touches[n-1].op
		if o.Kind == "pclose" || b.Kind == "pclose" {
			if kind != "close" || b.Kind != "pclose" {
				w.violate("C07", "interference", "%v (%s) uses connection %d again after %v had taken it", o, kind, x.ID, b)
			}
		} else if kind == "close" && st.closed != 0 && st.closed < seq {
			// closing what is closed already: harmless
		} else {
			w.violate("C05", "overlap", "%v (%s) uses connection %d again after %v had taken it", o, kind, x.ID, b)
		}
		break
	}
	if n > 0 {
		w.eval("C05")
		if a := st.touches[n-1].op; !a.Returned {
			w.probe("handed over before return")
		}
	}
	st.touches = append(st.touches, touch{o, seq, seq})
}

func (w *World) activity(o *Op, what string) {
	if o.Bad && o.sends() {
		w.violate("C04", "activity", "%v: network activity (%s) for a unit of work that failed to build", o, what)
		if o.UserPan {
			w.violate("C20", "activity", "%v: network activity (%s) for a unit of work one of whose callbacks panicked", o, what)
		}
	}
	if o.pooled() && w.closedSeq > 0 && o.SendSeq > w.closedSeq {
		w.violate("C07", "use after close", "%v: network activity (%s) by a send that began after the pool was closed", o, what)
	}
}

func (w *World) checkSecure(o *Op, c netx.Conn) {
	want := w.c.Transport != "tcp"
	got := c.IsSecure()
	w.eval("C10")
	switch {
	case got && !want:
		w.violate("C10", "secure", "%v: connection without TLS over TCP reports itself secure", o)
	case !got && want:
		w.violate("C16", "secure", "%v: connection over %s reports itself insecure, PLAIN would not be tried", o, w.c.Transport)
	}
}

// checkReuse: first network activity of a send (st nil: it dials).
func (w *World) checkReuse(x *Op, st *wireState) {
	if !x.pooled() || w.firstClose > 0 || w.c.Size == 0 {
		return
	}
	for _, y := range w.p.Ops {
		if y == x || !y.Started || !y.pooled() || y.Bad || (y.Returned && y.EndSeq < x.SendSeq) {
			continue
		}
		if y.First1 == 0 || y.First1 >= x.SendSeq {
			return // may hold a connection it has not used yet
		}
	}
	var takenLast int
	if st != nil {
		if len(st.touches) == 0 {
			return
		}
		takenLast = st.touches[len(st.touches)-1].last
	}
	// a send without network activity (an empty unit of work) may have held a connection and handed it back behind the others
	silent := 0
	for _, y := range w.p.Ops {
		if y != x && y.Returned && y.pooled() && !y.Bad && y.First1 == 0 && y.EndSeq > silent {
			silent = y.EndSeq
		}
	}
	for _, i := range w.ws {
		if i == st || !w.poolWire(i) || !i.w.Open() || len(i.touches) == 0 {
			continue
		}
		own := i.touches[len(i.touches)-1].op
		if !own.Returned || own.EndSeq >= x.SendSeq || i.doubt != nil {
			continue
		}
		w.eval("C15")
		if st == nil {
			w.violate("C15", "dial", "%v dials although connection %d (last used by %v) is idle", x, i.w.ID, own)
		} else if own.EndSeq < takenLast && silent < own.EndSeq {
			w.violate("C15", "order", "%v takes connection %d although connection %d has been idle longer (since %v)", x, st.w.ID, i.w.ID, own)
		}
	}
}

// ---- while the run proceeds ----

func (w *World) invariants() {
	open, idle, sends, fresh := 0, 0, 0, 0
	var ex *wireState
	for _, st := range w.ws {
		if !st.w.Open() || !w.poolWire(st) {
			continue
		}
		open++
		last := w.op(st.w.DialOp)
		if n := len(st.touches); n > 0 {
			last = st.touches[n-1].op
		}
		if last.Returned {
			idle++
			ex = st
		}
	}
	for _, o := range w.active {
		if o.pooled() {
			sends++
			if o.First1 == 0 {
				fresh++
			}
		}
	}
	w.eval("C06")
	if open > w.c.Size+sends {
		w.violate("C06", "too many", "%d connections open with pool size %d and %d sends in flight", open, w.c.Size, sends)
	}
	if idle > w.c.Size+fresh {
		w.violate("C06", "too many idle", "%d connections idle with pool size %d (connection %d is one of them)", idle, w.c.Size, ex.w.ID)
	}
	if w.closesNil > 0 && w.closesRun == 0 {
		w.eval("C07")
		if idle > fresh {
			w.violate("C07", "open after close", "connection %d is still open and unused after the pool was closed", ex.w.ID)
		}
	}
	for _, t := range w.sc.Tasks {
		if t.Panic != nil && !t.Daemon && !t.Reported {
			t.Reported = true
			p := []string{"C12"}
			if w.closing > 0 {
				p = append(p, "C07")
			}
			for _, id := range p {
				w.violate(id, "panic", "task %s panicked: %v", t.Name, t.Panic)
			}
		}
	}
}

// quiet is called when no client task can run by itself: whoever is waiting waits for the outside.
func (w *World) quiet() {
	now := time.Now()
	for _, cp := range append(w.p.Clients[:len(w.p.Clients):len(w.p.Clients)], w.p.Epi) {
		t := cp.task
		if t == nil {
			continue
		}
		o, _ := t.Local.(*Op)
		if o == nil || o.Returned || !(o.sends() || o.Kind == "open") {
			continue
		}
		if t.St != simrt.Blocked && t.St != simrt.Native {
			continue
		}
		if o.HasDl {
			w.eval("C08")
			if !now.Before(o.Deadline) && w.goodbye(t) {
				w.probe("closing a TLS connection on a full socket")
			} else if !now.Before(o.Deadline) {
				w.violate("C08", "deadline passed", "%v still waits (%s) %s after its deadline", o, t.Why, now.Sub(o.Deadline))
			}
		}
		if o.Cancelled {
			if _, ok := t.Key.(*simnet.Dialing); ok || t.St == simrt.Native && !w.onNet(o) {
				w.violate("C08", "cancel ignored", "%v still waits (%s) although its context is cancelled", o, t.Why)
			} else {
				w.probe("KF1: cancelled, waits for network input or output")
			}
		}
		if p, ok := t.Key.(*simnet.Pipe); ok && p.Dir == "s2c" {
			s := p.Wire.Sess.(*xsrv.Session)
			if s.TLSRefused != nil && len(p.Fly) == 0 && len(p.Rcv) == 0 && s.W.DialOp == o.ID && w.p.C.Transport == "tls" && !w.ws[p.Wire.ID-1].hostile {
				w.violate("C11", "waits after refusal", "%v waits for more input after the server refused TLS", o)
			}
		}
	}
}

// goodbye: crypto/tls waits up to five seconds to say goodbye on a full socket, whatever the deadline.
func (w *World) goodbye(t *simrt.Task) bool {
	p, ok := t.Key.(*simnet.Pipe)
	return ok && w.c.Transport == "tls" && p.Dir == "c2s" && p.Wire.Client.Goodbye()
}

// onNet: some task of the call waits for network input or output.
func (w *World) onNet(o *Op) bool {
	for _, t := range w.sc.Tasks {
		if x, _ := t.Local.(*Op); x == o && t.St == simrt.Blocked {
			if _, ok := t.Key.(*simnet.Pipe); ok {
				return true
			}
		}
	}
	return false
}

// ---- when a call returns ----

func isTimeout(err error) bool {
	var ne net.Error
	return errors.Is(err, context.DeadlineExceeded) || errors.Is(err, os.ErrDeadlineExceeded) || errors.As(err, &ne) && ne.Timeout()
}

func (w *World) endClose(o *Op) {
	w.eval("C07")
	if o.Panic != nil {
		w.violate("C07", "panic", "%v panicked: %v\n%s", o, o.Panic, o.Stack)
		return
	}
	if o.Err != nil && !o.HasDl && o.Cancel == 0 && w.c.CloseErr == 0 && w.closing == 1 {
		w.violate("C07", "close fails", "%v failed: %v", o, o.Err)
	}
}

// credsOK: nothing about the configuration keeps a correct client from connecting.
func (w *World) credsOK(o *Op) bool {
	if w.c.CPass != w.c.Pass || w.c.TLSVar >= vNoName && w.c.TLSVar <= vTooOld {
		return false
	}
	for _, id := range o.Wires {
		if w.sess(w.ws[id-1]).Unavoidable && !w.sess(w.ws[id-1]).Authed {
			return false
		}
	}
	return true
}

func (o *Op) late() bool { return o.HasDl && !o.EndAt.Before(o.Deadline) }

// clean: the call met no fault, no deadline and no cancellation.
func (w *World) clean(o *Op) bool {
	if o.Bad || o.late() || o.Cancelled || o.DialFault || !w.credsOK(o) {
		return false
	}
	for _, id := range o.Wires {
		st := w.ws[id-1]
		if st.w.Faulted || st.hostile {
			return false
		}
		for _, r := range w.sess(st).Replies {
			if r.Op == o.ID && r.Err != nil && r.Idx < len(o.Msgs) && o.Msgs[r.Idx].Exp.K == "sreset" {
				return false
			}
		}
	}
	return true
}

func (w *World) endOp(o *Op) {
	if o.Kind == "pclose" || o.Kind == "cclose" {
		if o.Kind == "cclose" && o.Panic != nil {
			w.violate("C12", "panic", "%v panicked: %v", o, o.Panic)
		}
		return
	}
	hostile, authed := false, w.authed(o)
	for _, id := range o.Wires {
		hostile = hostile || w.ws[id-1].hostile
	}
	closing := w.firstClose > 0
	if o.Panic != nil {
		if o.BuildPan != nil {
			return
		}
		f := "%v panicked: %v\n%s"
		a := []any{o, o.Panic, o.Stack}
		switch {
		case o.Bad:
			w.violate("C04", "panic", f, a...)
		case closing && o.pooled():
			w.violate("C07", "panic", f, a...)
		}
		if hostile {
			w.violate("C12", "panic", f, a...)
		} else if !authed {
			w.violate("C09", "panic", f, a...)
			w.violate("C16", "panic", f, a...)
		} else if !o.Bad {
			w.violate("C03", "panic", f, a...)
		}
		return
	}
	if hostile {
		w.eval("C12")
	}
	if o.Bad {
		w.eval("C04")
		switch {
		case o.Err == nil:
			w.violate("C04", "no error", "%v: a unit of work that failed to build was sent without error (wanted %v)", o, o.First)
		case o.First != nil && !o.UserPan && !errors.Is(o.Err, o.First):
			w.violate("C04", "another error", "%v: returned %q, not the first build error %q", o, o.Err, o.First)
		case len(o.Resp) > 0:
			w.violate("C04", "responses", "%v: %d responses for a unit of work that failed to build", o, len(o.Resp))
		}
		return
	}
	if o.Err != nil && isTimeout(o.Err) && !o.Cancelled { // ending a cancelled wait by a past deadline is fine
		w.eval("C08")
		if !o.HasDl {
			w.violate("C08", "timeout without deadline", "%v timed out although its context has no deadline: %v", o, o.Err)
		} else if !o.late() {
			w.violate("C08", "timeout too early", "%v timed out %s before its deadline: %v", o, o.Deadline.Sub(o.EndAt), o.Err)
		}
	}
	w.checkClosedPool(o)
	clean := w.clean(o)
	if clean && o.Err != nil {
		closed := o.pooled() && closing
		touchedBefore := o.First1 > 0 && o.First1 < w.firstClose
		switch {
		case closed && !touchedBefore && errors.Is(o.Err, pool.ErrPoolClosed):
		case closed && touchedBefore:
			w.violate("C07", "in flight fails", "%v was in flight when the pool was closed and failed: %v", o, o.Err)
		case closed:
			w.violate("C07", "wrong error", "%v failed with %q, not with the pool-closed error", o, o.Err)
		default:
			if o.Epilogue {
				w.violate("C13", "no recovery", "%v failed after all faults had stopped, on connections %v no fault had hit: %v", o, o.Wires, o.Err)
			}
			if !authed && !hostile {
				w.violate("C16", "not authenticated", "%v failed without any fault: %v", o, o.Err)
			} else {
				w.violate("C03", "error without fault", "%v failed without any fault: %v", o, o.Err)
			}
		}
	}
	if clean {
		if o.Epilogue {
			w.eval("C13")
		}
		if o.Dialed > 0 {
			w.eval("C16")
		}
	}
	w.checkOpen(o)
	if o.sends() {
		w.checkResponses(o)
	}
	if o.pooled() {
		w.checkDoubt(o)
		if !o.Bad && o.Err == nil {
			w.checkKept(o)
		}
	}
}

// checkClosedPool: sends around and after a close.
func (w *World) checkClosedPool(o *Op) {
	if !o.pooled() || w.firstClose == 0 {
		return
	}
	w.eval("C07")
	if w.closedSeq > 0 && o.SendSeq > w.closedSeq {
		ownCtx := o.Err != nil && (o.Cancelled && errors.Is(o.Err, context.Canceled) || o.HasDl && isTimeout(o.Err))
		if !errors.Is(o.Err, pool.ErrPoolClosed) && !ownCtx {
			w.violate("C07", "send after close", "%v began after the pool was closed and returned error %v", o, o.Err)
		}
	}
	if w.closesNil > 0 && w.closesRun == 0 {
		for _, id := range o.Wires {
			if st := w.ws[id-1]; st.w.Open() && w.poolWire(st) && st.touches[len(st.touches)-1].op == o {
				w.violate("C07", "open after close", "%v returned after the pool was closed and left connection %d open", o, id)
			}
		}
	}
}

// checkOpen: the connections this call opened.
func (w *World) checkOpen(o *Op) {
	for _, id := range o.Wires {
		st := w.ws[id-1]
		x, s := st.w, w.sess(st)
		if x.DialOp != o.ID {
			continue
		}
		w.eval("C09")
		if w.c.Transport == "tls" {
			w.eval("C11")
		}
		if o.Err != nil {
			if x.Open() {
				w.violate("C09", "socket left open", "%v failed (%v) and left the socket of connection %d open", o, o.Err, id)
				if w.c.Transport == "tls" && !s.TLS {
					w.violate("C11", "socket left open", "%v failed (%v) during TLS negotiation and left the socket of connection %d open", o, o.Err, id)
				}
			}
			if !s.Authed && !st.authBad && !o.late() && !o.Cancelled && !x.S2C.Rst && !x.C2S.Rst {
				var l []xsrv.SrvErr
				l = append(l, s.AuthErrs...)
				if s.TLSRefused != nil {
					l = append(l, *s.TLSRefused)
				}
				answered := len(l) > 0 && (s.TLSRefused != nil || planOf(s).kind == -1 || planOf(s).kind <= aDenyStart || planOf(s).kind == aNotice)
				if answered && (w.c.Transport == "tls" && s.TLS || len(x.S2C.Fly)+len(x.S2C.Rcv) == 0) {
					var m *connection.MySqlXError
					ok := false
					if errors.As(o.Err, &m) {
						for _, e := range l {
							ok = ok || sameErr(m, e)
						}
					}
					if !ok {
						w.violate("C09", "rejection not reported", "%v: the server rejected with %d %q, the error returned is %q", o, l[0].Code, l[0].Msg, o.Err)
						if s.TLSRefused != nil {
							w.violate("C11", "refusal not reported", "%v: the server refused TLS with %d %q, the error returned is %q", o, l[0].Code, l[0].Msg, o.Err)
						}
					}
				}
			}
			continue
		}
		if st.badChal && !st.authBad { // damage may have made it a success message
			w.violate("C12", "challenge", "%v succeeded on connection %d although the challenge could not be decoded", o, id)
		}
		if st.badTLS && !st.authBad {
			w.violate("C12", "TLS answer", "%v succeeded on connection %d although the answer to the request for TLS could not be decoded", o, id)
			w.violate("C11", "TLS answer", "%v succeeded on connection %d although the answer to the request for TLS could not be decoded", o, id)
		}
		if st.authBad {
			continue
		}
		if !s.Authed {
			w.violate("C09", "not authenticated", "%v succeeded on connection %d, which the server has not authenticated", o, id)
			if w.c.Transport == "tls" {
				w.violate("C11", "not authenticated", "%v succeeded on connection %d, which the server has not authenticated", o, id)
			}
			continue
		}
		if v := w.c.TLSVar; w.c.Transport == "tls" && (v == vRefuses || v == vRefusesRaw || v == vTooOld || v == vNoName && !strings.HasPrefix(w.c.Addr, "db.sim:")) {
			w.violate("C11", "configuration", "%v succeeded on connection %d although the TLS configuration (variant %d) rules that out", o, id, v)
		}
		if w.c.Transport == "tls" && (!s.TLS || s.TLSAct.Cert != &pki.Good) {
			w.violate("C11", "not secured", "%v succeeded on connection %d without an acceptable TLS handshake", o, id)
		}
		if !s.Accepted && (s.User != w.c.User || s.DB != w.c.DB) {
			w.violate("C09", "another account", "%v: session of user %q database %q, configured %q %q", o, s.User, s.DB, w.c.User, w.c.DB)
			w.violate("C16", "another account", "%v: session of user %q database %q, configured %q %q", o, s.User, s.DB, w.c.User, w.c.DB)
		}
	}
}

func sameErr(m *connection.MySqlXError, e xsrv.SrvErr) bool {
	return (m.Severity == mysqlx.Error_FATAL) == e.Fatal && m.Code == e.Code && m.SqlState == e.State && m.Msg == e.Msg
}

// term is the reading of one response: success, or the server's error.
type term struct{ err *xsrv.SrvErr }

// walk reads server bytes as the protocol defines them, up to n final messages for requests of the given kinds.
func walk(b []byte, kinds []string) (l []term, rest []byte, bad string) {
	for len(l) < len(kinds) {
		if len(b) < 5 {
			return l, b, "end of stream"
		}
		n := int(binary.LittleEndian.Uint32(b))
		if n < 1 {
			return l, b, "frame of length 0"
		}
		if 4+n > len(b) {
			return l, b, "end of stream inside a frame"
		}
		typ, body := b[4], b[5:4+n]
		b = b[4+n:]
		switch typ {
		case 0, 4, 17:
			l = append(l, term{})
		case 1:
			var e mysqlx.Error
			if err := proto.Unmarshal(body, &e); err != nil {
				return l, b, "undecodable error"
			}
			se := &xsrv.SrvErr{Fatal: e.GetSeverity() == mysqlx.Error_FATAL, Code: e.GetCode(), State: e.GetSqlState(), Msg: e.GetMsg()}
			l = append(l, term{se})
			if se.Fatal {
				return l, b, "fatal error"
			}
			if kinds[len(l)-1] == "sreset" {
				return l, b, "reset rejected"
			}
		case 3:
			return l, b, "challenge outside authentication"
		case 12:
			var c mysqlx_resultset.ColumnMetaData
			if err := proto.Unmarshal(body, &c); err != nil {
				return l, b, "undecodable column metadata"
			}
		}
	}
	return l, b, ""
}

func kindsOf(o *Op) (l []string) {
	for _, m := range o.Msgs {
		l = append(l, m.Exp.K)
	}
	return
}

// reading is the reference reading of the responses to o on the connection that carried it.
func (w *World) reading(o *Op, st *wireState) (l []term, bad string, ok bool) {
	s := w.sess(st)
	if !s.Authed || st.authBad {
		return nil, "", false
	}
	b := s.Out
	if w.c.Transport != "tls" {
		if len(st.w.Read) < len(s.AuthOut) {
			return nil, "", false
		}
		b = st.w.Read[len(s.AuthOut):]
	}
	for _, t := range st.touches {
		if !t.op.sends() || t.op.Bad {
			continue
		}
		l, b, bad = walk(b, kindsOf(t.op))
		if t.op == o {
			return l, bad, true
		}
		if bad != "" {
			return nil, bad, true // never read that far
		}
	}
	if !w.poolWire(st) {
		return nil, "", false
	}
	return nil, "", false
}

// authErr: e was received while the connection was being authenticated (the open failed later on).
func (w *World) authErr(st *wireState, e *connection.MySqlXError) bool {
	// at every offset: what a hostile server says before TLS need not be whole frames
	for b := w.sess(st).AuthOut; len(b) > 0; b = b[1:] {
		if l, _, _ := walk(b, []string{""}); len(l) > 0 && l[0].err != nil && sameErr(e, *l[0].err) {
			return true
		}
	}
	return false
}

func respText(l []netx.Response) (t []string) {
	for _, r := range l {
		if e, ok := r.(*connection.MySqlXError); ok && e != nil {
			t = append(t, fmt.Sprintf("%#v", *e))
		} else {
			t = append(t, fmt.Sprint(r))
		}
	}
	return t
}

func (w *World) checkResponses(o *Op) {
	if o.Err == nil {
		o.kept = respText(o.Resp)
	}
	n := len(o.Msgs)
	for i, r := range o.Resp {
		if r == nil {
			continue
		}
		if _, ok := r.(*connection.MySqlXError); !ok && (o.Err == nil || i < len(o.Resp)-1) {
			w.violate("C03", "strange response", "%v: response %d is a %T", o, i, r)
			return
		}
	}
	if o.Err == nil {
		w.eval("C03")
		if len(o.Resp) != n {
			w.violate("C03", "count", "%v: %d messages, %d responses", o, n, len(o.Resp))
			return
		}
	} else if len(o.Resp) > n {
		w.violate("C03", "count", "%v: %d messages, %d responses", o, n, len(o.Resp))
		return
	}
	// the connection that carried it
	var st *wireState
	for _, id := range o.Wires {
		if w.sess(w.ws[id-1]).Authed || w.ws[id-1].authBad {
			st = w.ws[id-1]
		}
	}
	if st == nil {
		if o.Err == nil && n > 0 {
			w.violate("C03", "faked", "%v succeeded without a connection", o)
		}
		return
	}
	m := len(o.Resp)
	if o.Err != nil {
		m-- // the last one is that of the failed message
	}
	match := func(i int, want *xsrv.SrvErr, prop string) bool {
		r := o.Resp[i]
		if r == nil || want == nil {
			if (r == nil) != (want == nil) {
				w.violate(prop, "wrong response", "%v message %d: returned %v, the server's answer was %v", o, i, r, want)
				return false
			}
			return true
		}
		if !sameErr(r.(*connection.MySqlXError), *want) {
			w.violate(prop, "wrong response", "%v message %d: returned %v, the server's answer was %v", o, i, r, want)
			return false
		}
		return true
	}
	if st.hostile || st.w.Faulted && w.c.Transport != "tls" {
		l, bad, ok := w.reading(o, st)
		if !ok {
			return
		}
		w.probe("reference reading")
		prop := "C12"
		if !st.hostile {
			prop = "C03"
		}
		if o.Err == nil && (bad != "" || len(l) < n) {
			w.violate(prop, "faked success", "%v succeeded although the %d. response reads: %s", o, len(l)+1, bad)
			return
		}
		for i := 0; i < m; i++ {
			if i >= len(l) {
				w.violate(prop, "faked response", "%v reports %d responses, %d were received (%s)", o, m, len(l), bad)
				return
			}
			if !match(i, l[i].err, prop) {
				return
			}
		}
		var e *connection.MySqlXError
		if o.Err != nil && errors.As(o.Err, &e) {
			if (len(l) == 0 || l[len(l)-1].err == nil || !sameErr(e, *l[len(l)-1].err)) && !w.authErr(st, e) {
				w.violate(prop, "invented error", "%v returned the server error %q, which was not received", o, e)
			}
		}
		return
	}
	var reps []xsrv.Reply
	for _, r := range w.sess(st).Replies {
		if r.Op == o.ID {
			reps = append(reps, r)
		}
	}
	for i := 0; i < m; i++ {
		if i >= len(reps) {
			w.violate("C03", "faked", "%v reports %d responses, the server gave %d", o, m, len(reps))
			return
		}
		if !match(i, reps[i].Err, "C03") {
			return
		}
		if o.Err == nil && reps[i].Err != nil && reps[i].Err.Fatal {
			w.violate("C03", "fatal ignored", "%v succeeded although the server ended the session with fatal error %v", o, reps[i].Err)
		}
	}
}

// checkDoubt: what a failed unit of work leaves behind.
func (w *World) checkDoubt(o *Op) {
	doubt := o.Err != nil
	for _, r := range o.Resp {
		doubt = doubt || r != nil
	}
	if !doubt || len(o.Wires) == 0 {
		return
	}
	w.eval("C14")
	for _, id := range o.Wires {
		st := w.ws[id-1]
		if !w.sess(st).Authed && !st.authBad {
			continue
		}
		if len(st.touches) > 0 && st.touches[len(st.touches)-1].op != o && o.Err == nil {
			// already handed to somebody else
			w.violate("C14", "kept", "%v ended with a rejected message; its connection %d was handed on to %v", o, id, st.touches[len(st.touches)-1].op)
			continue
		}
		st.doubt = o
		if st.w.Open() {
			w.violate("C14", "kept", "%v ended with %v and did not close its connection %d", o, w.outcome(o), id)
			if st.hostile {
				w.violate("C12", "kept", "%v ended with %v and did not close its connection %d", o, w.outcome(o), id)
			}
		}
	}
}

func (w *World) outcome(o *Op) string {
	if o.Err != nil {
		return "error " + o.Err.Error()
	}
	return "a rejected message"
}

// checkKept: a healthy connection stays in the pool if there is room.
func (w *World) checkKept(o *Op) {
	if w.firstClose > 0 || w.c.Size == 0 || len(o.Wires) == 0 {
		return
	}
	for _, r := range o.Resp {
		if r != nil {
			return
		}
	}
	st := w.ws[o.Wires[len(o.Wires)-1]-1]
	if st.w.Faulted || st.hostile {
		return
	}
	if st.w.Open() || st.w.ClosedBy != o.ID {
		if st.w.Open() {
			w.eval("C15")
		}
		return
	}
	others := 0
	for _, i := range w.ws {
		if i != st && w.poolWire(i) && (i.w.Open() || i.w.ClosedSeq > st.lastRead) {
			others++
		}
	}
	if others < w.c.Size {
		w.violate("C15", "not kept", "%v succeeded and closed its healthy connection %d although at most %d of %d places were taken", o, st.w.ID, others, w.c.Size)
	}
}

// ---- at the end ----

// checkIdle: with no call in flight, what the library keeps running does not grow with the number of calls.
func (w *World) checkIdle() {
	open := 0
	for _, st := range w.ws {
		if st.w.Open() {
			open++
		}
	}
	w.eval("C21")
	if l := w.started(); len(l) > 3+3*open {
		w.violate("C21", "growing", "every call has returned, %d connections are open and %d goroutines of the library are still running, among them %s waiting for %q", open, len(l), l[0].Name, l[0].Why)
	}
}

// checkLeft: with every call returned and everything closed nothing is left running.
func (w *World) checkLeft() {
	if w.closesNil == 0 || w.closesRun > 0 {
		return
	}
	w.eval("C21")
	for _, t := range w.started() {
		w.violate("C21", "left running", "every call has returned, its context is done and the pool is closed, and the library's goroutine %s is still there an hour later (scheduling point %d)", t.Name, t.Site)
		break
	}
}

func (w *World) final() {
	w.invariants()
	done := w.clientsDone()
	if done && w.closing > 0 && w.closesRun == 0 {
		for _, st := range w.ws {
			if w.poolWire(st) && st.w.Open() {
				w.violate("C06", "leak", "connection %d is still open after every send has finished and the pool is closed", st.w.ID)
			}
		}
	}
	if done {
		for _, st := range w.ws {
			if o := w.op(st.w.DialOp); o.Kind == "open" && o.Err != nil && st.w.Open() {
				w.violate("C09", "socket left open", "%v failed and the socket of connection %d is still open", o, st.w.ID)
			}
		}
	}
	for _, o := range w.p.Ops {
		if !o.Returned || len(o.kept) == 0 || o.Panic != nil {
			continue
		}
		for i, s := range respText(o.Resp) {
			if s != o.kept[i] {
				w.violate("C03", "changed after return", "%v: response %d was %s when the call returned and is %s now", o, i, o.kept[i], s)
				break
			}
		}
	}
	w.checkTransmitted()
	w.checkCredentials()
	w.checkEffects()
	w.checkTransactions()
}

// checkTransmitted: C02, and what expired calls sent (C08).
func (w *World) checkTransmitted() {
	carrier := map[int]int{} // op -> session
	for _, st := range w.ws {
		s := w.sess(st)
		if st.authBad {
			continue // the client may rightly believe that it is still being authenticated
		}
		bind := map[int]xsrv.Bind{}
		for i, g := range s.Recv {
			o := w.op(g.Op)
			if o == nil || !o.sends() {
				w.violate("C02", "stray message", "session %d received a message outside any send: %v", s.ID, g.Node)
				continue
			}
			if o.HasDl && o.Dl <= 0 {
				w.violate("C08", "sent after deadline", "%v began after its deadline and transmitted message %v", o, g.Node)
			}
			if c, ok := carrier[o.ID]; ok && c != s.ID {
				w.violate("C02", "sent twice", "%v was transmitted on sessions %d and %d", o, c, s.ID)
				continue
			}
			carrier[o.ID] = s.ID
			if g.Err != nil {
				w.violate("C02", "malformed", "%v message %d: %v (want %v)", o, g.Idx, g.Err, expOf(o, g.Idx))
				continue
			}
			if g.Idx >= len(o.Msgs) {
				w.violate("C02", "extra message", "%v: %d messages built, one more received: %v", o, len(o.Msgs), g.Node)
				continue
			}
			if bind[o.ID] == nil {
				bind[o.ID] = xsrv.Bind{}
			}
			w.eval("C02")
			if d := xsrv.Match(o.Msgs[g.Idx].Exp, g.Node, bind[o.ID]); d != "" {
				w.violate("C02", "changed", "%v message %d: %s", o, g.Idx, d)
			}
			if i > 0 && s.Recv[i-1].Op != g.Op {
				if p := w.op(s.Recv[i-1].Op); p != nil && p.Err == nil && p.Returned && s.Recv[i-1].Idx != len(p.Msgs)-1 {
					w.violate("C02", "incomplete", "%v was followed on its connection before it was complete", p)
				}
			}
		}
		if s.Authed && w.c.Transport != "tls" {
			w.checkWrites(st, s, carrier)
		}
	}
	for _, o := range w.p.Ops {
		if !o.sends() || !o.Returned || o.Err != nil || o.Panic != nil || o.Bad || len(o.Msgs) == 0 {
			continue
		}
		bad := false
		for _, id := range o.Wires {
			bad = bad || w.ws[id-1].hostile || w.ws[id-1].authBad
		}
		if bad {
			continue
		}
		n := 0
		for _, id := range o.Wires {
			for _, g := range w.sess(w.ws[id-1]).Recv {
				if g.Op == o.ID {
					n++
				}
			}
		}
		if n != len(o.Msgs) {
			w.violate("C02", "incomplete", "%v succeeded: %d messages built, %d received", o, len(o.Msgs), n)
		}
	}
}

func expOf(o *Op, i int) *Node {
	if i < len(o.Msgs) {
		return o.Msgs[i].Exp
	}
	return nil
}

// checkWrites: on a connection without TLS every unit of work is exactly one write.
func (w *World) checkWrites(st *wireState, s *xsrv.Session, carrier map[int]int) {
	count := map[int]int{}
	for _, io := range st.w.Hist {
		if io.Kind != "write" || io.Off < s.AuthIn || len(io.Data) == 0 {
			continue
		}
		o := w.op(io.Op)
		if o == nil || !o.sends() || o.Bad {
			continue
		}
		if io.N > 0 && o.HasDl && o.Dl <= 0 {
			w.violate("C08", "sent after deadline", "%v began after its deadline and transmitted %d bytes", o, io.N)
		}
		if count[o.ID]++; count[o.ID] > 1 {
			w.violate("C02", "several writes", "%v made %d writes on connection %d", o, count[o.ID], st.w.ID)
			continue
		}
		if c, ok := carrier[o.ID]; ok && c != s.ID && io.N > 0 {
			w.violate("C02", "sent twice", "%v was transmitted on sessions %d and %d", o, c, s.ID)
		}
		carrier[o.ID] = s.ID
		types, bodies, rest, err := xsrv.SplitFrames(io.Data)
		if err != nil || len(rest) > 0 || len(types) != len(o.Msgs) {
			w.violate("C02", "frames", "%v: %d messages built, the write holds %d frames and %d further bytes", o, len(o.Msgs), len(types), len(rest))
			continue
		}
		bind := xsrv.Bind{}
		for i := range types {
			n, err := xsrv.Decode(types[i], bodies[i])
			if err != nil {
				w.violate("C02", "malformed", "%v message %d: %v (want %v)", o, i, err, o.Msgs[i].Exp)
				break
			}
			if d := xsrv.Match(o.Msgs[i].Exp, n, bind); d != "" {
				w.violate("C02", "changed", "%v message %d: %s", o, i, d)
				break
			}
		}
	}
}

// checkCredentials: C10, C11 and the number of PLAIN attempts (C16).
func (w *World) checkCredentials() {
	type needle struct {
		what string
		b    []byte
	}
	var needles []needle
	if w.c.Mech != "plain" {
		for _, p := range []string{w.c.Pass, w.c.CPass} {
			if len(p) < 6 {
				continue
			}
			a1 := sha1.Sum([]byte(p))
			a2 := sha1.Sum(a1[:])
			b1 := sha256.Sum256([]byte(p))
			b2 := sha256.Sum256(b1[:])
			needles = append(needles, needle{"the password", []byte(p)}, needle{"the password in hexadecimal", []byte(hex.EncodeToString([]byte(p)))})
			for _, h := range [][]byte{a1[:], a2[:], b1[:], b2[:]} {
				x := hex.EncodeToString(h)
				needles = append(needles, needle{"an unsalted hash of the password", h}, needle{"an unsalted hash of the password", []byte(x)},
					needle{"an unsalted hash of the password", []byte(strings.ToUpper(x))})
			}
		}
	}
	responses := map[string]string{}
	for _, st := range w.ws {
		x, s := st.w, w.sess(st)
		var raw []byte
		for _, io := range x.Hist {
			if io.Kind == "write" {
				raw = append(raw, io.Data[:io.N]...)
			}
		}
		if !x.Unix {
			w.eval("C10")
			for _, n := range needles {
				if bytes.Contains(raw, n.b) {
					w.violate("C10", "leak", "%v sent %s over TCP without TLS", w.op(x.DialOp), n.what)
				}
			}
			if s.Plain > 0 && !s.TLS && w.c.Mech != "plain" {
				w.violate("C10", "plain", "%v used PLAIN over TCP without TLS", w.op(x.DialOp))
			}
		}
		if w.c.Transport == "tls" {
			w.checkPlaintext(st, raw)
		}
		if want := map[string]string{"mysql41": "MYSQL41", "sha256": "SHA256_MEMORY", "plain": "PLAIN"}[w.c.Mech]; len(s.Starts) > 0 && s.Starts[0] != want {
			w.violate("C16", "mechanism", "%v authenticated with %s, configured is %s", w.op(x.DialOp), s.Starts[0], want)
		}
		limit := 1
		if w.c.Mech == "plain" {
			limit = 2
		}
		if s.Plain > limit {
			w.violate("C16", "plain again", "%v tried PLAIN %d times on one connection", w.op(x.DialOp), s.Plain)
		}
		if w.c.CPass != "" {
			for _, r := range s.Responses {
				if c, ok := responses[s.Mech+r.Response]; ok && c != r.Challenge {
					w.violate("C10", "replayable", "the same response to different challenges")
				}
				responses[s.Mech+r.Response] = r.Challenge
			}
		}
	}
}

func (w *World) checkPlaintext(st *wireState, raw []byte) {
	o := w.op(st.w.DialOp)
	if len(raw) < 4 {
		return
	}
	n := int(binary.LittleEndian.Uint32(raw))
	if 4+n > len(raw) {
		if n > 100 {
			w.violate("C11", "plaintext", "%v: does not begin with the request for TLS", o)
		}
		return
	}
	m, err := xsrv.Decode(raw[4], raw[5:4+n])
	if err != nil || m.K != "capset" || len(m.Kids) != 1 || m.Kids[0].S != "tls" {
		w.violate("C11", "plaintext", "%v: the first message without TLS is %v", o, m)
		return
	}
	b := raw[4+n:]
	for len(b) >= 5 {
		l := int(binary.BigEndian.Uint16(b[3:]))
		if b[0] < 20 || b[0] > 23 || b[1] != 3 || l > 16640 {
			w.violate("C11", "plaintext", "%v: sent more than the request for TLS in the clear: %x", o, b[:min(len(b), 40)])
			return
		}
		if 5+l > len(b) {
			break
		}
		b = b[5+l:]
	}
}

func effect(m Msg) bool {
	switch m.Exp.K {
	case "insert", "update", "delete":
		return true
	case "stmt":
		return xsrv.IsEffect(m.Exp.S)
	}
	return false
}

type opIdx struct{ op, idx int }

// checkEffects: C01.
func (w *World) checkEffects() {
	durable := map[opIdx][]int{}
	for i, e := range w.srv.Durable {
		k := opIdx{e.Op, e.Idx}
		durable[k] = append(durable[k], i)
	}
	ran := map[opIdx]bool{}
	for _, e := range w.srv.Execs {
		if e.Effect {
			ran[opIdx{e.Op, e.Idx}] = true
		}
	}
	for _, o := range w.p.Ops {
		if o.Kind != "send" || !o.Returned || o.Bad || o.Panic != nil {
			continue
		}
		hostile := false
		for _, id := range o.Wires {
			hostile = hostile || w.ws[id-1].hostile || w.ws[id-1].authBad
		}
		reported := o.Err == nil && !hostile && len(o.Resp) == len(o.Msgs)
		firstErr := len(o.Msgs)
		for _, id := range o.Wires {
			for _, r := range w.sess(w.ws[id-1]).Replies {
				if r.Op == o.ID && r.Err != nil && r.Idx < firstErr {
					firstErr = r.Idx
				}
			}
		}
		for _, t := range o.Txs {
			if t.Commit <= t.Start || t.Commit >= len(o.Msgs) {
				continue
			}
			var mem []int
			for _, i := range t.Members {
				if effect(o.Msgs[i]) || ran[opIdx{o.ID, i}] {
					mem = append(mem, i)
				}
			}
			if len(mem) == 0 || !t.Guarded && firstErr < len(o.Msgs) {
				continue
			}
			// a later transaction of the same unit of work may commit what a failed one left open
			later := false
			for _, m := range o.Msgs[t.Commit+1:] {
				later = later || m.Role == "start" || m.Role == "commit"
			}
			w.eval("C01")
			n, last := 0, -1
			for _, i := range mem {
				d := durable[opIdx{o.ID, i}]
				if len(d) > 1 {
					w.violate("C01", "twice", "%v message %d took effect %d times", o, i, len(d))
				}
				if len(d) > 0 {
					n++
					if d[0] < last {
						w.violate("C01", "order", "%v message %d took effect out of order", o, i)
					}
					last = d[0]
				}
			}
			switch {
			case reported && o.Resp[t.Commit] == nil:
				if n != len(mem) {
					w.violate("C01", "lost", "%v: the commit was reported successful, %d of %d effects are durable", o, n, len(mem))
				}
			case later:
			case reported:
				if n != 0 {
					w.violate("C01", "not rolled back", "%v: the commit was reported failed (%v), %d of %d effects are durable", o, o.Resp[t.Commit], n, len(mem))
				}
			default:
				if n != 0 && n != len(mem) {
					w.violate("C01", "partial", "%v (error %v): %d of %d effects of a transaction are durable", o, o.Err, n, len(mem))
				}
			}
		}
		if !reported {
			continue
		}
		for i, m := range o.Msgs {
			if m.Tx < 0 && effect(m) && i < firstErr && o.Resp[i] == nil {
				w.eval("C01")
				if d := durable[opIdx{o.ID, i}]; len(d) != 1 {
					w.violate("C01", "lost statement", "%v message %d outside a transaction was reported successful and is durable %d times", o, i, len(d))
				}
			}
		}
	}
}

// checkTransactions: C17.
func (w *World) checkTransactions() {
	for _, e := range w.srv.Execs {
		o := w.op(e.Op)
		if o == nil || e.Idx >= len(o.Msgs) || o.Bad {
			continue
		}
		m := o.Msgs[e.Idx]
		// a rejection that damage on the way may have hidden from the client counts for later units of work too
		ss := w.srv.Sessions[e.Sess-1]
		hidden := w.ws[ss.W.ID-1].hostile
		earlier := false
		for _, r := range ss.Replies {
			earlier = earlier || r.Op == e.Op && r.Idx < e.Idx && r.Err != nil || r.Err != nil && (hidden || o.Kind != "send")
		}
		if earlier {
			continue
		}
		if m.Tx < 0 {
			if o.Kind != "send" {
				continue
			}
			w.eval("C17")
			if e.Tx != 0 {
				w.violate("C17", "carried over", "%v message %d, built outside a transaction, ran inside a transaction of %v", o, e.Idx, w.op(e.TxOp))
			} else if e.Iso != "" {
				w.violate("C17", "level carried over", "%v message %d, built outside a transaction, ran at isolation level %s", o, e.Idx, e.Iso)
			}
			continue
		}
		w.eval("C17")
		t := o.Txs[m.Tx]
		switch {
		case e.Tx == 0 || e.TxOp != o.ID || e.TxIdx != t.Start:
			w.violate("C17", "not in its transaction", "%v message %d did not run in the transaction started for it", o, e.Idx)
		case e.Iso != t.Iso || e.Snap != t.Snap:
			w.violate("C17", "level", "%v message %d ran at isolation level %q snapshot %v, wanted %q %v", o, e.Idx, e.Iso, e.Snap, t.Iso, t.Snap)
		}
	}
}
