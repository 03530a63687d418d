package world

import (
	"strings"
	"testing/synctest"
	"time"

	"github.com/renthraysk/xtorm"

	"xtormsim/simnet"
	"xtormsim/simrt"
)

// Directed scenarios of the recorded findings (known_findings.txt): each is one fixed plan under the
// simulator, and reports through violate() whether the finding still occurs.
//
//	KF1  C08  a cancelled context without a deadline does not end a send that waits for the network
//	KF2  C13  with bounded socket buffers both ways a large pipelined unit of work and the server
//	          wait for each other for ever

// KnownOf lists the scenarios of a property.
func KnownOf(prop string) []string {
	switch prop {
	case "C08":
		return []string{"KF1"}
	case "C13":
		return []string{"KF2"}
	}
	return nil
}

func isKnown(prop string) bool { return strings.HasPrefix(prop, "KF") }

func knownPlan(id string) *Plan {
	p := &Plan{}
	p.C = Cfg{Transport: "tcp", Network: "tcp", Addr: "db.sim:33060", Mech: "mysql41", User: "u", Pass: "pw!secret", CPass: "pw!secret", Size: 1, Clients: 1,
		Kinds: make([]int, nFaults), Pre: [3]int{1, 0, 0}}
	c := &clientPlan{ID: 1}
	p.Clients = append(p.Clients, c)
	o := p.newOp(c, "send")
	n := 1
	if id == "KF2" {
		n = 2000
	} else {
		o.Cancel = 2
	}
	const text = "INSERT INTO t VALUES (1)"
	o.U = &UoW{}
	for i := 0; i < n; i++ {
		o.U.Build = append(o.U.Build, func(b *xtorm.Builder) { b.StmtExecute(text) })
		o.U.Msgs = append(o.U.Msgs, Msg{Exp: &Node{K: "stmt", S: text}, Tx: -1})
	}
	o.Msgs = o.U.Msgs
	e := &clientPlan{ID: 100}
	q := p.newOp(e, "pclose")
	q.Epilogue = true
	p.Epi = e
	return p
}

func (w *World) knownLoop(id string) {
	o := w.p.Ops[0]
	stalled := false
	for i := 0; i < capPhase1*4 && !w.clientsDone(); i++ {
		for _, x := range w.net.Wires {
			s := w.sess(w.ws[x.ID-1])
			switch {
			case id == "KF1" && len(s.Recv) > 0 && !stalled:
				x.S2C.Stalled = true // the server's answers are on their way for ever
				stalled = true
			case id == "KF2" && s.Authed:
				x.C2S.Cap, x.S2C.Cap = 2048, 2048
			}
		}
		if !w.anyReady() || !w.step() {
			break
		}
	}
	t := w.p.Clients[0].task
	_, onNet := t.Key.(*simnet.Pipe)
	switch {
	case id == "KF1" && t.St == simrt.Blocked && onNet:
		o.Cancelled = true
		o.cancel()
		synctest.Wait()
		for i := 0; i < 60 && !o.Returned; i++ {
			w.advance(time.Minute)
			for w.anyReady() && w.step() {
			}
		}
		if !o.Returned {
			w.violate("C08", "KF1", "%v, without a deadline, still waits (%s) one simulated hour after its context was cancelled", o, t.Why)
		}
	case id == "KF2" && t.St == simrt.Blocked && onNet:
		for i := 0; i < 60 && !o.Returned; i++ {
			w.advance(time.Minute)
			for w.anyReady() && w.step() {
			}
		}
		if !o.Returned {
			w.violate("C13", "KF2", "%v of %d messages waits for ever (%s): it reads no answer before everything is written, and the server, whose answers fill the socket buffers, reads no further message", o, len(o.Msgs), t.Why)
		}
	}
	for _, x := range w.net.Wires {
		x.S2C.Cap = 0
		simrt.Wake(x.S2C)
	}
	w.heal()
	w.drain()
	if w.clientsDone() {
		w.spawn(w.p.Epi)
		w.drain()
	}
}
