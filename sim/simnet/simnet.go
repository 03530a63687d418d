// Package simnet is the simulated network: the instrumented code's net.Dialer, net.TCPConn and
// net.UnixConn, and the server's end of every connection. Bytes move only when the simulator says so.
package simnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"
	"unsafe"

	"xtormsim/simrt"
)

// Pipe is one direction of a connection.
type Pipe struct {
	Wire      *Wire
	Dir       string
	Fly       []byte // sent, not delivered
	Rcv       []byte // delivered, not read
	Sent      int
	Delivered int
	Stalled   bool
	Cap       int // bytes in flight or unread a writer may leave; 0: unlimited
	Fin       bool
	FinSeen   bool // FIN delivered
	Rst       bool // reader sees a reset once Rcv is drained
}

func (p *Pipe) room() int {
	if p.Cap == 0 {
		return 1 << 40
	}
	return p.Cap - len(p.Fly) - len(p.Rcv)
}

// CanDeliver tells whether a delivery would change anything.
func (p *Pipe) CanDeliver() bool {
	if p.Stalled || p.Rst {
		return false
	}
	return len(p.Fly) > 0 || (p.Fin && !p.FinSeen)
}

// Deliver moves up to n bytes to the reader's side, then the FIN.
func (p *Pipe) Deliver(n int) {
	if n > len(p.Fly) {
		n = len(p.Fly)
	}
	reader := p.reader()
	if reader.closed {
		// nobody reads any more: the peer answers with a reset
		p.Delivered += n
		p.Fly = p.Fly[n:]
		if n > 0 {
			p.Wire.other(p).Rst = true
			simrt.Wake(p.Wire.other(p))
		}
	} else {
		p.Rcv = append(p.Rcv, p.Fly[:n]...)
		p.Delivered += n
		p.Fly = p.Fly[n:]
	}
	if len(p.Fly) == 0 && p.Fin {
		p.FinSeen = true
	}
	simrt.Wake(p)
}

func (p *Pipe) reader() *End {
	if p.Dir == "c2s" {
		return p.Wire.Server
	}
	return p.Wire.Client
}

// IO is one operation on the client's end of a wire.
type IO struct {
	Kind string // dial, read, write, deadline, close
	Op   int    // operation of the workload it was made for
	Seq  int
	At   time.Time
	N    int
	Err  error
	Data []byte // writes: everything the caller passed
	Off  int    // writes: offset in the stream
}

type Wire struct {
	ID      int
	Net     *Net
	Network string
	Unix    bool
	Addr    string
	Client  *End
	Server  *End
	C2S     *Pipe
	S2C     *Pipe
	DialOp  int
	Hist    []IO
	Faulted bool   // a fault other than delay has hit it
	Why     string // which
	Read    []byte // every byte the client has read
	ClosedBy,
	ClosedSeq int
	Sess any
	// InCall is the operation blocked in or executing a transport call on the client end.
	InCall []int
	// WStarts records where in the stream each write began.
	WStarts []WStart
}

type WStart struct{ Off, Op int }

func (w *Wire) other(p *Pipe) *Pipe {
	if p == w.C2S {
		return w.S2C
	}
	return w.C2S
}

// Open tells whether the client still holds the socket.
func (w *Wire) Open() bool { return !w.Client.closed }

func (w *Wire) Fault(why string) {
	w.Faulted = true
	if w.Why == "" {
		w.Why = why
	}
}

// Reset breaks the connection; keep bytes in flight in each direction still arrive.
func (w *Wire) Reset(keepC2S, keepS2C int) {
	w.Fault("reset")
	for _, x := range []struct {
		p *Pipe
		n int
	}{{w.C2S, keepC2S}, {w.S2C, keepS2C}} {
		if !x.p.Rst {
			x.p.Stalled = false
			x.p.Deliver(x.n)
			x.p.Fly = nil
			x.p.Rst = true
		}
		simrt.Wake(x.p)
	}
}

// Net is the simulated network of one run.
type Net struct {
	Wires   []*Wire
	Dials   []*Dialing
	Seq     int
	OnDial  func(d *Dialing)         // decides the fate of a dial attempt when made
	OnOpen  func(w *Wire)            // starts the server side
	OnIO    func(w *Wire, io *IO)    // observes client operations
	OnCall  func(w *Wire, k string)  // entry into a client operation
	ReadMax func(w *Wire, n int) int // how many of n available bytes a read returns
	// WriteFault decides whether this write breaks after n bytes (-1: no).
	WriteFault func(w *Wire, n int) int
	CloseErr   func(w *Wire) error
	DlErr      func(w *Wire) error // a future deadline cannot be set
	OpOf       func(t *simrt.Task) int
}

// N is the network of the run in progress.
var N *Net

// Dialing is a connection attempt.
type Dialing struct {
	ID       int
	Op       int
	Network  string
	Addr     string
	Ctx      context.Context
	Deadline time.Time
	State    int // 0 pending, 1 accepted, 2 refused
	Stalled  bool
	Err      error
	At       time.Time
	Seq      int
	Waiting  bool
	Wire     *Wire
}

func (n *Net) op() int {
	if t := simrt.Current(); t != nil && n.OpOf != nil {
		return n.OpOf(t)
	}
	return 0
}

func (n *Net) next() int { n.Seq++; return n.Seq }

// Dialer stands for net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) SetMultipathTCP(bool) {}
func (d *Dialer) MultipathTCP() bool   { return false }

func Dial(network, address string) (net.Conn, error) { return new(Dialer).Dial(network, address) }

func DialTimeout(network, address string, t time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: t}).Dial(network, address)
}

func DialTCP(network string, l, r *net.TCPAddr) (*TCPConn, error) {
	c, err := new(Dialer).Dial(network, r.String())
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

func DialUnix(network string, l, r *net.UnixAddr) (*UnixConn, error) {
	c, err := new(Dialer).Dial(network, r.String())
	if err != nil {
		return nil, err
	}
	return c.(*UnixConn), nil
}

type dialTimeout struct{}

func (dialTimeout) Error() string   { return "i/o timeout" }
func (dialTimeout) Timeout() bool   { return true }
func (dialTimeout) Temporary() bool { return true }
func (dialTimeout) Is(err error) bool {
	return err == context.DeadlineExceeded || err == os.ErrDeadlineExceeded
}

type dialCanceled struct{}

func (dialCanceled) Error() string     { return "operation was canceled" }
func (dialCanceled) Is(err error) bool { return err == context.Canceled }

func mapCtx(err error) error {
	switch {
	case err == context.Canceled:
		return dialCanceled{}
	case err == context.DeadlineExceeded:
		return dialTimeout{}
	}
	return err
}

type addr struct{ n, s string }

func (a addr) Network() string { return a.n }
func (a addr) String() string  { return a.s }

func (d *Dialer) DialContext(ctx context.Context, network, address string) (c net.Conn, err error) {
	simrt.Hidden(func() { c, err = d.dial(ctx, network, address) })
	if simrt.Race && ctx.Err() != nil && ctx.Done() != nil { // what was done before the context ended is done before this returns
		<-ctx.Done()
	}
	return c, err
}

func (d *Dialer) dial(ctx context.Context, network, address string) (net.Conn, error) {
	n := N
	if n == nil {
		return nil, errors.New("simnet: no network")
	}
	fail := func(err error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addr{network, address}, Err: err}
	}
	simrt.Y(0)
	dl := time.Time{}
	if x, ok := ctx.Deadline(); ok {
		dl = x
	}
	if d.Timeout > 0 {
		if x := time.Now().Add(d.Timeout); dl.IsZero() || x.Before(dl) {
			dl = x
		}
	}
	if !d.Deadline.IsZero() && (dl.IsZero() || d.Deadline.Before(dl)) {
		dl = d.Deadline
	}
	if err := ctx.Err(); err != nil {
		return fail(mapCtx(err))
	}
	if !dl.IsZero() && !time.Now().Before(dl) {
		return fail(dialTimeout{})
	}
	g := &Dialing{ID: len(n.Dials) + 1, Op: n.op(), Network: network, Addr: address, Ctx: ctx, Deadline: dl, At: time.Now(), Seq: n.next()}
	n.Dials = append(n.Dials, g)
	n.OnDial(g)
	for {
		if g.State == 1 {
			break
		}
		if g.State == 2 {
			return fail(g.Err)
		}
		if err := ctx.Err(); err != nil {
			g.State = 2
			return fail(mapCtx(err))
		}
		if !dl.IsZero() && !time.Now().Before(dl) {
			g.State = 2
			return fail(dialTimeout{})
		}
		g.Waiting = true
		simrt.Block(g, fmt.Sprintf("dial %d", g.ID))
		g.Waiting = false
	}
	w := n.newWire(network, address, g.Op)
	g.Wire = w
	w.record(IO{Kind: "dial", Op: g.Op})
	n.OnOpen(w)
	simrt.Y(0)
	if w.Unix {
		return &UnixConn{w.Client}, nil
	}
	return &TCPConn{w.Client}, nil
}

func (n *Net) newWire(network, address string, op int) *Wire {
	w := &Wire{ID: len(n.Wires) + 1, Net: n, Network: network, Addr: address, DialOp: op}
	w.Unix = len(network) >= 4 && network[:4] == "unix"
	w.C2S = &Pipe{Wire: w, Dir: "c2s"}
	w.S2C = &Pipe{Wire: w, Dir: "s2c"}
	w.Client = &End{w: w, in: w.S2C, out: w.C2S, client: true}
	w.Server = &End{w: w, in: w.C2S, out: w.S2C}
	n.Wires = append(n.Wires, w)
	return w
}

func (w *Wire) record(io IO) {
	io.Seq = w.Net.next()
	io.At = time.Now()
	w.Hist = append(w.Hist, io)
	if w.Net.OnIO != nil {
		w.Net.OnIO(w, &w.Hist[len(w.Hist)-1])
	}
}

// TCPConn and UnixConn stand for net.TCPConn and net.UnixConn.
type TCPConn struct{ *End }
type UnixConn struct{ *End }

func (c *TCPConn) SetNoDelay(bool) error                        { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                      { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error       { return nil }
func (c *TCPConn) SetKeepAliveConfig(net.KeepAliveConfig) error { return nil }
func (c *TCPConn) SetLinger(sec int) error                      { c.End.linger0 = sec == 0; return nil }
func (e *End) SetReadBuffer(int) error                          { return nil }
func (e *End) SetWriteBuffer(int) error                         { return nil }

// End is one end of a wire.
type End struct {
	w        *Wire
	in, out  *Pipe
	client   bool
	closed   bool
	linger0  bool
	rdl, wdl time.Time
	// Waiting describes a blocked call.
	RWait, WWait bool
	WLen         int  // bytes of the blocked write
	hb           byte // orders Close and SetDeadline before the return of calls they end
}

func (e *End) Wire() *Wire { return e.w }

func (e *End) Closed() bool { return e.closed }

// Goodbye tells whether a blocked write is crypto/tls's closing alert, for which it allows itself five seconds.
func (e *End) Goodbye() bool {
	return e.WWait && e.WLen <= 40 && !e.wdl.IsZero() && !e.wdl.After(time.Now().Add(5*time.Second))
}

func (e *End) oe(op string, err error) error {
	return &net.OpError{Op: op, Net: e.w.Network, Source: addr{e.w.Network, "client"}, Addr: addr{e.w.Network, e.w.Addr}, Err: err}
}

func (e *End) LocalAddr() net.Addr {
	if e.w.Unix {
		return &net.UnixAddr{Net: e.w.Network}
	}
	a := &net.TCPAddr{IP: net.IPv4(10, 0, 0, 7), Port: 40000 + e.w.ID}
	if r := e.RemoteAddr().(*net.TCPAddr); r.IP.IsLoopback() {
		a.IP = r.IP
	}
	return a
}

// RemoteAddr is of the same types as the real one; names resolve to a private address.
func (e *End) RemoteAddr() net.Addr {
	if e.w.Unix {
		return &net.UnixAddr{Net: e.w.Network, Name: e.w.Addr}
	}
	host, port, _ := net.SplitHostPort(e.w.Addr)
	a := &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1)}
	fmt.Sscan(port, &a.Port)
	if ip := net.ParseIP(host); ip != nil {
		a.IP = ip
	} else if host == "localhost" {
		a.IP = net.IPv4(127, 0, 0, 1)
	}
	return a
}

func (e *End) enter(kind string) int {
	if !e.client {
		return 0
	}
	op := e.w.Net.op()
	if e.w.Net.OnCall != nil {
		e.w.Net.OnCall(e.w, kind)
	}
	e.w.InCall = append(e.w.InCall, op)
	return op
}

func (e *End) leave(op int) {
	if e.client {
		for i, x := range e.w.InCall {
			if x == op {
				e.w.InCall = append(e.w.InCall[:i:i], e.w.InCall[i+1:]...)
				break
			}
		}
	}
}

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (e *End) Read(p []byte) (n int, err error) {
	simrt.Hidden(func() { n, err = e.read(p) })
	simrt.Acquire(unsafe.Pointer(&e.hb))
	return n, err
}

func (e *End) read(p []byte) (n int, err error) {
	if e.client {
		simrt.Enter()
	}
	if e.client {
		simrt.Y(0)
		op := e.enter("read")
		defer func() {
			e.leave(op)
			if n > 0 {
				e.w.Read = append(e.w.Read, p[:n]...)
			}
			e.w.record(IO{Kind: "read", Op: op, N: n, Err: err})
			simrt.Y(0)
		}()
	}
	for {
		if e.closed {
			return 0, e.oe("read", net.ErrClosed)
		}
		if expired(e.rdl) {
			return 0, e.oe("read", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if k := len(e.in.Rcv); k > 0 {
			if k > len(p) {
				k = len(p)
			}
			if e.client && e.w.Net.ReadMax != nil {
				k = e.w.Net.ReadMax(e.w, k)
			}
			copy(p, e.in.Rcv[:k])
			if e.client {
				simrt.WriteRange(p[:k])
			}
			e.in.Rcv = e.in.Rcv[k:]
			simrt.Wake(e.in)
			return k, nil
		}
		if e.in.Rst {
			return 0, e.oe("read", syscall.ECONNRESET)
		}
		if e.in.FinSeen {
			return 0, io.EOF
		}
		e.RWait = true
		simrt.Block(e.in, fmt.Sprintf("read %s.%d", e.in.Dir, e.w.ID))
		e.RWait = false
	}
}

func (e *End) Write(p []byte) (n int, err error) {
	simrt.Hidden(func() { n, err = e.write(p) })
	simrt.Acquire(unsafe.Pointer(&e.hb))
	return n, err
}

func (e *End) write(p []byte) (n int, err error) {
	limit := -1
	if e.client {
		simrt.Enter()
		simrt.Y(0)
		op := e.enter("write")
		off := e.out.Sent
		e.w.WStarts = append(e.w.WStarts, WStart{off, op})
		simrt.ReadRange(p)
		data := append([]byte(nil), p...)
		defer func() {
			e.leave(op)
			e.w.record(IO{Kind: "write", Op: op, N: n, Err: err, Data: data, Off: off})
			simrt.Y(0)
		}()
		if !e.closed && !expired(e.wdl) && !e.out.Rst && !e.in.Rst && e.w.Net.WriteFault != nil {
			limit = e.w.Net.WriteFault(e.w, len(p))
		}
	}
	for {
		if e.closed {
			return n, e.oe("write", net.ErrClosed)
		}
		if expired(e.wdl) {
			return n, e.oe("write", os.ErrDeadlineExceeded)
		}
		if e.out.Rst || e.in.Rst {
			return n, e.oe("write", syscall.EPIPE)
		}
		if k := e.out.room(); k > 0 || n == len(p) {
			if k > len(p)-n {
				k = len(p) - n
			}
			broke := false
			if limit >= 0 && n+k >= limit {
				k, broke = limit-n, true
			}
			e.out.Fly = append(e.out.Fly, p[n:n+k]...)
			e.out.Sent += k
			n += k
			if broke {
				e.w.Reset(len(e.out.Fly), 0)
				return n, e.oe("write", syscall.ECONNRESET)
			}
			if n == len(p) {
				return n, nil
			}
		}
		e.WWait, e.WLen = true, len(p)
		simrt.Block(e.out, fmt.Sprintf("write %s.%d", e.out.Dir, e.w.ID))
		e.WWait = false
	}
}

func (e *End) Close() (err error) {
	simrt.ReleaseMerge(unsafe.Pointer(&e.hb))
	simrt.Hidden(func() { err = e.close() })
	return err
}

func (e *End) close() error {
	if e.client {
		if leave := simrt.Enter(); leave != nil {
			defer leave()
		}
	}
	op := 0
	if e.client {
		simrt.Y(0)
		op = e.w.Net.op()
	}
	if e.closed {
		err := e.oe("close", net.ErrClosed)
		if e.client {
			e.w.record(IO{Kind: "close", Op: op, Err: err})
		}
		return err
	}
	e.closed = true
	var err error
	if e.client {
		e.w.ClosedBy, e.w.ClosedSeq = op, e.w.Net.Seq+1
		if e.w.Net.CloseErr != nil {
			err = e.w.Net.CloseErr(e.w)
		}
		e.w.record(IO{Kind: "close", Op: op, Err: err})
	}
	if e.linger0 {
		e.out.Fly = nil
		e.out.Rst = true
	} else {
		e.out.Fin = true
	}
	simrt.Wake(e.in)
	simrt.Wake(e.out)
	if e.client {
		simrt.Y(0)
	}
	return err
}

func (e *End) CloseRead() error { return nil }

func (e *End) CloseWrite() error {
	e.out.Fin = true
	simrt.Wake(e.out)
	return nil
}

func (e *End) setDeadline(r, w bool, t time.Time) (err error) {
	simrt.ReleaseMerge(unsafe.Pointer(&e.hb))
	simrt.Hidden(func() { err = e.deadline(r, w, t) })
	return err
}

func (e *End) deadline(r, w bool, t time.Time) error {
	if e.client {
		if leave := simrt.Enter(); leave != nil {
			defer leave()
		}
	}
	op := 0
	if e.client {
		simrt.Y(0)
		op = e.w.Net.op()
		if e.w.Net.OnCall != nil {
			e.w.Net.OnCall(e.w, "deadline")
		}
	}
	var err error
	if e.closed {
		err = e.oe("set", net.ErrClosed)
	} else if e.client && r && w && e.w.Net.DlErr != nil && !t.IsZero() && !expired(t) {
		if x := e.w.Net.DlErr(e.w); x != nil {
			err = e.oe("set", x)
		}
	}
	if err == nil {
		if r {
			e.rdl = t
		}
		if w {
			e.wdl = t
		}
		simrt.Wake(e.in)
		simrt.Wake(e.out)
	}
	if e.client {
		e.w.record(IO{Kind: "deadline", Op: op, Err: err})
	}
	return err
}

func (e *End) SetDeadline(t time.Time) error      { return e.setDeadline(true, true, t) }
func (e *End) SetReadDeadline(t time.Time) error  { return e.setDeadline(true, false, t) }
func (e *End) SetWriteDeadline(t time.Time) error { return e.setDeadline(false, true, t) }

// Tick wakes every call whose deadline or context has run out.
func (n *Net) Tick() {
	for _, w := range n.Wires {
		e := w.Client
		if e.RWait && expired(e.rdl) {
			simrt.Wake(e.in)
		}
		if e.WWait && expired(e.wdl) {
			simrt.Wake(e.out)
		}
	}
	for _, d := range n.Dials {
		if d.Waiting && (d.Ctx.Err() != nil || expired(d.Deadline)) {
			simrt.Wake(d)
		}
	}
}

// NextDeadline is the earliest deadline of a blocked call.
func (n *Net) NextDeadline() (t time.Time) {
	min := func(x time.Time) {
		if !x.IsZero() && x.After(time.Now()) && (t.IsZero() || x.Before(t)) {
			t = x
		}
	}
	for _, w := range n.Wires {
		if w.Client.RWait {
			min(w.Client.rdl)
		}
		if w.Client.WWait {
			min(w.Client.wdl)
		}
	}
	for _, d := range n.Dials {
		if d.Waiting {
			min(d.Deadline)
		}
	}
	return t
}
