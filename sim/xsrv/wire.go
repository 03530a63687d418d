// Package xsrv is the MySQL server's side of the simulation: an X Protocol decoder written from the
// protocol definition (it shares no code with the repository), authentication, sessions, expectation
// blocks, prepared statements and transactions with a durable log.
package xsrv

import (
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"time"
)

// Node is a message, expression or value in canonical form.
type Node struct {
	K    string
	S    string
	N    uint64
	Kids []*Node
	Set  bool // expected side: the "set" children may come in any order
	T    time.Time
	D    time.Duration
}

func (n *Node) String() string {
	if n == nil {
		return "<nil>"
	}
	var b strings.Builder
	n.print(&b)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func short(s string) string {
	if len(s) > 48 {
		return fmt.Sprintf("%q...(%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (n *Node) print(b *strings.Builder) {
	if b.Len() > 4000 {
		return
	}
	b.WriteString(n.K)
	switch n.K {
	case "time":
		fmt.Fprintf(b, "(%s)", n.T.Format("2006-01-02 15:04:05.999999999"))
		return
	case "dur":
		fmt.Fprintf(b, "(%s)", n.D)
		return
	}
	if n.N != 0 || n.K == "sint" || n.K == "uint" {
		if n.K == "sint" {
			fmt.Fprintf(b, " %d", int64(n.N))
		} else {
			fmt.Fprintf(b, " %d", n.N)
		}
	}
	if n.S != "" {
		b.WriteString(" " + short(n.S))
	}
	if len(n.Kids) > 0 {
		b.WriteString("(")
		for i, k := range n.Kids {
			if i > 0 {
				b.WriteString(", ")
			}
			k.print(b)
		}
		b.WriteString(")")
	}
}

type field struct {
	tag int
	wt  int
	n   uint64
	b   []byte
}

func fields(b []byte) ([]field, error) {
	var out []field
	for len(b) > 0 {
		k, n := binary.Uvarint(b)
		if n <= 0 || k>>3 == 0 || k>>3 > 1<<29 {
			return nil, errors.New("bad field key")
		}
		b = b[n:]
		f := field{tag: int(k >> 3), wt: int(k & 7)}
		switch f.wt {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return nil, errors.New("bad varint")
			}
			f.n, b = v, b[n:]
		case 1:
			if len(b) < 8 {
				return nil, errors.New("short fixed64")
			}
			f.n, b = binary.LittleEndian.Uint64(b), b[8:]
		case 2:
			v, n := binary.Uvarint(b)
			if n <= 0 || v > uint64(len(b)-n) {
				return nil, errors.New("bad length")
			}
			f.b, b = b[n:n+int(v)], b[n+int(v):]
		case 5:
			if len(b) < 4 {
				return nil, errors.New("short fixed32")
			}
			f.n, b = uint64(binary.LittleEndian.Uint32(b)), b[4:]
		default:
			return nil, fmt.Errorf("wire type %d", f.wt)
		}
		out = append(out, f)
	}
	return out, nil
}

// msg is a decoded message with strict access: every field must be consumed.
type msg struct {
	fs   []field
	used []bool
	err  error
	what string
}

func parse(what string, b []byte) *msg {
	fs, err := fields(b)
	if err != nil {
		err = fmt.Errorf("%s: %w", what, err)
	}
	return &msg{fs: fs, used: make([]bool, len(fs)), err: err, what: what}
}

func (m *msg) fail(format string, a ...any) {
	if m.err == nil {
		m.err = fmt.Errorf(m.what+": "+format, a...)
	}
}

func (m *msg) all(tag, wt int) []field {
	var out []field
	for i, f := range m.fs {
		if f.tag == tag {
			m.used[i] = true
			if f.wt != wt {
				m.fail("field %d has wire type %d", tag, f.wt)
				continue
			}
			out = append(out, f)
		}
	}
	return out
}

func (m *msg) one(tag, wt int, required bool) (field, bool) {
	l := m.all(tag, wt)
	if len(l) > 1 {
		m.fail("field %d repeated", tag)
	}
	if len(l) == 0 {
		if required {
			m.fail("field %d missing", tag)
		}
		return field{}, false
	}
	return l[0], true
}

func (m *msg) done() error {
	if m.err == nil {
		for i, f := range m.fs {
			if !m.used[i] {
				m.fail("unexpected field %d", f.tag)
			}
		}
	}
	return m.err
}

func scalar(b []byte) (*Node, error) {
	m := parse("Scalar", b)
	t, _ := m.one(1, 0, true)
	n := &Node{}
	switch t.n {
	case 1:
		f, _ := m.one(2, 0, true)
		n.K, n.N = "sint", uint64(int64(f.n>>1)^-int64(f.n&1))
	case 2:
		f, _ := m.one(3, 0, true)
		n.K, n.N = "uint", f.n
	case 3:
		n.K = "null"
	case 4:
		f, _ := m.one(5, 2, true)
		o := parse("Octets", f.b)
		v, _ := o.one(1, 2, true)
		ct, _ := o.one(2, 0, false)
		if err := o.done(); err != nil {
			m.fail("%v", err)
		}
		n.K, n.S, n.N = "octets", string(v.b), ct.n
	case 5:
		f, _ := m.one(6, 1, true)
		n.K, n.N = "double", f.n
	case 6:
		f, _ := m.one(7, 5, true)
		n.K, n.N = "float", f.n
	case 7:
		f, _ := m.one(8, 0, true)
		n.K, n.N = "bool", f.n
	case 8:
		f, _ := m.one(9, 2, true)
		o := parse("String", f.b)
		v, _ := o.one(1, 2, true)
		c, _ := o.one(2, 0, false)
		if err := o.done(); err != nil {
			m.fail("%v", err)
		}
		n.K, n.S, n.N = "string", string(v.b), c.n
	default:
		m.fail("type %d", t.n)
	}
	return n, m.done()
}

func anyNode(b []byte) (*Node, error) {
	m := parse("Any", b)
	t, _ := m.one(1, 0, true)
	if t.n != 1 {
		m.fail("type %d", t.n)
	}
	f, _ := m.one(2, 2, true)
	if m.err != nil {
		return nil, m.err
	}
	s, err := scalar(f.b)
	if err != nil {
		return nil, err
	}
	return &Node{K: "any", Kids: []*Node{s}}, m.done()
}

func expr(b []byte) (*Node, error) {
	m := parse("Expr", b)
	t, _ := m.one(1, 0, true)
	if m.err != nil {
		return nil, m.err
	}
	n := &Node{}
	kids := func(fs []field) {
		for _, f := range fs {
			k, err := expr(f.b)
			if err != nil {
				m.fail("%v", err)
				return
			}
			n.Kids = append(n.Kids, k)
		}
	}
	switch t.n {
	case 1:
		f, _ := m.one(2, 2, true)
		c := parse("ColumnIdentifier", f.b)
		s, _ := c.one(2, 2, true)
		if err := c.done(); err != nil {
			m.fail("%v", err)
		}
		n.K, n.S = "ident", string(s.b)
	case 2:
		f, _ := m.one(4, 2, true)
		s, err := scalar(f.b)
		if err != nil {
			m.fail("%v", err)
		}
		n.K, n.Kids = "lit", []*Node{s}
	case 3:
		f, _ := m.one(3, 2, true)
		n.K, n.S = "var", string(f.b)
	case 4:
		f, _ := m.one(5, 2, true)
		c := parse("FunctionCall", f.b)
		nm, _ := c.one(1, 2, true)
		i := parse("Identifier", nm.b)
		s, _ := i.one(1, 2, true)
		if err := i.done(); err != nil {
			m.fail("%v", err)
		}
		n.K, n.S = "func", string(s.b)
		kids(c.all(2, 2))
		if err := c.done(); err != nil {
			m.fail("%v", err)
		}
	case 5:
		f, _ := m.one(6, 2, true)
		c := parse("Operator", f.b)
		s, _ := c.one(1, 2, true)
		n.K, n.S = "op", string(s.b)
		kids(c.all(2, 2))
		if err := c.done(); err != nil {
			m.fail("%v", err)
		}
	case 6:
		f, _ := m.one(7, 0, true)
		n.K, n.N = "ph", f.n
	default:
		m.fail("type %d", t.n)
	}
	return n, m.done()
}

func collection(m *msg, tag int) string {
	f, _ := m.one(tag, 2, true)
	c := parse("Collection", f.b)
	s, _ := c.one(1, 2, true)
	if err := c.done(); err != nil {
		m.fail("%v", err)
	}
	return string(s.b)
}

func anys(m *msg, tag int, n *Node) {
	for _, f := range m.all(tag, 2) {
		k, err := anyNode(f.b)
		if err != nil {
			m.fail("%v", err)
			return
		}
		n.Kids = append(n.Kids, k)
	}
}

func stmtExecute(b []byte) (*Node, error) {
	m := parse("StmtExecute", b)
	s, _ := m.one(1, 2, true)
	n := &Node{K: "stmt", S: string(s.b)}
	anys(m, 2, n)
	if f, ok := m.one(3, 2, false); ok && string(f.b) != "sql" {
		m.fail("namespace %q", f.b)
	}
	if f, ok := m.one(4, 0, false); ok && f.n != 0 {
		m.fail("compact metadata")
	}
	return n, m.done()
}

func criteria(m *msg, tag int) *Node {
	f, ok := m.one(tag, 2, false)
	if !ok {
		return &Node{K: "none"}
	}
	e, err := expr(f.b)
	if err != nil {
		m.fail("criteria: %v", err)
		return &Node{K: "bad"}
	}
	return e
}

// Decode turns a client message into canonical form.
func Decode(typ byte, b []byte) (n *Node, err error) {
	switch typ {
	case 2:
		m := parse("CapabilitiesSet", b)
		f, _ := m.one(1, 2, true)
		c := parse("Capabilities", f.b)
		n = &Node{K: "capset"}
		for _, f := range c.all(1, 2) {
			x := parse("Capability", f.b)
			nm, _ := x.one(1, 2, true)
			v, _ := x.one(2, 2, true)
			if err := x.done(); err != nil {
				m.fail("%v", err)
				break
			}
			a, err := anyNode(v.b)
			if err != nil {
				m.fail("%v", err)
				break
			}
			n.Kids = append(n.Kids, &Node{K: "cap", S: string(nm.b), Kids: []*Node{a}})
		}
		if err := c.done(); err != nil {
			m.fail("%v", err)
		}
		return n, m.done()
	case 4:
		m := parse("AuthenticateStart", b)
		s, _ := m.one(1, 2, true)
		d, _ := m.one(2, 2, false)
		m.one(3, 2, false)
		return &Node{K: "authstart", S: string(s.b), Kids: []*Node{{K: "data", S: string(d.b)}}}, m.done()
	case 5:
		m := parse("AuthenticateContinue", b)
		d, _ := m.one(1, 2, true)
		return &Node{K: "authcont", S: string(d.b)}, m.done()
	case 6:
		m := parse("Reset", b)
		f, _ := m.one(1, 0, false)
		return &Node{K: "sreset", N: f.n}, m.done()
	case 12:
		return stmtExecute(b)
	case 18:
		m := parse("Insert", b)
		n = &Node{K: "insert", S: collection(m, 1)}
		if f, _ := m.one(2, 0, true); f.n != 2 {
			m.fail("data model %d", f.n)
		}
		cols := &Node{K: "cols"}
		for _, f := range m.all(3, 2) {
			c := parse("Column", f.b)
			s, _ := c.one(1, 2, true)
			if err := c.done(); err != nil {
				m.fail("%v", err)
			}
			cols.Kids = append(cols.Kids, &Node{K: "col", S: string(s.b)})
		}
		n.Kids = append(n.Kids, cols)
		for _, f := range m.all(4, 2) {
			r := parse("TypedRow", f.b)
			row := &Node{K: "row"}
			for _, f := range r.all(1, 2) {
				e, err := expr(f.b)
				if err != nil {
					r.fail("%v", err)
					break
				}
				row.Kids = append(row.Kids, e)
			}
			if err := r.done(); err != nil {
				m.fail("%v", err)
				break
			}
			n.Kids = append(n.Kids, row)
		}
		if f, ok := m.one(6, 0, false); ok && f.n != 0 {
			m.fail("upsert")
		}
		return n, m.done()
	case 19:
		m := parse("Update", b)
		n = &Node{K: "update", S: collection(m, 2)}
		if f, _ := m.one(3, 0, true); f.n != 2 {
			m.fail("data model %d", f.n)
		}
		n.Kids = append(n.Kids, criteria(m, 4))
		for _, f := range m.all(7, 2) {
			u := parse("UpdateOperation", f.b)
			src, _ := u.one(1, 2, true)
			c := parse("ColumnIdentifier", src.b)
			s, _ := c.one(2, 2, true)
			if err := c.done(); err != nil {
				u.fail("%v", err)
			}
			if o, _ := u.one(2, 0, true); o.n != 1 {
				u.fail("operation %d", o.n)
			}
			v, _ := u.one(3, 2, true)
			var e *Node
			if u.err == nil {
				var err error
				if e, err = expr(v.b); err != nil {
					u.fail("%v", err)
				}
			}
			if err := u.done(); err != nil {
				m.fail("%v", err)
				break
			}
			n.Kids = append(n.Kids, &Node{K: "set", S: string(s.b), Kids: []*Node{e}})
		}
		return n, m.done()
	case 20:
		m := parse("Delete", b)
		n = &Node{K: "delete", S: collection(m, 1)}
		if f, ok := m.one(2, 0, false); ok && f.n != 2 {
			m.fail("data model %d", f.n)
		}
		n.Kids = append(n.Kids, criteria(m, 3))
		return n, m.done()
	case 24:
		m := parse("Expect.Open", b)
		o, _ := m.one(1, 0, false)
		n = &Node{K: "open", N: o.n}
		if o.n > 1 {
			m.fail("ctx operation %d", o.n)
		}
		for _, f := range m.all(2, 2) {
			c := parse("Condition", f.b)
			k, _ := c.one(1, 0, true)
			v, _ := c.one(2, 2, false)
			if op, ok := c.one(3, 0, false); ok && op.n != 0 {
				c.fail("condition op")
			}
			if err := c.done(); err != nil {
				m.fail("%v", err)
			}
			n.Kids = append(n.Kids, &Node{K: "cond", N: k.n, S: string(v.b)})
		}
		return n, m.done()
	case 25:
		m := parse("Expect.Close", b)
		return &Node{K: "close"}, m.done()
	case 40:
		m := parse("Prepare", b)
		i, _ := m.one(1, 0, true)
		o, _ := m.one(2, 2, true)
		x := parse("OneOfMessage", o.b)
		if t, _ := x.one(1, 0, true); t.n != 5 {
			x.fail("type %d", t.n)
		}
		s, _ := x.one(6, 2, true)
		if err := x.done(); err != nil {
			m.fail("%v", err)
			return nil, m.err
		}
		se, err := stmtExecute(s.b)
		if err != nil {
			m.fail("%v", err)
			return nil, m.err
		}
		if i.n > 1<<32-1 {
			m.fail("id %d", i.n)
		}
		return &Node{K: "prepare", N: i.n, S: se.S, Kids: se.Kids}, m.done()
	case 41:
		m := parse("Execute", b)
		i, _ := m.one(1, 0, true)
		n = &Node{K: "execute", N: i.n}
		anys(m, 2, n)
		if f, ok := m.one(3, 0, false); ok && f.n != 0 {
			m.fail("compact metadata")
		}
		return n, m.done()
	case 42:
		m := parse("Deallocate", b)
		i, _ := m.one(1, 0, true)
		return &Node{K: "dealloc", N: i.n}, m.done()
	}
	return nil, fmt.Errorf("unexpected client message type %d", typ)
}

var durRE = regexp.MustCompile(`^(-?)([0-9]+):([0-5][0-9]):([0-5][0-9])(?:\.([0-9]{1,9}))?$`)

func durText(s string) (*big.Int, bool) {
	m := durRE.FindStringSubmatch(s)
	if m == nil {
		return nil, false
	}
	h, _ := new(big.Int).SetString(m[2], 10)
	x := h.Mul(h, big.NewInt(3600))
	x.Add(x, big.NewInt(int64(m[3][0]-'0')*600+int64(m[3][1]-'0')*60+int64(m[4][0]-'0')*10+int64(m[4][1]-'0')))
	x.Mul(x, big.NewInt(1e9))
	frac := (m[5] + "000000000")[:9]
	f, _ := new(big.Int).SetString(frac, 10)
	x.Add(x, f)
	if m[1] == "-" {
		x.Neg(x)
	}
	return x, true
}

// Bind carries what has to be the same at several places of one unit of work (generated variable names).
type Bind map[string]string

// Match compares an expected message with a received one; it returns "" or the first difference.
func Match(e, g *Node, b Bind) string {
	switch e.K {
	case "time":
		if g.K != "octets" || g.N != 0 {
			return fmt.Sprintf("want %v, got %v", e, g)
		}
		// the wall clock of the value, in its own location
		want := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", e.T.Year(), int(e.T.Month()), e.T.Day(), e.T.Hour(), e.T.Minute(), e.T.Second())
		got, frac, _ := strings.Cut(g.S, ".")
		if len(frac) > 9 || got != want || (frac + "000000000")[:9] != fmt.Sprintf("%09d", e.T.Nanosecond()) {
			return fmt.Sprintf("want %v, got %v", e, g)
		}
		return ""
	case "dur":
		if g.K == "octets" && g.N == 0 {
			if x, ok := durText(g.S); ok && x.Cmp(big.NewInt(int64(e.D))) == 0 {
				return ""
			}
		}
		return fmt.Sprintf("want %v, got %v", e, g)
	case "setlastid": // SET @x = LAST_INSERT_ID()
		if g.K == "stmt" && len(g.Kids) == 0 {
			if m := setID.FindStringSubmatch(g.S); m != nil {
				for _, v := range b {
					if v == m[1] {
						return fmt.Sprintf("variable %s used for two inserts", m[1])
					}
				}
				b[e.S] = m[1]
				return ""
			}
		}
		return fmt.Sprintf("want SET @variable = LAST_INSERT_ID(), got %v", g)
	case "lastid":
		if g.K == "var" && b[e.S] != "" && strings.TrimPrefix(g.S, "@") == strings.TrimPrefix(b[e.S], "@") {
			return ""
		}
		return fmt.Sprintf("want variable %s, got %v", b[e.S], g)
	}
	if e.K == "op" && g.K == "op" && e.S == "between_not" && g.S == "not_between" {
		// both spellings are accepted
	} else if e.K != g.K || e.S != g.S || e.N != g.N {
		return fmt.Sprintf("want %v, got %v", e, g)
	}
	if len(e.Kids) != len(g.Kids) {
		return fmt.Sprintf("want %v, got %v", e, g)
	}
	if e.Set {
		// kid 0 is the criteria, the others "set" in any order
		if d := Match(e.Kids[0], g.Kids[0], b); d != "" {
			return d
		}
		by := map[string]*Node{}
		for _, k := range g.Kids[1:] {
			by[k.S] = k
		}
		for _, k := range e.Kids[1:] {
			x := by[k.S]
			if x == nil {
				return fmt.Sprintf("want %v, got %v", e, g)
			}
			if d := Match(k, x, b); d != "" {
				return d
			}
		}
		return ""
	}
	for i := range e.Kids {
		if d := Match(e.Kids[i], g.Kids[i], b); d != "" {
			return d
		}
	}
	return ""
}

var setID = regexp.MustCompile(`^SET (@[A-Za-z0-9_.$]+) = LAST_INSERT_ID\(\)$`)

// SplitFrames cuts b into frames; rest is an incomplete tail.
func SplitFrames(b []byte) (types []byte, bodies [][]byte, rest []byte, err error) {
	for len(b) >= 4 {
		n := binary.LittleEndian.Uint32(b)
		if n < 1 {
			return types, bodies, b, errors.New("frame of length 0")
		}
		if uint64(len(b)) < 4+uint64(n) {
			break
		}
		types = append(types, b[4])
		bodies = append(bodies, b[5:4+n])
		b = b[4+n:]
	}
	return types, bodies, b, nil
}

// Frame builds a server message.
func Frame(typ byte, body []byte) []byte {
	b := make([]byte, 5, 5+len(body))
	binary.LittleEndian.PutUint32(b, uint32(len(body)+1))
	b[4] = typ
	return append(b, body...)
}

func pbVar(b []byte, tag int, v uint64) []byte {
	b = binary.AppendUvarint(b, uint64(tag)<<3)
	return binary.AppendUvarint(b, v)
}

func pbBytes(b []byte, tag int, v []byte) []byte {
	b = binary.AppendUvarint(b, uint64(tag)<<3|2)
	b = binary.AppendUvarint(b, uint64(len(v)))
	return append(b, v...)
}

// SrvErr is an error the server reports.
type SrvErr struct {
	Fatal bool
	Code  uint32
	State string
	Msg   string
}

func (e *SrvErr) Frame() []byte {
	var b []byte
	if e.Fatal {
		b = pbVar(b, 1, 1)
	} else if e.Code%2 == 0 {
		b = pbVar(b, 1, 0)
	}
	b = pbVar(b, 2, uint64(e.Code))
	b = pbBytes(b, 4, []byte(e.State))
	b = pbBytes(b, 3, []byte(e.Msg))
	return Frame(1, b)
}

// DecodeErr reads an Error message; ok is false if it is not one (required fields missing, malformed).
func DecodeErr(b []byte) (e SrvErr, ok bool) {
	fs, err := fields(b)
	if err != nil {
		return e, false
	}
	var c, s, m bool
	for _, f := range fs {
		switch {
		case f.tag == 1 && f.wt == 0:
			if f.n <= 1 {
				e.Fatal = f.n == 1
			}
		case f.tag == 2 && f.wt == 0:
			e.Code, c = uint32(f.n), true
		case f.tag == 3 && f.wt == 2:
			e.Msg, m = string(f.b), true
		case f.tag == 4 && f.wt == 2:
			e.State, s = string(f.b), true
		}
	}
	return e, c && s && m
}

func Hex(b []byte) string {
	if len(b) > 64 {
		return hex.EncodeToString(b[:64]) + "..."
	}
	return hex.EncodeToString(b)
}
