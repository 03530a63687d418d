// Package world is the simulated deployment: client tasks running the repository's code, the server,
// the network and its faults, and the oracles of every property.
package world

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/xproto"

	"xtormsim/simrt"
	"xtormsim/xsrv"
)

type Node = xsrv.Node

// Msg is one message of a unit of work, as the server must get it.
type Msg struct {
	Exp  *Node
	Tx   int    // index into UoW.Txs, -1 outside
	Role string // set, start, commit or ""
}

type TxInfo struct {
	Start, Commit int
	Members       []int
	Guarded       bool
	Iso           string
	Snap          bool
}

// UoW is a generated unit of work: how to build it with the repository's API, and what it must become.
type UoW struct {
	Build []func(b *xtorm.Builder)
	Raw   func() []byte // built with package xproto directly
	Msgs  []Msg
	Txs   []TxInfo
	Bad   bool  // building it must fail
	First error // the first error, if it is one of ours
	Kinds map[string]bool
	After []func() // run after building, before sending (mutates arguments)
	Desc  []string

	X        *xtorm.XPipe // the builder, its sender and who is told about misuse, set while building
	Sender   netx.Sender
	OnMisuse func(what string, refused bool)
	MayPanic bool // a callback may panic
	Misused  bool
}

// userPanic is what a callback of the workload panics with.
type userPanic struct{}

var misCalls = []struct {
	name string
	f    func(b *xtorm.Builder)
}{
	{"StmtExecute", func(b *xtorm.Builder) { b.StmtExecute("INSERT INTO t VALUES (99)") }},
	{"Prepare", func(b *xtorm.Builder) { b.Prepare(77, "SELECT 99") }},
	{"Execute", func(b *xtorm.Builder) { b.Execute(77, 1) }},
	{"Deallocate", func(b *xtorm.Builder) { b.Deallocate(77) }},
	{"Insert", func(b *xtorm.Builder) { b.Insert("tt", []string{"a"}, [][]any{{1}}) }},
	{"InsertRow", func(b *xtorm.Builder) { b.InsertRow("tt", []string{"a"}, []any{1}) }},
	{"InsertF", func(b *xtorm.Builder) { b.InsertF("tt", []string{"a"}, func(*xtorm.Insert) error { return nil }) }},
	{"Update", func(b *xtorm.Builder) { b.Update("tt", nil, map[string]any{"a": 1}) }},
	{"UpdateF", func(b *xtorm.Builder) { b.UpdateF("tt", nil, func(*xtorm.Update) error { return nil }) }},
	{"Delete", func(b *xtorm.Builder) { b.Delete("tt", nil) }},
	{"Tx", func(b *xtorm.Builder) { b.Tx(0, func(*xtorm.Builder) error { return nil }) }},
	{"ExpectFailOnError", func(b *xtorm.Builder) {
		b.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(*xtorm.Builder) error { return nil })
	}},
}

func refused(f func()) (ok bool) {
	defer func() { ok = recover() != nil }()
	f()
	return
}

// misuse decides where in a callback of n steps the enclosing builder is used or the callback panics.
func (g *gen) misuse(n int) func(pos int, outer *xtorm.Builder) {
	if g.mis == 0 || !g.s.Per1000(g.mis) {
		return func(int, *xtorm.Builder) {}
	}
	at, k := g.s.N(n+1), g.s.N(len(misCalls)+4)
	panics, top := g.s.N(4) == 3, g.s.N(2) == 1
	if panics {
		g.u.MayPanic = true
		g.fail(nil)
	}
	u := g.u
	return func(pos int, outer *xtorm.Builder) {
		if pos != at {
			return
		}
		if panics {
			panic(userPanic{})
		}
		if top {
			outer = &u.X.Builder
		}
		name, f := "Send", func() { u.X.Send(context.Background(), u.Sender) }
		switch {
		case k < len(misCalls):
			name, f = misCalls[k].name, func() { misCalls[k].f(outer) }
		case k%2 == 1:
			name, f = "Reset", func() { u.X.Reset() }
		}
		u.Misused = true
		u.OnMisuse(name, refused(f))
	}
}

type sentinel struct{ n int }

func (s *sentinel) Error() string { return fmt.Sprintf("build error %d", s.n) }

type gen struct {
	s      *simrt.Stream
	u      *UoW
	seq    int
	guard  int
	tx     int
	wide   bool // dozens of elements and levels
	depth  int
	mis    int   // chance in 1000 of misuse per callback
	bad    int   // chance in 1000 of a step that fails to build
	huge   *bool // whether the run has a value of 16 MB
	big    int   // chance in 1000 of a big value
	left   int   // statements left
	shared []exprGen
	vars   []varRef
	sentN  *int
	bytes  []byte // what the workload passes lies side by side in these: nobody may write behind what he was given
	anys   []any
	names  []string
	rawOK  bool
}

type varRef struct {
	key string
	get func() xproto.AppendExprFunc
}

type exprGen struct {
	v any
	n *Node
}

// badv marks a value that cannot be encoded.
type badv struct {
	v   any
	err error // expected error, nil: any
}

// after runs f in some units of work once they are built: the caller may do with its own data what it likes.
func (g *gen) after(f func()) {
	if g.s.N(3) == 0 {
		g.u.After = append(g.u.After, f)
	}
}

func (g *gen) ownBytes(s string) []byte {
	if cap(g.bytes)-len(g.bytes) < len(s) || g.bytes == nil {
		g.bytes = make([]byte, 0, len(s)+600)
	}
	n := len(g.bytes)
	g.bytes = append(g.bytes, s...)
	v := g.bytes[n:]
	g.after(func() {
		for i := range v {
			v[i] ^= 0xff
		}
	})
	return v
}

func (g *gen) own(vs []any) []any {
	if len(vs) == 0 {
		return vs
	}
	if cap(g.anys)-len(g.anys) < len(vs) {
		g.anys = make([]any, 0, len(vs)+30)
	}
	n := len(g.anys)
	g.anys = append(g.anys, vs...)
	v := g.anys[n:]
	g.after(func() {
		for i := range v {
			v[i] = "not this"
		}
	})
	return v
}

func (g *gen) ownNames(vs []string) []string {
	if len(vs) == 0 {
		return vs
	}
	if cap(g.names)-len(g.names) < len(vs) {
		g.names = make([]string, 0, len(vs)+20)
	}
	n := len(g.names)
	g.names = append(g.names, vs...)
	v := g.names[n:]
	g.after(func() {
		for i := range v {
			v[i] = "not this"
		}
	})
	return v
}

func (g *gen) fail(err error) {
	if !g.u.Bad {
		g.u.Bad = true
		g.u.First = err
	}
}

func (g *gen) sentinel() error {
	*g.sentN++
	return &sentinel{*g.sentN}
}

func (g *gen) length() int {
	switch g.s.Weighted(400, 300, 200, 60, 20) {
	case 0:
		return g.s.N(9)
	case 1:
		return g.s.N(60)
	case 2:
		return 100 + g.s.N(40)
	case 3:
		return 250 + g.s.N(12)
	}
	if g.big > 0 && g.s.Per1000(g.big) {
		switch g.s.Weighted(1000, 1000, 400, 98, 2) {
		case 0:
			return 16360 + g.s.N(40)
		case 1:
			return 4070 + g.s.N(40)
		case 2:
			return 65520 + g.s.N(40)
		case 3:
			return 1<<(17+g.s.N(5)) - 20 + g.s.N(40)
		default: // once per run
			if g.huge != nil && !*g.huge {
				*g.huge = true
				return 1<<24 - 40 + g.s.N(80)
			}
			return 1<<21 - 20 + g.s.N(40)
		}
	}
	return 16370 + g.s.N(30)
}

const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$. '\"`%\\;-"

func (g *gen) text(n int, bin bool) string {
	if n == 0 {
		return ""
	}
	var b strings.Builder
	seed := g.s.N(1 << 16)
	g.seq++
	x := uint32(seed)*2654435761 + 12345
	for i := 0; i < n; i++ {
		x = x*1664525 + 1013904223
		c := byte(x >> 24)
		if !bin {
			c = alphabet[int(c)%len(alphabet)]
		}
		b.WriteByte(c)
	}
	return b.String()
}

// oddities are texts that well-meaning code is tempted to trim, quote, fold, split or repair.
var oddities = []string{" ", "\x00", "\xff", "\xc3", "\xed\xa0\x80", "\ufeff", "\u00e9", "e\u0301", "\u6f22\u5b57", "\U0001f600",
	"\u017f", "\u0130", "\n", "\r\n", "\t", ";", "`", "``", "'", "''", "\"", "\\", "\\0", "%", "%s", "%d", "%!", "_", "?", "$1", ":a", "@", "@@",
	"#", "--", "-- ", "/*", "*/", ".", "..", "*", "(", ")", ",", "=", "NULL", "null", "DEFAULT", "true", "0", "-1", "+1", "1e9", "0x1F",
	"2006-01-02", "{}", "[]", "{{", "<a/>", "&amp;", "\u2028", "\x7f", "\x1a", "\b", "A", "a", "db.t", "t.c", "$.a", "${a}"}

// odd generates a text with one or more of the oddities in it.
func (g *gen) odd() string {
	o := func() string { return oddities[g.s.N(len(oddities))] }
	t := func() string { return g.text(1+g.s.N(5), false) }
	switch g.s.N(6) {
	case 0:
		return o()
	case 1:
		return o() + t()
	case 2:
		return t() + o()
	case 3:
		return t() + o() + t()
	case 4:
		x := o()
		return x + t() + x
	}
	return o() + o() + t() + o()
}

// str generates a string value.
func (g *gen) str() string {
	switch g.s.Weighted(6, 1, 3) {
	case 1:
		return g.text(g.length(), true)
	case 2:
		return g.odd()
	}
	return g.text(g.length(), false)
}

func (g *gen) ident(prefix string) string {
	switch g.s.Weighted(42, 3, 2, 1, 2) {
	case 1:
		return g.odd() + prefix
	case 2:
		return prefix + g.odd()
	case 3:
		return ""
	case 4: // as if quoted
		q := []string{"``", "\"\"", "''", "[]", "()", "{}", "  ", "%%", "$$", "\\\\", "..", "<>"}[g.s.N(12)]
		return q[:1] + prefix + g.text(g.s.N(4), false) + q[1:]
	}
	n := 0
	switch g.s.Weighted(700, 200, 60, 40) {
	case 0:
		n = g.s.N(6)
	case 1:
		n = g.s.N(30)
	case 2:
		n = 118 + g.s.N(12)
	case 3:
		n = 128 + g.s.N(140)
	}
	return prefix + strings.Map(func(r rune) rune {
		if r == '\'' || r == ';' {
			return 'q'
		}
		return r
	}, g.text(n, false))
}

func (g *gen) i64() int64 {
	switch g.s.Weighted(3, 3, 2, 2) {
	case 0:
		return int64(g.s.N(200)) - 100
	case 1:
		k := g.s.N(64)
		d := int64(g.s.N(3)) - 1
		v := int64(uint64(1)<<uint(k)) + d
		if g.s.N(2) == 1 {
			return -v
		}
		return v
	case 2:
		return []int64{math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, math.MinInt16, math.MaxInt16, -128, 127, -1, 0}[g.s.N(10)]
	}
	return int64(g.s.U64())
}

func (g *gen) u64() uint64 {
	switch g.s.Weighted(3, 3, 2) {
	case 0:
		return uint64(g.s.N(300))
	case 1:
		return uint64(1)<<uint(g.s.N(64)) - uint64(g.s.N(2))
	}
	return g.s.U64()
}

func (g *gen) f64() float64 {
	switch g.s.N(4) {
	case 0:
		return float64(g.s.N(1000)) / 8
	case 1:
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64}[g.s.N(7)]
	}
	return math.Float64frombits(g.s.U64())
}

func lit(n *Node) *Node  { return &Node{K: "lit", Kids: []*Node{n}} }
func anyN(n *Node) *Node { return &Node{K: "any", Kids: []*Node{n}} }

func (g *gen) dur() time.Duration {
	switch g.s.Weighted(3, 3, 2, 1) {
	case 0:
		return time.Duration(g.s.N(200000)) * time.Second
	case 1:
		return time.Duration(g.i64())
	case 2:
		return time.Duration(g.s.N(1<<30))*time.Microsecond - time.Hour
	}
	return []time.Duration{math.MinInt64, math.MaxInt64, -1, 1, -time.Second + 1, time.Hour*838 + 59*time.Minute + 59*time.Second}[g.s.N(6)]
}

var locs = []*time.Location{time.UTC, time.FixedZone("plus", 5*3600+1800), time.FixedZone("minus", -11*3600)}

func (g *gen) time() time.Time {
	l := locs[g.s.N(3)]
	y := 1990 + g.s.N(60)
	if g.s.N(5) == 0 {
		y = 2 + g.s.N(9990)
	}
	ns := 0
	switch g.s.N(4) {
	case 1:
		ns = g.s.N(1000) * 1000000
	case 2:
		ns = g.s.N(1000000000)
	case 3:
		ns = []int{1, 999999999, 999, 1000, 100000000}[g.s.N(5)]
	}
	return time.Date(y, time.Month(1+g.s.N(12)), 1+g.s.N(31), g.s.N(24), g.s.N(60), g.s.N(60), ns, l)
}

// myInt has no encoding, nor have the other types in badValue.
type myInt int

type encAny struct {
	s   string
	err error
	how int
}

func (e encAny) AppendAny(p []byte, tag uint8) ([]byte, error) {
	if e.err != nil {
		return failEnc(p, e.how, e.err)
	}
	return xproto.AppendAnyString(p, tag, e.s, 0), nil
}

func (e encAny) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	if e.err != nil {
		return failEnc(p, e.how, e.err)
	}
	return xproto.AppendExprString(p, tag, e.s, 0), nil
}

func failEnc(p []byte, how int, err error) ([]byte, error) {
	switch how {
	case 0:
		return p, err
	case 1:
		return nil, err
	case 2:
		return append(p, 0xde, 0xad, 0xbe, 0xef, 0xff), err
	case 3:
		return p[:len(p)/2], err
	}
	return []byte{}, err
}

func (g *gen) badValue(any bool) any {
	switch g.s.N(8) {
	case 0:
		err := g.sentinel()
		g.fail(err)
		return encAny{err: err, how: g.s.N(5)}
	case 1:
		g.fail(nil)
		return struct{ X int }{1}
	case 2:
		g.fail(nil)
		return map[string]int{"a": 1}
	case 3:
		g.fail(nil)
		return myInt(3)
	case 4:
		g.fail(nil)
		return make(chan int)
	case 5:
		g.fail(nil)
		return []int{1, 2}
	case 6:
		g.fail(nil)
		return complex(1, 2)
	}
	if g.s.N(4) == 3 {
		g.fail(nil)
		return xproto.AppendExprFunc(nil)
	}
	if any {
		g.fail(nil)
		return xtorm.Column("c") // an expression is no argument value
	}
	err := g.sentinel()
	g.fail(err)
	how := g.s.N(5)
	return xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return failEnc(p, how, err) })
}

// scalar generates a value both encodings know, with its canonical form.
func (g *gen) scalar() (any, *Node) {
	sint := func(v int64) *Node { return &Node{K: "sint", N: uint64(v)} }
	uint_ := func(v uint64) *Node { return &Node{K: "uint", N: v} }
	switch g.s.N(28) {
	case 26:
		e := g.rawOctets()
		return e, e.node()
	case 0:
		v := g.i64()
		return int(v), sint(int64(int(v)))
	case 1:
		return nil, &Node{K: "null"}
	case 2:
		v := int8(g.i64())
		return v, sint(int64(v))
	case 3:
		v := int16(g.i64())
		return v, sint(int64(v))
	case 4:
		v := int32(g.i64())
		return v, sint(int64(v))
	case 5:
		v := g.i64()
		return v, sint(v)
	case 6:
		v := g.u64()
		return uint(v), uint_(uint64(uint(v)))
	case 7:
		v := uint8(g.u64())
		return v, uint_(uint64(v))
	case 8:
		v := uint16(g.u64())
		return v, uint_(uint64(v))
	case 9:
		v := uint32(g.u64())
		return v, uint_(uint64(v))
	case 10:
		v := g.u64()
		return v, uint_(v)
	case 11:
		v := g.f64()
		return v, &Node{K: "double", N: math.Float64bits(v)}
	case 12:
		v := math.Float32frombits(uint32(g.s.U64()))
		if g.s.N(2) == 0 {
			v = float32(g.f64())
		}
		return v, &Node{K: "float", N: uint64(math.Float32bits(v))}
	case 13:
		return g.s.N(2) == 1, g.lastBool()
	case 14:
		v := g.time()
		return v, &Node{K: "time", T: v}
	case 15:
		v := g.dur()
		return v, &Node{K: "dur", D: v}
	case 16, 17:
		v := g.str()
		return v, &Node{K: "string", S: v}
	case 18:
		v := g.text(g.length(), true)
		c := uint64([]int{1, 45, 63, 127, 128, 255, 256, 309, 1 << 20}[g.s.N(9)])
		return xtorm.String{Value: v, Collation: collation.Collation(c)}, &Node{K: "string", S: v, N: uint64(collation.Collation(c))}
	case 19:
		v := g.text(g.length(), true)
		return g.ownBytes(v), &Node{K: "octets", S: v}
	case 20:
		return []byte(nil), &Node{K: "null"}
	case 21:
		v := g.str()
		switch g.s.N(2) {
		case 0:
			return xtorm.JSONString(v), &Node{K: "octets", S: v, N: 2}
		}
		return xtorm.JSON(g.ownBytes(v)), jsonBytes(v, 2)
	case 22:
		v := g.str()
		if g.s.N(2) == 0 {
			return xtorm.XMLString(v), &Node{K: "octets", S: v, N: 3}
		}
		return xtorm.XML(g.ownBytes(v)), jsonBytes(v, 3)
	case 23:
		v := g.text(g.length(), true)
		return xtorm.Geometry(g.ownBytes(v)), jsonBytes(v, 1)
	case 24:
		v := g.str()
		return encAny{s: v}, &Node{K: "string", S: v}
	case 27:
		return []any{(*xtorm.String)(nil), (*encAny)(nil)}[g.s.N(2)], &Node{K: "null"}
	}
	v := xtorm.String{Value: g.str()}
	n := &Node{K: "string", S: v.Value}
	g.after(func() { v.Value = "not this" })
	return &v, n
}

// []byte("") is empty but not nil.
func jsonBytes(v string, ct uint64) *Node { return &Node{K: "octets", S: v, N: ct} }

func (g *gen) lastBool() *Node {
	return &Node{K: "bool", N: uint64(g.s.Rec[len(g.s.Rec)-1])}
}

func (g *gen) arg() (any, *Node) {
	if g.bad > 0 && g.s.Per1000(g.bad) {
		return g.badValue(true), &Node{K: "null"}
	}
	v, n := g.scalar()
	if g.s.N(6) == 5 { // through a pointer
		switch x := v.(type) {
		case int:
			p := &x
			g.after(func() { x++ })
			if g.s.N(2) == 1 {
				return &p, anyN(n)
			}
			return p, anyN(n)
		case string:
			g.after(func() { x += "!" })
			return &x, anyN(n)
		case nil:
			switch g.s.N(5) {
			case 0:
				return (*int)(nil), anyN(n)
			case 1:
				return (*string)(nil), anyN(n)
			case 2:
				return (**int)(nil), anyN(n)
			case 3:
				return new(*time.Duration), anyN(n)
			}
			return (*time.Time)(nil), anyN(n)
		}
		for k := 1 + g.s.Weighted(6, 2, 1); k > 0; k-- {
			p := reflect.New(reflect.TypeOf(v))
			p.Elem().Set(reflect.ValueOf(v))
			v = p.Interface()
		}
	}
	return v, anyN(n)
}

func (g *gen) args() (v []any, n []*Node) {
	k := g.s.Weighted(4, 4, 2, 1, 1)
	if k == 4 {
		k = g.count(4, 6)
	}
	for i := 0; i < k; i++ {
		a, b := g.arg()
		v, n = append(v, a), append(n, b)
	}
	return g.own(v), n
}

type opDef struct {
	name string
	n    int
	f    func(a []any) xproto.AppendExprFunc
}

func b2(f func(a, b interface{}) xproto.AppendExprFunc) func([]any) xproto.AppendExprFunc {
	return func(a []any) xproto.AppendExprFunc { return f(a[0], a[1]) }
}

var operators = []opDef{
	{"==", 2, b2(xtorm.Eq)}, {"!=", 2, b2(xtorm.Neq)}, {"<=", 2, b2(xtorm.Lte)}, {"<", 2, b2(xtorm.Lt)},
	{">", 2, b2(xtorm.Gt)}, {">=", 2, b2(xtorm.Gte)}, {"&&", 2, b2(xtorm.And)}, {"||", 2, b2(xtorm.Or)},
	{"xor", 2, b2(xtorm.Xor)}, {"&", 2, b2(xtorm.BitAnd)}, {"|", 2, b2(xtorm.BitOr)}, {"^", 2, b2(xtorm.BitXor)},
	{"<<", 2, b2(xtorm.LeftShift)}, {">>", 2, b2(xtorm.RightShift)}, {"+", 2, b2(xtorm.Add)}, {"-", 2, b2(xtorm.Sub)},
	{"*", 2, b2(xtorm.Mul)}, {"/", 2, b2(xtorm.Div)}, {"div", 2, b2(xtorm.IntDiv)}, {"%", 2, b2(xtorm.Mod)},
	{"is", 2, b2(xtorm.Is)}, {"is_not", 2, b2(xtorm.IsNot)}, {"regexp", 2, b2(xtorm.Regexp)},
	{"not_regexp", 2, b2(xtorm.NotRegexp)}, {"like", 2, b2(xtorm.Like)}, {"not_like", 2, b2(xtorm.NotLike)},
	{"cont_in", 2, b2(xtorm.ContIn)}, {"not_cont_in", 2, b2(xtorm.NotContIn)}, {"overlaps", 2, b2(xtorm.Overlaps)},
	{"not_overlaps", 2, b2(xtorm.NotOverlaps)},
	{"!", 1, func(a []any) xproto.AppendExprFunc { return xtorm.Not(a[0]) }},
	{"sign_plus", 1, func(a []any) xproto.AppendExprFunc { return xtorm.Plus(a[0]) }},
	{"sign_minus", 1, func(a []any) xproto.AppendExprFunc { return xtorm.Minus(a[0]) }},
	{"between", 3, func(a []any) xproto.AppendExprFunc { return xtorm.Between(a[0], a[1], a[2]) }},
	{"between_not", 3, func(a []any) xproto.AppendExprFunc { return xtorm.NotBetween(a[0], a[1], a[2]) }},
	{"default", 0, func(a []any) xproto.AppendExprFunc { return xtorm.Default() }},
}

var units = []xtorm.DateUnit{xtorm.UnitMicroSecond, xtorm.UnitSecond, xtorm.UnitMinute, xtorm.UnitHour, xtorm.UnitDay, xtorm.UnitWeek, xtorm.UnitMonth, xtorm.UnitQuarter, xtorm.UnitYear, xtorm.UnitSecondMicrosecond, xtorm.UnitMinuteMicrosecond, xtorm.UnitMinuteSecond, xtorm.UnitHourMicrosecond, xtorm.UnitHourSecond, xtorm.UnitHourMinute, xtorm.UnitDayMicrosecond, xtorm.UnitDaySecond, xtorm.UnitDayMinute, xtorm.UnitDayHour}
var unitNames = []string{"MICROSECOND", "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "QUARTER", "YEAR", "SECOND_MICROSECOND", "MINUTE_MICROSECOND", "MINUTE_SECOND", "HOUR_MICROSECOND", "HOUR_SECOND", "HOUR_MINUTE", "DAY_MICROSECOND", "DAY_SECOND", "DAY_MINUTE", "DAY_HOUR"}

// lazy is an expression whose value is only known while building (the variable of an earlier InsertRow).
func (g *gen) variable() (any, *Node) {
	v := g.vars[g.s.N(len(g.vars))]
	return xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) {
		f := v.get()
		if f == nil {
			return p, errors.New("no variable: an earlier step failed")
		}
		return f(p, tag)
	}), &Node{K: "lastid", S: v.key}
}

// value generates an argument of an expression position.
func (g *gen) value(depth int) (any, *Node) {
	if g.bad > 0 && g.s.Per1000(g.bad) {
		return g.badValue(false), &Node{K: "bad"}
	}
	if depth > 0 && g.s.N(3) == 0 {
		e, n := g.expr(depth - 1)
		return e, n
	}
	if len(g.vars) > 0 && g.s.N(8) == 1 {
		return g.variable()
	}
	if g.s.N(8) == 7 {
		c := g.ident("c")
		return xtorm.Column(c), &Node{K: "ident", S: c}
	}
	v, n := g.scalar()
	return v, lit(n)
}

// count is usually lo..lo+n-1, sometimes dozens, rarely hundreds.
func (g *gen) count(lo, n int) int {
	switch {
	case !g.wide || g.s.N(40) != 39:
		return lo + g.s.N(n)
	case g.s.N(8) != 7:
		g.u.Kinds["dozens"] = true
		return 5 + g.s.N(40)
	}
	if g.u.Kinds["hundreds"] || g.s.N(2) == 0 {
		return 100 + g.s.N(200)
	}
	g.u.Kinds["hundreds"] = true
	round := []int{64, 128, 256, 500, 512, 1000, 1024, 2000}
	return round[g.s.N(len(round))] - 1 + g.s.N(3)
}

func (g *gen) values(n, depth int) (vs []any, ns []*Node) {
	if n > 4 {
		depth = 0
	}
	for i := 0; i < n; i++ {
		v, x := g.value(depth)
		vs, ns = append(vs, v), append(ns, x)
	}
	return g.own(vs), ns
}

func (g *gen) expr(depth int) (xproto.AppendExprFunc, *Node) {
	switch g.s.Weighted(10, 3, 2, 2, 1, 2, 2) {
	case 6: // package xproto's own constructors
		return g.rawExpr(depth)
	case 1: // in, not in
		a, an := g.value(depth)
		vs, ns := g.values(g.count(0, 5), depth)
		kids := append([]*Node{an}, ns...)
		switch g.s.N(4) {
		case 0:
			return xtorm.In(a, vs), &Node{K: "op", S: "in", Kids: kids}
		case 1:
			return xtorm.InV(a, vs...), &Node{K: "op", S: "in", Kids: kids}
		case 2:
			return xtorm.NotIn(a, vs), &Node{K: "op", S: "not_in", Kids: kids}
		}
		return xtorm.NotInV(a, vs...), &Node{K: "op", S: "not_in", Kids: kids}
	case 2: // functions
		switch g.s.N(3) {
		case 0:
			vs, ns := g.values(g.count(0, 5), depth)
			return xtorm.Concat(vs...), &Node{K: "func", S: "CONCAT", Kids: ns}
		case 1:
			return xtorm.RowCount(), &Node{K: "func", S: "ROW_COUNT"}
		}
		return xtorm.LastInsertID(), &Node{K: "func", S: "LAST_INSERT_ID"}
	case 3: // dates
		vs, ns := g.values(2, depth)
		u := g.s.N(len(units))
		ns = append(ns, lit(&Node{K: "octets", S: unitNames[u]}))
		if g.s.N(2) == 0 {
			return xtorm.DateAdd(vs[0], vs[1], units[u]), &Node{K: "op", S: "date_add", Kids: ns}
		}
		return xtorm.DateSub(vs[0], vs[1], units[u]), &Node{K: "op", S: "date_sub", Kids: ns}
	case 4:
		if g.s.N(2) == 0 {
			pos := uint32(g.u64())
			return func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprPlaceholder(p, tag, pos) }, &Node{K: "ph", N: uint64(pos)}
		}
		name := g.ident("v")
		return func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprVariable(p, tag, name) }, &Node{K: "var", S: name}
	case 5:
		if len(g.shared) > 0 {
			e := g.shared[g.s.N(len(g.shared))]
			return e.v.(xproto.AppendExprFunc), e.n
		}
	}
	o := operators[g.s.N(len(operators))]
	vs, ns := g.values(o.n, depth)
	return o.f(vs), &Node{K: "op", S: o.name, Kids: ns}
}

// rawExpr uses package xproto's exported expression constructors, with names and attributes package xtorm never chooses.
func (g *gen) rawExpr(depth int) (xproto.AppendExprFunc, *Node) {
	k := g.s.N(4)
	switch k {
	case 0, 1:
		name := g.ident("F")
		if g.s.N(8) == 7 {
			name = g.text(g.length(), false)
		}
		vs, ns := g.values(g.count(0, 4), depth)
		spread := g.s.N(2) == 1
		kind, f, fv := "func", xproto.AppendExprFunctionCall, xproto.AppendExprFunctionCallV
		if k == 1 {
			kind, f, fv = "op", xproto.AppendExprOperator, xproto.AppendExprOperatorV
		}
		return func(p []byte, tag uint8) ([]byte, error) {
			if spread {
				return fv(p, tag, name, vs...)
			}
			return f(p, tag, name, vs)
		}, &Node{K: kind, S: name, Kids: ns}
	case 2:
		v := g.text(g.length(), true)
		c := uint64([]int{0, 1, 45, 127, 128, 255, 309, 16383, 16384, 1 << 21}[g.s.N(10)])
		return func(p []byte, tag uint8) ([]byte, error) {
			return xproto.AppendExprString(p, tag, v, collation.Collation(c)), nil
		}, lit(&Node{K: "string", S: v, N: c})
	}
	e := g.rawOctets()
	return e.AppendExpr, lit(e.node())
}

// rawOct is an encoder of octets of any content type.
type rawOct struct {
	s   string
	ct  uint32
	how int
}

func (g *gen) rawOctets() rawOct {
	return rawOct{g.text(g.length(), true), []uint32{0, 1, 2, 3, 4, 127, 128, 300, 16384, 1 << 31}[g.s.N(10)], g.s.N(3)}
}

func (o rawOct) node() *Node {
	if o.how == 2 {
		return &Node{K: "null"}
	}
	return &Node{K: "octets", S: o.s, N: uint64(o.ct)}
}

func (o rawOct) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	switch o.how {
	case 0:
		return xproto.AppendExprBytesString(p, tag, o.s, xproto.ContentType(o.ct)), nil
	case 1:
		return xproto.AppendExprBytes(p, tag, []byte(o.s), xproto.ContentType(o.ct)), nil
	}
	return xproto.AppendExprBytes(p, tag, nil, xproto.ContentType(o.ct)), nil
}

func (o rawOct) AppendAny(p []byte, tag uint8) ([]byte, error) {
	switch o.how {
	case 0:
		return xproto.AppendAnyBytesString(p, tag, o.s, xproto.ContentType(o.ct)), nil
	case 1:
		return xproto.AppendAnyBytes(p, tag, []byte(o.s), xproto.ContentType(o.ct)), nil
	}
	return xproto.AppendAnyBytes(p, tag, nil, xproto.ContentType(o.ct)), nil
}

// criteria may be absent; kinds of columns are checked by the server model.
func (g *gen) criteria() (xproto.AppendExprFunc, *Node) {
	if g.s.N(6) == 5 {
		return nil, &Node{K: "none"}
	}
	if g.bad > 0 && g.s.Per1000(g.bad) {
		err := g.sentinel()
		how := g.s.N(5)
		g.fail(err)
		return func(p []byte, tag uint8) ([]byte, error) { return failEnc(p, how, err) }, &Node{K: "bad"}
	}
	if g.wide && g.s.N(30) == 29 {
		return g.deepExpr()
	}
	return g.expr(2)
}

// deepExpr nests expressions dozens of levels deep, so that every level crosses length boundaries somewhere.
func (g *gen) deepExpr() (xproto.AppendExprFunc, *Node) {
	g.u.Kinds["deep"] = true
	e, n := g.expr(0)
	defer func(bad int) { g.bad = bad }(g.bad)
	g.bad = 0 // only the innermost may fail
	for i := 3 + g.s.N(60); i > 0; i-- {
		v, vn := g.value(0)
		f, fv := e, any(e)
		switch g.s.N(8) {
		case 0:
			e, n = xtorm.InV(f, v), &Node{K: "op", S: "in", Kids: []*Node{n, vn}}
		case 1:
			e, n = xtorm.NotIn(v, []interface{}{f}), &Node{K: "op", S: "not_in", Kids: []*Node{vn, n}}
		case 2:
			e, n = xtorm.Concat(v, f), &Node{K: "func", S: "CONCAT", Kids: []*Node{vn, n}}
		default:
			o := operators[g.s.N(len(operators))]
			if o.n == 0 {
				continue
			}
			at := g.s.N(o.n)
			vs, ns := g.values(o.n, 0)
			vs[at], ns[at] = fv, n
			e, n = o.f(vs), &Node{K: "op", S: o.name, Kids: ns}
		}
	}
	return e, n
}

func (g *gen) msg(n *Node, role string) int {
	i := len(g.u.Msgs)
	g.u.Msgs = append(g.u.Msgs, Msg{Exp: n, Tx: g.tx, Role: role})
	if g.tx >= 0 && role == "" && n.K != "open" && n.K != "close" {
		t := &g.u.Txs[g.tx]
		t.Members = append(t.Members, i)
	}
	return i
}

var isoNames = []string{"", "READ UNCOMMITTED", "READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE", ""}
var isoLevels = []xtorm.IsolationLevel{xtorm.IsolationLevelDefault, xtorm.IsolationLevelReadUncommitted, xtorm.IsolationLevelReadCommitted,
	xtorm.IsolationLevelRepeatableRead, xtorm.IsolationLevelSerializable, xtorm.IsolationLevelSnapshot}

type step = func(b *xtorm.Builder)

func (g *gen) block(depth int) []step {
	n := 1 + g.s.N(3)
	if n > g.left {
		n = g.left
	}
	var out []step
	for i := 0; i < n; i++ {
		out = append(out, g.item(depth))
	}
	return out
}

func (g *gen) cols(n int) (names []string, cols *Node) {
	cols = &Node{K: "cols"}
	for i := 0; i < n; i++ {
		names = append(names, g.ident(fmt.Sprintf("c%d_", i)))
		cols.Kids = append(cols.Kids, &Node{K: "col", S: names[i]})
	}
	return g.ownNames(names), cols
}

// listed is the number of columns named for nc values: none at all stands for all columns of the table.
func (g *gen) listed(nc int) int {
	if g.s.N(8) == 7 {
		return 0
	}
	return nc
}

// cb wraps a callback body; it may return an error of the caller's own, which counts only if the body had none.
func (g *gen) cbErr() error {
	if g.bad > 0 && g.s.Per1000(g.bad) {
		err := g.sentinel()
		g.fail(err)
		return err
	}
	return nil
}

func (g *gen) item(depth int) step {
	g.left--
	k := g.s.Weighted(6, 4, 4, 4, 3, 3, 3, 3, 3)
	if depth > 0 {
		switch g.s.Weighted(6, 3, 3) {
		case 1:
			k = 20
		case 2:
			if g.tx < 0 {
				k = 21
			}
		}
	}
	g.u.Kinds[fmt.Sprint("item", k)] = true
	switch k {
	case 1, 2: // insert
		name := g.ident("t")
		nc := g.count(1, 4)
		if g.s.N(12) == 11 {
			nc = 0
		}
		names, cols := g.cols(nc)
		n := &Node{K: "insert", S: name, Kids: []*Node{cols}}
		rows := [][]any{}
		wasBad, miscount := g.u.Bad, false
		nr := g.count(1, 3)
		if nr*nc > 2100 {
			nr = 3
		}
		for i := 0; i < nr; i++ {
			l := nc
			wrong := g.bad > 0 && g.s.Per1000(g.bad/2)
			if wrong {
				if l = nc + 1; nc > 0 && g.s.N(2) == 0 {
					l = nc - 1
				}
				g.fail(nil)
				miscount = true
			}
			vs, ns := g.values(l, 2)
			rows = append(rows, vs)
			n.Kids = append(n.Kids, &Node{K: "row", Kids: ns})
			if wrong && k == 2 {
				break
			}
		}
		if miscount && !wasBad {
			g.u.First = nil // values may be counted before any is encoded
		}
		g.msg(n, "")
		g.after(func() { clear(rows) })
		return func(b *xtorm.Builder) { b.Insert(name, names, rows) }
	case 3: // insertF
		name := g.ident("t")
		nc := g.count(1, 4)
		names, cols := g.cols(g.listed(nc))
		n := &Node{K: "insert", S: name, Kids: []*Node{cols}}
		var rows [][]any
		nr := g.count(0, 4)
		if nr*nc > 2100 {
			nr = 3
		}
		for i := 0; i < nr; i++ {
			vs, ns := g.values(nc, 2)
			rows = append(rows, vs)
			n.Kids = append(n.Kids, &Node{K: "row", Kids: ns})
		}
		err := g.cbErr()
		v := g.s.N(2)
		g.msg(n, "")
		mis := g.misuse(len(rows))
		return func(b *xtorm.Builder) {
			b.InsertF(name, names, func(i *xtorm.Insert) error {
				for j, r := range rows {
					mis(j, b)
					if v == 0 {
						i.Row(r)
					} else {
						i.RowV(r...)
					}
				}
				mis(len(rows), b)
				return err
			})
		}
	case 4: // insertRow
		name := g.ident("t")
		nc := g.count(1, 4)
		names, cols := g.cols(g.listed(nc))
		vs, ns := g.values(nc, 2)
		n := &Node{K: "insert", S: name, Kids: []*Node{cols, {K: "row", Kids: ns}}}
		g.msg(n, "")
		g.seq++
		key := fmt.Sprint("id", len(g.u.Msgs), ".", g.seq)
		g.msg(&Node{K: "setlastid", S: key}, "")
		var got xproto.AppendExprFunc
		g.vars = append(g.vars, varRef{key, func() xproto.AppendExprFunc { return got }})
		return func(b *xtorm.Builder) { got = b.InsertRow(name, names, vs) }
	case 5, 6: // update, updateF
		name := g.ident("t")
		f, cn := g.criteria()
		n := &Node{K: "update", S: name, Kids: []*Node{cn}}
		nc := g.count(1, 3)
		if g.s.N(12) == 11 {
			nc = 0
		}
		if k == 5 {
			n.Set = true
			// the order of a map is the simulator's choice; with several failing values any may be the first
			set := map[string]any{}
			saved := g.u.First
			wasBad := g.u.Bad
			for i := 0; i < nc; i++ {
				c := g.ident(fmt.Sprintf("s%d_", i))
				for _, dup := set[c]; dup; _, dup = set[c] {
					c += "x"
				}
				v, vn := g.value(2)
				set[c] = v
				n.Kids = append(n.Kids, &Node{K: "set", S: c, Kids: []*Node{vn}})
			}
			if g.u.Bad && !wasBad && nc > 1 {
				g.u.First = nil
			} else if wasBad {
				g.u.First = saved
			}
			g.msg(n, "")
			g.after(func() {
				clear(set)
				set["not this"] = 1
			})
			return func(b *xtorm.Builder) { b.Update(name, f, set) }
		}
		type kv struct {
			k string
			v any
		}
		var set []kv
		for i := 0; i < nc; i++ {
			c := g.ident(fmt.Sprintf("s%d_", i))
			v, vn := g.value(2)
			set = append(set, kv{c, v})
			n.Kids = append(n.Kids, &Node{K: "set", S: c, Kids: []*Node{vn}})
		}
		err := g.cbErr()
		g.msg(n, "")
		mis := g.misuse(len(set))
		return func(b *xtorm.Builder) {
			b.UpdateF(name, f, func(u *xtorm.Update) error {
				for i, x := range set {
					mis(i, b)
					u.Set(x.k, x.v)
				}
				mis(len(set), b)
				return err
			})
		}
	case 7: // delete
		name := g.ident("t")
		f, cn := g.criteria()
		g.msg(&Node{K: "delete", S: name, Kids: []*Node{cn}}, "")
		return func(b *xtorm.Builder) { b.Delete(name, f) }
	case 8: // prepared statement
		id := uint32(g.u64())
		text := g.stmt()
		g.msg(&Node{K: "prepare", N: uint64(id), S: text}, "")
		var ex [][]any
		for i := g.count(0, 3); i >= 0; i-- {
			vs, ns := g.args()
			ex = append(ex, vs)
			g.msg(&Node{K: "execute", N: uint64(id), Kids: ns}, "")
		}
		de := g.s.N(5) != 4
		if de {
			g.msg(&Node{K: "dealloc", N: uint64(id)}, "")
		}
		return func(b *xtorm.Builder) {
			b.Prepare(id, text)
			for _, a := range ex {
				b.Execute(id, a...)
			}
			if de {
				b.Deallocate(id)
			}
		}
	case 20: // fail-on-error block
		return g.expect(func() []step { return g.block(depth - 1) })
	case 21: // transaction
		i := g.s.N(len(isoLevels))
		level := isoLevels[i]
		if g.bad > 0 && g.s.Per1000(g.bad/2) {
			level = xtorm.IsolationLevel(6 + g.s.N(100))
			g.fail(nil)
		}
		g.tx = len(g.u.Txs)
		g.u.Txs = append(g.u.Txs, TxInfo{Guarded: g.guard > 0, Iso: isoNames[i], Snap: i == 5})
		if isoNames[i] != "" {
			g.msg(&Node{K: "stmt", S: "SET TRANSACTION ISOLATION LEVEL " + isoNames[i]}, "set")
		}
		start := "START TRANSACTION"
		if i == 5 {
			start += " WITH CONSISTENT SNAPSHOT"
		}
		g.u.Txs[g.tx].Start = g.msg(&Node{K: "stmt", S: start}, "start")
		steps := g.block(depth - 1)
		mis := g.misuse(len(steps))
		err := g.cbErr()
		t := g.tx
		g.u.Txs[t].Commit = g.msg(&Node{K: "stmt", S: "COMMIT"}, "commit")
		g.tx = -1
		return func(b *xtorm.Builder) {
			b.Tx(level, func(c *xtorm.Builder) error {
				for i, s := range steps {
					mis(i, b)
					s(c)
				}
				mis(len(steps), b)
				return err
			})
		}
	}
	text := g.stmt()
	vs, ns := g.args()
	g.msg(&Node{K: "stmt", S: text, Kids: ns}, "")
	return func(b *xtorm.Builder) { b.StmtExecute(text, vs...) }
}

// expect is a fail-on-error block around what inner generates.
func (g *gen) expect(inner func() []step) step {
	ctx := xtorm.OpenExpectCtxEmpty
	op := uint64(1)
	if g.s.N(2) == 1 {
		ctx, op = xtorm.OpenExpectCtxCopyPrev, 0
	}
	g.msg(&Node{K: "open", N: op, Kids: []*Node{{K: "cond", N: 1, S: "1"}}}, "")
	g.guard++
	steps := inner()
	g.guard--
	mis := g.misuse(len(steps))
	err := g.cbErr()
	g.msg(&Node{K: "close"}, "")
	return func(b *xtorm.Builder) {
		b.ExpectFailOnError(ctx, func(c *xtorm.Builder) error {
			for i, s := range steps {
				mis(i, b)
				s(c)
			}
			mis(len(steps), b)
			return err
		})
	}
}

// deepBlocks nests fail-on-error blocks, with a statement before or after the inner one here and there.
func (g *gen) deepBlocks(n int) step {
	g.u.Kinds["deep blocks"] = true
	return g.expect(func() (out []step) {
		side := g.s.N(6)
		if side == 4 {
			out = append(out, g.item(0))
		}
		if n > 0 {
			out = append(out, g.deepBlocks(n-1))
		} else {
			out = append(out, g.item(0))
		}
		if side == 5 {
			out = append(out, g.item(0))
		}
		return
	})
}

func (g *gen) stmt() string {
	head := []string{"INSERT INTO t VALUES (?)", "UPDATE t SET a = ?", "DELETE FROM t", "SELECT ?", "SET @a = 1", "CALL p(?)"}[g.s.N(6)]
	if g.s.N(3) == 0 {
		return head
	}
	if g.s.N(4) == 0 { // not at the front: what the statement is hangs on its first word
		if g.s.N(4) == 0 {
			head = strings.ToLower(head)
		}
		return head + g.odd()
	}
	n := g.length()
	return head + " /*" + strings.ReplaceAll(g.text(n, false), "*", "x") + "*/"
}

type genCfg struct {
	items, depth, bad, big int
	mis                    int
	many                   int // chance in 1000 of a unit of work of hundreds of statements
	huge                   *bool
	guarded                bool // start with a guarded transaction
}

func genUoW(s *simrt.Stream, c genCfg, sentN *int, shared []exprGen) *UoW {
	g := &gen{s: s, u: &UoW{Kinds: map[string]bool{}}, tx: -1, mis: c.mis, bad: c.bad, big: c.big, wide: c.big > 0, huge: c.huge, left: 1 + c.items, sentN: sentN, shared: shared}
	if c.guarded {
		steps := g.guardedTx()
		g.u.Build = append(g.u.Build, steps)
		if g.s.N(3) != 2 {
			return g.u
		}
	}
	if c.many > 0 && g.s.Per1000(c.many) {
		g.u.Build = append(g.u.Build, g.many()...)
		return g.u
	}
	if g.wide && c.depth > 0 && g.s.N(60) == 59 {
		g.u.Build = append(g.u.Build, g.deepBlocks(3+g.s.N(20)))
	}
	n := 1 + g.s.N(c.items)
	for i := 0; i < n; i++ {
		g.u.Build = append(g.u.Build, g.item(c.depth))
	}
	if g.s.N(40) == 39 { // nothing at all
		g.u.Build = g.u.Build[:0]
		g.u.Msgs, g.u.Txs, g.u.Bad, g.u.First = nil, nil, false, nil
	}
	return g.u
}

// many is hundreds of small statements: every InsertRow needs a variable of its own, every message its response.
func (g *gen) many() (out []step) {
	g.u.Kinds["many"] = true
	n := 60 + g.s.N(240)
	if g.s.N(8) == 7 {
		n = 300 + g.s.N(2700)
	}
	mixed := g.s.N(2) == 1
	x := uint32(g.s.N(1 << 16))
	rnd := func(k int) int {
		x = x*1664525 + 1013904223
		return int(x>>8) % k
	}
	for i := 0; i < n; i++ {
		if mixed && rnd(2) == 0 {
			text := "SELECT " + strings.Repeat("1", 1+rnd(300))
			g.msg(&Node{K: "stmt", S: text}, "")
			out = append(out, func(b *xtorm.Builder) { b.StmtExecute(text) })
			continue
		}
		name := "t" + strings.Repeat("x", rnd(40))
		v := rnd(1000)
		g.msg(&Node{K: "insert", S: name, Kids: []*Node{{K: "cols", Kids: []*Node{{K: "col", S: "c"}}},
			{K: "row", Kids: []*Node{lit(&Node{K: "sint", N: uint64(int64(v))})}}}}, "")
		key := fmt.Sprint("many", i)
		g.msg(&Node{K: "setlastid", S: key}, "")
		var got xproto.AppendExprFunc
		ref := varRef{key, func() xproto.AppendExprFunc { return got }}
		if i%16 == 0 {
			g.vars = append(g.vars, ref)
		}
		out = append(out, func(b *xtorm.Builder) { got = b.InsertRow(name, []string{"c"}, []interface{}{v}) })
	}
	name := g.ident("t")
	f, cn := g.criteria()
	g.msg(&Node{K: "delete", S: name, Kids: []*Node{cn}}, "")
	return append(out, func(b *xtorm.Builder) { b.Delete(name, f) })
}

// guardedTx is the documented shape: expect block { prepare; transaction { ... } }.
func (g *gen) guardedTx() step {
	guard := func() xtorm.OpenContext {
		if g.s.N(3) == 2 {
			g.msg(&Node{K: "open", N: 0, Kids: []*Node{{K: "cond", N: 1, S: "1"}}}, "")
			return xtorm.OpenExpectCtxCopyPrev
		}
		g.msg(&Node{K: "open", N: 1, Kids: []*Node{{K: "cond", N: 1, S: "1"}}}, "")
		return xtorm.OpenExpectCtxEmpty
	}
	ctx := guard()
	g.guard++
	var pre []step
	if g.s.N(3) == 2 {
		pre = append(pre, g.item(0))
	}
	nested := g.s.N(6) == 5 // a second block around the transaction
	var ctx2 xtorm.OpenContext
	if nested {
		ctx2 = guard()
	}
	i := g.s.N(len(isoLevels))
	g.tx = len(g.u.Txs)
	t := g.tx
	g.u.Txs = append(g.u.Txs, TxInfo{Guarded: true, Iso: isoNames[i], Snap: i == 5})
	if isoNames[i] != "" {
		g.msg(&Node{K: "stmt", S: "SET TRANSACTION ISOLATION LEVEL " + isoNames[i]}, "set")
	}
	start := "START TRANSACTION"
	if i == 5 {
		start += " WITH CONSISTENT SNAPSHOT"
	}
	g.u.Txs[t].Start = g.msg(&Node{K: "stmt", S: start}, "start")
	var body []step
	n := 1 + g.s.N(4)
	for j := 0; j < n; j++ {
		depth := 0
		if g.s.N(5) == 4 {
			depth = 1
		}
		body = append(body, g.item(depth))
	}
	g.u.Txs[t].Commit = g.msg(&Node{K: "stmt", S: "COMMIT"}, "commit")
	g.tx = -1
	g.guard--
	if nested {
		g.msg(&Node{K: "close"}, "")
	}
	g.msg(&Node{K: "close"}, "")
	mis, misTx := g.misuse(len(pre)), g.misuse(len(body))
	run := func(b, c *xtorm.Builder, l []step, mis func(int, *xtorm.Builder)) {
		for i, s := range l {
			mis(i, b)
			s(c)
		}
		mis(len(l), b)
	}
	tx := func(b *xtorm.Builder) error {
		b.Tx(isoLevels[i], func(c *xtorm.Builder) error { run(b, c, body, misTx); return nil })
		return nil
	}
	return func(outer *xtorm.Builder) {
		outer.ExpectFailOnError(ctx, func(b *xtorm.Builder) error {
			run(outer, b, pre, mis)
			if nested {
				b.ExpectFailOnError(ctx2, tx)
				return nil
			}
			return tx(b)
		})
	}
}

// genRaw builds a unit of work from package xproto's messages.
func genRaw(s *simrt.Stream) *UoW {
	u := &UoW{Kinds: map[string]bool{"raw": true}}
	g := &gen{s: s, u: u, tx: -1, sentN: new(int)}
	var fs []func(p []byte) []byte
	n := 1 + s.N(4)
	for i := 0; i < n; i++ {
		switch s.N(5) {
		case 0:
			text := g.stmt()
			g.msg(&Node{K: "stmt", S: text}, "")
			fs = append(fs, func(p []byte) []byte { p, _ = xproto.StmtExecute(p, text, nil); return p })
		case 1:
			field := g.ident("1")
			g.msg(&Node{K: "open", N: 1, Kids: []*Node{{K: "cond", N: 1, S: "0"}, {K: "cond", N: 2, S: field}}}, "")
			g.msg(&Node{K: "close"}, "")
			fs = append(fs, func(p []byte) []byte {
				p = xproto.ExpectOpen(p, xproto.OpenExpectCtxEmpty, xproto.OpenConditionExpectNoError(false), xproto.OpenConditionExpectFieldExists(field))
				return xproto.ExpectClose(p)
			})
		case 2:
			g.msg(&Node{K: "sreset", N: 1}, "")
			fs = append(fs, func(p []byte) []byte { return xproto.Reset(p, true) })
		case 3:
			name := g.ident("t")
			f, cn := g.criteria()
			g.msg(&Node{K: "delete", S: name, Kids: []*Node{cn}}, "")
			fs = append(fs, func(p []byte) []byte { p, _ = xproto.Delete(p, name, f); return p })
		case 4:
			name := g.ident("t")
			names, cols := g.cols(2)
			vs, ns := g.values(2, 1)
			g.msg(&Node{K: "insert", S: name, Kids: []*Node{cols, {K: "row", Kids: ns}}}, "")
			fs = append(fs, func(p []byte) []byte {
				at := len(p)
				p = xproto.Insert(p, name, names)
				p, _ = xproto.AppendInsertRow(p, vs)
				k := len(p) - at - 4
				p[at], p[at+1], p[at+2], p[at+3] = byte(k), byte(k>>8), byte(k>>16), byte(k>>24)
				return p
			})
		}
	}
	var done []byte
	u.Raw = func() []byte {
		if done != nil {
			simrt.Acquire(unsafe.Pointer(&done[0])) // the callers of the library share it in an orderly way
			return done
		}
		var p []byte
		for _, f := range fs {
			p = f(p)
		}
		done = p
		simrt.ReleaseMerge(unsafe.Pointer(&done[0]))
		return p
	}
	return u
}
