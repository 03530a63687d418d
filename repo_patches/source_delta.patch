From 1ecb6033184ec845ec1bcc916817d226cddcf633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:45 +0000
Subject: [PATCH 01/10] fix: fifoch pool close is idempotent and safe with
 sends in flight

A second Close, or a send handing its connection back after Close, panicked on
the closed channel; a send racing with Close could leave its connection open.
---
 netx/pool/fifoch/fifoch.go | 48 ++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 97dda79..e7d2c37 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -12,6 +12,7 @@ import (
 
 type poolCh struct {
 	mu        sync.Mutex
+	closed    bool // guarded by mu
 	ch        chan netx.Conn
 	connector netx.Connector
 }
@@ -24,17 +25,16 @@ func New(connector netx.Connector, size int) *poolCh {
 	}
 }
 
+// Close closes the pool and its idle connections. Connections in use are closed when they are handed back.
 func (p *poolCh) Close(ctx context.Context) error {
 
-	ch := p.getCh()
+	p.mu.Lock()
+	p.closed = true
+	p.mu.Unlock()
 
-	defer close(ch)
 	for {
 		select {
-		case conn, ok := <-ch:
-			if !ok {
-				return nil
-			}
+		case conn := <-p.ch:
 			conn.Close()
 		case <-ctx.Done():
 			return ctx.Err()
@@ -44,25 +44,38 @@ func (p *poolCh) Close(ctx context.Context) error {
 	}
 }
 
-func (p *poolCh) getCh() chan netx.Conn {
+func (p *poolCh) isClosed() bool {
 	p.mu.Lock()
 	defer p.mu.Unlock()
-	return p.ch
+	return p.closed
+}
+
+// put hands conn back to the pool, or closes it if the pool is closed or full.
+func (p *poolCh) put(conn netx.Conn) {
+	p.mu.Lock()
+	if !p.closed {
+		select {
+		case p.ch <- conn:
+			p.mu.Unlock()
+			return
+		default:
+		}
+	}
+	p.mu.Unlock()
+	conn.Close()
 }
 
 func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 
 	var (
 		conn netx.Conn
-		ok   bool
 		err  error
 	)
-	ch := p.getCh()
+	if p.isClosed() {
+		return nil, pool.ErrPoolClosed
+	}
 	select {
-	case conn, ok = <-ch:
-		if !ok {
-			return nil, pool.ErrPoolClosed
-		}
+	case conn = <-p.ch:
 
 	case <-ctx.Done():
 		return nil, ctx.Err()
@@ -79,12 +92,7 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		return r, err
 	}
 
-	ch = p.getCh()
-	select {
-	case ch <- conn:
-	default:
-		conn.Close()
-	}
+	p.put(conn)
 	return r, nil
 }
 
-- 
2.43.0


From 6a7cc3ec3a61137ad34408c66cf047b3aed05899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:45 +0000
Subject: [PATCH 02/10] fix: fifoch pool does not reuse a connection whose unit
 of work was rejected

A statement rejected inside a transaction skips its COMMIT, leaving the transaction
open on the session; the next unit of work on the connection committed it or was lost in it.
---
 netx/pool/fifoch/fifoch.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index e7d2c37..e1cfdb3 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -92,6 +92,14 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		return r, err
 	}
 
+	for _, rr := range r {
+		if rr != nil {
+			// A rejected message may have left session state behind (an open
+			// transaction, a pending isolation level), do not pass it on.
+			conn.Close()
+			return r, nil
+		}
+	}
 	p.put(conn)
 	return r, nil
 }
-- 
2.43.0


From 64d2054f494fca389510214018eed945817056f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:45 +0000
Subject: [PATCH 03/10] fix: connector closes the socket and reports the error
 when requesting TLS fails

The socket leaked when the capability exchange failed, and a refusal by the server was
ignored: the client went on with a handshake the server never answers.
---
 netx/connector/connector.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/netx/connector/connector.go b/netx/connector/connector.go
index 7fdaf75..c935647 100644
--- a/netx/connector/connector.go
+++ b/netx/connector/connector.go
@@ -67,11 +67,19 @@ func (c *Connector) New(ctx context.Context) (netx.Conn, error) {
 	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
 		b, err := xproto.CapabilitySet("tls", true)
 		if err != nil {
+			conn.Close()
 			return nil, err
 		}
-		// @TODO response test
-		if _, err := conn.Send(ctx, b); err != nil {
-			return nil, err
+		r, err := conn.Send(ctx, b)
+		if err != nil {
+			conn.Close()
+			return nil, fmt.Errorf("failed to request TLS: %w", err)
+		}
+		for _, rr := range r {
+			if err, ok := rr.(error); ok {
+				conn.Close()
+				return nil, fmt.Errorf("server refused TLS: %w", err)
+			}
 		}
 		tlsConn := tls.Client(netConn, c.tlsConfig)
 		if err := tlsConn.Handshake(); err != nil {
-- 
2.43.0


From aef0b0ebe95dedb1bc17e1efc54d6fa8bc72fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:45 +0000
Subject: [PATCH 04/10] fix: errors returned by builder callbacks are no longer
 dropped

---
 builder.go |  5 ++++-
 crud.go    | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/builder.go b/builder.go
index e91f6e4..fa00bf5 100644
--- a/builder.go
+++ b/builder.go
@@ -36,9 +36,12 @@ func (b *Builder) call(f func(b *Builder) error) {
 		disabled: false,
 	}
 	b.disabled = true
-	f(&child)
+	err := f(&child)
 	b.buf = child.buf
 	b.err = child.err
+	if b.err == nil {
+		b.err = err
+	}
 	b.disabled = false
 }
 
diff --git a/crud.go b/crud.go
index cf730fb..050923a 100644
--- a/crud.go
+++ b/crud.go
@@ -31,8 +31,11 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	n := len(b.buf)
 	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
 	b.disabled = true
-	f(i)
+	err := f(i)
 	b.buf, b.err = i.buf, i.err
+	if b.err == nil {
+		b.err = err
+	}
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
 }
@@ -59,8 +62,11 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	var u Update
 	u.buf, u.err = xproto.Update(b.buf, name, criteria)
 	b.disabled = true
-	f(&u)
+	err := f(&u)
 	b.buf, b.err = u.buf, u.err
+	if b.err == nil {
+		b.err = err
+	}
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
 }
-- 
2.43.0


From 55ad5187312a15c891ecb21d3b7d7f91c9026a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:45 +0000
Subject: [PATCH 05/10] fix: a failing encoder no longer makes InsertF, UpdateF
 and Delete panic

The message length was patched even if the encoder had returned an error and no buffer.
---
 crud.go          | 8 ++++++--
 xproto/xproto.go | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crud.go b/crud.go
index 050923a..34b713a 100644
--- a/crud.go
+++ b/crud.go
@@ -36,7 +36,9 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	if b.err == nil {
 		b.err = err
 	}
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	if b.err == nil {
+		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	}
 	b.disabled = false
 }
 
@@ -67,6 +69,8 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	if b.err == nil {
 		b.err = err
 	}
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	if b.err == nil {
+		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	}
 	b.disabled = false
 }
diff --git a/xproto/xproto.go b/xproto/xproto.go
index b9c182d..fd2bf47 100644
--- a/xproto/xproto.go
+++ b/xproto/xproto.go
@@ -69,8 +69,10 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 	i += putUvarint(b[i:], uint64(n))
 	copy(b[i:], name)
 	if criteria != nil {
-		p, err = criteria(p, tagDeleteCriteria)
+		if p, err = criteria(p, tagDeleteCriteria); err != nil {
+			return p, err
+		}
 	}
 	binary.LittleEndian.PutUint32(p[s:], uint32(len(p)-s-4))
-	return p, err
+	return p, nil
 }
-- 
2.43.0


From c12825a33d46998dfdf708f7748718430df35330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:45 +0000
Subject: [PATCH 06/10] fix: Regexp operator name

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 1a08f3a..9ad9225 100644
--- a/expr.go
+++ b/expr.go
@@ -276,7 +276,7 @@ func IsNot(a, b interface{}) exprFunc {
 
 func Regexp(a, b interface{}) exprFunc {
 	return func(p []byte, tag uint8) ([]byte, error) {
-		return xproto.AppendExprOperatorV(p, tag, "rexgexp", a, b)
+		return xproto.AppendExprOperatorV(p, tag, "regexp", a, b)
 	}
 }
 
-- 
2.43.0


From 02e33fd5ed12e556f713b51e980e92558f705b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:45 +0000
Subject: [PATCH 07/10] fix: expressions with long variable names are encoded
 with a valid length

The length was a single byte, which overflowed for names of more than 123 bytes.
---
 xproto/expr.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/xproto/expr.go b/xproto/expr.go
index 50e8969..eed6566 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -423,13 +423,19 @@ func AppendExprPlaceholder(p []byte, tag uint8, pos uint32) ([]byte, error) {
 }
 
 func AppendExprVariable(p []byte, tag uint8, name string) ([]byte, error) {
-	x := len(name)
-	n := sizeVarint(uint(x))
-	p = append(p, tag<<3|wireBytes, 3+byte(n+x),
-		tagExprType<<3|wireVarint, byte(mysqlx_expr.Expr_VARIABLE),
-		tagExprVariable<<3|wireBytes, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
-		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56), 1)
-	n += len(p) - binary.MaxVarintLen64
-	p[n-1] &= 0x7F
-	return append(p[:n], name...), nil
+	n := len(name)
+	n0 := 3 + sizeVarint(uint(n)) + n
+	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n0))+n0)
+
+	b[0] = tag<<3 | wireBytes
+	i := 1 + putUvarint(b[1:], uint64(n0))
+	b[i] = tagExprType<<3 | wireVarint
+	i++
+	b[i] = byte(mysqlx_expr.Expr_VARIABLE)
+	i++
+	b[i] = tagExprVariable<<3 | wireBytes
+	i++
+	i += putUvarint(b[i:], uint64(n))
+	copy(b[i:], name)
+	return p, nil
 }
-- 
2.43.0


From 00ebf6f36925aaf97d32fcbde2adf6e9ab0bd533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:45 +0000
Subject: [PATCH 08/10] fix: durations keep their fraction of a second

The fraction was dropped, and the smallest duration was formatted as garbage.
---
 xproto/scalar.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xproto/scalar.go b/xproto/scalar.go
index fba59b0..d672185 100644
--- a/xproto/scalar.go
+++ b/xproto/scalar.go
@@ -45,11 +45,19 @@ const smallsString = "00010203040506070809" +
 	"50515253545556575859"
 
 func AppendDuration(p []byte, d time.Duration) []byte {
+	u := uint64(d)
 	if d < 0 {
-		d = -d
+		u = -u
 		p = append(p, '-')
 	}
-	i := 2 * (uint(d/time.Minute) % 60)
-	j := 2 * (uint(d/time.Second) % 60)
-	return append(strconv.AppendUint(p, uint64(d/time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
+	i := 2 * (u / uint64(time.Minute) % 60)
+	j := 2 * (u / uint64(time.Second) % 60)
+	p = append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
+	if n := u % uint64(time.Second); n != 0 {
+		p = append(p, '.')
+		for e := uint64(time.Second) / 10; e > 0; e /= 10 {
+			p = append(p, byte('0'+n/e%10))
+		}
+	}
+	return p
 }
-- 
2.43.0


From 40c8e31a152c7b6f54522e6b667325aa6ffcb4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:47 +0000
Subject: [PATCH 09/10] fix: connection: do not reserve memory for a frame
 before its bytes arrive

A five byte frame header that claims up to 4 GB made Read allocate all of
it at once, whatever then arrived.
---
 netx/connection/connection.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/netx/connection/connection.go b/netx/connection/connection.go
index b0d53ad..a8dcbac 100644
--- a/netx/connection/connection.go
+++ b/netx/connection/connection.go
@@ -2,6 +2,7 @@ package connection
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"crypto/tls"
 	"encoding/binary"
@@ -106,7 +107,7 @@ func (c *conn) ReadResponsesToSlice(ctx context.Context, r []netx.Response, b []
 }
 
 func (c *conn) Read(ctx context.Context, ct mysqlx.ClientMessages_Type) (netx.Response, error) {
-	var buf []byte
+	var buf bytes.Buffer
 	var cmd *mysqlx_resultset.ColumnMetaData
 
 	for {
@@ -131,13 +132,12 @@ func (c *conn) Read(ctx context.Context, ct mysqlx.ClientMessages_Type) (netx.Re
 				if err != bufio.ErrBufferFull {
 					return nil, err
 				}
-				if n > cap(buf) {
-					buf = make([]byte, n)
-				}
-				b = buf[:n]
-				if _, err := io.ReadFull(c.r, b); err != nil {
+				// Grow with what arrives, n is only what the peer claims will follow.
+				buf.Reset()
+				if _, err := io.CopyN(&buf, c.r, int64(n)); err != nil {
 					return nil, err
 				}
+				b = buf.Bytes()
 				n = 0 // Read n bytes, no need to Discard()
 			}
 		}
-- 
2.43.0


From 4d7cf423a79fbfe958e9a98749a110afb371e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:51 +0000
Subject: [PATCH 10/10] fix: nil encoders and nil expressions no longer make
 building panic

---
 xproto/any.go  | 12 ++++++++++++
 xproto/expr.go | 10 ++++++++++
 2 files changed, 22 insertions(+)

diff --git a/xproto/any.go b/xproto/any.go
index ad0f38d..d7a0620 100644
--- a/xproto/any.go
+++ b/xproto/any.go
@@ -343,6 +343,15 @@ type AppendAny interface {
 	AppendAny(p []byte, tag uint8) ([]byte, error)
 }
 
+var appendAnyType = reflect.TypeOf((*AppendAny)(nil)).Elem()
+
+// isNilReceiver reports whether v is a nil pointer whose encoder is a method
+// of the type pointed to, so that calling it would panic.
+func isNilReceiver(v interface{}, encoder reflect.Type) bool {
+	rv := reflect.ValueOf(v)
+	return rv.Kind() == reflect.Ptr && rv.IsNil() && rv.Type().Elem().Implements(encoder)
+}
+
 func appendAny(p []byte, tag uint8, value interface{}) ([]byte, error) {
 	if value == nil {
 		return appendAnyNull(p, tag), nil
@@ -392,6 +401,9 @@ typeSwitch:
 
 	default:
 		if ae, ok := v.(AppendAny); ok {
+			if isNilReceiver(v, appendAnyType) {
+				return appendAnyNull(p, tag), nil
+			}
 			return ae.AppendAny(p, tag)
 		}
 
diff --git a/xproto/expr.go b/xproto/expr.go
index eed6566..b7a75f0 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -2,9 +2,11 @@ package xproto
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"math"
 	"math/bits"
+	"reflect"
 	"time"
 
 	"github.com/renthraysk/xtorm/collation"
@@ -259,6 +261,8 @@ type AppendExpr interface {
 	AppendExpr(p []byte, tag uint8) ([]byte, error)
 }
 
+var appendExprType = reflect.TypeOf((*AppendExpr)(nil)).Elem()
+
 type AppendExprFunc func([]byte, uint8) ([]byte, error)
 
 func appendExpr(p []byte, tag uint8, v interface{}) ([]byte, error) {
@@ -301,9 +305,15 @@ func appendExpr(p []byte, tag uint8, v interface{}) ([]byte, error) {
 	case time.Duration:
 		return appendExprDuration(p, tag, vv), nil
 	case AppendExprFunc:
+		if vv == nil {
+			return p, errors.New("nil expression")
+		}
 		return vv(p, tag)
 	default:
 		if ae, ok := vv.(AppendExpr); ok {
+			if isNilReceiver(v, appendExprType) {
+				return appendExprNull(p, tag), nil
+			}
 			return ae.AppendExpr(p, tag)
 		}
 	}
-- 
2.43.0

