#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})

NOSRV = "The only tests that run exercise single encoder calls of xproto; nothing in netx or the builder is executed by a test (those tests need a live MySQL server), so no schedule, fault or history is ever sampled. "

prop("C01", "A guarded transaction commits entirely or not at all",
 "A transaction that is enclosed in a fail-on-error block, is the last of its unit of work and is sent through the pool takes effect completely or not at all: if its COMMIT is reported successful every effect of the transaction is durable, exactly once and in order; if its COMMIT is reported failed, no effect of it ever becomes visible, however the pool and its connections are used afterwards; if the send ends in a transport error, either all or none of it is visible. "
 "A statement reported successful outside a transaction is durable, whatever earlier units of work failed.",
 ["fault_sequences", "crash_points", "histories", "schedules"],
 "every interleaving of concurrent clients on a shared pool, every statement-level server error, connection cut at any byte in either direction, session kill, server crash and restart, and every later reuse of the connection",
 NOSRV + "Atomicity is lost only when a failure inside one unit of work meets a later unit of work on the same connection, or a cut meets a particular statement.",
 ["builder.go", "netx/pool/fifoch/fifoch.go", "netx/connection/connection.go", "xproto/expect.go"],
 [("expect block opened before and closed after the callback's messages", "builder.go ExpectFailOnError"), ("START TRANSACTION ... COMMIT bracket", "builder.go Tx"), ("pool decides whether a connection goes back", "netx/pool/fifoch/fifoch.go Send")],
 [("session transaction", "transaction left open on a server session when COMMIT was skipped", "server side, reached through pool reuse")],
 ["responses and error returned by Send", "server's committed effect log"])

prop("C02", "The server gets exactly what was built, once, in order, in one write",
 "For every send, the messages that reach the server are the messages the caller built: same kind, same order, every table, column, operator, function, statement text, id and argument value intact (integers with their signedness and full range, floats bit for bit, strings with collation, octets with content type, NULLs, dates and durations to the nanosecond), each well formed, properly bracketed and delimited. Slices, maps and pointers passed while building are read there and then and never written to. "
 "One send transmits its unit of work at most once, on one connection, in a single network write, never mixed with bytes of another unit of work; what arrives is always a prefix of it when the connection fails.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "every unit of work that can be built from the API (all message kinds, nesting, sizes across every length-prefix boundary, builder buffer capacities and reuse after reset), sent by concurrent clients under every interleaving and connection fault",
 NOSRV + "Encoder tests use a handful of small values one message at a time into an empty buffer; they never combine messages, cross the two- or three-byte length boundaries, reuse buffers, or run two clients at once.",
 ["builder.go", "crud.go", "expr.go", "xpipe.go", "xproto/any.go", "xproto/expr.go", "xproto/insert.go", "xproto/update.go", "xproto/xproto.go", "xproto/prepare.go", "xproto/expect.go", "xproto/scalar.go", "slice/slice.go", "netx/connection/connection.go", "netx/pool/fifoch/fifoch.go"],
 [("append-only message encoders", "xproto"), ("length patched after the body is known", "builder.go Insert/Update, crud.go"), ("one Write per Send, no retry", "netx/connection/connection.go Send, fifoch Send")],
 [("Builder.buf", "concatenated frames of the unit of work", "builder.go")],
 ["bytes accepted by the transport, decoded by an independent decoder"])

prop("C03", "Every statement gets its own server response, in order",
 "When a send returns without error it returns exactly one response per message of that unit of work, in order: no error for a message the server completed, and for a message the server rejected an error value with the server's severity, code, SQL state and text. "
 "A response belonging to another unit of work is never returned, and notices, result sets, frame sizes and the way the byte stream is cut into reads make no difference; a fatal error or a connection that ends before the last response is always returned as an error, and a send that met no fault and no deadline never returns one.",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "every segmentation of the response stream into reads, every mix of notices, result sets and error responses with frames of every size around the reader's buffer, every cut point, any history of earlier units of work on the connection",
 NOSRV + "No test reads a response at all.",
 ["netx/connection/connection.go", "netx/connection/errors.go", "netx/pool/fifoch/fifoch.go", "builder.go", "xpipe.go"],
 [("frame loop", "netx/connection/connection.go Read"), ("walk over the request's frames", "netx/connection/connection.go ReadResponsesToSlice")],
 [("conn.r", "buffered, not yet consumed server bytes", "netx/connection/connection.go")],
 ["responses and error returned by Send"])

prop("C04", "A unit of work that failed to build is never sent",
 "If any value cannot be encoded, any row given to Insert has the wrong number of values, an isolation level is unknown, or any callback or custom encoder returns an error while a unit of work is being built, then sending it returns that first error and no responses, transmits nothing and opens or consumes no connection, and building never panics. "
 "After a reset the same builder yields a complete and correct next unit of work.",
 ["fault_sequences", "histories", "inputs"],
 "a build fault at every position of every unit-of-work shape (nested blocks, transactions, multi-row inserts, updates, criteria), followed by any number of resets and reuses, with other clients active",
 NOSRV + "No test makes an encoder or a callback fail.",
 ["builder.go", "crud.go", "xpipe.go", "xproto/insert.go", "xproto/update.go", "xproto/xproto.go", "xproto/any.go", "xproto/expr.go"],
 [("sticky error", "builder.go Builder.err"), ("error propagated out of nested builders", "builder.go call, crud.go InsertF/UpdateF"), ("reset", "builder.go reset")],
 [("Builder.err", "first build error", "builder.go")],
 ["error returned by Send", "absence of any transport activity by that send"])

prop("C05", "A pooled connection carries one unit of work at a time",
 "At every moment each pooled connection is used by at most one in-flight send: no send writes to, reads from or sets deadlines on a connection while another send is using it, under every interleaving of concurrent senders, failures and pool close.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings, at statement granularity, of concurrent senders, dials, failures and close, for every pool size including zero and one",
 NOSRV + "The pool has no test; a double hand-out needs a particular interleaving of two senders.",
 ["netx/pool/fifoch/fifoch.go"],
 [("ownership passes through the channel", "netx/pool/fifoch/fifoch.go Send")],
 [("poolCh.ch", "idle connections", "netx/pool/fifoch/fifoch.go")],
 ["transport operations attributed to the send that issues them"])

prop("C06", "The pool never leaks connections and keeps at most its size idle",
 "Every connection the pool opens is at every moment either in use by exactly one send, idle in the pool, or closed, and is closed exactly when it leaves both: open connections never exceed the pool size plus the number of sends in flight, idle ones never exceed the pool size, and once every send has finished and the pool is closed none is left open.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of senders and close, all failures of dial, authentication, write, read and close at any point, all pool sizes",
 NOSRV + "Leaks show only on error and race paths, none of which is run.",
 ["netx/pool/fifoch/fifoch.go", "netx/connector/connector.go", "netx/connection/connection.go"],
 [("close on error, or when the pool is full", "netx/pool/fifoch/fifoch.go Send"), ("drain on close", "netx/pool/fifoch/fifoch.go Close")],
 [("poolCh.ch", "idle connections, capacity = pool size", "netx/pool/fifoch/fifoch.go")],
 ["sockets dialled and closed"])

prop("C07", "Closing the pool is safe at any moment and final",
 "Close may be called at any time, by any number of callers, with any number of sends in flight, without panic or deadlock; sends already in flight complete normally and their connections are closed when they finish. "
 "Once Close has returned without error and no other Close is running every idle connection is closed, and every later send fails with the pool-closed error (or its own context's error) without opening or using a connection.",
 ["schedules", "histories"],
 "all interleavings of close (repeated, concurrent, with a live or cancelled context) with senders at every stage: dialling, writing, waiting, handing the connection back",
 NOSRV + "The outcome depends on whether close falls before, between or after the channel operations of a concurrent send.",
 ["netx/pool/fifoch/fifoch.go", "netx/pool/pool.go"],
 [("drain and close of the idle channel", "netx/pool/fifoch/fifoch.go Close"), ("hand-back after send", "netx/pool/fifoch/fifoch.go Send")],
 [("poolCh.ch", "idle connections", "netx/pool/fifoch/fifoch.go")],
 ["panics, errors returned, sockets open after close"])

prop("C08", "A context deadline bounds every wait and never outlives its send",
 "A send, or the opening of a connection, with a context deadline returns no later than that deadline however the server or network stalls (dial, TLS, authentication, write, response), and an already expired deadline transmits nothing of the unit of work. "
 "A deadline affects only its own call: a later call on the same connection never times out before its own deadline, and never if it has none. A cancelled context likewise ends the wait.",
 ["fault_sequences", "schedules", "histories"],
 "stalls, partitions and slow delivery at every byte of dial, handshake, authentication, request and response; any history of earlier deadlines on a reused connection; any clock advance between steps",
 NOSRV + "No test uses a deadline; the outcome depends on where the stall falls and on the connection's earlier deadlines.",
 ["netx/connection/connection.go", "netx/connector/connector.go", "netx/pool/fifoch/fifoch.go"],
 [("SetDeadline from the context before every exchange, zero clears it", "netx/connection/connection.go Send/WriteOne"), ("context passed to dial", "netx/connector/connector.go New")],
 [("socket deadline", "absolute read/write deadline of the socket", "net.Conn")],
 ["simulated time at return, simulated time of timeouts"])

prop("C09", "Opening a connection succeeds only if authenticated, else leaves nothing",
 "Opening a connection either returns a connection on which the server has accepted the configured user and database, or returns an error and leaves no open socket; this holds whatever fails, stalls until the deadline, or is cut at whatever point of dialling, TLS negotiation, authentication and its fallback, and whatever the server answers. "
 "A rejection by the server is returned as an error that carries the server's code and text.",
 ["fault_sequences", "crash_points", "schedules", "inputs"],
 "every fault at every byte of connection establishment, every server answer including rejections and malformed or unexpected messages, concurrent opens from one connector",
 NOSRV + "No test opens a connection.",
 ["netx/connector/connector.go", "netx/connection/connection.go", "netx/connection/errors.go"],
 [("close on failed authentication or handshake", "netx/connector/connector.go New"), ("authentication dialogue", "netx/connection/connection.go Authenticate")],
 [], ["result of opening a connection", "sockets left open", "server's session state"])

prop("C10", "The password never crosses an insecure transport in the clear",
 "Unless the caller explicitly chose PLAIN authentication, no byte sequence sent over a TCP connection without TLS ever contains the password, its unsalted hash or the hash of that hash (raw or hexadecimal), whatever the server answers, including false access-denied errors, unexpected challenges, TLS refusals and repeated rejections. "
 "Challenge responses depend on the server's challenge.",
 ["fault_sequences", "inputs", "histories"],
 "every server answer sequence, honest or hostile, during authentication and TLS negotiation, for every mechanism, credential and challenge, on TCP, TLS and Unix-domain transports",
 NOSRV + "The danger is in the fallback path taken only on a particular server answer.",
 ["netx/connector/connector.go", "netx/connection/connection.go", "netx/connector/authentication/mysql41/mysql41.go", "netx/connector/authentication/sha256/sha256.go", "netx/connector/authentication/plain/plain.go"],
 [("PLAIN fallback only when the transport is secure", "netx/connector/connector.go New, connection.go IsSecure"), ("salted challenge response", "authentication/mysql41, authentication/sha256")],
 [], ["every byte written to a simulated TCP socket"])

prop("C11", "With TLS configured nothing but the negotiation travels in the clear",
 "When a TLS configuration is given for a TCP connection, the only plaintext the client ever sends is the request to switch to TLS; credentials and units of work are sent only after a completed handshake that satisfied the configuration. "
 "If the server refuses TLS, answers undecodably, presents an unacceptable certificate, breaks off, or injects plaintext, the connection is not returned, the error is reported without waiting for further server input, and the socket is closed; plaintext received before the handshake never counts as part of the secured session.",
 ["fault_sequences", "crash_points", "inputs"],
 "every server behaviour during negotiation (refusal, silence, early close, wrong certificate, injected plaintext before, after or in the same segment as the acceptance, cuts at every byte), then normal use",
 NOSRV + "No test uses TLS.",
 ["netx/connector/connector.go", "netx/connection/connection.go", "xproto/authentication.go"],
 [("capability exchange, handshake, reader reset", "netx/connector/connector.go New, connection.go Reset")],
 [("conn.r", "buffered plaintext that must be dropped at the switch", "netx/connection/connection.go")],
 ["plaintext bytes sent", "result of opening the connection"])

prop("C12", "Damaged or hostile server bytes never panic or fake success",
 "Whatever bytes the server side of a connection delivers (truncated, corrupted, malformed, unknown or out-of-place frames), no call panics or reserves memory for more than actually arrives, and a send never reports more completed statements than success messages were actually received for it, never invents a server error, and never returns without error when the stream ended or turned undecodable before its last response. "
 "A pooled connection on which that happened is closed, never used again.",
 ["inputs", "fault_sequences"],
 "arbitrary corruption of the byte stream at any position, any sequence of well- or ill-formed frames at any protocol state, any segmentation",
 NOSRV + "The decoder of server messages is not run by any test.",
 ["netx/connection/connection.go", "netx/connector/connector.go", "netx/pool/fifoch/fifoch.go"],
 [("frame length check and typed decoding", "netx/connection/connection.go Read")],
 [], ["result of sends and opens compared with a reference reading of the delivered bytes"])

prop("C13", "Once faults stop the pool recovers and every send completes",
 "After the last fault (server back, network healed) every send in flight returns within a bounded number of steps, and each connection broken by the faults can fail at most one further send; after that every send on every client succeeds. "
 "No send or close ever blocks on another client's stalled connection.",
 ["fault_sequences", "schedules", "configurations"],
 "every fault history followed by a fault-free period, all interleavings, all pool sizes, units of work of any size",
 NOSRV + "Recovery needs a fault history first.",
 ["netx/pool/fifoch/fifoch.go", "netx/connection/connection.go", "netx/connector/connector.go"],
 [("broken connections discarded, new ones dialled on demand", "netx/pool/fifoch/fifoch.go Send")],
 [], ["progress of sends after the last fault"])

prop("C14", "A broken or doubtful connection is never used again by the pool",
 "A connection on which a send ended in an error of any kind (write or read failure, timeout, end of stream, protocol violation, fatal server error), or in which the server rejected any message of the unit of work, is closed before that send returns and is never handed to another send.",
 ["fault_sequences", "schedules", "histories"],
 "every error kind at every point of a send, any interleaving with other senders",
 NOSRV + "No test makes a send fail.",
 ["netx/pool/fifoch/fifoch.go", "netx/connection/connection.go"],
 [("close instead of hand-back", "netx/pool/fifoch/fifoch.go Send"), ("fatal errors surfaced as errors", "netx/connection/connection.go Read")],
 [("poolCh.ch", "idle connections", "netx/pool/fifoch/fifoch.go")],
 ["socket closed before the send returns", "later transport operations on it"])

prop("C15", "Idle connections are reused first in, first out, before dialling",
 "A send takes the connection that has been idle longest, and opens a new one only if none is idle; a healthy connection handed back while the pool has room is kept for reuse.",
 ["schedules", "histories", "configurations"],
 "all interleavings of concurrent senders, all pool sizes, any history of hand-backs",
 NOSRV + "The pool has no test.",
 ["netx/pool/fifoch/fifoch.go"],
 [("buffered channel used as a queue", "netx/pool/fifoch/fifoch.go")],
 [("poolCh.ch", "queue of idle connections", "netx/pool/fifoch/fifoch.go")],
 ["order in which sockets are used", "dials"])

prop("C16", "Valid credentials authenticate with every mechanism, also concurrently",
 "With correct credentials and a reachable server every authentication mechanism succeeds for every user, password and database name, every challenge the server issues and every segmentation of its answers, and concurrent opens from one connector never disturb each other. "
 "The configured mechanism is the first one tried. On a secure transport an access-denied answer is retried once with PLAIN, so an account whose password hash is not cached by the server still connects; the session then has the configured user and database.",
 ["inputs", "schedules", "configurations", "histories"],
 "all credentials (empty, long, binary), all challenges, all mechanisms and transports, concurrent opens interleaved at statement granularity, server password-cache states",
 NOSRV + "No test authenticates.",
 ["netx/connection/connection.go", "netx/connector/connector.go", "netx/connector/authentication/mysql41/mysql41.go", "netx/connector/authentication/sha256/sha256.go", "netx/connector/authentication/plain/plain.go", "xproto/authentication.go", "slice/slice.go"],
 [("start/continue dialogue", "netx/connection/connection.go Authenticate"), ("PLAIN fallback", "netx/connector/connector.go New")],
 [], ["server's verification of the response with an independent implementation"])

prop("C17", "Each transaction runs at its requested isolation level",
 "Every statement built inside a (not nested) transaction callback executes, unless the server rejected an earlier message of the unit of work, inside one server transaction that was started for it, at exactly the isolation level the caller asked for (or with a consistent snapshot, or at the server default), and neither the level nor an open transaction ever carries over to another unit of work that later uses the same pooled connection.",
 ["histories", "fault_sequences", "schedules"],
 "all isolation levels in any order over reused connections, errors at every statement including those that set the level or start the transaction, concurrent clients",
 NOSRV + "Carry-over needs a history of units of work on one connection.",
 ["builder.go", "netx/pool/fifoch/fifoch.go"],
 [("SET TRANSACTION before START TRANSACTION", "builder.go Tx"), ("connections with failed units of work are not reused", "netx/pool/fifoch/fifoch.go Send")],
 [("session's next-transaction isolation level", "one-shot level set on the server session", "server side")],
 ["isolation level and transaction under which the server executed each statement"])

prop("C20", "A half-built unit of work can neither be sent nor disturbed",
 "While the callback of a fail-on-error block, a transaction, InsertF or UpdateF runs, every call on an enclosing builder, Send and Reset included, is refused with a panic and changes nothing: nothing is transmitted, no connection is used, and if the callback goes on with the builder it was given, the unit of work finally sent is exactly what the callbacks built. "
 "If a callback panics, nothing of its unit of work is ever transmitted.",
 ["histories", "crash_points", "inputs"],
 "a misplaced call of every kind, or a panic, at every point of every callback of every unit-of-work shape, with other clients active on the same pool",
 NOSRV + "The effect of a misplaced call depends on the nesting, on what was built before it and on how full the shared buffer is.",
 ["builder.go", "crud.go", "xpipe.go"],
 [("enclosing builders are disabled while a callback runs", "builder.go call, crud.go InsertF/UpdateF")],
 [("Builder.disabled", "a callback of this builder is running", "builder.go"), ("Builder.buf", "buffer shared by a builder and the callback's builder", "builder.go")],
 ["panics of misplaced calls", "transport activity", "messages the server receives"])

prop("C21", "Finished calls leave nothing running",
 "Once every call has returned, every context given to one is done (or can never be), and the pool and the directly opened connections are closed, nothing the library started is still running or waiting: no goroutine of it remains, however the calls ended (success, server error, broken connection, expired deadline, cancellation, pool closed). While the pool is in use, what remains after the calls does not grow with their number.",
 ["schedules", "crash_points", "histories"],
 "all ways a call can end, at every point of dialling, TLS, authentication, writing and reading, with concurrent senders and closers, followed by hours of simulated time",
 NOSRV + "A leaked goroutine shows in no result; it takes a failing or abandoned call at the right moment to leave one behind.",
 ["netx/connection/connection.go", "netx/connector/connector.go", "netx/pool/fifoch/fifoch.go"],
 [("calls do all their work in the goroutine of the caller", "netx/connection/connection.go Send, netx/connector/connector.go New, netx/pool/fifoch/fifoch.go Send and Close")],
 [("tasks started by the library", "goroutines and timer functions started by library code", "seen through the rewritten go statements")],
 ["goroutines of the library alive after the last call"])

prop("C22", "Goroutines sharing a pool or a connector never race",
 "Any number of goroutines may use the same pool and the same connector at the same time, sending, opening connections and closing the pool, each with its own builder and contexts. Whatever the schedule and however the calls end, no two goroutines ever access the same memory, at least one of them writing, without synchronisation that orders the accesses (no data race in the sense of the Go memory model): not in the pool, the connector or the authentication mechanism, not in a connection passed on from one goroutine to another, not in builders, and not in package-level state.",
 ["schedules", "histories", "crash_points"],
 "all interleavings of senders, openers and closers sharing a pool and a connector, with every transport and mechanism, failing and successful calls",
 NOSRV + "No test runs two goroutines; a race corrupts results only when two accesses really coincide, but it is visible in the ordering of the accesses in every execution that performs both.",
 ["netx/pool/fifoch/fifoch.go", "netx/connector/connector.go", "netx/connection/connection.go", "netx/connector/authentication/"],
 [("connections pass between goroutines through a channel, closing is guarded by a lock", "netx/pool/fifoch/fifoch.go"), ("the connector and the mechanisms are not changed by opening a connection", "netx/connector/connector.go New, netx/connector/authentication")],
 [("poolCh", "channel of idle connections and closed flag", "netx/pool/fifoch/fifoch.go"), ("Connector", "configuration shared by all opens", "netx/connector/connector.go")],
 ["memory accesses of the library and the happens-before order between them"])

prop("C18", "DECIMAL values decode to the number the server sent",
 "The textual and decomposed forms of a packed decimal value denote exactly the digits, sign and scale the server encoded.",
 ["inputs"], "all packed decimals up to the server's maximum precision",
 "No test covers the type.", ["types/decimal.go"], [("packed BCD decoding", "types/decimal.go")])

prop("C19", "Collation numbers and names correspond to the server's",
 "Every collation constant prints the server's name for that number, unknown numbers print as such, and only the binary collation reports itself binary.",
 ["inputs"], "all collation numbers", "No test covers the table.", ["collation/collation.go"], [("table of offsets", "collation/collation.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
