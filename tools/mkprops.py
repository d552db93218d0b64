#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, stmt, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Parsing any bytes never panics, stays in bounds, exposes no stale data",
  "For every byte sequence handed to a message buffer of any size, parsing returns without panicking, and every identifier, name, payload and sub-protocol slice it exposes lies inside the bytes just received. Input larger than the buffer is refused with an error. Parsing into a message that was used before exposes nothing of the earlier message: absent fields are empty.",
  ["inputs", "histories"], "all byte sequences, all buffer sizes, all previous contents of the message object",
  "The tests parse a few dozen generated messages into fresh buffers; slice arithmetic over attacker-chosen length flags has to be safe for every length/flag combination and every earlier use of a pooled message.",
  ["message/read.go", "message/parse.go", "message/parseRequest.go", "message/parseRequestUtf16.go", "message/parseSignal.go", "message/parseSignalUtf16.go", "message/parseReply.go", "message/parseReplyUtf16.go", "message/parseErrorReply.go", "message/parseAcceptConf.go", "message/buffer.go"],
  [("length guards before every slice expression", "message/parse*.go"), ("overflow guard", "message/read.go ReadBytes")],
  ["Message.ReadBytes and the exported fields of Message"])
p("C02", "Parser accepts exactly the documented layouts and decodes them exactly",
  "A received byte sequence is accepted if and only if it is an instance of the layout documented for its type byte (minimum or exact length, name-length flag covered by the data, UTF-16 messages aligned with their header padding). On acceptance the reported type, identifier, name, payload, payload encoding and server configuration are exactly the corresponding bytes; an unknown type byte is reported as undetermined type with an error.",
  ["inputs"], "all byte sequences, all 256 type bytes",
  "Tests sample valid messages and a handful of corruptions; acceptance at every boundary (flag 255, odd names with padding, name-only messages) needs all inputs.",
  ["message/parse.go", "message/parseRequest.go", "message/parseRequestUtf16.go", "message/parseSignal.go", "message/parseSignalUtf16.go", "message/parseReply.go", "message/parseReplyUtf16.go", "message/parseErrorReply.go", "message/parseRestoreSession.go", "message/parseCloseSession.go", "message/parseSpecialReplyMessage.go", "message/parseAcceptConf.go", "message/parseSessionCreated.go", "message/parseSessionClosed.go", "message/parseHeartbeat.go"],
  [("per-type parser", "message/parse*.go"), ("type dispatch", "message/parse.go parse")],
  ["Message.ReadBytes"])
p("C03", "Message composers emit exactly the documented frame or nothing",
  "For all arguments, each message composer either writes exactly the documented frame for those arguments, in order, or returns an error. Arguments the protocol forbids (request without name and payload, name or error code longer than 255 bytes, empty error code, odd UTF-16 payload, characters outside printable ASCII in checked names and codes, non-special type for a special reply) are answered with an error and not a single byte is written; all other arguments succeed when the writer does not fail.",
  ["inputs", "fault_sequences"], "all identifiers, names, payloads, encodings, check modes and all writer failures",
  "Tests compare a few frames; the name-length table, padding and validation boundaries need every length and every character.",
  ["message/writeMsgRequest.go", "message/writeMsgSignal.go", "message/writeMsgReply.go", "message/writeMsgErrorReply.go", "message/writeMsgSpecialRequestReply.go", "message/writeMsgNamelessRequest.go", "message/writeMsgHeartbeat.go", "message/writeMsgSessionCreated.go", "message/writeMsgSessionClosed.go", "message/newAcceptConfMessage.go", "message/messageParts.go"],
  [("composers", "message/writeMsg*.go"), ("shared constant parts", "message/messageParts.go")],
  ["bytes handed to the io.WriteCloser"])
p("C04", "Every composed message parses back to what was composed",
  "For all arguments a composer accepts (with non-empty content where the protocol demands content), parsing the emitted bytes succeeds and yields the same message type, identifier, name, payload bytes and payload encoding. For error replies the error code comes back as the name and the error message as the payload (its reported encoding aside); the server configuration push comes back field by field.",
  ["inputs"], "all identifiers, names up to 255 bytes, payloads, encodings",
  "Round-trip tests use random short ASCII names; padding for odd names, name-only messages and 255-byte names are never combined exhaustively.",
  ["message/writeMsgRequest.go", "message/writeMsgSignal.go", "message/writeMsgReply.go", "message/writeMsgErrorReply.go", "message/writeMsgSpecialRequestReply.go", "message/newAcceptConfMessage.go", "message/parse.go"],
  [("composer/parser pairs", "message/")], ["WriteMsg* into ReadBytes"])
p("C05", "Composers close the writer exactly once and never hide a failure",
  "Whatever happens (validation failure, a failing write at any position, a failing close), each message composer closes the writer it was given exactly once and does not write after closing it. It returns a nil error only if every write and the close succeeded.",
  ["inputs", "fault_sequences"], "all arguments and all positions at which the writer fails",
  "A writer that is not closed keeps its socket locked forever; tests never make a writer fail.",
  ["message/writeMsgRequest.go", "message/writeMsgSignal.go", "message/writeMsgReply.go", "message/writeMsgErrorReply.go", "message/writeMsgSpecialRequestReply.go", "message/writeMsgNamelessRequest.go", "message/writeMsgHeartbeat.go", "message/writeMsgSessionCreated.go", "message/writeMsgSessionClosed.go", "handleConnection.go"],
  [("close on every exit path", "message/writeMsg*.go")], ["io.WriteCloser.Close calls"])
p("C06", "Outgoing signals respect the message buffer size and need content",
  "A server-side signal call without name and payload is refused with a protocol error, and one whose encoded size would exceed the configured message buffer size is refused with a buffer overflow error; in both cases nothing is sent. The size computed in advance for signals and requests equals the number of bytes the composer writes, for every name, encoding and payload; all other valid signals are sent completely.",
  ["inputs", "configurations"], "all names, payloads, encodings and buffer sizes",
  "Tests check one size around the limit; padding makes the size depend on name parity and encoding.",
  ["connection.go", "message/calcMsgLen.go", "message/writeMsgSignal.go", "message/writeMsgRequest.go"],
  [("size check before a writer is requested", "connection.go Signal"), ("size computation", "message/calcMsgLen.go")],
  ["Connection.Signal result and the socket writer"])
p("C07", "Reading a message from a stream is independent of its chunking",
  "Reading a message from a byte stream yields the complete stream content whenever it fits the message buffer, however the stream splits it into reads, including an end-of-stream reported together with the last bytes. A stream longer than the buffer is refused with an error and leaves the message empty; reader errors are returned and leave the message empty.",
  ["inputs", "fault_sequences"], "all stream contents, chunkings, reader errors and buffer sizes",
  "Tests read from one bytes.Reader; the reader contract allows arbitrary short reads, zero reads and combined data+EOF.",
  ["message/buffer.go", "message/read.go"], [("fill loop with overflow probe", "message/buffer.go Read")], ["Message.Read"])
p("C08", "UTF-8 view of a payload equals its text",
  "The UTF-8 view of a UTF-16 payload is the UTF-8 encoding of exactly the code points the little-endian UTF-16 data encodes, surrogate pairs included, with U+FFFD for unpaired surrogates. Odd-length UTF-16 data yields an error; binary and UTF-8 payloads are passed through unchanged.",
  ["inputs"], "all payload bytes, lengths and encodings",
  "One BMP-only string is tested; supplementary characters and lone surrogates are not.",
  ["payload/payload.go"], [("conversion loop", "payload/payload.go Utf8")], ["Payload.Utf8, Message.PayloadUtf8"])
p("C09", "A closed message is reset and recycled exactly once",
  "Closing a message clears its type, identifier, name, payload and configuration, empties its buffer and hands it back to its pool exactly once; closing it again does nothing. Reading name, payload, encoding or identifier of a closed message is refused by a panic rather than exposing recycled data, and exactly the five client request types are reported as requiring a reply. The server closes every message it received exactly once, once it is done with it - a request or signal after its handler returned - and does not use the message or its buffer afterwards, as the buffer may already hold another message.",
  ["inputs", "histories"], "all message contents and close/access sequences",
  "Double-recycling shows only when two owners hold the same pooled buffer; tests check one close.",
  ["message/message.go", "message/syncPool.go", "message/buffer.go", "handleMessage.go", "handleRequest.go"], [("empty-buffer guard", "message/message.go Close")], ["Message accessors and the pool"])
p("C10", "Pending requests have unique identifiers and are resolved at most once",
  "Concurrently created requests get pairwise distinct identifiers and are pending until resolved. Under every schedule a request is resolved by at most one reply or failure: exactly one resolver reports success, the others report that nothing was pending, no resolver blocks, and the awaiting caller gets exactly the first resolver's reply or error.",
  ["schedules", "histories"], "all interleavings of create, fulfill, fail, time-out and queries",
  "Tests resolve sequentially; the guarantee is about races between reply, failure and time-out.",
  ["requestManager/requestManager.go", "requestManager/request.go"],
  [("identifier counter", "requestManager/requestManager.go Create"), ("locked pending table", "requestManager/requestManager.go"), ("one-slot reply channel", "requestManager/requestManager.go Create")],
  ["RequestManager methods, Request.AwaitReply"])
p("C11", "The session registry counts exactly the registered connections",
  "Registering a connection adds exactly that connection to its session and removing it removes exactly that connection; no other connection or session is affected and a session disappears exactly when its last connection does. Removal reports the number of connections left, or -1 with no effect when the connection was not registered; session and connection counts and the list of connections always agree with the registered set.",
  ["histories", "inputs"], "all sequences of registrations and removals over all connections and keys",
  "Tests register a few connections; the claim is about every reachable registry state, including foreign and repeated removals.",
  ["sessionRegistry.go", "server.go"], [("keyed connection sets", "sessionRegistry.go register/deregister")],
  ["Server.ActiveSessionsNum, SessionConnectionsNum, SessionConnections"])
p("C12", "A connection's session and its registration always agree",
  "Whenever no session operation is in progress on a connection, it is registered under exactly the key of the session it reports, or nowhere if it has no session. Creating, restoring and closing sessions and disconnecting preserve this under every interleaving; a connection with an active session refuses a second one, and a refused or failed operation leaves session and registration unchanged.",
  ["schedules", "histories"], "all interleavings of session operations on any number of connections",
  "Tests run one operation at a time on one or two connections.",
  ["connection.go", "handleSessionRestore.go", "handleSessionClosure.go", "sessionRegistry.go"],
  [("session lock", "connection.go"), ("registry lock", "sessionRegistry.go")],
  ["Connection.HasSession/SessionKey, Server.SessionConnections"])
p("C13", "A session never has more connections than allowed",
  "With a positive limit on connections per session, no session ever has more registered connections than the limit, whatever the interleaving of creations and restorations. An attempt beyond the limit is answered with the dedicated max-connections-reached reply and changes nothing, and it never crashes the server.",
  ["schedules", "configurations"], "all limits and all concurrent restoration attempts",
  "The existing test restores sequentially; check-then-register races need two simultaneous restorations.",
  ["sessionRegistry.go", "handleSessionRestore.go", "connection.go"], [("limit check inside the registry lock", "sessionRegistry.go register")],
  ["reply to the restoration request"])
p("C14", "Every request is answered exactly once and nothing else is answered",
  "While the connection's writer works, each processed request (named, restore-session, close-session) is answered by exactly one reply frame carrying that request's identifier, whatever the handler returns. Signals, heartbeats and messages of unexpected type are never answered.",
  ["inputs", "histories", "schedules"], "all message contents, handler results and server states",
  "Tests check the reply content of the happy paths, not the absence of second or missing replies for arbitrary handler results.",
  ["handleMessage.go", "handleRequest.go", "handleSessionRestore.go", "handleSessionClosure.go", "handleSignal.go", "failMsg.go", "fulfillMsg.go", "registerHandler.go"],
  [("single reply call per handler path", "handle*.go"), ("reply composition", "failMsg.go, fulfillMsg.go")], ["frames written to the socket"])
p("C15", "Replies faithfully reflect the handler result and leak no internal error",
  "A handler's payload is delivered unchanged in a reply of the same encoding; a request error is delivered with its code and message; any other error is delivered as the bare internal-error reply that carries no text of the error. Sessions-disabled, session-not-found, max-connections and shutdown conditions each produce their dedicated reply type.",
  ["inputs"], "all payloads, encodings, error types and values",
  "Tests cover one value per kind.",
  ["failMsg.go", "fulfillMsg.go", "handleRequest.go", "handleSessionRestore.go", "handleSessionClosure.go"],
  [("error type switch", "failMsg.go")], ["frames written to the socket"])
p("C16", "Graceful shutdown waits for running handlers and starts no new ones",
  "Once shutdown was requested no further request or signal handler is started: requests are answered with the shutdown reply, signals are dropped silently. Shutdown closes the transport only after every handler that had been accepted has finished, and the wake-up happens exactly once whatever the interleaving.",
  ["schedules"], "all interleavings of arriving messages, finishing handlers and the shutdown call",
  "The tests arrange one late request and one late signal; the accounting must hold for every interleaving.",
  ["server.go", "registerHandler.go", "deregisterHandler.go", "handleMessage.go", "isShuttingDown.go"],
  [("operation counter under its lock", "registerHandler.go, deregisterHandler.go"), ("ready channel", "server.go Shutdown")],
  ["ServerImplementation hooks, Transport.Shutdown"])
p("C17", "Closing a connection is deferred until its work is done, and happens once",
  "A connection marked for closing is disconnected from its socket and session registry only when none of its handlers is running any more, by the close call itself if idle and otherwise by the last handler to finish. It is disconnected exactly once however often closing is requested, and messages arriving on a closing connection start no handler.",
  ["schedules"], "all interleavings of close calls, arriving messages and finishing handlers",
  "Tests close connections while at most one handler runs.",
  ["connection.go", "registerHandler.go", "deregisterHandler.go"], [("task counter and active flag under one lock", "connection.go")],
  ["Socket.Close calls"])
p("C18", "Handler concurrency per connection stays within the configured limit",
  "With a concurrency limit above one, never more than that many handlers of a connection run at once; with a limit of zero or one they run one after another on the connection's own goroutine; below zero they are unlimited. Every handler slot taken is released exactly once on every path, so the connection never stalls.",
  ["schedules", "configurations"], "all limits and all paths through message handling",
  "The test observes one limit and normal handler completion; slot leaks on rejection paths stall only later.",
  ["registerHandler.go", "deregisterHandler.go", "handleMessage.go", "connection.go"], [("weighted semaphore", "connection.go handlerSlots")],
  ["number of concurrently running hooks"])
p("C19", "Shared state is accessed only under its lock and locks are never leaked",
  "The state the library shares between goroutines (connection state and session, session registry, operation counter, pending request table, connection lists) is read and written only while its lock is held. Every function releases each lock it takes on every path, error and panic paths included, takes none it already holds, and locks are taken in one global order.",
  ["schedules", "inputs"], "all paths through every function that takes a lock, all interleavings",
  "Race detector runs only see executed schedules; a leaked lock on a rare error path hangs much later.",
  ["connection.go", "sessionRegistry.go", "server.go", "registerHandler.go", "deregisterHandler.go", "isShuttingDown.go", "handleConnection.go", "handleSessionClosure.go", "requestManager/requestManager.go", "transport/memchan/socket.go", "transport/memchan/buffer.go", "transport/memchan/transport.go"],
  [("mutexes", "as anchored")], ["data races, blocked calls"])
p("C20", "No client input or hook result can crash the server",
  "Handling any message in any server and connection state never panics in library code: missing results, failing sockets, hooks that return errors, sessions disabled, shutdown and disconnects included. A panic of a session-closed hook is contained.",
  ["inputs", "fault_sequences", "schedules"], "all messages, hook results, socket failures and connection states",
  "Each crash needs a specific failure at a specific point that tests do not inject.",
  ["handleConnection.go", "handleMessage.go", "handleRequest.go", "handleSessionRestore.go", "handleSessionClosure.go", "failMsg.go", "fulfillMsg.go", "sessionRegistry.go", "connection.go", "newServer.go"],
  [("error checks", "handle*.go"), ("recover around the destroy hook", "sessionRegistry.go")], ["process crash"])
p("C21", "Session files never leave the session directory",
  "Whatever session key a client or key generator supplies, the default session manager reads, writes and deletes only files directly inside its session directory, one distinct file per key (and a temporary file that no key names). A key that cannot name such a file is treated as an unknown session on lookup.",
  ["inputs"], "all session keys",
  "Tests use generated base64 keys; path separators and dot segments arrive from the network in restore requests.",
  ["defaultSessionManager.go"], [("file path derivation", "defaultSessionManager.go filePath")], ["file system calls"])
p("C22", "Session info values handed out are isolated copies",
  "Values and copies obtained from a generic session info object are deep copies equal to the stored data, through every nesting of maps (keys included), slices, arrays, interfaces and exported struct fields: mutating a nested map or slice of a copy never changes the session, and vice versa (pointers, channels, functions and unexported struct fields are shared). Copying never panics, a missing field is nil, the field list names every field once, the variable map holds exactly the fields with their values, and a cloned session has equal data and a copied info object.",
  ["inputs", "histories"], "all nestings of maps, slices, interfaces and scalars",
  "Two fixed nestings are tested; the property is over all value shapes.",
  ["genericSessionInfo.go", "sessionInfoToVarMap.go", "session.go"], [("reflective deep copy", "genericSessionInfo.go copyRecursive"), ("clone", "session.go Session.Clone"), ("variable map", "sessionInfoToVarMap.go")], ["SessionInfo.Copy/Value"])
p("C23", "Server start-up validates options and announces them to every client",
  "Creating a server fails for a missing implementation or transport, for a message buffer size between 1 and 31, and for a read timeout that does not fit the handshake; otherwise unset options get their documented defaults and set options are kept. Every accepted connection first receives exactly one configuration frame announcing protocol 2.0, the effective read timeout, buffer size and sub-protocol name; if that cannot be sent the socket is closed and no hook runs.",
  ["inputs", "configurations", "fault_sequences"], "all option values and socket failures during the handshake",
  "Tests check a few option combinations and never fail the handshake.",
  ["serverOptions.go", "newServer.go", "handleConnection.go", "message/newAcceptConfMessage.go"],
  [("option defaults", "serverOptions.go Prepare"), ("handshake", "handleConnection.go")], ["first frame on a connection"])
p("C24", "In-memory transport delivers complete messages and always frees its writer",
  "With the in-memory transport a frame reaches the peer exactly as the concatenation of the writes or not at all: an overflowing or empty frame delivers nothing and reports an error. Closing a writer always makes the connection writable again, also after validation failures, overflow, and disconnection, and never before the frame was handed over.",
  ["inputs", "fault_sequences"], "all write sequences, sizes and connection states",
  "Tests never close a writer without data on a live socket; one such close blocks the connection forever.",
  ["transport/memchan/buffer.go", "transport/memchan/socket.go"], [("buffer lock and writer lock", "transport/memchan/buffer.go, socket.go")],
  ["Socket.GetWriter / Close / Read"])
p("C25", "Session life-cycle hooks fire exactly when they should",
  "Creating a session notifies the client with exactly the session data, then calls the created hook once; a failed notification creates nothing. The destroyed hook is called exactly once with the session's key when its last connection closes the session explicitly, and never when a connection merely disconnects or when other connections remain.",
  ["histories", "fault_sequences"], "all session states, notification failures and connection counts",
  "Tests look at single life cycles.",
  ["connection.go", "sessionRegistry.go", "handleSessionClosure.go", "newServer.go"], [("destroy flag", "sessionRegistry.go deregister")], ["SessionManager hooks"])
p("C26", "A restored session equals the stored one",
  "When a restoration request succeeds, the connection's session has the requested key and the creation time, last-lookup time and parsed info the session manager returned, and the reply carries exactly that session. A failed or empty lookup, or disabled sessions, leave the connection without change and are answered with the corresponding reply.",
  ["inputs", "fault_sequences"], "all keys, lookup results and failures",
  "Tests restore one or two sessions and compare some fields.",
  ["handleSessionRestore.go", "sessionLookupResult.go", "connection.go"], [("assignment from the lookup result", "handleSessionRestore.go")], ["Connection.Session after restore"])
p("C27", "The default session manager stores and returns sessions faithfully",
  "Saving a created session and looking it up returns the saved creation time, last-lookup time and info; a lookup updates only the stored last-lookup time. Closing a session removes exactly its file, after which a lookup reports it as not found, also when other lookups run at the same time; unreadable or corrupt files are reported as errors and never as sessions.",
  ["inputs", "histories", "fault_sequences"], "all sessions, lookup sequences and file-system failures",
  "Tests perform one lookup on a healthy file system.",
  ["defaultSessionManager.go"], [("session file save and parse", "defaultSessionManager.go")], ["SessionManager hooks on the file system"])
p("C28", "Waiting for a reply ends with the right outcome and frees the request",
  "Awaiting a request returns the delivered reply or failure, or, when its context ends first, a deadline-exceeded or canceled error matching the reason, which the library's time-out and cancellation predicates classify correctly. After a context end the request is no longer pending.",
  ["schedules", "inputs"], "all context errors and reply races",
  "Tests use one deadline and one cancellation.",
  ["requestManager/request.go", "translateContextError.go", "errors.go"], [("select on context and reply", "requestManager/request.go AwaitReply")], ["AwaitReply result"])
p("C29", "Graceful shutdown eventually completes",
  "If every running handler eventually returns, a requested shutdown eventually completes, for every interleaving.",
  ["schedules"], "all fair schedules", "Liveness: no finite test settles it.", ["server.go", "deregisterHandler.go"], [("ready channel", "server.go Shutdown")])
p("C30", "Generated session keys are unpredictable and never repeat",
  "Session keys produced by the default generator are computationally unpredictable and do not repeat in practice.",
  ["inputs"], "all generator outputs", "Statistical/cryptographic claim; tests can only look at samples.", ["session.go"], [("cryptographic random source", "session.go generateRandomBytes")])
p("C31", "A crash never leaves a corrupt session file",
  "If the process stops at any moment while a session file is created or updated, a later lookup finds either the previous or the new complete session, never a truncated one.",
  ["crash_points"], "all crash points inside a session file write", "Tests never crash during a write.", ["defaultSessionManager.go"], [("whole-file write", "defaultSessionManager.go Save")])
p("C32", "Idle clients are disconnected after the read timeout",
  "A client that sends nothing for the configured read timeout is disconnected, and one that keeps sending heartbeats is not.",
  ["schedules"], "all timings", "Real-time behaviour; tests sample one timing.", ["handleConnection.go", "transport/memchan/socket.go"], [("read deadline", "handleConnection.go")])
p("C33", "Messages of one connection are handled in arrival order when sequential",
  "With sequential handling, the hooks of one connection run in exactly the order in which the client's messages arrived, each starting after the previous one returned.",
  ["schedules", "histories"], "all message sequences", "Whole-history ordering; tests send few messages.", ["handleConnection.go", "handleMessage.go"], [("per-connection loop", "handleConnection.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for d in P: jsonschema.validate(d, sch)
except ImportError: pass
print(len(P), "properties")
