# Single source for properties.jsonl and the MANIFEST (run tools/gen.py after editing).
# Each entry: id, title, statement, over, text, why, files, mechanism[(name, where)], observe[], technique, note
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, na=na))

prop("C01", "Every protocol message survives the wire, in the MCP wire format",
 "Any request, response or notification the SDK can express, serialised for a transport and parsed back, is the same message with the same id (string or integer, unchanged), kind, method and field values. The serialised form is one JSON-RPC 2.0 object: \"jsonrpc\":\"2.0\", the method name the MCP specification assigns to that message (for elicitation, the SDK's documented method names), camelCase parameter names, an id on requests and responses only, and exactly one of result and error in a response.",
 ["inputs"], "every message variant (client and server requests, all notifications, result and error responses), every id, all field values incl. unicode, nesting and absent optional fields",
 "Existing tests round-trip a few samples per type; field-level renames, omitted-field and id-type faults depend on the variant and values.",
 ["src/shared/stdio.rs","src/shared/protocol_helpers.rs","src/types/jsonrpc.rs","src/types/protocol.rs"],
 [("serialize_message/parse_message","src/shared/stdio.rs"),("create_request/parse_request, create_notification/parse_notification","src/shared/protocol_helpers.rs"),("serde derives on the message types","src/types")],
 ["StdioTransport::serialize_message","StdioTransport::parse_message"],
 "property-based testing: typed message generators with an independently written wire-format model; round-trip in both directions",
 "Samples the message space with structured generators; the expected wire object is built by hand-written code from the same generated fields, trusting serde_json only as the JSON parser.")

prop("C02", "Incoming bytes are parsed totally and classified exactly",
 "For every byte string, parsing an incoming transport message returns a message or an error and never panics. A message is only returned when the bytes are a JSON object that is a JSON-RPC request (method and id), notification (method, no id) or response (result or error) of a known method with well-formed parameters; the returned kind, id, method, and payload are the ones in the bytes, unknown extra members are ignored, and anything else is rejected. (The treatment of a wrong \"jsonrpc\" version, and of an object mixing method with result or error, is left open, except that a message naming a method is never taken for a response.)",
 ["inputs"], "all byte strings: valid wire objects, structure-aware mutations of them (dropped/duplicated/retyped members, unknown methods, wrong id types), truncations, random bytes",
 "Tests feed a dozen malformed samples; the accepted set is infinite.",
 ["src/shared/stdio.rs","src/shared/protocol_helpers.rs","src/types/jsonrpc.rs"],
 [("member-presence classification","src/shared/stdio.rs: parse_message"),("client-then-server typed parse","src/shared/protocol_helpers.rs: parse_request")],
 ["StdioTransport::parse_message"],
 "property-based testing: structure-aware mutation of generated wire objects against a reference classifier")

prop("C03", "JSON-RPC batches are answered item by item, in order",
 "A batch of JSON-RPC requests yields exactly one response per request, in request order, each carrying its request's id and the result or error that request alone would get; one failing or malformed item affects only its own response. Parsing and serialising keep a single message a single object and several messages an array in the same order, an empty batch yields no responses, and an array holding anything but requests is rejected.",
 ["inputs"], "batches of 0..n requests mixing succeeding, failing, unknown-method and malformed-parameter items, duplicate and mixed-type ids, arbitrary per-item completion delays",
 "Tests use three fixed batches.",
 ["src/shared/batch.rs","src/server/batch.rs","src/server/mod.rs"],
 [("BatchRequest/BatchResponse","src/shared/batch.rs"),("process_batch_request","src/server/batch.rs"),("Server::handle_batch_request","src/server/mod.rs")],
 ["Server::handle_batch_request","process_batch_request"],
 "property-based testing: generated batches against a per-item reference evaluator (metamorphic: batch equals the items run singly)")

prop("C04", "The server answers each request from exactly what was registered",
 "For every set of registered tools, prompts, resource and sampling handlers and every request, the server advertises exactly the capabilities it was configured with (the last ones set, plus sampling when a sampling handler is registered afterwards), lists exactly the registered items, and runs exactly the handler the request names, once, with exactly the supplied name, arguments, uri or cursor. Initialize is answered with the protocol version the client asked for when it is supported, and otherwise with a supported one. The response carries the request's id and that handler's result unchanged; an unknown name, a call needing an unregistered handler, or a handler error (whose message is kept) becomes an error response with a JSON-RPC error code and never runs another handler; listing resources without a handler gives an empty list.",
 ["inputs","histories"], "all handler sets and request sequences (repeated names, replaced registrations, unknown names, failing handlers)",
 "Tests register one or two fixed handlers and send fixed requests.",
 ["src/server/mod.rs"],
 [("ServerBuilder","src/server/mod.rs"),("handle_request and its per-method handlers","src/server/mod.rs")],
 ["Server::handle_batch_request","Server::run over an in-memory transport"],
 "stateful property-based testing: generated handler sets and request histories against a registry model")

prop("C05", "The server loop answers every request on its transport exactly once",
 "While a server runs on a transport, every request received gets exactly one response with its id, in the order received, carrying what the request's handler produced; notifications and responses from the peer get none. Errors in handlers and undecodable incoming messages never stop the loop, and nothing is emitted that no request or server notification caused.",
 ["histories","schedules"], "all sequences of client requests, notifications and stray responses, arbitrary arrival gaps and handler delays",
 "Tests only exercise the loop with one or two messages.",
 ["src/server/mod.rs","src/shared/transport.rs"],
 [("run loop","src/server/mod.rs: run"),("notification sender task","src/server/mod.rs: run")],
 ["messages the server writes to an in-memory transport"],
 "stateful property-based testing on virtual time: generated message histories through an in-memory transport against a trace model")

prop("C06", "Client calls carry their arguments out and the peer's answer back",
 "Each client operation sends exactly one request with the MCP method for that operation and exactly the caller's arguments, under an id not used by any earlier request of that client. A result response is returned to the caller with every field the peer sent, and an error response becomes an error with the peer's message and data and the peer's code (server-range codes without a named meaning are reported as internal error); an undecodable result is an error, never a default value.",
 ["inputs"], "all client operations, arguments, peer results and peer errors (any code, message, data)",
 "Tests check a handful of canned replies.",
 ["src/client/mod.rs","src/error/mod.rs"],
 [("per-operation methods and send_request","src/client/mod.rs"),("from_jsonrpc_error","src/error/mod.rs")],
 ["message seen by the transport and value returned by the client method"],
 "property-based testing: generated calls and scripted peer replies against an expected-wire model")

prop("C07", "Client lifecycle and capability rules hold in every call sequence",
 "Before a successful handshake every request operation fails without sending anything; the handshake sends initialize then, only when the server's protocol version is supported and the result is valid, one initialized notification, and a failed handshake leaves the client uninitialised and able to retry. Once initialised, a second handshake is refused, and an operation is sent exactly when the server advertised the capability it needs (including sampling and resource subscription); otherwise it fails with a capability error and sends nothing. Authenticating is refused before the handshake, and for credentials that lack what their scheme needs (a bearer token, OAuth details).",
 ["histories","inputs"], "all sequences of client operations and all server capability sets, protocol versions and handshake outcomes",
 "Tests cover single transitions with fixed capabilities; the repository's state-machine tests check their own model, not the client.",
 ["src/client/mod.rs"],
 [("initialize","src/client/mod.rs"),("ensure_initialized/assert_capability","src/client/mod.rs")],
 ["messages sent on the transport","client method results"],
 "stateful (model-based) property-based testing of the client against a lifecycle/capability model")

prop("C08", "A client call returns only the response to its own request",
 "Whatever else arrives first on the connection (notifications from the server, responses to other, abandoned or cancelled requests), a client call completes with the response that carries its own request id and never with another one; concurrent calls on clones of one client each get their own answer.",
 ["histories","schedules"], "all interleavings of stray responses, notifications and the real response; all id values; concurrent calls",
 "Tests always have the peer answer immediately and in order.",
 ["src/client/mod.rs"],
 [("send_request","src/client/mod.rs")],
 ["value returned by the client method"],
 "property-based testing: generated peer scripts that interleave stray traffic with the real response")

prop("C09", "Pending requests complete once, with their response, on their transport",
 "For any sequence of register, complete, complete-for-transport and cancel operations on protocol instances bound to different transports, a pending request is resolved at most once, only by a response for its own id arriving for its own transport; a completion naming another transport is refused and leaves the request pending. Cancelled requests never receive a response, and requests with equal ids on different transports never affect each other.",
 ["histories"], "all operation sequences over several transports with overlapping ids",
 "The existing property tests use fixed patterns of two operations.",
 ["src/shared/protocol.rs"],
 [("pending_requests keyed by id with transport id check","src/shared/protocol.rs")],
 ["oneshot receivers returned by register_request","return value of complete_request_for_transport"],
 "stateful (model-based) property-based testing against a map model")

prop("C10", "Parallel batch processing preserves order, ids and limits",
 "Processing a request list in parallel returns one response per request in the original order with the request's own id, whatever the handler delays, failures or timeouts; at most the configured number of handlers runs at once, a handler exceeding the configured timeout yields a timeout error for that request only, and reported counts equal what happened. With fail-fast set nothing further is started after a failure, and the rate-limited processor never exceeds its rate.",
 ["inputs","schedules"], "all request lists, concurrency limits, timeouts, rates and per-request delays/outcomes",
 "Tests run two or three fixed-size lists.",
 ["src/utils/parallel_batch.rs"],
 [("semaphore and ordered collection","src/utils/parallel_batch.rs")],
 ["returned responses","observed concurrency inside the handler"],
 "property-based testing on virtual time: generated workloads against a sequential reference")

prop("C11", "SSE parsing follows the event-stream standard for every chunking",
 "Splitting an event stream into chunks at any positions yields the same events as feeding it whole, and these are the events the WHATWG event-stream rules give for LF and CRLF line endings: field/colon/optional-space splitting, data lines joined with newline, comments and unknown fields ignored, last id remembered (ids containing NUL ignored), retry only for digit strings, events without data not dispatched. Rendering an event and parsing it back gives the same event.",
 ["inputs"], "all UTF-8 event streams and all ways to cut them into chunks",
 "Tests contain fifteen short streams; chunk boundaries and multibyte text combine without bound.",
 ["src/shared/sse_parser.rs"],
 [("buffered line splitting and field processing","src/shared/sse_parser.rs")],
 ["events returned by feed","last_event_id"],
 "property-based testing: differential against a reference implementation of the WHATWG algorithm, plus chunking and round-trip relations")

prop("C12", "URI templates expand and match per RFC 6570",
 "For every template with ASCII URI-legal literals that the parser accepts, expansion with any variable values equals the RFC 6570 result for the operators supported (simple, reserved, fragment, label, path segment, path parameter, query, query continuation). Matching a URI produced by expanding a template of literals and simple variables (at most one per path segment, non-empty values) recovers the variables, a URI whose literal parts differ does not match, and parsing, expanding or matching never panics. A template with an ill-formed expression (a missing variable, a character no variable name may hold, a prefix length that is not a number from 1 to 9999) is refused, from JSON too, and every well-formed one with names of letters, digits and underscores is accepted. (A literal `{}`, dotted names and a prefix of 10000 are left open.)",
 ["inputs"], "all template strings and variable maps, incl. unicode and reserved characters",
 "Tests check about ten fixed templates.",
 ["src/shared/uri_template.rs"],
 [("parse/expand/match","src/shared/uri_template.rs")],
 ["UriTemplate::expand","UriTemplate::match_uri"],
 "property-based testing: differential against a reference RFC 6570 expander; expand/match round-trip")

prop("C13", "SIMD primitives agree with their scalar meaning on every input",
 "Each vectorised text primitive (whitespace, escape and pattern search, UTF-8 validation, batch length validation, and the others exported) returns, for every input length, alignment and content, exactly what the plain byte-by-byte definition returns, and terminates.",
 ["inputs"], "all byte strings with emphasis on lengths around multiples of the vector width, matches in every lane, non-ASCII and malformed UTF-8 at lane boundaries",
 "Tests use a few short ASCII inputs that never reach the top lane.",
 ["src/simd/mod.rs","src/utils/json_simd.rs"],
 [("AVX2/SSE kernels with scalar tails","src/simd/mod.rs")],
 ["return values of pmcp::simd functions"],
 "property-based testing: differential against scalar reference implementations")

prop("C14", "Fast JSON paths equal the reference JSON codec",
 "The accelerated JSON parser accepts exactly the texts the standard parser accepts and returns the same values; accelerated serialisation and pretty-printing produce JSON that parses back to the same value, for every value and every unicode string, pretty-printing with each element on a line of its own, indented by two spaces per level; batch and parallel variants return per-item results equal to handling each item alone, in order.",
 ["inputs"], "all JSON values and texts (valid, with arbitrary whitespace and unicode, and mutated/invalid)",
 "Tests use small ASCII documents.",
 ["src/utils/json_simd.rs","src/simd/mod.rs"],
 [("parse_json_fast/serialize_json_fast/pretty_print_fast","src/utils/json_simd.rs")],
 ["return values of pmcp::utils::json_simd functions"],
 "property-based testing: differential against serde_json and round-trip")

prop("C15", "The event store replays exactly what followed, in order, within limits",
 "After any sequence of stores, the events after a given stored event id are exactly the retained later events of the store, in storing order; retention drops only the oldest events and never keeps more than the configured maximum. Resumption tokens give back the state they were created with, and unknown tokens give nothing. (Replay after an id that was never stored or is no longer retained is left open.)",
 ["histories"], "all sequences of store, query, clean-up and token operations, all limits",
 "Tests store two or three events.",
 ["src/shared/event_store.rs"],
 [("InMemoryEventStore, ResumptionManager","src/shared/event_store.rs")],
 ["EventStore methods"],
 "stateful (model-based) property-based testing against a list model")

prop("C16", "HTTP sessions follow the streamable-HTTP lifecycle",
 "In stateful mode each successful initialize without a session creates a fresh unique session and returns its id; every other request must name a live session (400 without one, 404 for an unknown or terminated one), re-initialising a live session is refused, a session has at most one open GET stream (409 for another), and DELETE ends exactly the named session and its stream. In stateless mode no session id is ever required, issued or remembered. The session-created and session-closed callbacks fire exactly once per such event.",
 ["histories"], "all sequences of initialize, request, notification, GET stream and DELETE over several sessions, in both modes and both response modes",
 "Tests check single transitions with one session.",
 ["src/server/streamable_http_server.rs"],
 [("session map and header checks in POST/GET/DELETE handlers","src/server/streamable_http_server.rs")],
 ["HTTP status, mcp-session-id header, callbacks"],
 "stateful (model-based) property-based testing of a live loopback server against a session state-machine model")

prop("C17", "HTTP requests are accepted or refused by their headers as specified",
 "A POST is processed only if its Content-Type is JSON and its Accept names JSON or event-stream, and otherwise gets 415 or 406; on POST, GET and DELETE a protocol-version header naming an unsupported version, or one different from the session's negotiated version, gets 400, and an absent one is accepted. Responses echo the negotiated protocol version; a body that is not a message gets an error status; refused requests never reach a handler or change any session.",
 ["inputs"], "all combinations of header values (case, parameters, lists), versions, bodies and methods",
 "Tests check about eight combinations.",
 ["src/server/streamable_http_server.rs"],
 [("validate_headers, validate_protocol_version","src/server/streamable_http_server.rs")],
 ["HTTP status and headers; handler invocations"],
 "property-based testing: generated header/body combinations against a decision-table model")

prop("C18", "HTTP delivers each response to its requester and replays only its own events",
 "Every accepted POSTed request is answered exactly once with its own id and result: in the POST response as JSON or as an SSE event according to configuration, or on the session's open GET stream. A client resuming with a Last-Event-ID receives exactly the later events of its own session, in order, and never another session's.",
 ["histories"], "all request sequences across several sessions, response modes, open streams and resume points",
 "Tests check one request in each mode.",
 ["src/server/streamable_http_server.rs","src/shared/event_store.rs"],
 [("build_response / SSE senders / event store replay","src/server/streamable_http_server.rs")],
 ["HTTP bodies and SSE events"],
 "stateful property-based testing of a live loopback server against a delivery model")

prop("C19", "The HTTP client transport speaks streamable HTTP faithfully",
 "The client transport POSTs each message once as JSON with the configured headers, remembers the session id and protocol version the server assigns and sends them on every later request, delivers every message of a JSON, batched JSON or SSE reply to the receiver in order and exactly once regardless of how the bytes are chunked, reports HTTP error statuses as errors, and on close ends its session.",
 ["histories","inputs"], "all sequences of messages and server replies (JSON, SSE, 202, 4xx/5xx), byte chunkings and session ids",
 "Tests use one canned server.",
 ["src/shared/streamable_http.rs","src/shared/http.rs"],
 [("send_with_options, process_response_headers, SSE task","src/shared/streamable_http.rs")],
 ["requests seen by a scripted server; messages from receive()"],
 "property-based testing: generated reply scripts served by a scripted loopback server, compared with a transport model")

prop("C20", "WebSocket connections carry messages both ways, in order, exactly once",
 "Messages sent from either end of a WebSocket connection arrive once each, unchanged and in order, however they are split into frames; text that is not a message, and binary frames, never yield a message or take down later valid ones; a ping is answered by its pong, and messages over the server's configured size are refused. A close by either end completes after the messages sent before it have arrived, and afterwards sends and receives fail. Asking whether a connection is up answers at once. Connecting makes at most the configured number of attempts, waiting the configured delay after the first and twice as long after each further one, never longer than the configured maximum.",
 ["histories"], "all sequences of sends, receives, pings, malformed frames and close",
 "Tests exchange one message on fixed ports.",
 ["src/server/transport/websocket.rs","src/shared/websocket.rs"],
 [("read/write tasks","src/server/transport/websocket.rs")],
 ["frames seen by a raw WebSocket peer; messages from receive()"],
 "stateful property-based testing over loopback against a queue model")

prop("C21", "stdio framing delivers exactly the messages written",
 "A byte stream that is a sequence of Content-Length framed messages, with any extra headers and cut into any chunks, is received as exactly those messages in order; sent messages appear on the output as frames whose declared length is the exact byte length of the JSON. A header block without a valid length, or a body that is not a message, gives an error for that frame only; an absurd declared length gives an error, never a crash; and end of input gives connection-closed.",
 ["inputs"], "all message sequences, chunkings, extra headers, faulty frames in between",
 "Tests never drive the real stdin/stdout reader.",
 ["src/shared/stdio.rs"],
 [("read_headers/read_message_body/write_message","src/shared/stdio.rs")],
 ["a child process running the transport over pipes"],
 "property-based testing: generated byte streams piped through a child process running the transport, against a framing model")

prop("C22", "Batching and debouncing of messages lose, duplicate and reorder nothing",
 "Every message given to a batcher comes out exactly once, in order, in batches no larger than the maximum, at the latest when the wait time has passed (without the timer running, full batches only). A debouncer emits, for each key, the latest value submitted, only after that key has been quiet for the wait time (or on an explicit flush), and emits every key submitted.",
 ["histories","schedules"], "all sequences of add/flush/receive with arbitrary time gaps, sizes and keys",
 "Tests check one batch and one key.",
 ["src/utils/batching.rs"],
 [("MessageBatcher, MessageDebouncer","src/utils/batching.rs")],
 ["batches and messages received, with virtual timestamps"],
 "stateful property-based testing on virtual time against a queue model")

prop("C23", "Server notification debouncing and batching drop nothing silently",
 "Every notification submitted to the debouncer is delivered at most once and, with merging on, exactly once in per-subject order (up to the merge limit); with merging off the latest of each subject is delivered; delivery happens after the quiet interval, by the maximum wait at the latest, or on flush, and never repeats, however slowly the output is read and whatever flushes overlap. The notification batcher delivers every notification exactly once, in order per kind, in batches up to the maximum.",
 ["histories","schedules"], "all sequences of submit/flush/stop with arbitrary time gaps and notification kinds",
 "Tests submit two or three notifications.",
 ["src/server/notification_debouncer.rs"],
 [("pending map, flush task","src/server/notification_debouncer.rs")],
 ["notifications on the output channel, with virtual timestamps"],
 "stateful property-based testing on virtual time against a debounce model")

prop("C24", "The session manager tracks exactly the live sessions",
 "For any sequence of create, get, update, authenticate, expire, invalidate and clean-up operations, lookup returns exactly the sessions that were created and not removed or expired, with the latest data (plain lookup of a session past its time but not yet removed is left open; validation refuses and removes it); a session renewed in time survives a clean-up or validation that runs at the same moment or that its renewal interrupts; the configured maximum is never exceeded; ids are unique; and each lifecycle callback fires once per event. Session ids are extracted from headers by the documented rules.",
 ["histories"], "all operation sequences, limits and timeouts",
 "Tests cover single operations.",
 ["src/shared/session.rs"],
 [("SessionManager","src/shared/session.rs")],
 ["SessionManager methods and callbacks"],
 "stateful (model-based) property-based testing against a map model")

prop("C25", "Request context survives headers and task boundaries",
 "A request context written to headers and read back keeps its request, trace, user and session identity and its baggage; a child context keeps these and the client info, and gets a new span whose parent is its creator. Reading any header map never panics, and inside a scope the current context is the innermost one entered, restored on exit, independently per task.",
 ["inputs","histories"], "all contexts and header maps, incl. malformed trace headers; all nestings and concurrent tasks",
 "Tests use one well-formed context.",
 ["src/shared/context.rs"],
 [("to_headers/from_headers, task-local","src/shared/context.rs")],
 ["RequestContext accessors"],
 "property-based testing: round-trip, malformed-header fuzzing, nested-scope model")

prop("C26", "Middleware runs in order and stops at the first failure",
 "For any chain, request, response, send and receive processing each visit the middlewares in registration order, each exactly once, each seeing its predecessors' changes; the first error is returned and no later middleware runs. The built-in middlewares change only what they document.",
 ["inputs"], "all chains of recording, mutating and failing middlewares and all messages",
 "Tests check one pair of middlewares.",
 ["src/shared/middleware.rs"],
 [("MiddlewareChain","src/shared/middleware.rs")],
 ["trace recorded by generated middlewares"],
 "property-based testing: generated chains against an interpreter model")

prop("C27", "Reconnection is bounded, backs off and fails safe",
 "For any outcome history, the number of connection attempts per episode never exceeds the configured maximum, the delay after n failures is the initial delay times the growth factor to the n within the configured jitter and never above the cap, and the circuit opens exactly after the configured number of consecutive failures, rejects while open, and closes on recovery. The reported state and the emitted events match the transitions that happened.",
 ["histories","fault_sequences"], "all success/failure sequences and configurations",
 "Tests check two or three transitions.",
 ["src/shared/reconnect.rs"],
 [("ReconnectManager, backoff, circuit breaker","src/shared/reconnect.rs")],
 ["attempt counts, delays on virtual time, state, events"],
 "stateful property-based testing on virtual time against a reconnect model")

prop("C28", "Retry, fallback and circuit-breaking follow the configured policy",
 "For any failure sequence, an operation is run at most once plus the configured retries, stops at the first success and otherwise returns the last error; delays follow the fixed or capped exponential schedule; error kinds pick exactly their configured strategy. The circuit breaker opens exactly at its failure threshold of consecutive failures, refuses while open, allows a probe after its timeout, closes after the success threshold and reopens on a failed probe.",
 ["fault_sequences","histories"], "all success/failure sequences, policies and thresholds",
 "Tests check one sequence per strategy.",
 ["src/error/recovery.rs"],
 [("RecoveryExecutor, CircuitBreaker, with_retry","src/error/recovery.rs")],
 ["number of invocations, virtual delays, returned value"],
 "stateful property-based testing on virtual time against a policy model")

prop("C29", "OAuth codes and tokens are single-purpose, bound and revocable",
 "An authorization request is accepted exactly for a registered client with one of its redirect URIs and response types and scopes the provider supports. An authorization code is redeemable at most once, within its ten minutes, only by the client and redirect URI it was issued to, and when a challenge was set only with the matching verifier (plain or S256). Access tokens validate exactly between issue and expiry, refresh or revocation, and carry the identity and scopes granted, which the token response names; a refresh token works once and replaces its access token; concurrent operations neither double-spend nor deadlock. The published metadata names the endpoints under the base URL and what is supported. (Whether an attempt with wrong credentials spends the code is left open.)",
 ["histories","schedules","inputs"], "all sequences of register, authorize, exchange, refresh, revoke and validate with right and wrong credentials, and interleavings of concurrent operations",
 "Tests cover the happy path and one wrong verifier.",
 ["src/server/auth/oauth2.rs"],
 [("InMemoryOAuthProvider","src/server/auth/oauth2.rs")],
 ["OAuthProvider methods"],
 "stateful (model-based) property-based testing incl. generated task interleavings against a grant model")

prop("C30", "Authentication middleware admits exactly the authorised callers",
 "A bearer check admits a caller exactly when it presents a bearer token the provider accepts (or none when optional, as anonymous without scopes); client-credential checks require a registered client and its exact secret; scope checks require all or any of the listed scopes as configured; a composite admits by the first member that does, and otherwise, when it requires none, as anonymous. The resulting identity is the token's or client's, and refusals carry authentication-required or permission-denied.",
 ["inputs"], "all nestings of middlewares, credentials, providers and scope sets",
 "Tests check single fixed credentials.",
 ["src/server/auth/middleware.rs"],
 [("AuthMiddleware implementations","src/server/auth/middleware.rs")],
 ["authenticate result"],
 "property-based testing: generated middleware trees against an evaluator model")

prop("C31", "Every elicitation resolves exactly once",
 "Each elicitation request is sent to the client once and completes exactly once: with the matching response, a cancellation, or a timeout after the configured time; responses or cancellations for unknown or finished ids are errors and affect no other elicitation; the pending count is the number unresolved. A request made with the builders carries exactly the fields given. (Starting a second elicitation under an id still pending is left open.)",
 ["histories","schedules"], "all sequences of elicit, respond, cancel, cancel-all and time passing with overlapping elicitations",
 "Tests check one elicitation per outcome.",
 ["src/server/elicitation.rs"],
 [("pending map with oneshot channels","src/server/elicitation.rs")],
 ["futures returned by elicit_input; pending_count"],
 "stateful property-based testing on virtual time against a pending-set model")

prop("C32", "Resource update notifications go exactly to subscribers",
 "For any sequence of subscribe, unsubscribe, client-drop and update operations through the server's or the subscription manager's interface, an update of a resource notifies exactly when someone is subscribed to that uri at that moment, once, naming that uri, and the reported subscriptions are exactly those in force. A client's subscribe and unsubscribe requests take part the same way.",
 ["histories"], "all operation sequences over several clients and uris",
 "Tests check two subscribers.",
 ["src/server/subscriptions.rs","src/server/mod.rs"],
 [("SubscriptionManager","src/server/subscriptions.rs")],
 ["notifications sent; subscription queries"],
 "stateful (model-based) property-based testing against a relation model")

prop("C33", "The root list is exactly the registered valid roots",
 "After any sequence of registrations and unregistrations, listing the roots gives exactly the roots registered and not yet unregistered, in the order of their registration, with their names (each unregistration removes the registration it belongs to and no other, even one of the same uri); a uri that is not a file:// uri is refused without effect; every accepted change notifies once.",
 ["histories"], "all sequences of register/unregister with valid and invalid uris",
 "Tests check three fixed roots.",
 ["src/server/roots.rs"],
 [("RootsManager","src/server/roots.rs")],
 ["get_roots, notifications"],
 "stateful (model-based) property-based testing against a map model")

prop("C34", "Cancellation reaches exactly the named request",
 "Cancelling a request in progress marks exactly its token cancelled, notifies the peer once with that id and the reason given, and wakes every waiter on it; cancelled through the server, the request's handler sees it. Other requests are untouched, cancelling an unknown or finished request does nothing to any other request, and after a request finishes or all are cleared its token is gone.",
 ["histories"], "all sequences of create, cancel, remove, clear and query over several ids",
 "Tests cancel one or two ids.",
 ["src/server/cancellation.rs"],
 [("CancellationManager","src/server/cancellation.rs")],
 ["tokens, notifications"],
 "stateful (model-based) property-based testing against a token model")

prop("C35", "Dynamic registration changes exactly what was asked and says so",
 "After any sequence of dynamic additions and removals of tools, prompts, resources and sampling, lookups and listings contain exactly the items added and not removed, with the latest handler; removing what is absent changes nothing; each accepted change tells every listener once, with the capability concerned announced as present or absent. (What a capability change says of other capabilities is left open.)",
 ["histories"], "all sequences of add/remove/lookup",
 "Tests add one tool.",
 ["src/server/dynamic.rs"],
 [("DynamicServerManager","src/server/dynamic.rs")],
 ["manager lookups, listeners"],
 "stateful (model-based) property-based testing against a registry model")

prop("C36", "Completion suggests only genuine matches",
 "A static completion provider returns exactly the configured items whose value or label starts with the given text, unchanged and in their order. A file completion returns exactly the entries of the directory the partial path names (a relative path starts from the base directory) whose name starts with the partial path's last component and, for files, whose extension is one of those configured, in sorted order, each value being a path that the partial path is extended to. An argument built with the completable builder carries exactly what it was given.",
 ["inputs"], "all candidate sets, prefixes and directory trees (incl. unicode, hidden, relative, parent and absolute paths), extension filters",
 "Tests check one prefix.",
 ["src/types/completable.rs"],
 [("StaticCompletionProvider, FileCompletionProvider","src/types/completable.rs")],
 ["complete() result"],
 "property-based testing: generated candidate sets and file trees against a filter model")

prop("C37", "Errors keep their code, message and data",
 "Converting a JSON-RPC error to the SDK's error type keeps message and data and the code (named codes map to themselves, unnamed server-range codes to internal error, all others unchanged), and error constructors, code queries and predicates agree with one another for every code and message.",
 ["inputs"], "all 32-bit codes, messages and data",
 "Tests check listed constants.",
 ["src/error/mod.rs","src/types/jsonrpc.rs"],
 [("ErrorCode, Error","src/error/mod.rs")],
 ["Error/ErrorCode accessors"],
 "property-based testing against a code-table model")

prop("C38", "Token and discovery clients ask exactly and report honestly",
 "Discovery fetches the issuer's well-known document (one slash, whatever the issuer's ending), making at most the configured number of attempts, at least the configured delay apart: a failure to connect or a dropped connection is retried, a 4xx status or a malformed document is not (for a 5xx status or a truncated body this is left open). Token exchange and refresh make one POST with exactly the grant's form fields and the client's authentication; success returns the document or token with its fields unchanged, and error statuses (with the server's explanation) or malformed bodies are errors.",
 ["inputs","fault_sequences"], "all issuers, credentials (any characters), reply sequences",
 "Tests do not use a server.",
 ["src/client/auth.rs"],
 [("OidcDiscoveryClient, TokenExchangeClient","src/client/auth.rs")],
 ["requests seen by a scripted server; returned values"],
 "property-based testing: scripted loopback server with generated replies, compared with a request model")

prop("C39", "Resource watching reports changes of watched resources only",
 "From the moment start returns until it is stopped, a watcher reports every change of a registered resource's file that its patterns include by an update notification for its uri, no earlier than the debounce time after the change; a burst of changes of one file within the debounce window is reported once, and reads, changes of unregistered files and of paths ignored or outside the patterns are never reported. The base directory may be relative or absolute; one that does not exist makes start fail. The registry holds exactly the resources added and not removed, up to the configured maximum. (Directories created while watching, and replacing a resource at the limit, are left open.)",
 ["histories"], "all sequences of file changes, patterns and registered sets",
 "Tests only construct the watcher.",
 ["src/server/resource_watcher.rs"],
 [("watch_filesystem, process_events","src/server/resource_watcher.rs")],
 ["notifications on the channel"],
 "property-based testing with generated file-change histories in a scratch directory")

prop("C40", "A client and server connected back to back agree",
 "For every registered handler set and sequence of client calls over any connection, the client observes exactly what the named handlers produced for the arguments it gave (results, errors, lists and capabilities), as if it had called them directly.",
 ["inputs","histories"], "all handler sets and call sequences over in-memory and HTTP connections",
 "Tests run one call end to end.",
 ["src/client/mod.rs","src/server/mod.rs","src/shared/stdio.rs","src/server/streamable_http_server.rs"],
 [("Client, Server, transports","src")],
 ["client method results versus direct handler results"],
 "property-based testing: end-to-end differential between calling through client/server and calling the handler directly")

prop("C41", "Log entries carry the current request's identity and all their fields",
 "A log entry created inside a request scope carries exactly that context's request, trace, span, user and session ids (and none outside one), keeps every field and error added, and renders to JSON with all of them.",
 ["inputs"], "all contexts, field maps and error details",
 "Tests check one entry.",
 ["src/shared/logging.rs"],
 [("LogEntry","src/shared/logging.rs")],
 ["LogEntry fields and its JSON form"],
 "property-based testing against a record model")

prop("C42", "Declarative tool macros produce handlers equal to the function",
 "A function (sync or async, failing or not) turned into a tool by the macro is advertised under its name or the one given, with its description, and its handler, given JSON arguments, behaves exactly as the function called with those arguments: its result as JSON, or an error with the function's message. A missing or ill-typed required argument and an ill-typed optional one are refused; an absent or null optional one is None.",
 ["inputs"], "all argument objects for a fixed family of ten annotated functions that spans sync/async, plain/failing, required/optional, scalar/structured/renamed arguments and every macro attribute",
 "No test expands the macro to running code, and which argument is lost, refused or accepted depends on the argument object.",
 ["pmcp-macros/src/tool.rs"],
 [("expand_tool","pmcp-macros/src/tool.rs")],
 ["generated handler's result, error and metadata"],
 "property-based testing: differential between the generated handler and the function itself over generated argument objects")

prop("C43", "Capability sets and runtime helpers mean what they say",
 "Every set of client or server capabilities has the wire form of the specification, in which exactly the features that are present appear, reads back unchanged, and its predicates are true exactly for the features present; the ready-made sets contain exactly what their names say. The runtime helpers run each spawned task once, sleep for the given time, and hand back a blocking job's result or its failure.",
 ["inputs"], "all combinations of capabilities; task, sleep and blocking-job lists",
 "Tests look at one or two sets.",
 ["src/types/capabilities.rs","src/shared/runtime.rs"],
 [("ClientCapabilities, ServerCapabilities","src/types/capabilities.rs"),("spawn, sleep, spawn_blocking","src/shared/runtime.rs")],
 ["serialised capabilities, predicates, task effects"],
 "property-based testing against an independent wire form; scheduled tasks in virtual time")
