#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})
C = "src/connection/"
NOTEST = "No existing test opens a connection: connection/, pool/, migrator/ and the auth code are untested. "

p("C01", "Message framing is exact for every size and every stream fragmentation",
  "Every message the client sends, whatever its length (zero, at and beyond the 16 MiB-1 packet limit), reaches the server as valid protocol packets that reassemble to exactly that message, and every message the server sends is reassembled to exactly what it sent. This does not depend on how the underlying stream splits, delays or buffers reads and writes. The next command on the same connection is unaffected.",
  ["inputs", "schedules"], "all message lengths incl. k*(2^24-1)+-1, all read/write split points, interleaved not-ready results, streams that buffer writes until flushed",
  NOTEST + "Split packets only appear above 16 MiB and split reads only under network timing.",
  [C+"io.rs", "src/utils/mod.rs"], [("chunked write with trailing empty packet", C+"io.rs write_packet"), ("chunk reassembly", C+"io.rs read_packet_to_buf")],
  ["bytes received by the peer", "values returned by query/prepared query"], [("seq_id", "sequence number of the next packet", C+"mod.rs Connection")])

p("C02", "A server packet with the wrong sequence number is never accepted",
  "If any packet of a server response carries a sequence number other than the next expected one (modulo 256), the call that reads it fails with a protocol error instead of delivering data. Correct sequence numbers, including wrap-around in long responses, are always accepted.",
  ["inputs", "fault_sequences"], "every packet position of every response (handshake, login, result sets, prepare), every wrong number, responses longer than 256 packets",
  NOTEST + "The check must hold at each packet position of each kind of response.",
  [C+"io.rs", C+"query.rs"], [("seq_id comparison and wrapping increment", C+"io.rs read_packet_to_buf")], ["result of connect/query/next/prepare"])

p("C03", "Text-protocol result sets are returned exactly as the server sent them",
  "A query returns exactly the rows the server sent: same number, same order, every column value equal to the value encoded (including NULLs, sign, fractional seconds, empty and large strings), and column metadata (names, original names, tables, type, flags) equal to the column definitions. Reading rows one at a time, collecting them or taking one gives consistent results.",
  ["inputs"], "all column counts/types/flags, all representable values and NULL patterns, row counts from 0 past 256, metadata strings of any legal length",
  "Existing tests parse four hand-picked date/time strings; no test decodes a row or a column definition.",
  [C+"types/protocol.rs", "src/types/value/text.rs", C+"packets/column_def.rs", C+"result_set.rs"],
  [("text cell decoding", "src/types/value/text.rs deserialize_text"), ("column definition parsing", C+"packets/column_def.rs")], ["ResultSet::next/collect/one/columns"])

p("C04", "Binary-protocol result sets are returned exactly as the server sent them",
  "Rows of a prepared statement are returned exactly as the server encoded them in the binary protocol: same rows in the same order, NULLs exactly where the NULL bitmap says, and every value equal with its signedness and full precision, for every legal encoding length of temporal values.",
  ["inputs"], "all column counts (all NULL-bitmap byte boundaries), types, flags, NULL patterns, temporal encodings, row counts",
  NOTEST + "The binary decoder is not exercised at all.",
  [C+"types/protocol.rs", C+"types/null_bitmap.rs", "src/types/value/bin.rs"], [("binary decoding", "src/types/value/bin.rs deserialize_bin"), ("NULL bitmap", C+"types/null_bitmap.rs")],
  ["PreparedStatement::query + ResultSet"])

p("C05", "Statement parameters reach the server with exactly the values bound",
  "When a prepared statement is executed, the server decodes for every parameter exactly the value the caller bound (type, signedness, NULL, every byte), in order, whether parameters travel inline or as long data. A call with a different number of values than the statement has parameters is refused without sending anything and leaves the statement usable.",
  ["inputs"], "all parameter counts and value lists, all NULL patterns, total sizes on both sides of the long-data threshold, repeated executions of one statement",
  NOTEST + "Long data starts above 16 MiB; bitmap layout errors depend on count and position.",
  [C+"prepared_statement.rs", C+"packets/stmt_execute_request.rs", C+"packets/stmt_send_long_data.rs", C+"io.rs", "src/types/value/bin.rs"],
  [("execute request encoding", C+"packets/stmt_execute_request.rs"), ("long data chunks", C+"io.rs send_long_data")], ["server-side decoded parameters"])

p("C06", "Every command gets its own response, whatever happened before on the connection",
  "For every history of commands on one connection, a command either returns the server's answer to that very command or an error, never data belonging to another command. Result sets that were abandoned, partly read, failed to convert, ended with a server error, or were followed by further result sets do not affect later commands. After a timed-out or cancelled call the connection refuses further commands rather than mixing up answers.",
  ["histories", "fault_sequences"], "all sequences of query/execute/prepare/partial read/drop/cleanup/cancel/timeouts with all response shapes, with both end-of-rows encodings",
  NOTEST + "The property is about unread state carried between calls; it needs multi-step histories.",
  [C+"result_set.rs", C+"query.rs", C+"prepared_statement.rs", C+"io.rs"], [("draining of unread result sets", C+"result_set.rs cleanup"), ("pending-result flag", C+"mod.rs")],
  ["results of all Connection/PreparedStatement/ResultSet calls", "server's record of unread bytes at each command"], [("pending_result", "a result set is still (partly) unread", C+"mod.rs Connection")])

p("C07", "Server errors are reported as server errors and leave the connection usable",
  "Whenever the server answers with an error, at any position where the protocol allows one (instead of a greeting, to a command, while preparing or executing, in the middle of rows), the call returns a server error carrying exactly the server's code, SQL state and message. Rows delivered before the error are unaffected and the next command works.",
  ["inputs", "histories"], "all error codes/states/messages at every response position of every command kind",
  NOTEST + "Errors in the middle of a result set or instead of a greeting never occur in samples.",
  [C+"packets/err.rs", C+"result_set.rs", C+"io.rs", C+"init.rs", C+"prepared_statement.rs"], [("error packet decoding", C+"packets/err.rs")], ["Error::Server returned by calls"])

p("C08", "The right password authenticates in every supported exchange",
  "For every supported combination of announced method, account method, method switch, forced client method, cached or full exchange, secure or insecure stream, known or requested server key, a client with the right password produces exactly the proof the server expects and is connected. The proof is computed with the challenge currently in force. A method specified in the options is used whatever method the greeting announces, known or not.",
  ["inputs", "configurations"], "all passwords (any UTF-8 incl. empty), challenges, method/switch/cache/key/secure combinations",
  NOTEST + "Each authentication branch needs a server configured that way.",
  [C+"auth.rs", C+"init.rs", C+"types/auth_plugin.rs", "src/utils/scramble.rs", "src/utils/crypt.rs"], [("challenge responses", "src/utils/scramble.rs"), ("exchange state machine", C+"auth.rs")], ["server-side verification", "Connection::connect result"])

p("C09", "Connect succeeds only when the server accepted the login",
  "If the server rejects or does not complete the login at any stage of any authentication exchange, connecting fails; a rejection is reported as that server error. A connection is handed out only after the server confirmed the login. The method is switched at most once during a login: a further request to switch it ends the login with an error.",
  ["inputs", "fault_sequences"], "all authentication exchanges, rejection or premature/unknown packet at every step",
  NOTEST + "Rejections late in the exchange (after the cached-password confirmation) are rare.",
  [C+"auth.rs", C+"init.rs"], [("login result checks", C+"auth.rs continue_auth")], ["Connection::connect result versus what the server sent"])

p("C10", "The password never leaves in readable form without permission",
  "Whatever messages a (possibly hostile) server sends, the client never writes the password, or the password merely combined with the server's challenge, to an insecure stream in recoverable plain form. The clear-text method is used only if the caller allowed it; plain transmission in the cached-SHA2 full exchange only on a stream declared secure.",
  ["inputs", "histories"], "all server message sequences during login incl. forced method switches, all option combinations, secure and insecure streams",
  "A secrecy guarantee over all hostile servers; no test talks to any server.",
  [C+"auth.rs", C+"types/auth_plugin.rs"], [("clear-text permission", C+"types/auth_plugin.rs gen_data"), ("SECURE check", C+"auth.rs")], ["every byte the client writes"])

p("C11", "Login request and connection facts match the options and the greeting",
  "The login request decodes, under the capability flags it declares, to exactly the configured user, database, method and packet limit, and declares only capabilities the server offered. The connection reports the server's connection id, version, vendor, capabilities, authentication method and maximum packet size as the server announced them. A TCP connection goes to the configured host and port with the configured no-delay setting.",
  ["inputs", "configurations"], "all greetings (versions, vendor strings, capability sets, challenge lengths), all option values",
  NOTEST, [C+"packets/handshake.rs", C+"packets/handshake_response.rs", C+"init.rs", C+"query.rs", C+"mod.rs"], [("greeting parsing", C+"packets/handshake.rs"), ("response encoding", C+"packets/handshake_response.rs"), ("settings query", C+"query.rs read_settings")],
  ["login packet at the peer", "ConnectionData accessors"])

p("C12", "No server input can crash, wedge or exhaust the client",
  "For arbitrary bytes from the server at any point (greeting, login, results, statement answers, server keys), every call returns a value or an error: it never panics, aborts, loops without progress, or allocates memory out of proportion to what was received.",
  ["inputs"], "arbitrary and mutated server byte streams against arbitrary client call sequences",
  "Quantifies over all byte strings; tests feed none.",
  [C+"parse_buf.rs", C+"packets/handshake.rs", C+"result_set.rs", C+"query.rs", C+"auth.rs", "src/types/value/text.rs", "src/types/value/bin.rs", "src/utils/crypt.rs"], [("checked reads", C+"parse_buf.rs")], ["process behaviour"])

p("C13", "A stalled peer yields a timeout error; a slow one does not",
  "If the peer stops reading or sending at any point, the running call fails with a timed-out error after the configured timeout and not before. A peer that delivers each message within the timeout never causes one.",
  ["schedules", "fault_sequences", "configurations"], "stall at every byte of every exchange in both directions, all delays below the timeout, built-in and custom timers",
  NOTEST + "Needs controlled time and a stall at a chosen byte.",
  [C+"timeout.rs", C+"io.rs"], [("per-operation timeout", C+"timeout.rs"), ("use on each read/write", C+"io.rs")], ["call results against a virtual clock"])

p("C14", "A broken stream yields an error, never invented or shortened results",
  "If the stream ends or fails at any byte in either direction, the running call returns an error; everything delivered before is a prefix of what the server really sent, and no call reports success unless its complete answer arrived. Later calls on that connection fail too.",
  ["crash_points", "fault_sequences"], "every cut offset of server and client bytes in generated conversations, end-of-file and I/O errors, zero-length writes",
  NOTEST + "Quantifies over all cut points of all conversations.",
  [C+"io.rs", C+"result_set.rs", C+"prepared_statement.rs"], [("error propagation", C+"io.rs")], ["call results versus bytes delivered"])

p("C15", "Conversions between Rust and database values are lossless or refused",
  "Converting a Rust value to a database value and back yields the same value (temporal values to microsecond precision, with sign), and NULL maps exactly to None. Converting a database value to a Rust type either yields exactly the value it denotes or an error; it never wraps, truncates or panics (a date-time read as a date gives its date part).",
  ["inputs"], "all values of all supported types and all (value, target type) pairs",
  "Existing tests contain no conversion test.",
  ["src/types/value/conversion.rs", "src/types/value/mod.rs"], [("From/TryInto impls", "src/types/value/conversion.rs")], ["TryInto results"])

p("C16", "Escaped strings and identifiers denote exactly their input",
  "An escaped string, read by MySQL's literal rules, is one complete literal denoting exactly the input, wherever it is embedded. An escaped identifier is exactly one quoted identifier denoting the input without disallowed characters and without trailing spaces; an unquoted identifier consists of exactly the allowed characters of the input, in order.",
  ["inputs"], "all Unicode strings", "Existing tests check about 25 chosen strings; injection safety quantifies over all strings.",
  ["src/types/value/text.rs"], [("escape formatters", "src/types/value/text.rs")], ["formatted text read by a reference lexer"])

p("C17", "A printed value is an SQL literal denoting that value",
  "Formatting any database value gives a single SQL literal which, read by MySQL's rules, denotes exactly that value, including sign, leading zeros, fractional seconds, days folded into hours, binary strings of any length and floating-point precision. Formatting never panics.",
  ["inputs"], "all values (finite floats)", "Existing tests print nine chosen values.",
  ["src/types/value/text.rs"], [("Display for Value", "src/types/value/text.rs")], ["formatted text read by a reference lexer"])

p("C18", "Hex text form round-trips and parsing is total",
  "Any byte string printed as hex parses back to itself through every parsing entry point and through serialisation formats, with or without prefix and in any letter case. The printed text has the prefix 0x and two digits per byte, and text formats serialise to the same text. Any other input is rejected with an error; all parsing entry points agree and none panics.",
  ["inputs"], "all byte strings, all text inputs, borrowed and owned deserialisation", "One test with one string.",
  ["src/types/hex.rs"], [("parsers", "src/types/hex.rs")], ["parse/print results"])

p("C19", "The pool never exceeds its size and never shares an item",
  "At no time do more than the configured number of items exist or are being created, no item is held by two users at once, and a returned item is kept for reuse rather than discarded or duplicated. This holds for every interleaving of requests, creations, failures, cancellations and returns, across threads.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of get/poll/create-ok/create-fail/cancel/return for several sizes; real threads",
  "The pool has no test.", ["src/pool/async_pool.rs", "src/pool/pool_item.rs"], [("item counter and compare-exchange", "src/pool/async_pool.rs"), ("return on drop", "src/pool/pool_item.rs")], ["items handed out and created"],
  [("items", "number of items created or being created", "src/pool/async_pool.rs")])

p("C20", "A pool request is always served once capacity exists",
  "Whenever an item is idle or fewer than the maximum exist, a waiting request makes progress: it is woken and completes with an item or with the error of its own failed creation. Failed or cancelled creations and cancelled waiters never consume capacity or wake-ups for good.",
  ["schedules", "histories", "fault_sequences"], "all interleavings as above, judged when no task is runnable",
  "The pool has no test; lost wake-ups need an exhausted pool and a specific order.", ["src/pool/async_pool.rs"], [("waker queue", "src/pool/async_pool.rs"), ("capacity accounting", "src/pool/async_pool.rs")], ["state at quiescence of a controlled executor"],
  [("wakers", "tasks waiting for an item", "src/pool/async_pool.rs")])

p("C21", "Recycled buffers come back empty, bounded and unshared",
  "A buffer taken from the buffer pool is empty, belongs to one user at a time, and does not retain more capacity than configured after use; contents of returned buffers are released. Concurrent connections sharing the process-wide buffers never see each other's data.",
  ["histories", "schedules"], "all take/fill/return histories, concurrent connections on several threads",
  "The pool has no test.", ["src/pool/sync_pool.rs", "src/pool/pool_item.rs", C+"mod.rs"], [("reset on return", "src/pool/sync_pool.rs")], ["buffers obtained", "query results of concurrent connections"])

p("C22", "Applying migrations runs each pending one exactly once, in order, and records it",
  "Bringing the database up (completely or to a version) runs exactly the migrations that are not recorded and not newer than the target, in list order, each once, and records each with its exact version and name; repeating it runs nothing. If a migration fails, the failure is returned, earlier ones stay recorded, later ones have not run, and a new attempt resumes at the failed one.",
  ["histories", "fault_sequences"], "all migration lists, recorded states, targets, failure points, repeated attempts with fresh or reused migrators",
  "The migrator has no test.", ["src/migrator/migrator_inner.rs", "src/migrator/model.rs", "src/migrator/migration.rs"], [("up_to_version", "src/migrator/migrator_inner.rs"), ("migrations table", "src/migrator/migrator_inner.rs new")], ["journal of executed migrations", "contents of the migrations table"])

p("C23", "Rolling back undoes exactly the newer migrations, newest first",
  "Moving to a version undoes exactly the recorded migrations newer than it, in reverse order, each once, removes exactly their records, and applies what is missing up to it; stepping down once undoes exactly the newest recorded one. If undoing fails, the failure is returned and the records still describe what is applied. Version ordering is numeric by component.",
  ["histories", "fault_sequences"], "all migration lists, recorded states, targets, failure points",
  "The migrator has no test.", ["src/migrator/migrator_inner.rs", "src/migrator/migration.rs"], [("down_to_version/one_down", "src/migrator/migrator_inner.rs"), ("Version ordering", "src/migrator/migration.rs")], ["journal of executed migrations", "contents of the migrations table"])

p("C24", "A model that is stored and selected again is equal",
  "For every derivable model and every instance, inserting it and running its generated query returns an equal instance, for all supported field types, optional fields, embedded structs and referenced models (inserted along with it or referenced by key). The returned insert id is the one the server assigned.",
  ["programs", "inputs"], "generated model definitions and generated instances, executed against a reference database",
  "One test compares two query strings; nothing is inserted or read.",
  ["macros/src/lib.rs", "macros/src/parse.rs", "src/model/active_model/mod.rs", "src/model/active_model/named_value.rs", "src/model/active_model/active_reference.rs", "src/model/into_query.rs"], [("derive macros", "macros/src/lib.rs"), ("insert statement", "src/model/active_model/named_value.rs")], ["rows in the reference database", "decoded instances"])

p("C25", "An update changes exactly the set fields of exactly that row",
  "Updating through a model changes exactly the fields that were set, to exactly those values, in exactly the row with that key; setting nothing sends nothing. Unset fields in an insert are left to the server's defaults.",
  ["programs", "inputs"], "generated models, field subsets, values, table contents", "No test touches active models.",
  ["src/model/active_model/update_model.rs", "src/model/active_model/named_value.rs", "src/model/active_model/active_value.rs", "macros/src/lib.rs"], [("update statement", "src/model/active_model/named_value.rs"), ("UpdateModel", "src/model/active_model/update_model.rs")], ["reference database before/after"])

p("C26", "Generated queries and row mapping agree for every nesting of models",
  "For every model graph, the generated query selects every mapped column once and joins each referenced table on its key under an unambiguous name, and a row of that query is decoded with every value in the field it belongs to, regardless of equal column, field or table names in the nested models and of the column order. A missing column yields an error, never another column's value. A field stands for the column of its name (raw identifiers without their prefix); models without a primary key can be read, too. A query written by hand may alias the model's own table and name nested models by the path of their fields alone (`author`, `author.country`): it is decoded alike.",
  ["programs", "inputs"], "generated model graphs with colliding names and several nesting levels, permuted and missing columns, renamed tables",
  "One test compares the query text of one two-level model; row mapping is untested.",
  ["macros/src/lib.rs", "src/model/from_query_result.rs", "src/model/into_query.rs"], [("mapping by table alias", "src/model/from_query_result.rs"), ("generated mapping", "macros/src/lib.rs derive_from_query_result")], ["decoded instances versus the reference database"])

p("C27", "Completion data of a command is reported faithfully",
  "For every completed command the reported affected rows, insert id, warning count, status flags and message equal what the server sent, both for plain completions and at the end of a result set, for every length encoding and both end-of-rows encodings.",
  ["inputs"], "all field values of completion packets incl. all length-encoded sizes, status flag sets, messages",
  NOTEST, [C+"packets/ok.rs", C+"parse_buf.rs"], [("completion packet decoding", C+"packets/ok.rs")], ["OkPacket accessors from execute/finish/cleanup"])

p("C28", "Text and binary protocol return the same value for the same column",
  "For every column type and value, a plain query and a prepared query for the same data return identical values, and both accept exactly the same column types.",
  ["inputs"], "all column types, flags and values encoded by the server in both protocols",
  NOTEST + "A differential relation over both decoders.",
  ["src/types/value/text.rs", "src/types/value/bin.rs"], [("two decoders", "src/types/value")], ["values from both protocols"])

p("C29", "RSA password encryption is decryptable by the key owner for every key",
  "For every valid RSA public key (any modulus size, in both PEM forms and any line layout) and every password that fits, the encrypted password sent by the client decrypts under RSA-OAEP to exactly the password combined with the challenge; a password that does not fit yields an error. Encryption is randomised: sending the same password again gives different bytes. The parsed key equals the encoded one, and malformed keys are rejected with an error.",
  ["inputs"], "all key sizes incl. sizes not divisible by 8, exponents, PEM layouts, password lengths up to the limit, challenges",
  NOTEST + "Padding/length errors show only for particular sizes or leading zero bytes.",
  ["src/utils/crypt.rs", C+"auth.rs"], [("OAEP padding and modular exponentiation", "src/utils/crypt.rs"), ("PEM/DER parsing", "src/utils/crypt.rs")], ["server-side decryption", "PublicKey accessors"])

p("C30", "Optional cargo features add abilities and change nothing else",
  "The library compiles with every subset of its optional features (tcpstream, caching-sha2-password, time, serde), and all these builds behave alike: the same calls against the same server give the same results, errors, time-outs and bytes sent, whichever features are enabled. A build without caching-sha2-password differs only in not knowing that method: it fails with an error where a server insists on it, and its default options log in with every method it knows, never sending the password in clear unless that is permitted.",
  ["configurations", "inputs"], "all 16 subsets of the optional features; generated conversations, faults, stalls, options, pools, values given to each of them",
  "The tests are compiled with the default features only.",
  ["Cargo.toml", "src/lib.rs", C+"init.rs", C+"auth.rs", C+"options.rs", C+"types/auth_plugin.rs", C+"data.rs", "src/error/protocol.rs", "src/types/hex.rs"], [("feature-gated code", C+"options.rs ConnectionOptions::default"), ("feature-gated methods", C+"types/auth_plugin.rs")], ["observations of sixteen builds given the same input"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
