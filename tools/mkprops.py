#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
SNAP = "The snapshot tests feed a few dozen captured lines"
p("C01", "Parsing never panics on any input",
  "For every string below 4 GiB, parsing it (borrowed, owned or typed), calling any accessor of the result, and unescaping any string return normally: no out-of-range index, slicing inside a character, arithmetic overflow, unwrap of an absent value or explicit panic is reachable. This holds for the SIMD and the scalar tag parser, with overflow checks on.",
  ["inputs", "configurations"], "every &str (any length < 2^32, any bytes that are valid UTF-8), both tag parsers",
  SNAP + "; none has more than 128 tags, a tag over 64 KiB, tags without a following space, or multi-byte characters at every boundary.",
  ["src/irc.rs", "src/irc/tags.rs", "src/irc/tags/simd.rs", "src/irc/tags/scalar.rs", "src/irc/prefix.rs", "src/irc/command.rs", "src/irc/channel.rs", "src/irc/params.rs", "src/lib.rs", "src/msg.rs", "src/msg"],
  [("positions only ever advance past bytes that were matched", "src/irc/*.rs parse functions"), ("tag array spills when full", "src/irc/tags.rs Array::push"), ("fallible conversions are mapped to None", "src/msg/*.rs")],
  ["IrcMessageRef::parse", "IrcMessage::parse", "Message::from_irc", "maybe_unescape", "unescape"])
p("C02", "A line is decomposed into exactly its IRC parts",
  "Parsing splits a line left to right into optional `@tags `, optional `:prefix `, a command ending at the first space or the end of the line, an optional channel starting with `#` and ending at the first space or the end, and all remaining text as params; every accessor returns exactly the corresponding substring, and a part that is absent leaves the position where it was. The prefix is `host`, `nick@host` or `nick!user@host`, cut at its `!` and `@` and ended by the first space. Parsing fails exactly when the command is empty.",
  ["inputs"], "every input line", SNAP + " of well-formed traffic; missing, empty, repeated and unterminated parts are not sampled.",
  ["src/irc.rs", "src/irc/prefix.rs", "src/irc/command.rs", "src/irc/channel.rs", "src/irc/params.rs"],
  [("left-to-right cursor", "src/irc.rs parse_inner"), ("per-part scanners", "src/irc/{prefix,command,channel,params}.rs parse")],
  ["IrcMessageRef::{prefix,command,channel,params}"])
p("C03", "Tags are tokenised exactly, identically by the SIMD and scalar parsers",
  "When a line starts with `@` and contains a later space, the text between them is cut at each `;` that ends a value and at the first `=` of each pair into (key, value) substrings, in order, with none lost, merged, truncated or invented, whatever their number, length or alignment; parsing continues right after that space. Without such a space there are no tags and nothing is consumed. The scalar, SSE2 and AVX2 parsers agree on every input.",
  ["inputs", "configurations"], "every input line, both tag parsers, every vector width built here",
  "Tests sample a few tag lists; matches at every position relative to vector boundaries, and more than 128 tags, are out of reach.",
  ["src/irc/tags.rs", "src/irc/tags/simd.rs", "src/irc/tags/scalar.rs", "src/irc/wide/x86_64/avx2.rs", "src/irc/wide/x86_64/sse2.rs"],
  [("key/value state machine", "src/irc/tags/{scalar,simd}.rs parse"), ("mask scan", "src/irc/tags/simd.rs parse_chunk, find_first"), ("bit mask of matches", "src/irc/wide/x86_64/*.rs Mask")],
  ["IrcMessageRef::tags"])
p("C04", "Unsafe code never leaves its bounds or alignment",
  "For every input, every vector load reads only bytes of the given slice (or of a full local buffer) and every aligned load is given an aligned address; every unchecked index is in range, only initialised tag slots are read back, and the level conversion only transmutes 0..=9.",
  ["inputs", "configurations"], "every input, length and base-address alignment; SSE2 and AVX2",
  "Tests run a handful of lengths and whatever alignment the allocator gives; out-of-bounds reads of a few bytes do not fail a test.",
  ["src/irc/tags/simd.rs", "src/irc/wide/x86_64/avx2.rs", "src/irc/wide/x86_64/sse2.rs", "src/irc/tags.rs", "src/irc/prefix.rs", "src/msg/privmsg.rs"],
  [("loop guards before each load", "src/irc/tags/simd.rs"), ("remainder copied into an aligned buffer", "load_unaligned_remainder"), ("range check before transmute", "src/msg/privmsg.rs TryFrom<u8>")])
p("C05", "Owned and borrowed messages agree on every accessor",
  "For every line, the owned message succeeds exactly when the borrowed one does, and raw text, tags, tag lookup, prefix, command, channel, params and text return the same from both; converting between the two forms keeps all of it. Tag lookup returns the value of the first pair whose key equals the requested name; text is what follows the first `:` of the params, or all params if there is none; the channel of a 353/366 reply is the third/second word of its params.",
  ["inputs"], "every line, every tag name", "Almost all tests use the borrowed form; the two sets of accessors are separate code.",
  ["src/irc.rs"], [("twin accessor implementations", "src/irc.rs impl IrcMessageRef / impl IrcMessage"), ("conversions copy the parsed parts", "src/irc.rs into_owned, as_ref")],
  ["IrcMessage::*", "IrcMessageRef::*"])
p("C06", "Command and tag names map one-to-one both ways",
  "Each known command keyword and each known tag name is recognised as exactly one variant, whose string form is that same text; two variants never share a text. Any other non-empty text becomes the unknown variant carrying that exact text, so parsing a name and printing it is the identity.",
  ["inputs"], "every string; all command and tag variants", "Tests look up a few tags and commands; a swapped or duplicated row in a 100-row table is not sampled.",
  ["src/irc/command.rs", "src/irc/tags.rs"], [("match tables", "src/irc/command.rs parse/get/as_str"), ("tags_def! table", "src/irc/tags.rs")],
  ["Command::as_str", "Tag::parse", "Tag::as_str", "Display"])
p("C07", "Typed dispatch follows the command and never substitutes a type",
  "Converting a message to its typed form yields the variant for its command (or an error from that type's own parse), `Reconnect` for RECONNECT, and `Other` with the unchanged message for every other command. Converting a message directly to a type whose command differs is always an error, and wrapping a typed message keeps it under its own variant.",
  ["inputs"], "every message and every typed target", "Each test parses a line with the matching type; mismatches and unlisted commands are not covered.",
  ["src/msg.rs", "src/msg"], [("command match", "src/msg.rs Message::from_irc"), ("command guard", "src/msg/*.rs parse")], ["Message::from_irc", "IrcMessage::as_typed"])
p("C08", "Typed fields come from their documented tags and message parts",
  "Every field of every typed message is derived from its one documented source (tag, channel, params, text or prefix nick) through its documented conversion, for every message. If a required source is absent or not convertible, parsing fails; if an optional one is absent, empty where emptiness means absent, or not convertible, the field is None, empty or its documented default, and never makes parsing fail.",
  ["inputs"], "every message of the 13 typed kinds (user-notice events are C09)",
  SNAP + " with all required tags present and valid; absence and garbage per tag are not sampled, and two tags holding equal values hide a swap.",
  ["src/msg", "src/msg.rs"], [("field initialisers", "src/msg/*.rs parse"), ("shared conversions", "src/msg.rs parse_badges, parse_timestamp, parse_duration, parse_bool, parse_message_text")])
p("C09", "User notices map to the right event and anonymity",
  "The event kind and its payload follow the message id: sub/resub, raid, (anon)subgift, (anon)submysterygift, (anon)giftpaidupgrade, ritual, bitsbadgetier and announcement, with each payload field from its documented tag, and everything else is Unknown with the id preserved. The sender is None exactly for anonymous kinds, unknown kinds, and gifts or mystery gifts sent by the anonymous gifter account; otherwise id, login and name are required.",
  ["inputs"], "every USERNOTICE message", "One or two captured lines per event; combinations of kind, sender id and missing tags are not sampled.",
  ["src/msg/user_notice.rs"], [("event match", "src/msg/user_notice.rs UserNotice::parse"), ("anonymous gifter id", "AN_ANONYMOUS_GIFTER")])
p("C10", "Making a message owned changes nothing",
  "Converting any typed message, event, badge or user into its owned form yields a value with the same variant and every field equal to the original's.",
  ["inputs"], "every value of every type with an owned conversion", "No test calls most of these conversions; dropped or crossed fields are invisible to the snapshots.",
  ["src/msg", "src/msg.rs"], [("field-by-field copies", "into_owned in src/msg.rs and src/msg/*.rs"), ("maybe_clone", "src/msg.rs")])
p("C11", "Accessors return the field they are named after",
  "Every accessor of every typed message, event, badge and user returns its own field's value (text that is documented to be escaped comes back unescaped, counts equal the list's length, and iterators yield all elements in order); the kind predicates and the moderation target follow the variant. A badge turned into raw badge data and back is the same badge, and badge data turned into a badge and back keeps name, version and extra info up to the documented normalisation of the known badges.",
  ["inputs"], "every value of every typed message", "The snapshots print the fields themselves and call almost no accessor.",
  ["src/msg", "src/msg.rs"], [("generate_getters!", "src/msg/macros.rs"), ("badge conversions", "src/msg.rs")])
p("C12", "Serialised messages read back with the same fields",
  "For every serialisable type the written keys, their order-independent set and the variant names are exactly those the reader accepts, each key is written from and read into the same field, and no field is left out except the numeric month count, which is recomputed from its text on reading exactly as when parsing.",
  ["inputs", "configurations"], "every serialisable type and value, any self-describing format", "Round-trip tests cover sampled messages in JSON only.",
  ["src/msg", "src/msg.rs"], [("derive attributes", "src/msg/*.rs"), ("manual Deserialize of Subscriber", "src/msg.rs _serde")])
p("C13", "Unescaping follows Twitch's escape table for every string",
  "Both unescape functions read a string once, left to right: `\\:` `\\s` `\\\\` `\\r` `\\n` become `;`, space, backslash, CR, LF, a backslash before any other character (or at the end) is dropped, the substitute comma becomes a comma, and every other character is kept. An escape affects only the one character after it, the two functions agree on every string, and the borrowing one borrows exactly when the string has neither a backslash nor a substitute comma.",
  ["inputs"], "every string; both functions", "Two short strings are tested; state carried past an escape shows only on longer combinations.",
  ["src/irc.rs", "src/lib.rs"], [("two-state character loops", "src/irc.rs unescape, src/lib.rs actually_unescape")], ["unescape", "maybe_unescape"])
p("C15", "Outgoing commands have their exact wire text",
  "For all arguments, the bytes handed to the connection are exactly: `PING :nonce`, `PONG :nonce` or `PONG`, `JOIN #channel` or `JOIN #a,#b`, `PRIVMSG channel :text` preceded by `@reply-parent-msg-id=..;client-nonce=.. ` with just the tags that were set, each ended by one CRLF; a missing `#` is added on joins and never doubled.",
  ["inputs"], "every channel, text, nonce, id and channel list (non-empty)", "No test exercises the client's writer.",
  ["src/client/write.rs", "src/common.rs"], [("format strings", "src/client/write.rs"), ("Join display", "src/common.rs")], ["Client::{ping,pong,join,join_all}", "Privmsg::send"])
p("C16", "Raw sends are complete, gated and reported",
  "A raw message is written only if it ends in CRLF, otherwise it is refused and nothing is written; an accepted one is written completely and flushed before success is reported. Every I/O error reaches the caller, and no send leaves text behind that a later send or handshake would transmit, however it ends.",
  ["fault_sequences", "inputs", "histories"], "every message, every point where the write fails or the future is dropped, every sequence of sends",
  "No test uses a failing or slow connection.", ["src/client/write.rs", "src/client/macros.rs", "src/client.rs"],
  [("RawMessage conversion", "src/client/write.rs TryFrom"), ("write_all then flush", "src/client/write.rs send_raw"), ("scratch taken while in use", "src/client/macros.rs with_scratch!")],
  state=[("scratch", "buffer reused between sends; empty whenever no send runs", "src/client.rs Client")])
p("C17", "The login handshake order and acceptance are fixed",
  "Connecting sends, in this order and before reading anything, the capability request, PASS (the token with exactly one `oauth:` prefix, or the anonymous password) and NICK, each CRLF-terminated, and flushes. It succeeds only after an acknowledgement of the capabilities followed by the 001 welcome; a refused capability or failed authentication is an authentication error, another notice a notice error carrying it, anything else a welcome error carrying the message.",
  ["inputs", "histories", "fault_sequences"], "every credential, every pair of server replies, every failure point",
  "No test drives the handshake.", ["src/client.rs"], [("handshake sequence", "src/client.rs Client::handshake")], ["Client::connect", "Client::reconnect"])
p("C18", "Reconnecting follows the configured backoff and attempt limit",
  "Each attempt is preceded by a wait: the initial delay first, then the previous delay times the multiplier, capped at the maximum delay and never overflowing. At most max_tries attempts are made (no limit if unset); only I/O failures while opening the connection or while writing the login lead to another attempt, any other failure (including a failed read) is returned at once, success stops, and exhaustion returns the last failure.",
  ["fault_sequences", "configurations", "histories"], "every backoff configuration and every sequence of attempt outcomes",
  "No test reconnects.", ["src/client.rs"], [("retry loop", "src/client.rs Client::reconnect"), ("retry predicate", "ConnectError::should_retry")])
p("C19", "The login token is never exposed except in PASS",
  "The token's text flows only into the PASS line written to the TLS connection and out of the credential's own token accessor and fields; no debug or display output, log event, error value or other outgoing command is derived from it.",
  ["inputs", "programs"], "every credential and every path through the client", "Tests do not look for secrets in output, and absence on all paths cannot be sampled.",
  ["src/client.rs", "src/client/write.rs", "src/client/conn.rs"], [("manual Debug for Credentials", "src/client.rs"), ("masked trace in handshake", "src/client.rs")])
p("C20", "All traffic goes over verified TLS to the Twitch host",
  "The only connection the client opens is a TCP connection to irc.chat.twitch.tv:6697 that is wrapped in TLS, with server name verification for that same host against the system's native root certificates, before a single byte of IRC is read or written; no code path installs another verifier or uses the bare socket.",
  ["programs", "configurations"], "every path that opens, reads or writes a connection", "Tests open no connection.",
  ["src/client/conn.rs", "src/client.rs"], [("open", "src/client/conn.rs open"), ("TlsConfig::load", "src/client/conn.rs")])
p("C21", "Receiving returns each line once, parsed, and classifies failures",
  "Each receive takes exactly one line from the connection and returns it parsed; an unparsable line is returned verbatim in a parse error, an I/O error is returned as such, and the end of the stream is a closed-stream error. A failure counts as a disconnect exactly for a closed stream or an I/O error of kind unexpected-EOF, connection-aborted or timed-out.",
  ["inputs", "fault_sequences"], "every line, every I/O failure", "No test receives from a connection.",
  ["src/client/read.rs"], [("recv", "src/client/read.rs Client::recv"), ("is_disconnect", "src/client/read.rs")])
p("C22", "Every wait while connecting is bounded by a timeout",
  "While connecting or reconnecting, opening the connection and the whole handshake are each bounded by the configured timeout, and each wait for a handshake reply additionally by a fixed five seconds; the only other waits are the backoff delays. An expired timeout ends the operation with a timeout error.",
  ["fault_sequences", "schedules", "configurations"], "every suspension point reachable from connect and reconnect", "Tests cannot enumerate stalls at every suspension point.",
  ["src/client.rs", "src/client/util.rs"], [("timeout wrappers", "src/client.rs connect, reconnect, handshake")])
p("C23", "Parsing is a pure function of the line",
  "Parsing and every accessor depend only on the given text and leave no trace: no global or thread-local state, environment, clock, randomness, I/O, locking or interior mutability is reachable from them, so equal lines always give equal results from any thread.",
  ["schedules", "histories", "inputs"], "all call histories and all threads", "Tests run each line once in a fresh process.",
  ["src/irc.rs", "src/irc", "src/msg", "src/msg.rs", "src/lib.rs"], [("no statics or effects in the parser", "src/irc, src/msg")])
p("C24", "Every feature combination builds and its types stay thread-safe",
  "The crate compiles under every combination of its features, exposing the parser always and the typed messages, client and serialisation exactly when enabled. Messages, typed messages, the client, its futures and their results are Send, and messages and the client are Sync.",
  ["configurations"], "all combinations of message-types, simd, client and serde", "The tests build two or three combinations; the assertions in the code name only the client and the messages, not the futures.",
  ["Cargo.toml", "src/lib.rs", "src/client.rs", "src/irc.rs", "src/msg.rs"], [("cfg gates", "src/lib.rs"), ("static_assert_send!/sync!", "src/lib.rs")])
p("C25", "Pinned-chat levels convert consistently in every direction",
  "The ten levels' names ONE to TEN, their string forms and their numbers 0 to 9 correspond one-to-one in ascending order; converting a name or a number outside the range is an error, and every conversion followed by its inverse is the identity.",
  ["inputs"], "all levels, all 256 bytes, all strings", "Only captured values are tested.",
  ["src/msg/privmsg.rs"], [("as_str/from_str/try_from/into", "src/msg/privmsg.rs")])
p("C26", "A failing developer command is never reported as success",
  "In the task runner, every external command that is started is waited for and its exit status checked, and a failure at any step stops the task and makes the runner exit with failure; captured output is used only if the command succeeded.",
  ["fault_sequences", "programs"], "every subprocess started by any task, every failing step", "The task runner has no tests.",
  ["xtask/src"], [("CommandExt::run/run_with_output", "xtask/src/util.rs"), ("main", "xtask/src/main.rs")])
p("C27", "The same-message bypass alternates strictly",
  "Starting from its default, successive values of the bypass are the empty string and the invisible suffix in strict alternation, for any number of calls.",
  ["histories"], "every number of calls", "Not tested; a test samples a prefix of the history.",
  ["src/client/write.rs"], [("toggled flag", "src/client/write.rs SameMessageBypass::get")])
p("C28", "Configuration set on the builder is the configuration used",
  "The credentials, timeout and backoff given to the builder are stored unchanged and are the ones every connection, login and reconnection uses; each setter changes only its own setting, and unset ones keep the defaults (an anonymous justinfan login with a number in 10000..99999 and no token, a 30 second timeout, 8 tries from 1 s times 3 up to 12 s).",
  ["configurations", "inputs"], "every configuration and order of setters", "No test inspects the configuration in use.",
  ["src/client.rs"], [("ClientBuilder setters", "src/client.rs"), ("Default impls", "src/client.rs")])
p("C29", "Parsing keeps up with a stated throughput",
  "Parsing a typical message takes time linear in its length and stays under the throughput the project's benchmark advertises.",
  ["inputs"], "every input", "Tests measure no time.", ["benches/parse.rs", "src/irc.rs"], [("SIMD scanning", "src/irc/tags/simd.rs")])
p("C30", "Everything Twitch sends is represented faithfully",
  "For every message the Twitch server sends, the typed message agrees with Twitch's own meaning of it (documented tags, events and their semantics).",
  ["inputs", "histories"], "everything the live service can send", "Tests hold a finite capture of past traffic.", ["src/msg"], [("field tables", "src/msg/*.rs")])
p("C31", "Errors keep what went wrong and say it",
  "Converting an I/O, TLS, DNS-name, open, receive or message-format failure into one of the client's errors yields that failure's own variant carrying exactly that failure; converting a connect failure into a reconnect error makes it the cause, which is also the error's source. Printing a client error that wraps another failure includes the text of that failure (for a line that could not be parsed, the line; for an unexpected message, the message), and the errors that wrap nothing print texts of their own, not empty and not shared with another variant of the same type.",
  ["inputs", "fault_sequences"], "every failure of every wrapped kind", "No test makes the network, TLS or DNS fail, and none prints an error.",
  ["src/client.rs", "src/client/conn.rs", "src/client/read.rs", "src/client/write.rs"],
  [("From impls of the error types", "src/client.rs, src/client/{conn,read,write}.rs"), ("Display impls of the error types", "src/client.rs, src/client/{conn,read,write}.rs"), ("ReconnectError::source", "src/client.rs")],
  ["ConnectError", "ReconnectError", "RecvError", "SendError"])
p("C32", "Printing a prefix gives back the prefix that was read",
  "A prefix prints as `nick!user@host`, `nick@host` or `host`, by the parts it has, with every part unchanged; so printing the prefix of a parsed line whose prefix has one of those shapes gives exactly the text between its `:` and its space.",
  ["inputs"], "every prefix", "No test prints a prefix; snapshots show its fields for a few captured lines.",
  ["src/irc/prefix.rs"], [("Display for Prefix", "src/irc/prefix.rs"), ("prefix scanner", "src/irc/prefix.rs parse")], ["Prefix as Display", "IrcMessageRef::prefix"])
p("C33", "A receive that is dropped before it finishes loses no line",
  "A receive can be dropped at any point where it is suspended (as by `select!` or a timeout) without losing anything: while it is suspended it has taken no line off the connection and holds no bytes of one, so the next receive returns the line the dropped one would have returned.",
  ["schedules", "histories"], "every point of suspension of a receive, any number of dropped receives", "A test cannot enumerate the points at which a future is dropped; the crate's tests open no connection.",
  ["src/client/read.rs", "src/client.rs"], [("single await on the buffered line stream", "src/client/read.rs Client::recv"), ("partial lines are kept in the stream the client owns", "src/client.rs split")],
  ["Client::recv"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
