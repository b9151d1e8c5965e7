#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

IRC = ["src/irc.rs", "src/irc/tags.rs", "src/irc/tags/simd.rs", "src/irc/tags/scalar.rs",
       "src/irc/prefix.rs", "src/irc/command.rs", "src/irc/channel.rs", "src/irc/params.rs"]

prop("C01", "Parsing is total: no input makes the library panic",
 "For every UTF-8 string, raw parsing, typed conversion, every accessor and getter, Debug and Display formatting, cloning, conversion to owned data and unescaping return normally: no panic, no arithmetic overflow, no abort. "
 "Input that cannot be parsed yields `None` or a parse error. "
 "This holds in every build configuration: scalar or SIMD, with or without debug assertions.",
 ["inputs", "configurations"], "all UTF-8 strings below 4 GiB (any length, any number and size of tags), x {scalar, SSE2, AVX2, NEON} x {debug, release}",
 "The tests parse about 120 well-formed Twitch lines; none is malformed, oversized or truncated, and the scalar parser is only run on well-formed lines.",
 IRC + ["src/msg.rs", "src/msg/", "src/lib.rs", "src/common.rs"],
 [("IrcMessageRef::parse", "src/irc.rs"), ("fixed-size tag array and packed spans", "src/irc/tags.rs"),
  ("FromIrc implementations", "src/msg/*.rs"), ("Option/Result propagation instead of unwrap", "src/msg/*.rs")],
 observe=["process outcome under catch_unwind, with overflow checks and debug assertions on"])

prop("C02", "Parsing is memory safe and hands out only slices of its input",
 "Parsing and reading a message never reads outside the input string, never uses uninitialised memory and never executes undefined behaviour, whatever the input's length, content and memory alignment, for every vector width. "
 "Every string a borrowed raw message hands out lies inside the input string and on character boundaries (or is a static constant).",
 ["inputs", "configurations"], "all inputs x all start alignments modulo the vector width x all allocation ends, for the scalar, SSE2, AVX2 and NEON parsers",
 "An over-read of a few bytes, an unaligned load or a read of an uninitialised slot returns plausible data in an ordinary test run; no test runs under a sanitizer.",
 IRC + ["src/irc/wide.rs", "src/irc/wide/x86_64/sse2.rs", "src/irc/wide/x86_64/avx2.rs", "src/irc/wide/aarch64/neon.rs", "src/common.rs", "src/msg/privmsg.rs"],
 [("unaligned/aligned vector loads", "src/irc/wide/"), ("find_first tail handling", "src/irc/tags/simd.rs"),
  ("MaybeUninit tag array", "src/irc/tags.rs"), ("get_unchecked prefix scan", "src/irc/prefix.rs"), ("transmutes", "src/msg/privmsg.rs")],
 observe=["AddressSanitizer reports", "guard page faults", "Miri diagnostics", "address ranges of returned slices"])

prop("C03", "Raw messages are split exactly as the Twitch IRC grammar says",
 "A line `[@tags ][:prefix ]COMMAND[ #channel][ params]` is accepted iff its command word is non-empty, and is split exactly: `tags()` yields every `key=value` pair of the `;`-separated tag section in order, values verbatim (possibly empty, possibly containing `=`, of any number and length); the prefix is `host`, `nick@host` or `nick!user@host`; the command is the next space-delimited word; the channel is the `#` word right after it; `params()` is all the rest, or `None` if nothing is left. "
 "`text()` is everything after the first `:` of the params, or all params if there is no `:`; `channel()` of a 353 reply is the third and of a 366 reply the second word of the params. "
 "An `@` section with no terminating space and a `:` section with no terminating space are not tags or prefix. Prefix and command print as they stand on the wire.",
 ["inputs"], "all UTF-8 lines (tag sections in which every item has a `=`, prefixes of the three shapes); every position of every delimiter relative to the vector width",
 "Tests check a handful of lines per accessor; a delimiter falling on a particular vector lane, chunk boundary or tail, a repeated `=`/`:`/`;`, an empty value or a very long tag is not among them.",
 IRC, [("tags::parse state machine", "src/irc/tags/simd.rs, src/irc/tags/scalar.rs"), ("find_first", "src/irc/tags/simd.rs"), ("prefix::parse", "src/irc/prefix.rs"),
  ("command::parse", "src/irc/command.rs"), ("channel::parse / params::parse", "src/irc/channel.rs, src/irc/params.rs"), ("text, channel, params accessors", "src/irc.rs")],
 observe=["public accessors of IrcMessageRef, compared with an independent reference parser"])

prop("C04", "SIMD and scalar builds give identical results",
 "For every input string the complete observable result of parsing - accepted or rejected, every tag pair, prefix, command, channel, params, text and every typed field - is the same whether the crate is built without the `simd` feature or with it for any supported instruction set (SSE2, AVX2, NEON).",
 ["inputs", "configurations"], "all inputs x {scalar, SSE2, AVX2, NEON}",
 "Each build's tests check only that build, on the same few well-formed lines; nothing compares two builds on inputs where the two implementations could differ.",
 ["src/irc/tags/simd.rs", "src/irc/tags/scalar.rs", "src/irc/wide/"],
 [("vectorised tag parser", "src/irc/tags/simd.rs"), ("scalar tag parser", "src/irc/tags/scalar.rs"), ("Vector/Mask per instruction set", "src/irc/wide/")],
 observe=["per-input digests of all observable results, recorded by each build on the same corpus"])

prop("C05", "Owned and borrowed messages answer identically",
 "For the same input, the owned `IrcMessage` and the borrowed `IrcMessageRef` accept the same strings and return equal results from every accessor (tags, tag, prefix, command, channel, params, text) and the same typed message. "
 "`raw()` is the exact input string, and `into_owned`, `as_ref`, cloning, moving and dropping the original change nothing.",
 ["inputs"], "all inputs, all conversion chains owned -> borrowed -> owned",
 "The tests exercise almost only the borrowed variant; the owned variant duplicates every accessor by hand and is untested.",
 ["src/irc.rs", "src/msg.rs"], [("duplicated accessors of IrcMessage and IrcMessageRef", "src/irc.rs"), ("into_owned / as_ref", "src/irc.rs"), ("as_typed", "src/msg.rs")],
 observe=["both variants' accessors side by side"])

prop("C06", "Tag, command and Hype Chat level names are faithful; tag lookup is exact",
 "For every string `s`, `Tag::parse(s)` (and conversion from `&str`) keeps the name: its `as_str()`/Display is `s`, and every known tag's name parses back to that tag; a message's command `as_str()`/Display is the command word on the wire; Hype Chat levels convert between name, number and value without loss and reject every other name and number. "
 "`tag(x)` returns the value of the first tag on the wire whose key is exactly the name of `x`, however `x` is given (variant or string), and `None` if there is none.",
 ["inputs"], "all tag-name strings, all known tags, all command words, all u8 and strings for levels, all messages (duplicate keys, prefix-sharing keys)",
 "One test round-trips three made-up keys; no test looks at more than a few of the ~80 tag names or at name/value conversions.",
 ["src/irc/tags.rs", "src/irc/command.rs", "src/irc.rs", "src/msg/privmsg.rs"],
 [("tags_def! table", "src/irc/tags.rs"), ("Command::as_str and RawCommand::get", "src/irc/command.rs"), ("tag lookup", "src/irc.rs"), ("PinnedChatLevel conversions", "src/msg/privmsg.rs")],
 observe=["Tag/Command/PinnedChatLevel conversions; tag() results"])

prop("C07", "Unescaping is exact, consistent and allocation-free when not needed",
 "`unescape` maps each `\\:` to `;`, `\\s` to space, `\\\\` to `\\`, `\\r` to CR, `\\n` to LF and `⸝` to `,` in one left-to-right pass, drops the backslash of any other escape and a lone trailing backslash, and leaves every other character unchanged. "
 "`maybe_unescape` gives the same string for every input, owned or borrowed, and returns a borrow when nothing needs unescaping. "
 "Escaping any text without `⸝` by the inverse table and unescaping it gives the text back.",
 ["inputs"], "all UTF-8 strings, in particular every sequence of backslashes, escape letters and `⸝`",
 "Unescaping is only exercised through three snapshot fields with a single `\\s`; escape sequences next to each other, unknown and trailing escapes are never run.",
 ["src/lib.rs", "src/irc.rs"], [("maybe_unescape / actually_unescape", "src/lib.rs"), ("unescape", "src/irc.rs")],
 observe=["return values and Cow variant"])

prop("C08", "Typed conversion picks the right type and fails only for required data",
 "Typed conversion is decided by the command word alone: each of the 14 known message commands gives its own variant (or an error), any other command gives `Other` wrapping the same message, and converting to a specific message type fails for any other command. "
 "It fails iff data which that type requires is missing or malformed (channel; sender prefix nick; room, message, user and target ids; display name or login; event-specific counts and plans; a valid `tmi-sent-ts` where the type has a timestamp; text where the type has one). "
 "Missing or malformed optional data (badges, color, bits, reply, Hype Chat, emotes, ban duration, room settings, promotion, notice id) never causes failure but an absent or default value.",
 ["inputs"], "all messages: every subset of tags present, absent, empty or malformed, for every command",
 "Tests use complete messages; removing or corrupting one tag at a time (about 50 tags x 13 types) is never done.",
 ["src/msg.rs", "src/msg/"], [("Message::from_irc dispatch", "src/msg.rs"), ("per-type parse functions", "src/msg/*.rs")],
 observe=["Ok/Err and variant of as_typed, Message::parse, TryFrom and FromIrc"])

prop("C09", "Chat message fields faithfully reproduce the wire data",
 "For every PRIVMSG, WHISPER and CLEARMSG that converts, each getter equals the corresponding wire component: channel, ids, sender id/login/unescaped display name, recipient, color (`None` when empty), bits, custom reward, raw emotes and millisecond timestamp. "
 "The text is the full message text; in PRIVMSG and CLEARMSG a leading `\\x01ACTION ` and trailing `\\x01` are stripped and the action flag set exactly when both are present. "
 "Reply data is present iff all seven reply tags are, and Hype Chat data iff all its tags are present and well-formed, each field from its own tag.",
 ["inputs"], "all messages of these three types with arbitrary tag values and texts",
 "Snapshot tests fix about 15 lines; swapped fields with equal sample values, numeric edge values, action markers in odd places and partial reply/Hype Chat tag sets are not covered.",
 ["src/msg/privmsg.rs", "src/msg/whisper.rs", "src/msg/clear_msg.rs", "src/msg.rs"],
 [("Privmsg::parse", "src/msg/privmsg.rs"), ("Whisper::parse", "src/msg/whisper.rs"), ("ClearMsg::parse", "src/msg/clear_msg.rs"), ("parse_message_text, parse_timestamp", "src/msg.rs")],
 observe=["all public getters, compared with a reference model over the wire tags"])

prop("C10", "User notices report the right event with the right data and anonymity",
 "For every USERNOTICE that converts, the event variant is determined by `msg-id` (sub/resub, raid, subgift/anonsubgift, submysterygift - the anonymous variant if its sender id is 274598607 -, anonsubmysterygift, giftpaidupgrade, anongiftpaidupgrade, ritual, bitsbadgetier, announcement, anything else unknown) and each event field equals its own tag, free text unescaped, streak 0 meaning none, announcement color defaulting to `PRIMARY`, a promotion only when name and total are both there. "
 "The sender is absent for anonymous and unknown events - including subgift and submysterygift from user id 274598607 - and otherwise holds the sender's id, login and unescaped display name. "
 "Event id, channel, text, system message (unescaped, `None` if empty), message id, badges, color and timestamp equal the wire data.",
 ["inputs"], "all USERNOTICE messages: every msg-id x every combination of present/absent/malformed event tags x sender ids",
 "About 15 snapshot lines, one or two per event; combinations of event and anonymous sender, large counts and missing optional tags are not covered.",
 ["src/msg/user_notice.rs"], [("UserNotice::parse event match", "src/msg/user_notice.rs"), ("AN_ANONYMOUS_GIFTER", "src/msg/user_notice.rs"), ("parse_promotion", "src/msg/user_notice.rs")],
 observe=["all getters of UserNotice, Event and event structs"])

prop("C11", "Badges are reported completely, in order and with their own info",
 "In every message type with badges, the reported list has exactly one badge for each `name/version` entry of the `badges` tag, in order, whether or not a `badge-info` tag is present. "
 "`staff`, `turbo`, `broadcaster` and `moderator` map to their own variants, `subscriber` to its own with the given version and as months the number in its badge-info (1 if missing or malformed), and any other badge to `Other`. "
 "The data of an `Other` badge is its name, version and, as extra info, the value of the first `badge-info` entry with exactly that name.",
 ["inputs"], "all badges/badge-info tag values: any number of entries, duplicates, prefix-sharing names, missing or malformed info",
 "Tests use lists of at most three badges with matching info; more than 32 infos, duplicates, missing info and odd months are never run.",
 ["src/msg.rs", "src/msg/privmsg.rs", "src/msg/whisper.rs", "src/msg/user_notice.rs", "src/msg/user_state.rs", "src/msg/global_user_state.rs"],
 [("parse_badges", "src/msg.rs"), ("From<BadgeData> for Badge and back", "src/msg.rs")],
 observe=["badges(), num_badges(), as_badge_data(), Subscriber getters"])

prop("C12", "Moderation actions and room settings are interpreted exactly",
 "A CLEARCHAT without a target is a full clear, with a target and a valid `ban-duration` a timeout of exactly that many seconds for that user name and id, and with a target and no valid duration a ban; `target()` and the `is_*` predicates agree with it. "
 "A ROOMSTATE reports a setting iff its tag is present (and numeric, for slow and followers-only): flags are true for 1 and false for 0, slow mode is that many seconds, followers-only is disabled for negative values, any follower for 0 and n minutes for n > 0 without overflow. "
 "Channel, channel id and timestamp equal the wire data.",
 ["inputs"], "all CLEARCHAT and ROOMSTATE messages, all integer values of durations, all subsets of settings",
 "Eight snapshot lines with small values; boundary values, partial updates of each setting and malformed durations are not covered.",
 ["src/msg/clear_chat.rs", "src/msg/room_state.rs", "src/msg.rs"],
 [("ClearChat::parse action match", "src/msg/clear_chat.rs"), ("RoomState::parse", "src/msg/room_state.rs"), ("parse_duration, parse_bool, parse_timestamp", "src/msg.rs")],
 observe=["getters of ClearChat, Action, RoomState, FollowersOnly"])

prop("C13", "Membership, ping, notice and user-state messages reproduce the wire data",
 "JOIN and PART report the channel and the prefix nick; PING and PONG report the text as nonce, or none when there is none; NOTICE reports its optional channel, text and optional msg-id. "
 "USERSTATE and GLOBALUSERSTATE report channel or user id, the unescaped display name, badges, color (`None` when empty) and every emote set of a non-empty `emote-sets` tag in order.",
 ["inputs"], "all messages of these seven types",
 "One or two snapshot lines each.",
 ["src/msg/join.rs", "src/msg/part.rs", "src/msg/ping.rs", "src/msg/pong.rs", "src/msg/notice.rs", "src/msg/user_state.rs", "src/msg/global_user_state.rs"],
 [("parse functions and getters", "src/msg/*.rs")], observe=["all getters"])

prop("C14", "Converting a typed message to owned data changes nothing",
 "For every message type that offers it (and badges, users, replies, Hype Chats, events, promotions and actions inside), `into_owned` gives a value that is equal to the original, prints the same and answers every getter identically. "
 "It stays so after the source string has been overwritten and freed.",
 ["inputs"], "all typed messages, every optional part present or absent",
 "No test calls into_owned at all.",
 ["src/msg.rs", "src/msg/"], [("hand-written into_owned per type", "src/msg/*.rs"), ("maybe_clone", "src/msg.rs")],
 observe=["equality, Debug output and getters before and after, source buffer poisoned"])

prop("C15", "Serialized messages deserialize to an equal message",
 "With the `serde` feature, every typed message that parses serializes to JSON and deserializes (from text, from bytes or from an owned value tree) to an equal message, and serializing that again gives the same JSON.",
 ["inputs"], "all typed messages with arbitrary field contents, including characters JSON must escape and extreme numbers and timestamps",
 "Round-trip tests use the same ~40 clean lines: no escapes, no odd months, no extreme numbers.",
 ["src/msg.rs", "src/msg/"],
 [("derived and manual Serialize/Deserialize", "src/msg/*.rs"), ("Deserialize for Subscriber", "src/msg.rs")],
 observe=["serde_json text/value round trips"])

prop("C16", "Parsing is a pure, thread-safe function of the line",
 "What a line parses and converts to depends on that line alone: not on other lines parsed before or at the same time, on other threads, on the address or the surrounding bytes of the buffer, or on which getters were called before. "
 "Parsed messages can be read, cloned, sent to and dropped on other threads concurrently without a data race.",
 ["inputs", "histories", "schedules"], "all lines x all histories of earlier calls x all interleavings of threads reading shared messages",
 "Each test parses one line in a fresh state and on one thread; a cache keyed too coarsely, or a lazily filled cell behind a shared reference, answers correctly there.",
 IRC + ["src/common.rs", "src/msg/"], [("span storage relative to the input", "src/irc.rs"), ("MaybeStr borrowed/owned values", "src/common.rs"), ("from_irc conversions", "src/msg/*.rs")],
 observe=["digest of every accessor per line, repeated in other orders, buffers and threads", "ThreadSanitizer and Miri race reports"])

prop("C17", "Every command is sent as exactly one correct line, in call order",
 "Each successful call of privmsg (with any mix of reply id and nonce), ping, pong, join, join_all and send_raw puts exactly its own bytes on the wire - one line terminated by CRLF, nothing before or after - and calls appear in call order. "
 "The peer parsing that line gets back the given channel(s) (JOIN adds a missing `#`, join_all keeps all channels in order), text, nonce, and reply id and client nonce after unescaping; `pong` echoes the ping's nonce. "
 "Channels, texts and nonces containing a line break, and raw strings not ending in CRLF, are refused without sending anything (reply ids and client nonces are escaped, or refused), and a refused call does not affect later ones.",
 ["inputs", "histories"], "all sequences of send calls with arbitrary arguments (join_all with at least one channel), successful and refused ones mixed",
 "No test touches the client: the suite has no server.",
 ["src/client/write.rs", "src/client/macros.rs", "src/common.rs"],
 [("with_scratch! shared buffer", "src/client/macros.rs"), ("Privmsg::send, ping, pong, join, join_all, send_raw", "src/client/write.rs"), ("Join formatter", "src/common.rs")],
 state=[("scratch", "shared formatting buffer, must be empty between calls", "src/client.rs")],
 observe=["bytes received by a TLS server at the socket boundary"])

prop("C18", "A completed send reaches the peer without any further call",
 "Once a send call has returned success, all its bytes reach a peer that keeps (or resumes) reading, even if the connection was congested during the call and the client makes no further call or is dropped. "
 "Bytes are neither lost, duplicated nor reordered under any amount of backpressure.",
 ["schedules", "inputs"], "all patterns of the peer stalling and resuming reads, all message sizes",
 "No test opens a connection, let alone one with a full socket buffer.",
 ["src/client/write.rs", "src/client.rs"], [("send_raw write (and flush)", "src/client/write.rs"), ("TLS session buffering", "src/client/conn.rs")],
 observe=["bytes received by the server versus sends that returned Ok"])

prop("C19", "Received lines are delivered once, in order, however they arrive",
 "`recv` yields the lines the server sent, each exactly once, in order and byte-exact (without their line ending), however the bytes are split into TLS records and TCP segments, coalesced or delayed, and even if pending `recv` calls are cancelled and reissued. "
 "A line that is not a valid message or not UTF-8 yields one error for that line and the following lines are still delivered.",
 ["schedules", "inputs", "histories"], "all line contents and lengths x all fragmentations x all cancellation points x interleaved sends",
 "No test receives anything from a connection.",
 ["src/client/read.rs", "src/client.rs"], [("LinesStream over the TLS read half", "src/client/read.rs"), ("Client::recv", "src/client/read.rs"), ("split", "src/client.rs")],
 observe=["recv results versus the server's line log"])

prop("C20", "The handshake authenticates exactly once and believes only a welcome",
 "Every connection attempt, first or reconnect and whatever happened before it, sends exactly `CAP REQ` for commands, tags and membership, one `PASS` carrying the configured token with exactly one `oauth:` prefix (a placeholder when anonymous) and one `NICK` with the configured login, as CRLF lines in this order and before anything else. "
 "It succeeds iff the first message acknowledges the requested capabilities (`CAP * ACK`) and the second is the 001 welcome. "
 "Instead of the acknowledgement, a CAP refusal gives `Auth` and any other message `Welcome`; instead of the welcome, a NOTICE about failed authentication gives `Auth`, any other NOTICE `Notice`, anything else `Welcome` (Notice and Welcome carry the message); a closed stream or unreadable line gives a read error. "
 "No line is consumed beyond the welcome.",
 ["inputs", "histories", "fault_sequences"], "all server reply sequences, credentials, and histories of earlier failed attempts",
 "No test performs a handshake.",
 ["src/client.rs"], [("Client::handshake", "src/client.rs"), ("scratch buffer reuse across attempts", "src/client.rs")],
 observe=["bytes received by the server per connection; result of connect/reconnect"])

prop("C21", "Reconnecting follows the backoff policy and yields a fresh connection",
 "`reconnect` waits the initial delay before its first attempt and after each failed attempt a delay multiplied by the multiplier and capped at the maximum, makes at most `max_tries` attempts (unlimited if `None`), retries when the connection cannot be opened or breaks while sending, stops at once on the first success, and on authentication or protocol errors returns that error without another attempt. "
 "When tries run out it returns the last error. "
 "After success all sends and receives use only the new connection, with the original credentials and configuration, and nothing from the old connection is delivered or resent.",
 ["fault_sequences", "configurations", "schedules"], "all sequences of per-attempt outcomes x all backoff configurations (delays up to decades)",
 "No test reconnects.",
 ["src/client.rs"], [("Client::reconnect loop", "src/client.rs"), ("ConnectError::should_retry", "src/client.rs"), ("Backoff", "src/client.rs")],
 observe=["connection attempts in virtual time, bytes per connection, final result"])

prop("C22", "Connecting never hangs: an unresponsive server gives a timeout",
 "If the server stops responding at any point of connecting or reconnecting - TCP accepted but no TLS, no reply to the handshake, or a reply missing its second part or its line ending - the call returns a timeout error no later than the configured timeout for opening plus the configured timeout (and at most 5 seconds per expected reply) for the handshake. "
 "A server that answers within these limits is never reported as timed out.",
 ["fault_sequences", "schedules", "configurations"], "every stall point of the connection sequence x timeout configurations",
 "No test connects; a missing timeout would show up only as a hang.",
 ["src/client.rs", "src/client/util.rs"], [("timeouts around open, handshake and recv", "src/client.rs"), ("Timeout trait", "src/client/util.rs")],
 observe=["completion of connect/reconnect in virtual time"])

prop("C23", "The OAuth token never leaks",
 "The configured token appears nowhere but in the `PASS` line sent to the authenticated server: not in Debug output of credentials, configuration, errors or builders' results, not in Display of any error and not in any tracing event or span, on successful and failing connects, reconnects and sends.",
 ["inputs", "histories"], "all tokens x all connection outcomes x all trace levels",
 "No test captures logs or formats credentials.",
 ["src/client.rs", "src/client/conn.rs", "src/client/write.rs"], [("manual Debug for Credentials", "src/client.rs"), ("trace! calls in handshake, open and send_raw", "src/client.rs, src/client/conn.rs, src/client/write.rs")],
 observe=["all tracing output at TRACE level, Debug/Display strings"])

prop("C24", "Nothing is sent to a server that does not prove it is Twitch chat",
 "The client connects to irc.chat.twitch.tv on port 6697 with TLS and completes a connection only if the server presents a currently valid certificate for exactly that host name issued by a trusted root. "
 "Otherwise - wrong host, untrusted, self-signed or expired certificate, or no TLS at all - connect and reconnect fail and the server receives no credentials or other application data.",
 ["fault_sequences", "configurations"], "all kinds of bad server certificates and non-TLS servers, on connect and on reconnect",
 "No test opens a TLS connection.",
 ["src/client/conn.rs", "src/client.rs"], [("TlsConfig::load with native roots and safe defaults", "src/client/conn.rs"), ("open with server name", "src/client/conn.rs")],
 observe=["result of connect; application bytes seen by the bad server; resolver requests"])

prop("C25", "Disconnects are always noticed and classified",
 "However the peer goes away - orderly TLS close, TCP close without TLS close, connection reset, with or without a partial last line - pending and later `recv` calls return instead of hanging, report an error for which `is_disconnect()` is true, and never repeat or invent messages; every complete line sent before is still delivered first. "
 "Parse errors and invalid UTF-8 are not disconnects.",
 ["fault_sequences", "histories"], "all ways and moments of disconnecting, x number of lines in flight",
 "No test has a connection to lose.",
 ["src/client/read.rs"], [("RecvError::is_disconnect", "src/client/read.rs"), ("fused line stream", "src/client/read.rs, src/client.rs")],
 observe=["sequence of recv results after the fault"])

prop("C26", "Same-message bypass alternates and anonymous logins are well-formed",
 "A bypass's successive values alternate between the empty string and a fixed non-empty invisible suffix starting with a space, beginning with the empty one, so equal texts with consecutive values always differ. "
 "Anonymous credentials are `justinfan` plus exactly five digits with no token, and credentials keep login and token as given, on `Credentials`, the builder and the connected client alike.",
 ["histories", "inputs"], "all numbers of calls; all random draws; all login and token strings",
 "No test uses either.",
 ["src/client/write.rs", "src/client.rs"], [("SameMessageBypass::get", "src/client/write.rs"), ("Credentials::anon", "src/client.rs")],
 observe=["returned values"])

prop("C27", "The generated changelog lists every commit once and keeps the old text",
 "The repository's changelog task prepends, for the given range, one entry per commit in git order with the commit's full message, its own hash and link, preceded by the link to that range, and keeps the previous content of CHANGELOG.md verbatim at the end. "
 "If git fails, the file is left untouched and the task reports failure.",
 ["histories", "inputs"], "all commit histories and messages (at least one commit in the range)",
 "xtask has no tests.",
 ["xtask/src/task/changelog.rs", "xtask/src/util.rs"], [("Changelog::run", "xtask/src/task/changelog.rs"), ("CommandExt::run_with_output", "xtask/src/util.rs")],
 observe=["CHANGELOG.md and exit status in a scratch git repository"])

prop("C28", "Parsing and reading a message costs time and memory linear in its length",
 "For every line, parsing it, converting it to a typed message, unescaping values, reading all accessors, cloning, converting to owned data and printing it take time and memory at most proportional to the length of the line (for badge lists: to the number of `badges` items times `badge-info` items). "
 "No line - many tags, long values, many escapes, many delimiters, or a long run without any - makes the cost grow faster.",
 ["inputs", "configurations"], "all shapes of lines, of any length x {scalar, SSE2, AVX2}",
 "The tests' lines are short, so a quadratic loop costs nothing noticeable there.",
 IRC + ["src/common.rs", "src/msg/"], [("single-pass tag parser", "src/irc/tags/"), ("unescape, maybe_unescape", "src/irc.rs, src/lib.rs"), ("Debug of messages", "src/irc.rs"), ("badge, emote and setting splitting", "src/msg/*.rs")],
 observe=["instruction counts (callgrind) and allocated bytes at geometrically growing lengths"])

prop("C29", "Connections, tasks and memory are given back",
 "A client holds at most one connection whenever no call is in progress: a successful reconnect closes the previous connection, a connect that fails or is abandoned holds none, failed or abandoned reconnects hold at most one, and dropping the client closes its connection at once and leaves no task behind, inside and outside the runtime. "
 "However many lines are received, messages sent or refused, receives cancelled, or connections made, the memory the client holds does not grow with their number.",
 ["histories", "fault_sequences"], "all histories of connecting, failing, cancelling, receiving, sending, reconnecting and dropping, of any length",
 "No test connects, and a leak per line, message or reconnect is visible only over a long run.",
 ["src/client.rs", "src/client/conn.rs", "src/client/read.rs", "src/client/write.rs"], [("reader and writer replaced on reconnect", "src/client.rs"), ("ownership of the split stream", "src/client.rs"), ("reused scratch buffer", "src/client.rs, src/client/write.rs")],
 observe=["sockets opened and closed by the client", "connections as the server sees them", "live tasks of the runtime", "bytes held by the client's thread"])

prop("C30", "The client does nothing it was not asked to do",
 "Whatever the server says - PING, RECONNECT, NOTICE, rate-limit and duplicate warnings, CLEARCHAT or PART for the user, capability replies, a closed connection - and however much time passes, the client hands every message to the caller and neither answers, reconnects, rejoins, closes nor sends anything by itself. "
 "On each connection the server receives the handshake followed by exactly the messages of the calls made on it, without delay between them; connections are made only by connect and reconnect calls, and dropping the client sends no IRC message.",
 ["histories", "schedules"], "all sequences of server messages and calls, all idle times, with and without a pending recv",
 "No test connects; a keep-alive, an automatic PONG, rejoin or rate limit would double what the documented caller does by hand.",
 ["src/client.rs", "src/client/read.rs", "src/client/write.rs"], [("documented non-features of Client", "src/client.rs"), ("recv only reads", "src/client/read.rs"), ("sends write immediately", "src/client/write.rs")],
 observe=["plaintext per connection at the server", "name lookups and connections made", "bytes sent while idle in virtual time"])

prop("C31", "Optional cargo features only add: they never change an answer",
 "The crate compiles with every combination of its features `simd`, `client`, `message-types` and `serde`. "
 "Whatever a combination offers behaves the same as with all features: for every input the raw message (accepted or rejected, tags, prefix, command, channel, params, text, unescaped values, owned and borrowed), the typed message and its serialized form are identical.",
 ["inputs", "configurations"], "all inputs x all 16 feature combinations",
 "The repository tests three combinations, each on the same well-formed lines and none against another; a `cfg` in the wrong place shows only in the combinations nobody builds.",
 ["Cargo.toml", "src/lib.rs", "src/irc.rs", "src/msg.rs", "src/client/write.rs"], [("feature gates", "src/lib.rs, src/irc/tags.rs, src/msg.rs, src/client/write.rs"), ("feature list", "Cargo.toml")],
 observe=["compiler outcome per combination", "per-input digests recorded by each build on the same corpus"])

prop("C32", "Repository tasks run exactly their commands and never hide a failure",
 "`xtask test ARGS...` runs `cargo insta test --all-features --lib --review ARGS...` once, passing every argument through unchanged. "
 "`xtask setup` runs `cargo install --locked cargo-insta`, or with `--binary` first `cargo install cargo-binstall` if and only if `cargo --list` does not list a command named exactly `binstall`, then `cargo binstall --no-confirm --locked cargo-insta`; and then `rustup component add rustfmt clippy`. "
 "When a command fails, is killed by a signal or cannot be started, nothing further is run and the task exits with an error; it exits successfully if and only if every command succeeded.",
 ["inputs", "fault_sequences"], "all argument lists, all command lists of cargo, a failure of any kind at any command",
 "The task runner has no tests, and a failing or killed command, an odd argument or a similarly named subcommand does not occur in ordinary use.",
 ["xtask/src/task/setup.rs", "xtask/src/task/test.rs", "xtask/src/util.rs", "xtask/src/main.rs"], [("setup and test tasks", "xtask/src/task/"), ("command runner and status check", "xtask/src/util.rs")],
 observe=["commands received by recording stand-ins for cargo and rustup", "exit status and output of the task"])

prop("C33", "Any call may be cancelled without harm to later ones",
 "Dropping the future of a send, recv or reconnect call at any point (as `select!` or a timeout does) does no harm. "
 "A cancelled send's line reaches the peer whole and once, in call order, or not at all, and every later call puts exactly its own line on the wire; a cancelled recv loses, repeats or splits no line, however often and wherever it is cancelled; "
 "after a reconnect was given up at any point, the next reconnect to a working server succeeds, sends its own complete handshake and nothing else, and its connection carries exactly the calls made after it and delivers only its own lines. "
 "(While more than 64 KiB wait inside the TLS layer, a cancelled send may leave its line in part.)",
 ["histories", "schedules", "fault_sequences"], "all sequences of calls, each completed or dropped after any number of polls, under any congestion",
 "Cancellation points exist only while a peer is slow, and no test connects; ordinary use awaits every call to its end.",
 ["src/client.rs", "src/client/read.rs", "src/client/write.rs", "src/client/macros.rs"], [("reused scratch buffer across await points", "src/client/macros.rs, src/client.rs"), ("line reader and its buffers", "src/client/read.rs"), ("reader and writer replaced in the middle of reconnect", "src/client.rs")],
 observe=["plaintext per connection at the server", "outcome of every poll", "lines received"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print("schema ok")
except ImportError: print("(jsonschema not available)")
print(len(P), "properties")
