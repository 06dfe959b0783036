#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the fields stay consistent)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m.strip(), where=files[0]) for m in mech.split(';')])))

p("C01", "A written message parses back to the same message",
  "For every client or server message built through the public API (any tags with any values, any source whose host is non-empty, any command or numeric, any arguments), the bytes the message writes contain no CR, LF or NUL, and parsing them as the same kind of message yields a message with equal tags, source, command/numeric and arguments. This includes arguments that are empty, begin with a colon or contain spaces in last place, and tag values that need escaping.",
  ["inputs"], "all tag maps, sources, kinds and argument lists, of any length and byte content the types allow",
  "The unit tests round-trip a handful of literal lines; the guarantee is over every combination of tag value bytes, source shapes and argument shapes.",
  ["src/ircmsg/codec.rs", "src/ircmsg/args.rs", "src/ircmsg/tags.rs", "src/ircmsg/source.rs", "src/ircmsg/client.rs", "src/ircmsg/server.rs", "src/ircmsg/servermsgkind.rs"],
  "codec::{parse,write_to}, Args::{parse,write_to}, Tags::{parse,write_to}, Source::{parse,write_to}, ServerMsgKind")
p("C02", "Parsing any line terminates, never panics, and follows the IRC grammar",
  "For every line, parsing it as a client message or as a server message terminates without panicking and yields either an error or a message. On success the tags are the key/value pairs between a leading '@' and the first space, the source is the word after a leading ':', the kind is the next word (upper-cased command or three-digit numeric), the arguments are the remaining space-separated words with everything after ' :' as one last argument, and every part satisfies its string type.",
  ["inputs"], "all byte strings without CR, LF, NUL",
  "Tests parse about a dozen well-formed lines; malformed, degenerate and adversarial lines (a tag key starting with ':', stray separators, tabs, empty parts) are an unbounded set.",
  ["src/ircmsg/codec.rs", "src/ircmsg/args.rs", "src/ircmsg/tags.rs", "src/ircmsg/source.rs", "src/string/splitter.rs"],
  "codec::parse, Args::parse, Tags::parse, Source::parse over Splitter")
p("C03", "String types accept exactly the strings their documentation allows",
  "For each string type (NoNul, Line, Word, Arg, Key, Target, Nick, User, Cmd) every checked constructor and conversion succeeds exactly on the byte strings that meet the type's documented rules and keeps the bytes unchanged, and the error names a real offence (the first forbidden byte, emptiness, or a leading colon). No safe operation (conversions, narrowing from the parent type, command upper-casing, transforms, builders, splitting, deserialisation) can produce a value that breaks the rules of its type.",
  ["inputs"], "all byte strings, all nine types, all conversions between them",
  "Tests check a few literals per type; the invariant is relied on by unsafe code (unchecked UTF-8, C strings, non-zero bytes) for every string.",
  ["src/string/subtypes.rs", "src/string/subtypes/macros.rs", "src/string/subtypes/impls.rs", "src/string/builder.rs", "src/string/splitter.rs"],
  "is_invalid_for_*, arg_first_check, cmd_byte_check, find_invalid, from_bytes, from_super, Cmd::from_word, Builder::try_*")
p("C04", "Tag value escaping is a safe, exact inverse pair",
  "Escaping any tag value yields a string without spaces, semicolons, CR, LF or NUL, and unescaping that yields exactly the original bytes. Unescaping any string follows the IRCv3 rules: the five escape codes map to their bytes, a backslash before any other byte is dropped and the byte kept, and a lone trailing backslash is dropped.",
  ["inputs"], "all NUL-free byte strings",
  "Tests cover a couple of literals; correctness depends on every position, adjacency and count of escapes.",
  ["src/string/tf/escape.rs"], "escape, unescape, escape_byte, unescape_byte")
p("C05", "Tag and name maps behave as maps under any sequence of edits",
  "After any sequence of insertions, removals, lookups and clears, inside one editing session or across several, a tag map (and a map of IRC names such as capabilities or ISUPPORT tokens) holds, for each key, exactly the value inserted last and not since removed; no key appears twice, reported length and emptiness match, and lookups made during the session agree with those made after it. No value is lost, duplicated or freed twice.",
  ["histories", "inputs"], "all finite sequences of edit operations over all keys and values",
  "Tests perform single insertions in one order; the ordering of keys within one editing session, and removals mixed with pending insertions, are unbounded histories.",
  ["src/util/flatmap.rs", "src/ircmsg/tags.rs", "src/names/types.rs"],
  "FlatMap, FlatMapEditGuard::{get_impl,insert,remove,clear,drop}, Tags::edit, NameMap::edit")
p("C06", "Splitting a string neither loses, duplicates nor reorders bytes",
  "Every operation of the string splitter returns exactly the documented next piece of the remaining bytes (the longest prefix valid for the requested type, the remaining bytes, the next byte from either end), removes exactly what it returned from the front or back, and leaves the rest untouched; on error nothing is consumed. Truncating to a byte or a count limits later reads to before that point, and dropping a save guard restores exactly the saved bounds it was asked to keep.",
  ["histories", "inputs"], "all strings and all sequences of splitter operations",
  "Tests use two or three literal strings and short call sequences; parsers depend on it for every string and interleaving of operations.",
  ["src/string/splitter.rs"], "Range::{consume,restore}, Splitter::{string,rest,next_byte,rnext_byte,until_*,consume_*}, SavedIndices")
p("C07", "A string is only ever treated as UTF-8 if its bytes are valid UTF-8",
  "Whatever way a string is produced (constructors, builders, splitting with save guards, transforms, ownership conversions, clones), if it reports or hands out UTF-8 text then its bytes are valid UTF-8, and when asked for a definite answer it reports UTF-8 exactly when the bytes are valid. Lossy conversion leaves valid UTF-8 unchanged.",
  ["inputs", "histories"], "all byte strings, including invalid and truncated sequences, and all operation sequences producing strings",
  "UTF-8 validity is cached in a flag that every operation must maintain, and unchecked conversions trust it; tests use ASCII or well-formed text.",
  ["src/string/bytes.rs", "src/string/splitter.rs", "src/string/builder.rs", "src/string/tf.rs"],
  "Bytes.utf8 flag, Utf8Policy, Splitter Encoding, Builder.utf8, map_bytes")
p("C08", "Argument lists only ever hold one long argument, at the end",
  "After any sequence of argument-list operations every argument but the last is a non-empty word without spaces that does not begin with a colon, adding arguments appends them in order and evicts a previous long last argument only where documented, and splitting off the first or last argument, clearing, and the length report exactly the stored sequence. Writing the list separates arguments by single spaces and prefixes exactly the last one with a colon when it could not otherwise be read back.",
  ["histories", "inputs"], "all sequences of list operations over all argument values",
  "Tests add two or three fixed arguments.",
  ["src/ircmsg/args.rs"], "Args::{parse,split_last,split_first,write_to}, ArgsEditGuard::{add,add_word,add_impl,clear,...}")
p("C09", "Message size accounting equals the bytes actually written",
  "For every message, the number of bytes it reports as left before the 512-byte limit (before and after relaying with a given source) equals 512 minus the length of what is written excluding tags and including the line terminator, less one byte reserved for a colon when the last argument happens not to need one, and the lengths reported for sources and numerics equal the lengths written.",
  ["inputs"], "all messages and sources", "Tests compare one or two literal messages.",
  ["src/ircmsg/codec.rs", "src/ircmsg/source.rs", "src/ircmsg/args.rs", "src/ircmsg/client.rs", "src/ircmsg/server.rs"],
  "bytes_left, Source::len, Args::len_bytes, ServerMsg/ClientMsg::bytes_left")
p("C10", "Reading messages from a byte stream is independent of how bytes arrive",
  "For every sequence of messages and every way of chunking the resulting byte stream into reads, the reader returns the same messages in the same order, one per line, skipping empty lines and never mixing bytes of different lines, and an interrupted read is resumed without loss. A line longer than the stated limit (4608 bytes for client messages, 8703 for server messages, terminator included) and a stream that ends inside a line are reported as errors. The asynchronous readers and codecs return the same messages from the same bytes.",
  ["inputs", "schedules", "fault_sequences"], "all byte streams, all chunkings into reads, both directions",
  "Tests feed whole lines from memory; splits inside a CRLF pair, limits and back-to-back messages are not reached.",
  ["src/ircmsg/codec.rs"], "read_msg!/read_buf!, ServerMsg::read_borrowing_from, ClientCodec/ServerCodec, tokio Decoder/Encoder")
p("C11", "Secret strings stay secret and are never printed",
  "Every string derived from a secret one (clones, ownership conversions, conversions between string types, splitting, escaping, transforms, lossy conversion, base64) is itself secret unless it is empty, with contents exactly as the operation defines, and an owned buffer of a secret string is overwritten before it is released. Formatting a secret string, or anything that contains one, for display or debugging never reveals its bytes.",
  ["inputs", "histories"], "all secret values and all compositions of operations on them",
  "No test follows secrecy through operations; each path that copies bytes can drop the flag.",
  ["src/string/bytes.rs", "src/string/tf/escape.rs", "src/string/splitter.rs", "src/string/base64.rs", "src/client/auth/secret.rs"],
  "Bytes.secret, using_value, transform, owning, escape/unescape, Display/Debug")
p("C12", "Secret buffers hold exactly what was written, in bounds, and are wiped",
  "After any sequence of pushes, appends, reads and reservations a secret buffer contains exactly the bytes written, in order, never accesses memory outside its allocation, and reads at most the number of bytes it was asked to read. Memory it releases (when growing, or when dropped) has been overwritten first.",
  ["histories", "fault_sequences"], "all operation sequences, sizes and short reads",
  "Tests do one reservation and one read; overflow and wiping are invisible to assertions on the contents.",
  ["src/string/secretbuf.rs", "src/util/ownedslice.rs"], "SecretBuf::{reserve,append,push,read_from,drop}, OwnedSlice")
p("C13", "Base64 chunking and decoding are exact inverses within the chunk limit",
  "For every payload and every permitted chunk size, the base64 chunks concatenate to the standard encoding of the payload, every chunk except the last has exactly the limit length and the last is shorter (an empty payload or an exact multiple is terminated as the protocol requires with '+'), and decoding the chunks (for limits that are a multiple of four, as in the protocol) yields the payload again. Invalid base64 is reported as an error, never as data.",
  ["inputs"], "all payload lengths and contents, all chunk limits", "Tests use short literals that fit one or two chunks.",
  ["src/string/base64.rs"], "ChunkEncoder, ChunkDecoder, to_base64_plus")
p("C14", "Numerics convert to and from their three digits without loss",
  "Exactly the integers 0 to 999 and exactly the three-ASCII-digit strings are numerics; converting a numeric to its integer, its text, its serialised form and back yields the same numeric, ordering follows the integers, and the error classification of a numeric depends only on its value as documented.",
  ["inputs"], "all 16-bit integers and all three-byte strings", "Tests sample a few values.",
  ["src/ircmsg/numeric.rs"], "Numeric::{from_int,from_bytes,into_int,is_error,as_str}, serde")
p("C15", "Mode sets and mode-type tables obey set and partition semantics",
  "A mode set behaves as a mathematical set of the 52 ASCII letters under insertion, removal, membership, union, intersection, difference, subset ordering, counting and iteration (each member once, alphabetical, each lower-case letter before its upper-case one). A mode-type table gives each mode at most one type: building one from four sets removes exactly the modes that occur in more than one of them and reports precisely those, and inserting a mode leaves it with exactly the inserted type; parsing a PREFIX value maps each mode to its own prefix, and rejects exactly repeated modes or repeated prefixes.",
  ["inputs", "histories"], "all sets of modes, all quadruples of sets, all PREFIX/CHANMODES strings", "Tests use a few letters.",
  ["src/state/mode.rs"], "Mode, ModeSet, ModeSetIter, ModeTypes::{from_sets,insert,insert_set,get,parse}, StatusModes::parse")
p("C16", "Casemapping is exact, idempotent and length-preserving",
  "For every string each casemapping changes only the bytes its definition names (ASCII letters; additionally the bracket characters, and the tilde/caret pair, for the RFC 1459 variants), leaves all other bytes and the length unchanged, is idempotent, and never turns a valid string of a type into an invalid one.",
  ["inputs"], "all byte strings, all casemaps", "Tests map one or two literals.",
  ["src/string/tf/casemap.rs", "src/string/tf.rs"], "rfc1459, rfc1459_strict, map_bytes, AsciiCasemap, IrcCasemap")
p("C17", "The outgoing queue is FIFO and never exceeds its rate limit",
  "Messages leave the queue in the order they were added, none lost or duplicated (except those an adjuster removes or a clear discards). In any time interval the number of messages released is at most the burst allowance plus one plus the interval divided by the delay, a message is released whenever the limit permits, and the wait reported otherwise is non-zero and exactly sufficient. Labelled messages carry exactly the label returned.",
  ["histories", "inputs"], "all sequences of pushes, pops, edits and elapsed times, all rate limits", "Tests cannot wait out real delays, and only see the first burst.",
  ["src/client/queue.rs"], "Queue::{pop,set_rate_limit,adjust,reset}, QueueEditGuard")
p("C18", "Every live handler sees every message exactly once; identifiers never clash",
  "For every history of adding, finishing and cancelling handlers, each message is passed exactly once to every handler that is live when it arrives, in particular to the handlers around one that finishes on that message; no two live handlers share an identifier, and the reported results list exactly the handlers that yielded a value and those that finished on that message.",
  ["histories"], "all interleavings of handler addition, completion, cancellation and messages", "Tests run one or two handlers to completion; removal during iteration is order-dependent.",
  ["src/client/handler.rs", "src/client.rs"], "Handlers::{add,handle,cancel_one,cancel,last_run_results}")
p("C19", "Generated nicknames and usernames are always valid and follow their options",
  "Every nickname produced from any configuration is a valid nickname; the configured choices come out in order, suffixed nicknames are the stem followed by one of the strings the suffix rules describe, and a sequential generator yields pairwise distinct values (if its options describe distinct suffixes) and ends after the last one, without panicking for any configuration.",
  ["inputs", "configurations"], "all generator configurations and seeds", "Tests use one seed and two configurations.",
  ["src/client/nick.rs", "src/client/nick/suffix.rs"], "NickGen, SuffixGen, SuffixType::suffix")
p("C20", "Capability requests cover exactly the requested set and fit in a line",
  "For every list of capabilities, the CAP REQ messages emitted name exactly those capabilities, each once and in order, and whenever each single capability fits, every message and its acknowledgement fit in 512 bytes. Parsing a server's CAP message yields exactly the capabilities and values listed, and combining the lines of a multi-line reply yields their union and is refused for a different subcommand, a different nick or after the last line.",
  ["inputs"], "all capability lists, names and client/source lengths; all CAP argument lists", "Tests parse one multi-line reply and never reach the length limit.",
  ["src/client/cap.rs"], "req, ServerMsgArgs::{parse,combine}, SubCmd")
p("C21", "SASL credentials are sent exactly and failures fall back in order",
  "For every identity, the PLAIN payload is the authorisation id, a NUL, the authentication id, a NUL and the password, byte for byte; it is sent base64-encoded in pieces of at most 400 bytes with the protocol's terminating piece. On failure the next configured mechanism is tried, mechanisms the server says it does not support are skipped, and authentication is reported successful only after the server's success numeric.",
  ["inputs", "histories"], "all credentials and all server reply sequences", "Tests cover one short password.",
  ["src/client/auth/sasl/password.rs", "src/client/auth/handler.rs", "src/client/auth.rs"], "Plain, sasl Handler, SaslQueue")
p("C22", "Registration never completes without what the options require",
  "For every sequence of server replies, registration reports success only after the server's welcome and, if authentication is required, only when logged in; the nickname reported is the latest of the candidate sent and the one the server named in its welcome and login messages, a refused nickname leads to the next candidate or to failure when none remain, capability negotiation is ended at most once and not before every requested capability was answered and authentication finished, and capabilities are requested only if offered and wanted.",
  ["histories", "configurations"], "all option sets and all server reply sequences", "Tests run two scripted happy paths.",
  ["src/client/register.rs", "src/client/register/handler.rs", "src/client/register/defaults.rs"], "Register::handler, Handler::handle")
p("C23", "Every server PING is answered with its own argument",
  "For every PING from the server, whatever its argument, exactly one PONG carrying the same last argument is queued, and other messages queue nothing; a client-originated ping completes only on the reply carrying its own token.",
  ["inputs", "histories"], "all PING arguments and message sequences", "Tests use one literal PING.",
  ["src/client/handlers/ping.rs", "src/client/handlers/autoreply.rs"], "AutoPong, Ping, pong")
p("C24", "CTCP bodies parse and write as exact inverses, and only queries are answered",
  "For every CTCP command (an upper-case word without the delimiter byte 0x01) and body without that byte, writing and parsing yields the same command and body, and any message body that does not begin with the delimiter is reported as not CTCP with its bytes unchanged. The automatic version reply answers each VERSION or SOURCE query that is sent by PRIVMSG with exactly one NOTICE to its sender, whose text is that command with the configured text if that is not empty, and answers nothing else; in particular never a NOTICE.",
  ["inputs", "histories"], "all command words and bodies, all messages", "Tests use two literals.",
  ["src/ircmsg/ctcp.rs", "src/ircmsg/targeted.rs", "src/client/handlers/autoreply.rs", "src/names/cmd.rs"], "MaybeCtcp::{parse, into_line}, TargetedMsg, CtcpVersion::handle")
p("C25", "Owning conversions, clones and comparisons never change a value",
  "Converting any string, source, argument list, tag map or message to an owning form, cloning it, or merging its storage yields an equal value with the same bytes, hash and ordering as the original, which remains valid after the borrowed data is gone. Equality, order and hash of strings, sources, tags, message kinds, argument lists and messages are determined by their contents alone (for strings and message kinds: their bytes, so a lookup by bytes agrees with them), never by how they are stored.",
  ["inputs", "histories"], "all strings and messages, borrowed or owned, sliced from shared storage or not", "Tests convert one or two values; storage sharing makes offsets matter for every slice.",
  ["src/string/bytes.rs", "src/ircmsg/source.rs", "src/ircmsg/servermsgkind.rs", "src/util/flatmap.rs", "src/owning.rs", "src/util/thinarc.rs"], "Bytes::{eq,cmp,hash,owning,using_value,into_vec,clone}, Source::owning_merged, MakeOwning")
p("C26", "One-shot channels deliver each value exactly once under any schedule",
  "For every interleaving of sender and receiver, a one-shot channel delivers the sent value exactly once, wakes a waiting receiver, reports closure when the other side is dropped, and frees its storage exactly once.",
  ["schedules"], "all interleavings of sender and receiver operations and drops", "Tests run a few threads without controlling the schedule.",
  ["src/client/handler/channel/oneshot.rs", "src/client/handler/channel/parker.rs"], "oneshot, parker")
p("C27", "The client's own source is tracked exactly",
  "For every sequence of server messages, the client's recorded source is the fold of its own NICK, CHGHOST and USERHOST (302) replies: messages about other users and malformed messages leave it unchanged, each field is replaced by exactly what the latest such message says, and once nick, user and host are all known the recorded source length equals the length of that source, with the documented allowance for a user name the server may prefix with a tilde.",
  ["histories", "inputs"], "all message sequences, about the client and about others, well-formed and not", "Tests use one or two scripted messages; the length feeds the 512-byte accounting of every later message.",
  ["src/client/handlers/track.rs", "src/client/logic.rs"], "TrackClientSource::handle; ClientSource; ClientState")
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
