#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "partitioned abstract interpretation of go/ssa: "
checks = {
 "T01": (AI + "writes of frames and the locks around them", "other", "A frame in one write, or all its writes in one critical section, on every path of every sender; streams are told apart by value."),
 "T02": (AI + "table lookups, removals and hand-overs per message", "other", "Every way through a receive loop between two messages, every request on every way to end. Tables are told apart by field."),
 "T03": (AI + "channel ownership and blocking steps of receive loops", "other", "Sends, closes and what makes them exclusive, on every path; channels are told apart by the field or table that holds them. The user's callback and the codecs are outside."),
 "T08": (AI + "where the id of each message comes from", "other", "Each operation that takes a message is analysed for a message without an id and for one with an id of its own. That 32 bits of index do not wrap round is outside."),
 "T09": (AI + "receive loop and senders per class of message", "other", "The header parser is replaced by one class of message per run; fields are told apart by type and name."),
 "T05": (AI + "checksum formulas of reader and writer compared term by term, and the settings at every call", "other", "crc8 and crc32 are uninterpreted functions: equal terms, equal checksums. The settings are compared with those of the connection or with the documented mapping of the configuration it was made from."),
 "T07": (AI + "every stream kept, written or read, and the TLS configuration that came with it", "other", "The stream stored or used must be the result of tls.Client/tls.Server over the given stream with the given configuration, after a successful Handshake, or the way has found the configuration nil. Cipher strength and what crypto/tls does are outside."),
 "T10": (AI + "what happens between one frame read of the piper and the next", "other", "Frame reader and writer are opaque steps; which goroutine forwards which way, the message written, the filter call and the closing are read off the explored runs."),
 "T11": (AI + "heartbeat handlers and pings per class of message", "other", "The header parser is replaced by one class of message per run; the tick is followed from the registration to the encoder and from the decoder to the look-up."),
 "X03": (AI + "paths to a nil error", "other", "Every way through every operation up to the engine's joins and widening; calls across layers are opaque steps with an unknown error. Codec dispatch by reflection is analysed per function."),
 "X02": (AI + "waits and contexts on every path", "other", "Which context reaches which wait is decided by value flow; waits inside opaque calls are decided where those functions are entries."),
 "X01": (AI + "waits and what wakes them", "other", "Channels and flags are told apart by field; that an awaited channel is closed is decided for the Close methods, and that an operation notices is decided on every way out of it."),
 "X04": (AI + "ownership of connections on every path", "other", "A connection is followed by value through calls, fields, goroutines and containers; an operation is looked at on its own where it neither takes nor gives a connection."),
 "X05": (AI + "accept loops with error classes", "other", "Accept is given the classes of result a listener may return; everything a loop does with them is followed."),
 "X06": (AI + "lock sets per field and captured variable", "other", "A field is told apart by type and name; objects count as shared when reachable through the API, a container or a goroutine."),
 "X07": (AI + "lock sets and lock order", "other", "Lock instances are told apart by term, lock order by the class of the lock (type and field). Channel capacities are known where the channel is made in reach."),
 "T04": (AI + "proof obligations of every index, slice, assertion, allocation and loop reachable from transport bytes", "other", "Every byte read is unknown. Arithmetic that may not fit is unknown too; lengths of values in memory are taken to be below 2^48. What the decoder does with a value is S01, the lease layer L03."),
 "T12": (AI + "sizes written in frame headers against what follows them, on every path of every sender", "other", "A length field must equal the length of what is written, with no wrap-around possible in the type it is stored in; lengths of values in memory are taken to be below 2^48."),
 "T06": (AI + "map of header ids to fields and layouts of the parser against that of the writer", "other", "The parser is followed through the first and the second header of any message, the writer through every combination of set fields; the codec itself is opaque (S02)."),
 "B01": (AI + "conversion formulas evaluated for every region of the number line", "other", "Linear arithmetic over unbounded integers with wrap-around made visible; a conversion that is not a linear formula is noted as undecided."),
 "F03": (AI + "the membership test evaluated for every ordering of its inputs", "other", "169 orderings of the halves of the three ids are all there are; nothing is executed, comparisons are decided from the ordering."),
 "F05": (AI + "obligations of the functions from strings to ids for any string, loop counters against the lengths they count", "other", "Strings are unknown; accepted hexadecimal forms and their values are compared as terms. That two names give different ids is outside."),
 "F01": (AI + "critical sections and comparisons around every store into the partner table", "other", "Partner records are found by their type, tables by what they hold; instances are compared as linear terms."),
 "F02": (AI + "waits, critical sections and comparisons of the phase on every path of Bootstrap and of every change of the phase", "other", "Phases are compared as integers; that SendOneWay sends is F04 and X03."),
 "F04": (AI + "the choice of a partner as a loop that keeps the smallest clockwise distance, the id arithmetic case by case, and the address that is dialed", "other", "That the state of a partner table lists every known partner is decided for the functions that build it; a partner that joins while the choice is being made may be missed."),
 "S01": (AI + "the decoder over unknown bytes, for every kind of target type including unsupported ones, with reflection interpreted over the static types; an element of a field is taken as read by an assumption that is checked for each type where a field of it is read (assume-guarantee, closed over the types reached). Every use of reflection that can panic, every index, slice, conversion, amount of memory, seek and loop is an obligation over linear inequalities; every truncation of what the encoder writes must end in an error", "other", "decides panic, memory, position and progress for all inputs within the type grammar; library functions are modelled; values the decoder builds are not followed here (S02-S04 do)"),
 "S02": (AI + "encoder and decoder are composed: what the encoder writes for an unknown value of each kind, as a sequence of typed parts, is what the decoder is interpreted over, and the value it stores must be the term that was written, with every byte consumed; kinds refused by one must be refused by the other without panic", "other", "kinds are enumerated to a nesting of two, lists and maps for 0 to 2 elements; strings valid UTF-8 and shorter than 2^24; the compressed-integer primitives are taken as inverse (S07)"),
 "S03": (AI + "for every kind of target and each of the 256 type markers, followed by whatever any encoder writes for any kind, the ways of the decoder that succeed are compared with the markers the encoder uses for that class", "other", "all 256 markers for each supported kind and for list elements; payloads are those of the encoder"),
 "S07": ("static analysis: abstract interpretation of encoder and decoder of compressed integers over bit provenance (each bit is a constant, a bit of the unknown value or its complement), the values partitioned by the bits that decide where control goes; the decoder is interpreted over the bytes the encoder is found to write, and every one of the 64 bits it returns has to be the bit that was encoded", "other", "every value of 16, 32 and 64 bits, signed and unsigned; zero is written as nothing, which only zero may be; reading is from the bytes of one integer (what follows is not touched because as many bytes are read as were written)"),
 "S04": (AI + "the sizes and positions in the byte term the encoder produces for nested and listed objects are compared with the parts they must cover; pairs of versions of a type are composed, the reader having fewer or more fields; envelopes with a marker or size damaged must be refused", "other", "versions differ by fields appended at the end, in plain, nested, pointed to and listed objects"),
 "S05": (AI + "writer and reader of each custom encoding are composed over unknown values; every changed marker or count and every truncation must be refused, every failing step reported; and no other type of the repository has the method set of a custom encoding through embedding", "other", "all types with their own encoding found by the interface; the embedding query covers every named struct type of the module"),
 "S06": (AI + "the types that reach the encoder or decoder are collected from the call sites by the interface conversions, and each is composed through encoder and decoder: no refusal, and every exported and unexported field carried; the reader registered for a header id has the type that is written", "other", "types reaching the encoder through variables of interface type are found by the points where they are converted"),
 "L03": (AI + "every step of the lease frame reader and message decoder over unknown bytes that can panic, slice or size memory is an obligation discharged by linear inequalities over the bytes that are there, wrap-around included; the call graph of the frame reader is searched for recursion", "other", "all byte streams; library readers are modelled"),
 "L01": (AI + "every successful way of a session's Ping, and every close of the channel it waits on, with the stores before it and the critical sections around it", "other", "decides order on each way and lock sections; that a woken ping was woken by a close is a property of the channel"),
 "N01": (AI + "every successful way of each exported naming operation: error code, failure action and decoding of each reply it received, nil checks of decoded content", "other", "the failure action's name and code 0 are the fixed reading of the wire; content of error-free replies is not judged"),
 "N02": (AI + "every way of the notification handler: decoding, acknowledgement and its RelatesTo, delivery from a goroutine of its own", "other", "at most one spawn level deep; whether the acknowledgement is written is T01/T03's matter"),
 "F08": (AI + "every successful way of routing and joining: registration, sending, waiting and error code of the request, and decoding of the reply", "other", "how the transport matches replies to requests is T02's matter"),
 "F06": (AI + "the headers added to a message are followed to where it is handed to a connection; the loop over known partners is decided per turn (each turn adds the record of its partner, or that partner's instance is not above zero) and must be left only at the end of the list; the filter behind the list is run abstractly on an arbitrary record; senders, receivers and message ids are compared as terms", "other", "complete over all operations of a node that send, for any number of partners; headers collected in a list first are noted, not judged"),
 "F07": (AI + "the entry found or stored under the dialed address, the Once it dials in, the stores to the entry and what happens after a failed or ended dial are followed on every way; the entry's invariant (a connection or an error) is shown at the end of the Once and kept by every other write, so it holds for all interleavings; removals must be by a Once of the entry or guarded by identity", "other", "complete over all operations of a node for the Once-per-entry design; a dial under a lock is noted, not judged; the dialer is assumed to give a connection or an error"),
 "L02": (AI + "the encoder over an arbitrary message gives a sequence of parts with symbolic positions and lengths, against which what the header states is checked; the decoder is then interpreted over that same sequence and must give back every scalar and the endpoint", "other", "lists of 0, 1 and 2 elements, texts of any length below 2^24 code units, durations that are whole milliseconds and fit the integer that carries them"),
}
na = {
 "F09": "",
 "T13": "",
}
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in checks:
        t, lv, note = checks[p]
        out["checks"].append({"property": p, "quick_cmd": "bash check.sh %s" % p, "thorough_cmd": "bash check.sh %s --thorough" % p,
                              "technique": t, "level": lv, "level_note": note})
    else:
        out["not_applicable"].append({"property": p, "reason": na[p]})
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
