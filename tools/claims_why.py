why = {
"T01": "interleaving depends on the schedule of senders and on how the kernel splits writes; the rule shows that no two writers of a stream can be in the middle of a frame at once.",
"T02": "a reply may come at any point of the life of a request; the rule follows every message and every request on every way, not some orders of arrival.",
"T03": "the loop must survive every sequence of messages at every moment, including those a test would never time right.",
"T04": "every byte string is a possible input; each index, slice and amount of memory is proved for all of them.",
"T05": "all configurations on both ends, all contents; the formulas are compared as terms.",
"T06": "every combination of set fields and every order of headers, known and unknown.",
"T07": "every path that keeps or uses a stream, including failures of the handshake.",
"T08": "all messages and all callers; that no id is used twice depends on the atomicity of the step.",
"T09": "every way after the refusal, in all operations that could still send.",
"T10": "all messages, filters and orders of ends of the two sides.",
"T11": "all orders of heartbeats, answers, losses and timeouts.",
"T12": "messages too large for a test to build, at every size.",
"X01": "the close may come at any moment of a wait or before it; order of flags, closes and registrations is decided for all of them.",
"X02": "the context may end during any wait; every wait is looked at.",
"X03": "every step of every operation may fail; each failure would have to be injected.",
"X04": "the leaks are on failure paths, of which there are many more than tests.",
"X05": "errors of accept are rare and come at arbitrary times.",
"X06": "a race shows in few schedules; lock sets cover all.",
"X07": "a deadlock needs a particular schedule; the lock order is a property of all paths.",
"S01": "every byte string, for every kind of target type.",
"S02": "all values of all kinds, with byte counts symbolic.",
"S03": "all 256 markers for all kinds, with any data behind.",
"S04": "all pairs of versions within the bound, in every position.",
"S05": "all values and every damaged form of every custom encoding.",
"S06": "the types that reach the encoder come from all over the module, most from code that no test runs.",
"S07": "2^64 values of each sign; a sample finds neither a wrong group limit nor a sign that is lost at one width.",
"F01": "records come in any order and at the same time from several connections.",
"F02": "the routing node may be found between any two steps of Bootstrap.",
"F03": "all ids, by the orderings that are all there are.",
"F04": "all tables of partners and all ids, around the whole ring.",
"F05": "all strings.",
"F06": "all operations, all states of the table.",
"F07": "dials, ends of connections and sends meet in any order; the invariant of the entry holds for all.",
"F08": "all replies, failures and orders of them.",
"L01": "the pong may come between any two steps of the ping.",
"L02": "all texts and durations, all sizes of lists within the bound, offsets as linear terms.",
"L03": "every byte string.",
"N01": "all replies, of all operations.",
"N02": "all notifications, handlers that never return.",
"B01": "all 64-bit values, in particular at the limits.",
}
missed = """
* `t02-echoed-id`: T02 now asks what a table look-up is keyed by, and for messages without a relates-to id.
* `t11-reencoded`: T11 asks for the body that came, not for one that encodes the same tick.
* `t04-short-header`: T04 follows the header section to its end: headers are returned only where one begins.
* `x01-close-first-only`: X01/X04 model a `Range` whose function stops early, and members left open by it.
* `s01-short-double`: library readers may read less than asked for; what is left of a value then is an error.
* `x05-limited`: X05 takes a send on a channel that outlives the turn for a wait for peers.
* `f01-phase-of-old` (a variant that changes the record in place): F01 asks for proof that the instance of the
  message is higher, not for any comparison of instances.
* `f04-borrow-lost`: reductions modulo 2^64 are dropped where they count for 2^64, so the lost borrow shows as an offset.
* `f05-prefix`: F05 asks that the text that is read is the parameter, at most in another case.
* `n02-ordered`: N02 knows what goroutines let go of only after the handler has run (locks, channels).
* `n02-left-over`: N01/N02 ask that a message is decoded into memory of its own.
* `n01-no-list`: N01 refuses success with nothing where the reply is not known to have content.
* Not kept as planted bugs, but missed at first: frames written in pieces without a lock (T01), a pong for all sessions
  that are found by a walk over the table (L01).
"""
