# Hand-written parts of DESIGN.md: per property the oracle, what the exploration
# reaches that tests cannot, and what is left out.
INTRO = '''# Design

Every property is decided by **exhaustive enumeration of executions of the real
code** within stated bounds: stateless model checking. Nothing is sampled, and
no verdict comes from a solver. A model is used only as an *oracle* or as the
*other side* of a protocol; it never stands in for the code under test, so the
binding between model and code is the run itself: each execution feeds the real
code and compares what it did with what the model says. The number of such
comparisons is reported in the evidence as `validated`.

## Machinery

| part | what it is |
|---|---|
| `mc/` | The explorer. A harness body asks `Choose(n)` / `Bool()` (all values are explored) and `Dev(n)` (value 0 is the normal one, any other costs one deviation; at most *Bound* deviations per execution). The explorer enumerates the tree of choices depth first over 8 workers, replays a failing execution five times before it reports it, shrinks nothing and writes a replay file. Around every execution: panic, hang, step-count and allocation monitors. A hang or a fatal error (stack overflow, out of memory) is confirmed in a fresh process. `Known` findings are matched by key. |
| `vs/` | The controlled scheduler. Goroutines of the code under test stop at every synchronisation operation (or every memory-touching statement); the explorer picks who goes on, a preemption costs a deviation. A state with nobody enabled is a deadlock. `vs.Bubble` runs a body in a `testing/synctest` bubble: a virtual clock that moves only when everybody waits, so that hours pass in microseconds and timing is exact. |
| `tools/instr` | Source rewriting by `go/ast` at build time: inserts scheduling points, replaces `go`, `select`, channel operations and mutexes. Works on whatever the current sources are; nothing in `/repo` is changed (overlays). |
| `netshim/` | `net` with dialling redirected to the harness (overlay on the sources that dial). |
| `memio/` | Connections in memory: failing, fragmenting, cutting, holding, windowed, with deadlines. |
| `rtmpmodel/`, `h264model/`, the `model.go`/`srv.go` files in `checks/*` | Independent writers and readers of the formats, written from the standards, and reactive model peers (RTMP client and server, RTSP server with authentication). |
| `run.sh ID` | Builds the group's checker from `/repo`'s working tree and runs one property; exit 0/1, `VIOLATION property=… replay=…`; `-replay FILE` repeats a failing execution and prints its trace. |

There are no hooks in `/repo`: harnesses get in by overlay, so `MANIFEST.json`
lists none. `setup.sh` only warms the build cache; Go is linked with
`-checklinkname=0` because the bubble is reached through a linkname.

**Levels.** `model_checking`: the bounded space is covered and compared with a
reference model. `exploration`: the bounded space is covered, the oracle is a
monitor (no crash, no hang, bounded memory, race detector) or part of the
nondeterminism is left to the Go scheduler.

**Judging what the code does.** Oracles look at bytes, packets, errors, times,
open files and connections only. The relay checks are the one place with a
harness inside the package; if its internals change shape (a renamed type, a
helper extracted), the build falls back to session-level harnesses that use the
exported surface only, and says so.

## Bounds and cost

The bounds below are those of the quick tier, measured on 8 cores; the thorough
tier runs the same explorations deeper (values in brackets in the claims, and
the `tier` argument in the source).
'''

# id: (oracle, reach, left out / notes)
D = {
'B01': ("A reference bit string (a plain slice of bits) computed next to the writer; the reader is compared field by field and on the first read past the end.",
        "Widths at accumulator boundaries in every order, with every fragmentation of the underlying reader.", ""),
'B02': ("An independent Exp-Golomb bit writer.", "Every bit alignment of every boundary value, with every truncation.", ""),
'B03': ("Integer arithmetic on `big`-endian byte lists and a flat concatenation of the slices.", "The complete product of small slice vectors with every range, including the invalid ones.", ""),
'A01': ("An independent AMF0 encoder compared byte by byte, and the library's own decoder.", "Nesting and boundary lengths form a tree of values no test list covers; the value trees are built by the explorer.", ""),
'A02': ("An independent AMF0/AMF3 encoder that writes each value in each of its encoding forms, followed by a trailing value that must still decode.", "String and trait references depend on the history of the stream.", "Object references, externalizable objects and vectors only have to be refused. AMF3 integers of 2^28 and more are left out of the alphabet."),
'A03': ("Panic, hang, stack and allocation monitors.", "All short strings over a structural alphabet and nesting as deep as a maximal message allows.", ""),
'F01': ("An independent FLV parser for the bytes, equality of packets for the reader.", "Boundary times, offsets and sizes in sequence.", "Configuration packets carry no time of their own. Payload contents are a fixed pattern."),
'F02': ("The prefix of packets whose bytes were complete; any failing call must be reported.", "Every byte offset and every call is a crash point.", ""),
'F03': ("Panic and allocation monitors, and a containment check that the data returned lies inside the tag.", "All short tag bodies over the alphabet.", ""),
'R01': ("An independent chunk-stream decoder on the wire and the real reader on the other end.", "Chunk boundaries x extended timestamps x tag headers is a product space.", "False alarm removed: the first script reused a transaction id, which a conforming client does not do."),
'R02': ("An independent encoder that writes the messages in every legal chunking.", "A peer's header compression and interleaving is a schedule.", "A new message that starts with a type-3 header right after a full header is ambiguous in practice and left out. An omitted extended timestamp is told by the bytes that follow; payload that begins with the timestamp itself is ambiguous and left out. A message must be delivered with its own last byte, also when nothing follows (this led to a repair: the reader waited for four bytes of look-ahead)."),
'R03': ("The messages completed before the cut; the first failing call must surface.", "Every byte is a crash point, in both directions.", ""),
'R04': ("Panic, hang, progress and allocation monitors.", "Structural fragments in every order, every byte altered.", ""),
'R05': ("A state machine of the control protocol, compared after every read.", "Acknowledgements depend on the whole history of window sizes and bytes.", "Counts through 2^32 bytes are explored along a few long histories only. Replies to pings are produced while reading; a connection that only writes does not see pings."),
'R06': ("Rebased timestamps computed from the parts.", "Truncation at every byte of every aggregate.", ""),
'R07': ("An independent implementation of the digest scheme as the peer.", "All 728 digest positions in both schemes and every byte altered.", ""),
'R08': ("A reactive protocol model on either side, and the real endpoints against each other.", "Setup is a two-party protocol with unrelated messages at every place.", "Addresses have at least two path segments and no query inside the application. A status before the final one is not considered. False alarm removed: a publish command without a created stream is not legal input."),
'R09': ("Equality of the packets, with an independent decoder on the wire.", "All packet orders between two live endpoints.", "Goroutine interleaving inside a session is left to the scheduler. False alarm removed: an acknowledgement written after the peer closed a synchronous pipe fails in the harness only."),
'R10': ("The virtual clock: who ended when, which connection was closed, which hooks and events ran.", "A stall at every byte of the setup, in each direction, with exact time.", "Stalls at two places of one setup are not combined. The event for disconnection is never emitted by the library and not asked for."),
'R11': ("Quiescence: everything the peer sent is taken, nobody was told too early, everybody is told at the end.", "What did not happen is decidable only at quiescence after each history.", "What the peer sends to a sender is dropped by design: its pings are not answered."),
'R12': ("The recorded transport, the packets, and the same session without hooks.", "All hook sets and packet orders.", "The hooks for chunk headers and messages take an unexported type and cannot be set by a user. A receiver may or may not report the stage that begins sending. The bytes of the handshake may be reported or not."),
'S01': ("Contiguity, order and group start of what each subscriber received, against the published script; quiescence at the end.", "The lock-free cache is right only if every interleaving of snapshot publication and cursor advance is.", "The group cache of an audio-only stream grows without limit; not claimed."),
'S02': ("Quiescence (nobody enabled, nothing pending) with everything delivered; faults at every operation.", "Lost wake-ups appear in particular schedules only.", "Promptly means: nothing published after the failure is sent."),
'S03': ("Order of the two publishers' packets at the subscriber, end of the first publisher.", "Takeover is a race between three sessions.", "Two mistakes of the first oracle were corrected: the old publisher may still be ahead in the subscriber's queue, and a takeover before the first key frame starts with the new publisher's first packet."),
'S04': ("Linearizability of the registry against a reference-counted map, and session histories over paths.", "The moment of removal against the moment of joining.", ""),
'S05': ("The Go race detector, run under every schedule; the scheduler's own hand-over adds no happens-before edge.", "The detector sees only the schedules that are run: here all within the bound.", "False alarm removed: the harness's own use of fmt shared a pool between sessions."),
'S06': ("A flat model of configuration and metadata in force at each point.", "Order of configuration and media is a history; every join position.", ""),
'H01': ("A reference splitter working on the list of units.", "All payloads over the bytes that matter to start codes.", "Byte strings that are complete in both framings are undecidable and left out."),
'H02': ("An independent record parser and writer.", "Ids, replacement and order of several sets.", "The version byte is not checked."),
'H03': ("An independent SPS bit writer; dimensions computed from the choices.", "Product of syntax elements per group.", "Profile 144 is left out (its syntax is ambiguous between editions)."),
'C01': ("An independent writer and reader of audio configurations.", "Complete product.", ""),
'C02': ("An independent bit layout.", "Complete product of configurations and lengths.", "Buffer fullness is free; explicit rates are not representable and refused."),
'U01': ("A virtual clock and the release times the statement allows.", "Times, source delays and batchings in every order.", ""),
'U02': ("Recording dialers, HTTP transports and directories; every file before and after.", "Product of schemes, extensions, file states.", "The exploration `server` uses real time on the loopback interface (a few hundred executions). Two false alarms removed: playing a stream of no packets, and expecting OPTIONS before DESCRIBE."),
'T01': ("The list of units sent; an oracle that knows which losses sequence numbers reveal.", "Packetisation x interleaving x loss.", "Timestamps do not decrease (no B-frames). A unit whose end was never sent, followed by one whose start was never sent with contiguous numbers, cannot be told from a whole one."),
'T02': ("A reactive model server that checks every request (sequence number, session, address, transport, credentials).", "Combinations of up to three deviations over 17 dimensions.", "OPTIONS is not sent automatically; Content-Base is ignored by the client and not used by the model. False alarm removed: a 401 without a challenge."),
'T03': ("Panic, hang, progress and allocation monitors.", "Every byte position of a session altered.", ""),
'T04': ("The media the description was built from.", "All orders of attributes.", "At most one rtpmap per payload type (two are contradictory; a false alarm removed)."),
'T05': ("The virtual clock: the wait must end exactly when the limit has passed, or not at all.", "A stall at every byte of a session in each direction.", "`RtpTimeout` is a field nobody reads; what it would mean is not documented, so nothing is claimed about it."),
'M01': ("An independent MP4 reader of the produced file (tables, edit lists, descriptors, presentation fields) and the real reader.", "Interleavings, delays, run-length codings; the n-th operation on the output failing.", "32-bit durations and offsets (files over 4 GB) are not covered; sampling rates of 65536 and more do not fit the sample entry."),
'M02': ("A specification-driven box writer.", "All sets and orders of children.", "Unknown boxes inside stbl and dref are passed over. Version-1 movie and media headers and co64 are not modelled by the library."),
'M03': ("A flat list of samples.", "All groupings and run codings, every seek from every position.", "If no key frame is at or before the time, the position is unspecified."),
'M04': ("Panic, hang, progress and allocation monitors.", "Every cut, byte and word altered.", ""),
'V01': ("A flat model of the copy on a virtual clock; files, servers, printed lines.", "End of stream and failures at each place.", "Metadata sent over RTMP may change from ECMA array to object. The command line is V06's. The source is not closed by the command and this is not asked for."),
'V02': ("A reference rewriter.", "What a key frame needs depends on the history.", ""),
'V03': ("Per-target models, run to rest after every action.", "Histories of clients and targets.", "A publisher may name local files; that is the tool's purpose and not judged."),
'V04': ("Release times on the virtual clock.", "Files whose times go back or do not start at zero, with every join.", ""),
'V05': ("Sums of what is printed against the bytes on the connections; every interleaving of the counters within a bound.", "Counters are read and reset concurrently.", "False alarm removed: goroutines of the RTMP code shared a thread with the scheduler in the harness."),
'V06': ("A model of the commands; the recorded bytes of the session.", "Every combination of arguments and options; the exit status is lost only on some paths.", "conv sets its connection hooks after the session is set up, so its stage option prints nothing, and the servers of forwardrtmp and pubsubrtmp replace the event hook and set no connection hook: only the reports that are wired are asked for. Source and destination being the same file is not run. False alarms removed: names such as 127.0.0.1:80 are files to the two FLV commands; a listener of the harness was closed by the garbage collector; the relay may skip to a key frame, and then sends the AAC configuration later than it came."),
}

FALSE = '''## False alarms and what was done

The harness mistakes found on the way are named with the property above (lines
"False alarm removed"); each was corrected in the machinery or the statement,
none is listed as a finding. No check was loosened where the code was wrong.
'''

NOTC = '''## Looked at and not claimed

* `AMFMap.Set` is quadratic in the number of keys of one object (bounded by the message size).
* A connection that only writes does not answer pings, since it does not read.
* The relay's cache of an audio-only stream grows as long as no key frame comes.
* B-frames over RTSP (timestamps that decrease) are refused by the client; Content-Base is ignored.
* MP4: durations and offsets beyond 32 bits, version-1 headers, `co64`; an `esds` without decoder-specific information (MP3) makes the movie unreadable; optional fields of the ES descriptor; rates of 65536 and more in the sample entry.
* `mp4io/gen/pattern.go` is commented out upstream, so repairs in the boxes were made in `atoms.go` itself.
* avtool: `conv` leaves its source open when it ends; `forwardrtmp` lets publishers name local files.
* The event `ConnDisconnected` exists and is never emitted; `RtpTimeout` of the RTSP client is never read.
* An HTTP reply other than 200 is read as if it were the file, and fails when read.
'''
