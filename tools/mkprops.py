#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

R = "format/rtmp/"
p("R01", "RTMP: every tag written on a connection is read back identically",
  "Any sequence of audio, video and data tags written to one RTMP connection is delivered by the reading side as exactly the same sequence: same kinds, payload bytes, codec header fields, 32-bit timestamps and composition times, nothing lost, added or reordered. This holds for every payload within the message limit of 4 MiB (including lengths around each chunk boundary), every timestamp (including those needing the extended form) and every interleaving of tag kinds, with either chunk size in force. The bytes written are a well-formed RTMP chunk stream that an independent decoder reads as the same messages.",
  ["inputs", "histories"], "all tag sequences up to length 3 over an alphabet of kinds x payload lengths around chunk boundaries x timestamps around 0xffffff/2^31/2^32, before and after the chunk-size switch",
  "there is no RTMP test in the repository; the boundary combinations (chunk size x extended timestamp x tag header length) are a product space",
  [R+"msg.go", "format/flv/flvio/flvio.go"],
  [("message writer splits into chunks", R+"msg.go writeMsg2"), ("chunk reader", R+"msg.go readChunk"), ("tag header codec", "format/flv/flvio/flvio.go Tag.FillHeader/Tag.Parse")])
p("R02", "RTMP: any legal chunking of the message stream decodes to the same messages",
  "Whatever legal chunk encoding a peer chooses - full or compressed message headers, one-, two- or three-byte chunk stream ids, messages interleaved over several chunk streams at any chunk boundary, extended timestamps repeated on continuation chunks or omitted there as some encoders do, chunk size changed between messages, unfinished messages aborted - the reader delivers exactly the messages the peer sent, each with its own type, timestamp and payload, in order of completion. Audio and video messages that end inside their media header are passed over without effect on the others.",
  ["inputs", "histories", "programs"], "all encodings of 2-4 messages on up to 3 chunk streams: header type per message, chunk stream id form, interleaving of chunks, timestamps/deltas around the extended form, chunk size changes, against an independent encoder model",
  "no test feeds the chunk reader at all; a peer's choice of header compression and interleaving is a schedule-like space",
  [R+"msg.go"], [("chunk header decoding and per-stream state", R+"msg.go readChunk")],
  [("per chunk stream context", "previous header fields of each chunk stream id", R+"msg.go message / Conn.readcsmap")])
p("R03", "RTMP: delivery is independent of fragmentation and exact under failure",
  "However the transport splits the byte stream into reads, an RTMP connection delivers the same messages. If the stream ends or fails at any byte, exactly the messages completed before that byte are delivered and then an error is returned; likewise a write or flush that fails at any point is reported to the caller by the failing or the following operation and never hidden.",
  ["fault_sequences", "crash_points", "inputs"], "every byte offset as the point of EOF/failure of a session's inbound bytes, all split patterns with up to 2 deviations plus fixed fragment sizes, and every write/flush call as the failing one",
  "no test injects a short read or an I/O error into the RTMP code",
  [R+"wraprw.go", R+"msg.go", R+"handshake.go"], [("full reads with error propagation", R+"wraprw.go Read/Write"), ("errors returned from each chunk step", R+"msg.go readChunk/writeMsg2")])
p("R04", "RTMP: no peer input can crash, hang or exhaust a connection",
  "Whatever bytes a remote peer sends, before, during or after the handshake and command exchange, an RTMP endpoint either makes progress or returns an error: it never panics, never loops without consuming input and never allocates memory out of proportion to what the protocol limits allow (a message is at most 4 MiB and at most 16 chunk streams may be open).",
  ["inputs", "fault_sequences"], "all byte strings over a structural alphabet up to a depth for chunk headers, control payloads, aggregate bodies, command payloads and tags; all single and double field mutations of valid sessions",
  "hostile input is unbounded; the tests contain no malformed RTMP data",
  [R+"msg.go", R+"cmd.go", "format/flv/flvio/amf0.go", "format/flv/flvio/flvio.go"],
  [("size and csid limits", R+"msg.go Start/readChunk"), ("argument count and type checks", R+"cmd.go readConnect, msg.go arrToCommand")])
p("R05", "RTMP: control messages are honoured and acknowledged",
  "A set-chunk-size message takes effect for exactly the bytes that follow it, a window-acknowledgement-size message sets how often received bytes are acknowledged, an acknowledgement carrying the number of bytes received so far is sent whenever more than that many bytes arrived since the previous one, and each ping request read is answered by one ping response with the same timestamp, in order. Control messages are never delivered as media; an application hook sees every message except set-chunk-size, abort, window size, user control and aggregates (whose parts it sees), with its exact payload, and decides whether it is consumed.",
  ["histories", "inputs"], "all sequences up to depth 4-5 over {set chunk size, window size, ping, ack, peer bandwidth, stream begin, unknown type, media of several sizes} against a protocol state-machine model",
  "the protocol state is history dependent; no test drives it",
  [R+"msg.go"], [("event handling", R+"msg.go handleEvent"), ("acknowledgement accounting", R+"msg.go readMsg, wraprw.go Read")],
  [("receive window", "bytes received since last acknowledgement", R+"conn.go ackn/lastackn/readAckSize")])
p("R06", "RTMP: aggregate messages unpack to their parts with rebased timestamps",
  "An aggregate message is delivered as its contained messages, in order, each with its own type and payload and with timestamp equal to the aggregate's timestamp plus the offset of that part from the first part, modulo 2^32. Messages before and after an aggregate are unaffected, and a truncated last part is dropped without affecting the parts before it or the messages after the aggregate.",
  ["inputs", "histories"], "all aggregates of 0-3 parts over kinds x sizes x timestamps (wrap-around included), truncated at every byte, between other messages",
  "no test contains an aggregate message",
  [R+"msg.go"], [("aggregate iteration", R+"msg.go nextAggPart/readMsgHandleEvent")])
p("R07", "RTMP: the handshake interoperates with digest and plain peers",
  "A server answers a client whose opening block carries a valid digest (at either of the two standard positions) with blocks carrying valid digests that the client can verify, and answers any other client with the plain echo handshake; a client completes the handshake with a digest server by a valid response digest and with a plain server by echoing its block. A single altered byte in the digest-covered block makes it a plain peer and nothing else; exactly the handshake bytes are consumed, so the first following message is read intact.",
  ["inputs", "configurations"], "both digest schemes, digest offsets over the whole 0..727 range, every single-byte alteration position, coalesced and fragmented delivery, with an independent implementation of the digest scheme as the peer",
  "no test covers the handshake; digest offsets and alterations form a large space",
  [R+"handshake.go"], [("digest search and creation", R+"handshake.go hsParse1/hsCreate01/hsCreate2"), ("fallback", R+"handshake.go handshakeServer/handshakeClient")])
p("R08", "RTMP: both ends agree on role, address and acceptance of a session",
  "After session setup the server knows exactly what the client asked for: publish or play, the full requested URL (scheme, host, application, stream path and query) and the client's descriptive parameters; every accepted publish or play request is confirmed to the client before media flows. A request the application rejects, or one the remote server rejects with an error status, makes the client's setup fail with an error rather than appear accepted; replies that arrive out of order, are interleaved with unrelated messages or belong to other requests do not confuse either side.",
  ["inputs", "histories", "configurations"], "all URL shapes over an alphabet of hosts/ports/app/stream/query forms x publish/play x accept/reject x reply scripts (orders, extra messages, error replies) up to depth 4, client and server each against an independent model peer and against each other",
  "session setup is a two-party protocol with many legal interleavings; the repository has no test of it",
  [R+"cmd.go", R+"url.go", R+"server.go", R+"client.go"], [("server command state machine", R+"cmd.go readConnect"), ("client command state machine", R+"cmd.go connectPublish/connectPlay"), ("URL mapping", R+"url.go")])
p("R09", "RTMP: packets survive a publish or play session end to end",
  "For a publisher sending to a server and a server sending to a player, every media packet accepted for writing and followed by proper completion of the session's buffered output arrives as an equal packet: type, key-frame flag, timestamps, composition offset, codec configuration and payload, with stream metadata preserved. This holds for every order of configuration, metadata, audio and video packets and for every fragmentation of the transport.",
  ["inputs", "histories", "configurations"], "all packet sequences up to length 3-4 over the packet kinds, both directions, several fragmentations, real client against real server",
  "needs two live endpoints and all packet orders; nothing in the test suite does this",
  [R+"cmd.go", "format/flv/flv.go"], [("packet/tag mapping", "format/flv/flv.go ReadPacket/WritePacket"), ("stage driven preparation", R+"cmd.go Prepare")])

p("R10", "RTMP: setting up a session is bounded in time, its use is not",
  "If a peer stops, trickles or does not take what is sent, at any byte of the setup, a client and a server give up with an error no later than their limit (15 seconds; the server's is configurable), close the connection and report it; a peer that is slow but within the limit is accepted. Once a session is established, no time limit remains: packets pass after any idle time and however long one stops on its way. A server hands over exactly the established sessions, once each, and the hooks for raw connections, new connections and events see every connection once.",
  ["fault_sequences", "histories", "configurations"], "publish and play sessions between the real endpoints, either direction stopping at every (2nd) byte for ever, for less or more than the limit, or going on byte by byte, x three limits; dialling that hangs or fails; all on a virtual clock",
  "deadlines are real-time behaviour at every byte of a two-party protocol; no test has a stalling peer",
  [R+"server.go", R+"client.go"], [("deadlines around the setup", R+"server.go HandleNetConn, client.go FromNetConn"), ("dialling", R+"client.go Dial/doDial")])

p("R11", "RTMP: a sender takes what its peer sends and learns when it leaves",
  "After the setup of a session that sends media (a server to a player, a client that publishes), the sending side takes in everything its peer sends - acknowledgements, pings, fragments, anything, in any amount, also while it is idle or blocked in writing - so that the peer is never blocked and sending is not disturbed. Its notification of the peer's end (CloseNotify) is given when the peer has closed or the connection broke, whatever the sender is doing then, and never before; what was sent before arrives complete, and writing after the peer has left fails.",
  ["histories", "schedules", "fault_sequences"], "all sequences up to depth 3 (4) of peer messages, fragments, garbage, bulk, packets sent, rests and blocked writes, with every kind of end, in both roles, on a virtual clock with quiescence detection",
  "what has not happened (a notification, a byte left untaken) is only decidable at quiescence, after every history",
  [R+"msg.go", R+"conn.go"], [("drain and notification", R+"msg.go startPeekReadLoop"), ("notification channel", R+"conn.go CloseNotify")])
p("R12", "RTMP: observers see exactly what passes and change nothing",
  "Hooks on a connection report the truth: the chunk data hook every byte of the messages written and read, in order and once each; the tag hook every tag sent (at the sender) and received (at the receiver) with its type, time, header and payload; the stage hook every stage of the session once, in order, with the address when it becomes known. Setting any combination of them at either end changes neither the bytes on the wire nor the packets delivered, and neither does asking for the sample access notice for players.",
  ["histories", "configurations"], "all packet sequences up to length 2 (4) over 12 kinds x both roles x all 7 sets of hooks at both ends, against the recorded transport and the same session without hooks",
  "no test sets a hook; what they report depends on every read and write of a session",
  [R+"wraprw.go", R+"msg.go", R+"cmd.go"], [("byte reports", R+"wraprw.go Read/Write"), ("tag reports", R+"msg.go ReadTag/WriteTag"), ("stage reports", R+"cmd.go debugStage")])

PS = "cmd/avtool/pubsub.go"
p("S01", "Relay: subscribers see an in-order, gap-free feed from a key frame",
  "For every interleaving of one publisher and its subscribers, what a subscriber receives is a contiguous run of the published media in publish order without duplicates, except that it may skip ahead, and then only to the most recent group of pictures start. It never receives media from before the group of pictures that was current when it joined (before the first key frame: the start of the publication), and never a partial or invented packet.",
  ["schedules", "histories"], "all interleavings (bounded preemptions, then unbounded for small cases) of 1 publisher with 1-2 subscribers over packet scripts of up to 6 packets with every key-frame placement",
  "the relay has no test; its lock-free cache is correct only if every interleaving of snapshot publication and cursor advance is",
  [PS], [("snapshot publication", PS+" gopCache.put/curSnapshot"), ("cursor arithmetic", PS+" gopCacheReadCursor.advance")],
  [("group-of-pictures cache", "packets since last key frame and running index", PS+" gopCache")])
p("S02", "Relay: no published packet is stranded and every session ends",
  "In every interleaving, once the publisher stops, each still connected subscriber eventually receives everything up to the last published packet; no wake-up is lost. A subscriber whose connection closes or whose write fails stops without being sent anything published after that and is forgotten, without blocking the publisher or other subscribers, and a publisher is never blocked by a slow or absent subscriber.",
  ["schedules", "fault_sequences"], "all interleavings of publisher, 1-2 subscribers, close events and write failures, with deadlock (no enabled thread) and quiescence oracles",
  "lost wake-ups and stuck sessions only appear in particular schedules",
  [PS], [("non-blocking notification with one pending token", PS+" notifySub"), ("wait loop", PS+" addSub")])
p("S03", "Relay: a new publisher takes over the stream and the old one ends",
  "When a second publisher starts on a stream, the first is told to stop and ends at its next packet; subscribers switch to the new publisher's media from its current group of pictures, in order, and once they have received media from the new publisher never receive anything from the old one. A stream whose publisher left keeps serving subscribers when another publisher arrives.",
  ["schedules", "histories"], "all interleavings (bounded preemptions) of two publishers starting/stopping and one subscriber",
  "takeover is a race between three sessions by nature",
  [PS], [("atomic publisher swap and cancel", PS+" setPub"), ("publisher change detection", PS+" addSub")])
p("S04", "Relay: the stream registry shares, keeps and releases streams correctly",
  "Sessions that name the same stream path share one stream as long as any of them is active, sessions naming different paths never share one, and a stream with no sessions left is dropped so that the next session starts fresh. This holds for every interleaving of session start and end.",
  ["schedules", "histories"], "all interleavings of up to 3 sessions adding/removing over 2 paths, against a reference-count model",
  "needs concurrent session start/end at the moment of removal",
  [PS], [("reference counted map under a lock", PS+" streams.add")])
p("S05", "Relay: the shared state is free of data races",
  "Publisher and subscriber sessions of the same stream never access shared memory without synchronisation: in every interleaving of relay sessions there is no data race, so packets handed to a subscriber are never modified while it uses them.",
  ["schedules"], "all interleavings of the relay harnesses within the preemption bound, each executed under the race detector without scheduler-made happens-before edges",
  "the race detector sees only the one schedule a test happens to run",
  [PS], [("atomic pointers, sync.Map, buffered channel", PS+" stream/gopCache")])
p("S06", "Relay: codec configuration and metadata reach every subscriber before media",
  "Before the first video key frame a subscriber receives the decoder configuration in force for that frame, before audio it receives the audio configuration in force, and before media the stream metadata in force; each is sent again exactly when it changes, and is never sent when nothing changed. This holds wherever the subscriber joins and however often configuration or metadata change.",
  ["histories", "schedules", "inputs"], "all publisher scripts up to length 5-7 over {metadata A/B, video config A/B, audio config A/B, key frame, inter frame, audio} with every join position",
  "the order of configuration and media packets is an unbounded history; no test covers it",
  [PS], [("merge of configuration into packets", PS+" mergeSeqhdr.do"), ("split of configuration out of packets", PS+" splitSeqhdr.do")])

F = "format/flv/"
p("F01", "FLV: muxed packets and tags demux to the same packets and tags",
  "Any sequence of audio, video, decoder-configuration and metadata packets written to an FLV file is read back as the same sequence: type, key-frame flag, decode time (of media) and composition offset (to the millisecond, over the whole 32-bit range), payload and metadata values. What does not fit a tag is refused with an error. The file produced is structurally valid: correct signature, stream flags, header size, per-tag sizes and back-pointers as an independent parser sees them; every legal tag header combination round-trips.",
  ["inputs", "histories"], "all packet sequences up to length 3 over kinds x times x payload sizes, every audio/video tag header field combination",
  "the tests only decode a few AMF samples; no FLV file is ever written or read by them",
  [F+"flv.go", F+"flvio/flvio.go"], [("muxer/demuxer", F+"flv.go"), ("tag header codec", F+"flvio/flvio.go")])
p("F02", "FLV: reading is independent of fragmentation and exact under truncation",
  "An FLV stream yields the same packets however its bytes are split into reads. If it is cut or fails at any byte, exactly the packets whose bytes were complete are delivered, followed by an error; a failing write at any point is reported and never hidden.",
  ["fault_sequences", "crash_points"], "every truncation/failure offset of several files, fixed fragment sizes and all split patterns with up to 2 cuts; every write call as the failing one",
  "no test truncates or fragments a file",
  [F+"flv.go", F+"flvio/flvio.go"], [("tag reader", F+"flvio/flvio.go ReadTag"), ("file header reader", F+"flvio/flvio.go ReadFileHeader")])
p("F03", "FLV: malformed files and tags are rejected without crash or memory blow-up",
  "Any byte sequence given to the FLV reader, and any tag body given to the tag parser, results in packets or an error; the reader never panics, hangs or allocates more than the declared tag size, and a malformed tag body never yields media data from outside the tag.",
  ["inputs"], "all byte strings over a boundary alphabet up to a bound for file headers, tag headers and tag bodies; every single-byte alteration of valid files",
  "malformed input space", [F+"flvio/flvio.go", F+"flv.go"], [("bounds checks in tag parsing", F+"flvio/flvio.go ParseTagHeader/Tag.Parse")])

A = "format/flv/flvio/"
p("A01", "AMF0: every encodable value round-trips and its predicted length is exact",
  "Every AMF0-encodable value - numbers of all integer and float kinds, booleans, strings of any length including those over 65535 bytes, null, ordered objects, associative arrays, strict arrays and dates, nested in any way - encodes to a valid AMF0 byte string that an independent decoder and this library's decoder read back as the same value. The length computed without a buffer always equals the number of bytes written, and encoding never writes outside that length.",
  ["inputs", "programs"], "all value trees up to depth 3 and small width over a boundary leaf alphabet",
  "the tests pin a handful of values; nesting is unbounded",
  [A+"amf0.go"], [("length and fill share one routine", A+"amf0.go FillAMF0Val")])
p("A02", "AMF: conforming AMF0 and AMF3 byte streams decode to the values they denote",
  "Every well-formed AMF0 or AMF3 byte stream within the supported types decodes to the value it denotes and consumes exactly its own bytes, so values that follow it are decoded correctly too: all markers, integer and string lengths, dense and associative arrays, sealed and dynamic object members. Forms that are not supported (references to earlier strings, traits or objects, externalizable objects, vectors) are refused with an error.",
  ["inputs", "programs"], "all value trees up to depth 2-3 encoded by an independent encoder in every encoding form, followed by a trailing value",
  "the tests decode a few recorded samples", [A+"amf0.go", A+"amf3.go"], [("decoders", A+"amf0.go ParseAMF0Val, "+A+"amf3.go ParseAMF3Val")])
p("A03", "AMF: decoders accept any bytes without crash, hang or runaway memory",
  "Any byte string given to the AMF0 or AMF3 decoder yields values or an error; decoding never panics, exhausts the stack, loops forever or allocates memory out of proportion to the input length.",
  ["inputs"], "all byte strings over a marker/boundary alphabet up to a length bound, all truncations and single-byte alterations of valid encodings, and nesting chains as deep as a maximal message allows",
  "arbitrary bytes", [A+"amf0.go", A+"amf3.go"], [("bounds-checked primitive reads", A+"amf0.go, utils/bits/pio/reader.go")])

H = "codec/h264/h264.go"
p("H01", "H.264: NAL unit framing converts losslessly (Annex B, length-prefixed)",
  "A sequence of NAL units joined in Annex B form or in length-prefixed form is split back into exactly those units, for three- and four-byte start codes, any unit contents a legal encoder can produce and any count of units; the form is recognised correctly, and the joiners agree with the predicted lengths.",
  ["inputs"], "all sequences of up to 3 NAL units with payloads over {00,01,02,03,FF,...} obeying emulation prevention, both framings, all start-code choices, all short raw inputs",
  "the package has no tests", [H], [("splitters and joiners", H+" SplitNALUs, JoinNALUsAVCC, JoinNALUsAnnexb")])
p("H02", "H.264: decoder configuration records round-trip and keep all parameter sets",
  "For every set of sequence and picture parameter sets with distinct ids, the decoder configuration record produced from them is valid and parses back to the same parameter sets, length size and stream parameters; malformed or truncated records are rejected with an error and never crash.",
  ["inputs", "configurations"], "all combinations of 1-3 SPS and 0-3 PPS over ids and sizes, every truncation and single-byte alteration of the record",
  "the package has no tests", [H], [("record codec", H+" ToConfig/FromDecoderConfig/AVCDecoderConfRecord")])
p("H03", "H.264: picture size and profile are derived correctly from any legal SPS",
  "For every legal sequence parameter set - all profiles, chroma formats, scaling lists, picture order count types, frame or field coding, cropping and timing information - the parsed profile, level, identifier, frame rate and display dimensions equal those the standard defines, with emulation prevention bytes removed; truncated or corrupted parameter sets give an error or a value but never crash or loop.",
  ["inputs", "configurations"], "the product of SPS field choices from an independent SPS bit-writer, every truncation, all short byte strings",
  "no SPS is parsed by any test", [H, "utils/bits/golomb_reader.go"], [("SPS parser", H+" ParseSPS"), ("Exp-Golomb reader", "utils/bits/golomb_reader.go")])
C = "codec/aac/aac.go"
p("C01", "AAC: audio configuration round-trips for every legal combination",
  "For every legal combination of object type, sample-rate index or explicit rate and channel configuration, writing an audio configuration and parsing it back gives the same values, and parsing yields the sample rate and channel count the standard assigns; malformed input is an error, never a crash.",
  ["inputs", "configurations"], "the complete product of object types 0-95, rate indices 0-15 and channel configurations 0-15, plus every short byte string",
  "the package has no tests", [C], [("config codec", C+" ParseMPEG4AudioConfigBytes/WriteMPEG4AudioConfig")])
p("C02", "AAC: ADTS framing round-trips and is bounds safe",
  "An ADTS header written for any supported configuration, payload length and frame count parses back to the same object type, rate and channels, header length, frame length and sample count, and is bit-exact with the standard's layout; any other bytes are rejected or parsed without a crash.",
  ["inputs", "configurations"], "the complete product of legal configurations x payload lengths at field boundaries, every byte string of boundary bytes up to the header length",
  "the package has no tests", [C], [("ADTS codec", C+" FillADTSHeader/ParseADTSHeader")])
B = "utils/bits/"
p("B01", "Bit reader and writer agree on every sequence of field widths",
  "Any sequence of bit fields of widths 0 to 64 written and flushed is read back as the same values by the bit reader, the output being exactly the fields packed most-significant-bit first and zero-padded to a byte; reading past the end is an error and reads are independent of how the underlying reader fragments its data.",
  ["inputs", "histories"], "all width sequences up to length 3-4 over all boundary widths with boundary values, against a reference bit string; fragmented readers",
  "the one test uses a single fixed sequence", [B+"bits.go"], [("bit accumulation", B+"bits.go Reader/Writer")])
p("B02", "Exp-Golomb and fixed-width bit parsing follow the standard",
  "For every sequence of fixed-width, unsigned and signed Exp-Golomb fields, the parser returns the encoded values in order and reports an error exactly when the data runs out.",
  ["inputs", "histories"], "all sequences of up to 3 fields over value/width boundaries, at every bit alignment, truncated at every byte",
  "no test uses it", [B+"golomb_reader.go"], [("Golomb decoding", B+"golomb_reader.go")])
p("B03", "Integer codecs and scatter-gather slicing are exact and bounds-checked",
  "Every fixed-width integer, signed or unsigned, big or little endian, written to a buffer reads back unchanged and occupies exactly its bytes; reading with too little data is an error. A sub-range of a scatter-gather list contains exactly the bytes of that range of the concatenation, for every range, and an invalid range never yields wrong data silently.",
  ["inputs"], "all integer codecs over boundary values and offsets; all vectors of up to 4 slices of sizes 0-4 with every range",
  "the existing vector test samples a few ranges", [B+"pio/reader.go", B+"pio/writer.go", B+"pio/vec.go"], [("integer codecs", B+"pio/reader.go, writer.go"), ("vector slicing", B+"pio/vec.go VecSliceTo")])
M = "format/mp4/"
p("M01", "MP4: muxed streams demux to the same packets",
  "Any interleaving of H.264 and AAC packets written to an MP4 file is read back per stream as the same packets in the same order, with the same payloads, video key-frame flags, decode times since the file's earliest packet and composition offsets at the track's time scale, and with the streams' codec configuration; reading merges the streams in decode-time order until every packet of every stream was delivered, then reports the end. The file is valid as an independent reader sees it, presentation fields included, and a write or seek that fails at any point is reported by the call in progress or a later one, the trailer at the latest.",
  ["inputs", "histories"], "all packet sequences up to length 4-5 over video key/inter (with composition offsets), audio, stream sets {V, A, V+A}",
  "the package has no tests", [M+"muxer.go", M+"demuxer.go", M+"stream.go"], [("sample table construction", M+"stream.go/muxer.go"), ("sample iteration", M+"stream.go readPacket")])
p("M02", "MP4: every box tree serialises to its predicted length and parses back",
  "Every box the library models, with any values of the fields it has and any children, serialises to exactly its predicted length with consistent nested sizes, and parsing those bytes gives back an equal box tree, unknown boxes and trailing siblings included.",
  ["inputs", "programs"], "all modelled box types with table lengths 0-3 and optional children present or absent, boundary field values",
  "the package has no tests", [M+"mp4io/atoms.go", M+"mp4io/mp4io.go"], [("generated marshal/len/unmarshal triples", M+"mp4io/atoms.go")])
p("M03", "MP4: sample lookup, seeking and timing follow the sample tables",
  "For every legal sample table - any grouping of samples into chunks, run-length coded durations and composition offsets, sync sample list present or absent, per-sample or constant sizes - reading yields each sample's exact bytes, times and key flag, and seeking to a time positions the first video track at its last key frame not after it, if there is one, and every other track at its last key frame not after the time reached, from any previous position.",
  ["inputs", "histories", "configurations"], "all sample tables of up to 5 samples over groupings x runs x sync sets, all seek/read sequences up to depth 3 against a flat reference model",
  "the package has no tests", [M+"stream.go", M+"demuxer.go"], [("sample table cursors", M+"stream.go setSampleIndex/incSampleIndex/timeToSampleIndex")])
p("M04", "MP4: malformed files are rejected without crash, hang or memory blow-up",
  "Any byte sequence given to the MP4 reader yields packets or an error; it never panics, loops forever or allocates out of proportion to the input.",
  ["inputs"], "every truncation and every single-byte alteration (to boundary values) of valid files, all short box sequences over a boundary alphabet",
  "malformed input space", [M+"mp4io/mp4io.go", M+"mp4io/atoms.go", M+"demuxer.go"], [("box size checks", M+"mp4io/mp4io.go, atoms.go Unmarshal")])
T = "format/rtsp/client.go"
p("T01", "RTSP: RTP payloads reassemble to the original access units",
  "For every legal packetisation of H.264 access units - single units, aggregation packets, fragments of any sizes - and of AAC frames, received over an interleaved RTSP connection, the client delivers exactly the original coded slices and frames with the right key-frame flag and the right time since the stream's first one, per stream, for every interleaving of streams and control traffic. Parameter sets go to the codec, whose change is signalled without losing packets. Lost or corrupt fragments never produce a media unit mixing parts of two originals that the sequence numbers tell apart.",
  ["inputs", "histories", "fault_sequences"], "all packetisations of small unit sequences, all interleavings with RTCP/other channel traffic and responses, single packet losses, timestamp wrap",
  "no RTSP test connects to anything", [T], [("interleaved block parsing", T+" findRTSP/readBlock"), ("RTP depacketisation", T+" handleH264Payload")])
p("T02", "RTSP: the session reaches playback with any conforming server",
  "With any conforming server the client completes description, setup of each media track and play, quoting the session identifier, increasing the sequence number by one per request, and authenticating with basic or digest credentials when challenged; error statuses and unexpected replies end in an error, and responses split or coalesced arbitrarily are parsed the same.",
  ["histories", "configurations", "fault_sequences"], "all server scripts over auth schemes x status codes x track sets x header variants x fragmentations up to depth",
  "needs a server; none in tests", [T], [("request/response state machine", T+" prepare/handleResp")])
p("T03", "RTSP: no server input can crash or hang the client",
  "Whatever bytes a server sends, in responses, descriptions, interleaved blocks, RTP payloads or RTCP, the client returns an error or keeps reading; it never panics, loops without consuming input or allocates without bound.",
  ["inputs", "fault_sequences"], "all block/RTP/RTCP payloads over a boundary alphabet up to a length, every truncation and single-byte alteration of a valid session, all short description texts",
  "malformed input space", [T, "format/rtsp/sdp/parser.go"], [("length checks", T+" handleBlock/parseBlockHeader")])
p("T04", "SDP: descriptions parse to the media they declare",
  "For every session description the parser returns one entry per audio or video section with its kind, first payload type, time scale, codec, control address and decoded codec parameters as declared, regardless of line endings, attribute order and unknown lines; malformed lines are ignored and never crash.",
  ["inputs"], "all descriptions built from an alphabet of lines up to depth 5, all malformed line variants",
  "one sample description is tested", ["format/rtsp/sdp/parser.go"], [("line parser", "format/rtsp/sdp/parser.go Parse")])
p("T05", "RTSP: waits for the server are bounded exactly by the limit set",
  "With a time limit set on the client, a wait for the server - for a reply, for media or for room to write - that lasts longer than the limit ends in an error when the limit has passed, at whatever byte of the session the server stops; a server that never pauses as long as the limit is never given up on. Without a limit, and once a limit is taken back, the client waits as long as it takes; a new limit applies to the waits that follow. Closing the client ends a wait at once, and the limit given for dialling reaches the dialler.",
  ["fault_sequences", "histories", "configurations"], "a session stopped at every byte in either direction for ever, for less or more than the limit, byte by byte, or until the client is closed, x no limit and two limits; packets at four distances with limits changing on the way; on a virtual clock",
  "real-time behaviour against a stalling server; no test has one",
  ["format/rtsp/conn.go", "format/rtsp/client.go"], [("deadline per read and write", "format/rtsp/conn.go connWithTimeout"), ("choice of the limit", "format/rtsp/client.go WriteRequest/poll")])
p("U01", "Pacing: packets are released no earlier than real time and in order",
  "When pacing to native rate, each packet is passed on unchanged and in order, not before the wall-clock time that corresponds to its timestamp relative to the first packet. A packet is not held longer than the gap between its timestamp and the highest one passed before, counted from the release of that one.",
  ["inputs", "histories"], "all timestamp sequences up to length 4-5 over {equal, forward, backward, jump} with source delays, on a virtual clock",
  "real-time behaviour; no tests", ["av/pktop/pktop.go"], [("rate limiter", "av/pktop/pktop.go NativeRateLimiter")])
p("U02", "Media URL opening dispatches by scheme and extension and round-trips files",
  "Opening or creating a media address picks the container or protocol its scheme or extension names, and rejects unsupported ones with an error without touching existing files; packets written through a created file and closed are read back when the file is opened.",
  ["inputs", "configurations"], "all combinations of scheme/extension/read-write x packet sequences up to length 3",
  "no test opens any address", ["format/format.go"], [("dispatch table", "format/format.go URLOpener")])
V = "cmd/avtool/"
p("V01", "conv: the converted output holds every packet of the source, in order and paced",
  "Converting a source (an FLV file or an RTMP address) copies every packet the source holds, in order and unchanged, to the destination file or server and then closes the destination; each packet's line is printed once, in order, unless printing is switched off. Converting to a server, or with the native-rate switch, does not run ahead of the packets' times; otherwise packets are copied without delay. A source that cannot be opened or breaks off, and a destination that cannot be created or written, end in an error, with the packets read before that already in the destination.",
  ["inputs", "fault_sequences", "configurations"], "all files of up to 3-4 packets of 6-7 kinds, cut at every byte, x destination states x pacing, to and from servers which hang up at every place, on a virtual clock",
  "no test runs the command; end-of-stream and failures at each place form a product space",
  [V+"conv.go", V+"format.go", "format/format.go"], [("copy loop", V+"conv.go doConv")])
p("V02", "Annex B rewriting tools keep every unit and only move parameter sets",
  "The tool which rewrites H.264 packets to the byte-stream form keeps every packet's type, times and flags and every unit of every frame unchanged and in order, with all other packets copied as they are. The tool which moves the sequence headers into key frames drops the H.264 configuration packets and puts the parameter sets of the latest one, sequence sets before picture sets, before the units of each key frame, in the byte-stream form. Both end without an error at the end of the source, report an error if the source breaks off or the destination cannot be written, keep what was read before, and touch no other file.",
  ["inputs", "histories", "fault_sequences"], "all sequences of up to 3-4 packets over key, inter, configuration, audio and metadata packets with several units and parameter sets, cut at every byte, and destination states",
  "no test runs the tools; what a key frame needs depends on the history of configurations",
  [V+"avcc2annexb.go", V+"seqhdr.go", "codec/h264/h264.go"], [("rewriting loops", V+"avcc2annexb.go, seqhdr.go")])
p("V03", "forwardrtmp: each publisher's packets reach its own target at once",
  "Every packet a publisher sends is written to the target its address names - an RTMP server or a file - unchanged, in order and without waiting for later packets, and never to another publisher's target. When the publisher leaves, its target is closed; a client that names no target, only wants to play, names a target that cannot be opened, or whose target fails, is hung up on. Sessions do not affect one another, whatever the order in which they come and go.",
  ["histories", "fault_sequences"], "all histories of up to 6-7 actions of up to two clients over nine kinds of target, each followed to rest",
  "needs several live RTMP peers; no test has any",
  [V+"forwardrtmp.go", "format/format.go", "format/rtmp/server.go"], [("forward loop", V+"forwardrtmp.go doForwardRtmp")])
p("V04", "benchrtmp: every player gets the whole file at its own rate",
  "Each player receives the packets of the file in order and unchanged, each no later than the latest time among it and the packets before it, after the player's start, and not before the time of the packet before it, and is hung up on after the last one; publishers are read from until they leave. Players and publishers do not affect one another, and the numbers of players and publishers printed each second are those present. A file that cannot be opened or read is an error before anything is served.",
  ["histories", "inputs"], "all files of up to 2-3 packets x all histories of 4-5 joins, leaves and waits of two clients, on a virtual clock",
  "real-time server behaviour; no test runs it",
  [V+"benchrtmp.go"], [("player loop", V+"benchrtmp.go doBenchRtmp")])
p("V05", "conv statistics: the numbers printed add up to what was transferred",
  "With statistics switched on, a line with the number of packets read and one line for each connection with its received and sent bytes is printed about every second while a conversion runs; over the whole run the packet numbers add up to exactly the packets read and the byte numbers of each connection to exactly the bytes that passed over it in each direction, nothing counted twice or lost. The conversion itself is not affected.",
  ["inputs", "histories", "configurations"], "all files of up to 2-3 packets converted between files and servers, with delays before the last packet, on a virtual clock",
  "counters are read and reset concurrently with the transfer; no test runs it",
  [V+"statsec.go", V+"conv.go"], [("counters", V+"statsec.go startStatSec")])
p("V06", "avtool command lines: status, files and options mean what they say",
  "Every invocation of the tool either does its work and exits with status 0, or exits with a non-zero status after saying why and, when the command line is not understood (unknown command, option or debug option, too few arguments) or the source or listen address cannot be opened, without altering any file. Arguments and options may come in any order. Options change only what they are for: none changes the packets that reach the destination; quiet suppresses exactly the packet lines, native rate paces, the file header report appears once for each FLV source, the network and stage reports and the byte dump of RTMP sessions appear when asked for and only then, and the dump is exactly what passed.",
  ["inputs", "configurations"], "all sequences of up to 3 (4) arguments over 12 tokens for every command, 16 kinds of sources x 9 of destinations x all 32 option sets, one RTMP session of every command with all sets of debug options, run as processes",
  "no test runs the command line; a lost exit status makes every script around the tool believe it succeeded",
  [V+"main.go", V+"format.go", V+"conv.go"], [("exit status", V+"main.go run"), ("debug options", V+"main.go debugFlags"), ("hooks", V+"format.go newFormatOpener")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
