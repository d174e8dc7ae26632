MC = "model_checking"
EX = "exploration"
CLAIMS = {
"B01": (MC, "exhaustive operation-sequence exploration against a reference bit string", "All field-width sequences up to the depth with boundary widths and values on the real reader and writer; values outside the alphabet are not covered."),
"B02": (MC, "exhaustive field-sequence exploration against an independent Exp-Golomb encoder", "All sequences of up to 3 fields over boundary values, with truncations; the real parser is executed."),
"B03": (MC, "exhaustive enumeration against reference integer and slice models", "All codecs, boundary values, offsets and all small slice vectors with every range."),
"A01": (MC, "exhaustive value-tree enumeration against an independent AMF0 encoder", "All value trees of the stated shapes; the real encoder and decoder are executed on each, bytes are compared exactly."),
"A02": (MC, "exhaustive enumeration of encodings from an independent AMF0/AMF3 encoder", "All encodings of the stated value trees in every supported form with a trailing value; references and externalizable objects only have to be refused."),
"A03": (EX, "exhaustive enumeration of byte strings and alterations with panic, hang, stack and allocation monitors", "All strings over the structural alphabet up to the depth, all truncations and single-byte alterations of the corpus."),
"F01": (MC, "exhaustive packet-sequence and tag-header enumeration against an independent FLV parser", "All packets over boundary times, offsets and sizes, all sequences up to length 4 over 12 packets; payloads are a fixed pattern."),
"F02": (MC, "exhaustive crash-point, split-pattern and I/O-failure enumeration on the real reader and writer", "Every truncation offset, every pair of split positions and every failing call for files of 4-5 tags."),
"F03": (EX, "exhaustive enumeration of malformed files, tags and alterations with panic, allocation and containment monitors", "All tag bodies over the alphabet up to length 5, all structural combinations and single-byte alterations of the stated files."),
"R01": (MC, "exhaustive tag-sequence and size enumeration on the real connection against an independent chunk-stream decoder", "All kinds x lengths x boundary times, all sequences over the alphabet; both chunk sizes through real sessions."),
"R02": (MC, "exhaustive enumeration of legal chunk encodings from an independent encoder", "All header types, csid forms, interleavings, chunk-size changes and extended-timestamp styles within the bounds; type-3 message starts right after a full header are excluded as ambiguous."),
"R03": (MC, "exhaustive crash-point, fragmentation and I/O-failure enumeration on the real connection", "Every cut, every split pair and every failing transport call for the stated streams and sessions."),
"R04": (EX, "exhaustive enumeration of chunk fragments, alterations, commands and replies with panic, hang and allocation monitors", "All sequences of the stated fragments up to the depth and all single-byte alterations of the stated streams."),
"R05": (MC, "exhaustive operation-sequence exploration against a model of the control protocol, checked at every read", "All sequences up to the depth over 15 operations; the count is taken through 2^32 bytes along three long histories."),
"R06": (MC, "exhaustive enumeration of aggregates and truncations against an independent encoder", "All part lists within the bounds; nested aggregates only for robustness."),
"R07": (MC, "exhaustive enumeration of handshake blocks, alterations, fragmentations and cuts against an independent handshake model", "Every digest offset sum at both positions, every byte position of the blocks altered (3 values quick, 11 thorough), every cut; block contents otherwise fixed patterns."),
"R08": (MC, "exhaustive exploration of address spellings, command sequences and reply interleavings between the real endpoints and a reactive protocol model", "All stated addresses, all client command sequences to depth 3 (5), all placements of up to 3 (4) unrelated messages around the replies."),
"R09": (EX, "exhaustive packet-sequence enumeration between real endpoints with an independent decoder on the wire", "All packet sequences to depth 4 (5) over 12 packets and boundary sizes, in both roles; goroutine interleaving inside a session is left to the scheduler."),
"R10": (MC, "exhaustive enumeration of stall positions and kinds between the real endpoints on a virtual clock", "Every 2nd (every) byte of the setup in either direction with five kinds of stall and three limits, dialling of all host spellings; stalls at two places of one setup are not combined."),
"R11": (MC, "exhaustive enumeration of session histories and ends between the real endpoints on a virtual clock, judged at quiescence", "All sequences to depth 3 (4) of 10 events and 6 ends in both roles; one schedule of the goroutines per history."),
"R12": (EX, "exhaustive enumeration of packet sequences and hook sets, compared with the recorded transport and an unobserved run", "All sequences to length 2 (4) over 12 packets, every set of the three hooks whose argument types are exported."),
"S01": (MC, "controlled-scheduler exploration of the real relay code to a preemption bound, plus exhaustive session histories against a model", "All publisher scripts and all interleavings at synchronisation operations within the preemption bound (2 quick, 4 thorough; every memory-touching statement to bound 2/3); whole-relay histories to depth 7 (9)."),
"S02": (MC, "controlled-scheduler exploration with injected closes, failing and blocking writes at every position, plus exhaustive session histories against a model", "All interleavings within the preemption bound at rest and after every fault; 10000 (30000) sessions for leftovers."),
"S03": (MC, "controlled-scheduler exploration of two publishers and a subscriber to a preemption bound, plus exhaustive takeover histories against a model", "All interleavings of the stated scripts within the bound; histories of two publishers and a player to depth 7 (9)."),
"S04": (MC, "controlled-scheduler exploration of the stream registry checked for linearizability, plus exhaustive path pairs and session histories", "Up to three sessions and two rounds on the registry, all pairs of 32 paths, histories over three paths to depth 5 (7)."),
"S05": (EX, "Go race detector run under every schedule of the controlled-scheduler exploration", "The race detector observes the program's own synchronisation only; all schedules within the preemption bound of the stated set-ups."),
"S06": (MC, "exhaustive packet histories with every join position and lag, and controlled-scheduler exploration of configuration changes", "All scripts over 9 packet kinds to length 4 (5) with every join position within the bound; takeovers and whole-relay histories."),
"H01": (MC, "exhaustive enumeration of unit sequences, start codes and paddings against a reference splitter", "All legal units up to the stated length over boundary bytes, sequences of up to three, boundary sizes; byte strings complete in both forms are left out as undecidable."),
"H02": (MC, "exhaustive enumeration of parameter-set combinations against an independent record parser and writer", "All ordered choices of up to 2 (3) SPS and PPS of four ids each, replacements, all 256x32 PPS ids, all truncations and single-byte alterations."),
"H03": (MC, "exhaustive enumeration of SPS syntax combinations against an independent parameter-set writer", "Products of the values of each group of syntax elements (chroma and scaling, dimensions, order counts, identifiers, usability information), the other groups fixed; robustness on all truncations, alterations and short strings."),
"C01": (MC, "exhaustive enumeration of configurations and short byte strings against an independent writer and reader", "The complete product of object types, rate indices with ten explicit rates, and channel configurations; all strings to 2 bytes, boundary strings to 6 (7)."),
"C02": (MC, "exhaustive enumeration of headers and header bytes against an independent bit layout", "The complete product of configurations and frame counts with 22 (8185) payload lengths; header bytes over boundary values."),
"T05": (MC, "exhaustive enumeration of stall positions, kinds and limits against a model server on a virtual clock", "Every byte of a session in either direction with six kinds of stall and three limits; limits changed after each of up to four packets."),
"U01": (MC, "exhaustive enumeration of packet times, source delays and batchings on a virtual clock", "All sequences to length 4 (5) over 7 time steps and 4 delays with every batching, and to length 8 (11) over two of each."),
"U02": (EX, "exhaustive enumeration of addresses, file states and packet sequences with recording endpoints", "The product of 15 schemes, 9 extensions, 3 file states and 4 stream sets; packet sequences to length 3 (5) through files and 2 (3) through RTMP, RTMPS and server addresses."),
"T01": (MC, "exhaustive enumeration of packetisations, losses and interleavings through a running session with a model server", "All packetisations of up to 3 (4) units, all interleavings of two streams with up to two other messages, up to three packets lost; timestamps do not decrease."),
"T02": (MC, "exhaustive enumeration of server and address variants within a deviation bound, cuts and splits against a reactive model server", "All combinations of up to 3 (4) deviations from a plain server over 17 dimensions, every cut, every split into up to three pieces; keep-alives on a virtual clock."),
"T03": (EX, "exhaustive enumeration of payloads, headers, replies, descriptions and alterations with panic, hang, progress and allocation monitors", "All strings over the stated alphabets up to the depth, every byte position of a recorded session altered in 21 ways."),
"T04": (MC, "exhaustive enumeration of descriptions from a line alphabet with the declared media built alongside", "All orders of one section's attributes, all sequences of up to 2 (3) sections with 2 attributes each; all token sequences to length 4 (5) for robustness."),
"M01": (MC, "exhaustive packet-sequence enumeration through the real writer, read back by an independent MP4 reader and by the real reader", "All packet sequences to length 4 (5) over the stream sets, boundary times and offsets, recordings up to 12 hours, streams found later; files beyond 32-bit sizes are not covered."),
"M02": (MC, "exhaustive enumeration of boxes, field values and trees against a specification-driven writer", "Every box kind with up to 2 (3) fields at boundary values, all sets and orders of children; version-1 movie and media headers are not modelled by the library."),
"M03": (MC, "exhaustive enumeration of sample tables and seek histories against a flat reference model", "All tables of up to 4 (5) samples over groupings, run codings, offsets, key-frame sets, sizes and delays, every seek; histories of 3 (4) operations on one to three tracks."),
"M04": (EX, "exhaustive enumeration of truncations, alterations and malformed boxes with panic, hang, progress and allocation monitors", "Every cut, byte and word of two files altered to boundary values, up to 2 (3) table words at once, all short descriptor strings."),
"V01": (MC, "exhaustive enumeration of source files, cuts and destination states through the real command on a virtual clock, against a flat model", "All files of up to 3 (4) packets, cut at every byte, with up to 2 (3) of the other deviations; the command-line parser itself is not run."),
"V02": (MC, "exhaustive packet-sequence and cut enumeration through the real commands against a reference rewriter", "All sequences of the stated packets up to length 3 (4), one longer without cuts."),
"V03": (MC, "exhaustive history exploration of clients and targets through the real server command, each followed to rest", "All histories of 6 (7) actions of one or two clients; interleavings inside an action are left to the scheduler."),
"V04": (MC, "exhaustive history exploration of players, publishers and time through the real server command on a virtual clock", "All histories of 4 (5) actions with all files of up to 2 packets, of 2 (3) with up to 3."),
"V05": (MC, "exhaustive enumeration of conversions with everything printed added up against the bytes on the connections", "All files of up to 2 (3) packets between files and servers, on a virtual clock."),
"V06": (EX, "exhaustive enumeration of command lines run as processes on the real binary, against a model of what each command means", "All sequences of up to 3 (4) arguments over 12 tokens; 16 x 9 x 32 conversions; 240 sessions."),
}
NA = {}
