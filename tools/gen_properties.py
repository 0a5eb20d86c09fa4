#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so the long lines stay reviewable)."""
import json, os
P = "ublox/src/parser.rs"; U = "ublox/src/ubx_packets.rs"; K = "ublox/src/ubx_packets/packets.rs"
V = "ublox/src/ubx_packets/cfg_val.rs"; T = "ublox/src/ubx_packets/types.rs"; E = "ublox/src/error.rs"
DI = "ublox_derive/src/input.rs"; DO = "ublox_derive/src/output.rs"; DT = "ublox_derive/src/types.rs"; DL="ublox_derive/src/lib.rs"
CLI = "examples/ublox-cli/src/main.rs"
L = []
def prop(id, title, st, over, q, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, title
    L.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                   mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(obs), hook_needed=None)))

prop("C01", "Stream parsing equals the UBX left-to-right framing scan",
 "With a growable buffer, for every received byte sequence the outcomes the parser yields (packets and checksum errors, in order) are exactly those of a left-to-right scan for frames B5 62 class id len16(LE) payload ckA ckB: bytes that start no frame and headers announcing more than the largest supported payload (8176 bytes) are skipped silently, a complete frame with a right checksum yields one packet with that class, id and payload and is consumed whole, and a complete frame with a wrong checksum yields one checksum error, after which scanning resumes directly behind its two sync bytes. "
 "When the outcomes are exhausted the parser retains exactly the bytes from the start of the one frame that may still complete, and retains nothing if there is none.",
 ["inputs","histories"], "all byte streams, of any content and length, and all payload lengths 0..65535",
 "The tests feed a handful of ACK-ACK/NAV-SAT streams; the guarantee is over every byte stream (nested sync bytes, truncated, oversize and overlapping frames, every length).",
 [P, U, K], [("sync search, header checks, extraction", P+": ParserIter::next, find_sync, extract_packet"), ("pre-drain to the first sync byte", P+": Parser::consume"), ("largest payload", DO+": generate_code_for_parse")],
 [("buf","bytes received and not yet consumed",P+": Parser"),("off/new_buf_offset","consumed prefix of old and new bytes",P+": DualBuffer")],
 ["Parser::consume / ParserIter::next / Parser::buffer_len"])

prop("C02", "Outcomes do not depend on how the stream is chunked or iteration paused",
 "For every byte stream, every way of splitting it over successive consume calls (including empty pieces, one byte at a time, and bytes already present in the buffer handed to the parser) yields the same sequence of packets and errors with the same contents, and the same retained bytes. "
 "This stays true when an iterator is dropped before it is exhausted: with a growable buffer no byte is lost, duplicated or reordered, and the remaining outcomes appear on later calls.",
 ["inputs","histories","schedules"], "all streams x all partitions into chunks x all numbers of next() calls before an iterator is dropped",
 "Tests split one ACK frame in two ways; the partitions and abandonment points are exponentially many and each takes a different path through the two-buffer view.",
 [P], [("two-buffer view and its Drop", P+": DualBuffer::{take,peek_raw,drain,can_drain_and_take}, Drop")],
 [("buf","old bytes",P+": DualBuffer"),("new_buf","bytes of this call",P+": DualBuffer")], ["Parser::consume / ParserIter::next with drops in between"])

prop("C03", "Only frames with a matching checksum are delivered",
 "A packet is delivered only if its sync bytes, class, id, little-endian length and payload appear contiguously in the received stream followed by the two 8-bit Fletcher checksum bytes computed over class through payload; a frame altered in any way that breaks this is never delivered, and no delivered field ever differs from the received bytes. "
 "For a complete frame whose checksum does not match, an error is reported carrying both the checksum found in the frame and the one computed, each as ckA + 256*ckB.",
 ["inputs","fault_sequences"], "all frames, all corruptions (substitution, bit flips, insertion, deletion, transposition), all 65536 checksum values, at every chunk split",
 "One test corrupts one checksum byte; every position, value and split of the checksum computation over two buffers matters.",
 [P,U,E], [("running checksum over the two-part view", P+": UbxChecksumCalc, extract_packet"), ("error fields", E+": ParserError::InvalidChecksum")], obs=["ParserIter::next"])

prop("C04", "The parser resynchronises after any damage",
 "After any garbage, truncated or corrupted frame, or false header, every later intact frame that is not part of an earlier delivered frame is delivered exactly once and in order, at the latest once a frame's worth (8184 bytes) of further data has arrived. "
 "The same holds for a fixed-capacity buffer for every intact frame that fits its capacity, provided iterators are exhausted.",
 ["inputs","fault_sequences","histories"], "all damage strings x all following frames x all chunkings x buffer capacities",
 "Tests put garbage before one frame; recovery must hold from every reachable intermediate state (half header, false length, nested sync).",
 [P], [("drain(1)/drain(2) after rejected candidates", P+": ParserIter::next, extract_packet")], obs=["ParserIter::next"])

prop("C05", "A fixed-capacity buffer delivers all that fits and reports the rest",
 "With a fixed-capacity buffer and exhausted iterators, every frame whose total size (payload + 8) is at most the capacity (at least 6 bytes) is delivered exactly as with an unbounded buffer, for any chunking, whatever the size of the chunks. "
 "A candidate frame larger than the capacity is either delivered unchanged, when all of it is in the supplied data, or skipped with an out-of-memory error whose required size is its payload length + 2, after which scanning resumes directly behind its sync bytes; nothing else is lost and no other out-of-memory error is raised.",
 ["inputs","histories","configurations"], "all capacities x all streams x all chunkings",
 "Two tests use one capacity each; off-by-one faults appear only at particular combinations of capacity, fill level, frame size and chunk size.",
 [P], [("space checks", P+": DualBuffer::{can_drain_and_take,potential_lost_bytes,take}"), ("storage", P+": FixedLinearBuffer")],
 [("len","stored bytes",P+": FixedLinearBuffer")], ["Parser::new(FixedLinearBuffer) / consume / next"])

prop("C06", "The provided buffers are faithful byte queues and stay inside their memory",
 "For every sequence of append, drain, clear, find and index operations both provided buffers behave as a FIFO byte queue: append stores as many leading bytes as fit and returns the number left out, drain(n) removes exactly the first n bytes, find returns the first position of a stored byte, length, emptiness and capacity are reported correctly, and ranges beyond the stored length are refused. "
 "The fixed-capacity buffer never reads or writes outside the slice it was given.",
 ["histories","configurations"], "all operation sequences x all capacities, including zero",
 "Unit tests run a few fixed sequences on one capacity; the buffer moves memory with an unsafe overlapping copy whose bounds depend on the whole history.",
 [P], [("overlapping copy on drain", P+": FixedLinearBuffer::drain"), ("append/find/index", P+": impl UnderlyingBuffer")],
 [("len","stored bytes",P+": FixedLinearBuffer")], ["the UnderlyingBuffer trait"])

prop("C07", "Parsing always terminates and buffered data stays bounded",
 "Every consume and next call returns; an iterator yields at most one outcome per two received bytes and then keeps returning nothing. "
 "After an exhausted iterator the number of buffered bytes reported is at most 8183 with a growable buffer and at most the capacity with a fixed one, however long and adversarial the history, and the reported emptiness agrees with the reported length.",
 ["inputs","histories"], "all histories of consume/next calls of any length, all streams, all buffers",
 "Tests stop after a few calls; unbounded growth or a stuck loop needs long or adversarial histories.",
 [P], [("progress on every rejected candidate", P+": ParserIter::next"), ("draining on drop", P+": Drop for DualBuffer")], obs=["Parser::buffer_len, is_buffer_empty, ParserIter::next"])

prop("C08", "No received bytes can panic parsing, accessors, Debug or serialisation",
 "For every byte stream, parsing, and for every packet it delivers calling every accessor, nested accessor and iterator and formatting or serialising it, returns without a panic or arithmetic overflow. "
 "Field values a packet's accessors cannot represent cause it to be delivered as an unknown packet, not to fail later.",
 ["inputs"], "all payload contents and lengths of every packet type, all accessors",
 "Tests decode a few well-formed packets; a device or line noise can send any value in any field.",
 [K, DO, P], [("validate before constructing a packet view", DO+": generate_recv_code_for_packet"), ("value conversions", K)], obs=["PacketRef, all accessors, Debug, Serialize"])

prop("C09", "Each frame is dispatched to the right packet type, else to Unknown",
 "A delivered frame becomes the typed packet of its class and id exactly when its payload length and all restricted field values satisfy that packet's definition, otherwise an unknown packet; where several definitions share a class and id the one whose length or port id matches is chosen. "
 "In either case the class, id and the full payload bytes reported are those received.",
 ["inputs"], "all 65536 class/id pairs x all payload lengths x all values of restricted fields",
 "Tests reach about five packet types with valid content.",
 [K, DO, U], [("match_packet and validate", DO+": generate_code_for_parse, generate_recv_code_for_packet")], obs=["PacketRef variant, class_and_msg_id, as_bytes, UbxUnknownPacketRef"])

prop("C10", "Accessors of received packets decode exactly their own payload bytes",
 "Every accessor of every received fixed-layout packet returns the little-endian value of the bytes at the offset, width and signedness the u-blox protocol defines for that field, multiplied by its documented scale; raw accessors return the same value unscaled. "
 "No accessor's result depends on any other byte of the payload or on where the payload sits in a buffer.",
 ["inputs"], "all accessors of all packet types x all payload contents",
 "Tests check a few accessors of three packets on one payload each; a wrong offset, width, sign or scale elsewhere compiles and passes.",
 [K, DO], [("offset bookkeeping and raw getter", DO+": generate_recv_code_for_packet, get_raw_field_code"), ("packet definitions", K)], obs=["all *Ref accessors"])

prop("C11", "Variable-length packets yield every block once, in order, from its own bytes",
 "For packets with repeated or optional parts (satellite lists, raw measurements, version strings, information text, sensor data, subframe words) the iterators yield exactly the blocks present in the payload, in order, each decoded from its own bytes, and optional parts are present exactly when the packet says so. "
 "A payload whose length cannot be divided into whole blocks, or whose strings are not terminated text, is not delivered as that packet; information text that is not UTF-8 reads as absent.",
 ["inputs"], "all payload lengths up to the maximum, all block contents and counts, all header flags",
 "Tests use one NAV-SAT, one MON-VER and one ESF-MEAS payload.",
 [K, DO], [("block iterators", K+": NavSatIter, RxmRawxInfoIter, MonVerExtensionIter, EsfMeasDataIter, EsfRawDataIter, DwrdIter"), ("size functions", DO+": generate_recv_code_for_packet")], obs=["svs(), measurements(), extension(), message(), data(), calib_tag(), dwrd()"])

prop("C12", "Enumerations, flag sets and bit fields decode every raw value as documented",
 "For every raw value, each decoded enumeration, flag set and bit-field view reports the documented meaning of exactly its own bits: defined values map to their variant, undefined ones to a reserved, unknown or absent value (enumerations and flag sets keep the raw bits), or make the packet unknown where the definition restricts the field. "
 "Bits belonging to other sub-fields never influence a decoded sub-field.",
 ["inputs"], "all raw values of every 8- and 16-bit field, all bits and sub-field combinations of 32-bit ones",
 "Tests never look at most flag types; a wrong shift or mask compiles and passes.",
 [K, DO], [("ubx_extend / ubx_extend_bitflags", DO+": generate_code_to_extend_enum, generate_code_to_extend_bitflags"), ("hand-written bit fields", K+": NavSatSvFlags, FixStatusInfo, TimTpFlags, TimTm2Flags, CfgItfmConfig, UartMode")], obs=["enum/bitflag accessors and their methods"])

prop("C13", "Builders emit one well-formed frame with every field in its place",
 "For every builder and every combination of field values, the emitted bytes are B5 62, the packet's class and id, the payload length, each field encoded little-endian at its protocol offset, and the Fletcher checksum over class through payload; no field affects bytes other than its own and the checksum. "
 "A defaulted builder emits the documented default value of every field.",
 ["inputs"], "all builders x all field values",
 "Tests build a handful of packets with fixed values.",
 [K, DO, U], [("generated builder code", DO+": generate_send_code_for_packet"), ("checksum", U+": ubx_checksum")], obs=["into_packet_bytes, into_packet_vec"])

prop("C14", "All ways of emitting a packet produce the same bytes and honour the sink",
 "For every builder value, direct conversion, From, writing through a memory writer, and for variable-length packets building a vector or appending to an existing buffer, produce the same frame; appending leaves what the buffer already held unchanged and puts one complete valid frame after it. "
 "A writer is asked to reserve at least the full frame before the first byte, receives the frame's bytes in order, and its first failure is returned unchanged with nothing written after it.",
 ["inputs","fault_sequences"], "all builders x all values x all prior buffer contents x failure at every reserve/write call",
 "Only into_packet_bytes is tested; failing sinks and non-empty buffers are never exercised.",
 [DO, U], [("create_packet / extend_to", DO+": generate_send_code_for_packet"), ("writer trait", U+": MemWriter")], obs=["into_packet_bytes, From, UbxPacketCreator::create_packet, extend_to, into_packet_vec"])

prop("C15", "What is built and sent is parsed back as the same values",
 "For every packet that can be both built and received, and every field value, parsing the built frame yields that packet type with every accessor returning the value given to the builder (scaled values within half a unit of resolution), and rebuilding from the accessors gives the same bytes. "
 "Packets that can only be built come back as unknown packets with identical class, id and payload.",
 ["inputs"], "all buildable packets x all field values, including those that arrive split at any byte",
 "One test round-trips CFG-NAV5 once.",
 [K, DO, P], [("mirrored encode/decode of each field", DO), ("into_raw / from pairs", K)], obs=["Builder -> Parser -> Ref accessors"])

prop("C16", "Scaled values are rounded to nearest and saturate at the field's limits",
 "When a floating-point value is put into a scaled integer field, the stored raw value is the nearest representable multiple of the scale (ties away from zero), clamped to the field's minimum or maximum when outside its range, including infinities; decoding any raw value and encoding it again gives the same raw value. "
 "No floating-point value, including NaN, makes building a packet panic.",
 ["inputs"], "all scaled builder fields x all raw values and all floating-point values",
 "Tests encode two ordinary values; rounding, saturation and sign faults need boundary values.",
 [K, DT], [("ScaleBack", K+": ScaleBack::as_*"), ("choice of the back-conversion", DT+": PackFieldMapDesc::new")], obs=["builders with f32/f64 fields"])

prop("C17", "Configuration key/value items encode and decode without loss",
 "Every configuration item is encoded as its documented 32-bit key, little-endian, followed by its value in the documented width and code, with the reported length equal to the bytes produced; writing to a slice, extending a collection and building a CFG-VALSET packet produce identical bytes for any list of items in order and touch nothing else. "
 "Decoding an encoded item, or iterating over any concatenation of encoded items, returns the same items with the same values in order.",
 ["inputs","histories"], "all items x all values x all lists of items",
 "No test touches configuration items; about 400 keys and 12 value types.",
 [V, K, DO], [("cfg_val! macro", V), ("CfgValIter, CfgValSet", K)], obs=["CfgVal::{len,parse,extend_to,write_to}, CfgValIter, CfgValSetBuilder"])

prop("C18", "Poll, acknowledge and rate helpers address exactly the packet named",
 "A poll request for a packet type, or for any class and id, is the 8-byte empty frame with that class, id and a right checksum; the message-rate helpers address the named type's class and id with the rates given, per port in order. "
 "An acknowledgement (or rejection) is recognised as belonging to a packet type exactly when it carries that type's class and id.",
 ["inputs"], "all 65536 class/id pairs x all packet types x all rates",
 "Tests check two rate commands; ack matching is untested.",
 [U, K], [("UbxPacketRequest", U), ("is_ack_for, is_nak_for, set_rate_for", K)], obs=["UbxPacketRequest::*, AckAckRef::is_ack_for, AckNakRef::is_nak_for, set_rate_for"])

prop("C19", "Serialised packets carry every field once, under its own name and value",
 "Serialising any received packet gives one map that starts with the packet's class and message id and then holds every field of the packet, in order, under its protocol name, each exactly once and with the value its accessor reports, repeated parts as sequences and absent parts as null; serialising the packet alone gives the same fields without the header. "
 "Unknown packets serialise to their payload bytes, class and message id.",
 ["inputs"], "all packet types x all payload contents",
 "One test serialises one ESF-MEAS packet; other packets' maps are unchecked.",
 [DO, K, T], [("generated Serialize", DO+": generate_serialize_impl, generate_code_for_parse"), ("sequence wrapper", T+": FieldIter")], obs=["serde::Serialize of PacketRef and *Ref"])

prop("C20", "Derived positions, velocities, times and aiding data have the documented units",
 "Converting a received solution to a position, ECEF position or velocity gives degrees and metres (per second) equal to the sum of the packet's standard and high-precision components, each in its own unit; converting a navigation solution to a UTC time gives exactly that calendar time including its signed nanoseconds, or the matching error for an impossible date, time or nanoseconds. "
 "Aiding-data builders store a given position as 1e-7 degrees and centimetres and a given UTC time in the year-month and day-hour-minute-second form the protocol defines, and set the corresponding validity flags.",
 ["inputs"], "all field values of the source packets, all calendar times from 2000 to 2099",
 "No test converts anything.",
 [T, K], [("From/TryFrom conversions", T), ("set_position, set_time", K+": AidIniBuilder")], obs=["Position, PositionECEF, Velocity, DateTime<Utc>, AidIniBuilder"])

prop("C21", "The packet macros compile definitions faithfully and reject inconsistent ones",
 "For every valid packet, enumeration or flag definition given to the derive macros, the generated types decode and encode each field at the running offset with its declared type, scale, alias and conversion, enforce length and restricted values, dispatch by class and id in listed order, and compute the largest payload. "
 "A definition that is inconsistent (wrong total length, missing or duplicate header attributes, unsized field not last, unsupported field type, flag not a power of two) is rejected at compile time.",
 ["programs"], "all packet definitions built from the supported field types and attributes, up to a bounded number of fields",
 "The macro tests compare the token stream of six fixed definitions.",
 [DL, DI, DO, DT], [("parsing of definitions", DI), ("code generation", DO), ("sizes", DT+": PackDesc")], obs=["generated code, compiled and run; compiler diagnostics"])

prop("C22", "The example CLI configures and polls the device as its options say",
 "For every combination of options, the command-line tool opens the port with the given settings and, for its configure command, sends exactly one port-configuration frame carrying the selected port, baud rate, data bits, parity, stop bits and protocol masks, waits for the matching acknowledgement before continuing, then enables NAV-PVT on UART1, UART2 and USB and polls MON-VER. "
 "Acknowledgements of other messages, rejections and interleaved or split traffic do not make it continue early or fail.",
 ["configurations","schedules"], "all option combinations x orders and splits of the device's replies",
 "The example has no tests at all.",
 [CLI], [("argument handling and startup sequence", CLI+": main, Device::wait_for_ack, Device::update")], obs=["bytes written to the serial port (a pseudo-terminal)"])

prop("C23", "Every supported feature set behaves the same",
 "Parsing with fixed or user-supplied buffers, decoding, building and error reporting give identical results under every supported combination of the std, alloc and serde features, including none; features only add or remove interfaces. "
 "The crate builds without the standard library under the no-std feature sets.",
 ["configurations","inputs"], "all feature sets x all inputs of the other properties",
 "CI builds the combinations, but runs almost no test without alloc.",
 ["ublox/Cargo.toml", P, U, K, "ublox/src/lib.rs"], [("cfg(feature) attributes", P+", "+K+", "+U)], obs=["the public API under each feature set"])

prop("C24", "Serialisable value types come back as the same value",
 "Every value type of the crate that can be both serialised and deserialised (positions, ECEF positions and velocities; UART modes, data bits, parity and stop bits; reset modes; satellite quality, health and orbit source; interference-monitor configurations and their thresholds) is written with its parts under their own names and is read back as the same value, from a self-describing format with its fields in any order and from a format that only knows positions. "
 "A configuration that was written and read back makes a builder send the same bytes.",
 ["inputs"], "all values of the types that are both Serialize and Deserialize, in both kinds of format",
 "No test deserialises anything.",
 [T, K, DO], [("serde attributes", T+", "+K), ("generated Serialize of extended types", DO+": generate_code_to_extend_enum")], obs=["serde::Serialize and serde::Deserialize of the value types"])

prop("C25", "Printed packets and errors say what was received",
 "Printing any received packet with Debug, on one line or many, names its type and then every field once, in order, under its name and with the value its accessor reports; numbers, named values, texts and the bit-field views (fix status, satellite flags) show what the received bytes mean, and an unknown packet shows its payload, class and id. "
 "Error messages name the packet and field concerned and tell the expected and received values as those; an output that fails part-way gets the beginning of the text and its failure is passed on.",
 ["inputs","fault_sequences"], "all packet types x all payload contents, all errors, all points where the output can fail",
 "No test prints a packet or an error.",
 [DO, K, U, E], [("generated Debug", DO+": generate_debug_impl"), ("Debug of the views", K+": NavSatSvFlags, FixStatusInfo"), ("Display of errors", E)], obs=["Debug of PacketRef and *Ref, Display of the error types"])

prop("C27", "Packets can be read in any order, repeatedly, and their iterators copied",
 "Reading a packet changes nothing: its accessors give the same values in any order and any number of times. "
 "Every iterator over a repeated part, and over configuration items, behaves under any mixture of next, nth, partial adaptors, copies and the other iterator operations like an iterator over the list of its blocks: copies advance independently, a finished iterator stays finished, counts are exact, and its size hint always admits the number of blocks left.",
 ["inputs","histories"], "all sequences of iterator operations and accessor calls, all numbers of blocks",
 "Tests run each iterator once from start to end.",
 [K], [("block iterators", K+": NavSatIter, RxmRawxInfoIter, MonVerExtensionIter, EsfMeasDataIter, EsfRawDataIter, DwrdIter, CfgValIter")],
 [("offset","next block to read",K+": NavSatIter, MonVerExtensionIter, CfgValIter")], ["svs(), measurements(), extension(), data(), dwrd(), CfgValIter; all accessors"])

prop("C26", "The example CLI reports what the receiver sent",
 "After start-up, the command-line tool reports every received intact packet exactly once and in order, and nothing for broken frames, however the data arrives in pieces; no received data stops it. "
 "MON-VER shows the software version, hardware version and extensions. NAV-PVT shows latitude, longitude, altitude, speed and heading, rounded to the digits shown, for 3D and GPS-with-dead-reckoning fixes, and the UTC time (to the nanosecond) for these and time-only fixes when it is a calendar time; it shows none of these otherwise. Every other packet shows its fields with their decoded values, and unknown packets their payload, class and id.",
 ["inputs","schedules"], "all packets, sequences of packets and splits of them into reads",
 "The example has no tests; nothing tests the library through a whole application.",
 [CLI, T, K], [("main loop and reports", CLI+": main, Device::update"), ("derived values", T+": Position, Velocity, DateTime conversions")], obs=["standard output and exit of ublox-cli"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in L: f.write(json.dumps(p) + "\n")
print(len(L), "properties")
