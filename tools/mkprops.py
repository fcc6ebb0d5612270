#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Frame accessors return the fields MAVLink places in the frame",
  "For every complete MAVLink 1 or MAVLink 2 frame, each accessor returns exactly the value the wire format puts at that place: version, payload length, sequence, system id, component id, 8-bit (V1) or 24-bit little-endian (V2) message id, V2 flag bytes, the payload bytes, the little-endian checksum after the payload, and as checksum input everything between the start byte and the checksum. Reading a field never changes the frame and never fails on a complete frame, signed or not.",
  ["inputs"], "every byte sequence that holds a complete V1 or V2 frame, for all payload lengths 0..255 and all header values",
  "the tests look at one heartbeat frame; a wrong offset, width or byte order on a header value they do not use passes",
  ["frame.go"], [("V1 and V2 accessors", "frame.go: methods of FrameV1 and FrameV2")], ["Frame interface methods"])
p("C02", "Turning bytes into a frame picks the version and copies exactly",
  "Building a frame from raw bytes yields a V1 frame when the first byte is 0xFE, a V2 frame when it is 0xFD, and an unknown-start-byte error otherwise; empty input, or a copy request for more bytes than the input holds, yields a too-short error instead of a crash or bytes from beyond the input. When a copy is requested the frame holds exactly the first requested-length bytes in storage of its own, so later changes to the input cannot reach it; otherwise the frame is the input itself.",
  ["inputs"], "every input byte slice (including sub-slices with spare capacity), every requested length, both copy modes",
  "no test calls it directly; only two well-formed inputs reach it through the stream",
  ["frame.go"], [("frame construction", "frame.go: FrameFromBytes")])
p("C03", "The checksum is CRC-16/MCRF4XX for every input and chunking",
  "After a reset, feeding bytes in any number of pieces yields the CRC-16/MCRF4XX (X.25) value of the concatenation, every write reports all its bytes as consumed with no error, and the value is emitted low byte first. Reading the sum appends exactly two bytes to the caller's prefix, without changing the running state or the prefix.",
  ["inputs", "histories"], "every byte sequence, every split into writes, every prior state, every prefix slice",
  "tests exercise it through three fixed frames only",
  ["x25.go"], [("CRC accumulate", "x25.go: X25CRC.Write"), ("CRC output", "x25.go: X25CRC.Sum, Reset, Size, BlockSize")],
  state=[("crc value", "running CRC, reset to 0xFFFF", "x25.go: X25CRC.value")])
p("C04", "Validation accepts exactly the well-formed known frames",
  "A complete frame is accepted if and only if some loaded dialect knows its message id, its payload is no longer than that message's maximum (and, for V1, no shorter than its minimum), and its checksum equals the CRC of the checksum input followed by that message's extra byte. Otherwise the error names the first rule broken, in this order: unknown message (also when no dialect is loaded), too short, too long, invalid checksum; an unexpected dialect error is passed through. Validation changes neither the frame nor any bytes behind it.",
  ["inputs", "configurations"], "every complete V1/V2 frame, every list of dialects with arbitrary metadata tables",
  "tests see one corrupted byte in two frames and two fixed dialects; acceptance must be exact over all bytes and tables",
  ["dialect.go", "x25.go", "frame.go"], [("validation", "dialect.go: Dialects.Validate")])
p("C05", "A strict stream delivers exactly the valid frames, in order",
  "When invalid frames are not requested, the frames a stream delivers are exactly those found by scanning the received bytes from left to right: at a start byte, scanning waits for the whole announced frame; if it validates it is delivered byte for byte and scanning resumes right after it (after its signature, if signed), and in every other case scanning moves on by one byte. The result depends only on the received bytes, never on how reads are chunked, and nothing is delivered twice, altered, skipped or merged.",
  ["inputs", "schedules", "histories"], "every byte stream, every chunking by the transport, every dialect set, any number of frames and junk in between",
  "the tests feed a few short streams in one chunk; resynchronisation errors need particular junk, lengths and buffer fill levels",
  ["stream.go", "frame.go", "dialect.go"], [("scanner", "stream.go: FrameStream.readFrame, peekHeader")],
  state=[("read window", "bytes received but not yet consumed", "stream.go: FrameStream.buffer, bufferIndex")])
p("C06", "A permissive stream also delivers each invalid candidate once",
  "When invalid frames are requested, every scanning position that holds a start byte delivers a frame: the exact bytes announced by its header; scanning resumes after the frame if it was valid and at the next byte if it was not. An invalid frame never closes the stream and never hides a valid frame that follows or overlaps it.",
  ["inputs", "schedules", "histories"], "every byte stream, every chunking, every dialect set",
  "one fixed six-frame stream is tested, checking only the payload lengths",
  ["stream.go", "frame.go", "dialect.go"], [("scanner", "stream.go: FrameStream.readFrame")])
p("C07", "No received byte sequence can crash or overrun the decoder",
  "Whatever bytes arrive, in whatever chunks, and whatever the dialects contain, scanning, validating, inspecting and decoding never panics, never indexes outside its buffers and never grows memory with the input. Every frame a stream delivers is complete, so all its accessors work; looking up and decoding the message of any complete frame returns a message or an error, and so does every dialect message type's own decoder for any frame at all, even a truncated one.",
  ["inputs", "schedules"], "every byte sequence and chunking; every frame value including truncated ones for message decoding; every message type",
  "crash inputs are rare (one over-long frame was found in the field); tests hold a handful of frames",
  ["stream.go", "dialect.go", "message.go", "common/*.go", "ardupilotmega/*.go"],
  [("scanner", "stream.go: FrameStream.readFrame"), ("decoders", "*/<message>.go: Read"), ("validation", "dialect.go: Dialects.Validate")])
p("C08", "A built frame carries the requested header and passes validation",
  "Whenever building a V1 or V2 frame for a message succeeds, the frame reports the requested version, system id, component id and sequence number, the message's (24-bit) id, and as payload exactly the message's encoding, with a correct checksum and no signature flag. The frame is accepted by the same dialects whenever the encoding's length is within the message's limits, as it is for every message type the dialects provide.",
  ["inputs", "configurations"], "every message value of every type, all header values, both versions, every dialect list",
  "no test builds a frame at all",
  ["stream.go", "dialect.go", "x25.go"], [("frame building", "dialect.go: Dialects.GetFrame; stream.go: packFrame")])
p("C09", "Frame building fails cleanly and never emits a malformed frame",
  "Building a frame reports an error and no frame when the version is neither 1 nor 2, when no loaded dialect (or no dialect at all) knows the message, when the message's own encoding fails, when the encoding does not fit the one-byte length field, or when a V1 frame cannot hold the message id (message ids are 24-bit values). The error is the cause: unsupported version, unknown message, the encoder's error, too long, or V2 message in a V1 frame.",
  ["inputs", "configurations"], "every version value, every message implementation (including ones whose encoding fails or is too long), every dialect list",
  "no test builds a frame; error paths need hand-made messages and dialects",
  ["stream.go", "dialect.go"], [("frame building", "dialect.go: Dialects.GetFrame; stream.go: packFrame")])
p("C10", "Every message survives a MAVLink 2 encode/decode round trip",
  "For every message type of every dialect and every value of its fields (extension fields included, floats compared by bits), encoding for version 2 and decoding the result from a V2 frame gives back the same field values (a signalling NaN may come back as the quiet NaN with the same payload bits). Encoding never changes the message. The opaque variable-length extension message, whose payload length is not on the wire, is covered by the property about that message instead.",
  ["inputs"], "every message type, all field values, including all-zero messages and trailing zero fields",
  "no test encodes a message; a swapped or mistyped field among ~330 types needs that type to be tried",
  ["common/*.go", "ardupilotmega/*.go", "util/util.go"], [("codec", "*/<message>.go: Write, Read"), ("truncation", "util/util.go: TruncateV2")])
p("C11", "MAVLink 1 encoding has the fixed length and drops extensions",
  "For every message type with an id that fits V1, encoding for version 1 yields exactly the message's base-field length, without extension fields and without zero truncation; decoding it from a V1 frame gives back all base fields, zero extension fields, and a message that reports version 1. The opaque variable-length extension message is the one exception: its V1 encoding ends with its payload.",
  ["inputs"], "every message type with id <= 255, all field values",
  "no test encodes a V1 message",
  ["common/*.go", "ardupilotmega/*.go"], [("codec", "*/<message>.go: Write, Read, getV1Length")])
p("C12", "MAVLink 2 payloads are cut exactly at their trailing zeros",
  "A V2 encoding is the full encoding (base and extension fields, nothing else) with all trailing zero bytes removed, except that one byte always remains; it is never longer than the message's maximum length. Trimming and C-string measuring only ever shorten: the bytes kept are the unchanged prefix of the input, and the string length is the index of the first zero byte, or the input length if there is none.",
  ["inputs"], "every byte slice; every message type and field values, in particular all-zero messages",
  "no test covers trimming; the all-zero corner was wrong in the original code",
  ["util/util.go", "common/*.go"], [("trimming", "util/util.go: TruncateV2, CStrLen"), ("encoders", "*/<message>.go: Write")])
p("C13", "Each field is encoded at its MAVLink wire position",
  "For every message type, the encoding places each field at the byte offset, width, array length and little-endian byte order that the MAVLink definition of that message prescribes: base fields largest-first in definition order, followed by extension fields in definition order. No field is lost, duplicated or exchanged with another, so peers using other MAVLink implementations read the same values.",
  ["inputs", "programs"], "every message type, every field value, both versions",
  "a round trip cannot see two exchanged fields; no test compares any message with its wire layout",
  ["common/*.go", "ardupilotmega/*.go", "asluav/*.go", "matrixpilot/*.go", "slugs/*.go"], [("struct order and types", "*/<message>.go: struct declarations, Write")])
p("C14", "Decoding fills every field from the payload and zero-fills the rest",
  "Decoding a frame of a message type sets every field to the value its wire position holds in the payload, treating bytes beyond a shortened payload as zero, and reads nothing beyond the payload; what the message held before has no influence. The message reports MAVLink version 2 afterwards exactly when it came in a V2 frame and its type has extension fields. Decoding never changes the frame.",
  ["inputs", "histories"], "every message type, every frame payload of length 0..maximum, both versions, every previous content of the message",
  "tests decode no message",
  ["common/*.go", "ardupilotmega/*.go"], [("decoders", "*/<message>.go: Read, getIOSlice, HasExtensionFields, GetVersion")])
p("C15", "Each dialect's tables agree with its message definitions",
  "In every dialect, an id has metadata if and only if it has a decoder, the decoder yields the message type defined for that id (its own id, name and dialect name agree), and minimum and maximum length and checksum extra byte are the ones following from that message's wire definition (length of base fields; of base plus extension fields; the MAVLink CRC of name, field types, field names and array lengths); for the opaque variable-length extension message the minimum is its five header bytes. Ids not in the dialect give the unknown-message error from both lookups.",
  ["inputs", "configurations"], "every 32-bit message id in every dialect",
  "tests touch two of more than 300 table rows; one wrong row silently rejects or misdecodes one message type",
  ["common/dialect.go", "ardupilotmega/dialect.go", "asluav/dialect.go", "autoquad/dialect.go", "icarous/dialect.go", "matrixpilot/dialect.go", "paparazzi/dialect.go", "slugs/dialect.go", "uAvionix/dialect.go", "ualberta/dialect.go"],
  [("metadata and parser tables", "*/dialect.go: GetMeta, GetMessage and their tables")])
p("C16", "Unknown messages are reported and preserved byte for byte",
  "Decoding a frame whose message id no loaded dialect knows (also with no dialect loaded) returns the unknown-message error together with a placeholder message that holds the frame's message id, version and an independent copy of its payload; encoding the placeholder for version 1 or 2 returns that payload unchanged. A failure to decode a known message is returned as that failure, never disguised as an unknown message.",
  ["inputs", "configurations"], "every complete frame, every dialect list",
  "no test decodes messages through dialects",
  ["dialect.go", "message.go"], [("fallback", "dialect.go: Dialects.GetMessage; message.go: UnknownMessage")])
p("C17", "The first dialect that knows a message id decides, everywhere",
  "With several dialects loaded, decoding, validation and frame building all use the first dialect in list order that knows the message id; dialects that do not know it have no influence, wherever they stand in the list, and no later dialect is consulted for the result. Any other dialect error ends the search and is returned.",
  ["configurations", "inputs"], "every list of dialects of any length with overlapping tables, every message id",
  "tests load one fixed pair whose ids in use do not overlap",
  ["dialect.go"], [("search loops", "dialect.go: Dialects.GetMessage, GetFrame, Validate")])
p("C18", "Text fields return the text last stored",
  "For every text field, storing a string and reading it back returns the string up to its first NUL, cut to the field's size, whatever the field held before; a string that does not fit is cut and reported as too long, any other is stored without error. Unused bytes of the field are zero and no other field of the message changes.",
  ["inputs", "histories"], "every string (any length, any bytes), every text field of every message type, every previous content",
  "no test uses the text accessors; stale tails need a second, shorter store",
  ["common/*.go", "ardupilotmega/*.go", "util/util.go"], [("text accessors", "*/<message>.go: Set<Field>, Get<Field>"), ("C string length", "util/util.go: CStrLen")])
p("C19", "The variable-length extension message keeps its payload length",
  "The opaque extension message encodes to its five header bytes followed by exactly its payload (for V2 then cut at trailing zeros), and decoding sets the payload and its length from the received payload size, never below zero nor above the field's capacity, so reading the payload never fails. Storing a payload keeps it, cut to capacity with a too-long error if it does not fit. All of this for payload lengths up to the field's capacity of 249 bytes.",
  ["inputs", "histories"], "every payload length 0..255 on the wire, both versions, all contents, all stored slices",
  "no test uses this message type, which has its own codec",
  ["common/v2_extension.go", "common/dialect.go"], [("special codec", "common/v2_extension.go: Read, Write, GetPayload, SetPayloadSlice")])
p("C20", "The write loop sends each queued frame once, whole and in order",
  "Every frame taken from the write queue is passed to the transport exactly once, as exactly its bytes and in queue order, before the next one is taken, and is logged (when a logger is present) with the same bytes after the transport accepted it and not otherwise. A transport error, a closed queue or a cancelled context ends the loop and closes the stream with that cause.",
  ["histories", "fault_sequences", "schedules"], "every sequence of frames, every position of a transport failure, queue close or cancellation",
  "one frame and no failure is tested",
  ["stream.go"], [("write loop", "stream.go: FrameStream.WriteContext")])
p("C21", "The read loop logs and hands over each received frame once, in order",
  "Every frame found in the stream is logged exactly once with its exact bytes (when a logger is present) and then handed over exactly once, in order, unless the stream is closed meanwhile; what the consumer gets is the frame that was logged, and a failing logger changes nothing. A frame handed over is the consumer's own: no later reading changes it. A transport error or a cancelled context ends the loop and closes the stream with that cause.",
  ["histories", "fault_sequences", "schedules"], "every byte stream, every number of frames, every position of a transport failure, cancellation or close",
  "one frame is tested; aliasing shows only when more data arrives while an earlier frame is still held",
  ["stream.go"], [("read loop", "stream.go: FrameStream.ReadContext, readFrame")])
p("C22", "Closing is idempotent, safe at any time, and keeps the first cause",
  "A stream can be closed any number of times, from any goroutine and at any moment of reading or writing, without a panic: the transport is closed exactly once, the frame channel and the closed signal end exactly once, and nothing is handed over after the frame channel has ended. By the time the closed signal fires, the close cause is set to the first cause and never changes again.",
  ["schedules", "histories"], "every interleaving of Close calls, the read loop, the write loop and a consumer",
  "no test closes a stream; the crash needs a close while a frame is waiting to be taken",
  ["stream.go"], [("close", "stream.go: FrameStream.close, Close, Closed, GetCloseErr, ReadContext")],
  state=[("close cause", "first close reason", "stream.go: FrameStream.closeErr")])
p("C23", "The UDP adapter talks only to the first peer that sent data",
  "Before any datagram has been received, writing fails with the no-address error and sends nothing; from the first successfully received datagram on, every write is sent whole and once to the sender of that first datagram, whoever else sends later. Failed reads never select a peer, and results of the socket operations are passed through unchanged.",
  ["histories", "fault_sequences", "schedules"], "every sequence of reads, failures, senders and writes",
  "tests only open the socket",
  ["util/udpreadwritecloser.go"], [("peer pinning", "util/udpreadwritecloser.go: Read, Write, Close")],
  state=[("peer", "first sender", "util/udpreadwritecloser.go: lastAddr")])
p("C24", "Signatures are recognised by the signed flag of the frame header",
  "A V2 frame is treated as signed exactly when bit 0 of its incompatibility flags is set: then its total length includes 13 signature bytes after the checksum and the signature accessor returns exactly those, otherwise it returns none. The compatibility flags have no influence, and the textual form of any complete frame can be produced without failure.",
  ["inputs"], "every complete V1/V2 frame, all 65536 flag combinations",
  "no test has a signed frame",
  ["frame.go", "stream.go"], [("signature accessor", "frame.go: FrameV2.GetSignature, String"), ("frame length", "stream.go: peekHeader")])
p("C25", "Codec version rules hold for every message type",
  "Encoding or decoding any message with a version other than 1 or 2 fails with the unsupported-version error, and a message whose id exceeds 255 can be neither encoded for V1 nor decoded from a V1 frame, each with its own error; in these cases no output is produced and the message stays as it was. In all other cases encoding succeeds.",
  ["inputs"], "every version value, every message type and content, frames of any version",
  "no test reaches these paths",
  ["common/*.go", "ardupilotmega/*.go"], [("version checks", "*/<message>.go: Read, Write")])
p("C26", "A new stream is empty, open and wired to the given endpoints",
  "A newly made stream, with or without logger, has consumed no input, reports no close cause, hands out the queue it was given for writing and an open frame channel of its own for reading, and reads from and writes to the given transport under the given dialects, invalid-frame mode and logger. Two streams never share buffers or channels of their own.",
  ["configurations", "inputs"], "every combination of transport, queue, dialects, mode and logger",
  "tests construct streams but never check this state; a wrong initial state shows only with later input",
  ["stream.go"], [("constructors", "stream.go: NewFrameStream, NewFrameStreamWithLogger, Write, Read, Closed")])
p("C27", "Cancelling the context ends both loops promptly",
  "After the context is cancelled, the read and write loops return within bounded time even if the transport neither delivers nor accepts data and nobody takes frames.",
  ["schedules", "fault_sequences"], "every point of blocking at which the cancellation arrives",
  "needs blocked transports and timing",
  ["stream.go"], [("loops", "stream.go: ReadContext, WriteContext")])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
