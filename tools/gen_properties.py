#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe, "hook_needed": None}})

p("C01", "Decoding does not depend on how the input is split",
  "For every decoder the crate offers or composes, presenting one byte stream in any segmentation (including empty segments, and with any truthful end-of-stream hint) yields the same item, consumes the same number of bytes in total, and succeeds or fails in the same way as presenting it whole. No byte is skipped, duplicated or reordered at a segment boundary, and an item is complete as soon as its last byte has been presented. (Serialized documents without a length of their own, i.e. JSON and bincode, are covered when the stream holds exactly one document.)",
  ["inputs", "schedules", "programs"], "all decoder compositions x all byte streams x all segmentations x all truthful Eos hint styles",
  "Tests feed one or two hand-picked segmentations (mostly one-shot) to a few decoders; the guarantee is over all 2^(n-1) segmentations and all compositions.",
  ["src/decode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/monolithic.rs", "src/fixnum.rs", "src/padding.rs", "src/macros.rs"],
  [("offset-carrying decoders", "src/bytes.rs"), ("bytecodec_try_decode! resumption", "src/macros.rs"), ("Collect/CollectN loops", "src/combinator.rs")],
  ["Decode::decode", "Decode::finish_decoding", "Decode::is_idle"],
  [("offset", "bytes already filled of the current item", "CopyableBytesDecoder/BytesDecoder"), ("remaining_bytes", "bytes left of a length-delimited item", "Length")])
p("C02", "Encoded output does not depend on how the output is split",
  "For every encoder the crate offers or composes and every item it accepts, concatenating what successive encode calls report as written, into any sequence of output buffers of any sizes including empty ones, gives exactly the bytes one large buffer would receive. Each call reports no more than the buffer holds and leaves part of the buffer unused only when the encoder has become idle (or is suspended by an exhausted slice budget).",
  ["inputs", "schedules", "programs"], "all encoder compositions x all items x all sequences of buffer sizes",
  "Tests encode into one big buffer or a fixed pair of buffers; empty items, exact-fit and one-byte buffers across combinators are not sampled.",
  ["src/encode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/monolithic.rs", "src/fixnum.rs", "src/padding.rs", "src/macros.rs"],
  [("BytesEncoder offset", "src/bytes.rs"), ("bytecodec_try_encode! resumption", "src/macros.rs"), ("Repeat loop", "src/combinator.rs"), ("MonolithicEncoder spill buffer", "src/monolithic.rs")],
  ["Encode::encode", "Encode::is_idle"], [("offset", "bytes of the item already written", "BytesEncoder")])
p("C03", "Encode then decode returns the items, with exact message boundaries",
  "For matching encoder/decoder pairs built from the crate, encoding any sequence of items back to back with one reused encoder and decoding the resulting stream with one reused decoder yields the same items in the same order. Each item's decoder consumes exactly the bytes its encoder produced, so neighbouring messages never bleed into each other, whatever the buffer sizes on either side.",
  ["inputs", "schedules", "histories", "programs"], "all matching codec pairs x all item sequences x all buffer schedules on both sides",
  "Only one fixed value per codec is round-tripped, alone, with fresh codecs.",
  ["src/fixnum.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/json_codec.rs", "src/bincode_codec.rs"],
  [("paired encoders and decoders", "src/fixnum.rs"), ("length framing", "src/combinator.rs")], ["Encode::encode", "Decode::decode", "Decode::finish_decoding"])
p("C04", "Fixed-width numbers have the exact advertised wire format",
  "Each fixed-width number encoder writes exactly its declared width in its declared byte order (two's complement for signed, IEEE-754 bit patterns for floats), and the matching decoder inverts that for every bit pattern. A value that does not fit a 24/40/48/56-bit width is refused with InvalidInput, produces no bytes, and leaves the encoder able to take the next value.",
  ["inputs"], "all representable values and all byte patterns of all 30 encoders and 30 decoders, and all out-of-range values of the odd widths",
  "Tests use a single value per type, so sign extension, range limits, per-byte placement and NaN payloads are not settled.",
  ["src/fixnum.rs"], [("encode_item/decode_item of each type", "src/fixnum.rs"), ("range assertions", "src/fixnum.rs")], ["fixnum encoders and decoders"])
p("C05", "Decoders keep the idle/finish protocol",
  "A decode call never reports consuming more than it was given, leaves input unconsumed only when the item is complete (or a slice budget is exhausted), and consumes nothing once the decoder is idle. Finishing succeeds or reports a verdict on the item exactly when the decoder is idle; finishing earlier fails with IncompleteDecoding and does not disturb the decoding in progress. An idle decoder reports that it requires zero bytes, and decoding or finishing a one-shot decoder whose item was taken fails with DecoderTerminated.",
  ["inputs", "schedules", "histories", "programs"], "all decoder compositions x all interleavings of decode, early finish, repeated decode when idle, and status queries (length-delimited items are given a payload that fills the length)",
  "Tests follow the happy path: decode until idle then finish once; premature finishes, calls when idle and leftover input are hardly exercised.",
  ["src/decode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/monolithic.rs", "src/padding.rs"],
  [("is_idle/requiring_bytes pairs", "src/decode.rs"), ("IncompleteDecoding assertions", "src/combinator.rs")], ["Decode::decode", "Decode::finish_decoding", "Decode::is_idle", "Decode::requiring_bytes"])
p("C06", "Exact decoding never over-reads and byte hints are lower bounds",
  "decode_exact returns the item while pulling from the reader only the bytes that belong to it, for every reader that returns short reads, so the next item can be read from the same reader. A finite number of required bytes reported by a decoder never exceeds what the item still actually needs, for items whose end is not marked by end-of-stream. If the reader ends before the item is complete, decode_exact returns an error instead of looping or returning an item.",
  ["inputs", "schedules", "programs"], "all decoder compositions x all streams of several items x all short-read patterns x all truncation points",
  "Tests call decode_exact on slices that serve full reads; over-reading is invisible when only one item is present.",
  ["src/io.rs", "src/decode.rs", "src/combinator.rs", "src/tuple.rs", "src/byte_count.rs"],
  [("decode_exact loop sized by requiring_bytes", "src/io.rs"), ("add_for_decoding", "src/byte_count.rs")], ["IoDecodeExt::decode_exact", "Decode::requiring_bytes", "the reader's position"])
p("C07", "Encoders report exactly how many bytes remain",
  "Whenever an encoder reports a finite number of required bytes, exactly that many bytes are subsequently produced for what it holds; sized encoders always report that exact number and agree with the unsized report. An encoder holding nothing is idle and reports zero, before the first item as well as after the last, and an encoder reporting infinitely many bytes writes until the end of the output.",
  ["inputs", "schedules", "programs", "histories"], "all encoder compositions x all items x every intermediate point of every output schedule",
  "Tests check requiring_bytes for a couple of decoders only; encoders' byte accounting is never compared with the bytes produced.",
  ["src/encode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/byte_count.rs", "src/monolithic.rs"],
  [("exact_requiring_bytes implementations", "src/combinator.rs"), ("add_for_encoding", "src/byte_count.rs")], ["Encode::requiring_bytes", "SizedEncode::exact_requiring_bytes", "Encode::is_idle"])
p("C08", "A stream that ends too early is always reported, never accepted",
  "If the input stream ends before an item is complete, decoding reports UnexpectedEos at the latest on the call that signals the end, however the bytes were split, and never yields an item; JSON and bincode documents report InvalidInput. If the output stream is declared ended while an encoder still has bytes that do not fit, the encode call reports UnexpectedEos instead of silently truncating.",
  ["inputs", "schedules", "programs"], "all codec compositions x all truncation points x all segmentations x all ways of signalling the end (with the last bytes, with an empty call, with exact remaining counts)",
  "A handful of truncations are tested, nearly all on a single decoder and with the end signalled together with the data.",
  ["src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/monolithic.rs", "src/eos.rs"],
  [("eos.is_reached() assertions", "src/bytes.rs"), ("Length's remaining check", "src/combinator.rs"), ("end-of-stream handling of Collect/CollectN", "src/combinator.rs")], ["Decode::decode", "Encode::encode", "ErrorKind"])
p("C09", "Length-delimited items occupy exactly the declared number of bytes",
  "A length-limited decoder gives its inner decoder exactly the declared number of bytes, tells it truthfully where that sub-stream ends, never touches the bytes behind it, and fails if the inner item needs more or fewer bytes. A length-limited encoder emits exactly the declared number of bytes or fails: UnexpectedEos for a longer item, InvalidInput for a shorter one. The declared length can be changed only between items, and each new item starts with the full declared length.",
  ["inputs", "schedules", "programs", "histories"], "all declared lengths x inner codecs x payload sizes around the length x segmentations x sequences of items",
  "One length and one inner codec with three payloads are tested, fresh codec each time.",
  ["src/combinator.rs"], [("Length", "src/combinator.rs")], ["Length::decode/encode", "Length::expected_bytes", "Length::remaining_bytes", "Length::set_expected_bytes"],
  [("expected_bytes", "declared length", "Length"), ("remaining_bytes", "bytes left of the current item", "Length")])
p("C10", "Byte limits are enforced exactly and per item",
  "With a limit of n bytes, an item of at most n bytes is processed exactly as without the limit, and a longer one fails with InvalidInput no matter how it is split or how its end is announced. Consumption counts per item: the reported number of consumed bytes is exact, starts again from zero for the next item, and a limit is never accepted below what the current item has already consumed.",
  ["inputs", "schedules", "histories"], "all limits x item sizes around the limit x segmentations x item sequences x limit changes",
  "Only limit 3 with sizes 2..5 in one shot is tested.",
  ["src/combinator.rs"], [("MaxBytes", "src/combinator.rs")], ["MaxBytes::decode/encode", "MaxBytes::consumed_bytes", "MaxBytes::set_max_bytes"], [("consumed_bytes", "bytes consumed for the current item", "MaxBytes")])
p("C11", "Slices never exceed their budget and multiplexing loses nothing",
  "A sliced codec never consumes or produces more bytes than its current budget, lowers the budget by exactly what it used, and reports being suspended exactly when the budget is zero. However the budgets are dealt out, the bytes and items are the same as without slicing, so any number of streams can be interleaved into one byte sequence and separated again.",
  ["inputs", "schedules", "programs", "histories"], "all budget sequences x buffer sizes x inner codecs x numbers of multiplexed streams",
  "Two 3-byte streams are multiplexed with one fixed schedule.",
  ["src/combinator.rs", "src/eos.rs"], [("Slice", "src/combinator.rs"), ("Eos::back", "src/eos.rs")], ["Slice::decode/encode", "Slice::consumable_bytes", "Slice::is_suspended"], [("consumable_bytes", "remaining budget", "Slice")])
p("C12", "Encoders accept when idle, refuse when busy, and refusals leave no trace",
  "An idle encoder accepts every valid item, again and again. Offering an item while a previous one is not yet fully written fails with EncoderFull (an absent optional item and the null encoder excepted), and the bytes still to be written are unaffected. An item refused as invalid contributes no bytes, leaves the encoder idle, and the next valid item is accepted and encoded normally.",
  ["inputs", "histories", "schedules", "programs"], "all encoder compositions x all histories of offers (valid, invalid, premature) and partial encodes",
  "No test offers an item to a busy encoder, or reuses an encoder after a refusal.",
  ["src/encode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/fixnum.rs", "src/monolithic.rs", "src/padding.rs"],
  [("EncoderFull assertions", "src/bytes.rs"), ("TupleEncoder::start_encoding", "src/tuple.rs")], ["Encode::start_encoding", "Encode::is_idle", "Encode::encode"])
p("C13", "Read and write buffers conserve bytes under any I/O faults",
  "Bytes pass through read and write buffers in order, each exactly once: everything taken from the reader is either handed out or still held, and everything put into a write buffer is either accepted by the writer or still held, across short operations, would-block, end-of-stream and errors. Length, room, emptiness, fullness and capacity always agree with the bytes actually held, and length plus room never exceeds capacity. Filling and flushing stop only when the buffer is full (respectively empty), the stream would block, ended, or failed.",
  ["fault_sequences", "histories", "schedules"], "all histories of fill/read/decode and write/encode/flush x all fault scripts of the underlying stream x buffer capacities",
  "The four buffer tests use 3 bytes, a 1 KiB buffer and streams that never fail, block or return short.",
  ["src/io.rs"], [("ReadBuf/WriteBuf head and tail", "src/io.rs")], ["ReadBuf", "WriteBuf", "BufferedIo::execute_io", "decode_from_read_buf", "encode_to_write_buf"],
  [("head", "start of held bytes", "ReadBuf/WriteBuf"), ("tail", "end of held bytes", "ReadBuf/WriteBuf")])
p("C14", "Stream state reflects the last I/O operation",
  "After a fill or flush that performed I/O, the reported stream state is Normal, Eos, WouldBlock or Error according to the last operation on the stream, would-block never surfaces as an error, any other I/O error does, and a call that performs no I/O leaves the state alone. A buffered stream reports end-of-stream exactly when either direction has ended, and would-block exactly when reading would block and writing has nothing to write or would block. Codecs driven from a buffer are told that the stream has ended exactly when the buffer's state says so.",
  ["fault_sequences", "histories"], "all fault scripts x histories of fill/flush/execute_io and codec steps",
  "Only the Eos state after a fill of 3 bytes and Normal after a flush are tested.",
  ["src/io.rs"], [("StreamState transitions", "src/io.rs"), ("BufferedIo::is_eos/would_block", "src/io.rs")], ["stream_state()", "BufferedIo::is_eos", "BufferedIo::would_block"], [("stream_state", "result of the last I/O operation", "ReadBuf/WriteBuf")])
p("C15", "Asynchronous I/O conserves bytes and never loses a wake-up",
  "Polled filling and flushing move bytes with the same conservation, ordering and state rules as the blocking calls, for every pattern of pending, short and failed operations. A poll returns Pending only if the underlying stream returned Pending (so its waker is registered), the combined poll is pending only when both directions are, and an error in either direction is reported. A waker stored when encoding into a write buffer is woken once a later blocking or polled flush has freed space.",
  ["fault_sequences", "schedules", "histories"], "all scripts of Pending/short/EOF/error on both directions x histories of encode, poll and flush",
  "The asynchronous module has no tests at all.",
  ["src/io_async.rs", "src/io.rs"], [("poll_fill/poll_flush/execute_io_poll", "src/io_async.rs"), ("waker kept by encode_to_write_buf_async", "src/io.rs")], ["poll_fill", "poll_flush", "execute_io_poll", "encode_to_write_buf_async", "Waker"], [("waker", "task to wake when space is regained", "WriteBuf")])
p("C16", "Hostile input yields a result: no panic, hang or runaway allocation",
  "For every byte stream, segmentation and end-of-stream hint, however malformed, every decoder composition returns items or errors after a bounded amount of work and without panicking, including on length and count fields of any value. The memory a decoder of the crate uses is bounded by the bytes actually supplied (plus a small constant), not by lengths the input merely claims.",
  ["inputs", "schedules", "programs"], "all decoder compositions x arbitrary byte strings and hints, with length/count fields biased to extreme values",
  "Tests feed well-formed input; adversarial lengths and arithmetic at the edge of 64 bits are never tried.",
  ["src/bytes.rs", "src/combinator.rs", "src/byte_count.rs", "src/eos.rs", "src/tuple.rs", "src/io.rs", "src/json_codec.rs", "src/bincode_codec.rs"],
  [("preallocation in RemainingBytesDecoder", "src/bytes.rs"), ("byte-count addition", "src/byte_count.rs"), ("decode_exact loop", "src/io.rs")], ["Decode::decode", "Decode::requiring_bytes", "allocator", "panics"])
p("C17", "Decoder combinators compute what they say",
  "Mapping applies the function once to each completed item; conditional decoding runs the decoder chosen from the first item on the bytes that follow; chains and tuples of every arity decode their parts in order; collecting gathers every item until end-of-stream, or exactly n of them, in order. Omitting consumes nothing and yields None; peeking shows exactly the item that finishing then returns; tolerating end-of-stream changes the outcome only when the stream ends before the item's first byte. Decoders obtained from these, and sequences written by the user with bytecodec_try_decode!, behave as the sequential composition of their parts on every input.",
  ["inputs", "programs"], "all compositions of combinators up to a depth x all inputs",
  "Each combinator has one or two examples, and nesting is essentially untested.",
  ["src/combinator.rs", "src/decode.rs", "src/tuple.rs"], [("combinators", "src/combinator.rs"), ("TupleDecoder macros", "src/tuple.rs")], ["DecodeExt methods", "finish_decoding results"])
p("C18", "Encoder combinators emit what they say",
  "Mapped encoders emit the encoding of the converted item; optional encoders emit nothing for an absent item and the plain encoding otherwise; chains and tuples of every arity emit their parts in order; repetition emits every element of the iterator in order, including empty ones; pre-encoding and final-item wrappers emit the same bytes as the plain encoder. Encoders obtained from these, and sequences written by the user with bytecodec_try_encode!, emit the concatenation of their parts for every item.",
  ["inputs", "programs"], "all compositions of encoder combinators up to a depth x all items",
  "Each combinator has one example; empty elements, nesting and most arities are untested.",
  ["src/combinator.rs", "src/encode.rs", "src/tuple.rs"], [("encoder combinators", "src/combinator.rs"), ("TupleEncoder macros", "src/tuple.rs")], ["EncodeExt methods", "bytes produced"])
p("C19", "JSON, bincode and custom monolithic codecs match the library they wrap",
  "For every serializable value, the JSON and bincode encoders emit byte for byte what the wrapped library emits, and the decoders return what the wrapped library returns for the whole document, under every buffer schedule. A document the wrapped library rejects or a value it cannot serialize is reported as InvalidInput, and a monolithic codec defined by the user sees the document complete and once per item; of the bytes presented together with the end of the stream, exactly those the library reads are consumed.",
  ["inputs", "schedules"], "all values of a family of serde types x valid, mutated and truncated documents x buffer schedules x item sequences",
  "Three small values are encoded and two decoded.",
  ["src/monolithic.rs", "src/json_codec.rs", "src/bincode_codec.rs"], [("MonolithicDecoder accumulation", "src/monolithic.rs"), ("WriterChain", "src/monolithic.rs")], ["JsonEncoder/JsonDecoder", "BincodeEncoder/BincodeDecoder", "MonolithicEncoder/MonolithicDecoder"], [("buf", "accumulated document or unsent remainder", "MonolithicDecoder/MonolithicEncoder")])
p("C20", "Component errors always surface, with their kind, exactly once",
  "If any component of a composed codec reports an error at any point (while decoding, finishing, starting or encoding), the call on the outer codec that reached it fails with the same error kind, never succeeds and never panics. An error-mapping wrapper applies its function exactly once to each error passing through it, never on success, and the mapped kind is what the caller sees. I/O errors surface as UnexpectedEos if they mean unexpected end of file and as Other otherwise, other foreign failures as Other, with the original error as their cause.",
  ["fault_sequences", "programs", "schedules"], "a failing component at every position of every composition x every operation and every moment of failure x every error kind",
  "Tests see a few natural errors of single codecs; no error is injected inside a composition.",
  ["src/combinator.rs", "src/tuple.rs", "src/error.rs", "src/io.rs", "src/macros.rs", "src/monolithic.rs"], [("track!/? propagation", "src/macros.rs"), ("MapErr", "src/combinator.rs"), ("From<io::Error>", "src/error.rs")], ["Error::kind of every call"])
p("C21", "Reused decoders behave like fresh ones",
  "After an item has been finished, a decoder that can decode further items treats the following bytes exactly as a newly built decoder would, whatever items it processed before. This includes items that were refused when finishing (for example invalid UTF-8 or a failing conversion): nothing of a refused item shows up in a later one.",
  ["histories", "inputs", "programs"], "all reusable decoder compositions x all sequences of items, including refused ones",
  "Only CopyableBytesDecoder and Length are reused in tests, for two items.",
  ["src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/monolithic.rs", "src/padding.rs"], [("state reset in finish_decoding", "src/combinator.rs")], ["item k of a reused decoder vs. a fresh one"])
p("C22", "Byte counts and end-of-stream marks obey their documented algebra",
  "Adding byte counts follows the documented table for decoding and for encoding for all operands, and sums beyond 64 bits saturate instead of wrapping; both additions are commutative and have zero as identity; finite counts order numerically and below Infinite, and Unknown is neither less nor greater than anything. End-of-stream is reached exactly when zero bytes remain, and moving back by b bytes adds b to a finite remainder and leaves other marks unchanged. A tuple codec requires the sum of what its parts require under the table of its side, its exact size is their saturating sum, and it is idle exactly when every part is.",
  ["inputs"], "all byte counts including 64-bit extremes, and tuples of any parts",
  "A few small constants are compared; addition is not tested at all.",
  ["src/byte_count.rs", "src/eos.rs", "src/tuple.rs"], [("add_for_decoding/add_for_encoding", "src/byte_count.rs"), ("Eos::back", "src/eos.rs"), ("requiring_bytes of tuples", "src/tuple.rs")], ["ByteCount", "Eos", "TupleDecoder", "TupleEncoder"])
p("C23", "Borrowed, boxed and pass-through codecs are indistinguishable",
  "A codec used through a mutable reference, a box, a boxed trait object, or a wrapper that adds nothing (identity mappings, an error mapping, an unlimited slice, a present optional, a not-omitted decoder) behaves call for call like the codec itself: same inputs and end-of-stream hints reach it, and the same results, byte counts, idleness and requirements come back, including for user-defined codecs whose idleness is not derived from their byte requirement. Tagged decoding through references and boxes forwards the tag and its verdict.",
  ["programs", "inputs", "histories"], "all delegating wrappers x scripted inner codecs with arbitrary answers x call histories",
  "No test calls a codec through a box or a reference, and wrappers are never compared call for call.",
  ["src/decode.rs", "src/encode.rs", "src/combinator.rs"], [("forwarding impls for &mut and Box", "src/decode.rs"), ("pass-through methods of wrappers", "src/combinator.rs")], ["every trait method"])
p("C24", "Windowed buffers expose and modify only their window",
  "A window over an owned buffer exposes exactly the bytes from its start to its end, reading and writing in place, and nothing outside it is ever exposed or modified; the underlying buffer is returned intact. This holds when the window serves as the storage of a bytes encoder, a bytes decoder, a read buffer or a write buffer.",
  ["inputs", "histories"], "all buffers, window bounds and histories of codec and buffer operations on them",
  "One 4-byte array with one window is tested, and never as codec storage.",
  ["src/slice.rs", "src/bytes.rs", "src/io.rs"], [("OwnedSlice::as_ref/as_mut", "src/slice.rs")], ["OwnedSlice", "bytes outside the window"])
p("C25", "All entry points for encoding and decoding agree",
  "Encoding one item incrementally, with encode_all to a writer, with encode_into_bytes, through a write buffer, and with pre-encoding produce the same bytes and the same success or failure, at any size. Decoding the same bytes incrementally, with decode_from_bytes, with decode_exact, and through a read buffer gives the same item, and decode_from_bytes accepts only if the whole input belongs to the item. Starting from an initial item equals starting an empty encoder with that item.",
  ["inputs", "programs", "schedules"], "all codec compositions x items of all sizes, in particular around the internal 1024-byte transfer buffers x buffer capacities",
  "Tests use each entry point on items of a few bytes, so transfer-buffer boundaries are never crossed.",
  ["src/io.rs", "src/encode.rs", "src/decode.rs", "src/combinator.rs"], [("encode_all/decode_exact loops", "src/io.rs"), ("encode_into_bytes", "src/encode.rs"), ("decode_from_bytes", "src/decode.rs")], ["bytes and results of each entry point"])
p("C26", "Byte-level codecs accept and produce exactly the right bytes",
  "The byte decoders return exactly the bytes of their span and the rest-of-stream decoder exactly all remaining bytes; the text decoder accepts exactly valid UTF-8, returning it unchanged, and reports InvalidInput otherwise. The padding decoder accepts exactly streams made of the expected byte (any bytes if none is set) and the padding encoder fills every byte offered until end-of-stream and then is idle; codecs that extend to the end of the stream report that they require bytes without end until it is reached; the null codecs touch nothing.",
  ["inputs", "schedules"], "all byte strings (valid and invalid UTF-8), sizes, padding bytes and schedules",
  "A few ASCII strings and one padding run are tested; invalid UTF-8 and split multi-byte characters are not.",
  ["src/bytes.rs", "src/padding.rs", "src/null.rs"], [("bytes codecs", "src/bytes.rs"), ("Utf8Decoder", "src/bytes.rs"), ("padding", "src/padding.rs")], ["items and bytes of the leaf codecs"])
p("C27", "No undefined behaviour or memory error on any execution",
  "Encoding, decoding and buffering never read or write outside the buffers they were given or own, never expose uninitialised memory, never use freed memory and release everything they allocate, for any input, schedule, fault sequence, early drop or panic in user-supplied closures.",
  ["inputs", "schedules", "histories", "fault_sequences"], "all codec compositions and buffer histories, including abandoning codecs midway",
  "Ordinary tests do not observe memory errors; they would need an instrumented execution.",
  ["src/bytes.rs", "src/combinator.rs", "src/io.rs", "src/io_async.rs", "src/monolithic.rs", "src/tuple.rs"], [("safe slicing everywhere", "src/bytes.rs")], ["Miri", "AddressSanitizer/LeakSanitizer"])
p("C28", "Components are told the truth about where their stream ends",
  "If the outermost caller's end-of-stream hints are truthful, so is every hint passed to any component of a composed codec: 'reached' is announced only together with the last byte that component's stream can supply, a finite remainder equals the bytes still to come after the presented buffer, and a component in a length-delimited region sees exactly that region as its stream. A component is never presented bytes twice or out of order, whatever the segmentation.",
  ["programs", "inputs", "schedules"], "all compositions x truthful hint styles x segmentations, for encoders and decoders",
  "Hints are invisible at the outer interface; no test observes what a component receives.",
  ["src/combinator.rs", "src/tuple.rs", "src/eos.rs", "src/macros.rs", "src/io.rs"], [("Length/Slice hint adjustment", "src/combinator.rs"), ("buffer advancing in macros", "src/macros.rs")], ["arguments received by instrumented components"])
p("C29", "Driving helpers come to an end and report codecs that make no progress",
  "encode_all, encode_into_bytes, decode_exact, decode_from_bytes and pre-encoding always come to an end, and never report success for a codec that is suspended, stalls or breaks its claims: an encoder that stops writing without being idle, an encoder that still holds bytes after the number it claimed (InconsistentState from encode_into_bytes) or claims to be endless (InvalidInput), a decoder that leaves presented bytes unconsumed (InvalidInput from decode_from_bytes if the input is longer than the item), or a decoder that stays incomplete although the input ended. What an encoder wrote before stopping has reached the writer exactly once and in order, and once it is resumed encode_all delivers exactly the remaining bytes. A codec that is merely slow or claims nothing succeeds with exactly its item.",
  ["inputs", "programs", "histories"], "scripted user-defined codecs (any progress, stall point and claim) and slices with any quota x item sizes around the internal 1024-byte transfer buffers",
  "All tests drive well-behaved codecs to success; no test has a codec that stalls or claims wrongly.",
  ["src/io.rs", "src/encode.rs", "src/decode.rs"], [("encode_all and decode_exact loops", "src/io.rs"), ("encode_into_bytes", "src/encode.rs"), ("decode_from_bytes", "src/decode.rs")], ["results and bytes of each helper"])
p("C30", "The machine does not matter: 32-bit and big-endian platforms behave alike",
  "On machines with 32-bit addresses and on big-endian machines, every encoder writes the same bytes, every decoder returns the same items and errors and consumes the same bytes, and the same byte counts are reported as on a 64-bit little-endian machine. In particular number formats keep their declared byte order, and 64-bit lengths, limits, budgets and counts that exceed the address space keep their full value.",
  ["inputs", "environment"], "32-bit and big-endian targets x the compositions, inputs and schedules of all other properties",
  "The tests only ever run on the developer's 64-bit little-endian machine.",
  ["src/fixnum.rs", "src/combinator.rs", "src/io.rs", "src/encode.rs"], [("number formats", "src/fixnum.rs"), ("casts between 64-bit counts and buffer sizes", "src/combinator.rs"), ("casts between 64-bit counts and buffer sizes", "src/io.rs")], ["every codec"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
for q in P:
    n = len([s for s in q["statement"].replace("i.e.", "ie").split(". ") if s.strip()])
    if n > 3: print("WARN sentences", q["id"], n)
print(len(P), "properties")
