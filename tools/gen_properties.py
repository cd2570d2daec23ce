#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the compact table below (kept as the
single place where the property texts are edited)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

NOTEST_HARNESS = ("The existing tests never import the comparison harness at all; even a test "
    "of it would sample a handful of captures, while the property quantifies over every ")
NOTEST_CODEC = ("The existing tests only touch the bit bucket, the canonical Huffman coder and one LRU "
    "ring; no codec is ever driven end to end. The property quantifies over every ")

prop("H01", "HAR captures become exactly the header sets they record",
 "Every HTTP(S) entry of a HAR capture yields one request and one response header dictionary, in capture order, "
 "and entries of any other scheme yield none. Names are lower-cased, repeated fields are joined with NUL in order, "
 "a request's Host is carried as the :host pseudo header (taken from its Host field, else from the URL authority), and method (lower case), path with query, scheme, "
 "version, numeric status and status text (the standard phrase when the capture has none) are carried as pseudo headers.",
 ["inputs"], "for every HAR log: any number of entries, any header lists (duplicates, mixed case, empty), any URL with or without path/query/fragment/port, any status value",
 NOTEST_HARNESS + "capture.",
 ["lib/harfile.py"],
 [("capture conversion", "lib/harfile.py har2hdrs"), ("field folding", "lib/harfile.py process_headers"), ("file reading", "lib/harfile.py read_har_file")],
 observe=["the two lists returned for a HAR file"])

prop("H02", "Streamifiers partition the messages and keep their order",
 "For any list of request/response pairs, every streamifier puts each request and each response into exactly one stream of "
 "its own direction, in capture order within the stream, paired with the request's host. The single-stream, per-host and per-registered-domain "
 "streamifiers group exactly by nothing, by normalised host and by public suffix, with streams in order of first appearance, request stream before response stream.",
 ["inputs"], "for every message list and host distribution (ports, case, surrounding blanks, unknown suffixes, single labels)",
 NOTEST_HARNESS + "message list.",
 ["lib/streamifiers/all_one.py", "lib/streamifiers/host.py", "lib/streamifiers/public_suffix.py"],
 [("grouping", "lib/streamifiers/*.py streamify")], observe=["the list of streams returned"])

prop("H03", "Only connection-specific headers are withheld from the codecs",
 "Before a message reaches a codec, exactly the HTTP version, the status phrase, Keep-Alive, Connection and the fields named by the "
 "message's own Connection header (whose options are case-insensitive, and which may be repeated) are removed; every other field reaches the codec unchanged. The message recorded in the stream is itself left unmodified.",
 ["inputs"], "for every header dictionary and every Connection token list",
 NOTEST_HARNESS + "header set.",
 ["lib/processors.py"], [("filter", "lib/processors.py Processors.filter_headers")])

prop("H04", "Header comparison reports a mismatch exactly when headers differ",
 "Comparing two header sets reports nothing if and only if they are equal up to the order and repetition of cookie crumbs and of repeated field "
 "values, blanks around them, and the ignored HTTP version, status phrase and Connection fields. Otherwise the report lists precisely the name/value items that only one side has, under that side's label, and neither input is modified.",
 ["inputs"], "for every pair of header dictionaries, in particular near-identical pairs",
 NOTEST_HARNESS + "pair of header sets.",
 ["lib/processors.py"], [("comparison", "lib/processors.py Processors.compare_headers, compare_headers_impl")])

prop("H05", "Stream statistics and reports agree with the recorded results",
 "The summary of a stream shows, per codec, the sum of recorded sizes and times, the overall size ratio to the baseline and the minimum, maximum and "
 "sample standard deviation of the recorded per-message ratios; the TSV lists one numbered line per message with every codec's size in codec order. "
 "Adding streams concatenates their messages and results in order and leaves the streams that were added unchanged.",
 ["inputs", "histories"], "for every set of streams, codecs and recorded results, and every way of adding streams up",
 NOTEST_HARNESS + "sequence of recorded results.",
 ["lib/stream.py"], [("summary", "lib/stream.py Stream.print_summary, meanstdv"), ("TSV", "lib/stream.py Stream.print_tsv"), ("totals", "lib/stream.py Stream.__add__, __radd__, merge_dols")])

prop("H06", "A comparison run measures and verifies every codec on every message",
 "Running the comparison over HAR files gives each stream fresh codec instances, feeds every codec of the right direction every message of the stream in order, records the "
 "length of what it produced and its ratio to the baseline codec, and reports totals that add up. A mismatch is reported for a codec exactly when the "
 "headers it decompresses differ from those it was given, codecs without decompression are measured but not verified, and codec names with parameters reach the codec as written.",
 ["inputs", "configurations", "histories"], "for every set of HAR files, codec list with parameters, baseline, streamifier and verbosity, and every faulty codec behaviour",
 NOTEST_HARNESS + "run configuration and codec behaviour.",
 ["compare_compressors.py", "lib/processors.py", "lib/stream.py"],
 [("run loop", "compare_compressors.py CompressionTester.run"), ("options", "compare_compressors.py CompressionTester.parse_options"), ("measurement", "lib/processors.py Processors.process_session, process_message")])

prop("H07", "The chart page draws every codec's sizes from the TSV",
 "For TSV files of a run, display_tsv.html draws one chart for requests and one for responses, in which every codec (a single one, too) has one line of its own colour, "
 "through one point per message at the message's number and that codec's size, on common linear axes that fit the chart; the codec's name stands at the end of its line, "
 "and each run of messages of one stream is labelled with the stream's name where it starts.",
 ["inputs"], "for every TSV: any number of codecs, messages, streams, any sizes (equal ones, too)",
 "The existing tests never open the page; a test would look at one TSV, while the property quantifies over every table of results.",
 ["display_tsv.html"], [("drawing", "display_tsv.html display_tsv")], observe=["the positions, texts and colours of the lines and labels drawn"])

prop("C01", "The HTTP/1 text codec round-trips every header set",
 "Formatting a header set as an HTTP/1 message and parsing it back gives the same header set: same fields, the same values for repeated fields in the same order, and the same pseudo headers. "
 "The text is a well-formed HTTP/1.1 message: start line, one line per field value, a blank line.",
 ["inputs"], "for every header set whose names and values are legal HTTP field names and trimmed values, requests and responses",
 NOTEST_CODEC + "header set.",
 ["compressor/__init__.py", "compressor/http1/__init__.py"],
 [("format", "compressor/__init__.py format_http1"), ("parse", "compressor/__init__.py parse_http1")])

prop("C02", "The deflate-based codecs emit one decodable stream per connection",
 "For any sequence of messages on a connection, the concatenated output of the SPDY/3-style codec, and of the gzip and Huffman-only HTTP/1 codecs, is a single zlib stream in which every message is complete as soon as its own bytes have arrived. "
 "Inflating it (after the agreed dictionary, where one is configured) gives exactly the message's name/value pairs, or HTTP/1 text, in order.",
 ["histories", "inputs", "configurations"], "for every message sequence and codec option",
 NOTEST_CODEC + "message history.",
 ["compressor/spdy3/__init__.py", "compressor/http1_gzip/__init__.py", "compressor/http1_huffman/__init__.py"],
 [("shared zlib context", "compressor/*/__init__.py Processor.compress"), ("name/value block", "compressor/spdy3/__init__.py Spdy3HeadersFormat")],
 state=[("compressor", "one zlib stream shared by all messages of a connection")])

prop("C03", "The HPACK library codec round-trips every message history",
 "For any sequence of messages on a connection, what the HPACK-library codec decompresses equals the message that was compressed.",
 ["histories", "inputs"], "for every message sequence",
 NOTEST_CODEC + "message history.",
 ["compressor/hyper_hpack/__init__.py"], [("wrapping", "compressor/hyper_hpack/__init__.py Processor")])

prop("C04", "The HTTP/2 draft codec round-trips every message history",
 "For any sequence of header sets on a connection and any header-table size, compressing terminates and the peer decompresses exactly the header set that was compressed, each message depending only on the ones before it.",
 ["histories", "inputs", "configurations"], "for every message sequence, table size (including sizes where nearly every insertion evicts) and direction",
 NOTEST_CODEC + "message history and table size; eviction interplay only shows after many specific messages.",
 ["compressor/http2/__init__.py", "compressor/http2/http2Codec.py"],
 [("reference-set encoding", "compressor/http2/http2Codec.py encode_headers"), ("indexing choice", "compressor/http2/http2Codec.py determine_indexing"), ("decoding", "compressor/http2/http2Codec.py decode_headers")],
 state=[("header table", "the dynamic table shared by encoder and decoder"), ("reference set", "headers carried over from the previous message")])

prop("C05", "The HTTP/2 draft codec speaks the documented wire format",
 "Every block the codec emits is decodable by an independent decoder of the draft's wire format (integers with prefixes, literal, indexed and substituting representations, reference set) to the same headers, within the configured table size. "
 "Conversely any conforming stream, including one that uses representations the encoder never picks, is decoded to what the independent decoder says, and the table never exceeds its configured size.",
 ["histories", "inputs", "configurations"], "for every message history and for every conforming instruction stream",
 NOTEST_CODEC + "instruction sequence, most of which the encoder itself never produces.",
 ["compressor/http2/http2Codec.py"],
 [("integer coding", "compressor/http2/http2Codec.py encode_integer, read_integer"), ("table update", "compressor/http2/http2Codec.py IndexedHeader handling, eviction")],
 state=[("header table", "bounded by the configured buffer size")])

prop("C06", "The header-diff codec round-trips every message history and option",
 "For any sequence of header sets and any combination of its options (table size, delta mode, static Huffman, final deflate) the peer decompresses exactly the header set that was compressed.",
 ["histories", "inputs", "configurations"], "for every message sequence and option combination",
 NOTEST_CODEC + "message history and option combination.",
 ["compressor/headerdiff/__init__.py", "compressor/headerdiff/headerDiffCodec.py"],
 [("encoding", "compressor/headerdiff/headerDiffCodec.py encodeHeaders"), ("decoding", "compressor/headerdiff/headerDiffCodec.py decodeHeaders")],
 state=[("header table and dictionary", "indexed values both sides keep in step")])

prop("C07", "The header-diff codec's frames and table follow its wire format",
 "Every frame the header-diff codec emits has the documented frame header and representations, so that an independent decoder recovers the same headers, and the table implied by the frames stays within the configured size.",
 ["histories", "inputs", "configurations"], "for every message sequence and option combination",
 NOTEST_CODEC + "message history.",
 ["compressor/headerdiff/headerDiffCodec.py"],
 [("representations", "compressor/headerdiff/headerDiffCodec.py encode*, decode*"), ("table bound", "compressor/headerdiff/headerDiffCodec.py table management")],
 state=[("header table", "bounded by the configured size")])

prop("C08", "Header-diff static Huffman coding is a lossless prefix code",
 "Both static code books (requests and responses) are complete prefix codes over the symbols they code, and for every string of them decoding the encoding gives the string back, the encoding being the concatenation of the code words padded to a byte.",
 ["inputs"], "for every string over the alphabet, both directions",
 "No existing test loads these tables; the property quantifies over every string and every table entry.",
 ["compressor/headerdiff/Huffman.py"], [("tables and coder", "compressor/headerdiff/Huffman.py")])

prop("C09", "The delta codec round-trips every message history",
 "For any sequence of header sets on a connection, whatever the host and header group they belong to, the delta codec's decompressor returns exactly the header set that was compressed, including repeated fields, and keeps doing so after its storage has started to evict.",
 ["histories", "inputs", "configurations"], "for every message sequence, host/group assignment and storage pressure",
 NOTEST_CODEC + "message history; storage pressure needs long specific histories.",
 ["compressor/delta/__init__.py", "compressor/delta/spdy4_codec_impl.py"],
 [("delta computation", "compressor/delta/spdy4_codec_impl.py Spdy4CoDe"), ("storage", "compressor/delta/spdy4_codec_impl.py Storage"), ("eviction order", "compressor/delta/lrustorage (LRU)")],
 state=[("key/value storage", "entries both sides hold"), ("header groups", "per-group set of live entries")])

prop("C10", "The delta codec's frames follow its wire format",
 "Every frame the delta codec emits parses with an independent reader of its format (frame header, opcode/count/field layout, Huffman strings) into instructions that, applied to an independently kept storage and header group, give exactly the headers compressed.",
 ["histories", "inputs"], "for every message sequence",
 NOTEST_CODEC + "message history.",
 ["compressor/delta/spdy4_codec_impl.py"],
 [("serialisation", "compressor/delta/spdy4_codec_impl.py OutputOps, DecompressOps"), ("string packing", "compressor/delta/spdy4_codec_impl.py PackStr")])

prop("C11", "The second delta codec round-trips every history under every option",
 "For any sequence of header sets and any combination of the codec's options (storage limits, index and integer encodings, group handling) the decompressor returns exactly the header set that was compressed.",
 ["histories", "inputs", "configurations"], "for every message sequence and option combination, including storage limits small enough to evict on every message",
 NOTEST_CODEC + "message history and option combination.",
 ["compressor/delta2/__init__.py", "compressor/delta2/spdy4_codec_impl.py", "compressor/delta2/lrustorage.py"],
 [("delta computation", "compressor/delta2/spdy4_codec_impl.py Spdy4CoDe"), ("storage", "compressor/delta2/spdy4_codec_impl.py Storage"), ("ring", "compressor/delta2/lrustorage.py")],
 state=[("storage ring", "numbered entries both sides hold"), ("header groups", "per-group set of live entries")])

prop("C12", "The second delta codec's frames and storage stay conformant and bounded",
 "Every frame the second delta codec emits parses with an independent reader of its format into instructions that, applied to independent storage, give the headers compressed, and after every message both ends' storage is within its configured entry count and byte size and identical at both ends.",
 ["histories", "inputs", "configurations"], "for every message sequence and option combination",
 NOTEST_CODEC + "message history.",
 ["compressor/delta2/spdy4_codec_impl.py", "compressor/delta2/lrustorage.py"],
 [("serialisation", "compressor/delta2/spdy4_codec_impl.py SerializeInstructions, DeserializeInstructions"), ("bounds", "compressor/delta2/lrustorage.py MakeSpace")],
 state=[("storage ring", "bounded by its byte size and entry count")])

prop("C13", "What the value-aware codecs emit reads back as the message they were given",
 "Every block of the bohe codec, and every frame of the delta_bohe and delta2_bohe codecs while what they sent fits their storage, can be read by an independent reader of their format (registered and literal names; toggles, ranges, clones and new entries over shared storage and header groups) as exactly the fields of the message compressed, each value in its typed encoding or as text, several values of a field flagged as such (bohe), repeated cookie crumbs once.",
 ["histories", "inputs"], "for every message sequence",
 NOTEST_CODEC + "message history; these codecs ship no decompressor, so nothing checks their output at all.",
 ["compressor/bohe/__init__.py", "compressor/delta_bohe/__init__.py", "compressor/delta_bohe/spdy4_codec_impl.py", "compressor/delta2_bohe/spdy4_codec_impl.py", "compressor/delta2_bohe/lrustorage.py"],
 [("block layout", "compressor/bohe/__init__.py"), ("frames, storage, groups", "compressor/delta_bohe/spdy4_codec_impl.py"), ("frames, storage, groups", "compressor/delta2_bohe/spdy4_codec_impl.py")])

prop("C14", "Typed header values are encoded as documented, losing no more than documented",
 "For every value of a typed header the encoding chosen (variable-length integer, date from the codec's epoch, digest entity tags, method number, accept items in order of preference, cache directives of a request or response, cookie and set-cookie parts with hex and base64 content unpacked, privacy policy codes, raw text otherwise) is the documented one, from which everything but the documented losses (accept weights, entity tag text, flags, dates before the epoch) can be recovered, and the copies shipped with the three codecs agree.",
 ["inputs"], "for every integer, date, tag, method, cookie string and text value",
 "No existing test touches these encoders; the property quantifies over every value, boundary integers and dates included.",
 ["compressor/bohe/bohe.py", "compressor/delta_bohe/bohe.py", "compressor/delta2_bohe/bohe.py"],
 [("encoders", "compressor/*/bohe.py")])

prop("C15", "The simple reference codec round-trips every message history",
 "For any sequence of messages and options (date compression, entry limit, seven-bit or deflate output) the simple codec's decompressor returns the message compressed: unchanged fields referenced from the previous message, others literally, dates to the same instant.",
 ["histories", "inputs", "configurations"], "for every message sequence and option combination",
 NOTEST_CODEC + "message history.",
 ["compressor/simple/__init__.py", "compressor/simple/seven.py"],
 [("reference to previous message", "compressor/simple/__init__.py"), ("seven-bit packing", "compressor/simple/seven.py")])

prop("C16", "The fork codec relays every message to the external process and back",
 "For any message sequence, an external codec process started by the fork codec receives exactly the HTTP/1 text of each message in order, and what it answers, delimited by a blank line or by a binary length, is returned whole for that message and no other.",
 ["histories", "inputs", "configurations"], "for every message sequence, both delimiting modes, any output size",
 NOTEST_CODEC + "message and reply, including empty and pipe-buffer-sized ones.",
 ["compressor/fork/__init__.py", "sample_exec_codec.py"], [("pipe protocol", "compressor/fork/__init__.py Processor.compress")])

prop("C17", "Codec instances are deterministic, independent and leave their input alone",
 "What a codec instance emits for a message, and reads from its peer, depends only on its direction, its parameters and the messages (and hosts) it was given before: not on other instances living or having lived in the process, of any codec, nor on how their messages alternate, nor on whether it also decompresses what it emits, nor on the interpreter's hash seed. Compressing leaves the header set it is given unchanged, and what the caller does with that dictionary, or with one it got back, afterwards changes nothing. So the sizes of a comparison are reproducible, and the codecs of one comparison do not affect each other.",
 ["histories", "schedules", "configurations"], "for every codec, any number of instances with any directions and parameters, every message history and every interleaving of them",
 "Existing tests drive one instance at a time; the property quantifies over every interleaving of the histories of several instances.",
 ["compressor/__init__.py", "compressor/delta/__init__.py", "compressor/delta2/__init__.py", "compressor/bohe/__init__.py", "compressor/delta_bohe/__init__.py", "compressor/delta2_bohe/__init__.py", "compressor/headerdiff/__init__.py", "compressor/http2/__init__.py", "compressor/http1/__init__.py", "compressor/spdy3/__init__.py", "compressor/hyper_hpack/__init__.py", "compressor/simple/__init__.py"],
 [("instance state", "compressor/*/__init__.py Processor.__init__"), ("sessions", "lib/processors.py Processors.process_session")])

prop("C18", "A damaged frame ends in a header set or an error",
 "Whatever bytes a decoder is given - a frame cut short, with bits, bytes or lengths altered, lengthened, repeated, out of order, spliced with another frame, or no frame at all - and whatever it was given before, decompressing ends: it returns a dictionary of text fields or raises an exception that its caller can report, never loops, kills the process or exhausts its memory, and goes on to do so for the frames that follow. Only the instance that read the frame is affected: other instances of the codec, then or later, encode and decode as if it had never happened.",
 ["inputs", "histories", "faults"], "for every byte string given to a decoder in every state, for each codec that decompresses (http1, http2, headerdiff, delta, delta2, simple, hyper_hpack)",
 "Existing tests only decode what an encoder has just made; the property quantifies over arbitrary bytes in every decoder state.",
 ["compressor/__init__.py", "compressor/http1/__init__.py", "compressor/http2/http2Codec.py", "compressor/headerdiff/headerDiffCodec.py", "compressor/headerdiff/Huffman.py", "compressor/delta/spdy4_codec_impl.py", "compressor/delta2/spdy4_codec_impl.py", "compressor/simple/__init__.py", "compressor/simple/seven.py"],
 [("decoding", "compressor/*/__init__.py Processor.decompress"), ("bit and byte readers", "compressor/http2/http2Codec.py read_next_byte; compressor/delta*/bit_bucket.py GetBits; compressor/headerdiff/headerDiffCodec.py readNextByte")])

prop("P01", "Bit buckets are exact bit queues",
 "A Python bit bucket behaves as a queue of bits: any sequence of storing bits or bytes, reading, skipping to a byte boundary, padding and clearing returns exactly the stored bits in order, reports the exact number of bits stored and remaining, and refuses to read more than is stored.",
 ["histories", "inputs"], "for every operation sequence and every bit offset, in each codec's copy",
 "Existing tests store a few fixed patterns; the property quantifies over every interleaving of offsets and lengths.",
 ["compressor/delta/bit_bucket.py", "compressor/delta2/bit_bucket.py", "compressor/bohe/bit_bucket.py", "compressor/delta_bohe/bit_bucket.py", "compressor/delta2_bohe/bit_bucket.py"],
 [("store and read", "compressor/*/bit_bucket.py")])

prop("P02", "Canonical Huffman coding is optimal, prefix-free and lossless",
 "For every frequency table the constructed code is a complete prefix code of minimum total length in canonical order, independent of anything but the table; encoding any text with an end marker and decoding it returns the text, whatever follows it in the bit stream.",
 ["inputs"], "for every frequency table and every text, in each codec's copy",
 "Existing tests use two fixed tables and a few strings; the property quantifies over every table and text.",
 ["compressor/delta/huffman.py", "compressor/delta2/huffman.py", "compressor/bohe/huffman.py", "compressor/delta_bohe/huffman.py", "compressor/delta2_bohe/huffman.py"],
 [("tree building and canonicalisation", "compressor/*/huffman.py")])

prop("P03", "The C++ bit bucket is an exact, memory-safe bit queue",
 "The C++ bit bucket behaves as a queue of bits for any sequence of its store, read, peek, seek and clear operations at any bit offset: what is read is what was stored (byte-aligned stores first pad with zeros and keep the machine's byte order; peeking past the end sees zeros), sizes and positions are exact, reading past the last bit is refused, and no operation reads or writes out of bounds.",
 ["histories", "inputs"], "for every operation sequence and offset, in both copies",
 "Existing tests store a few fixed patterns; the property quantifies over every interleaving of offsets and lengths.",
 ["compressor/delta/bit_bucket.h", "compressor/delta_bohe/bit_bucket.h"], [("store and read", "compressor/delta/bit_bucket.h")])

prop("P04", "C++ Huffman coding is optimal, canonical, lossless and memory-safe",
 "For every frequency table, also one given to a coder used before, the C++ coder makes a complete canonical prefix code of at most 32 bits per word, of minimum total length when no word needs to be cut; a text is encoded as its concatenated code words, at any bit offset, and decoding it, ended by the end marker, a bit count or both, returns the text whatever follows; no bits, however arbitrary, make it read or write out of bounds.",
 ["inputs"], "for every frequency table and every text, end-marker and length-limited decoding, in both copies",
 "Existing tests use fixed tables and strings; the property quantifies over all.",
 ["compressor/delta/huffman.h", "compressor/delta_bohe/huffman.h", "compressor/delta/huffman.py"],
 [("coder", "compressor/delta/huffman.h"), ("frequency tables", "compressor/delta/header_freq_tables.cc")])

prop("P05", "The integer and string packing of the delta codecs is lossless",
 "Every integer and string of the documented parameters that the delta codecs' packing routines pack is recovered by the matching unpacking routine, which consumes exactly the bits that were produced, at any bit offset and in any sequence.",
 ["inputs", "histories"], "for every value, width, prefix and sequence of packed items",
 "No existing test covers packing; the property quantifies over all values, boundaries included.",
 ["compressor/delta/spdy4_codec_impl.py", "compressor/delta2/spdy4_codec_impl.py"],
 [("packing", "compressor/delta2/spdy4_codec_impl.py PackInt, PackVarInt, PackStr and the Unpack counterparts")])

prop("P06", "LRU storage evicts least-recently used entries and indexes exactly",
 "For any sequence of insertions, touches, reservations, removals and lookups, the header storages of delta, delta2 and delta2_bohe hold exactly the most recently used entries that fit the byte and entry limits (a string that several entries share counts once), refuse what can never fit, find an entry by name and value if and only if they hold one, and return by index exactly the entry stored under it, across sequence-number wrap-around.",
 ["histories"], "for every operation sequence, size limit and wrap position",
 "Existing tests replay two fixed sequences; the property quantifies over every operation history.",
 ["compressor/delta2/lrustorage.py", "compressor/delta2_bohe/lrustorage.py", "compressor/delta/spdy4_codec_impl.py"],
 [("ring", "compressor/delta2/lrustorage.py"), ("linked LRU", "compressor/delta/spdy4_codec_impl.py")])

prop("P07", "Identifier allocation never hands out an identifier in use",
 "For any sequence of allocating and releasing, an identifier store hands out numbers of its range only, released ones before fresh ones and none twice before the range is through; the storage's search for an unused identifier on top of it never returns one in use and only fails when all of the range are.",
 ["histories"], "for every allocate/release sequence and range, in each codec's copy",
 "No existing test covers it; the property quantifies over every history.",
 ["compressor/delta/common_utils.py", "compressor/delta2/common_utils.py", "compressor/bohe/common_utils.py", "compressor/delta_bohe/common_utils.py", "compressor/delta2_bohe/common_utils.py"],
 [("allocator", "compressor/*/common_utils.py IDStore")])

prop("P08", "The C++ header codec keeps state bounded, frames readable and memory safe",
 "For any sequence of header sets, header groups and any state-size and entry-count limits set at any time, the C++ header codec never reads or writes out of bounds and its frames are well-formed sequences of its operations. A peer that reads them (toggles and toggle ranges of stored entries, clones of stored names, literals) ends with exactly the header set compressed (cookies in crumbs), no stored field being sent literally, and with the same state size; when a limit is reached entries leave least recently used first, and no more state is kept than the limit or, if greater, the built-in entries plus the current frame's fields.",
 ["histories", "inputs", "configurations"], "for every header-set sequence and limit setting",
 "No existing test runs the C++ codec; the property quantifies over every history.",
 ["compressor/delta/spdy4_headers_codec.cc", "compressor/delta/spdy4_headers_codec.h", "compressor/delta_bohe/spdy4_headers_codec.cc"],
 [("storage", "compressor/delta/spdy4_headers_codec.cc Storage"), ("frame output", "compressor/delta/spdy4_headers_codec.cc ProcessFrame, SerializeInstructions")])

prop("P09", "The C++ HTTP text parser reads back every well-formed header block",
 "Parsing a text of blank-line separated blocks of 'name: value' lines, requests and responses in turn, from a stream or a file, yields every block's fields in order; a text with a malformed line is reported as such; and no text, however malformed, makes it read out of bounds or fail to stop.",
 ["inputs"], "for every text",
 "No existing test runs it; the property quantifies over every text.",
 ["compressor/delta/trivial_http_parse.h", "compressor/delta_bohe/trivial_http_parse.h"],
 [("parser", "compressor/delta/trivial_http_parse.h")])

prop("P10", "The word-frequency trainer counts exactly what was sent",
 "After observing any set of literal headers, the frequency table the trainer reports holds, for every symbol, exactly the number of times it occurred, with the end marker counted once per string, sorted and complete.",
 ["inputs", "histories"], "for every sequence of observed strings",
 "No existing test covers it.",
 ["compressor/delta/word_freak.py", "compressor/delta2/word_freak.py", "compressor/delta_bohe/word_freak.py"],
 [("counter", "compressor/*/word_freak.py")])

prop("P11", "Debugging dumps show exactly what they are given",
 "The helpers that show bit strings, code tables, operations, symbols and bytes for people show each bit, code word, field and byte exactly, in order, and so that "
 "no two different contents look alike where escapes are used; tracing (-v 5) shows the operations and bytes of the frame that is emitted, and does not change it.",
 ["inputs", "histories"], "for every bit string, frequency table, operation, byte string, and history of messages traced",
 "The existing tests print through some of these helpers without looking at the text. The property quantifies over every content.",
 ["compressor/*/common_utils.py", "compressor/*/huffman.py", "compressor/*/spdy4_codec_impl.py", "compressor/*/utils.cc", "compressor/*/huffman.h", "compressor/*/bit_bucket.h"],
 [("bit strings", "FormatAsBits (Python, C++), BitBucket.__repr__, DebugStr, MakeReadableString"), ("code tables", "FormatCodeTable, operator<< of the C++ coder, ReadableUShort"),
  ("operations", "FormatOp, FormatOps"), ("tracing", "compressor/delta2/spdy4_codec_impl.py SerializeInstructions, FormatHex")])

prop("P12", "The C++ benchmark frames, measures and reports what it was given",
 "The C++ sample program reads every header set the HAR translator prints, turns each into a SPDY/3 frame that any SPDY/3 receiver reads back to the same fields (one "
 "compression context over all frames), and reports per protocol the iterations, bytes, seconds, rates and ratio that running those header sets through its codecs takes.",
 ["inputs", "histories"], "for every list of header sets of any bytes and size, every clock history, and every text from the translator",
 "No existing test runs the program. The property quantifies over header contents and sizes (incompressible ones too), clock readings and text lengths.",
 ["compressor/delta/spdy4_headers_sample.cc", "compressor/delta_bohe/spdy4_headers_sample.cc"],
 [("framing", "SPDY3Formatter"), ("measuring", "SimpleTimer, DoSPDY3CoDec, DoSPDY4CoDec"), ("reading and reporting", "ParseHarFiles, PrintSummary, main")])

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")

if __name__ == "__main__":
    main()
