#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "packages/optivorbis/src/vorbis/"
O = V + "optimizer/"
R = "packages/optivorbis/src/remuxer/ogg_to_ogg/"
W = "web/src/ts/"
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, level, note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append(dict(
        p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a),
        c=dict(property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough", technique=technique, level=level, level_note=note)))

BOUND = "Exhaustive within the spaces and deviation bounds that DESIGN.md and the evidence file state; nothing is said about data outside their alphabets. Trusts the independent Ogg/Vorbis model of /verif/mc/src, which was written from the specifications, and the installed rustc."
SAMPLES = "The existing tests decode ten small files made by two encoders"

prop("C01", "Audio data survives optimization without any loss",
 "For every valid Ogg Vorbis stream, every audio packet of the output decodes, with the setup header of the output, to exactly the same mode, window flags, floor values, residue vectors and hence PCM samples as the corresponding packet of the input does with the input setup header. This includes packets whose last codeword ends in the last bit, codebooks with a single used entry, and any valid combination of floors, residue types, channel couplings and cascades. No valid stream is rejected, unless it uses floors of type 0, which are documented as not supported.",
 ["inputs"], "for every stream that conforms to the Vorbis I specification: every setup header and every sequence of symbols in audio packets that it allows",
 SAMPLES + ", which exercise a handful of setup headers, only floor type 1, residue types 1 and 2, and none of the unusual codebooks; the claim is over every setup header and symbol sequence.",
 [O + "audio_packet_common.rs", O + "audio_packet_analyze.rs", O + "audio_packet_rewrite.rs", V + "codebook/mod.rs", V + "codebook/huffman_tree.rs", "packages/optivorbis/src/vorbis.rs"],
 [("same packet walk for analysis and rewriting", O + "audio_packet_common.rs"), ("use counts of entries", O + "audio_packet_analyze.rs"), ("translation of entries to new codewords", O + "audio_packet_rewrite.rs"), ("codeword assignment and decoding", V + "codebook/huffman_tree.rs")],
 "bounded exhaustive exploration of streams against a reference decoder", "exploration",
 BOUND + " The reference decoder compares symbols, floors and residues; lewton (an unrelated decoder) compares PCM samples over part of the spaces.")
prop("C02", "The setup and identification headers keep their meaning and conform",
 "The identification header and the setup header of the output describe the same decoder configuration as those of the input: same channels, rate, block sizes and bitrates, and same codebook dimensions, entries and vector values, floors, residues, mappings and modes in the same order. Only codeword lengths, and the encoding of the header, may change. The headers of the output conform to the Vorbis I specification even where those of the input deviate from it in a tolerated way.",
 ["inputs"], "for every valid identification and setup header, with every field at its boundary values and every pair (triple, in the thorough tier) of fields away from its default",
 SAMPLES + " whose setup headers come from one family of encoders; they can't reach fields at their boundaries, vector values that are not in those encoders' tables, or combinations of fields.",
 [O + "setup_header_parse.rs", O + "setup_header_rewrite.rs", O + "identification_header_copy.rs", V + "codebook/mod.rs", "packages/vorbis_bitpack/src/lib.rs"],
 [("setup header parser", O + "setup_header_parse.rs"), ("setup header writer", O + "setup_header_rewrite.rs"), ("identification header writer", O + "identification_header_copy.rs"), ("float packing", "packages/vorbis_bitpack/src/lib.rs"), ("lookup type 1 value count", V + "codebook/mod.rs")],
 "deviation-bounded exhaustive exploration of header fields against an independent parser", "exploration", BOUND)
prop("C03", "Codewords are optimal, complete, and at most 32 bits long",
 "In the output, the codeword lengths of every codebook form a complete prefix code over exactly the entries that the audio packets of the stream use (or the single one-bit codeword that the specification allows for a codebook with only one used entry), no codeword is longer than 32 bits, and the total number of bits that the codebook takes in the audio packets is the least that any such prefix code can achieve. Therefore the audio packets of a stream never take more bits in total than they did.",
 ["inputs"], "for every vector of entry use counts, including unused codebooks, codebooks with one used entry, ties, and counts that grow like Fibonacci numbers",
 SAMPLES + "; optimality has to be compared with an independent computation of the minimum for every count vector, and the 32-bit limit needs count vectors no small file has.",
 [V + "codebook/huffman_codeword_lengths.rs", V + "codebook/huffman_tree.rs", V + "codebook/mod.rs", O + "setup_header_rewrite.rs", O + "audio_packet_analyze.rs"],
 [("optimal codeword lengths", V + "codebook/huffman_codeword_lengths.rs"), ("entry use counts", O + "audio_packet_analyze.rs"), ("codeword length encoding", O + "setup_header_rewrite.rs")],
 "exhaustive enumeration of entry use counts against an independent Huffman cost", "exploration", BOUND,
 [("entry frequencies", "how many times each codebook entry is used by the stream", O + "audio_packet_analyze.rs")])
prop("C04", "Bitpacked integers, flags and floats are read and written as specified",
 "Any sequence of writes of unsigned and signed integers, flags, and floats to a bitpacker yields the bits that the Vorbis I bitpacking convention prescribes, least significant bit first, whatever bits the values have above their width, and finishing a packet pads it with zero bits and leaves nothing behind for the next one. Reading those bits back with the same widths gives the same values, and reading past the last bit is reported as the end of the packet. Both hold alike with and without the standard library.",
 ["inputs", "histories"], "for every state of the writer and reader (the bits pending in the current byte) and every operation and width from there, with values at boundaries",
 "The existing tests write and read a few fixed sequences of values of widths that suit them; the claim is over every width, alignment and following operation, and both builds of the library.",
 ["packages/vorbis_bitpack/src/lib.rs"],
 [("bitpack writer", "packages/vorbis_bitpack/src/lib.rs"), ("bitpack reader", "packages/vorbis_bitpack/src/lib.rs")],
 "explicit-state exploration of reader and writer states against a vector of bits", "model_checking",
 "Every (pending bits, operation, width) transition of reader and writer is driven on the real code and compared with a vector of bits; values are boundary and walking-bit patterns, all values for small widths. " + BOUND,
 [("pending bits", "bits of the current byte already written or read", "packages/vorbis_bitpack/src/lib.rs")])
prop("C05", "The output is a well-formed and compact Ogg Vorbis physical bitstream",
 "Every page of the output has a valid checksum, consecutive sequence numbers from zero, the beginning-of-stream flag on exactly the first page of a logical stream and the end-of-stream flag on exactly the last one, even if the input lacks them. The identification header is alone in the first page, the last header ends its page, audio starts on a fresh page, and every audio page but the last one is filled to its 255 segments. Header pages have granule position zero, and pages that end no packet have granule position minus one.",
 ["inputs"], "for every sequence of packet sizes, with emphasis on those around lacing (255 bytes) and page (255 segments) boundaries, and every paging of the input",
 SAMPLES + ", which hardly fill two pages; lacing and page boundaries depend on exact packet sizes.",
 [R + "mod.rs"], [("page end policy", R + "mod.rs"), ("page writer", R + "mod.rs")],
 "bounded exhaustive exploration of packet sizes and page layouts against a page validator", "exploration", BOUND)
prop("C06", "Granule positions count decoded samples, start offset and end trimming",
 "The granule position of every audio page of the output, starting at the one that holds the last packet of the first audio page of the input, is the start offset of the input stream (unless it is to be ignored) plus the number of samples that a decoder returns up to the last packet that ends in the page. That of the last page of a stream of several audio packets equals the original one, less an ignored offset, if that decodes at least one sample of the last packet and no more than all of them; otherwise it counts all of them, so positions that are damaged in the input are repaired. Discarded packets count for nothing.",
 ["inputs", "configurations"], "for every sequence of block sizes, page breaks and granule positions of the input (calculated modulo 2^64, up to the limits of 64-bit integers), with and without ignoring start offsets",
 SAMPLES + "; none has a negative start offset, damaged positions or discarded packets around page ends, whose combinations the claim is about.",
 [R + "granulator.rs", R + "mod.rs"], [("granule position calculation", R + "granulator.rs"), ("first audio page detection", R + "mod.rs")],
 "exhaustive exploration of a granule position model, every trace replayed on the implementation", "model_checking", BOUND + " Streams whose only audio page is also their last one have an ambiguous start offset, which is taken as end trimming, as the code does.",
 [("start offset", "difference of the first granule position and the samples decoded until there", R + "granulator.rs"), ("last granule position and block size", "position after the last written packet", R + "granulator.rs")])
prop("C07", "No input makes the optimizer panic or hang",
 "Whatever bytes the input has, optimizing it ends, in time roughly proportional to its size and to the codebook sizes it declares, with either a success or an error; it never panics, overflows, or aborts, whatever it logs. This holds for every part of it: page framing, header packets, codebooks, and audio packets.",
 ["inputs"], "for every byte sequence: every single-byte edit, truncation, bit flip, page edit and boundary field value of a set of streams, short packets exhaustively, codebooks of extreme size, and files with many of anything that there may be many of",
 "The fuzzers of the repository sample, and the tests only have valid files; the claim is over every byte sequence.",
 [O + "setup_header_parse.rs", O + "audio_packet_common.rs", V + "codebook/mod.rs", V + "codebook/huffman_tree.rs", O + "comment_header_parse.rs", V + "optimizer.rs", R + "mod.rs"],
 [("bounds checked reads", "packages/vorbis_bitpack/src/lib.rs"), ("header field validation", O + "setup_header_parse.rs"), ("Huffman tree construction", V + "codebook/huffman_tree.rs")],
 "exhaustive enumeration of edits of streams with a watchdog", "exploration", "Built with overflow checks and unwinding panics. " + BOUND)
prop("C08", "Streams with tolerated deviations are accepted and repaired",
 "Deviations that decoders cope with do not make optimization fail and are absent from the output: an unset or missing framing bit or trailing data in the identification and comment headers, a comment header that ends early, streams that lack an end-of-stream flag or do not start audio on a fresh page, and empty or cut audio packets. Neither do junk before, between and after pages, wrong page sequence numbers, or a last packet or page header that is cut short, which are ignored. Whatever could be read is kept.",
 ["inputs"], "for every combination of up to two (three, in the thorough tier) of the tolerated deviations in every place where it may show up, and junk of several kinds and sizes at every page boundary",
 "There are single examples of two repairs among the tests; combinations and places are not covered.",
 [O + "comment_header_parse.rs", O + "comment_header_copy.rs", O + "identification_header_copy.rs", V + "optimizer.rs", R + "mod.rs", O + "setup_header_parse.rs"],
 [("lenient comment header parsing", O + "comment_header_parse.rs"), ("identification header rewriting", O + "identification_header_copy.rs"), ("end of stream by packet count", R + "mod.rs")],
 "deviation-bounded exhaustive exploration against a lenient reference model", "exploration", BOUND)
prop("C09", "Comments and the vendor string are treated as configured",
 "The comment header of the output holds the user comments of the input, byte for byte and in order, or none if they are to be deleted. Its vendor string is the original one, empty, the version tag, or the original one followed by the full or short tag, as configured; a vendor string that already ends with a separator and either tag gets no other one. A comment header that ends early yields what could be read of it, with an empty vendor string if that could not be read, and the output header always conforms.",
 ["inputs", "configurations"], "for every vendor action, field action, and comment header: number, size and bytes of comments, previous tags, truncations and length fields with boundary values",
 "The tests compare the comments of one file under one configuration.",
 [O + "comment_header_parse.rs", O + "comment_header_copy.rs", "packages/optivorbis/src/vorbis/optimizer.rs"],
 [("vendor string actions", O + "comment_header_parse.rs"), ("comment header writer", O + "comment_header_copy.rs")],
 "deviation-bounded exhaustive exploration against a model of the comment header", "exploration", BOUND)
prop("C10", "Output packets correspond one to one to the input packets worth keeping",
 "The output has the packets of the input in the same order and number, except for audio packets that are empty or end before their mode and window flags were read, which are discarded wherever they are. Nothing is duplicated, merged or split, and no audio packet of the output carries a whole unused byte at its end, even if that of the input does.",
 ["inputs"], "for every sequence of packets to keep and packets to discard up to a length, every audio packet of up to two bytes (three, in the thorough tier), and every one-byte edit of a packet",
 SAMPLES + ", one of which has a single empty packet at its end.",
 [V + "optimizer.rs", O + "audio_packet_common.rs", O + "audio_packet_analyze.rs", O + "audio_packet_rewrite.rs", R + "mod.rs"],
 [("discarding of packets", O + "audio_packet_common.rs"), ("packet counting in both passes", R + "mod.rs")],
 "exhaustive enumeration of packet sequences against a reference model", "exploration", BOUND)
prop("C11", "Vorbis streams are picked out of chains; grouped Vorbis streams are rejected",
 "Every logical Vorbis stream of a chained physical stream is optimized on its own and written once, in the order of the input, as a contiguous stream; logical streams of other formats are left out, whether they are chained to the Vorbis streams or grouped with them. Vorbis streams that are grouped with each other are rejected, and so are inputs without Vorbis streams, unless an empty output is asked for.",
 ["inputs", "configurations"], "for every arrangement of up to three logical streams, Vorbis or not, in sequence or interleaved, with and without stream flags, packets or matching serials",
 "There is one chained file, one grouped with a skeleton stream and one without Vorbis among the tests.",
 [R + "mod.rs"], [("stream table by serial", R + "mod.rs"), ("multiplexing detection", R + "mod.rs")],
 "deviation-bounded exhaustive exploration of stream arrangements", "exploration", BOUND,
 [("reading Vorbis stream", "whether a Vorbis stream is open in the first pass", R + "mod.rs")])
prop("C12", "Stream serials are sequential, random, or reproducible, as configured",
 "Without randomization, the streams of the output get the configured serial and the ones that follow it, wrapping around. With it, serials within an output are distinct and operations get different serials, unless SOURCE_DATE_EPOCH is set (and the feature that honors it is on, which is the default): then the serials of a process depend only on its value and on the inputs it processed, and a value that is not an integer is an error that leaves the output untouched. The configured offset is added to random serials. All of this is so whatever the random numbers of the system are, and even if it has none.",
 ["inputs", "configurations", "histories"], "for every sequence of up to three inputs in a process, boundary values of the offset, valid, invalid and boundary values of SOURCE_DATE_EPOCH, and for every value of each random byte that the system gives, or failure to give any",
 "The tests optimize one file at a time with a fixed configuration, in one process, and compare no serials between processes.",
 [R + "mod.rs"], [("random serial and increment", R + "mod.rs"), ("process-wide random generator", R + "mod.rs")],
 "exhaustive enumeration of process histories, environments and random numbers, in child processes", "exploration", "With the system's own random numbers, serials are only checked for being distinct and different; the exhaustive part replaces that source. " + BOUND,
 [("generator state", "seeded once per process", R + "mod.rs")])
prop("C13", "An optimizer instance keeps nothing from one operation to the next",
 "The outcome of an optimization depends only on its input and settings: the same instance can be used any number of times, after successes, rejected inputs, and read or write errors alike, and gives the same output, or error, that a fresh instance gives. Reading starts at the position at which the source is.",
 ["histories"], "for every sequence of up to three (four, in the thorough tier) operations from an alphabet of valid, invalid and failing ones",
 "Every existing test makes a new instance and uses it once.",
 [R + "mod.rs", V + "optimizer.rs", V + "codebook/mod.rs"], [("per-operation stream state", R + "mod.rs"), ("rewind to initial position", R + "mod.rs")],
 "exhaustive exploration of operation histories, compared with a fresh instance", "model_checking", "Each history is run on the real code, a state being the history; outputs are compared byte for byte, with sequential serials. " + BOUND,
 [("instance settings", "borrowed mutably by an operation", R + "mod.rs")])
prop("C14", "Damaged pages are always detected, unless checksums are ignored",
 "With checksum verification, an input with any page whose header or body does not match its checksum is rejected, and nothing is written. Without it, such a checksum has no effect at all: the output is the same as that for the same input with its checksums corrected. The output always has right checksums.",
 ["inputs", "fault_sequences"], "for every single bit flip and every byte edit of a set of streams, and every page with a wrong checksum",
 "There is a single file with a wrong checksum among the tests.",
 [R + "mod.rs"], [("page parsing options", R + "mod.rs")],
 "exhaustive enumeration of corruptions of pages", "fault_enumeration", BOUND)
prop("C15", "Optimizing an optimized stream changes nothing",
 "Optimizing the output once more, with the same settings and with sequential serials, succeeds and gives the very same bytes. The only exceptions are the granule position of a stream whose audio fits in one page, a vendor tag that is added to a vendor string which was missing, and streams with packets that end early.",
 ["inputs"], "for every stream of the spaces of the other properties",
 "No existing test optimizes an output.",
 [R + "mod.rs", R + "granulator.rs", O + "setup_header_rewrite.rs", O + "audio_packet_rewrite.rs", V + "codebook/huffman_codeword_lengths.rs"],
 [("deterministic codeword lengths", V + "codebook/huffman_codeword_lengths.rs"), ("tag detection", O + "comment_header_parse.rs")],
 "exhaustive exploration of streams, with a second optimization as the oracle", "exploration", BOUND)
prop("C16", "I/O errors and short reads or writes never corrupt a result silently",
 "If reading, seeking or writing fails at any point, the operation returns that error; it never reports a success after it. Short reads and writes, and interrupted operations, change nothing in the outcome. No byte is written until the whole input has been read and validated, and what was written when an error happens is a prefix of the output of the undisturbed operation.",
 ["fault_sequences", "inputs"], "for every single fault (every pair, in the thorough tier) of every kind at every operation on the source and the sink",
 "No existing test has a source or sink that fails or returns less than asked for.",
 [R + "mod.rs", "packages/optivorbis/src/remuxer.rs"], [("two passes over the source", R + "mod.rs"), ("error conversion", R + "mod.rs")],
 "exhaustive fault enumeration at every I/O operation", "fault_enumeration", BOUND)
prop("C17", "The command line tool does what the library does and reports failures",
 "For every valid command line, the tool writes to the output file or to the standard output exactly what the library gives for the equivalent settings, with a successful exit status. For every other one, and whenever reading, optimizing or writing fails, it exits with status 1 and a message on the standard error output, and optimization failures leave no audio data. Standard output has nothing but the audio data if it is the output, and the quiet option silences everything but errors.",
 ["configurations", "inputs"], "for every combination of up to two (three, in the thorough tier) departures from the default arguments, inputs and kinds of output",
 "The command line tool has no tests.",
 ["packages/optivorbis_cli/src/bin/optivorbis.rs"], [("argument parsing and dispatch", "packages/optivorbis_cli/src/bin/optivorbis.rs")],
 "deviation-bounded exhaustive exploration of command lines, compared with the library", "exploration", "Runs the real program, with files in a scratch directory. " + BOUND)
prop("C18", "The packet-level interface enforces its protocol",
 "The packet-level optimizer accepts packets in the order of a Vorbis stream only: in analysis the headers come first, and any packet that is not what comes next is rejected with an error, after which the analysis may go on as if it had not been passed. The rewriting stage yields for each packet that was analyzed the optimized packet, or none for discarded ones, and the block size that the analysis reported, which agree with those of the whole-file interface whatever prefix of a stream was analyzed.",
 ["histories"], "for every sequence of calls up to a depth over an alphabet of good, damaged, repeated and out of order packets",
 "The existing tests only go through whole files.",
 [V + "optimizer.rs", "packages/optivorbis/src/vorbis.rs"], [("state machine of the optimizer", "packages/optivorbis/src/vorbis/optimizer.rs")],
 "exhaustive exploration of call sequences against a protocol model", "model_checking", BOUND,
 [("optimizer state", "which header or audio packet comes next", "packages/optivorbis/src/vorbis/optimizer.rs")])
prop("C19", "Manglers decide exactly the values they are asked about",
 "A mangler is called with the values that would be written otherwise, once per packet and in order, with right packet numbers and last-packet and header flags, and what it returns is what is written: serials, granule positions, page ends, sampling frequency and bitrates. A mangler that returns its arguments changes nothing, and nothing else in the output depends on it.",
 ["programs", "inputs"], "for every mangler that changes up to two (three, in the thorough tier) values at chosen packets, over a set of inputs",
 "The only mangler in the tests is the one that changes nothing.",
 [R + "ogg_vorbis_stream_mangler.rs", R + "mod.rs"], [("mangler calls", R + "mod.rs")],
 "deviation-bounded exhaustive exploration of manglers, compared with an independent page writer", "exploration", BOUND)
prop("C20", "Audio packets that end early are kept as short as they are",
 "An audio packet that ends while its floor or residue data is read, which decoders have to accept, decodes in the output to the same values as in the input up to the point where it ended, and no data is made up for the rest of it. It is neither rejected nor discarded.",
 ["inputs"], "for every audio packet of a set of streams cut at every byte, every packet of up to two bytes (three, in the thorough tier), and every edit of a byte",
 "No existing test has a packet that is cut in its middle.",
 [O + "audio_packet_common.rs", O + "audio_packet_analyze.rs", O + "audio_packet_rewrite.rs"], [("end of packet handling", O + "audio_packet_common.rs")],
 "exhaustive enumeration of cuts of packets against a reference decoder", "exploration", BOUND + " Has a known finding.")
prop("C21", "Invalid streams are rejected with an error, before anything is written",
 "Streams that violate the specification in a way that makes decoding impossible or ambiguous are rejected with an error of the right kind: oversubscribed or underspecified codebooks, references to codebooks, floors, residues, mappings, modes or channels that do not exist, reserved types, invalid block sizes or versions, headers out of order or cut short, and audio packets that are no audio packets. So are pages that are cut short, of an unknown version, of a stream that did not begin or began twice, or that continue a packet, or not, unlike the page before. Nothing reaches the output then.",
 ["inputs"], "for every header with up to two (three, in the thorough tier) fields away from their defaults, every codeword length assignment of small codebooks, every bit flip of a set of packets, and every edit of a byte, or of up to two (three) pages, of a set of physical streams",
 "The existing tests have no invalid header at all.",
 [O + "setup_header_parse.rs", V + "codebook/huffman_tree.rs", V + "codebook/mod.rs", "packages/optivorbis/src/vorbis.rs", O + "identification_header_copy.rs", "packages/optivorbis/src/vorbis/optimizer.rs"],
 [("header validation", O + "setup_header_parse.rs"), ("Huffman tree validation", V + "codebook/huffman_tree.rs"), ("first pass analyzes everything", R + "mod.rs")],
 "deviation-bounded exhaustive exploration of headers against a validating parser", "exploration", BOUND)

prop("C22", "Concurrent operations behave as if run one after the other",
 "When several threads optimize at the same time, each with an instance of its own, every operation gives the output or error that it would give in some order of the operations one after the other, including serials derived from SOURCE_DATE_EPOCH, which are drawn once per operation. No schedule makes operations panic or wait for each other forever.",
 ["schedules"], "for every schedule with up to four preemptions of two operations (three of three operations) at accesses to static atomic variables (in the thorough tier, up to three and two at accesses to any), and with up to two and one (three and two) at calls of source, sink, mangler and log",
 "No existing test runs operations in several threads on purpose, and a test can't choose the schedule.",
 [R + "mod.rs"], [("process-wide random generator behind a lock", R + "mod.rs"), ("no other shared state", R + "mod.rs")],
 "preemption-bounded exhaustive exploration of schedules of the real code", "model_checking",
 "Each schedule runs in a process of its own under a cooperative scheduler; atomic operations are scheduling points by means of compiler instrumentation. The code forbids unsafe, so there are no data races, and interleavings at atomic operations are all that there are, for sequentially consistent memory. " + BOUND,
 [("generator state", "seeded once per process by the first operation", R + "mod.rs")])
prop("C23", "Memory use is bounded by what a file contains",
 "The memory in use while a file is optimized is bounded by the sizes of its biggest packet, its headers, the codebook entries they declare and its residue vectors, whatever other counts the headers claim and however many packets and pages there are. The memory requested in all is linear in what is read, nothing is kept afterwards, and the source is read from its beginning to its end at most twice.",
 ["inputs"], "for every field-sized run of bits of the headers of a set of streams set to extremes and cut after it, every bit flip and byte edit of a set of streams, long streams of up to 10000 packets (100000, in the thorough tier) and headers with the most of everything",
 "The existing tests do not measure memory, and no file in them lies about sizes.",
 [O + "setup_header_parse.rs", O + "comment_header_parse.rs", V + "codebook/mod.rs", R + "mod.rs"],
 [("parsing of counted lists", O + "setup_header_parse.rs"), ("packets are written as soon as they are optimized", R + "mod.rs")],
 "exhaustive enumeration of streams, run under a counting allocator against a bound computed from the stream", "exploration",
 "The bound has a margin of four over what the code needs now. " + BOUND)

prop("C24", "Default settings and the WebAssembly interface act as documented",
 "Leaving every setting at its default gives what the documented defaults give when they are spelled out: the vendor string gets the tag appended, comments and the start offset are kept, serials are random without an offset, checksums are verified, and inputs without Vorbis streams are rejected. The WebAssembly interface returns for every input exactly what the library writes with the default settings, serials aside, or its error message, no matter how often the same object was used before.",
 ["inputs", "histories"], "for every input of a set of spaces of valid, damaged and foreign streams, one after the other on the same object and each on an object of its own, natively and in WebAssembly",
 "The tests set most options themselves, and do not build the WebAssembly interface.",
 ["packages/optivorbis/src/wasm_bindings.rs", "packages/optivorbis/src/remuxer.rs", R + "mod.rs", O[:-1] + ".rs"],
 [("WebAssembly interface", "packages/optivorbis/src/wasm_bindings.rs"), ("default remuxer settings", R + "mod.rs"), ("default optimizer settings", O[:-1] + ".rs")],
 "bounded exhaustive exploration of streams, comparing three interfaces", "exploration",
 "The interface is compiled for the machine that runs the check and, where the installed toolchains allow, for WebAssembly: the glue that wasm-bindgen makes for JavaScript is not run. " + BOUND)
prop("C25", "The web page offers each chosen file's optimized data under its name",
 "Whatever the user does and whenever the worker answers or fails, the page shows the file selector, the progress text or the result, and nothing else: progress exactly while the one file that was last chosen or dropped is being processed, which is done once, and the result exactly when that succeeded and until the user goes back. The result that is played and downloaded is that file optimized by the WebAssembly interface, as audio/ogg, under that file's name; results that are not shown are not kept or played. Errors are shown in the modal dialog, dropping anything but Ogg files is refused, and a file can be chosen any number of times in a row.",
 ["schedules", "histories", "inputs"], "for every sequence of clicks, choices, drags, drops, and answers, crashes and undecodable answers of the worker, with files that can be optimized, that cannot, that cannot be read, and that are no Ogg files",
 "The web page has no tests.",
 [W + "main.ts", W + "input_file_handler.ts", W + "input_file_drop_zone.ts", W + "output_file_section.ts", W + "file_error_modal.ts", W + "optivorbis_worker.ts", "web/src/index.html"],
 [("worker messages to page state", W + "input_file_handler.ts"), ("drag and drop", W + "input_file_drop_zone.ts"), ("download and going back", W + "output_file_section.ts"), ("optimization in the worker", W + "optivorbis_worker.ts")],
 "explicit-state exploration of the page's scripts in a controlled browser", "model_checking",
 "The browser is a stand-in written for this check (elements, bubbling events, files, drag and drop, object URLs, a worker), so its fidelity is trusted, and only what is visible can be clicked. States are told apart by what is shown, kept and sent; because scripts could remember more, every sequence of coarser events up to a length is run too.",
 [("page state", "visible sections, current object URL, file name, messages to and from the worker", W + "input_file_handler.ts")])

for x in P:
    for f in x["p"]["anchors"]["files"] + [m["where"] for m in x["p"]["anchors"]["mechanism"]]:
        assert os.path.exists("/repo/" + f), (x["p"]["id"], f)
with open(HERE + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x["p"]) + "\n")
m = dict(version=1, setup_cmd="./check.sh setup", checks=[x["c"] for x in P], not_applicable=[],
         notes="No hooks: everything is decided through public interfaces. Known findings and fixes are in known-findings.txt; exit status 2 of check.sh means that something could not be built.")
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
