I, H, S, C, F, G = "inputs", "histories", "schedules", "crash_points", "fault_sequences", "programs"
NA = {}
P = [
("C01", "Identifier text round-trips for every 128-bit identifier",
 "Writing any well-formed identifier as text and parsing that text gives back exactly the same identifier, including its variety and version. A 60-bit word prints as one to ten Base64 digits with no trailing zero digits, and parses back to itself.",
 [I], "all 2^126 identifiers with a valid version, all 60-bit words", "The tests print and parse a dozen literals; the text length and the optional variety/version parts combine in ways they do not visit.",
 ["ron/uuid.hpp", "ron/uuid.cc", "ron/uuid-parser.cc", "ron/const.hpp"], [("Base64 writer", "ron/uuid.cc"), ("identifier grammar", "ron/uuid-parser.cc"), ("digit tables", "ron/uuid.cc")], ["text written for an identifier", "identifier parsed back"]),
("C02", "Parsing an identifier is total and memory safe on any bytes",
 "Constructing an identifier from any byte string of any length terminates, touches only the given bytes, never trips an internal assertion, and yields either an identifier with a valid version or the error value.",
 [I], "every byte string up to the 1 GB frame limit", "Tests parse a few valid literals; the state machine must survive every byte string.",
 ["ron/uuid-parser.cc", "ron/uuid.hpp", "ron/slice.hpp"], [("generated state machine", "ron/uuid-parser.cc"), ("trusty word constructor", "ron/uuid.hpp")], ["the constructor returning"]),
("C03", "Word and identifier order is total and agrees with text order",
 "Words and identifiers are strictly totally ordered, with equality, the six comparison operators and hashing mutually consistent; identifiers order by value, then by origin. The Base64 text of words sorts (as byte strings) exactly as the words do.",
 [I], "all pairs and triples of words and identifiers", "Ordering laws quantify over triples; tests compare a handful of constants.",
 ["ron/uuid.hpp", "ron/uuid.cc"], [("comparison operators", "ron/uuid.hpp"), ("order-preserving digit alphabet", "ron/const.hpp")], ["comparison results", "byte order of texts"]),
("C04", "Database keys are lossless and sort bytewise by form, origin, value",
 "A 16-byte key built from an identifier and a data form gives back the same form and the same identifier (event version), and serialising it to big-endian bytes and back is lossless. The byte order of serialised keys equals the order of keys, which is by form, then origin, then value.",
 [I], "all identifiers, all 256 form codes, all pairs of keys", "The tests store a few keys; prefix scans rely on the byte order for all keys.",
 ["db/key.hpp", "db/key.cc", "ron/form.hpp"], [("bit packing", "db/key.hpp"), ("big-endian codec", "ron/portable_endian.hpp")], ["key bytes", "decoded id and form"]),
("C05", "Form and map code tables are consistent, total and in bounds",
 "Each known data form and each known map has exactly one code and one name; converting code to name and back (and name to code and back) is the identity. An unknown name maps to the designated fallback code, an unknown code maps to the error name, and no 8-bit code makes the lookup read outside its tables.",
 [I], "all 256 codes, all 128-bit names", "The tables are saved on disk and looked up with arbitrary stored bytes; tests look up a few names.",
 ["ron/form.hpp", "db/const.hpp"], [("form registry", "ron/form.hpp"), ("map registry", "db/const.hpp")], ["returned code or name"]),
("C25", "Ranges and slices view exactly the bytes they name",
 "A byte range keeps its two limits through construction, packing into an atom, consuming, shortening, resizing and ending at an offset; a slice's indexing, sub-slicing, cutting off, comparison, copying to a string and hashing touch only the viewed bytes and depend only on them.",
 [I], "all ranges up to 2^30 and all slices of buffers of any length", "Offsets into a frame take any value up to 1 GB; tests use whole short strings.",
 ["ron/slice.hpp"], [("Range", "ron/slice.hpp"), ("Slice", "ron/slice.hpp")], ["returned bytes, sizes and offsets"]),
("C07", "UTF-16 text is lossless and error marked",
 "Appending a Unicode scalar value to a UTF-16 text adds its one unit or its surrogate pair and leaves the rest alone; reading it back gives the value and consumes exactly those units. Reading at any place of any UTF-16 text touches only the given units, consumes one or two, and gives the error value for an unpaired surrogate.",
 [I], "all scalar values, all UTF-16 texts up to 2^30 units", "Tests convert short strings; a wrong surrogate offset or a truncated pair needs a particular codepoint or place.",
 ["ron/encdec.hpp"], [("surrogate codec", "ron/encdec.hpp")], ["units appended", "codepoint read, position"]),
("C09", "Integers round-trip through decimal text; too-big ones are recognised",
 "Writing any 64-bit signed integer as an atom gives its canonical decimal text, which is not rejected as too big and parses back to the same integer. Text with an optional sign and up to 19 digits parses to the integer it denotes, and exactly those integer texts that denote a value outside the 64-bit range (or have over 19 digits) are recognised as too big. The number writers and parsers never overrun their fixed buffers.",
 [I], "all 2^64 integers, all integer texts up to the frame limit, all doubles (buffers)", "The limits of the range and of the buffers are met by a few values out of 2^64.",
 ["ron/text.hpp", "ron/text.cc", "ron/text-builder.cc"], [("integer writer", "ron/text-builder.cc"), ("integer parser and limit test", "ron/text.cc")], ["text written", "atom value parsed"]),
("C18", "Hash texts are exact and partial hashes match by their known bits",
 "Parsing hex or Base64 text of a SHA2 hash, complete or a prefix, gives exactly the bits of the digits and marks exactly those as known; printing gives the digits back. A text with a wrong digit gives an undefined hash. Exactly the 43-digit Base64 texts with zero padding bits are valid. Two hashes, of which any number of bits is known, match exactly when the bits known to both agree; equality compares all bits.",
 [I], "all digit strings of every length up to a full hash, all pairs of hashes and known-bit counts", "Hash comparison over partial bytes depends on the bit count; tests use one or two hashes.",
 ["ron/hash.hpp", "ron/encdec.hpp"], [("bit-string codecs", "ron/encdec.hpp"), ("hash parsing, matching", "ron/hash.hpp")], ["hash bits and known bits", "printed digits", "match result"]),
("C19", "Event timestamps order as the moments they stand for",
 "The timestamp word made from a moment orders as the moments do down to 100 nanoseconds, equal moments give equal words, the fields (months since 2010, day, hour, minute, second, fraction) sit in their own Base64 digits and the word fits in 60 bits.",
 [I], "all pairs of moments from 2010 to 2350", "A field that spills into its neighbour shows only at particular dates.",
 ["ron/uuid.cc"], [("hybrid calendar encoding", "ron/uuid.cc")], ["timestamp words"]),
("C17", "A stack of spans behaves as the plain list of its numbers",
 "Pushing a number onto the span-compressed stack makes it the last element and keeps all the others; only a number following the last one joins its span. Popping removes the last element alone and undoes a push. An iterator denotes its element; incrementing moves to the next element, adding n moves n elements on, across spans, and the end is reached exactly after the last one; skipping a span moves to its end or by the limit.",
 [H], "every reachable stack (any spans, any length up to 2^29), every number below 2^30, every iterator position", "Offsets within spans and span borders combine in ways the few tested stacks do not visit.",
 ["ron/inc_stack.hpp"], [("span stack and iterator", "ron/inc_stack.hpp")], ["elements, size, iterator positions"]),
("C28", "Comparing two frames tells exactly whether they hold the same ops",
 "Two ops compare equal exactly when they have the same id, the same reference, the same number of values and values that are the same in kind and content (in particular a UUID value in both its words and a text in all its bytes); otherwise the status names the first difference: id, reference or value. Frames compare equal only when, comments aside, their ops match one for one, in order, to the end of both.",
 [I], "all ops with any number of values, all pairs of frames of any length", "The suite relies on frame comparison as its own oracle, so a comparison that overlooks a difference hides failures everywhere.",
 ["ron/frames.hpp", "ron/text.hpp"], [("op comparison", "ron/frames.hpp"), ("frame comparison", "ron/frames.hpp")], ["comparison status"]),
("C13", "Merging op streams loses no op, repeats none and keeps the order",
 "Merging any number of op streams (last-write-wins and meta records; the heap of cursors they share) reads every stream that has a current op to its end and writes, for every id met, an op of an input: an op is passed over only when an op of the same id has just been written. When the inputs are sorted, ids are written in strictly ascending order, so each id exactly once; meta records of one id are taken in descending order of reference. Streams without a current op contribute nothing.",
 [I, H], "any number of input streams up to 2^30, of any lengths, any ids and references", "Heap bugs need particular interleavings of several streams; the tests merge two or three short frames.",
 ["rdt/merge.hpp", "rdt/lww.hpp", "rdt/meta.hpp"], [("cursor heap", "rdt/merge.hpp"), ("last-write-wins order", "rdt/lww.hpp"), ("meta record order", "rdt/meta.hpp")], ["ops written to the output, in order", "ops passed over"]),
("C14", "Merging max registers keeps the greatest value",
 "Merging the inputs of a max register writes the root op first (when the first input has it) and exactly one more op: an op of the inputs such that no op of any input is greater; none is written only when no input has a value. Ops order by value: integers and floats as numbers, identifiers as identifiers, kinds apart, ops without a value first; the order is strict and transitive.",
 [I, H], "any number of inputs of any lengths with any ops and values", "The maximum over several inputs depends on the signs, kinds and positions of all values; the tests merge a few small positive integers.",
 ["rdt/max.hpp"], [("value order", "rdt/max.hpp"), ("merge loop", "rdt/max.hpp")], ["ops written to the output"]),
("C24", "Splitting a log into chains loses nothing and cuts only between chains",
 "Splitting an object's log gives consecutive pieces: the first starts at the first op, each starts where the one before it ends, and the last reaches the end of the log or the op given as the cutoff, past which nothing is taken. Within a piece every op refers to the op before it; two pieces are never cut where the next op refers to the last. A syntax error met after the first op is reported.",
 [I, H], "every log of up to 2^30 ops with any ids and references, every cutoff", "Where chains end depends on every pair of neighbouring ops; the one test splits a short trivial log.",
 ["rdt/rdt.hpp"], [("SplitLogIntoChains", "rdt/rdt.hpp")], ["chain cursors: where each starts and ends", "status"]),
 ("C11", "What the text builder writes, the text parser reads back",
 "Ops given to the text builder and read back from the frame by the parser come out as they went in: the same ids, references, values and chunk terminators, in the same number and order, and then the end of the frame. It holds for every identifier (also one whose text reads as a number) as an id, as a reference and as a value, every integer, every char and text (escaped or multibyte), for ops that continue one another and are written as spans, and for an op after any terminator, whatever is elided relative to the op before.",
 [I, H], "every identifier, integer and codepoint; pairs of ops in every relation of ids, references, values and terminators", "Elision, spans and escapes depend on the relation of an op to the one before and on particular letters; tests sample a few dozen texts.",
 ["ron/text.hpp", "ron/text-builder.cc", "ron/text-parser.cc", "ron/text.cc", "ron/cp-parser.cc", "ron/uuid.cc", "ron/encdec.hpp"], [("writer: spec, values, spans, terms", "ron/text.hpp"), ("parser", "ron/text-parser.cc"), ("codepoint parser", "ron/cp-parser.cc")], ["text of the frame", "ops parsed from it"]),
]
