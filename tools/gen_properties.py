#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One place, so that ids, titles and statements stay in step."""
import json, os
R="src/readable.rs"; RD="src/reader.rs"; CB="src/circular_buffer.rs"; W="src/writable.rs"; WR="src/writer.rs"
RI="src/readable_impl.rs"; RU="src/readable_unsized_impl.rs"; WI="src/writable_impl.rs"; D="speedy-derive/src/lib.rs"
V="src/varint.rs"; P="src/private.rs"; E="src/error.rs"; CX="src/context.rs"; EN="src/endianness.rs"
def m(name,where): return {"name":name,"where":where}
props=[]
def prop(id,title,st,over,q,why,files,mech,**kw):
    a={"files":files,"mechanism":mech}; a.update(kw)
    props.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

prop("C01","Stream decoding does not depend on how the bytes are delivered",
 "Decoding a value from a byte stream, buffered or unbuffered, gives exactly the value that the documented format assigns to those bytes, however the stream cuts them into reads and however often a read is interrupted and has to be retried. Two deliveries of the same bytes never decode to different outcomes.",
 ["schedules","inputs","fault_sequences"],"every supported or derived type, every valid encoding in either byte order, every split of the bytes into reads of any size >= 1 and every placement of interrupted reads, in both stream modes",
 "the tests decode from in-memory slices that hand over everything in one read; a split inside a value, a wrap of the internal buffer or an interrupted read is never produced",
 [R,CB,RD,RI,"src/ext_*.rs",D],[m("stream reader fill/peek loops",R),m("ring buffer used by buffered streams",CB),m("collection and vector decoding",RD)])
prop("C02","Unbuffered decoding takes exactly the value's bytes from the stream",
 "After a successful unbuffered decode the stream stands exactly at the first byte after the value (or after the bytes the type is documented to look at without consuming), so values of any types written back to back can be read one after another. This holds however the stream delivers its bytes and however often reads are interrupted.",
 ["schedules","histories","inputs"],"every sequence of values of any supported types written back to back, every delivery schedule, interrupts anywhere",
 "tests read one value from one exact buffer; over-reading or under-reading only shows when something follows in the same stream and the delivery is not all-at-once",
 [R,CB,RD,V],[m("unbuffered stream reader and peeked bytes",R),m("variable-length integers and skipping",V+", "+RD)])
prop("C03","Decoding finishes as soon as the value has arrived; conversations do not stall",
 "A decode from a stream, buffered or not, completes once the bytes that determine the value have been delivered and never issues a read that could block after that, and a completed encode to a stream leaves nothing behind in the library. Peers that exchange encoded requests and responses over bounded channels therefore always make progress, and if a peer stops or dies its partner gets an outcome once the channel closes.",
 ["schedules","fault_sequences","histories"],"every conversation of requests and responses between peers over channels of any capacity, latency, chunking, stalls, and closing at any point; every scheduler interleaving",
 "no test has two parties or a stream that can block; a fill loop that waits for one byte too many is invisible with an in-memory slice",
 [R,CB,W],[m("when the buffered reader stops refilling",R),m("stream writer keeps no buffer of its own",W)])
prop("C04","Truncated input is reported, never completed with invented data",
 "If the input ends before the value is complete, every decoding entry point fails with an end-of-input error, except where the type itself is declared to end or take a default at end of input, in which case exactly the documented default or prefix results. No decoded value contains anything that was not in the delivered bytes.",
 ["crash_points","inputs","schedules"],"every type, every valid encoding, cut at every byte (sender dies at an arbitrary point), for buffers, copying buffers, both stream modes and files, any delivery schedule",
 "tests check a handful of short inputs for a handful of types; the cut point must range over every byte of every encoding and every entry point",
 [R,RD,CB,RI,D,E],[m("bounds checks of the buffer readers",R),m("short-read handling in streams",R),m("default-on-end and until-end fields",D+", "+RD)])
prop("C05","Read failures of a stream reach the caller unchanged",
 "When the underlying stream fails while bytes are still needed, the decode fails with that same failure (kind, operating-system code and message preserved), and it is never reported as an end of input, never turned into a default value or an early end of a collection, and never swallowed. If the value was already complete, the failure is not provoked.",
 ["fault_sequences","inputs","schedules"],"every type including ones with end-of-input defaults, every error kind, injected at every byte offset and read call, both stream modes",
 "no test has a stream that fails",
 [R,E,RD,D],[m("conversion of I/O errors",E),m("stream read loops",R),m("end-of-input classification used by defaults and until-end loops",E+", "+RD+", "+D)])
prop("C06","Stream encoding delivers the exact encoding once, in order, or reports why not",
 "Encoding to a byte sink succeeds only if the sink accepted exactly the documented encoding of the value, each byte once and in order, however the sink splits or interrupts writes. If the sink fails, the failure reaches the caller unchanged and what the sink had accepted is a prefix of that encoding. A value that does not fit its own declared lengths has no encoding: every way of encoding it fails.",
 ["fault_sequences","schedules","inputs"],"every supported or derived type and value in either byte order, sinks that accept any number of bytes per call, interrupt, accept nothing, or fail at any point",
 "tests write to vectors, which accept everything and never fail",
 [W,WR,WI,D,V],[m("stream writer",W),m("per-type encoders",WI+", "+WR),m("generated encoders",D)])
prop("C07","A file write that reports success has stored the whole encoding",
 "When writing a value to a file reports success, the file contains exactly the value's encoding and nothing else, whatever it contained before; when opening or any write fails (disk full, I/O error), the call reports that failure. Short and interrupted writes do not change the result.",
 ["fault_sequences","crash_points","inputs"],"every value and size (below, at and above the internal buffer size), every placement of disk-full, I/O, short-write and interrupt faults, any previous file content",
 "the tests write to a healthy temporary directory; disk faults, in particular on the last buffered bytes, cannot be produced there",
 [W],[m("file writing entry points",W)])
prop("C08","Reading a file decodes its current contents or reports why it cannot",
 "Reading a value from a file gives the same outcome as decoding the bytes the file currently holds, including files left torn, truncated, corrupted, empty or over-long by a crashed writer. A failure to open, inspect or load the file is reported as that failure, never as a value.",
 ["crash_points","fault_sequences","inputs"],"every type, every file content reachable by a writer crashing at any point with lost, torn or reordered sectors or flipped bytes, every failing system call on the load path",
 "tests read small intact files that were just written; crash states and failing system calls are never produced",
 [R],[m("file loading through a memory mapping",R)])
prop("C09","File operations release every descriptor and mapping exactly once",
 "Every file descriptor and memory mapping that a file read or write acquires is released exactly once by the time the call is over, whether it succeeds, fails at any step, or unwinds from a panic in user code. No released mapping is used afterwards, and every release names exactly what was acquired.",
 ["fault_sequences","histories"],"every sequence of file reads and writes with any outcome of each system call and user code that fails or panics in the middle",
 "leaks and double releases do not change any return value; no test fails a system call or counts resources",
 [R,W],[m("mapping guard and its drop",R),m("file handle ownership",R+", "+W)])
prop("C10","Corrupted or hostile input gives an error or a valid value, nothing worse",
 "Whatever bytes arrive, and whatever a stream claims about them, decoding returns within work bounded by the input either an error or a valid value of the type; it does not panic, abort, hang, read or write out of bounds, create misaligned references or invalid values, or give out memory that was never written. A stream that claims to have read more than it was asked for may at worst be met with a panic. This assumes element types that occupy at least one byte.",
 ["inputs","fault_sequences","schedules"],"every byte string (in particular valid encodings with flipped, lost, duplicated, spliced bytes and hostile length fields) for every supported or derived type, every entry point, any buffer alignment, streams that over-report",
 "tests and their quickcheck generators only decode what the encoder produced, plus a few hand-written bad inputs",
 [R,RD,RI,RU,CB,P,V,"src/ext_*.rs",D],[m("length handling and allocation",RD),m("zero-copy casts",RU+", "+D),m("validation of constrained types",RI+", src/ext_*.rs")])
prop("C11","All ways of decoding agree on every input",
 "For any input, decoding from a borrowed buffer, a copying buffer, an unbuffered stream, a buffered stream under any delivery, and a file give the same outcome: the same value, or failure in all of them, and where the consumed length is reported it is the length of the encoding. The only exception is borrowed types, which are documented to need a borrowed buffer.",
 ["inputs","schedules","configurations"],"every type, every valid, truncated or corrupted input, every entry point and delivery schedule, both byte orders",
 "tests compare entry points only on exact valid encodings of the listed examples",
 [R,RD,RI,RU,D,V,P],[m("three independent reader implementations",R),m("fast paths that only some readers take",RD)])
prop("C12","Memory used by a decode is bounded by the bytes actually delivered",
 "While decoding, the memory the library allocates stays within a fixed multiple (given by the type) of the bytes the input has actually delivered plus a constant, no matter what lengths the input claims. This assumes element types that occupy at least one byte.",
 ["inputs","fault_sequences","schedules"],"every type with lengths, every claimed length and length encoding, every entry point, streams that stop delivering at any point",
 "memory use is not observed by any test and no test presents a length larger than its data",
 [RD,R,"src/ext_smallvec.rs",RI],[m("allocation ahead of reading elements",RD)])
prop("C13","Every decoded element is dropped exactly once, even when decoding fails midway",
 "When decoding a composite value fails part-way for any reason, every element already decoded is dropped exactly once and all memory is returned; on success each element is owned exactly once by the result. If user code panics during decoding, no element is dropped twice.",
 ["fault_sequences","inputs","crash_points"],"every container and derived composite of resource-owning elements, failure (end, corruption, stream error, element error, panic) at every element and byte, every entry point",
 "tests check one or two hand-picked failure positions for one element type",
 [RD,RI,"src/ext_smallvec.rs",D],[m("vector decoding and cleanup",RD),m("array decoding guard",RI)])
prop("C14","Reader operations behave like a cursor over the bytes",
 "Any sequence of read, peek, skip, borrow, vector, collection and until-end operations a custom type performs on its reader gives the results of a simple cursor over the bytes that will be delivered: peeking never moves or changes anything, a failed peek loses nothing, and each successful operation advances by exactly its own bytes. The helpers that convert plain bytes or numbers according to the reader's byte order agree with the corresponding reads. This holds for every reader the library provides and for user-supplied readers that implement only the required operations.",
 ["histories","schedules","inputs"],"every sequence of operations with any sizes around internal buffer and chunk boundaries, every delivery schedule with interrupts, every reader",
 "the tests contain a single peek-then-read check on a slice; histories that mix peeks, large reads and buffer wraps are not covered",
 [RD,R,CB,V,"src/endianness.rs"],[m("reader operations and their defaults",RD),m("peek on streams over the ring buffer",R+", "+CB)])
prop("C15","Writer operations behave like a log with exact size and a hard bound",
 "Any sequence of write operations a custom type performs appends exactly the documented bytes, the size reported for a value equals the bytes its encoding produces, and encoding into a caller's buffer either fills exactly that many leading bytes or fails without touching anything beyond the buffer or past the reported size. A type whose two encoding passes differ can cause an error or a shorter result but never exposes memory that was not written.",
 ["histories","inputs"],"every sequence of write operations with any values, every supported or derived type, every buffer size around the needed size, user types that change between sizing and writing",
 "tests use buffers of exactly the right size and never compare the announced size with hostile or changing user types",
 [W,WR,WI,V,D,"src/ext_*.rs"],[m("bounded buffer writer and sizing pass",W),m("per-type size computations",WI+", src/ext_*.rs"),m("writer operations",WR)])
prop("C16","Context changes made while decoding or encoding take effect in order",
 "A custom type may inspect and change the user context, including its byte order, through the reader or writer; each change is visible to everything decoded or encoded after it and to nothing before it, on every reader and writer. The entry points that borrow the caller's context leave in it exactly the changes made up to success or failure.",
 ["histories","schedules","fault_sequences"],"every placement of context changes inside any composite, every entry point, failures at any later point",
 "the tests use fixed stateless contexts only",
 [R,W,RD,WR,CX,RI],[m("byte order consulted at each operation",RD+", "+WR),m("context kept by reference or by value",R+", "+W)])
prop("C17","Concurrent, interleaved and nested operations do not affect each other",
 "Encoding and decoding operations running in different threads, interleaved at any point of their stream I/O, sharing values being encoded, nested inside each other through user code and streams, or following any number of others that succeeded or failed, each give the same outcome as when run alone.",
 ["schedules","histories"],"every interleaving of any number of operations, nested operations at any depth, every history of earlier operations and how they ended",
 "all tests run one operation at a time on private data",
 [R,W,RD,RI,WI,CB],[m("per-operation reader and writer state",R+", "+W),m("shared references to values being encoded",WI)])
prop("C18","Encoding a shared atomic stores a value it actually held",
 "When a value containing atomics is encoded while other threads update them, each encoded atomic is a value that atomic held at some moment during the encoding, never a mixture of two values, and the rest of the encoding is unaffected. Encoding changes no atomic and loses no update of another thread.",
 ["schedules"],"every interleaving of updates with the steps of the encode, every atomic type, alone and inside composites, every encoding entry point",
 "tests encode atomics that nobody is updating",
 [WI,RI],[m("atomic encoders",WI)])
prop("C19","What one party encodes another party decodes to the same value",
 "A value encoded by any encoding entry point and carried intact by any transport (memory, stream, bounded channel, file) decodes with any decoding entry point to an equal value, and a party that follows only the documented format can stand on either side. This holds for nested composites, all field and enum attributes, and either byte order, as long as both sides use the same context.",
 ["histories","schedules","configurations","inputs"],"every pairing of encoding entry point, transport behaviour and decoding entry point, every type and value in the supported set, mixed with peers that implement the documented format independently",
 "round-trip tests use fixed examples in memory; pairings of entry points across faulty transports and an independent implementation of the format are not exercised",
 [R,W,RI,WI,RD,WR,V,P,D,"src/ext_*.rs"],[m("encoders and decoders of every type",RI+", "+WI),m("generated code for attributes",D),m("length and tag encodings",P+", "+V)])
prop("C20","A failure in user code ends the operation and reaches the caller unchanged",
 "When a custom type's reading, writing or sizing code, or a user-supplied reader or writer, returns an error, the decode or encode ends right there with that same error: no further user code is run, nothing more is taken from the input or given to the output, and the error is never taken for an end of input, a default, a shorter collection or success. A panic in user code comes through with its payload. Nothing of the failure stays behind for later operations. Errors that declare themselves an end of input are treated as one.",
 ["fault_sequences","inputs","histories"],"every container, derived type and attribute around user code, every kind of error and every step of user code at which it is raised, every entry point for decoding and encoding, with output that also starts to fail",
 "the tests contain no user type that fails part-way and no user-supplied reader or writer",
 [RD,RI,WI,W,R,WR,D,P,E],[m("propagation of element errors",RD+", "+RI+", "+WI),m("what counts as an end of input",E+", "+P+", "+RD),m("generated code for defaults and until-end fields",D)])
prop("C21","A decoded value stands on its own or borrows exactly the caller's bytes",
 "A value decoded by a copying entry point, from a stream or from a file does not depend on its source: it stays the same when the buffer is overwritten or released, the file replaced, or decoding goes on from the same stream. What a value decoded from a borrowed buffer borrows are exactly its own bytes in that very buffer, and whatever can be borrowed there (in matching byte order and alignment) is not copied.",
 ["histories","inputs","schedules"],"every type and attribute, every entry point, every alignment of the buffer, anything that happens to the source and every further operation while the value is alive",
 "tests look at a value right away, while its source is still intact, and check borrowing for a few types at one alignment",
 [RD,R,RI,RU,P,D],[m("borrowing and copying readers",RD+", "+R),m("copy-on-write and borrowed types",RI+", "+RU+", "+P),m("file mapping",RD)])
prop("C33","Other machines and other builds have the same format and behaviour",
 "A value encodes to the same bytes, and the same bytes decode to the same value or to an error in the same places, on machines of either byte order and of other pointer widths, in optimised builds, and in builds without the standard library or without an allocator as far as these provide the operation. A length or number that such a machine cannot hold is an error and nothing else. What is an end of input or a too small buffer, what is announced as the size, and what is borrowed or peeked do not depend on the build either.",
 ["configurations","inputs","schedules"],"every supported type and value in either byte order, valid and damaged inputs, every entry point and delivery, on every target and feature set",
 "the suite runs on one little-endian 64-bit target, with one feature set and debug assertions",
 [RD,RI,WI,WR,V,P,R,E,EN,CX,"src/utils.rs","src/lib.rs"],[m("byte order conversions",RD+", "+WR+", "+RI+", "+WI+", "+V),m("lengths and sizes as usize",P+", "+RI+", "+R),m("conditional compilation","src/lib.rs, "+E)])
# not claimed
prop("C30","The documented wire format is the same in every release",
 "The bytes that a given value encodes to, and the value that given bytes decode to, are fixed by the documented format tables and attributes and do not change between releases.",
 ["inputs","configurations"],"every type and value, every release",
 "golden vectors cover fixed examples of one release",
 [WI,RI,D,"README.md"],[m("per-type formats",WI+", "+RI)])
prop("C31","Invalid attribute combinations are rejected at compile time",
 "A derive input whose attributes are contradictory, duplicated, or unsupported for the field type is rejected with a compile error, and every accepted input generates code that compiles.",
 ["programs"],"every derive input",
 "only accepted inputs appear in the test suite",
 [D],[m("attribute parsing and validation",D)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props: jsonschema.validate(p,s); assert len(p["title"])<=80,p["id"]
print(len(props))
