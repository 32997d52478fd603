//! The list of properties, and how each is run.
use crate::base::Res;
use crate::props::*;

pub struct Prop {
    pub id: &'static str,
    pub runs: u64,
    pub min_steps: u64,
    pub case: fn() -> Res,
    pub directed: &'static [(&'static str, fn() -> Res)],
    /// A failure counts only if the workload passes without the conditions under test.
    pub control: bool,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assume: &'static [&'static str],
}
pub fn all() -> Vec<Prop> {
    use crate::props_conc as c;
    use crate::props_file as f;
    use crate::props_scripts as s;
    const STREAM_STUB: &[&str] = &["byte streams and sinks (SimStream, SimSink): chunking, interruptions and failures drawn from the tape", "global allocator wrapper (poison, canaries, accounting)", "getrandom (hash seeds)"];
    const FILE_STUB: &[&str] = &["kernel file calls of paths under /simfs/ (open, statx, read, write, mmap, madvise, munmap, close): in-memory disk with planned faults", "global allocator wrapper", "getrandom (hash seeds)"];
    const REAL: &[&str] = &["speedy and speedy-derive from /repo, all features that build here", "Rust standard library", "chrono, glam, smallvec, regex, uuid, indexmap types"];
    const A: &[&str] = &["64-bit little-endian Linux, std build", "the reference model of the documented format is right (itself checked against the library on every run)"];
    vec![
        Prop { id: "C01", runs: 300000, min_steps: 2, case: c01, directed: D01, control: false, rule: "one run: a value of a random corpus type, its documented encoding (a third corrupted or truncated) and 2 to 4 random deliveries of it in both stream modes; distinct runs have different event traces, non-trivial ones made at least 2 simulated steps", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C02", runs: 300000, min_steps: 2, case: c02, directed: D02, control: false, rule: "one run: 1 to 6 values of random corpus types back to back on one randomly delivered stream, decoded one after another without buffering; the stream position is checked after each", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C03", runs: 18000, min_steps: 2, case: c::c03, directed: &[], control: true, rule: "one run: either a stream that would block after the value's last byte, or a conversation of 2 to 4 peers over bounded simulated channels with latency, interruptions and crashes under a random scheduler", real: REAL, stub: &["channels and their latency (SimPipe), the clock, the task scheduler (one baton, next holder drawn from the tape)", "byte streams"], assume: A },
        Prop { id: "C04", runs: 64000, min_steps: 2, case: c04, directed: D04, control: false, rule: "one run: one encoding cut at up to 26 places and decoded by all entry points; the oracle is the reference decoder on the same cut", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C05", runs: 400000, min_steps: 2, case: c05, directed: &[], control: false, rule: "one run: one encoding on a stream that fails at several drawn offsets with a drawn error, transient or for good, both stream modes", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C06", runs: 400000, min_steps: 2, case: c06, directed: &[], control: false, rule: "one run: one value encoded into sinks with drawn acceptance sizes, interruptions, failures and zero-length accepts", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C07", runs: 270000, min_steps: 2, case: f::c07, directed: f::D07, control: false, rule: "one run: one value written to the simulated disk over drawn previous contents with drawn system-call faults", real: REAL, stub: FILE_STUB, assume: A },
        Prop { id: "C08", runs: 270000, min_steps: 2, case: f::c08, directed: &[], control: false, rule: "one run: a file in a drawn state (whole, crashed writer at any system call, torn blocks, corrupted, empty) read with drawn system-call faults", real: REAL, stub: FILE_STUB, assume: A },
        Prop { id: "C09", runs: 240000, min_steps: 2, case: f::c09, directed: &[], control: false, rule: "one run: 1 to 3 file reads and writes with drawn faults and panicking user types; the ledger of descriptors and mappings is audited after each", real: REAL, stub: FILE_STUB, assume: A },
        Prop { id: "C10", runs: 400000, min_steps: 2, case: c10, directed: D10, control: false, rule: "one run: hostile bytes (random, mutated, lying lengths) through several entry points against guard pages, or a stream that misbehaves", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C11", runs: 280000, min_steps: 2, case: c11, directed: D11, control: false, rule: "one run: one input (valid, mutated or hostile) decoded by every entry point and compared with each other and the reference", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C12", runs: 320000, min_steps: 2, case: c12, directed: &[], control: false, rule: "one run: an input whose lengths claim far more than it delivers, metered allocations per entry point", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C13", runs: 500000, min_steps: 2, case: c13, directed: D13, control: false, rule: "one run: a container of lifetime-watching elements decoded from bytes with planted element failures, panics, truncation and stream errors", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C14", runs: 120000, min_steps: 2, case: s::c14, directed: s::D14, control: false, rule: "one run: a random script of reader operations inside a custom type on every reader, compared operation by operation with a cursor", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C15", runs: 360000, min_steps: 2, case: s::c15, directed: &[], control: false, rule: "one run: a random script of writer operations, possibly different per pass, through every encoding entry point with guarded buffers; or a corpus value's reported size against its encoding", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C16", runs: 210000, min_steps: 2, case: s::c16, directed: s::D16, control: false, rule: "one run: scripts with context changes nested in composites, on every reader or writer, compared with the reference cursor/log", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C17", runs: 4000, min_steps: 2, case: c::c17, directed: &[], control: true, rule: "one run: 2 to 4 tasks encoding and decoding (shared values, nested operations inside streams and user code), switched at stream operations and at drawn machine instructions; outcomes compared with solo runs", real: REAL, stub: &["task scheduler (one baton; also preempts between machine instructions by single-stepping)", "byte streams and sinks"], assume: A },
        Prop { id: "C18", runs: 1500, min_steps: 2, case: c::c18, directed: &[], control: false, rule: "one run: a value with atomics encoded while a simulated other thread updates them between drawn machine instructions of the encode", real: REAL, stub: &["the other thread: its stores happen between machine instructions of the encoder under single-stepping"], assume: &["sequentially consistent interleavings of single stores; x86-64"] },
        Prop { id: "C19", runs: 120000, min_steps: 2, case: c::c19, directed: D19, control: false, rule: "one run: values sent between parties (library or reference on either side) by every encoding and decoding entry point and a drawn transport", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C20", runs: 300000, min_steps: 2, case: crate::props_user::c20, directed: &[], control: false, rule: "one run: user types, user readers or user writers raising one of eight kinds of failure at drawn steps of their code, by a drawn entry point; a run without failure counts the steps and another afterwards shows that nothing stays behind", real: REAL, stub: STREAM_STUB, assume: A },
        Prop { id: "C21", runs: 300000, min_steps: 2, case: crate::props_own::c21, directed: &[], control: false, rule: "one run: a value decoded by a drawn entry point; before it is looked at, the copied-from buffer is unmapped or overwritten, the file replaced, and other decodes take place (also further values from the same stream); borrowed parts are located in the caller's buffer", real: REAL, stub: STREAM_STUB, assume: &["a slice is borrowed from the place where its bytes are; what is equal in several places may come from any of them"] },
    ]
}

