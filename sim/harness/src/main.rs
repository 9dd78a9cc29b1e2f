mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod faulty;
mod files;
mod c14;
mod c15;
mod gen;
mod ops;
mod util;
mod view;

use simrt::runner::Prop;


const LAZY_REAL: &[&str] = &[
    "rustfst: all lazy FSTs, caches, state tables, matchers, filters (unmodified source, instrumented build)",
    "std Mutex / Arc / HashMap / allocator",
];
const CACHE_REAL: &[&str] = &["rustfst::algorithms::lazy caches and StateTable (unmodified source, instrumented build)", "std Mutex / Arc / HashMap / allocator"];
const FILE_REAL: &[&str] = &["rustfst file formats: binary and text FSTs and symbol tables, drawings, lazy caches and states (unmodified source, instrumented build)", "std::fs, BufWriter, LineWriter", "nom"];
const LAZY_STUB: &[&str] = &[
    "OS scheduler (simulated: one thread at a time, chosen per basic block)",
    "futex waits (simulated queue, spurious wake-ups)",
    "getrandom (seeded)",
];

const DISK_STUB: &[&str] = &[
    "OS scheduler (simulated: one thread at a time, chosen per basic block)",
    "futex waits (simulated queue, spurious wake-ups)",
    "getrandom (seeded)",
    "file system calls on /simfs (simulated disk)",
];

static PROPS: &[Prop] = &[Prop {
    id: "C01",
    body: c01::body,
    quick_runs: 60_000,
    thorough_runs: 3_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "a non-empty language, at least two reachable states and some state's transitions requested more than once by the threads",
    real: LAZY_REAL,
    stub: LAZY_STUB,
    assumptions: &["sequentially consistent memory: one simulated thread runs at a time"],
    fault_kinds: &["spurious_wakeup"],
}, Prop {
    id: "C02",
    body: c02::body,
    quick_runs: 200_000,
    thorough_runs: 10_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "a non-empty language, at least two reachable states and at least three transition lists asked for out of order",
    real: LAZY_REAL,
    stub: LAZY_STUB,
    assumptions: &["a cache may forget an entry at any time but never answers for another state"],
    fault_kinds: &["spurious_wakeup"],
}, Prop {
    id: "C03",
    body: c03::body,
    quick_runs: 200_000,
    thorough_runs: 10_000_000,
    budget: 20_000_000,
    level: "exploration",
    rule: "an insertion overlaps another operation on the same kind of entry",
    real: CACHE_REAL,
    stub: LAZY_STUB,
    assumptions: &["sequentially consistent memory: one simulated thread runs at a time", "clear() is atomic per kind of entry (transitions, finals, start), not across them"],
    fault_kinds: &["spurious_wakeup"],
}, Prop {
    id: "C04",
    body: c04::body,
    quick_runs: 200_000,
    thorough_runs: 10_000_000,
    budget: 20_000_000,
    level: "exploration",
    rule: "at least two tuples interned, and one of them looked up more than once",
    real: CACHE_REAL,
    stub: LAZY_STUB,
    assumptions: &["sequentially consistent memory: one simulated thread runs at a time"],
    fault_kinds: &["spurious_wakeup"],
}, Prop {
    id: "C14",
    body: c14::body,
    quick_runs: 150_000,
    thorough_runs: 8_000_000,
    budget: 20_000_000,
    level: "exploration",
    rule: "at least four operations on the shared objects",
    real: LAZY_REAL,
    stub: LAZY_STUB,
    assumptions: &["a schedule is bounded: 20 million basic blocks without finishing counts as no progress (the longest legitimate run takes under 1 million)"],
    fault_kinds: &["spurious_wakeup"],
}, Prop {
    id: "C05",
    body: c05::body,
    quick_runs: 200_000,
    thorough_runs: 8_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "a composition of at least two states, and either other threads expanding it during the write or a disk error or death of the process",
    real: LAZY_REAL,
    stub: DISK_STUB,
    assumptions: &["each snapshot is written to paths of its own", "a dying process leaves a prefix of what it had written", "sequentially consistent memory"],
    fault_kinds: &["spurious_wakeup", "write_short", "write_eintr", "open_eintr", "write_eio", "write_enospc", "open_error", "write_zero", "crash_during_write", "read_short", "read_eintr"],
}, Prop {
    id: "C06",
    body: c06::body,
    quick_runs: 400_000,
    thorough_runs: 10_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "a write succeeded in the presence of faults or other writers, or failed",
    real: FILE_REAL,
    stub: DISK_STUB,
    assumptions: &["what write() accepted is on the disk (no lost writes after a successful write call: nothing in the library calls fsync)"],
    fault_kinds: &["spurious_wakeup", "write_short", "write_eintr", "open_eintr", "write_eio", "write_enospc", "open_error", "write_zero"],
}, Prop {
    id: "C07",
    body: c07::body,
    quick_runs: 400_000,
    thorough_runs: 10_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "the file was cut or a read fault injected",
    real: FILE_REAL,
    stub: DISK_STUB,
    assumptions: &["cut files: binary formats only"],
    fault_kinds: &["read_short", "read_eintr", "read_eio", "open_eintr", "open_error"],
}, Prop {
    id: "C08",
    body: c08::body,
    quick_runs: 500_000,
    thorough_runs: 20_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "the file was damaged",
    real: FILE_REAL,
    stub: DISK_STUB,
    assumptions: &["text files whose damage produces a number of six or more digits are left out: state numbers are dense by design"],
    fault_kinds: &[],
}, Prop {
    id: "C09",
    body: c09::body,
    quick_runs: 400_000,
    thorough_runs: 10_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "an input of at least three transitions and a non-empty result",
    real: LAZY_REAL,
    stub: LAZY_STUB,
    assumptions: &["results are compared up to renumbering of states by iterated hashing of neighbourhoods"],
    fault_kinds: &["hash_keys"],
}, Prop {
    id: "C10",
    body: c10::body,
    quick_runs: 120_000,
    thorough_runs: 5_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "an input of at least three transitions, at least two results and a non-empty one",
    real: &["rustfst::algorithms::randgen, VectorFst, ConstFst and lazy inputs (unmodified source, instrumented build)", "rand, rand_chacha"],
    stub: LAZY_STUB,
    assumptions: &["the share of each choice is checked with a tolerance of 7.5 standard deviations"],
    fault_kinds: &["entropy"],
}, Prop {
    id: "C11",
    body: c11::body,
    quick_runs: 400_000,
    thorough_runs: 8_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "at least one call failed, on an automaton of at least two states",
    real: LAZY_REAL,
    stub: &["OS scheduler (simulated)", "futex waits (simulated)", "getrandom (seeded)", "input FSTs and user operations (harness wrappers that fail or panic on demand)"],
    assumptions: &["start(), the iterators, compute() and unchecked accessors cannot return an error: a failure underneath may reach their caller as a panic"],
    fault_kinds: &["callback_error", "callback_panic", "unknown_state", "spurious_wakeup"],
}, Prop {
    id: "C12",
    body: c12::body,
    quick_runs: 100_000,
    thorough_runs: 5_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "more than fifty calls, at least one of them failing",
    real: &["rustfst-ffi: every exported function but the drawing of ConstFst (unmodified source, instrumented build)", "rustfst underneath", "ffi-convert"],
    stub: &["OS scheduler (simulated)", "futex waits (simulated)", "getrandom (seeded)", "file system (simulated disk)", "the C caller (harness threads)"],
    assumptions: &["callers pass valid or NULL handles, and do not change a handle that another thread is using"],
    fault_kinds: &["write_short", "write_eintr", "write_eio", "write_enospc", "read_short", "read_eintr", "read_eio", "open_eintr", "open_error", "spurious_wakeup"],
}, Prop {
    id: "C13",
    body: c13::body,
    quick_runs: 200_000,
    thorough_runs: 10_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "at least four changes of copies of an FST with a state of several transitions",
    real: &["rustfst: VectorFst, ConstFst, TrsVec, TrsConst, SymbolTable, lazy union and the algorithms run on clones (unmodified source, instrumented build)", "std Arc / HashMap / allocator"],
    stub: LAZY_STUB,
    assumptions: &["sequentially consistent memory: one simulated thread runs at a time"],
    fault_kinds: &[],
}, Prop {
    id: "C15",
    body: c15::body,
    quick_runs: 50_000,
    thorough_runs: 1_000_000,
    budget: 40_000_000,
    level: "exploration",
    rule: "a run of a command that succeeds, or one that meets a hard fault",
    real: &["rustfst-cli: its own main(), argument parsing, commands and exit status (unmodified source)", "rustfst underneath", "clap, env_logger, colored"],
    stub: &["file system (simulated disk)", "getrandom (seeded)", "clock (simulated)", "process: a forked child with the program's main(), arguments and exit intercepted", "standard output and error (discarded)"],
    assumptions: &["paths name regular files; one process at a time uses them"],
    fault_kinds: &["write_short", "write_eintr", "write_eio", "write_enospc", "write_zero", "read_short", "read_eintr", "read_eio", "open_eintr", "open_error"],
}];

fn main() {
    simrt::runner::main(PROPS)
}
