#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json
L="rustfst/src/algorithms/lazy/"
A="rustfst/src/algorithms/"
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))
p("C01","A lazy FST shared by threads is one automaton, the right one",
 "When several threads explore the same lazy FST (composition, replace, union, concat, closure, weight factoring) at the same time, all of them observe one and the same automaton: a state id always has the same start/final/transition answers whoever asks and whenever, and every transition leads to a state that can itself be explored. That automaton has exactly the weighted language the operation defines, the same as when one thread expands it alone.",
 ["schedules","inputs","configurations"],"for every interleaving of the exploring threads at basic-block granularity, every access order, every input FST and every cache/matcher/filter configuration",
 "Existing tests expand lazy FSTs from one thread only; no test ever has two threads inside the same lazy FST.",
 [L+"lazy_fst.rs",L+"lazy_fst_2.rs",L+"state_table.rs",A+"compose/compose_fst_op.rs",A+"replace/replace_fst_op.rs",A+"factor_weight/factor_weight_op.rs"],
 [("memoised expansion: look up, compute, insert",L+"lazy_fst.rs get_trs/final_weight/start"),("interning of state tuples",L+"state_table.rs"),("composition expansion",A+"compose/compose_fst_op.rs compute_trs"),("replace expansion",A+"replace/replace_fst_op.rs")])
p("C02","Lazy results do not depend on access order, cache kind or recomputation",
 "Whatever order a user touches states in, whichever cache is plugged in, and whatever that cache forgets along the way, a lazy FST gives the same automaton: repeated questions get identical answers, transition and epsilon counts agree with the transitions returned, state iteration reaches every state, and materialising it gives the language of the static operation. A lazy FST that is cloned in the middle of an exploration behaves like its original, and neither affects the other.",
 ["histories","schedules","configurations","inputs"],"for every order of start/final/transition/count/iterate/materialise requests, every cache policy including one that loses entries at arbitrary times, every clone point",
 "Tests materialise a lazy FST from the start state in breadth-first order with the default cache and look at the result only.",
 [L+"lazy_fst.rs",L+"lazy_fst_2.rs",L+"cache/simple_vec_cache.rs",L+"cache/simple_hash_map_cache.rs",L+"cache/first_cache.rs"],
 [("cache lookups and insertions",L+"lazy_fst.rs"),("known-state counting for iteration",L+"cache/*.rs num_known_states"),("clone of caches and tables",L+"cache/*.rs Clone, "+L+"state_table.rs Clone")])
p("C03","Every FST cache behaves as one atomic map",
 "Each cache the library offers is linearizable with respect to a simple map from state to value: a lookup returns what the latest preceding insertion for that state stored (or 'not computed' if there was none), counts and sizes reflect the insertions that happened, and clearing forgets everything. Concurrent callers never see a mixture of two insertions, an answer belonging to another state, or a value that was never inserted.",
 ["schedules","histories"],"for every interleaving and history of lookups, insertions, counts, clears and clones by several threads, for each cache type and stacking of caches",
 "Unit tests of the caches insert and read back a few values from one thread.",
 [L+"cache/simple_vec_cache.rs",L+"cache/simple_hash_map_cache.rs",L+"cache/first_cache.rs",L+"cache/fst_cache.rs",L+"cache/cache_internal_types.rs"],
 [("map cache",L+"cache/simple_hash_map_cache.rs"),("vector cache",L+"cache/simple_vec_cache.rs"),("last-entry cache in front of another",L+"cache/first_cache.rs")])
p("C04","State tables intern each tuple exactly once, densely",
 "However many threads look tuples up at once, a state table gives equal tuples the same id and different tuples different ids, the ids handed out are exactly 0..n-1, and asking for the tuple of an id that was handed out returns that tuple, from the moment any caller has seen the id. Cloning or serialising a table while others use it yields a table with the same guarantees that contains everything handed out before the call began.",
 ["schedules","inputs"],"for every interleaving of lookups by tuple, lookups by id, clones and serialisations, and every tuple sequence and hash seed",
 "Tests intern two tuples from one thread.",
 [L+"state_table.rs",A+"replace/state_table.rs",A+"factor_weight/state_table.rs",A+"determinize/state_table.rs"],
 [("find_id / find_tuple under one lock",L+"state_table.rs")])
p("C05","A lazy composition snapshot resumes to the same automaton",
 "Writing the cache and the internal state of a lazy composition while other threads keep expanding it produces files that read back, and a composition rebuilt from them after a restart is the same automaton as the original: every state expanded before the write began is there with the same id and transitions, and continuing from it gives the same weighted language. If the process dies during the write, reading either file reports an error or yields a complete snapshot, never a partial one taken for whole.",
 ["schedules","crash_points","inputs"],"for every interleaving of the writer with expanding threads, every crash point during the write, every cache type and input",
 "The existing read/write tests serialise a quiescent, single-threaded composition once and never crash in between.",
 [L+"lazy_fst.rs",L+"cache/simple_vec_cache.rs",L+"cache/simple_hash_map_cache.rs",L+"cache/utils_serialization.rs",L+"cache/utils_parsing.rs",L+"state_table.rs",A+"compose/compose_fst_op.rs",A+"compose/compose_fst.rs"],
 [("snapshot: cache first, then state table",L+"lazy_fst.rs write"),("cache serialisation",L+"cache/simple_*_cache.rs write_*"),("op state read/write",A+"compose/compose_fst_op.rs")])
p("C06","A write that reports success is complete and readable",
 "When writing an FST, symbol table, drawing, text file or lazy snapshot reports success, the file on disk holds the whole object: reading it back gives an equal object (same start, states, transitions, weights, finals, symbols). When the disk fails, fills up or stops accepting data at any point, the write reports an error; interrupted and short system writes are absorbed without a trace in the file.",
 ["fault_sequences","crash_points","inputs"],"for every object and every sequence of short, interrupted, failing or space-exhausted system writes, at every byte offset",
 "Tests write to a healthy temporary directory; no test ever makes a write fail.",
 ["rustfst/src/fst_traits/serializable_fst.rs","rustfst/src/symbol_table.rs","rustfst/src/fst_impls/vector_fst/serializable_fst.rs","rustfst/src/fst_impls/const_fst/serializable_fst.rs",L+"cache/simple_vec_cache.rs",L+"cache/simple_hash_map_cache.rs",A+"compose/compose_fst_op.rs"],
 [("buffered file writers",'rustfst/src/fst_traits/serializable_fst.rs write/write_text/draw'),("symbol table writers","rustfst/src/symbol_table.rs write/write_text"),("binary store","rustfst/src/fst_impls/*/serializable_fst.rs store")])
p("C07","Reading a file gives the stored object or an error, never part of it",
 "Reading a binary FST, binary symbol table or lazy snapshot that was cut off at any byte, or any file whose reading fails part-way with an I/O error, reports an error and never returns an object built from the part that was there. Short and interrupted reads are invisible: the object read is identical to the one stored.",
 ["fault_sequences","crash_points","inputs"],"for every stored object, every truncation point, and every sequence of short, interrupted and failing reads",
 "Tests read intact files from a healthy disk.",
 ["rustfst/src/fst_traits/serializable_fst.rs","rustfst/src/fst_impls/vector_fst/serializable_fst.rs","rustfst/src/fst_impls/const_fst/serializable_fst.rs","rustfst/src/fst_impls/vector_fst/parse_const.rs","rustfst/src/parsers/","rustfst/src/symbol_table.rs"],
 [("load from bytes","rustfst/src/fst_impls/*/serializable_fst.rs load"),("header parsing","rustfst/src/parsers/bin_fst/fst_header.rs"),("binary symbol tables","rustfst/src/parsers/bin_symt")])
p("C08","Damaged files never crash the reader",
 "Loading a file whose bytes were damaged in storage (flipped, overwritten, duplicated, cut or extended blocks) always comes back with an object or an error: it never panics, aborts, loops or asks for memory out of proportion to the file and to the state numbers written in it. This holds for binary and text FSTs, binary and text symbol tables, and lazy cache and state snapshots.",
 ["fault_sequences","inputs"],"for every stored file and every damage to its bytes",
 "Tests only load files that the library or OpenFst wrote.",
 ["rustfst/src/parsers/","rustfst/src/fst_impls/vector_fst/serializable_fst.rs","rustfst/src/fst_impls/const_fst/serializable_fst.rs","rustfst/src/symbol_table.rs",L+"cache/utils_parsing.rs",L+"state_table.rs"],
 [("binary parsers","rustfst/src/parsers/bin_fst, bin_symt, nom_utils.rs"),("text parsers","rustfst/src/parsers/text_fst, text_symt"),("snapshot parsers",L+"cache/utils_parsing.rs")])
p("C09","Algorithm results do not depend on the process's random hash keys",
 "Running an algorithm (determinize, minimize, epsilon removal, encode/decode, replace, compose with label look-ahead, relabelling, union, concatenation, weight factoring, shortest path, optimize) on the same input gives the same result in every process: the outcome has the same states, transitions and weights up to numbering whatever random keys the hash tables got. In every such process the result keeps the weighted language the algorithm promises.",
 ["inputs","configurations"],"for every input FST and every choice of random hash-table keys by the operating system",
 "Each test process draws one random key set and asserts on the result under that one.",
 [A+"determinize/determinize_fsa_op.rs",A+"determinize/state_table.rs",A+"minimize.rs",A+"encode/table.rs",A+"rm_epsilon/rm_epsilon_state.rs",A+"replace/replace_fst_op.rs",A+"compose/label_reachable.rs",A+"relabel_pairs.rs",A+"union/union_static.rs",A+"concat/concat_static.rs",A+"factor_weight/state_table.rs"],
 [("determinization subsets",A+"determinize/determinize_fsa_op.rs norm_tr"),("hash tables in algorithms",A+"*")])
p("C10","Random generation is reproducible and only produces accepted paths",
 "Generating random paths with a given seed and configuration gives the same result in every process and on every repetition, whatever entropy the system supplies and whatever other threads are doing. Every path generated is a path of the input FST, no more paths are generated than asked for (and no fewer, when there is no length limit and every state leads to a final one), none is longer than the length limit, and the weights of a weighted result give each path its share of the samples. At each state every transition, and stopping if the state is final, is equally likely.",
 ["inputs","configurations","schedules"],"for every input FST, seed and configuration, every operating-system entropy, and every interleaving with other generators",
 "Tests check a few fixed inputs in one process with one entropy state.",
 [A+"randgen/randgen_fst.rs",A+"randgen/randgen_fst_op.rs",A+"randgen/tr_sampler.rs",A+"randgen/tr_selector.rs",A+"randgen/randgen_visitor.rs",A+"randgen/randgen_config.rs",A+"randgen/mod.rs"],
 [("seeded selector",A+"randgen/tr_selector.rs"),("sampling",A+"randgen/tr_sampler.rs"),("path reconstruction",A+"randgen/randgen_visitor.rs")])
p("C11","A failed expansion leaves no trace and can be retried",
 "If computing a state of a lazy FST fails, or panics inside user-supplied code, nothing of the failed attempt becomes visible: the error reaches the caller that asked, other threads are unaffected, and asking again later computes and returns the right answer. Once the cause is gone the lazy FST ends up with exactly the automaton it would have had without failures.",
 ["fault_sequences","schedules"],"for every sequence of failing or panicking computations injected at any expansion step, in any interleaving of the callers",
 "No test uses an operation, matcher or input that fails.",
 [L+"lazy_fst.rs",L+"lazy_fst_2.rs",L+"state_table.rs",L+"cache/",A+"compose/compose_fst_op.rs"],
 [("error propagation in memoised expansion",L+"lazy_fst.rs"),("lock scope around user code",L+"cache/*.rs, "+L+"state_table.rs")])
p("C12","FFI calls report errors per thread and handles stay independent",
 "Through the C interface every call returns a success or failure code, a failing call's message is the one the same thread reads back next, and no thread ever reads, loses or overwrites another thread's message. Once read, a message is gone. A call that reports success has done what the library operation it names does and has set its out-pointers (to NULL where there is nothing to return); a call for a state, index or symbol that does not exist reports failure. Operations on different handles from different threads do not affect each other, and a copied handle shares nothing observable with its original.",
 ["schedules","histories"],"for every interleaving of C-interface calls, failing and succeeding, from several threads on several handles",
 "The Rust tests do not exercise the C interface; the Python tests are single-threaded.",
 ["rustfst-ffi/src/lib.rs","rustfst-ffi/src/fst/","rustfst-ffi/src/symbol_table.rs","rustfst-ffi/src/tr.rs","rustfst-ffi/src/trs.rs","rustfst-ffi/src/algorithms/"],
 [("last-error slot","rustfst-ffi/src/lib.rs wrap / rustfst_ffi_get_last_error"),("handle ownership","rustfst-ffi/src/fst/*.rs")])
p("C13","Clones are independent: mutating one never shows in another",
 "After cloning an FST, its transitions or its symbol tables, any sequence of changes to one copy, made from any thread while others read, iterate, convert or run algorithms on the other copies, is invisible in those other copies. Every reader sees exactly the contents its own copy had.",
 ["schedules","histories","programs"],"for every sequence of mutations and algorithms on clones, in every interleaving of the owning threads",
 "Tests clone and mutate in one thread, a single step at a time.",
 ["rustfst/src/trs.rs","rustfst/src/trs_iter_mut.rs","rustfst/src/fst_impls/vector_fst/","rustfst/src/fst_impls/const_fst/","rustfst/src/symbol_table.rs"],
 [("copy-on-write transitions","rustfst/src/trs.rs TrsVec"),("mutation through shared storage","rustfst/src/fst_impls/vector_fst/mutable_fst.rs"),("transition mutation iterators","rustfst/src/trs_iter_mut.rs")])
p("C14","Concurrent use never deadlocks or stops making progress",
 "Any mix of operations by several threads on shared lazy FSTs, caches and state tables (expansion, iteration, cloning, clearing, comparison, formatting, snapshotting) completes: no interleaving leaves threads waiting for each other, and comparing an object with itself or two objects in both orders at once completes as well.",
 ["schedules","programs"],"for every interleaving of every mix of such operations, within a bounded number of steps",
 "A deadlock needs two threads in a particular interleaving; the tests are single-threaded.",
 [L+"cache/simple_vec_cache.rs",L+"cache/simple_hash_map_cache.rs",L+"cache/first_cache.rs",L+"state_table.rs",A+"factor_weight/state_table.rs",A+"determinize/state_table.rs"],
 [("lock ordering in caches",L+"cache/*.rs"),("two-sided locking in equality",L+"state_table.rs, "+L+"cache/*.rs PartialEq")])
p("C15","The command-line tool tells the truth about its output",
 "A command of the rustfst tool that exits with status 0 has written the complete, correct output file, the same file in every run. When reading an input or writing the output fails at any point, the command exits with a non-zero status, and interrupted or short system calls make no difference.",
 ["fault_sequences","inputs","configurations"],"for every subcommand, input and sequence of I/O faults injected into the process",
 "The tool has no tests at all in the repository's test suite.",
 ["rustfst-cli/src/main.rs","rustfst-cli/src/unary_fst_algorithm.rs","rustfst-cli/src/binary_fst_algorithm.rs","rustfst-cli/src/cmds/"],
 [("read, run, write, exit code","rustfst-cli/src/unary_fst_algorithm.rs, rustfst-cli/src/binary_fst_algorithm.rs, rustfst-cli/src/main.rs")])
# ---- broad guarantees that are pure functions of their input
p("C16","Semiring operations satisfy the semiring axioms",
 "For every weight type, addition and multiplication are associative with neutral elements zero and one, addition commutes, multiplication distributes over it on the sides the type claims, zero annihilates, and division undoes multiplication where it is defined.",
 ["inputs"],"for all weights of all weight types","Tests sample a few weights per type.",
 ["rustfst/src/semirings/"],[("weight types","rustfst/src/semirings/*.rs")])
p("C17","Fault-free, hash-free static algorithms keep the weighted language they promise",
 "connect, projection, inversion, reverse, push, reweight, top sort, arc sort, weight conversion, shortest distance and the other algorithms without hash tables return an FST whose weighted language is the one their definition gives, for every input.",
 ["inputs"],"for all input FSTs","Tests compare with OpenFst on a fixed list of FSTs.",
 [A],[("static algorithms",A+"*.rs")])
p("C18","Property bits never claim something false",
 "A property flag reported as known true (or false) for an FST, stored or derived after any operation, agrees with what a full inspection of that FST finds.",
 ["inputs","histories"],"for all FSTs and operation sequences","Tests verify flags after each operation on a fixed list of FSTs and on small random ones.",
 ["rustfst/src/fst_properties/"],[("derived properties","rustfst/src/fst_properties/mutable_properties.rs")])
p("C19","Files interoperate with OpenFst",
 "A binary or text file written by OpenFst is read as the same FST, and a file written by the library is read by OpenFst as the same FST.",
 ["inputs","configurations"],"for all FSTs of the supported types","Tests use a fixed list of files produced by OpenFst.",
 ["rustfst/src/parsers/","rustfst/src/fst_impls/"],[("formats","rustfst/src/parsers/")])
p("C20","Symbol tables are bijections between symbols and labels",
 "A symbol table maps each symbol to exactly one label and back, labels are stable once given, and combining or copying tables keeps existing pairs.",
 ["inputs","histories"],"for all insertion histories","Tests insert a few symbols.",
 ["rustfst/src/symbol_table.rs"],[("symbol table","rustfst/src/symbol_table.rs")])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
