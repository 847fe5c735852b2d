#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["return values of the public operations", "the bytes of the cell after each call"],
                     hook_needed=None)))

X = ["src/lib.rs", "src/arch/x86.rs", "src/utils.rs"]
prop("C01", "Each operation returns and stores exactly the promised value",
 "A load returns the current value; a store makes its argument the current value; a swap returns the current value and makes its argument the current one; a matching compare-exchange installs its new value and returns the old one. This holds for every integer type, every byte pattern, every permitted ordering and every history of earlier operations on the cell.",
 ["inputs", "histories", "configurations"],
 "every value of every supported type, every ordering, every sequence of operations, debug and optimised builds, every instruction-set tier of the build (with and without SSE2/SSE/x87, cmpxchg8b, cmpxchg16b), current and legacy code paths",
 "The suite samples a few dozen mostly small constants per type in three debug configurations; random values, optimised builds, the SSE-less/x87-less 32-bit paths, the legacy path and long mixed histories are never run.",
 X + ["src/arch_legacy/x86.rs", "src/raw.rs"],
 [("inline assembly per width", "src/arch/x86.rs atomic!, atomic64!, atomic128!"), ("pair packing", "src/utils.rs MaybeUninit64/MaybeUninit128/Pair")],
 [dict(name="cell", meaning="the bytes of the value", where="AtomicMaybeUninit.v")])
prop("C02", "Every operation is one indivisible step on its cell",
 "Concurrent loads, stores, swaps and compare-exchanges on one cell behave as if they took effect one after another, in one order that agrees with the order of the calls within each thread. No load observes a mixture of two values, no update is lost, and a swap or compare-exchange never lets another write slip between its read and its write.",
 ["schedules", "configurations"],
 "every interleaving of two or three threads' operations on one cell, for every width and build configuration",
 "The stress tests run one random schedule per run and only check that a loaded value is among the stored ones; a lost update or a non-atomic swap is invisible to them, and most code paths are not compiled.",
 X + ["src/arch_legacy/x86.rs"],
 [("single locked instruction or retry loop", "src/arch/x86.rs"), ], observe=["invocation/response histories of concurrent operations"])
prop("C03", "Compare-exchange reports truthfully and writes only on a match",
 "A compare-exchange reports success exactly when it wrote the new value, and then the value it returns is byte for byte the expected one; when it reports failure it wrote nothing and returns the value that was in the cell. The strong form never fails while the cell holds the expected bytes; the weak form may fail spuriously but never otherwise differs.",
 ["inputs", "schedules", "configurations"],
 "all triples of current, expected and new values (in particular values that differ in any single byte), all 15 ordering pairs, strong and weak, all types and configurations, with and without interference from other threads",
 "The tests try two or three fixed value triples; values differing only in one byte or half, interference between the internal read and write, and non-default code paths are not exercised.",
 X + ["src/arch_legacy/x86.rs", "src/raw.rs"],
 [("lock cmpxchg / cmpxchg8b / cmpxchg16b and flag capture", "src/arch/x86.rs"), ("Ok/Err selection", "src/lib.rs compare_exchange, compare_exchange_weak"), ("default weak form", "src/raw.rs")])
prop("C04", "Bytes are carried verbatim and never interpreted as a value",
 "Every byte of a value, including bytes the caller left uninitialised or that are padding, is transported unchanged, and an operation never makes a decision that depends on an uninitialised byte other than the bytewise comparison of compare-exchange. Passing partially or fully uninitialised values to any operation is never undefined behaviour.",
 ["inputs", "programs", "configurations"],
 "all placements of uninitialised bytes in the cell and in the arguments, all types, operations and optimisation levels",
 "Whether a program is free of undefined behaviour is not observable from one compiled run; the tests pass a handful of uninitialised values through debug builds only.",
 X + ["src/raw.rs"],
 [("MaybeUninit operands of asm!", "src/arch/*.rs"), ("transmutes through MaybeUninit arrays and unions", "src/utils.rs"), ("legacy by-reference path", "src/arch_legacy")])
prop("C05", "fetch_update applies its function to the value it replaces",
 "A successful fetch_update replaced exactly the value it returns by the value its function produced for that very value, which was the cell's current value at the instant of the replacement; if the function declines, the call returns the value it declined and the cell is not written. Interfering writes make it retry with the fresh current value, for any number of interferences, and the function is never applied again after it declined or its result was installed.",
 ["inputs", "schedules", "histories"],
 "every pattern of interfering writes between the read and the compare-exchange of each attempt, every sequence of answers of the function, all types, all ordering pairs",
 "The existing tests never interfere between attempts deterministically and the stress test's function ignores its argument.",
 ["src/lib.rs"], [("load + compare_exchange_weak loop", "src/lib.rs fetch_update")])
prop("C06", "Release writes publish everything before them to acquire reads",
 "If an acquiring operation reads the value written by a releasing operation, then everything the releasing thread did before it is visible to the acquiring thread, whichever mix of load, store, swap, compare-exchange and fetch_update was used, with success and failure orderings each honoured. Neither the compiler nor the processor moves ordinary memory accesses across the operation in the forbidden direction.",
 ["schedules", "programs", "configurations"],
 "all message-passing programs built from the operations at every releasing/acquiring ordering combination, under every schedule the memory model allows, including optimised builds",
 "One lucky schedule per run cannot show absence of reordering, debug builds hide compiler reordering, and only store/load message passing with a few widths is tried.",
 X, [("asm! blocks without nomem/readonly", "src/arch/x86.rs"), ("instruction choice per ordering", "src/arch/*.rs")],
 observe=["which values concurrent readers may observe"])
prop("C07", "SeqCst operations agree on one total order",
 "All sequentially consistent operations, on any number of cells and of any kinds and widths, appear to all threads in one total order consistent with each thread's program order. In particular two threads that each write one cell and then read the other never both miss the other's write.",
 ["schedules", "programs", "configurations"],
 "all store-buffering, independent-reads and related programs built from SeqCst loads, stores, swaps and compare-exchanges of all widths and code paths",
 "Store buffering needs a rare schedule on real hardware, and the SSE-less, x87, cmpxchg8b-only and legacy store paths are never compiled by the tests.",
 X + ["src/arch_legacy/x86.rs"], [("xchg / lock or fence after SeqCst stores", "src/arch/x86.rs")],
 observe=["which combinations of loaded values are possible"])
prop("C08", "Operations touch only the cell's own bytes",
 "No operation ever changes, even temporarily, a byte outside the cell it was called on, so neighbouring data may be concurrently used by anyone. A load of a type no wider than a pointer needs nothing but readable memory, and no operation accesses bytes past the cell in a way that could fault.",
 ["inputs", "schedules", "configurations"],
 "every alignment position of the cell among neighbours, every type, operation, ordering and configuration, concurrent changes of the neighbours",
 "The default tests place one cell alone; neighbour checks exist only in property tests that do not run here, and a racy rewrite of a neighbour with its old value is invisible to any sequential test.",
 X + ["src/arch_legacy/x86.rs", "src/utils.rs"], [("operand sizes of the memory instructions", "src/arch/x86.rs")],
 observe=["memory around the cell"])
prop("C09", "Impossible orderings always panic, possible ones never do",
 "Loads with release semantics, stores with acquire semantics, and failure orderings with release semantics panic with the documented message in every build profile, before the cell is touched and before any user function is called; every other ordering combination, on every type, completes without panicking. Swap accepts all five orderings and compare-exchange any failure ordering of the three possible ones, including one stronger than the success ordering.",
 ["inputs", "configurations"],
 "all 5 orderings for load, store and swap, all 25 pairs for compare_exchange, compare_exchange_weak and fetch_update, all types, debug and optimised builds, all configurations, constant and run-time orderings",
 "Panic tests run only in debug builds and only for the three tested configurations; the state of the cell after the panic is not checked.",
 ["src/utils.rs", "src/lib.rs", "src/arch/x86.rs"], [("assert_load_ordering, assert_store_ordering, assert_compare_exchange_ordering", "src/utils.rs"), ("match order arms", "src/arch/x86.rs")])
prop("C10", "A cell is laid out like its integer and all accessors agree",
 "A cell has the size of its integer type and is aligned to that size, it can be created in constants, statics and arrays and shared between threads, and creating, borrowing mutably, taking the raw pointer, viewing existing memory as a cell and consuming it all refer to the same bytes. A value written through any of these views is what every other view and every operation sees next.",
 ["inputs", "histories", "configurations"],
 "all types, all byte patterns, all sequences of accessors and operations, constant and run-time construction",
 "The tests check a few fixed round trips per type; sequences that mix views and operations in optimised builds are not run.",
 ["src/lib.rs", "src/utils.rs"], [("repr(C) with zero-length alignment field", "src/lib.rs AtomicMaybeUninit"), ("by-value transmute", "src/utils.rs transmute_copy_by_val")])
prop("C11", "An operation leaves the surrounding computation intact",
 "Calling an operation changes nothing in the calling computation except its result and the cell: callee-saved and reserved registers, the stack, the x87/SSE state, and the values of all live variables and arguments survive, wherever the compiler placed the operands. This holds when operations are inlined into arbitrary code, including code where arguments alias each other or equal the cell's address and where the condition flags are live.",
 ["programs", "inputs", "configurations"],
 "every register allocation and surrounding program the compiler may choose, at every optimisation level",
 "A wrong clobber or a register that is not restored only shows in particular surrounding code; the tests run unoptimised code in which almost nothing is live across the operation.",
 ["src/arch/x86.rs", "src/arch_legacy/x86.rs"], [("asm! operand constraints, clobbers and options", "src/arch/x86.rs"), ("saving and restoring rbx", "src/arch/x86.rs atomic128!")],
 observe=["registers, flags and stack before and after the operation"])
prop("C12", "A compare-exchange honours both of its orderings",
 "When a compare-exchange or fetch_update succeeds it is at least as strong as its success ordering, and when it fails its read is at least as strong as its failure ordering, also when the failure ordering is stronger than the success ordering. Strengthening either ordering never makes an outcome possible that the weaker one forbade.",
 ["inputs", "schedules", "configurations"],
 "all 15 success/failure pairs, succeeding and failing executions, strong and weak forms, and every instruction mapping per architecture",
 "Pairs with a stronger failure ordering compile to different instruction sequences on several targets that the tests never run, and their effect needs specific schedules to show.",
 ["src/utils.rs", "src/lib.rs", "src/arch"], [("upgrade_success_ordering", "src/utils.rs"), ("atomic_rmw! / asm per ordering", "src/arch/*.rs")])
prop("C13", "Availability macros tell the truth about every configuration",
 "In every build configuration the has/no macro pair for a width expands exactly one of its two sides, and the side that says the width (or compare-exchange) is available expands exactly when load, store and, where applicable, swap and compare-exchange compile for the types of that width. The set of supported widths per target matches the documented support table.",
 ["configurations"],
 "all supported targets and feature combinations, all widths, all macros",
 "The tests compile three configurations of one architecture.",
 ["src/arch/cfgs", "src/lib.rs", "src/arch/mod.rs", "src/arch_legacy/mod.rs"], [("cfg_has_atomic_*/cfg_no_atomic_* definitions", "src/arch/cfgs/*.rs"), ("trait implementations", "src/arch/*.rs")],
 observe=["whether generated probe programs compile"])
prop("C14", "Every operation completes; retries happen only under interference",
 "An operation that runs without interference finishes in a bounded number of steps whatever the cell and the arguments contain, and when an internal retry does happen it is because another thread changed the cell meanwhile, so some thread always makes progress. A weak compare-exchange repeated without interference eventually succeeds.",
 ["schedules", "inputs", "configurations"],
 "all values, all schedules of interfering threads, all retry loops in all configurations",
 "A loop that hangs only for particular values or after particular interference is not met by fixed values and random schedules.",
 X + ["src/arch_legacy/x86.rs"], [("cmpxchg8b/cmpxchg16b retry loops", "src/arch/x86.rs"), ("fetch_update loop", "src/lib.rs")])
prop("C15", "Other architectures compute the same values as x86",
 "On every other supported architecture, every operation compiled for it computes the same results and final memory as the common definition of load, store, swap and compare-exchange, for every width including those narrower than the machine's atomic word, at every position inside that word, for either endianness, and whatever the unspecified upper bits of the operand registers contain. Neighbouring bytes of the word keep the values they have at the instant of the update.",
 ["inputs", "schedules", "configurations"],
 "all widths, byte positions, values, orderings, register contents the compiler may leave, interference between the linked load and the conditional store, and all feature tiers of each architecture",
 "None of these backends can be executed here and the repository's tests do not compile them.",
 ["src/arch", "src/utils.rs"], [("sub-word masking", "src/utils.rs create_sub_word_mask_values"), ("per-architecture asm", "src/arch/*.rs")],
 observe=["generated code of each target"])
prop("C16", "Other architectures give each operation its requested ordering",
 "On every other supported architecture the instructions chosen for each operation and ordering, on success and on failure, forbid every outcome that the requested ordering forbids when any of the operations are combined across threads. In particular release/acquire publication and the total order of SeqCst operations hold on weakly ordered processors.",
 ["schedules", "programs", "configurations"],
 "all litmus-test shapes over all operations and orderings, under the architecture's memory model, for all feature tiers of each architecture",
 "The weakly ordered targets are neither compiled nor run by the tests here, and on them only rare schedules expose a missing barrier.",
 ["src/arch"], [("barriers and acquire/release instruction variants", "src/arch/*.rs")],
 observe=["generated code of each target"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
