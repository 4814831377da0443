#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
AR = ["src/array/owned.rs", "src/array/ops.rs"]
# ---------------------------------------------------------------- claimed
p("C01", "Array contents follow the write history",
  "After any sequence of creations (with a default, or from a slice of elements), stores, clears, clones and changes of representation, reading an array at any index returns the value most recently stored there, and where nothing was stored the default: the creation default, zero for the padding behind a slice, zero everywhere after a clear. Index and element width, and with them the reported number of elements and of words per element, never change, and a clone and its original never influence each other. Storage is dense exactly when the array was created dense, was made dense, or is a copy of such an array; making it dense succeeds for every array that fits the documented limit (1 GiB, and for one-bit elements also the widest possible bit-vector), and wrapping an array as a general value and unwrapping it gives the same array back. This holds for every index and element width, for every interleaving of the clients that issue the operations, and for every seed of the process's hash tables.",
  ["histories", "schedules", "inputs"],
  "all histories of array operations over all index/element widths and both representations, all interleavings of several clients at operation boundaries, all hash-table seeds",
  "The unit tests convert three small literal arrays and never call store, select or clear on more than one shape; no test uses element widths above 64 or index widths above 64, mutates after a conversion, or varies the hash seed.",
  AR, [("dense store/select per element class", "src/array/owned.rs DenseArrayValue"), ("sparse map with default elision", "src/array/owned.rs SparseArrayValue::store/select"), ("conversions between representations", "src/array/owned.rs From impls, make_dense")],
  [("elements", "dense vectors or hash map plus default", "src/array/owned.rs")], ["select after every mutating step", "full sweep at the end of a history"])
p("C02", "Array equality means equal contents",
  "Two arrays of the same index and element width compare equal exactly when they hold the same value at every index, whatever their representations, defaults, construction histories or hash-table seeds; the comparison is symmetric and changes neither side. Arrays of different index or element width are reported as not comparable by the equality query and as unequal by ==.",
  ["histories", "inputs", "schedules"],
  "all pairs of construction histories over all array types, representations and defaults, all hash-table seeds",
  "Equality is only tested on three arrays against their own conversion; never on two histories that reach the same contents by different routes or with different defaults, never on unequal arrays.",
  AR, [("per-representation comparison", "src/array/owned.rs is_equal"), ("mixed comparison densifies", "src/array/owned.rs is_equal_mixed")],
  [("default + map", "the default never appears as a map value", "src/array/owned.rs SparseArrayImpl")], ["is_equal both ways, ==, Value equality"])
p("C03", "A sparse array lists exactly its non-default elements",
  "At any point of any history, a sparse array's enumeration yields every index whose element differs from its reported default exactly once, with that element, and yields nothing else, in whatever order the process's hash seed produces. The default together with the enumeration therefore reconstructs the whole array, including arrays that were converted from dense storage (whose default is then an element that no other one outnumbers, for up to 2^20 different elements), and every yielded index and element has the array's index and element width.",
  ["histories", "inputs", "schedules"],
  "all histories of stores/clears/clones/conversions, all array types, all hash-table seeds",
  "One test enumerates one 8-element byte array; conversions of larger element values, wide elements, wide indices, single-element arrays and arrays mutated after conversion are never enumerated, and the hash seed is never varied.",
  AR, [("non_default_entries / default", "src/array/owned.rs"), ("default search on conversion", "src/array/owned.rs From<&DenseArrayValue>"), ("store of the default removes the entry", "src/array/owned.rs store*")],
  [], ["enumeration collected, sorted and compared with the reference contents"])
p("C04", "An array operation that fails takes no effect",
  "If a store, clear, clone, comparison, read, enumeration, conversion or change of representation unwinds part-way (memory is exhausted at any of its allocations, a caller-supplied index or value conversion panics, a width mismatch is rejected, or the requested dense array cannot be represented), then every array involved afterwards holds either exactly its contents from before the operation or exactly the operation's complete effect, and no other array changes. Repeating the operation once the fault is gone succeeds and has its full effect.",
  ["fault_sequences", "crash_points", "histories"],
  "all histories, all positions of an allocation failure or callback panic inside each operation, all requests for impossible dense arrays",
  "No test injects a failure of any kind into an array operation or looks at an array after a panic.",
  AR, [("build the new representation, then swap", "src/array/owned.rs make_dense"), ("arguments are converted before the container is touched", "src/array/owned.rs store"), ("allocate before mutate", "src/array/owned.rs clear")],
  [], ["full sweep of all arrays after every injected fault", "retry after the fault"])
p("C05", "Interning gives each value one stable identity",
  "Interning the same bits at the same width always returns the same handle for as long as the table lives, different bits or a different width never share a handle, and every handle ever returned keeps resolving to exactly its value and width no matter what is interned afterwards or in a clone of the table. The handles returned depend only on the sequence of interned values, not on hash seeds or on the process. The zero and one queries answer true exactly for handles of the values zero and one.",
  ["histories", "schedules", "inputs"],
  "all sequences of interned values of nonzero width, interleaved over several tables and their clones, all hash-table seeds",
  "The tests intern one value twice in an otherwise empty table; they never check that different values get different handles, that old handles survive growth, or mixtures of widths around the word boundary.",
  ["src/bv/indexed.rs"], [("small/large lookup tables and the shared word vector", "src/bv/indexed.rs ValueInterner::get_index"), ("preloaded constants", "src/bv/indexed.rs ValueInterner::new")],
  [("words", "append-only backing store", "src/bv/indexed.rs")], ["all handles re-resolved after every step"])
p("C06", "The interning table survives failed interning",
  "If interning a value or cloning the table unwinds part-way because memory is exhausted at any of its allocations, every handle returned earlier still resolves to its value and is returned again for it, no value ever resolves to the wrong bits, and interning the same value again once memory is available succeeds and yields a handle that satisfies all of this.",
  ["fault_sequences", "crash_points", "histories"],
  "all sequences of interned values, all positions of allocation failures inside interning and cloning",
  "No test fails an allocation.",
  ["src/bv/indexed.rs"], [("words are appended before the lookup entry is published", "src/bv/indexed.rs ValueInterner::get_index")],
  [], ["all handles re-resolved and re-interned after every injected fault"])
p("C07", "Views into a shared word store never disturb their neighbours",
  "When many values live side by side in one shared word store, updating one of them through a mutable view (alone, or together with one or two read-only views of others) changes that value as requested and leaves every bit of every other value in the store unchanged, in any interleaving of clients and also when the update is abandoned by a panic or a rejected input. Read-only views show exactly the addressed value, and a request for a mutable view that overlaps a read-only one is refused without effect.",
  ["histories", "schedules", "fault_sequences"],
  "all layouts of values in a store, all histories of in-place updates by several clients, panics and parse errors at any update",
  "One test assigns two adjacent one-word values; splitting is tested on a four-word slice. Multi-word neighbours, three-way views, word-boundary widths and abandoned updates are never tested.",
  ["src/bv/indexed.rs", "src/bv/ops.rs", "src/bv/borrowed.rs"], [("index to word range", "src/bv/indexed.rs BitVecValueIndex::to_range"), ("split borrow", "src/bv/indexed.rs split_borrow_1/2"), ("in-place mutators", "src/bv/ops.rs BitVecMutOps")],
  [("backing words", "caller-owned slice shared by all values", "src/bv/indexed.rs")], ["whole store compared with the reference after every step"])
p("C08", "In-place assignment leaves no trace of the previous value",
  "After any in-place assignment that succeeds (from another value, from a machine integer, from text in base 2, 10 or 16, all ones, all zeros), the destination equals exactly the assigned value at its own width, whatever it held before and whatever failed earlier; setting or clearing a bit changes that bit only. An assignment from text that reports an error leaves the destination exactly as it was.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of in-place updates on owned values and on views, with valid, malformed and oversized text at any point, all widths (decimal text up to 128 bits)",
  "Every test parses or assigns into a fresh all-zero destination and no test looks at the destination after an error.",
  ["src/bv/ops.rs", "src/bv/io/strings.rs", "src/bv/arithmetic.rs"], [("BitVecMutOps", "src/bv/ops.rs"), ("from_str_radix", "src/bv/io/strings.rs")],
  [], ["destination compared with the reference after every step"])
p("C09", "Serialized state survives crash and restart",
  "Arrays, sparse arrays and bit-vectors that were written out through their serialization support and restored, in another process with other hash seeds, in any serialization format that can represent them, hold exactly the same widths and contents, in the same representation, and behave identically under every further operation. A snapshot whose tail was lost is refused when restoring, without panic, so after a crash at any point of writing a snapshot the recovered state is either the last complete snapshot or the one being written.",
  ["crash_points", "fault_sequences", "histories"],
  "all histories of operations and snapshots, crashes at any write, torn and short writes, short and interrupted reads, three formats (text self-describing, binary self-describing, binary positional), all hash seeds before and after restart",
  "No test serializes anything; the feature is only compiled.",
  ["src/array/owned.rs", "src/bv/owned.rs"], [("derived Serialize/Deserialize", "src/array/owned.rs, src/bv/owned.rs (feature serde1)")],
  [], ["recovered state compared with the reference, then the history continues on it"])
p("C10", "Operations do not interfere across threads, time or failures",
  "The result of every operation of the library depends only on its operands: it is the same as when that operation is the first one ever executed in a fresh process, no matter which other operations ran before it, run concurrently with it on other threads under any interleaving, share operands with it, or failed part-way before it. All value types can be shared with and sent to other threads, and no interleaving deadlocks.",
  ["schedules", "histories", "fault_sequences"],
  "all operations of the public API, all interleavings of several threads down to individual memory accesses of the library, all previous histories including operations that unwound",
  "All tests run single operations on their own operands; concurrent use, shared operands and repeated use after failures are never exercised.",
  ["src/bv/ops.rs", "src/bv/owned.rs", "src/bv/borrowed.rs", "src/bv/indexed.rs", "src/bv/arithmetic.rs", "src/bv/io/strings.rs", "src/bv/io/bytes.rs", "src/bv/io/bigint.rs", "src/array/owned.rs", "src/lib.rs"],
  [("no interior mutability or global state; operations take &self and return fresh values", "whole crate")],
  [], ["digest of every operation's result, compared with its digest in a pristine process"])
p("C11", "Stored numerals read back exactly or are refused, even when damaged",
  "A value written as base-2, base-16 or decimal text (signed or unsigned) or as little-endian bytes and read back at its width is the same value. When stored bytes were truncated, corrupted, duplicated or reordered in between, reading text back either yields exactly the number the damaged text denotes, which then fits the requested width, or reports an error; it never panics, and never yields a value with bits beyond its width.",
  ["fault_sequences", "crash_points", "inputs"],
  "all widths (decimal text up to 128 bits), all values, all torn/flipped/duplicated/lost/reordered bytes between writing and reading",
  "Tests round-trip unsigned text and signed text produced from text, at widths derived from the text itself; they never parse malformed or oversized text, never parse at an independently chosen width and never damage the text.",
  ["src/bv/io/strings.rs", "src/bv/io/bytes.rs", "src/bv/ops.rs", "src/bv/owned.rs"],
  [("from_str_radix and the per-base parsers", "src/bv/io/strings.rs"), ("to_*_str", "src/bv/io/strings.rs"), ("bytes", "src/bv/io/bytes.rs")],
  [], ["recovered records compared with the written values and with a reference reading of the damaged text"])
p("C12", "Values are coherent keys of hash and ordered collections",
  "Two bit-vector values with the same width and bits are one and the same key, and values differing in width or bits are different keys, no matter by which operations they were produced and whether they are held owned or as a borrowed view: hash tables under every seed and ordered sets and maps keyed by them behave like a reference map over arbitrary histories of insertions, removals and lookups. Equality, hashing and ordering never change for a value that is not modified.",
  ["histories", "schedules", "inputs"],
  "all histories of collection operations over values of mixed widths produced by different operations, all hash seeds",
  "The tests compare the hash of one value with that of its own view; collections keyed by values, mixed widths and seeds are never exercised (the lookup path of wide-index arrays depends on this).",
  ["src/bv/owned.rs", "src/bv/borrowed.rs"], [("derived Hash/Ord, manual Eq", "src/bv/owned.rs"), ("view equality, hash and Borrow", "src/bv/borrowed.rs")],
  [], ["every collection answer compared with the reference"])
p("C13", "All memory is returned, and sparse storage stays proportional",
  "Once all values, arrays and tables produced by a history have been dropped, every byte the library allocated has been returned to the allocator with the size it was requested with, also when operations of the history failed part-way. The memory a sparse array holds is bounded by a constant multiple of the largest number of non-default elements it held at any one time, however many stores it has seen.",
  ["histories", "fault_sequences"],
  "all histories over values, arrays and interning tables with allocation failures and panics at any point",
  "No test observes allocation.",
  ["src/array/owned.rs", "src/bv/owned.rs", "src/bv/indexed.rs"], [("ownership; default elision removes entries", "src/array/owned.rs"), ("inline small vectors", "src/bv/owned.rs")],
  [], ["simulated allocator's ledger after every history and after each store"])
p("C14", "Programs over bit-vectors mean what they mean over the integers, through failures and restarts",
  "A program of bit-vector operations computes, step by step and at every positive width, what the same program computes over the integers modulo 2^width and over bit strings: addition, subtraction, negation, multiplication (up to 64 bits), bitwise logic, shifts, slices, concatenation, extensions, bit and whole-value assignment, signed and unsigned comparisons and predicates, conversions to and from machine integers (exact, or refused where the number does not fit), big integers, fixed-point fractions, text (decimal up to 128 bits) and bytes, array loads and stores. This holds wherever the operands and results live (owned values, views into a shared word store or into an interning table, array elements, values restored from a checkpoint), whichever earlier steps failed because memory ran out and were repeated, and across crashes and restarts from a checkpoint. A step that fails changes nothing, writing one register changes no other, and every result is in canonical form (no bits beyond its width).",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "all programs (sequences of operations with any data flow between registers of any homes and widths), all positions of refused allocations, all crash points between checkpoints, all values",
  "The tests apply one internal operation to fresh operands; they never feed results of one operation into another, never mix homes, use the public one-word and mixed-width paths only at a few widths, and inject no failure.",
  ["src/bv/ops.rs", "src/bv/arithmetic.rs", "src/bv/owned.rs", "src/bv/borrowed.rs", "src/bv/io/bigint.rs", "src/bv/indexed.rs"],
  [("public operations with one-word special cases", "src/bv/ops.rs"), ("multi-word algorithms", "src/bv/arithmetic.rs"), ("big integers", "src/bv/io/bigint.rs"), ("mask_msb keeps results canonical", "src/bv/arithmetic.rs")],
  [("words", "little-endian words, unused bits zero", "src/bv/owned.rs")],
  ["every result and observation compared with the reference machine", "all registers and the words between them after every step"])
# ---------------------------------------------------------------- not applicable
N = "sampled by proptests at the internal word level; "
p("C20", "Arithmetic is exact modulo 2^width",
  "Addition, subtraction, multiplication and negation of two values of equal width equal the integer result modulo 2^width for every width, in operator and method form.",
  ["inputs"], "all widths and operand values",
  N + "multiplication is only tested on one input and unimplemented beyond 64 bits; the public wrappers are untested.",
  ["src/bv/arithmetic.rs", "src/bv/ops.rs"], [("add/sub/mul/negate", "src/bv/arithmetic.rs")])
p("C21", "Bit-structure operations match their string semantics",
  "Slicing, concatenation, zero and sign extension, shifts and bitwise logic produce exactly the bits their textual definition on the bit string gives, for all widths, positions and shift amounts.",
  ["inputs"], "all widths, values, positions and amounts", N + "slice/concat through the public one-word special cases are not tested.",
  ["src/bv/arithmetic.rs", "src/bv/ops.rs"], [("slice/concat/extend/shift", "src/bv/arithmetic.rs")])
p("C22", "Comparisons agree with integer order",
  "All signed and unsigned comparisons of equal-width values agree with the order of the integers they denote, and are mutually consistent (a>=b iff not a<b).",
  ["inputs"], "all widths and values", N + "the public wrappers are untested.",
  ["src/bv/arithmetic.rs", "src/bv/ops.rs"], [("cmp_*", "src/bv/arithmetic.rs")])
p("C23", "Machine integer conversions are exact or refused",
  "Conversion to a 64-bit signed or unsigned integer or bool returns the denoted number exactly when it is representable and nothing otherwise; conversion from machine integers denotes the same number.",
  ["inputs"], "all widths and values", "round trips are tested at width 64 and 32 only.",
  ["src/bv/ops.rs"], [("to_u64/to_i64/assign_from_*", "src/bv/ops.rs")])
p("C24", "Big-integer and fixed-point conversions preserve the number",
  "Converting to and from arbitrary-precision integers and to fixed-point fractions preserves the denoted signed or unsigned number at every width.",
  ["inputs"], "all widths and values", N + "only at minimal widths; fixed point is untested.",
  ["src/bv/io/bigint.rs", "src/bv/ops.rs"], [("to/from_big_*", "src/bv/io/bigint.rs")])
p("C25", "Every result is in canonical form",
  "Every value returned by any operation has zero in all bits beyond its width and exactly as many words as its width needs.",
  ["inputs"], "all operations, widths and values", N + "not for the public API.",
  ["src/bv/arithmetic.rs", "src/bv/ops.rs", "src/bv/owned.rs"], [("mask_msb", "src/bv/arithmetic.rs")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
