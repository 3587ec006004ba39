#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep ids, titles and statements in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

VB = "src/internal/vector_base.rs"; BV = "src/bit_vec/bit_vector.rs"; BT = "src/bit_vec/traits.rs"
BS = "src/bit_vec/bit_slice.rs"; PR = "src/bit_vec/prim.rs"; IV = "src/int_vec/int_vector.rs"
ST = "src/storage.rs"; BW = "src/broadword.rs"; JR = "src/rank/jacobson.rs"; R9 = "src/rank/rank9.rs"
RP = "src/rank/prim.rs"; RT = "src/rank/traits.rs"; SB = "src/select/bin_search.rs"; SE = "src/internal/search.rs"
BB = "src/stream/bit_buffer.rs"; SR = "src/stream/traits.rs"; SU = "src/space_usage.rs"; MA = "src/macros.rs"
CO = ["src/coding/unary.rs", "src/coding/elias.rs", "src/coding/fib.rs", "src/coding/comma.rs", "src/coding/trans.rs"]

prop("C01", "Bit vectors behave as an ideal bit sequence under every operation history",
 "A bit vector of any block width, after any history of construction, bit and block pushes (a block push first zero-pads to the next block boundary), pops, single-bit, multi-bit and block writes, truncations, resizes, clears, capacity changes and clones (into a new vector or over an existing one), has exactly the length and exactly the bits that a plain sequence of booleans would have after the same operations. Multi-bit and block values are little-endian: the lowest-numbered bit is the least significant. Bits added by growth are exactly the requested fill (zero where padding is specified), never leftovers of removed contents.",
 ["histories", "inputs", "configurations"], "every operation sequence, every argument, every block type (u8, u16, u32, u64, usize), every length including lengths past 2^32 bits",
 "the tests run a dozen hand-written short sequences, mostly on one block type; a wrong interaction (truncate then grow, pop across a block edge, resize with an unaligned tail) needs a particular history and length",
 [VB, BV, BT], [("unused bits kept zero (clear_extra_bits)", VB), ("length recomputed from blocks (set_len_from_blocks)", VB), ("resize fills the partial block bit by bit", BV), ("read-modify-write of one or two blocks", BT)],
 ["bit_len/block_len/get_bit/get_bits/get_block, iter, pop_bit return values"],
 [("len", "number of valid bits", VB), ("vec", "blocks, trailing bits zero", VB)])

prop("C02", "Integer vectors behave as an ideal sequence of k-bit integers, every history",
 "An integer vector of any element width from 1 to the block width, after any history of construction, push, pop, set, bit/block writes, arbitrary-width field access, truncation, resize, clear, capacity changes and clones (into a new vector or over an existing one), holds exactly the elements (and bits) that a plain list of k-bit integers packed little-endian without gaps would hold after the same operations. Every value that fits in k bits is stored and returned exactly, elements never disturb their neighbours, and an element wider than its width is rejected by push, and by set for widths below the block width, leaving the vector unchanged.",
 ["histories", "inputs", "configurations"], "every operation sequence, every element width 1..=64, every block type, every index and value, positions past 2^32 bits",
 "tests use a handful of widths (1,3,4,5,7,13,16,32,64) and short sequences; elements straddling blocks behave differently for each (width, index) pair",
 [VB, IV, BT], [("bit address = index * width with overflow check", IV), ("block-sized fast path", IV), ("straddling reads and writes", BT)],
 ["len, get, pop, iter, get_random, get_bit, get_block"],
 [("element_bits", "element width", IV), ("len", "number of elements", VB)])

prop("C03", "Equality, hash and order depend only on contents, never on history",
 "Two bit vectors (or two integer vectors of equal element width) with the same contents are equal, hash identically and compare as equal no matter which operations, capacities or earlier longer contents led to them; vectors with different contents or element widths are unequal. The ordering is a total order consistent with equality, and a clone equals its source and is independent of it afterwards.",
 ["histories", "inputs"], "all pairs of histories, all contents",
 "the tests compare two integer vectors after one push/pop; stale unused bits show up only after specific histories",
 [VB, BV, IV], [("derived Eq/Ord/Hash sound only because unused bits are zero and all blocks are in use", VB)],
 ["==, cmp, partial_cmp, Hash, clone"])

prop("C04", "Out-of-range accesses always panic and never change anything",
 "Reading or writing a bit, element, block or bit span not wholly inside a bit vector, integer vector, slice, block array, boolean vector, bit buffer or machine word panics, in checked and in optimised builds, for every index including ones whose arithmetic would overflow, and leaves the contents unchanged. Every access wholly inside succeeds, including zero-width spans at the very end.",
 ["inputs", "configurations"], "every (position, width) pair including near 2^32, 2^58..2^64, every container and block type, debug and release arithmetic",
 "tests try one or two just-past-the-end indices; wrapping index arithmetic and debug-only checks are never exercised in release builds",
 [VB, BV, BT, BS, PR, IV, ST], [("bounds assertions in every accessor", BT), ("overflow-checked addressing", IV)],
 ["panic/no panic and contents afterwards"])

prop("C05", "Reserved capacity is really available and impossible sizes are refused",
 "After creating with a capacity or reserving room for n more bits, elements or blocks, the reported capacity covers the current length plus n and that many pushes do not reallocate (the reported capacity stays the same); an exact reservation does nothing when capacity already suffices, clearing keeps capacity, shrinking drops it to fit. None of these operations changes the contents. A length or capacity too large to represent is refused by panicking or aborting in every build, never silently replaced by a smaller one.",
 ["histories", "inputs", "configurations"], "every interleaving of capacity operations with pushes, pops, truncations and clears; all sizes up to 2^64-1",
 "capacity tests check two constants; the shortfall appears only when spare capacity already exists, the wrap only in release builds",
 [VB, BV, IV, ST], [("additional_blocks computation", VB), ("checked multiplication and rounding up to blocks", ST)],
 ["capacity(), block_capacity(), contents"])

prop("C06", "Iterators yield every element exactly once from either end, with exact lengths",
 "Iterating a bit or integer vector yields exactly its elements in order; under every interleaving of next, next-from-the-back, nth (any n, including past the end), last, count, cloning and whole-iterator consumption (folds, searches, reversals, skips, comparisons), each element is delivered at most once in its right place, and the reported remaining length and size hint are exact at every moment. An exhausted iterator keeps returning nothing and reports zero remaining.",
 ["histories", "inputs"], "every interleaving of iterator operations, every vector length, width and block type",
 "the tests only collect one five-element vector forwards",
 [VB, BV, IV], [("start/limit cursors", VB), ("nth skips by moving the front cursor", VB)], ["iterator items, len, size_hint"],
 [("start, limit", "remaining index window", VB)])

prop("C07", "Bit slices are exact windows onto their base",
 "A slice (or nested slice, shared or mutable) over a valid range reads exactly the base's bits of that range through every accessor, including the last partial block, whose bits beyond the slice read as zero; writes through a mutable slice change exactly the addressed bits of the base and nothing outside the slice. Absent range ends default to the ends of the sliced thing, sub-slicing composes offsets, and a range reaching past the end is refused.",
 ["inputs", "programs"], "every base length, every range form, every nesting, every position and width, every base kind",
 "there is no test of slices at all beyond a doc example of range defaulting",
 [BS], [("start/len offset arithmetic", BS), ("range defaulting", BS)], ["BitVec/BitVecMut methods of the slice; base contents after writes"],
 [("start, len", "window", BS)])

prop("C08", "Bit, multi-bit and block views agree for every bit-vector implementation",
 "For every implementation of the bit-vector interfaces (block arrays, slices, vectors of booleans, machine words, buffers, rank and select wrappers, and user types defining only the minimal bit or only the minimal block methods), single-bit, multi-bit and block reads agree bit for bit and every kind of write is seen identically by all of them. Block views number bits from the least significant; writes to the last partial block touch only bits inside the length; whatever a user's store keeps in the unused bits of its last block never influences an answer.",
 ["inputs", "programs", "configurations"], "every implementation, every length and contents, every position and width",
 "default methods are exercised only through the library's own types at a few positions",
 [BT, PR, BB, MA], [("mutually recursive default methods", BT)], ["get_bit, get_bits, get_block, set_bit, set_bits, set_block, bit_len, block_len, push_block, align_block"])

prop("C09", "Block-word bit and size arithmetic is exact for every word",
 "For every block type and every in-range argument, masks, bit and field extraction and update, division/remainder/multiplication by the block width, rounding up to blocks, last-block size, floor and ceiling logarithms and ceiling division return the mathematically exact result (including when an intermediate sum would overflow the type), and splitting a bit index into an address and back is the identity.",
 ["inputs", "configurations"], "all words and arguments of each of the five block types",
 "tests check a few constants plus random 64-bit samples; the extremes of narrow types are not sampled",
 [ST], [("shift/mask arithmetic", ST), ("Address::new / bit_index", ST)], ["BlockType methods, Address"])

prop("C10", "Block I/O is byte-exact in either byte order, under every I/O behaviour",
 "Writing a block emits exactly its size in bytes in the requested byte order and reading such bytes returns the same block, consuming exactly those bytes, however the underlying reader or writer fragments or interrupts the transfer. A source that ends early gives an unexpected-end error, any other I/O error is returned as is, and no error is ever turned into a block.",
 ["inputs", "fault_sequences"], "all five block types, both byte orders, every fragmentation and every failure point",
 "block I/O has no tests",
 [ST], [("byteorder read/write per type", ST)], ["read_block, write_block"])

prop("C11", "Jacobson rank equals counting, for every store, length and position",
 "For every bit vector of any length (including empty and one-bit vectors) over any block type and any store implementation, a Jacobson rank structure can be built, and the rank of 1 (or 0) at each position equals the number of 1 (or 0) bits up to and including it; the limit is the vector's length.",
 ["inputs", "configurations"], "all lengths and contents, all positions, all block types and stores, lengths past 2^32 bits",
 "one test on one 32768-bit periodic pattern; block-directory geometry changes with the length, so most lengths are never built",
 [JR, IV, BT], [("two-level directory sized from the length", JR)], ["JacobsonRank::new, rank, rank0, rank1, limit"],
 [("large_block_ranks, small_block_ranks", "directories", JR)])

prop("C12", "Rank9 equals counting, for every store, length and position",
 "For every bit vector of any length over 64-bit blocks and any store implementation, a rank9 structure can be built, and the rank of 1 (or 0) at each position equals the number of 1 (or 0) bits up to and including it; the limit is the vector's length.",
 ["inputs", "configurations"], "all lengths and contents, all positions, all stores, lengths past 2^32 bits",
 "one test on one 65536-bit periodic pattern with at most 4 ones per word, so the 9-bit counters never get near their maximum",
 [R9], [("interleaved absolute and 9-bit relative counts", R9)], ["Rank9::new, rank, rank0, rank1, limit"],
 [("counts", "directory cells", R9)])

prop("C13", "Machine words answer rank and population count exactly",
 "For every word of every block type and for 64-bit broadwords, the rank of 1 (or 0) at each position equals the number of 1 (or 0) bits up to and including it, the limit is the word width, and the broadword population count equals the number of one bits.",
 ["inputs"], "all words, all positions, five block types and the broadword wrapper",
 "tests sample a few bytes and random words",
 [RP, BW, RT], [("mask and count", RP), ("sideways addition", BW)], ["rank, rank0, rank1, limit, count_ones"])

prop("C14", "Binary-search select is the exact inverse of rank",
 "Over any rank structure, selecting the i-th occurrence (counting from zero) of 1, of 0, or of any symbol returns the position of exactly that occurrence, and nothing when there are not that many occurrences, for every i up to 2^64-1 and every length including zero. It never queries ranks outside the structure.",
 ["inputs", "configurations"], "all rank structures (both directories, words, broadwords, user-defined alphabets), all contents, all indices, limits up to 2^63",
 "tests try three periodic patterns and only 1-bits; select0, general symbols, empty structures and extreme indices are untested",
 [SB, SE], [("binary search for the first position whose rank exceeds i", SE)], ["select1, select0, select"])

prop("C15", "Broadword select and byte-parallel comparisons match their definitions",
 "For every 64-bit word and every index r, broadword select returns the position of the r-th one bit (from zero) or reports that there is none. The byte-parallel operations set the high bit of each byte exactly where the unsigned (or signed) byte of the first operand is at most that of the second, or where the byte is nonzero, independently in all eight lanes.",
 ["inputs"], "all words, all indices including r >= 64, all byte pairs in each lane with every neighbour",
 "select is tested for r <= 64 on random words; the signed comparison has only a few hand-picked rows",
 [BW], [("carry-free parallel subtraction", BW)], ["select1, select1_raw, Broadword::select1, u_le8, le8, u_nz8"])

prop("C16", "Rank queries at or beyond the limit are refused in every build",
 "Asking any rank structure (Jacobson, rank9, machine word, broadword, or a select wrapper around one) for the rank of either value at a position at or beyond its limit panics, in checked and optimised builds alike, rather than returning a number.",
 ["inputs", "configurations"], "all structures, lengths and out-of-range positions up to 2^64-1, both build profiles",
 "no test queries out of range",
 [JR, R9, RP, BW, RT, SB], [("bounds assertions", JR)], ["panic or not"])

prop("C17", "Rank/select wrappers and exported adapter macros are transparent",
 "Wrapping a bit vector in rank and select structures loses nothing: the wrapper reports the same length and bits through every read method, lends and returns the original store unchanged, forwards rank and limit, and the exported adapter macros give a user's wrapper type exactly the wrapped field's answers.",
 ["inputs", "programs"], "all stacks of wrappers over all stores and contents",
 "adapters are used by the tests for a few rank queries only",
 [MA, JR, R9, SB], [("forwarding macros", MA)], ["BitVec/RankSupport/BitRankSupport/Select* methods of wrappers, inner, into_inner"])

prop("C18", "A bit buffer behaves as a seekable tape over its bit vector",
 "Starting from any content and position, every sequence of bit reads, bit writes, seeks and direct edits behaves as a tape: reads return the bit at the position and advance, reading at the end returns end-of-file and stays put, writes overwrite in place before the end and append exactly one bit at the end, seeking within 0..=length moves and beyond it fails leaving the position alone. The underlying vector always equals the tape contents and is returned unchanged on extraction; a clone is an independent tape with the same contents at the same position.",
 ["histories", "inputs", "configurations"], "every interleaving of reads, writes and seeks, over every underlying vector kind",
 "two straight-line tests; never a write in the middle, a seek, or a mixed sequence",
 [BB], [("position cursor and growth loop", BB)], ["read_bit, write_bit, seek, position, inner, into_inner"],
 [("pos", "tape head", BB)])

prop("C19", "Fixed-width integer stream I/O is exact in both bit orders",
 "Writing the low n bits of an integer of any primitive type (signed or unsigned), for any n from 0 to its width, emits exactly those n bits least-significant first (or most-significant first for the big-endian form), and reading n bits back in the same order returns that value. Reading n > 0 bits at the very end gives end-of-file without error, running out in the middle gives an unexpected-end error, and n = 0 reads zero consuming nothing.",
 ["inputs", "configurations"], "all integer types, all widths, all values, every truncation point, any bit source",
 "tests use i32 with a few small values and widths",
 [SR], [("shift and mask loops", SR)], ["write_int, write_int_be, read_int, read_int_be"])

prop("C20", "Universal codes round-trip any sequence of values and self-delimit",
 "For every code and every sequence of values in its domain, encoding them one after another onto any bit sink and decoding from the start returns exactly those values in order, then a clean end-of-stream. Each decode consumes exactly the bits its encode produced, whatever bits follow.",
 ["inputs", "histories", "configurations"], "all codes and combinators (unary, gamma, delta, omega, Fibonacci, comma 2..63, lifted and nested), all values up to 2^64-1 in the code's domain, all sequences and following bits",
 "QuickCheck samples small random values (below about 100), so wide values and group-size boundaries are never reached",
 CO + [SR], [("length headers, digit stacks, terminators", "src/coding")], ["encode/decode on VecDeque and BitBuffer"])

prop("C21", "Codewords are exactly the published ones",
 "Each encoder emits exactly the codeword of its definition: unary n zeros then a one; Elias gamma the bit length minus one in unary then the remaining bits least-significant first; delta the same with a gamma header of length; omega the recursive most-significant-first groups ended by a zero; Fibonacci the Zeckendorf sum, smallest term first, ended by an extra one; comma the base 2^n-1 digits, most significant first, each n bits least-significant first, ended by the all-ones digit. Lifting encodes value plus one.",
 ["inputs"], "all values of each code's domain",
 "tests only check decode(encode(x)); a symmetric change to encoder and decoder would silently break stored data",
 CO, [("encoders", "src/coding")], ["bits written"])

prop("C22", "Decoding any bit string is total and exact",
 "For every code, decoding from any finite bit string terminates without panicking: a complete codeword yields exactly its value having consumed exactly its bits, an empty source yields a clean end-of-stream, a proper prefix of a codeword yields an unexpected-end error (never a clean end, never a value), and a string denoting a value beyond 64 bits yields an error, never a wrapped value.",
 ["inputs", "fault_sequences", "configurations"], "all bit strings up to a bounded depth plus all small deviations of the longest codewords, both build profiles",
 "tests decode only what the encoder wrote, never truncated or corrupt input",
 CO + [SR], [("consumed flags, overflow checks, size guards", "src/coding")], ["decode result and bits consumed"])

prop("C23", "Values outside a code's domain are refused before anything is written",
 "Encoding a value a code cannot represent (zero for the Elias codes including omega and for Fibonacci, values at or above the largest representable Fibonacci number, the maximum value under lifting) panics or returns an error and writes no bit; every successful encode is decodable to the same value. No code rejects a value inside its domain.",
 ["inputs"], "all codes, all values outside and at the edge of the domain",
 "tests add one to every sampled value and never reach the limits",
 CO, [("zero assertions, checked addition", "src/coding")], ["result, panic, bits written"])

prop("C24", "Stream errors surface unchanged and stop the operation at once",
 "If the bit sink or source fails at any point during integer or universal-code I/O, the operation returns that same error, exactly the bits preceding the failure have been written (a prefix of the codeword) or consumed, and no further access is attempted; an error is never turned into a value, an end-of-stream or a success.",
 ["fault_sequences", "inputs"], "every failure position in every codeword and integer transfer, every error kind",
 "no test injects an error",
 CO + [SR], [("error propagation in every loop", "src/coding")], ["result of encode/decode/read_int/write_int and the calls seen by the stream"])

prop("C25", "Reported space usage equals the memory really owned",
 "For every supported type and after any history, the reported heap bytes equal the bytes of heap memory the value actually owns, the stack bytes equal its static size, the total is their sum, and a type that declares itself stack-only owns no heap memory.",
 ["histories", "inputs", "programs"], "all types (primitives, tuples up to 12, boxes, vectors, nested combinations, bit/int vectors, rank and select structures), all histories",
 "tests check a few sizes computed by hand, and only an upper bound for rank structures",
 [SU, VB, JR, R9, SB, BS], [("capacity times element size plus nested heap", SU)], ["total_bytes, heap_bytes, stack_bytes, is_stack_only"])

prop("C26", "Rank directories stay small for every length",
 "For every length, the rank9 directory adds at most a quarter of the bit vector's size plus a constant, and the Jacobson directory over 64-bit blocks at most half plus a constant, both independent of the contents; building allocates nothing that outlives the structure beyond that.",
 ["inputs"], "all lengths",
 "tests check fifty consecutive lengths of one pattern",
 [JR, R9], [("directory capacities", JR)], ["heap_bytes and a counting allocator"])

prop("C27", "Textual forms show exactly the contents",
 "The binary format of a bit vector is its bits as 0/1 characters from index zero upwards and nothing else, and the debug format of an integer vector lists its element width and its elements in order, for every contents and length; an error from the output sink is returned.",
 ["inputs", "fault_sequences"], "all contents and lengths, all sink failure points",
 "a few literal strings",
 [BV, IV], [("formatting loops", BV)], ["format!"])

prop("C28", "Queries are pure: no answer depends on earlier queries or other objects",
 "Any read-only query on any structure returns the same answer every time, regardless of which queries were made before on it or on any other live object, and regardless of when other objects were created, modified or dropped; queries never change a structure's contents. Interleaved operations on separate encoders, decoders, buffers and vectors do not affect one another.",
 ["histories"], "all short interleavings of queries over several live objects",
 "unit tests use one object at a time, so a shared cache or scratch buffer keyed too loosely would pass",
 [VB, BT, JR, R9, SB, BW, BB] + CO, [("no interior mutability or global state", "src")], ["answers of rank, select, get, iter, encode, decode in every order"])

prop("C29", "Queries cost constant or logarithmic work, and growth is amortised",
 "For every length and position, a rank query on a Jacobson or rank9 structure, and a bit, multi-bit or block read or write through any nesting of slices, buffers and wrappers, examines at most four different blocks of the underlying store, however long it is; building a rank structure reads the store's blocks a number of times proportional to its length (at most four times its bit width per block). Binary-search select makes at most four rank queries per binary digit of the limit, plus eight. Growing a vector or bit buffer one bit, element or block at a time calls the allocator at most four times per binary digit of its size in bytes, plus eight, also when removals and additions alternate.",
 ["inputs", "histories"], "all lengths and positions up to a bound, marked ones to 2^64-1, all growth lengths up to a bound",
 "tests compare answers; an answer computed by scanning, or a reallocation per push, is right on every test and useless at the sizes these structures exist for",
 [JR, R9, SB, SE, VB, BT, BS, BB], [("two-level directories, binary search, Vec growth", "src/rank, src/select, src/internal")],
 ["block reads of a user-defined store", "rank queries of a user-defined rank structure", "allocator calls"])

prop("C30", "Block types of a user's own work like the built-in ones",
 "The block-type trait is open: a user's fixed-width unsigned integer type of a power-of-two number of bytes (1 to 16) that implements only the trait's required methods gets exact provided methods (sizes, addresses, masks, bit and field extraction and update, logarithms, ceiling division, and the bit-vector accessors it leaves out), and bit vectors, integer vectors of every element width up to the block's, slices, block arrays, Jacobson rank, binary-search select, bit buffers, integer stream I/O, textual forms and space usage over it behave exactly as over a built-in type of that width. Nothing assumes that a block is a built-in type or fits in 64 bits.",
 ["inputs", "histories", "configurations"], "all user-defined block types, words, operation histories and lengths",
 "no test defines a block type; the built-in types replace some of the provided methods and none is wider than 64 bits, so a hidden assumption never shows",
 [ST, BT, VB, IV, JR, SR], [("BlockType's provided methods", ST), ("generic vectors", VB), ("provided bit-vector accessors", BT)],
 ["every public operation over a newtype of u8, u16, u64 and u128"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
