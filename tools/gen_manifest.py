#!/usr/bin/env python3
"""Writes tools/meta.json and MANIFEST.json from the table below (a property is claimed once it has a bin)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
BASE = ["the reference model in /verif/mc is right (a plain Vec<bool>/Vec<u64>/list, independent of the library's arithmetic)",
        "rustc/std, num-traits and byteorder behave as documented; target x86_64 (64-bit usize)",
        "nothing is claimed beyond the bounds listed in coverage.bounds"]
# id: (level, technique, note, extra assumptions)
T = {
 "C01": (MC, "explicit-state search of operation histories of the real BitVector in lock step with a Vec<bool> model",
   "Breadth-first search over all histories up to the bound merging states with equal observable+hidden state, plus stateless replay of all short histories on fresh objects and long structured histories across block boundaries; every transition executes the real code."),
 "C02": (MC, "explicit-state search of operation histories of the real IntVector, every element width, against a list model",
   "As C01 for IntVector, for every (block type, element width) pair."),
 "C03": (MC, "explicit-state search: all histories reaching equal contents, pairwise comparison of equality, hash, order, clone independence",
   "All pairs of states reached by all histories up to the bound are compared with the model's equality; order axioms checked on all triples of a representative set; long vectors that differ in one mark, and vectors of more than 2^32 bits or elements, follow."),
 "C04": (MC, "exhaustive enumeration of index/span arguments (incl. overflowing ones) x states x access kinds on every structure, both builds",
   "Every access kind at every index around every boundary, including indices whose arithmetic overflows, must panic and leave the contents unchanged; every in-range one must succeed; long objects at 19 block counts per block type and stores as long as 2^64-1 bits repeat it far out."),
 "C05": (MC, "exhaustive enumeration of capacity requests x states, pushes counted by an instrumented allocator; refusals in forked probes",
   "Capacity, reallocation and contents observed after every request and push; requests too large to represent run in forked probe processes and must panic/abort."),
 "C06": (MC, "explicit-state exploration of all interleavings of iterator operations against a deque model",
   "All interleavings of next/next_back/nth(n)/clone up to a depth over all short vectors; last/count and exact length at every state."),
 "C07": (MC, "exhaustive enumeration of slice ranges, nestings and writes over windows, against sub-range of a Vec<bool>",
   "All (base, range, nested range) triples up to the bound, every accessor and every write, checked against the base's bits."),
 "C08": (MC, "exhaustive enumeration of stores x reads/writes (all fields), incl. minimal user stores with garbage in unused bits; write histories",
   "Every implementation of the traits holding the same bits must give identical answers through every view and see every write identically."),
 "C09": (EX, "exhaustive enumeration of arguments (all u8/u16 words, structured u32/u64/usize words) against big-integer definitions",
   "Complete for u8 and u16 (all words x all arguments; ceil_div over all u8 pairs and a dense grid of u16 pairs); for the wider types all words with few runs of bits and all words near powers of two."),
 "C10": (FE, "exhaustive enumeration of reader/writer behaviours (fragmentation, interruption, early end, error at every byte)",
   "Every way the environment can split the bytes of a block into short transfers with interruptions and a final fault, for several values of every block type in both byte orders."),
 "C11": (MC, "exhaustive enumeration of lengths x content families x all positions over every store type against a counting model",
   "Every length through several large-block boundaries, every position; virtual stores beyond 2^32 bits."),
 "C12": (MC, "exhaustive enumeration of lengths x content families x all positions over every store type against a counting model",
   "Every length through several 512-bit blocks, every position; virtual stores beyond 2^32 bits."),
 "C13": (EX, "exhaustive enumeration of words (all u8/u16; structured u32/u64) x all positions against bit-by-bit counting", 
   "Complete for u8 and u16; for wider words all words with few runs and every byte pair in every lane."),
 "C14": (MC, "exhaustive enumeration of rank structures (all short symbol strings, virtual ranks to 2^64-1) x all indices, with query recording",
   "A recording rank structure observes every query the search makes; answers compared with a scan; long contents (to 2^20 bits) and directories beyond 2^32 bits for every rank structure."),
 "C15": (EX, "exhaustive enumeration of byte pairs in every lane and structured words x every index against the definitions",
   "All 65536 byte pairs in every lane against several neighbours for the comparisons; select on structured words for every index including wrapping ones."),
 "C16": (MC, "exhaustive enumeration of positions at and beyond the limit x structures x query kinds, both builds",
   "Every rank structure and wrapper, every method, both values, positions from the limit up to 2^64-1, on short, long and virtual (beyond 2^32 bits) directories."),
 "C17": (MC, "exhaustive enumeration of contents x read methods through every wrapper (incl. macro-made ones) against the bare store",
   "Every read method through every wrapper nesting equals the wrapped value's."),
 "C18": (MC, "explicit-state search of tape operation histories of the real BitBuffer against a tape model",
   "Breadth-first search over reads, writes, seeks, appends, direct edits from every start position."),
 "C19": (MC, "exhaustive enumeration of (type, width n, value family, source length) for integer stream I/O against bit lists",
   "Every n from 0 to the width for every primitive integer type; every source length around n."),
 "C20": (MC, "exhaustive enumeration of value sequences x codes x following bits through encode and decode",
   "All short sequences over a critical value set for every code, on every stream type of the library and on user-made ones, with arbitrary following bits; long streams to 2^18 bits."),
 "C21": (MC, "exhaustive enumeration of values (dense range + all critical values) against an independent codeword construction",
   "Each emitted codeword compared bit by bit with one built from the published definition."),
 "C22": (MC, "exhaustive enumeration of all bit strings up to a length, plus all truncations and deviations of long codewords, against a reference decoder",
   "Complete for all bit strings up to the bound; codewords near 64-bit overflow explored by enumerating truncations and single-bit deviations."),
 "C23": (MC, "exhaustive enumeration of domain-boundary values x codes with a recording sink",
   "Every value around each code's domain boundary is encoded onto a sink that records whether anything was written."),
 "C24": (FE, "exhaustive fault enumeration: an error at every bit position of every stream operation", 
   "For every operation and every access index, a sink/source failing there must surface that error with no further access."),
 "C25": (MC, "explicit-state exploration of histories with a counting allocator as oracle for owned heap bytes",
   "After every operation of every history, reported heap bytes are compared with the bytes the thread's allocator says the value owns; lengths to 2^21 bits and capacities to 2^36 bits."),
 "C26": (MC, "exhaustive enumeration of lengths with a counting allocator as oracle for directory size",
   "Every length up to the bound; directory size measured by the allocator and by the reported size."),
 "C27": (MC, "exhaustive enumeration of contents against independently built strings; formatter failure at every write",
   "All bit strings up to a length plus pattern families; an erroring sink at every position."),
 "C29": (MC, "exhaustive enumeration of lengths x positions x query kinds over instrumented stores and rank structures; growth under a counting allocator",
   "Computed stores note the blocks each query examines, a user rank structure counts the queries of each select, and the allocator's calls are counted at every point of growth, including alternating removals and additions."),
 "C30": (MC, "explicit-state search of operation histories and exhaustive enumeration of arguments over user-made block types (8, 16, 64, 128 bits) in lock step with plain lists",
   "The checks' minimal block types implement only what the trait requires; complete searches of vectors over the 8-bit one, and every operation pair around the block boundaries for the others, one of them wider than any built-in type."),
 "C28": (MC, "explicit-state exploration of interleaved queries and mutations over two live objects against independent models",
   "All ordered pairs/triples of queries over two live objects, with interleaved creation, mutation and drop; hundreds of live objects, tens of thousands of repeats, and every interleaving of the questions of two threads."),
}
have = sorted(f[:-3].upper() for f in os.listdir(V + "/mc/src/bin") if f.endswith(".rs"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
meta, checks, na = {}, [], []
for i in ids:
    lv, tech, note = T[i][:3]
    extra = T[i][3] if len(T[i]) > 3 else []
    meta[i] = {"level": lv, "technique": tech, "note": note, "assumptions": BASE + extra}
    if i in have:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": lv,
                       "level_note": note + " Run in full in two builds (optimised without overflow checks; with overflow checks and debug assertions). Trusts the harness's reference model; bounded as stated in the evidence file."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump(meta, open(V + "/tools/meta.json", "w"), indent=1)
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the public API of /repo's crate through a path dependency (mc/)."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(na), "not yet")
