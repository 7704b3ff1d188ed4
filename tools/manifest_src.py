"""Writes MANIFEST.json.  CLAIMED: property -> (technique, level note); NA: property -> reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "decided from rustc's MIR of the current tree; "
CLAIMED = {
 "S01": ("auto-trait obligations over type contents and unsafe impls (type-checked program)", N + "every Send/Sync impl and every public type is an obligation"),
 "S02": ("signature, provenance and ownership lint over typed MIR", N + "lifetimes, raw-pointer escape and holder rules on every safe public function and public type"),
 "S03": ("lock-order and re-entrancy analysis over the call graph", N + "lock classes are type-based; calls through trait objects go to all implementors"),
 "S04": ("ownership typestate and use-after-free dataflow on MIR", N + "flow-sensitive value numbering inside functions, freeing summaries across functions"),
 "S05": ("interprocedural alignment taint on MIR", N + "field-based, flow-insensitive, whole crate"),
 "S06": ("error-flow typestate on MIR", N + "every fallible I/O or codec result on every path"),
 "S07": ("dominance of UTF-8 validation over unchecked text construction on MIR", N + "every unchecked construction site"),
 "S08": ("loop progress (cycle) analysis on MIR plus abstract interpretation for dead arms", N + "every natural loop and every recursion; does not bound iterator lengths"),
 "C01": ("abstract interpretation of call histories over unknown containers (linear integer + GF(2) bit domains)", N + "bounds, refusals and frame of every encoder/decoder call for any content, offset, length"),
 "C02": ("abstract interpretation of call histories, results compared with the format as bit forms", N + "every written and read byte as an affine form of the input, per number of 7-bit groups"),
 "C03": ("abstract interpretation of call histories over unknown containers", N + "cursor after success and after error for every call"),
 "R01": ("abstract interpretation with GF(2) affine forms, compared with CRC-32C computed from its polynomial", N + "all bytes and initial values for every length up to a bound, every address residue; lengths beyond it only around the constants the code mentions"),
 "M01": ("abstract interpretation of MemTable::add over all lengths, entry bytes compared as bit forms", N + "each byte of the entry and its length, per number of varint groups of key and value length"),
 "M02": ("abstract interpretation of key constructors over all lengths, bytes compared as bit forms", N + "each byte of a lookup key and its three parts"),
 "V01": ("abstract interpretation of setter/encode/clear histories, byte stream compared with the expected one", N + "every setter, presence combination and list shape up to a bound; encoded bytes as bit forms"),
 "X01": ("abstract interpretation over integers modulo powers of two", N + "every seed; draws up to a bound in sequence; uniform/one_in per argument class"),
 "H01": ("abstract interpretation to words over the input bits, compared between all carriers", N + "every carrier type, every length up to a bound; each input bit must matter"),
 "D01": ("abstract interpretation of append histories against a ghost file, read back by the log format", N + "every record length up to 2 (thorough: 4) blocks at every position in the block that one earlier record can leave"),
 "D02": ("abstract interpretation of read_next over unknown file contents, every path compared with the format", N + "every content of the first fragments (at most 3-5 per call, two records in sequence), every file length up to two blocks, one short or failing read anywhere; loops are unrolled to that bound and non-progress is detected"),
 "D03": ("abstract interpretation with an uninterpreted checksum carried by the bytes it was taken of", N + "writer: every fragment shape of two appends; reader: every path of two records with checking on"),
 "D04": ("abstract interpretation with an unreliable ghost file", N + "one failing or partial operation at any point of two appends"),
 "L01": ("abstract interpretation with unknown length, contents and range", N + "unbounded: every length and every range of the Slice and UnsafeSlice operations"),
 "A01": ("abstract interpretation of request histories with unknown sizes: extent, disjointness, accounting and release of every block", N + "all histories of 4 requests (6 thorough) with unknown sizes; allocate and allocate_align"),
 "E01": ("abstract interpretation of bounded histories of a cache shard against a reference cache: release of every entry, use after release, shares of values", N + "all histories of 5 operations (6 thorough) on 5 colliding keys with room, of 3 (4) with unknown capacity and charges, and one growing table"),
 "E02": ("abstract interpretation of bounded histories of a cache shard against a reference cache: total charge and capacity", N + "all histories of 5 operations (6 thorough) on 5 colliding keys with room, of 3 (4) with unknown capacity and charges, and one growing table"),
 "E03": ("abstract interpretation of bounded histories of a cache shard against a reference cache: lookups, replacement and eviction order", N + "all histories of 5 operations (6 thorough) on 5 colliding keys with room, of 3 (4) with unknown capacity and charges, and one growing table"),
 "E04": ("abstract interpretation with guard tracking: the guard held at every call into a shard, purity of what runs under a shared guard, and the routing function", N + "every public operation, every key; purity read off populated shards"),
 "F01": ("abstract interpretation of block and key histories over an unknown policy: the keys of every policy call and every byte of the finished block", N + "histories of up to 11 operations (longer in thorough); keys and filters of unknown length (up to 65535 bytes) and content"),
 "B01": ("abstract interpretation of building and querying over an unknown hash: every bit a query may find clear is matched with the write that sets it, symbolically", N + "bits per key 0..20 and 2100 with 1 key, up to 70 keys for small settings (0..60 and more settings in thorough); the hash of each key is an unknown 32-bit word"),
 "K01": ("abstract interpretation of insertion histories: every level of the list walked after every insertion", N + "all orders of up to 3 insertions with heights 1, 2, 8 (4 insertions, heights 1, 2, 3, 8 in thorough), and a duplicate of each key; keys of unknown length and content, comparator known only through the order"),
 "K02": ("abstract interpretation of iterator moves over every list of the insertion histories", N + "lists of up to 3 keys (4 in thorough) built in every order"),
 "K03": ("abstract interpretation of searches over every list of the insertion histories, under an arbitrary total order", N + "lists of up to 3 keys (4 in thorough) built in every order, heights 1, 2, 8; every key and every gap"),
 "G01": ("abstract interpretation with numbers as exact linear expressions: every statistic and bucket of new and arbitrary histograms", N + "every sample that is a multiple of one half, on the new and on an arbitrary histogram; NaN, infinities and rounding are left out"),
 "J01": ("abstract interpretation of build_table over ghost iterator, file and table builder, every combination of failing steps", N + "inputs of up to 3 entries (5 in thorough) standing anywhere; table builder, environment and cache, which are todo!() in this tree, are replaced by their contracts"),
 "N01": ("abstract interpretation of bounded histories against a reference list; ownership of every node", N + "all sequences of up to 4 insertions (6 thorough) with unknown elements and positions"),
 "Q01": ("abstract interpretation: strings of unknown length with an unknown first difference, and every pair of short lengths with unknown bytes", N + "all byte values; lengths unbounded for run comparisons, up to 9 bytes for element-wise ones"),
 "Q02": ("abstract interpretation on every shape of key with unknown bytes", N + "shared prefixes up to 256 bytes, tails up to 3 bytes, all byte values"),
 "T01": ("abstract interpretation on a complete partition of the inputs", N + "every variant and every code, remaining codes symbolically"),
}
NA = {
 "D05": "needs crash histories of a write path (DB::write, recovery, MANIFEST) that is todo!() in this tree; there is no code whose flow could be analysed",
 "B02": "a statistical statement about hash distribution; static analysis of the source cannot bound a false-positive rate",
 "Z01": "DB::get, put, flush and compaction are todo!() in this tree",
 "Z02": "the block and table readers and builders are todo!() in this tree",
}
PENDING = "no check built yet"


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for i in ids:
        if i in CLAIMED:
            t, n = CLAIMED[i]
            checks.append(dict(property=i, quick_cmd="python3 -m sa.check " + i, thorough_cmd="VERIF_TIER=thorough python3 -m sa.check " + i,
                               technique=t, level="other", level_note=n))
    na = [dict(property=i, reason=NA.get(i, PENDING)) for i in ids if i not in CLAIMED]
    m = dict(version=1, setup_cmd="python3 -m sa.load", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "not applicable")


main()
