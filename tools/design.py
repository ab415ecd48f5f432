#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text below plus, per property, the bounds that the harness declares."""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
"M01": ("A shadow list of the outstanding blocks (address, pattern byte) kept by the harness: each new block is checked against the buffer, against every outstanding block and for alignment; patterns are re-read after every step. Ownership is asked for one arbitrary 64-bit address and compared with the address ranges of the buffers.", "memory_base.h/malloc_pool.h"),
"M02": ("As M01, plus the number of pools the allocator obtained from the C library (counted live blocks): a new pool may appear only when no free block is left. The heap model hands addresses out upwards and downwards, so that no order of pool addresses is assumed.", "malloc_pooled.h"),
"M03": ("The bucket sizes are computed by the harness from the configuration; the request size is one symbolic 64-bit number, so the solver decides for all sizes at once that the block is big enough (every byte of it is accessible) or null. Bytes survive reallocation; live blocks are zero after destruction.", "malloc_binned.h"),
"M04": ("The C library model knows every block's true size and alignment; the harness asks for all bytes of the requested size to be accessible. Symbolic byte contents are compared before and after reallocation. A recording allocator checks the typed wrapper for every 32-bit count.", "malloc_ansi.h/.cpp, malloc_object.h"),
"M05": ("Instrumented elements (`elem.h`: each object registers itself on construction, and every construction, copy, move and destruction is checked against that register) and exact expected contents for every overlap distance.", "generic_platform_memory.h, memory.h"),
"C01": ("A plain C model of the sequence (`model.h`, `array_run.h`): every operation is applied to both, then count, elements, iteration and capacity bounds are compared. Values are symbolic; indices and counts fork.", "array.h"),
"C02": ("The same operations over instrumented elements that own a heap block: double construction, use of dead objects, leaks (live heap blocks at the end) and double frees are violations.", "array.h"),
"C03": ("Contents of both sides compared with their expected sequences before and after one of them is modified, and after either is destroyed first; the engine's memory checks see shared storage as use after free. Trees additionally as every red-black shape over every red-black shape.", "array.h, list.h, tree.h, binary_node.h, map.h, set.h, string.h"),
"L01": ("The sequence model of C01; the list is read forwards through next and backwards through prev, and both must be the model's sequence, with matching length, head and tail.", "list.h, iterator"),
"L02": ("As C02 for lists; lists that own their allocator use an allocator that must outlive its links.", "list.h"),
"T01": ("An independent checker of all red-black, parent, thread, order and count invariants, and a sorted-array model of the contents. The one-step entries start from *every* red-black tree of the given size (all shapes and colourings are enumerated by forking in the harness) with symbolic sorted keys, so that histories of any length that lead to a tree of that size are covered by one more step (induction on the number of operations, for trees within the bound).", "binary_node.h, tree.h"),
"T02": ("A scan of the sorted contents written in the harness, against a symbolic probe on every red-black tree of the given size with symbolic keys.", "binary_node.h, tree.h"),
"K01": ("A finite-map model (arrays of key, value, present); after every operation every key of the universe is looked up, and iteration is compared with the sorted pairs.", "map.h"),
"K02": ("A set model as in K01; any/all queries against the model's membership.", "set.h"),
"K03": ("Membership of every key of either operand, computed from the operands' contents; all six comparisons against inclusion computed element by element.", "set.h"),
"P01": ("Direct definitions (greatest multiple not above, repeated multiplication, bit scan) over symbolic values of every integer type; the solver decides all values at once.", "generic_platform_math.h, math.h"),
"S01": ("A model string (character buffer and length) with the editing operations written out; every character is symbolic. Characters, length, terminator and, through the engine, every memory access are checked.", "string.h, platform_strings"),
"S02": ("Definitions by scanning with all positions compared; the subject and the pattern are fully symbolic.", "string.h, generic_platform_strings.h"),
"S03": ("Lexicographic comparison of unsigned bytes and ASCII folding written out in the harness, all characters symbolic; trichotomy, transitivity and the agreement of all operators.", "string.h, generic_platform_strings.h"),
"S04": ("The expected text is produced digit by digit by the harness and compared with the string. `snprintf`/`vsnprintf` are modelled in `harness/rt.c` for d i u x o s c with flags and widths; floating-point conversions are an opaque injective function of precision and value, so what is decided is that the right value and format reach the C library and that its output arrives untruncated.", "string.h, platform_strings, to_string"),
"A01": ("Order of neighbours under the given comparator, and a permutation test with a symbolic witness: for one arbitrary value, its number of occurrences before and after is equal. Guard elements outside the range are unchanged.", "sort.h"),
"A02": ("Each companion is the original position of its key; after sorting, key[i] must be the original key at companion[i], and companions are distinct.", "sort.h"),
"O01": ("A two-variable model (engaged, value) per optional and instrumented contents.", "optional.h"),
"F01": ("A model of each slot: which target it is bound to and the captured numbers; calls return a value computed from arguments and captured state. Live blocks and instrumented captures detect sharing, leaks and double destruction.", "function.h, private invocation classes"),
"U01": ("The given values, one by one, at compile-time positions.", "tuple.h, pair.h, static_array.h, compare"),
"U02": ("The values given, the overload that an ordinary call would choose, and the text the name was built from, character by character. Type queries are constants: for them the encoding decides a constant assertion.", "utility.h, name.h, type_info.h, types.h"),
"X01": ("Interleavings are explored by the engine at every access to memory that another thread can reach; the recorded results and the final value must be explained by some sequential order, which the harness searches through all merges of the two operation sequences with symbolic operands. Two entries run under total store order (per-thread store buffers that drain at arbitrary points), so that a store weaker than the default order is noticed. Equal states reached by different interleavings are explored once.", "atomic.h, platform_atomics"),
"V01": ("The operation applied to each component by the harness; bit-precise, also for floats (two NaN results count as equal).", "vec2.h, vec3.h, vec4.h"),
"V02": ("Relation per component, by the language's operators.", "vec2.h, vec3.h, vec4.h"),
"V03": ("Polynomial identities over the integers modulo 2^n (bit-precise) and, for lengths and normalisation, over the reals with an axiomatised square root.", "vec2.h, vec3.h, vec4.h"),
"V04": ("The four floats in memory order and the language's scalar operators, bit-precise; the memory around the destination is compared before and after.", "simd.h, simd_float.h"),
"Q01": ("Hamilton product, conjugation and rotation as polynomial identities over the reals; trigonometric functions are uninterpreted apart from the stated axioms.", "quat.h"),
"N01": ("The list of sixteen entries, through every access path, bit by bit.", "mat4.h"),
"R01": ("An independent recursive matcher over a pattern tree that the harness builds from the same choices as the pattern text (`regex_run.h`); it shares no code or idea (no automaton) with the implementation. The subject is symbolic, so one path stands for a set of strings.", "regex/*.h, private/regex/*.cpp"),
"R02": ("The engine's memory checks with pattern and subject in blocks of exactly their size, and an instruction bound per path.", "regex"),
"R03": ("Exact count of live blocks before and after, and the engine's memory checks.", "regex"),
"B01": ("The sizes and order of the entries as documented; see harness.", ""),
}
HEAD = open(V + "/tools/design_head.md").read()
TAIL = open(V + "/tools/design_tail.md").read()
def main():
    out = [HEAD]
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l); i = p["id"]
        h = open("%s/harness/%s.cpp" % (V, i)).read()
        ents = re.findall(r"^// @entry (\S+)(.*)$", h, re.M)
        bound = " ".join(re.findall(r"^// @bound (.*)$", h, re.M)); outside = " ".join(re.findall(r"^// @outside (.*)$", h, re.M)); assume = " ".join(x for x in re.findall(r"^// @assume (.*)$", h, re.M) if x != "none")
        o, code = ORACLE[i]
        out.append("### %s — %s\n\n" % (i, p["title"]))
        if code: out.append("Code: %s. " % code)
        out.append("Entries: " + ", ".join("`%s`%s" % (n, "".join(" [%s]" % t for t in ("real", "threads") if re.search(r"\b%s\b" % t, r.split("cover=")[0]))) for n, r in ents) + ".\n\n")
        out.append("Oracle: %s\n\nBounds: %s.\n\nOutside: %s.\n\n" % (o, bound, outside))
        if assume: out.append("Assumed: %s.\n\n" % assume)
    by = {}
    for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
        m = json.load(open("%s/seeded/%s/meta.json" % (V, d))); by.setdefault(m["property"], []).append("%s (%s)" % (d, m["needs"]))
    out.append(TAIL.replace("@SEEDED@", "\n".join("- **%s**: %s" % (k, "; ".join(v)) for k, v in sorted(by.items()))))
    open(V + "/DESIGN.md", "w").write("".join(out))
main()
