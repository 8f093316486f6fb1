"""What each check builds, the bound it completes, and what it trusts."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))

COMMON = ["inputs outside the stated alphabets and bounds are not covered", "g++ 13, AddressSanitizer/UBSan instrumentation and the C++ standard library behave as documented"]


def std(pid, bound, **kw):
    n = pid.lower()
    b = {"name": n, "src": [n + ".cpp"]}
    for k in ("flags", "libs", "inc", "san", "opt", "shards", "limit", "wrap", "cxx"):
        if k in kw:
            b[k] = kw.pop(k)
    d = {"bins": [b], "bound": bound, "assumptions": COMMON + kw.pop("assumptions", [])}
    d.update(kw)
    return d


def known(pid):
    """Recorded (unrepaired) findings of a property, from the committed file."""
    out = []
    try:
        for line in open(os.path.join(HERE, "..", "known_findings.txt")):
            m = re.match(r"known: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except OSError:
        pass
    return out


CHECKS = {}
CHECKS["C01"] = std("C01", "all documents of the listed parts: every leaf class in 8 contexts, all leaf pairs and representative triples, all trees of <=5 (thorough 6) nodes, dense integers +-70000 and 2^k+-3, 2048 exponents x 7 mantissas, all lengths 0..600 (thorough 5000) and around each width boundary, counts 0..300 and around 65536, nesting to 400 and mixed at 513 and 1001, keys with embedded NUL (Flex: refused); x 3 protocols x view/owning open; strings, blobs, keys and counts of 8 sizes of 2^32 and more, 3 Zera documents of more than 4 GB")
CHECKS["C01"]["bins"] = [{"name": "c01", "src": ["c01.cpp"]}, {"name": "c01w", "src": ["c01w.cpp"], "san": "", "shards": 1}]
NOT = {}
CHECKS["C02"] = std("C02", "every leaf class in 6 contexts x 9 ordered protocol pairs, all chains of 3 protocols and back, all trees of <=5 (thorough 6) nodes, 2^k+-2 integers, 2048 exponents x 5 mantissas, length and count boundaries, nesting to 80, sub-values and splices, all legal MessagePack source forms")
CHECKS["C03"] = std("C03", "all 2^k+d (k 0..64, |d|<=4, thorough 40), signed, unsigned and negated, dense ranges at the 8/16-bit limits (thorough: all of +-66100), x 8 accessors x 5 protocols x 3 positions; every MessagePack width; Zera wire words; 9 FlexBuffers integer forms")
CHECKS["C04"] = std("C04", "every leaf class, representative containers, 2^k integers and length boundaries x 8 positions x 5 protocols x every accessor, 20 out-of-range indices (including wrapping offsets) and 13+ absent keys each")
CHECKS["C05"] = std("C05", "all ordered selections of <=4 keys of a 12-key alphabet (thorough <=5 of 8), all permutations of 6 keys, all subsets of 10 keys, all sizes to 40 and boundaries to 257 (4096; thorough 65537) x 4 key families x 4 orders, all key lengths to 319, a key and its prefixes at 15x17 lengths and distances to 65535, keys differing in each single byte, all first bytes; x 5 protocols (JSON and CBOR: UTF-8 keys)", stack=True)
CHECKS["C06"] = std("C06", "19 small documents in 2 layouts: every truncation, every extension to 39 bytes, every byte set to all 256 values, every field x ~30 hostile values, every pair of fields x ~20 hostile values each (thorough: all pairs, ~33 values); header offset space over all lengths 20..83; all 65536 header flags and versions; reference space tag x flags x aux x offsets; counts; self-referring containers; every result compared with an independent reading of ZERA.md")
CHECKS["C09"] = std("C09", "writer: every leaf class in 6 contexts and pairs x inline limits 0..12, triples, trees of <=6 (thorough 7) nodes, lengths 0..79, runs of 34x34x18 lengths, counts and lengths around 65536, depth 120; reader: 13 documents x 12288 layouts (order, gaps, sharing, padding, trailing), all leaves x 6 contexts x 8 layouts, trees of <=5 (6) nodes x 8 layouts")
CHECKS["C07"] = std("C07", "all byte strings of <=2 bytes, 3 bytes with the first two over 54 marker classes (thorough: all 2^24), 4 bytes over 23 (54) symbols, 5 over 13, 6 over 9 (15), thorough 8 over 8; 15 documents in 4 encodings: all truncations, extensions, every byte x 256, neighbouring byte pairs x 14^2 (thorough all pairs x 54^2); 13 sized markers x 27 sizes x 0..39 bytes present x 3 positions; nested hostile heads to length 4 (5); non-string keys; every answer compared with an independent reading of the MessagePack specification")

JC = ["jsoncons is not installed here: its CBOR encoder is replaced by a stand-in written from RFC 8949 and the documented jsoncons behaviour, so the encoder itself is not verified (the reader, which is the repository's own code, is)"]
CHECKS["C08"] = std("C08", "all byte strings of <=2 bytes, 3 bytes over 68 initial-byte classes (thorough: all 2^24), 4 over 24 (68), 5 over 12, 6 over 8 (14), thorough 8 over 8; 14 documents in several encodings: all truncations, extensions, every byte x 256, neighbouring byte pairs x 13^2 (thorough all pairs x 68^2); 4 sized kinds x 29 sizes x 5 widths x 8 positions x 0..27 bytes present; head sequences to length 4 (5); every kind of key; all chunk sequences to length 4; every answer compared with an independent reading of RFC 8949", inc=["standin"], assumptions=JC)
CHECKS["C21"] = std("C21", "every well-formed form (header widths, float widths, definite/indefinite, chunk splits) of every leaf class alone, in an array and in a map; mixed forms in 3 larger contexts; all trees of <=4 (thorough 5) nodes x 6 form patterns; all 2^k+d integers in every width x 8 accessors; all 65536 half floats, 256 exponents x 9 mantissas single, 2048 x 5 double; length and count boundaries; writer round trips; translation both ways; opening, copying and moving", inc=["standin"], assumptions=JC)
CHECKS["C20"] = std("C20", "every finite leaf class in 6 contexts, all leaf pairs, all trees of <=4 (thorough 6) nodes, 2^k+d integers x 8 accessors, 2047 exponents x 6 mantissas, blobs of every length to 299 (1999) and every byte value at every position of 1..4 bytes, 400 code points in strings and keys, ordered selections of 3 keys of 13, 33 foreign texts incl. near-blob arrays, all texts of <=5 (6) structural characters, all reader move/assign/destroy histories of <=4 (5) steps over 3 objects, writing abandoned at every step, all writer call sequences of <=5 (6) calls; every execution must release all memory", inc=["standin"], assumptions=["yyjson is not installed here: it is replaced by a stand-in written from its documented API, so yyjson's own parser and writer are not verified"])
CHECKS["C10"] = std("C10", "written: every leaf class in 6 contexts, all pairs, trees of <=5 (thorough 6) nodes, 2^k+d integers, 2048 exponents x 5 mantissas, length and count boundaries to 65537, decoded by msgpack-c and by the FlexBuffers verifier and reader; read: every MessagePack form of every leaf alone, in arrays and in maps, trees x 4 form patterns, single floats; FlexBuffers builder output x 4 sharing flags x 4 minimum widths x direct/indirect/float forms, typed and fixed typed vectors of 10 element types x 10 sizes x 3 contexts", assumptions=["msgpack-c and the FlexBuffers library are the reference decoders", "FlexBuffers buffers with key-typed values or key vectors have no counterpart among the reader's kinds and are not covered"])
CHECKS["C11"] = std("C11", "all call sequences of <=8 (thorough 10) calls over 8 call classes, <=10 (12) over 6, <=5 over 26 (all leaf kinds, size hints, keys); each sequence cut at its first forbidden call and then finished in four ways; every sequence of <=5 (6) calls inside user types within 3 builders; 16 key lengths to 2^24 in 4 places; all pairs of 29 inline limits x 18 lengths; nesting to 80 with 3 terminator faults; every sequence of <=6 (8) calls continued after refusals")
CHECKS["C12"] = std("C12", "call record and bytes of: 46 element types as roots, as wrapped dynamic values in 4 contexts; 16 element types x 3 value categories x 3 builder contexts x 4 uses (at once, stored and reused, copied, moved out of a destroyed builder); 36 ordered pairs; 0..8 elements; all array/map nestings to depth 5; all trees of <=4 nodes with every assignment of 7 array and 6 map routes (direct, vector, list, initializer_list, map, unordered_map, dynamic, wrapped, WriterView); every leaf; sizes to 300; all sequences of <=2 (thorough 3) of 58 writer calls with edge arguments through 4 erased or direct routes; every C++ integer type x all 2^k+-4 (8-bit and thorough 16-bit: all), float and double exponents x 6 mantissas, texts and blobs of every small length with NUL and unterminated forms x 14 routes; all dynamic-value copy/move/assign/swap/wrap histories of 3 (thorough 4) steps over 3 objects", stack=True, opt="-O0", assumptions=["JSON and CBOR output goes through the stand-ins for yyjson and jsoncons"])
CHECKS["C12"]["bins"] = [{"name": "c12", "src": ["c12.cpp"], "inc": ["standin"], "opt": "-O0"}, {"name": "c12b", "src": ["c12b.cpp"], "inc": ["standin"]}, {"name": "c12c", "src": ["c12c.cpp"], "inc": ["standin"], "opt": "-O0"}, {"name": "c12d", "src": ["c12d.cpp"], "inc": ["standin"], "opt": "-O0"}, {"name": "c12e", "src": ["c12e.cpp"], "inc": ["standin"], "opt": "-O0"}]
CHECKS["C13"] = std("C13", "xtensor: 13 element types x every shape of rank 0..4 (thorough 5) with dimensions 0..4 (rank 4: 0..2, thorough 0..3), 25 larger shapes, empty tensors with dimensions to 2^40; 9 container and layout kinds; every sub-range of vectors and every sub-rectangle of matrices to 4x4, with steps, both storage orders; transposes, slices and strided views; all pairs of element types, all ranks 0..3 requested; Eigen: 12 element types, all sizes to 5x5 (thorough 7x7), larger and fixed sizes, both storage orders, all pairs of element types, wrong ranks and fixed sizes; x 5 protocols x standalone/embedded/dynamic/stored", assumptions=["JSON and CBOR run with stand-ins for yyjson and jsoncons and one element type of each width"])
CHECKS["C13"]["bins"] = [{"name": "%s.%d" % (n, p), "src": [n + ".cpp"], "inc": ["standin"], "opt": "-O0", "flags": ["-DPROTO=%d" % p]} for n in ("c13", "c13b") for p in range(5)]
SI = ["JSON and CBOR run with stand-ins for yyjson and jsoncons"]
for _p in ("C03", "C04", "C05"):  # the same exploration over the JSON and CBOR adapters
    CHECKS[_p]["bins"].append({"name": _p.lower() + "a", "src": [_p.lower() + ".cpp"], "flags": ["-DADAPTERS"], "inc": ["standin"]})
    CHECKS[_p]["assumptions"] = CHECKS[_p]["assumptions"] + SI
CHECKS["C14"] = std("C14", "15 requests (5 element types x requested ranks, Eigen dynamic and fixed sizes) x 5 protocols: every shape of rank 0..3 (thorough 4) with dimensions 0..3 x ~25 payload lengths around every element width; ~50 element-type codes (wrapping by 8/16/32/40/63 bits, unsigned, non-integer); every list of <=2 (3) of 25 hostile dimensions x 12 payload lengths; 45 shapes whose products wrap or nearly wrap x 24 lengths; every component replaced by a value of every kind; 31 other document forms; all arrays of <=4 of 8 pieces; every byte of a tensor document x 256 (Zera, MsgPack, CBOR); all of these (except the last) again for tensors stored as maps, in all key orders, with missing and similar keys", assumptions=SI + ["extra trailing elements, unsigned type codes and empty tensors with dimensions of 2^32 or more may be accepted or refused"])
CHECKS["C14"]["bins"] = [{"name": "c14.%d" % p, "src": ["c14.cpp"], "inc": ["standin"], "opt": "-O0", "flags": ["-DPROTO=%d" % p]} for p in range(5)] + [{"name": "c14m.%d" % p, "src": ["c14.cpp"], "inc": ["standin"], "opt": "-O0", "flags": ["-DPROTO=%d" % p, "-DMAPFORM"]} for p in range(5)]
CHECKS["C15"] = std("C15", "every leaf class in 5 contexts x 16 buffer alignments; all pairs of string and blob lengths 0..33 (thorough 39) with 6 further lengths; all trees of <=4 (5) nodes; lengths to 200000; tensor views of 5 element types x 9 shapes x 20 (34) preceding lengths x 8 (16) buffer alignments, Eigen views of 3 types x 6 shapes, all 16 alignments x 17 positions; document overwritten and released; every history of 4 (5) copy/move/assign/destroy steps over 3 view objects of an aligned and a misaligned document; x 5 protocols", assumptions=SI)
CHECKS["C15"]["bins"] = [{"name": "c15.%d" % p, "src": ["c15.cpp"], "inc": ["standin"], "opt": "-O0", "flags": ["-DPROTO=%d" % p]} for p in range(5)]
CHECKS["C18"] = std("C18", "every history of 3 (thorough 4) of 51 operations over 3 buffers (12 kinds of construction, move construction and assignment between all pairs, swap, destruction, passage through vectors and functions, self-assignment), every history of 5 (6) of 20 operations, with a ledger of every adopted pointer checked after each step; all sizes to 299; all invalid argument combinations", assumptions=["after self-move-assignment a buffer may keep or drop its bytes"])
CHECKS["C19"] = std("C19", "all byte sequences of <=3 bytes, all sequences of 4..5 (thorough 6) over 15 boundary byte values, every byte value at every position of every length to 48 (100), all lengths to 3000 (20000), lengths to 5000001; all four-character texts of the alphabet; every character at every position of texts of 1..16 (40) bytes, inserted anywhere before the padding; all texts of <=4 (5) of 20 symbols")
CHECKS["C19"]["bins"] = [{"name": "c19", "src": ["c19.cpp"]}, {"name": "c19s", "src": ["c19.cpp"], "flags": ["-DSWEEP"], "opt": "-O2", "san": ""}]
CHECKS["C17"] = std("C17", "every history of 3 (thorough 4) operations over 3 document objects with 6 ways of opening 3 documents, of 4 (6) with two owning ways, and of 5 (7) over two objects with owning and borrowed openings: open, copy construction and assignment, move construction and assignment, self-assignment, swap, destruction, passage through containers, each followed by a full comparison of every live object and by overwriting and freeing every source no longer borrowed; every leaf class in 4 contexts x 6 ways of opening; sub-values across copies and moves; owned sizes to 79; x 5 protocols", assumptions=SI)
CHECKS["C17"]["bins"] = [{"name": "c17.%d" % p, "src": ["c17.cpp"], "inc": ["standin"], "flags": ["-DPROTO=%d" % p]} for p in range(5)]
CHECKS["C22"] = std("C22", "on an 8 MB stack: nesting of every depth to 20, steps of 20 (thorough: every depth) to 400, around 2^k and around 1000, to 100000 and (opening, predicates, skipping past) to 3000000 (thorough 20000000), arrays, maps and alternating, every header form, root / before a neighbour / under a key, x 10 operations (predicates, descent, neighbour access, absent access, printing, translation to 5 protocols), complete and cut off; runs of one and of two alternating bytes to 1000000; every Zera reference graph of 1 container with <=3 references, 2 with <=2 (3), 3 with <=1 (2), and cycles of every length to 40 after tails to 4", assumptions=SI)
CHECKS["C22"]["bins"] = [{"name": "c22", "src": ["c22.cpp"], "inc": ["standin"], "opt": "-O1", "san": ""}]
CHECKS["C16"] = std("C16", "9 programs (three writers, navigation, element access, hand-stepped key iteration, translation, tensors, builders) of 5..7 steps in each of 5 protocols: every interleaving of every pair of the same protocol (<=6, thorough 7 steps each), of readers of the same bytes (5/6), of pairs across protocols (4/6), of triples (2/3), of writers call by call (thorough: 8 steps each); every sequence of 3 (4) of 22 reads on 12 values in 2 positions x 5 protocols; every destruction order of 6 values of a chain; every interleaving of 2..3 iterations; on two threads of a fresh process: every pair of programs of the same protocol with one preemption at every function entry and every access to static memory (thorough: also after a first use, across protocols, and two preemptions at all pairs of function entries)", assumptions=SI + ["preemptions fall at function entries of the instrumented code and at its accesses to static memory; code inside the C++ library and flatbuffers/msgpack-c binaries is not preempted"])
CHECKS["C16"]["bins"] = [{"name": "c16", "src": ["c16.cpp"], "inc": ["standin"], "opt": "-O0"}, {"name": "c16t", "src": ["c16t.cpp"], "inc": ["standin"], "opt": "-O1", "san": "", "cflags": ["-fsanitize=thread"]}]
CHECKS["C25"] = std("C25", "every leaf class in 6 positions written 8 ways (direct calls, dynamic value, nested builders, translation from each protocol), all pairs of 16 values, all trees of <=4 (thorough 5) nodes, values of every header size with siblings, string and blob runs of every length to 69 (199), growing documents to 70 KB, tensors of 13 types x 7 shapes x 3 forms, base64 of every length to 129: each produced in 40 environments (memory and stack filled with 4 bytes x 11 pasts: none, other work, a failed write, an abandoned write, exhausted memory, another thread, inside another document, a comma locale, shifted addresses, refused reads) and compared byte for byte with the first, everything read back compared as text; after an abandonment at each of 13 calls, after a failure of each allocation, and in a fresh process",
    assumptions=SI + ["printed text may depend on the locale", "std::unordered_map iterates in an unspecified order; maps written from one are not compared"])
CHECKS["C25"]["bins"] = [{"name": "c25.%d" % p, "src": ["c25.cpp"], "inc": ["standin"], "opt": "-O0", "san": "", "flags": ["-DPROTO=%d" % p]} for p in range(5)]
CHECKS["C24"] = std("C24", "all trees of <=6 (thorough 7) nodes over a 13001-byte string, a 12777-byte blob and an integer, with short and long keys, 2 alignments; all triples of 11 leaves in 4 arrangements; payloads of 64 KB to 5 MB in 3 contexts: the pages inside every payload are inaccessible while each document is opened, copied, moved and read completely, each access to one is recorded, each allocation is counted; 6 kinds of documents of up to 10^5 (3*10^5) elements with every page watched while opening, testing types, sizing and (Zera, Flex) indexing and looking up; tensor views of 3 element types x 9 shapes x 17 positions x 16 alignments",
    assumptions=["an access is noticed when it falls on a whole page inside a payload (all but the first and last 4095 bytes)", "a bounded amount of work is taken as at most 4 to 6 pages for opening, testing, sizing and indexing, at most 60 for a FlexBuffers lookup"])
CHECKS["C24"]["bins"] = [{"name": "c24.%d" % p, "src": ["c24.cpp"], "inc": ["standin"], "opt": "-O0", "san": "", "flags": ["-DPROTO=%d" % p]} for p in (0, 1, 2, 4)]
CHECKS["C23"] = std("C23", "every allocation of every operation fails in turn - alone, together with all later ones, and together with the next one (thorough: with each of the next 8) - in: writing 11 documents, copying buffers, opening in 3 ways and reading everything, reading and failed lookups on an open document, printing, copying and assigning 4 documents opened 3 ways, translating 11 documents between all 25 pairs of protocols, writing and reading 6 tensors (whole, as views, as copied views), dynamic values, builders, adopting foreign memory with 3 kinds of deleters, base64; user serialize() throwing at 12 places and the writer abandoned after every call, x 5 protocols; after each the balance of allocated bytes, the other objects and a repetition are checked", opt="-O0", inc=["standin"], assumptions=SI + ["memory obtained outside malloc, calloc, realloc and operator new does not fail"])
