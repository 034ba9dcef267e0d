LIBSETS = {
    "gf": ["gf128"],
    "scalar": ["gf128", "internal/ntl_helpers"],
    "aes": ["aes_uniform_bit_generator"],
    "ggm": ["ggm_tree"],
    "cuckoo": ["cuckoo_hasher", "gf128", "internal/ntl_helpers"],
    "all": ["gf128", "internal/ntl_helpers", "aes_uniform_bit_generator", "ggm_tree", "cuckoo_hasher",
            "all_but_one_random_ot", "spfss_known_index", "mpfss_known_indices",
            "scalar_vector_gilboa_product", "distributed_vector_ole"],
}

A_REAL = "The code under test is compiled from /repo's working tree with gcc; the hardware has PCLMUL."
A_OT = "emp-ot and mpc_utils are not installed: oblivious transfer is an ideal functionality and the channel an in-memory network with the original interfaces."
A_PRG = "AES is modelled as a random function on the hidden path of a tree."
NOT_APPLICABLE = {}
ENUM = "bounded-exhaustive enumeration of inputs on the real code against a reference model"
SEQ = "exhaustive operation sequences of both parties' real code on a controlled scheduler and network, against the ideal functionality"
PAIRS = "exhaustive enumeration of pairs of executions of the real code (self-composition) with re-programmed hidden randomness"
CHECKS = {
    "C01": dict(level="model_checking", technique=ENUM,
        note="Every pair from a structured operand set that contains a GF(2)-basis (bilinearity makes agreement on basis pairs "
             "decide all pairs if the code is linear), all byte patterns and carries, operands whose words are related (equal, swapped, complemented, shifted, sums), on both build configurations.", bins=[
        dict(name="asm", src="gf.cpp", units="gf", variant="fast", defs=["-DPROP=1"], shards=8),
        dict(name="portable", src="gf.cpp", units="gf", variant="fastport", defs=["-DPROP=1"], shards=8),
        dict(name="asan", src="gf.cpp", units="gf", variant="asan", defs=["-DPROP=1"], shards=1),
    ], assumptions=[A_REAL]),
    "C02": dict(level="model_checking", technique=ENUM,
        note="All elements of the structured operand set incl. all subfields up to 2^16 elements; all ordered pairs and triples of inversions one after another; generator order against every prime factor.", bins=[
        dict(name="asm", src="gf.cpp", units="gf", variant="fast", defs=["-DPROP=2"], shards=4),
        dict(name="portable", src="gf.cpp", units="gf", variant="fastport", defs=["-DPROP=2"], shards=8),
    ], assumptions=[A_REAL]),
    "C03": dict(level="model_checking", technique=ENUM,
        note="All structured 128-bit values; all outcomes of each byte of the randomness source.", bins=[
        dict(name="asm", src="gf.cpp", units="gf", variant="asan", defs=["-DPROP=3"], shards=8),
    ], assumptions=[A_REAL]),
    "C04": dict(level="model_checking", technique=ENUM,
        note="8/16-bit types and all moduli up to 520 (5000 thorough) with all values; wider types and moduli around every power of two "
             "up to 2^128 with every boundary pattern.",
        bins=[dict(name="asan", src="scalar.cpp", units="scalar", variant="plain", defs=["-DPROP=4"], shards=8)], assumptions=[A_REAL]),
    "C05": dict(level="model_checking", technique="exhaustive operation sequences and thread interleavings (own scheduler) against a model; race detection on every explored schedule",
        note="All sequences of 10 operations up to depth 5 (6 thorough) in one thread; all interleavings with up to 3 preemptions of pairs of 4-operation programs in two threads; "
             "data races on the helpers' own state in explored schedules.",
        bins=[dict(name="race", src="scalar.cpp", units="scalar", variant="race", defs=["-DPROP=5"], shards=8),
              dict(name="hist", src="scalar.cpp", units="scalar", variant="plain", defs=["-DPROP=5"], shards=8)], assumptions=[A_REAL]),
    "C06": dict(level="model_checking", technique="exhaustive enumeration of the randomness source's outcomes on the real code",
        note="RAND_bytes and NTL's stream are replaced by an enumerated byte source: every outcome for narrow draws, every byte's outcomes for wide draws, also after sampling under other moduli; dependence of a fresh thread's samples on the source, drawn at once or one by one, also after another thread.",
        bins=[dict(name="plain", src="scalar.cpp", units="scalar", variant="asan", defs=["-DPROP=6"], shards=8)], assumptions=[A_REAL]),
    "C07": dict(level="model_checking", technique=ENUM,
        note="All moduli up to 300 (4096 thorough) and around every power of two up to 2^192, all hash widths 1..128, 26 security levels, against exact rational arithmetic.",
        bins=[dict(name="plain", src="scalar.cpp", units="scalar", variant="plain", defs=["-DPROP=7"], shards=8)], assumptions=[A_REAL]),
    "C08": dict(level="model_checking", technique="exhaustive call histories on the real code against an AES-CTR reference model",
        note="All histories of 9 operations up to depth 4 (6 thorough) for 7 buffer sizes, all buffer sizes up to 40 and around powers of two, counter wrap-arounds, "
             "every seed address modulo 32 and every seed length below 32; two generators in turns and copied onto each other to depth 5 (7), seeds differing in one bit, streams of 300,000 (16,000,000) values for buffers up to 2^20. The 2^48-block limit is out of reach.",
        bins=[dict(name="asan", src="aes.cpp", units="aes", variant="ubsan", shards=8)], assumptions=[A_REAL, "BoringSSL's AES_encrypt is AES."]),
    "C09": dict(level="model_checking", technique=ENUM,
        note="35 arities, all leaf counts up to 1100 (4000 thorough) and around every power of the arity up to 2^18 (2^21), more than 2^16 children; every node compared; all triples of 12 shapes side by side; seeds and keys differing in one bit.",
        bins=[dict(name="plain", src="ggm.cpp", units="ggm", variant="asan", defs=["-DPROP=9"], shards=8)], assumptions=[A_REAL, "BoringSSL's AES_encrypt is AES."]),
    "C10": dict(level="model_checking", technique=ENUM,
        note="17 arities, leaf counts up to 80 (260) with every missing index and four kinds of on-path garbage; larger trees (up to 140,001 leaves) at boundary indices; pairs of rebuilt trees side by side; every malformed argument shape.",
        bins=[dict(name="plain", src="ggm.cpp", units="ggm", variant="asan", defs=["-DPROP=10"], shards=8)], assumptions=[A_REAL, "BoringSSL's AES_encrypt is AES."]),
    "C11": dict(level="model_checking", technique="exhaustive schedules of the real parallel code (own OpenMP runtime, preemption-bounded) against a sequential reference; bounded-exhaustive inputs",
        note="1..5 functions, 7 table sizes, 5 input kinds, 0..20 (40) inputs; advertised teams up to 4 with every delivered size, all schedules with one (two threads: two) preemptions; all histories of 50 calls on two hashers to depth 3; seeds differing in one bit; 2^16 inputs and buckets and more.",
        bins=[dict(name="race", src="cuckoo.cpp", units="cuckoo", variant="race", defs=["-DPROP=11"], shards=8),
              dict(name="plain", src="cuckoo.cpp", units="cuckoo", variant="plain", defs=["-DPROP=11"], shards=8)], assumptions=[A_REAL]),
    "C12": dict(level="model_checking", technique="exhaustive enumeration of all collision patterns on the real code against a reference insertion",
        note="All bucket-choice patterns of up to 4 inputs in up to 5 buckets (inputs realising every pattern are searched for); larger tables at every load over enumerated seeds; histories of two hashers; seeds differing in one bit.",
        bins=[dict(name="plain", src="cuckoo.cpp", units="cuckoo", variant="fast", defs=["-DPROP=12"], shards=8)], assumptions=[A_REAL]),
    "C13": dict(level="model_checking", technique=ENUM,
        note="All input counts up to 3000 (20000) and around powers of two up to 2^40, security 0..128 (two functions: up to 60, beyond which the code's own search takes too long). The multi-point sharing's own numbers for 38 security levels, both parties.",
        bins=[dict(name="plain", src="cuckoo.cpp", units="cuckoo", variant="fast", defs=["-DPROP=13"], shards=8),
              dict(name="mpfss", src="buckets.cpp", units="all", variant="fast", shards=8)], assumptions=[A_REAL]),
    "C14": dict(level="model_checking", technique=SEQ,
        note="16 types/moduli; all lengths up to 40 with every index, all batches of up to 3 vectors with every index tuple, all operation sequences to depth 3, both role assignments, "
             "shared and direct connections, held-back delivery; up to 300 vectors in a batch, up to 70,001 leaves; 12 types and moduli in turns on the same objects.",
        bins=[dict(name="plain", src="proto.cpp", units="all", variant="plain", defs=["-DPROP=14"], shards=8)], assumptions=[A_REAL, A_OT]),
    "C16": dict(level="model_checking", technique=SEQ,
        note="As C14, with all pairs of boundary value shares.",
        bins=[dict(name="plain", src="proto.cpp", units="all", variant="plain", defs=["-DPROP=16"], shards=8)], assumptions=[A_REAL, A_OT]),
    "C17": dict(level="model_checking", technique=SEQ,
        note="All ordered selections of distinct indices for lengths up to 4 (5), boundary and full selections for longer outputs, all histories of 12 operations with changing layouts to depth 3 (4); 12 types and moduli in turns on the same objects.",
        bins=[dict(name="plain", src="proto.cpp", units="all", variant="plain", defs=["-DPROP=17"], shards=8)], assumptions=[A_REAL, A_OT]),
    "C18": dict(level="model_checking", technique=SEQ,
        note="All pairs of values of 8-bit types and moduli up to 257, all pairs of boundary values of wider ones, every length around the packing boundaries, four mask patterns, two security levels; vectors up to 70,001; 15 types and moduli in turns on the same objects.",
        bins=[dict(name="plain", src="proto.cpp", units="all", variant="plain", defs=["-DPROP=18"], shards=8)], assumptions=[A_REAL, A_OT]),
    "C15": dict(level="model_checking", technique=PAIRS,
        note="All lengths up to 36 (80) with every index, all batches of up to 3 vectors of lengths 0..5 with every index tuple; hidden nodes replaced tree by tree and all at once; dependence of the missing value on every bit the sender draws without telling the receiver, up to 70,001 leaves; batches of up to 300 vectors.",
        bins=[dict(name="plain", src="views.cpp", units="all", variant="plain", defs=["-DPROP=15"], shards=8, aes_hook=True)], assumptions=[A_REAL, A_OT, A_PRG]),
    "C22": dict(level="model_checking", technique=PAIRS,
        note="Single-point: lengths 0..20 (40) and all batches up to 3 of lengths 0..3; multi-point: five lengths, four point sets; lengths to 5000, batches of up to 300 vectors, 300 points in 2000; product: all packing boundaries, up to 20,000 transfers, 21 types and moduli; first seeds of the vector OLE; distances from uniform of reduced masks for moduli at the edge of eight security levels, also after other products.",
        bins=[dict(name="plain", src="views.cpp", units="all", variant="plain", defs=["-DPROP=22"], shards=8, aes_hook=True),
              dict(name="ole", src="vole.cpp", units="all", variant="fast", defs=["-DPROP=22"], shards=8)], assumptions=[A_REAL, A_OT, A_PRG]),
    "C19": dict(level="model_checking", technique=SEQ,
        note="Parameter sets scaled down to three small levels: all histories of 11 operations to depth 4 (5) for 128-bit integers, 3 (4) and 2 (3) for 12 other types, all batch/request sizes around the "
             "thresholds, both directions on the same objects; two objects for any two of 10 types and moduli in turns; drawn deltas compared over 585 histories; a few histories with the real parameters.",
        bins=[dict(name="plain", src="vole.cpp", units="all", variant="fast", defs=["-DPROP=19"], shards=8)], assumptions=[A_REAL, A_OT]),
    "C24": dict(level="model_checking", technique=SEQ.replace("against the ideal functionality", "with monitors for reuse"),
        note="As C19 for three wide types; every value handed out, sent as a mask or held as a seed is tracked over the whole history.",
        bins=[dict(name="plain", src="vole.cpp", units="all", variant="fast", defs=["-DPROP=24"], shards=8)], assumptions=[A_REAL, A_OT]),
    "C23": dict(level="model_checking", technique="exhaustive enumeration of bad calls in every position of operation histories on the real code",
        note="Some thousand bad calls over five protocols and their creation (bad entries at many positions of batches of up to 300, outputs of up to 70,000), by either party in either role, before, between and after valid operations; unusable moduli by one party or both.",
        bins=[dict(name="asan", src="args.cpp", units="all", variant="asan", shards=8)], assumptions=[A_REAL, A_OT]),
    "C25": dict(level="model_checking", technique="bounded-exhaustive operation shapes and histories on the real code, every transfer and message accounted for against the promised bounds",
        note="All vector lengths up to 140 (600) and around powers of two up to 2^14 (2^18), all batches of up to 3 of 9 lengths, multi-point shapes up to 40 with up to 6 points and larger ones, products of all lengths up to 70 "
             "for 11 types; larger: lengths to 70,001, batches of up to 300, products to 2500. Vector OLE: 8 batch sizes with all histories of 10 operations to depth 3 (4).",
        bins=[dict(name="plain", src="cost.cpp", units="all", variant="fast", shards=8)], assumptions=[A_REAL, A_OT]),
    "C20": dict(level="model_checking", technique="exhaustive interleavings of the parties' channel operations (own scheduler, preemption-bounded) on networks with different buffering; bounded-exhaustive sessions",
        note="All sequences of up to 3 (4) of 11 operations on up to five objects on one channel, all batch shapes, boundary sizes of every protocol, on eager, held-back and one-message networks with shared or direct "
             "connections; all interleavings with up to 2 (3) preemptions of short sessions, 1 (2) for the vector OLE. Lengths to 70,001, batches of up to 300 vectors, 100 points, products to 1500, each also as the last operation of its session.",
        bins=[dict(name="plain", src="net.cpp", units="all", variant="fast", shards=8)], assumptions=[A_REAL, A_OT]),
    "C21": dict(level="model_checking", technique="exhaustive schedules of the real parallel code (own OpenMP runtime, delay-bounded) with every team size; race detection on explored schedules",
        note="All pairs of 7 (13) delivered/advertised team sizes, constant and changing between operations, with the modulus changing in between; all schedules with up to 2 (3) delays of small operations, both parties' teams "
             "up to 3; teams of 16.",
        bins=[dict(name="race", src="par.cpp", units="all", variant="race", shards=8),
              dict(name="plain", src="par.cpp", units="all", variant="fast", shards=8)], assumptions=[A_REAL, A_OT]),
    "C26": dict(level="model_checking", technique="all batch sizes and short histories on the real code with recorded calls of its sub-protocols, against the parameter table and an account of all elements",
        note="Six small parameter tables: all batch sizes up to the capacity and beyond it, all histories of up to 12 operations to depth 3 (4). The published table: every 7th (every) batch size of the lowest set, thresholds of all sets, with the real "
             "sub-protocols for four sizes; the public code looked at where it is observable.",
        bins=[dict(name="plain", src="lpn.cpp", units="all", variant="fast", shards=8)], assumptions=[A_REAL, A_OT, "Hardness is counted as for the pooled Gaussian elimination."]),
    "C27": dict(level="model_checking", technique="all bounded layouts, contents and shapes of the caller's memory on the real code, with guard elements, borrowed inputs and the address sanitizer",
        note="174 batch shapes, multi-point lengths to 24, product lengths to 64, four vector-OLE histories; 30 layouts (separate, adjacent in three orders, gaps, unaligned; three contents, different ones at the parties); teams of 1 to 3; "
             "all eight scalar types; trees, hashing, generator and random filling besides. A part of it with the address and undefined-behaviour sanitizers.",
        bins=[dict(name="plain", src="memory.cpp", units="all", variant="fast", shards=8),
              dict(name="asan", src="memory.cpp", units="all", variant="asan", defs=["-DMC_SMALL"], shards=8)], assumptions=[A_REAL, A_OT]),
    "C28": dict(level="model_checking", technique="exhaustive interleavings (own scheduler, delay-bounded) of several sessions and local computations in one process, against their relations and their results alone; race detection on explored schedules",
        note="24 short sessions and computations, all pairs with one departure (two more orders) at channel operations, draws, locks and calls (three for local computations), triples and 30 longer sessions in pairs in three orders, teams up to 3; "
             "objects handed between up to three threads in every way, by one party or both.",
        bins=[dict(name="race", src="sessions.cpp", units="all", variant="race", shards=8),
              dict(name="plain", src="sessions.cpp", units="all", variant="fast", shards=8),
              dict(name="handed", src="sessions.cpp", units="all", variant="asan", defs=["-DMC_HANDED"], shards=8)], assumptions=[A_REAL, A_OT]),
}
