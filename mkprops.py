#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
D = "distributed_vector_ole/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [D + f for f in files],
                          "state": [dict(name=a, meaning=b, where=D + c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=D + b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "GF(2^128) arithmetic is polynomial arithmetic",
     "For every pair of field elements, addition, subtraction, negation, multiplication and squaring return the result of "
     "polynomial arithmetic over GF(2) modulo x^128+x^7+x^2+x+1. This holds for compound assignments too, also when both "
     "operands are the same object, and operands that are not assigned to keep their value. The hardware-accelerated and the "
     "portable build agree.",
     ["inputs", "configurations"], "all pairs of 128-bit operands, all operators, both build configurations",
     "2^256 operand pairs; the test multiplies a handful of fixed pairs in one build configuration",
     ["gf128.h", "gf128.cpp"], [("carry-less multiplication and reduction", "gf128.cpp"), ("shift-and-add fallback", "gf128.cpp")],
     observe=["return values and operands of the arithmetic operators"])
prop("C02", "Every nonzero GF(2^128) element has its inverse",
     "The inverse of every nonzero field element multiplied with that element is one, and the inverse of zero is zero. The "
     "published generator generates the whole multiplicative group, i.e. its order is exactly 2^128-1.",
     ["inputs", "configurations"], "all field elements; all prime factors of the group order",
     "the test inverts a few random elements; elements of subfields and of small order, and the order of the generator, are never visited",
     ["gf128.h", "gf128.cpp"], [("addition chain for 2^128-2", "gf128.cpp inverse"), ("multiplicative_generator", "gf128.cpp")])
prop("C03", "GF(2^128) elements keep their identity",
     "A field element survives conversion to and from a 128-bit integer, to words, and serialization and deserialization, "
     "unchanged; elements are equal, hash alike and are reported zero exactly according to their 128-bit value, and the printed "
     "form shows that value. A default-constructed element is zero, and a random element is uniform over all 2^128 values.",
     ["inputs"], "all 128-bit values; all values of the randomness source",
     "no test covers conversion, serialization, hashing, printing or randomization",
     ["gf128.h", "gf128.cpp"], [("value_ word order", "gf128.h"), ("serialize / AbslHashValue", "gf128.h"), ("randomize", "gf128.cpp")])
prop("C04", "Scalar encodings are lossless and mutually consistent",
     "For every supported scalar type (unsigned integers, 128-bit integers, GF(2^128), modular integers with any modulus that fits 128 "
     "bits), converting a value to a 128-bit integer and back returns the value, and converting an arbitrary 128-bit integer yields that integer reduced to the type. "
     "The reported size is the smallest number of bytes that holds every value; the reported bits of a value, each multiplied with the "
     "reported weight of its position and added up in the type, give the value back, and no bit is set beyond the reported size.",
     ["inputs", "configurations"], "all scalar values, all 128-bit integers, all moduli from 2 to 2^128, all bit positions",
     "the repository has no test for the scalar layer; protocol tests use two moduli",
     ["internal/scalar_helpers.h", "internal/ntl_helpers.h", "internal/ntl_helpers.cpp"],
     [("ToUint128/FromUint128/SizeOf/GetBit/SetBit", "internal/scalar_helpers.h"), ("NTLNumBits", "internal/ntl_helpers.h")])
prop("C05", "Encodings follow the modulus installed in the calling thread",
     "After any history of installing, saving, switching and restoring moduli in any number of threads, the size, the "
     "encodings and the conversions of modular integers in a thread are those of the modulus currently installed in that "
     "thread. Operations in one thread never change results in another.",
     ["histories", "schedules"], "all sequences of modulus switches, saves, restores and queries over several threads and their interleavings",
     "tests install one modulus per process and never change it; cached values are never invalidated in any test",
     ["internal/ntl_helpers.cpp", "internal/ntl_helpers.h", "internal/scalar_helpers.h"],
     [("thread-local cache of the bit size", "internal/ntl_helpers.cpp NTLNumBitsCached"), ("thread-local temporary", "internal/ntl_helpers.cpp NTLTemp"),
      ("NTLContext", "internal/ntl_helpers.h")],
     state=[("cached_modulus / cached_num_bits", "modulus the cached size belongs to", "internal/ntl_helpers.cpp"), ("temp", "scratch integer", "internal/ntl_helpers.cpp")])
prop("C06", "Sampled scalars are uniform over the whole requested range",
     "Asking for n random scalars overwrites exactly the n requested elements, each with an independent value that is uniform over "
     "all values of the type (for modular integers: over all residues of the installed modulus). Nothing outside the requested range is "
     "written, and no two elements share their randomness. The values come from the system's entropy source, so that they cannot be predicted, in whatever thread they are drawn.",
     ["inputs", "configurations"], "all lengths, types, moduli and outcomes of the randomness source",
     "no test looks at sampled values",
     ["internal/scalar_helpers.h", "gf128.cpp"], [("Randomize", "internal/scalar_helpers.h")])
prop("C07", "The uniform-reduction test is sound and not needlessly strict",
     "A modulus is declared usable for hash values of h bits at a statistical security of s bits only if reducing a uniform h-bit value "
     "modulo it is within 2^-s statistical distance of uniform. It is declared usable whenever the fraction of hash values that would have to be cut off to make the reduction exactly uniform is "
     "below 2^-s. Integer and GF(2^128) types are declared usable exactly when the hash is at least as wide as the type.",
     ["inputs", "configurations"], "all moduli from 2 to beyond 2^128, all h in 1..128, all s",
     "protocol tests exercise two moduli at the default 128-bit hash and 40-bit security",
     ["internal/scalar_helpers.h", "scalar_vector_gilboa_product.h", "all_but_one_random_ot.h", "distributed_vector_ole.h"],
     [("CanBeHashedInto", "internal/scalar_helpers.h"), ("UseCorrelatedOT", "scalar_vector_gilboa_product.h")])
prop("C08", "The seeded generator emits one fixed stream per seed",
     "The values produced after seeding are the AES-128 counter-mode keystream for the key in the first and the initial counter "
     "in the second 16 bytes of the seed, whatever buffer size was requested, and no keystream word is skipped, repeated or replaced. Seeding again restarts the stream; "
     "seeds that are too short are rejected with a status and leave a valid generator usable, and any address of the seed bytes works.",
     ["inputs", "histories", "configurations"], "all seeds and seed alignments, all buffer sizes, all call sequences including re-seeding",
     "tests draw from one seed with one buffer size and only check that two generators agree",
     ["aes_uniform_bit_generator.h", "aes_uniform_bit_generator.cpp"], [("buffer refill", "aes_uniform_bit_generator.cpp operator()"), ("seed", "aes_uniform_bit_generator.cpp")],
     state=[("elements_used_ / nonce_ / counter_", "position in the stream", "aes_uniform_bit_generator.h")])
prop("C09", "A GGM tree is the full expansion of its seed",
     "For every arity of at least two and every positive number of leaves, the tree has that many leaves, each level is the smallest that can hold the parents of "
     "the next and there are no more levels than needed, the root is the seed, and child i of a node with value p is AES(k_i, p) xor p. Reported keys, shape and sibling-wise sums (the xor over a "
     "level of all i-th children) agree with the nodes, and nodes that do not exist are refused with a status.",
     ["inputs"], "all arities, leaf counts, seeds and keys; all node positions",
     "tests build a few sizes and check internal consistency, not the values",
     ["ggm_tree.h", "ggm_tree.cpp"], [("AllocateLevels", "ggm_tree.cpp"), ("ExpandSubtree", "ggm_tree.cpp"), ("XORBlocks", "ggm_tree.cpp")])
prop("C10", "A punctured GGM tree has every leaf but the missing one",
     "Rebuilding a tree from its sibling-wise sums and a missing index yields every leaf of the original except the missing one, whatever values the sums carry on "
     "the path to the missing leaf, and nothing on that path is derivable from what was supplied. Arguments that do not "
     "describe a tree (bad arity, leaf count, index, number of keys or shape of the sums) are refused with a status.",
     ["inputs"], "all arities, leaf counts, missing indices and on-path garbage; all malformed argument shapes",
     "tests puncture a few trees and never vary the ignored on-path values or try negative indices and short key lists",
     ["ggm_tree.h", "ggm_tree.cpp"], [("CreateFromSiblingWiseXOR", "ggm_tree.cpp"), ("missing_path", "ggm_tree.cpp")])
prop("C11", "Simple hashing files every input under each of its buckets, in order",
     "For every list of inputs, each input's position appears once per hash function in the bucket that function assigns to its value, buckets hold nothing else and list "
     "positions in ascending order, and all bucket numbers are in range. The result depends only on seed, inputs and number of buckets: it is the same for every number of threads, and equal seeds "
     "give equal results in different instances.",
     ["inputs", "schedules", "configurations"], "all input lists, bucket counts, hash-function counts, seeds, thread counts and schedules",
     "tests hash two fixed lists with the machine's thread count",
     ["cuckoo_hasher.h", "cuckoo_hasher.cpp"], [("Hash / HashSimple", "cuckoo_hasher.h"), ("ordered merge of per-thread buckets", "cuckoo_hasher.h")])
prop("C12", "Cuckoo hashing places every input exactly once or reports failure",
     "Cuckoo hashing terminates; when it succeeds, every input position occupies exactly one bucket, that bucket is one of those simple hashing assigns to the input, and all other buckets are marked empty. "
     "When it fails it says so with a status, which it may not do when insertion with eviction succeeds for the inputs (in particular not when no two inputs compete for a bucket).",
     ["inputs", "histories"], "all collision patterns of inputs over buckets, all orders of insertion",
     "tests insert a few random sets; adversarial collision patterns and failure paths are not reached",
     ["cuckoo_hasher.h", "cuckoo_hasher.cpp"], [("eviction loop", "cuckoo_hasher.h HashCuckoo")],
     state=[("buckets / next_hash_function", "occupant of a bucket and the function to try next", "cuckoo_hasher.h")])
prop("C13", "The recommended number of buckets is sufficient",
     "For every number of inputs and security parameter, the recommended number of buckets is positive, never smaller than the number of inputs, does not shrink when the security parameter grows, and follows the published "
     "sizing formula for two and three hash functions; other hash-function counts and negative sizes are refused with a status. A table of the recommended size is accepted by hashing for that number of inputs, as long as the documented limit of 128-bit hashes permits. The multi-point sharing sizes its tables for at least the statistical security it was created with.",
     ["inputs", "configurations"], "all input counts and security parameters", "tests look at one or two sizes",
     ["cuckoo_hasher.cpp", "mpfss_known_indices.h", "mpfss_known_indices.cpp"], [("GetOptimalNumberOfBuckets", "cuckoo_hasher.cpp"), ("NumBuckets", "mpfss_known_indices.h")])
prop("C14", "All-but-one transfer: parties agree everywhere except at the index",
     "For every batch of vector lengths and in-range indices, sender and receiver outputs agree in every position except the receiver's index, for every scalar type, either party in either role, and any sequence of "
     "runs on the same objects. The sender's values are those of fresh seeds: no two leaves, trees or runs repeat randomness.",
     ["inputs", "histories", "configurations"], "all lengths, indices, batches, scalar types, roles, connection kinds and run sequences up to a bound",
     "tests run single vectors of a few lengths with a fixed role assignment",
     ["all_but_one_random_ot.h", "all_but_one_random_ot.cpp", "internal/all_but_one_random_ot_internal.h", "ggm_tree.cpp"],
     [("SendTrees / ReceiveTrees", "all_but_one_random_ot.h"), ("choice bits", "all_but_one_random_ot.cpp"), ("UnpackLastLevel", "internal/all_but_one_random_ot_internal.h")])
prop("C15", "All-but-one transfer hides the index and the missing value",
     "Everything the sender's side sees is the same for every index the receiver may choose. Everything the receiver's side sees is independent of the sender's value at the receiver's index and of every tree node on the path to it: executions that "
     "differ only in those give the receiver the same view.",
     ["inputs"], "all lengths, indices and pairs of executions that differ only in the hidden values",
     "a 2-safety property over pairs of executions; tests only compare outputs of one execution",
     ["all_but_one_random_ot.h", "all_but_one_random_ot.cpp", "ggm_tree.cpp"],
     [("choice bits are the negated path", "all_but_one_random_ot.cpp ReceiveTrees"), ("OT messages from sibling-wise XOR", "all_but_one_random_ot.h SendTrees")],
     observe=["messages on the channel", "oblivious-transfer inputs and outputs"])
prop("C16", "Single-point sharing adds up to one point",
     "For every batch of vector lengths, indices and value shares, the two parties' output vectors add up to zero in every position except each vector's index, where they add up to the sum of the two value shares. This holds for every scalar "
     "type and modulus, in either role, for empty vectors in the batch, and over any sequence of runs on the same objects.",
     ["inputs", "histories", "configurations"], "all lengths, indices, shares, batches, types, roles and run sequences up to a bound",
     "tests run single vectors of a few lengths, one modulus",
     ["spfss_known_index.h", "spfss_known_index.cpp"], [("RunValueProviderBatched / RunIndexProviderBatched", "spfss_known_index.h")])
prop("C17", "Multi-point sharing adds up to the products at the given points",
     "For every output length, every set of distinct in-range indices in any order, every vector y and scalar x, and a valid input correlation, the two output vectors add up to x*y[i] at the i-th index and to zero "
     "elsewhere. This holds whether or not the bucket layout was prepared in advance, and over any sequence of runs with changing lengths and index counts on the same objects.",
     ["inputs", "histories", "configurations"], "all lengths, index sets, values, types, roles and run sequences up to a bound",
     "tests run single executions with increasing indices; layout caching over changing sizes is not exercised",
     ["mpfss_known_indices.h", "mpfss_known_indices.cpp", "cuckoo_hasher.h", "spfss_known_index.h"],
     [("RunValueProviderVectorOLE / RunIndexProviderVectorOLE", "mpfss_known_indices.h"), ("UpdateBuckets", "mpfss_known_indices.cpp")],
     state=[("buckets_ / cached_output_size_ / cached_num_indices_", "cached bucket layout", "mpfss_known_indices.h")])
prop("C18", "The scalar-vector product is shared correctly",
     "For every scalar x, vector y and scalar type of at most 16 bytes (including any modulus up to 128 bits), the two parties' outputs add up to x*y, for every length including zero and lengths that do not fill a transfer block, in either role and over any "
     "sequence of runs on the same objects. Both parties always pick the same kind of transfer.",
     ["inputs", "histories", "configurations"], "all x, y, lengths, types, moduli, roles and run sequences up to a bound",
     "tests use small fixed values and two moduli, so carries, full-range values and packing boundaries are not covered",
     ["scalar_vector_gilboa_product.h", "scalar_vector_gilboa_product.cpp", "internal/gilboa_internal.h"],
     [("packing", "internal/gilboa_internal.h SpanToEMPBlock/EMPBlockToSpan"), ("RunVectorProvider / RunValueProvider", "scalar_vector_gilboa_product.h")])
prop("C19", "Vector OLE outputs satisfy w = u*delta + v over every history",
     "In every history of precomputations and runs that the two parties perform in step, each run returns vectors of the requested length with w = u*delta + v, where delta is the value given to (or freshly drawn by) the latest precomputation and stays the same until the next one. This holds "
     "for every scalar type, any batch and request sizes (served from leftovers, across several expansions, larger than a batch), either role assignment and re-precomputation at any point.",
     ["histories", "inputs", "configurations"], "all sequences of precompute/run calls with all sizes up to a bound, all types and role assignments",
     "tests perform one precomputation and three runs; histories that mix re-precomputation, leftovers and multi-batch requests are not reached",
     ["distributed_vector_ole.h", "distributed_vector_ole.cpp"],
     [("RunSender / RunReceiver cache logic", "distributed_vector_ole.h"), ("ExpandSender / ExpandReceiver", "distributed_vector_ole.h"), ("PrecomputeCommon", "distributed_vector_ole.h")],
     state=[("sender_cached_ / receiver_cached_", "unused correlations", "distributed_vector_ole.h"), ("*_vole_seed_ / *_mpfss_seed_", "seeds reserved for the next expansion", "distributed_vector_ole.h")])
prop("C20", "Protocols never deadlock, desynchronise or leave data behind",
     "Whenever both parties start the same protocol operations in the same order, every operation of both parties completes, whatever the network's buffering (data may be held back until the sender flushes), whichever party is scheduled first, and whether the "
     "connections are shared or separate. Afterwards nothing sent is left unflushed or unread, and both parties took every message for what it was.",
     ["schedules", "histories", "configurations"], "all interleavings of the two parties' channel operations, delivery modes, role assignments and connection kinds for bounded protocol histories",
     "tests run on a buffered local socket with the operating system's schedule, which hides missing flushes and order mismatches",
     ["all_but_one_random_ot.h", "all_but_one_random_ot.cpp", "spfss_known_index.h", "mpfss_known_indices.h", "mpfss_known_indices.cpp", "scalar_vector_gilboa_product.h", "distributed_vector_ole.h"],
     [("flush after every send", "spfss_known_index.h"), ("lower id sends seeds", "mpfss_known_indices.cpp Create"), ("lower id sends generator seed", "distributed_vector_ole.h PrecomputeCommon")])
prop("C21", "Parallel sections are race free and schedule independent",
     "For every number of threads, including fewer than advertised, and every schedule of them, all parallel computations finish, access no shared memory without synchronisation, see the caller's modulus, and produce results that satisfy the protocol's relation; computations without randomness give "
     "the same result as with a single thread.",
     ["schedules", "configurations"], "all interleavings of worker threads at synchronisation points up to a preemption bound, team sizes 1..4, data races in every explored schedule",
     "tests run with whatever schedule the machine produces; a race or order dependence shows only under rare schedules",
     ["cuckoo_hasher.h", "all_but_one_random_ot.h", "all_but_one_random_ot.cpp", "spfss_known_index.h", "mpfss_known_indices.h", "distributed_vector_ole.h", "internal/ntl_helpers.cpp"],
     [("omp parallel regions with context.restore()", "spfss_known_index.h"), ("ordered merge", "cuckoo_hasher.h HashSimple"), ("thread_local caches", "internal/ntl_helpers.cpp")])
prop("C22", "Secrets leave a party only under a fresh uniform mask",
     "Every message that depends on a party's secret input (value shares, vector entries, indices, scalar x, delta) carries that input only added to a mask that is uniform in the scalar type, unknown to the recipient and used once; taken together, all masks of a call are uniform up to the requested statistical security. In particular, changing the secret and adjusting the mask accordingly "
     "leaves the recipient's view unchanged, also for empty vectors, single elements and boundary lengths.",
     ["inputs", "histories"], "all secrets, lengths and mask values within small types and sizes",
     "a 2-safety property over pairs of executions and over the masks' distribution; tests compare outputs only",
     ["spfss_known_index.h", "mpfss_known_indices.h", "scalar_vector_gilboa_product.h", "internal/gilboa_internal.h", "distributed_vector_ole.h"],
     [("sums over all leaves mask the share", "spfss_known_index.h"), ("y_permuted + u", "mpfss_known_indices.h"), ("random OT messages", "internal/gilboa_internal.h")],
     observe=["messages on the channel", "oblivious-transfer views"])
prop("C23", "Bad arguments are refused cleanly",
     "Calls with arguments that violate the documented preconditions (missing channel, negative security parameter, mismatched or empty lengths, out-of-range, negative or repeated indices, a modulus unusable for the number of elements at the requested statistical security, negative sizes) return an error status: they do not crash, write "
     "outside the outputs, or send anything to the peer (the multi-point sharing and the vector OLE may refuse an unusable modulus after the same steps of both parties). The object stays usable: the next valid operation behaves as if the refused call had not happened.",
     ["inputs", "histories"], "all argument shapes around every documented boundary, for every public entry point, in fresh and used objects",
     "tests try one bad value per entry point on fresh objects and do not look at communication or later use",
     ["all_but_one_random_ot.h", "all_but_one_random_ot.cpp", "spfss_known_index.h", "mpfss_known_indices.h", "scalar_vector_gilboa_product.h", "distributed_vector_ole.h"],
     [("argument checks at the top of each entry point", "mpfss_known_indices.h")])
prop("C24", "Vector OLE never reuses correlations, masks or noise",
     "No correlation handed out by a run, and no correlation consumed as a seed for an expansion, is handed out or consumed again, in any history of precomputations and runs. Every expansion draws fresh noise: as many distinct noise positions as the chosen parameter set prescribes, with fresh values, "
     "and the two parties derive the same public code.",
     ["histories", "configurations"], "all sequences of precompute/run calls up to a bound, all parameter levels",
     "reuse leaves the relation w = u*delta + v intact, so no output comparison can see it",
     ["distributed_vector_ole.h", "distributed_vector_ole.cpp"],
     [("GetSenderCached / GetReceiverCached shrink the cache", "distributed_vector_ole.h"), ("ExpandSender noise sampling", "distributed_vector_ole.h"), ("VOLEParameters", "distributed_vector_ole.cpp")],
     observe=["outputs of runs", "masked vectors on the channel", "random draws"])

prop("C25", "The protocols' communication stays as small as promised",
     "An all-but-one transfer of n elements takes no more than ceil(log2 n) oblivious transfers per vector, and what is sent besides them does not grow with the lengths; single-point sharing adds one scalar per vector, multi-point sharing costs a single-point sharing and one scalar per bucket, "
     "a scalar-vector product one transfer per bit of x for as many elements as fit 128 bits. A precomputed vector OLE performs no more expansions than its batch size requires for the total requested so far: a request covered by what is left over communicates nothing, "
     "and the precomputation climbs no further than the smallest parameter level that fits the batch.",
     ["inputs", "histories"], "all vector lengths, batch shapes and request histories up to a bound",
     "a protocol that sends more than it should, or expands again instead of using what is left, still returns correct outputs; tests do not measure communication",
     ["all_but_one_random_ot.h", "all_but_one_random_ot.cpp", "ggm_tree.cpp", "spfss_known_index.h", "mpfss_known_indices.h", "scalar_vector_gilboa_product.h", "distributed_vector_ole.h"],
     [("one transfer per tree level", "all_but_one_random_ot.h SendTrees"), ("packing of elements into a transfer", "scalar_vector_gilboa_product.h"), ("GetSenderCached / GetReceiverCached before expanding", "distributed_vector_ole.h")],
     observe=["messages on the channel", "oblivious transfers"])

prop("C26", "Every vector-OLE expansion is a hard instance of a published size",
     "For every batch size and every history, each expansion the vector OLE performs belongs to one of the published parameter sets: it stretches at least that set's seed to no more than that set's output size, under exactly that set's number of noise values at distinct positions all over the output, "
     "so that solving it takes at least 2^80 operations by pooled Gaussian elimination; its public code combines, for every output, up to kCodeGeneratorNonzeros (10) elements from all over the seed with fresh coefficients. Both parties make the same expansions, the output of each set sustains the seeds of the next, "
     "and batches, however large, are cut to what the largest set yields.",
     ["inputs", "histories", "configurations"], "all batch sizes around and below every parameter set's capacity, all short histories, scaled and published parameter tables",
     "an expansion with too much output, too short a seed or too little noise gives correct correlations that merely are not pseudorandom; no output comparison can see it, and tests run two batch sizes",
     ["distributed_vector_ole.h", "distributed_vector_ole.cpp"],
     [("choice of the parameter set", "distributed_vector_ole.h PrecomputeSender / PrecomputeReceiver"), ("code generator", "distributed_vector_ole.h PrecomputeCommon"), ("noise", "distributed_vector_ole.h ExpandSender"), ("parameter table", "distributed_vector_ole.cpp")],
     observe=["calls of the sub-protocols", "the public code"])

prop("C27", "Calls write their outputs, nothing else, and keep no hold on caller memory",
     "Whatever inputs, lengths and threads: a call changes no element of its inputs, sets every element of its outputs whatever they held before, and writes nothing next to them, also where the outputs of a batch are unaligned or adjacent pieces of one buffer in any order. "
     "After a call nothing depends on the memory its inputs and outputs were in: it may be overwritten, freed or used for the next call's inputs, and what was returned is the caller's own. "
     "The moduli installed in the calling thread and its number of threads are the same after every call as before.",
     ["inputs", "configurations", "histories"], "all layouts and contents of the caller's memory within bounds, for every entry point, scalar type and shape",
     "tests use separate, zeroed vectors, once each, and look at the results only",
     ["all_but_one_random_ot.h", "internal/all_but_one_random_ot_internal.h", "spfss_known_index.h", "mpfss_known_indices.h", "scalar_vector_gilboa_product.h", "internal/gilboa_internal.h", "distributed_vector_ole.h", "ggm_tree.cpp", "cuckoo_hasher.h", "internal/scalar_helpers.h"],
     [("unpacking into outputs", "internal/all_but_one_random_ot_internal.h UnpackLastLevel"), ("output zeroed, then filled from buckets", "mpfss_known_indices.h"), ("cached_output_size_ / buckets_", "mpfss_known_indices.cpp UpdateBuckets"), ("NTLContext save / restore", "internal/scalar_helpers.h")])

prop("C28", "Instances do not disturb each other and are not bound to threads",
     "Any number of protocol objects, trees, hashers and generators may be used at the same time in different threads of one process, each by one thread at a time, with whatever scalar types, moduli, sizes, roles and numbers of threads: in every interleaving each behaves as if it were alone. "
     "All operations complete and satisfy their relation, deterministic computations give the results they give alone, and no memory is shared between instances without synchronisation. "
     "An object may be created, used and destroyed by different threads one after the other, as long as each has the modulus installed: what it does depends on its own history only.",
     ["schedules", "histories", "configurations"], "all interleavings of pairs of sessions within a departure bound, triples in three orders, all assignments of a history's steps to threads",
     "tests run one session with two threads, each object in one thread from creation to destruction",
     ["all_but_one_random_ot.h", "spfss_known_index.h", "mpfss_known_indices.h", "mpfss_known_indices.cpp", "scalar_vector_gilboa_product.h", "internal/gilboa_internal.h", "distributed_vector_ole.h", "ggm_tree.cpp", "cuckoo_hasher.h", "aes_uniform_bit_generator.cpp", "internal/ntl_helpers.cpp", "internal/scalar_helpers.h"],
     [("cached bit width of the modulus", "internal/ntl_helpers.cpp thread_local"), ("buckets_ and cached sizes are members", "mpfss_known_indices.h"), ("seeds, caches and code are members", "distributed_vector_ole.h"), ("expanded keys are members", "ggm_tree.h, cuckoo_hasher.h")])

ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
