#!/bin/bash
# Validates the stand-ins in shim/ and mc/: builds all of the repository's own
# unit tests against them and runs them. All must pass.
set -e
D=$(mktemp -d /tmp/repo_tests.XXXXXX)
trap 'rm -rf "$D"' EXIT
cd "$D"
FL="-std=c++17 -O1 -g -fopenmp -Wno-ignored-attributes -DUSE_ASM -DMC_WITH_NTL -I/verif/shim -I/verif -I/repo -I/usr/include/android -I/usr/include/eigen3"
for f in aes_uniform_bit_generator all_but_one_random_ot cuckoo_hasher distributed_vector_ole gf128 ggm_tree mpfss_known_indices scalar_vector_gilboa_product spfss_known_index; do echo "g++ $FL -I/repo/distributed_vector_ole -c /repo/distributed_vector_ole/$f.cpp -o $f.o";  echo "g++ $FL -c /repo/distributed_vector_ole/${f}_test.cpp -o ${f}_test.o"; done > cmds
echo "g++ $FL -c /repo/distributed_vector_ole/internal/ntl_helpers.cpp -o ntl_helpers.o" >> cmds
for f in core net rng gomp; do echo "g++ $FL -c /verif/mc/$f.cpp -o mc_$f.o">>cmds; done
cat cmds | xargs -P8 -I{} sh -c '{} 2>&1 | grep -E "error|Error" -A3 | head -20'
L="-L/usr/lib/x86_64-linux-gnu/android -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -lcrypto -lntl -lgmp -lboost_serialization -lgtest -lgtest_main -lpthread -ldl $(pkg-config --libs absl_hash absl_flat_hash_set absl_strings absl_int128 absl_optional)"; LIB="aes_uniform_bit_generator.o all_but_one_random_ot.o cuckoo_hasher.o distributed_vector_ole.o gf128.o ggm_tree.o mpfss_known_indices.o scalar_vector_gilboa_product.o spfss_known_index.o ntl_helpers.o mc_core.o mc_net.o mc_rng.o mc_gomp.o"; for f in aes_uniform_bit_generator all_but_one_random_ot cuckoo_hasher distributed_vector_ole gf128 ggm_tree mpfss_known_indices scalar_vector_gilboa_product spfss_known_index; do (g++ -o ${f}_t ${f}_test.o $LIB $L 2>&1 | head -5; timeout 300 ./${f}_t > $f.log 2>&1;echo == $f;  tail -1 $f.log) & done; wait
