#!/usr/bin/env python3
"""Creates /verif/seeded/<id> from an edit of /repo and a demonstration, and confirms it in a scratch copy.

plant(id, property, [(file, old, new), ...], demo_cpp, needs, breaks, base='seeded' folder)"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
DEMO = r'''#!/bin/bash
# Exit 0 if the behaviour is right. Builds in a scratch folder.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r -- "$W"' EXIT
cd "$W" || exit 3
FL="-std=c++17 -O1 -w -fopenmp -DUSE_ASM -DMC_WITH_NTL -I$D/kit/shim -I$D/kit -I$R -I$R/distributed_vector_ole -I/usr/include/android -I/usr/include/eigen3"
n=0
{
  for f in $(find "$R/distributed_vector_ole" -name '*.cpp' ! -name '*_test.cpp' ! -name '*_benchmark.cpp'); do
    n=$((n+1)); echo "g++ $FL -c $f -o u$n.o"
  done
  for f in core net rng gomp; do echo "g++ $FL -c $D/kit/mc/$f.cpp -o mc_$f.o"; done
  echo "g++ $FL -c $D/demo.cpp -o demo.o"
} > cmds
xargs -P8 -d '\n' -I{} sh -c '{}' < cmds || { echo "build failed"; exit 3; }
ar rcs libu.a u*.o
B=/usr/lib/x86_64-linux-gnu/android
g++ -o demo demo.o mc_*.o libu.a -L$B -Wl,-rpath,$B -lcrypto -lntl -lgmp -lboost_serialization -lpthread -ldl $(pkg-config --libs absl_hash absl_flat_hash_set absl_flat_hash_map absl_strings absl_int128 absl_optional absl_span absl_inlined_vector) || { echo "link failed"; exit 3; }
timeout 200 ./demo
'''
DUO = r'''// Both parties on an in-memory network.
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <vector>
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "distributed_vector_ole/distributed_vector_ole.h"
#include "mc/core.h"
#include "mc/net.h"
#include "mpc_utils/comm_channel.hpp"
using namespace distributed_vector_ole;
#define EXPECT(c, ...) do { if (!(c)) { printf("wrong: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)
template <typename F> void duo(F f, bool lazy = false, bool measured = false) {
  mc::Link l;
  l.delivery = lazy ? mc::Link::LAZY : mc::Link::EAGER;
  auto go = [&](int p) { mpc_utils::comm_channel c(&l, p, measured); f(p, c); };
  mc::run2([&] { go(0); }, [&] { go(1); });
}
'''

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def plant(id, prop, edits, demo, needs, breaks):
    d = os.path.join(V, "seeded", id)
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        r = os.path.join(w, "repo")
        sh(["cp", "-a", "/repo", r], "/")
        sh(["git", "checkout", "-q", "--", "."], r)
        for f, old, new in edits:
            p = os.path.join(r, "distributed_vector_ole", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
        # every removed line must be an original one
        os.makedirs(d, exist_ok=True)
        if os.path.isdir(d + "/kit"): shutil.rmtree(d + "/kit")
        shutil.copytree(V + "/shim", d + "/kit/shim")
        os.makedirs(d + "/kit/mc")
        for f in ("core.cpp", "core.h", "net.cpp", "net.h", "rng.cpp", "gomp.cpp", "gomp.h"):
            shutil.copy(V + "/mc/" + f, d + "/kit/mc/" + f)
        open(d + "/kit/duo.h", "w").write(DUO)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        b = sh(["bash", d + "/demo.sh"], r)
        ok1 = b.returncode
        sh(["git", "checkout", "-q", "--", "."], r)
        a = sh(["bash", d + "/demo.sh"], r)
        print(id, "patched rc", ok1, "clean rc", a.returncode, "OK" if ok1 == 1 and a.returncode == 0 else "BAD")
        if not (ok1 == 1 and a.returncode == 0):
            print(b.stdout[-1500:], "----", a.stdout[-1500:])
        else:
            print("   ", b.stdout.strip()[-200:])
    finally:
        shutil.rmtree(w)
