#!/usr/bin/env python3
"""Development tool for planted bugs (no registered check uses it).

  seed.py add SPEC.py...   plant: apply the spec's edits to a scratch copy of /repo, build, run the tests, run the
                           demonstration on both trees, run the property's check; keep it in seeded/<id>/ if it counts
  seed.py check [ID...]    run the property's check (or --all-checks) against planted bugs in a scratch copy

A spec is a Python file defining S = [dict(id, property, file, old, new | edits=[(file, old, new)], needs, breaks, demo)]."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"

DEMO_SH = r'''#!/bin/bash
# Run in the repository after its build: exit 0 if the property's behaviour is observed, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -g -O1 -w -fno-rtti -march=x86-64-v2 -maes -mpclmul -include cstdint -include stdexcept -include array \
    -DENABLE_MEMORY_LOCK -I"$repo/src/include" -I"$repo/src" -I"$repo/src/include/sse/crypto" "$here/demo.cpp" \
    -o "$t/demo" -L"$repo/_build" -lsse_crypto -Wl,-rpath,"$repo/_build" -lsodium -lgmp -lpthread || exit 3
cd "$t" && timeout 200 ./demo
'''
DEMO_H = r'''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <sodium.h>
#include <sse/crypto/utils.hpp>
#include <sse/crypto/key.hpp>
#include <sse/crypto/cipher.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/wrapper.hpp>
#include <sse/crypto/set_hash.hpp>
#include <sse/crypto/tdp.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/hash.hpp>
#include <sse/crypto/random.hpp>
using namespace sse::crypto;
template <size_t N> static Key<N> mk(int seed) { std::array<uint8_t, N> a; for (size_t i = 0; i < N; i++) a[i] = (uint8_t)(seed * 37 + i * 11 + (i >> 3)); return Key<N>(a.data()); }
#define REQUIRE(c) do { if (!(c)) { fprintf(stderr, "demo: %s fails (line %d)\n", #c, __LINE__); return 1; } } while (0)
'''


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    d = os.path.join(W, "repo")
    if not os.path.exists(d):
        os.makedirs(W, exist_ok=True)
        run(["cp", "-a", "/repo", d])
        shutil.rmtree(d + "/_build", ignore_errors=True)
    run(["git", "-C", d, "fetch", "-q", "/repo", "HEAD"])
    run(["git", "-C", d, "reset", "-q", "--hard", "FETCH_HEAD"])
    return d


def build(d):
    r = run(["bash", "-c", "cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_FLAGS=-Wno-error "
             "-DCMAKE_CXX_FLAGS=-Wno-error && ninja -C %s/_build" % (d, d, d)], env=dict(os.environ, CC="gcc", CXX="g++"))
    return r.returncode == 0, r.stdout


def tests(d):
    r = run(["ctest", "--test-dir", d + "/_build", "-j8", "--timeout", "300"])
    m = re.search(r"(\d+)% tests passed, (\d+) tests failed out of (\d+)", r.stdout)
    return m and m.group(2) == "0" and int(m.group(3)) >= 76, (m.group(0) if m else "") + "".join(re.findall(r"\n\s+\d+ - [^\n]*", r.stdout))


def check(d, prop):
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=W + "/build", VERIF_OUT=W + "/out")
    r = run([sys.executable, V + "/bin/check.py", prop, "quick"], env=env)
    return r.returncode, r.stdout


def report(prop, rc, out, seed=None):
    if seed:
        f = V + "/doc/seed_results.json"
        res = json.load(open(f)) if os.path.exists(f) else {}
        res[seed] = "caught" if rc == 1 and "VIOLATION property=" + prop in out else "missed"
        json.dump(res, open(f, "w"), indent=1, sort_keys=True)
    v = [l for l in out.splitlines() if l.startswith("  ")]
    print("   check %s: exit %d %s" % (prop, rc, "CAUGHT" if rc == 1 and "VIOLATION property=" + prop in out else "** MISSED **"))
    for l in v[:2]:
        print("     ", l.strip()[:220])
    if rc == 2:
        print(out[-1500:])


def add(spec, docheck):
    d = scratch()
    edits = spec.get("edits") or [(spec["file"], spec["old"], spec["new"])]
    print("==", spec["id"], spec["property"])
    dd = tempfile.mkdtemp(prefix="seed-")
    open(dd + "/demo.cpp", "w").write(DEMO_H + spec["demo"])
    open(dd + "/demo.sh", "w").write(spec.get("sh", DEMO_SH))
    for c in spec.get("copy", []):
        shutil.copytree(os.path.join(V, c), dd + "/" + os.path.basename(c))
    ok, out = build(d)
    r = run(["bash", dd + "/demo.sh"], cwd=d)
    if r.returncode != 0:
        print("   demo fails on the unchanged tree:", r.stdout[-3000:]); return False
    for f, old, new in edits:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) != 1:
            print("   edit does not match once:", f, t.count(old), repr(old[:80])); return False
        open(p, "w").write(t.replace(old, new))
    patch = run(["git", "-C", d, "diff"]).stdout
    ok, out = build(d)
    if not ok:
        print("   does not build", out[-3000:]); return False
    ok, out = tests(d)
    if not ok:
        print("   tests do not pass:", out); return False
    r = run(["bash", dd + "/demo.sh"], cwd=d)
    if r.returncode == 0 or r.returncode == 3:
        print("   demo does not fail with the change", r.returncode, r.stdout[-1500:]); return False
    print("   counts; demo:", r.returncode, r.stdout.strip()[-160:])
    o = os.path.join(V, "seeded", spec["id"])
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(o + "/patch.diff", "w").write(patch)
    shutil.copytree(dd, o, dirs_exist_ok=True)
    json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(dd)
    if docheck:
        for p in [spec["property"]]:
            report(p, *check(d, p), seed=spec["id"])
    return True


def main():
    a = sys.argv[1:]
    nocheck = "--no-check" in a
    a = [x for x in a if not x.startswith("--")]
    if a[0] == "add":
        only = None
        for f in [x for x in a[1:] if x.endswith(".py")]:
            ns = {}
            exec(open(f).read(), ns)
            ids = [x for x in a[1:] if not x.endswith(".py")]
            for s in ns["S"]:
                if not ids or s["id"] in ids:
                    add(s, not nocheck)
                    sys.stdout.flush()
    else:
        ids = a[1:] or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            m = json.load(open(V + "/seeded/%s/meta.json" % i))
            d = scratch()
            r = run(["git", "-C", d, "apply", V + "/seeded/%s/patch.diff" % i])
            print("==", i, m["property"], r.stdout)
            report(m["property"], *check(d, m["property"]), seed=i)
            sys.stdout.flush()


if __name__ == "__main__":
    main()
