"""Builds OpenSSE/crypto-tk from /repo's working tree in several variants, outside /repo.

The list of library sources is read from /repo/src/CMakeLists.txt (as /opt/vp does), so a file added there
is built here too.  A variant's output directory is named by a hash over every file below /repo/src, the
compiler version and the flags: any change of any source makes a fresh build, and nothing stale is reused.
"""
import hashlib, os, re, subprocess, sys, concurrent.futures as cf, shutil, fcntl

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

ARCH = ["-march=x86-64-v2", "-maes", "-mpclmul"]
FORCE = ["-include", "cstdint", "-include", "stdexcept", "-include", "array"]

VARIANTS = {
    # name: (C compiler, C++ compiler, extra flags, extra link flags)
    "plain":  ("gcc", "g++", ["-O2", "-g1", "-DENABLE_MEMORY_LOCK"], []),
    "debug":  ("gcc", "g++", ["-O0", "-g1", "-DENABLE_MEMORY_LOCK"], []),
    "nolock": ("gcc", "g++", ["-O2", "-g1"], []),
    "asan":   ("gcc", "g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-DENABLE_MEMORY_LOCK",
                              "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                              "-fno-sanitize=alignment"],
               ["-fsanitize=address,undefined"]),
    # memory accesses of the library are reported to the harness' own runtime (mc/tsanrt.cpp)
    "trace":  ("gcc", "g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-DENABLE_MEMORY_LOCK",
                              "-fsanitize=thread"], []),
}


# the same with src/ppke and src/puncturable_enc.cpp, against a stand-in for RELIC (mc/fakerelic)
FAKE = os.path.join(VERIF, "mc/fakerelic")
for _v in ("plain", "asan"):
    _c, _x, _f, _l = VARIANTS[_v]
    VARIANTS["ppke" + _v] = (_c, _x, _f + ["-I" + FAKE], _l)


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for d, dirs, files in os.walk(os.path.join(REPO, "src")):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
                h.update(b"\0")
        h.update(subprocess.run(["g++", "--version"], stdout=subprocess.PIPE).stdout)
        h.update(open(os.path.abspath(__file__), "rb").read())
        _tree = h.hexdigest()
    return _tree


def sources(ppke=False):
    text = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    text = re.sub(r"#[^\n]*", "", text)
    m = re.search(r"add_library\(\s*sse_crypto\s([^)]*)\)", text)
    names = re.findall(r"[^ \t\r\n\"]+\.(?:cpp|cc|c)\b", m.group(1))
    out = []
    for n in names:
        p = os.path.normpath(os.path.join(REPO, "src", n))
        rel = os.path.relpath(p, os.path.join(REPO, "src"))
        if rel.startswith("ppke/") or rel == "puncturable_enc.cpp":
            if not ppke:
                continue
        out.append(p)
    return out


RELIC = [r'^#include "ppke/relic_wrapper/relic_api\.h"[ \t]*$',
         r'^[ \t]*static relicxx::relicResourceHandle\* *g_relic_handle_;[ \t]*$',
         r'^[ \t]*g_relic_handle_ = new relicxx::relicResourceHandle\(true\);[ \t]*$',
         r'^[ \t]*delete g_relic_handle_;[ \t]*$',
         r'^[ \t]*g_relic_handle_ = nullptr;[ \t]*$']


def includes():
    return ["-I" + os.path.join(REPO, "src/include"), "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(REPO, "src/include/sse/crypto")]


def _compile(cc, cxx, flags, src, obj, inc=None):
    inc = inc if inc is not None else includes()
    if src.endswith(".c"):
        cmd = [cc, "-std=gnu99", "-fPIC", "-w"] + ARCH + flags + inc + ["-c", src, "-o", obj]
    else:
        cmd = [cxx, "-std=gnu++11", "-fPIC", "-w", "-fno-rtti"] + ARCH + FORCE + flags + inc + ["-c", src, "-o", obj]
    sh(cmd)


def library(variant):
    """Returns (dir, [objects]) of the library in the variant."""
    cc, cxx, flags, _ = VARIANTS[variant]
    ppke = variant.startswith("ppke")
    fake = ""
    if ppke:
        for f in ("relic.cpp", "relic/relic.h", "relic/relic_conf.h"):
            fake += open(os.path.join(FAKE, f)).read()
    key = hashlib.sha256((tree_hash() + repr(flags) + fake).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ar = os.path.join(d, "libsse.a")
        if os.path.exists(os.path.join(d, "ok")):
            return d, ar
        for old in os.listdir(BUILD):
            if old.startswith("lib-%s-" % variant):
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        os.makedirs(d)
        jobs = []
        if ppke:
            jobs.append((os.path.join(FAKE, "relic.cpp"), os.path.join(d, "fakerelic.o")))
        for s in sources(ppke):
            rel = os.path.relpath(s, os.path.join(REPO, "src"))
            obj = os.path.join(d, rel.replace("/", "_") + ".o")
            if rel == "utils.cpp" and not ppke:
                text = open(s).read()
                for r in RELIC:
                    text = re.sub(r, "", text, flags=re.M)
                s2 = os.path.join(d, "utils.cpp")
                open(s2, "w").write('#line 1 "%s"\n' % s + text)
                s = s2
            jobs.append((s, obj))
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: _compile(cc, cxx, flags, *j), jobs))
        sh(["ar", "rcs", ar] + [o for _, o in jobs])
        open(os.path.join(d, "ok"), "w").close()
        return d, ar


def harness(name, variant, srcs, extra=(), libs=("sodium", "gmp", "crypto"), std="gnu++17", uninstrumented=(), ld=()):
    """Builds a harness executable against the library variant; returns its path."""
    d, ar = library(variant)
    cc, cxx, flags, lflags = VARIANTS[variant]
    hh = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(VERIF, "mc")):
        for f in sorted(files):
            hh.update(open(os.path.join(root, f), "rb").read())
    for s in list(srcs) + list(uninstrumented):
        hh.update(open(s, "rb").read())
    cd = os.path.dirname(srcs[0])
    for f in sorted(os.listdir(cd)):
        if f.endswith((".hpp", ".h", ".inc")):
            hh.update(open(os.path.join(cd, f), "rb").read())
    hh.update(repr((extra, libs, std, ld, VARIANTS[variant])).encode())
    exe = os.path.join(d, "%s-%s" % (name, hh.hexdigest()[:16]))
    if os.path.exists(exe):
        return exe
    base = [cxx, "-std=" + std, "-w", "-fno-rtti"] + ARCH + FORCE + includes() + \
           ["-I" + os.path.join(VERIF, "mc"), "-I" + cd] + list(extra)
    objs = []
    jobs = []
    flags = ["-O1" if f == "-O2" else f for f in flags]  # the harness itself; the library keeps its level
    san = [f for f in flags if not f.startswith("-fsanitize=thread")]
    for s in srcs:
        o = exe + "." + os.path.basename(s) + ".o"
        jobs.append(base + flags + ["-c", s, "-o", o]); objs.append(o)
    for s in uninstrumented:
        o = exe + "." + os.path.basename(s) + ".o"
        jobs.append(base + san + ["-c", s, "-o", o]); objs.append(o)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    sh([cxx] + lflags + list(ld) + objs + [ar] + ["-l" + l for l in libs] + ["-lpthread", "-ldl", "-o", exe + ".tmp"])
    os.rename(exe + ".tmp", exe)
    for o in objs:
        os.unlink(o)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "asan"]:
        print(library(v)[0])
