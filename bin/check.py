#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]     decide one property on /repo's working tree
   check.py --replay FILE                 re-execute the failing case of a replay file on the real code

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it is broken.  Exit 2: no answer
(the tree or a harness does not build, or the exploration could not be completed)."""
import json, os, re, subprocess, sys, time, tempfile, shutil, hashlib, struct, mmap, signal
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from props import PROPS

VERIF = vbuild.VERIF
OUT = os.environ.get("VERIF_OUT", VERIF)  # evidence and replays
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:"
                        "detect_stack_use_after_return=0:max_allocation_size_mb=4096",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
ENV.setdefault("VERIF_SEED", "1")


def build_unit(prop, u):
    d = os.path.join(VERIF, "checks", u.get("dir", prop))
    srcs = [os.path.join(d, s) for s in u["src"]]
    return vbuild.harness(prop + "-" + u["name"], u["variant"], srcs, extra=u.get("flags", []),
                          uninstrumented=[os.path.join(VERIF, "mc", s) for s in u.get("plain_src", [])],
                          libs=u.get("libs", ("sodium", "gmp", "crypto")), ld=u.get("ld", ()))


def run_one(exe, args, tmp, tag, stall, deadline, only=None, thorough=False):
    out = os.path.join(tmp, tag + ".json")
    cur = os.path.join(tmp, tag + ".cur")
    err = os.path.join(tmp, tag + ".err")
    open(cur, "wb").write(b"\0" * 4096)
    cmd = [exe] + args + ["--out", out, "--cur", cur] + (["--thorough"] if thorough else [])
    if only is not None:
        cmd += ["--only", only]
    with open(err, "wb") as e:
        p = subprocess.Popen(cmd, stdout=e, stderr=e, env=ENV, cwd=tmp, start_new_session=True)
    last, t_last, status = None, time.time(), None
    while True:
        try:
            rc = p.wait(timeout=0.1 if time.time() - t_last < 2 else 0.5)
            status = "exit"
            break
        except subprocess.TimeoutExpired:
            pass
        with open(cur, "rb") as f:
            ticks = struct.unpack("<Q", f.read(8))[0]
        now = time.time()
        if ticks != last:
            last, t_last = ticks, now
        if now - t_last > stall or now > deadline:
            status = "stall" if now - t_last > stall else "deadline"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            rc = p.wait()
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    key = open(cur, "rb").read()[8:].split(b"\0")[0].decode("latin1")
    res = json.load(open(out)) if os.path.exists(out) else None
    tail = open(err, "rb").read()[-4000:].decode("latin1")
    full_err = open(err, "rb").read()[:200000].decode("latin1")
    return dict(rc=rc, status=status, key=key, res=res, tail=tail, err=full_err, out=out)


def summarize(err):
    for pat in (r"ERROR: AddressSanitizer: [^\n]*", r"runtime error: [^\n]*", r"Assertion [^\n]*", r"terminate called[^\n]*\n[^\n]*"):
        m = re.search(pat, err)
        if m:
            fr = re.search(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?/repo/src/[^\n]*)", err[m.start():])
            return m.group(0).replace("\n", " ")[:300] + (" at " + fr.group(1) if fr else "")
    return err[-300:].replace("\n", " ")


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) case=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        spec = PROPS[r["property"]]
        u = [x for x in spec["units"] if x["name"] == r["unit"]][0]
        exe = build_unit(r["property"], u)
        tmp = tempfile.mkdtemp(prefix="verif-")
        try:
            x = run_one(exe, u.get("args", []), tmp, "replay", 600, time.time() + 3600, only=r["case"], thorough=r["tier"] == "thorough")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print(x["tail"])
        bad = x["rc"] != 0
        print("REPRODUCED" if bad else "not reproduced")
        return 1 if bad else 0

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    spec = PROPS[prop]
    t0 = time.time()
    deadline = t0 + (spec.get("thorough_s", 6 * 3600) if thorough else 840)
    stall = 1200 if thorough else spec.get("stall", 200)
    units = [u for u in spec["units"] if thorough or not u.get("thorough_only")]
    try:
        for v in sorted({u["variant"] for u in units}):
            vbuild.library(v)
        with cf.ThreadPoolExecutor(8) as ex:
            exes = list(ex.map(lambda u: build_unit(prop, u), units))
    except vbuild.BuildError as e:
        print("BUILD-ERROR", str(e)[:6000])
        return 2
    t_build = time.time() - t0

    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        jobs = []
        for u, exe in zip(units, exes):
            n = u.get("shards", 8)
            for s in range(n):
                jobs.append((u, exe, s, n))
        with cf.ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(run_one, exe, u.get("args", []) + ["--shard", "%d/%d" % (s, n)], tmp,
                              "%s-%d" % (u["name"], s), stall, deadline, None, thorough) for u, exe, s, n in jobs]
            results = [f.result() for f in futs]

        violations, incomplete = [], []
        tot = dict(cases=0, transitions=0, checks=0)
        states, outcomes, samples, extra, per_unit = set(), set(), [], {}, {}
        for (u, exe, s, n), x in zip(jobs, results):
            r = x["res"]
            if r is not None:
                for k in tot:
                    tot[k] += r[k]
                pu = per_unit.setdefault(u["name"], dict(variant=u["variant"], cases=0, transitions=0))
                pu["cases"] += r["cases"]; pu["transitions"] += r["transitions"]
                for k, v in r["extra"].items():
                    extra[k] = extra.get(k, 0) + v
                for name, S in ((".states", states), (".outcomes", outcomes)):
                    b = open(x["out"] + name, "rb").read()
                    # distinct per (source file), not per build variant
                    S.update((u["src"][0], h) for h in struct.unpack("<%dQ" % (len(b) // 8), b))
                if s == 0:
                    samples += ["%s: %s" % (u["name"], k) for k in r["samples"][:6]]
                for f in r["fails"]:
                    violations.append((u, exe, s, n, f["key"], f["msg"], x))
            if x["status"] == "deadline":
                incomplete.append((u["name"], s, "deadline"))
            elif x["status"] == "stall":
                violations.append((u, exe, s, n, x["key"], "no progress for %d s (hang)" % stall, x))
            elif r is None:
                if x["rc"] == -9:
                    incomplete.append((u["name"], s, "killed"))
                else:
                    violations.append((u, exe, s, n, x["key"], "crash (status %s): %s" % (x["rc"], summarize(x["err"])), x))

        # replay before reporting
        kf = known_findings(prop)
        known_hit, reported = {}, []
        seen = set()
        for (u, exe, s, n, key, msg, x) in violations:
            if (u["name"], key) in seen:
                continue
            seen.add((u["name"], key))
            hit = [w for (k, w) in kf if re.fullmatch(k, key)]
            if hit:
                known_hit.setdefault(hit[0], key)
                continue
            if len(reported) >= 5:
                continue
            y = run_one(exe, u.get("args", []), tmp, "replay-%d" % len(reported), stall, time.time() + stall + 60, only=key, thorough=thorough)
            iso = y["rc"] != 0 or y["status"] != "exit"
            if not iso:
                y = run_one(exe, u.get("args", []) + ["--shard", "%d/%d" % (s, n)], tmp, "replay-s%d" % len(reported), stall,
                            max(deadline, time.time() + 60), None, thorough)
                if y["rc"] == 0:
                    incomplete.append((u["name"], s, "not reproducible: [%s] %s" % (key, msg)))
                    continue
            os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
            name = "%s-%s.json" % (prop, hashlib.sha256((u["name"] + key).encode()).hexdigest()[:10])
            path = os.path.join(OUT, "replays", name)
            json.dump(dict(property=prop, unit=u["name"], variant=u["variant"], tier=tier, case=key, message=msg,
                           reproduced="in isolation" if iso else "only after the cases preceding it in shard %d/%d" % (s, n),
                           command="python3 bin/check.py --replay " + path, log=x["tail"]), open(path, "w"), indent=1)
            reported.append((u["name"], key, msg, path))

        cov = dict(states=len(states), transitions=tot["transitions"], evaluations=tot["cases"], comparisons=tot["checks"],
                   distinct_nontrivial=len(outcomes) or tot["cases"], rule=spec["rule"], samples=samples[:40], per_unit=per_unit,
                   counters=extra, exhaustive=not incomplete, bounds=spec.get("bounds_thorough" if thorough else "bounds", spec.get("bounds", "")))
        if spec["level"] == "model_checking":
            cov["traces_validated_against_impl"] = extra.get("traces", tot["cases"])
        else:
            if not states:
                cov.pop("states")
        ev = dict(property=prop, tier=tier, seed=int(ENV["VERIF_SEED"] or 1), level=spec["level"], coverage=cov,
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(reported))
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, "evidence", prop + ".json"), "w"), indent=1)

        print("%s %s: %d cases, %d transitions, %d comparisons, %d states, %d distinct outcomes; build %.1fs, total %.1fs" % (
            prop, tier, tot["cases"], tot["transitions"], tot["checks"], len(states), len(outcomes), t_build, time.time() - t0))
        for w, key in known_hit.items():
            print("KNOWN-FINDING: property=%s %s [case %s]" % (prop, w, key))
        for (un, key, msg, path) in reported:
            print("  %s [%s] %s" % (un, key, msg))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if reported:
            return 1
        if incomplete:
            print("INCOMPLETE", incomplete)
            return 2
        if tot["cases"] == 0:
            print("VACUOUS: no case was explored")
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
