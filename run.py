#!/usr/bin/env python3
"""Runs the monitor of one property:  run.py C01 [--case GROUP:N] [--tier T]

Exit 0: held on everything explored; 1: violated (prints a VIOLATION line);
2: no answer (the monitors could not be built or run).
"""
import concurrent.futures as cf
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "harness"))
sys.path.insert(0, VERIF)
import build as B  # noqa: E402
from harness.checks_table import CHECKS  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """Lines `KNOWN-FINDING: property=C04 key=<key> <description>`."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("KNOWN-FINDING: "):
                continue
            parts = line[len("KNOWN-FINDING: "):].split(None, 2)
            if parts[0] == "property=" + prop and parts[1].startswith("key="):
                out[parts[1][4:]] = parts[2]
    return out


def Sample(text):
    try:
        return json.loads(text, parse_constant=str)
    except ValueError:
        return {"text": text}


def run_shard(exe, prop, seed, tier, shard, shards, case, scratch, env, limit):
    d = os.path.join(scratch, f"{os.path.basename(exe)}.{shard}")
    os.makedirs(d)
    out = d + ".json"
    status = d + ".status"
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--tier", tier,
           "--shard", f"{shard}/{shards}", "--scratch", d, "--out", out,
           "--status", status]
    if case:
        cmd += ["--case", case]
    err = d + ".err"
    with open(err, "wb") as e:
        p = subprocess.Popen(cmd, stdout=e, stderr=subprocess.STDOUT, env=env,
                             start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    st = ""
    mark = ""
    if os.path.exists(status):
        raw = open(status, "rb").read()
        st = raw[:3000].split(b"\0")[0].decode(errors="replace")
        mark = raw[3500:3520].split(b"\0")[0].decode(errors="replace")
    log = open(err, "rb").read().decode(errors="replace")
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
            # a sample which is no JSON is not worth an answer
            res["samples"] = [Sample(s) for s in res["samples"]]
        except ValueError:
            pass
    shutil.rmtree(d, ignore_errors=True)
    return rc, st, mark, log, res


SKIPPED = {"evaluations": 0, "distinct": [], "counters": {}, "samples": [],
           "rule": "", "failures": []}


def main():
    args = sys.argv[1:]
    prop = args[0]
    case = args[args.index("--case") + 1] if "--case" in args else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    spec = CHECKS[prop]
    t0 = time.time()
    try:
        exes = [(B.build(src, fl), fl) for src, fl in spec["bins"]]
        prog = B.build("minimc", spec["program"]) if spec.get("program") else None
    except B.BuildError as e:
        print("cannot build the monitors from the current tree:\n" + str(e))
        return 2
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="minimc-mon-")
    env = dict(os.environ)
    if prop == "C30":  # so that what is freed is no longer counted
        env["GLIBC_TUNABLES"] = ("glibc.malloc.tcache_count=0:"
                                 "glibc.malloc.mxfast=0")
    env["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=1:"
                           "detect_stack_use_after_return=1:"
                           "allocator_may_return_null=0")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    supp = os.path.join(VERIF, "harness", "tsan.supp")
    env["TSAN_OPTIONS"] = f"exitcode=66:halt_on_error=0:suppressions={supp}"
    env["LSAN_OPTIONS"] = ("suppressions=" +
                           os.path.join(VERIF, "harness", "lsan.supp") +
                           ":print_suppressions=0")
    env["MALLOC_PERTURB_"] = "165"
    if prog:
        env["MINIMC_PROGRAM"] = prog
    limit = 780 if tier == "quick" else 6 * 3600
    shards = 1 if case else (os.cpu_count() or 8)
    known = known_findings(prop)
    violated = threading.Event()
    start = time.time()

    def guarded(*a):
        """A shard, unless a violation was found and the time is short."""
        if violated.is_set() and time.time() - start > 120:
            return 0, "", "", "", SKIPPED
        left = max(30, limit - (time.time() - start))
        r = run_shard(*a[:-1], min(a[-1], left))
        rc, _, _, _, res = r
        if rc not in (0, -9) or res and any(
                f["key"] not in known for f in res["failures"]):
            violated.set()
        return r

    jobs = []
    try:
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            for exe, fl in exes:
                for i in range(shards):
                    jobs.append((exe, fl, ex.submit(
                        guarded, exe, prop, seed, tier, i, shards, case,
                        scratch, env, limit)))
            results = [(exe, fl, j.result()) for exe, fl, j in jobs]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    failures, broken, seen_known = [], [], {}
    ev = {"evaluations": 0}
    distinct, counters, samples = set(), {}, []
    rule = ""
    flav = {}
    for exe, fl, (rc, st, mark, log, res) in results:
        if res:
            ev["evaluations"] += res["evaluations"]
            distinct.update((h, fl) for h in res["distinct"])
            for k, v in res["counters"].items():
                counters[k] = counters.get(k, 0) + v
            samples += res["samples"]
            if exe.rsplit("/", 1)[-1].startswith(prop.lower()) or not rule:
                rule = res["rule"]
            flav[fl] = flav.get(fl, 0) + res["evaluations"]
            for f in res["failures"]:
                failures.append((f["key"], f["case"], f["message"], fl))
        if rc == "timeout":
            failures.append(("timeout", st, "the monitored run did not end "
                             f"within {limit} s; " + log[-1500:], fl))
        elif rc == 98 and mark == "TIMEOUT":
            failures.append(("timeout", st, "the case used more than its CPU "
                             "limit (endless loop?)", fl))
        elif rc != 0:
            if rc in (-9,) and not res:
                broken.append(f"killed: {log[-500:]}")
            else:
                kind = ("sanitizer" if rc in (66, 99) else "crash")
                failures.append((kind, st or "?", f"exit status {rc}: " +
                                 log[-6000:], fl))
        elif res is None:
            broken.append(f"no result: {log[-500:]}")
    samples = samples[:5]
    cov = dict(ev)
    cov["distinct_nontrivial"] = len(distinct)
    cov["rule"] = rule
    cov["samples"] = samples or [{"none": True}]
    cov.update({"observed": counters, "evaluations_by_build": flav})
    real = []
    for key, cs, msg, fl in failures:
        if key in known:
            seen_known.setdefault(key, cs)
        else:
            real.append((key, cs, msg, fl))
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    lines = []
    for n, (key, cs, msg, fl) in enumerate(real[:5]):
        rp = os.path.join(evd, "replay", f"{prop}-{n}.txt")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            f.write(f"property {prop}\nkey {key}\ncase {cs}\nbuild {fl}\n"
                    f"seed {seed}\ntier {tier}\n"
                    f"replay: cd {VERIF} && VERIF_SEED={seed} python3 run.py "
                    f"{prop} --tier {tier} --case {cs}\n\n{msg}\n")
        print(f"{prop} {key} [{cs}, {fl}]: {msg[:1200]}")
        lines.append(f"VIOLATION property={prop} replay={rp}")
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[key]} [key {key}, case "
              f"{seen_known[key]}]")
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov,
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
    }
    if not case:
        with open(os.path.join(evd, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    print(f"{prop}: {cov['evaluations']} evaluations, "
          f"{cov['distinct_nontrivial']} distinct, {counters}, "
          f"build {t_build:.1f} s, total {time.time()-t0:.1f} s")
    for b in broken:
        print("no answer: " + b)
    for line in lines:
        print(line)
    if real:
        return 1
    if broken:
        return 2
    if not case and cov["evaluations"] == 0:
        print("no answer: nothing was evaluated")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
