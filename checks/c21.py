"""C21: byte streams between pipeline stages lose, add and reorder nothing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl


def body(c):
    exe = {v: build.harness("iomon", v, jitter=(v != "plain")) for v in ("plain", "asan", "tsan")}

    def case(i):
        rng = c.rng(i)
        variant = ["plain", "plain", "tsan", "asan"][i % 4]
        env = san_env()
        env.update(wl.jitter(rng, None if variant == "plain" else rng.choice([0, 1])))
        if variant != "plain":
            env.pop("LD_PRELOAD", None)     # (linked into these)
        d = c.dir("io")
        cmd = [exe[variant], str(rng.randint(1, 10**6)), str(40 if variant == "plain" else 15), d]
        pre = ["taskset", "-c", str(rng.choice(sorted(os.sched_getaffinity(0))))] if rng.random() < 0.25 else []
        h = run_harness(c, pre + cmd, env, 120)
        shutil.rmtree(d, ignore_errors=True)
        data = dict(cmd=pre + cmd, variant=variant, out=tail(h.out), err=tail(h.err, 4000), jitter=env.get("VP_JITTER"))
        if h.hang:
            c.violation(f"a stream does not end ({variant})", **data)
        if h.v:
            c.violation(f"{h.v[0]} ({variant})", **data)
        if h.rc:
            c.violation(f"monitor ended with status {h.rc} ({variant}): {tail(h.err, 400)}", **data)
        for k, n in h.stat.items():
            c.count(k, n)
        c.count("programs_" + variant)
        for k in range(sum(n for q, n in h.stat.items() if q != "bytes")):
            c.evaluated((i, k), True)
        if len(c.samples) < 4:
            c.samples.append({"variant": variant, **h.stat})
    c.run_cases(case, range(10**6), min_cases=16, jobs=6)


Check("C21", "random byte streams (all ones, zeros and random bytes included) through fifos with one writer and one reader thread, input and output buffers of several capacities, readers and writers, in-memory redirectors, input files and chains of all of them, with random piece sizes, "
      "injected delays, ASan/UBSan and TSan. One evaluation is one stream whose output was compared with its input", quick_s=9).main(body)
