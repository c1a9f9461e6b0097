"""C17: the scheduler runs each submitted task once and delivers its result or exception."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl


def body(c):
    exe = {v: build.harness("schedmon", v, jitter=(v != "plain")) for v in ("plain", "asan", "tsan")}
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        variant = ["plain", "plain", "tsan", "asan"][i % 4]
        env = san_env()
        env.update(wl.jitter(rng))
        if variant != "plain":
            env.pop("LD_PRELOAD", None)     # (linked into these)
        cmd = [exe[variant], str(rng.randint(1, 10**6)), str(30 if variant == "plain" else 12)]
        pre = []
        if rng.random() < 0.3:
            pre = ["taskset", "-c", str(rng.choice(sorted(os.sched_getaffinity(0))))]   # all threads on one processor
        h = run_harness(c, pre + cmd, env, 120)
        data = dict(cmd=pre + cmd, variant=variant, out=tail(h.out), err=tail(h.err, 4000), jitter=env.get("VP_JITTER"))
        if h.hang:
            c.violation(f"tasks, results, counters or events are never finished or signalled: the program does not end ({variant})", **data)
        if h.v:
            c.violation(f"{h.v[0]} ({variant})", **data)
        if h.rc:
            c.violation(f"monitor ended with status {h.rc} ({variant}): {tail(h.err, 400)}", **data)
        for k, n in h.stat.items():
            if k == "peak":
                with c.lock:
                    c.counts["max_concurrent_tasks"] = max(c.counts["max_concurrent_tasks"], n)
            else:
                c.count(k, n)
        c.count("programs_" + variant)
        for k in range(h.stat["tasks"] // 10 + h.stat["counter_waits"] + h.stat["events"] // 10 + h.stat["exceptions_kept"]):
            c.evaluated((i, k), True)
        if len(c.samples) < 4:
            c.samples.append({"variant": variant, **h.stat})

    # the same through maike2: no more recipes at a time than workers, and that many if there is work
    def whole(i):
        rng = c.rng("m", i)
        k = rng.choice([1, 2, 3, 5, 8])
        p = proj.Project()
        n = k * 2 + rng.randint(0, 5)
        for j in range(n):
            p.add(proj.Src(f"f{j}.x", proj.Tags([proj.Target(f"f{j}.o")])))
        p, mod, root = wl.make_case(c, m, rng, project=p)
        beh = {f"compile:f{j}.x": {"delay_us": 60000} for j in range(n)}
        r = m.run(root, [f"--num-workers={k}"], beh)
        r = wl.retry_hang(c, m, root, r.args, beh, r)
        wl.expect_ok(c, r, p, i)
        xs = [x for x in m.compiles(r) if x.src != "."]
        ev = sorted([(x.start, 1) for x in xs] + [(x.end, -1) for x in xs])
        peak = act = 0
        for _, d in ev:
            act += d
            peak = max(peak, act)
        if len(xs) != n:
            c.violation(f"{len(xs)} recipes are run for {n} tasks", args=r.args)
        if peak > k:
            c.violation(f"{peak} recipes run at the same time with --num-workers={k}", args=r.args, trace=[(x.src, x.start, x.end) for x in xs])
        c.count("builds_at_full_width", peak == k)
        c.evaluated(("m", i), True)
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(lambda i: whole(i) if i % 8 == 7 else case(i - i // 8), range(10**6), min_cases=16, jobs=5)


Check("C17", "random trees of tasks submitted to thread pools of 1 to 16 workers from up to 5 threads and from within tasks, under injected delays, on one processor, ASan/UBSan and TSan; every task, capture, result and exception is accounted for; counters and events are waited for with the "
      "state they stand for recorded. One evaluation is one counter or event wait, one kept exception, or ten tasks", quick_s=10).main(body)
