"""C19: loading and building are free of data races and deadlocks."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl, hostile


def body(c):
    ms = {"tsan": Maike(c, "tsan", True), "asan": Maike(c, "asan", True)}

    def case(i):
        rng = c.rng(i)
        v = "asan" if i % 4 == 3 else "tsan"
        m = ms[v]
        p, mod, root = wl.make_case(c, m, rng, size=rng.choice([1, 3, 10, 20, 40]))
        broken = rng.random() < 0.12
        if broken:
            # errors while loading: the other threads have to be stopped properly
            f = rng.choice(sorted(p.files))
            with open(os.path.join(root, f), "rb") as fh:
                b = fh.read()
            q = rng.random()
            if q < 0.5:
                b = hostile.bytes_mutate(rng, b)
            else:
                b = rng.choice([b'//@{"target":{"name":"x"},"dependencies":[{"ref":"nothere"}]}\n', b"//@{\n#@{\n{", b'#@{"targets":[{"name":"y"},{"name":"y"}]}\n']) + b
            with open(os.path.join(root, f), "wb") as fh:
                fh.write(b)
        tasks = mod.tasks()
        for step in range(rng.randint(1, 3)):
            if step:
                wl.disturb(rng, mod, root, rng.randint(1, 10))
            beh = wl.delays(rng, tasks, p.beh(), scale=rng.choice([0, 0, 2000, 10000]))
            fails = 0
            if rng.random() < 0.3:
                for n in rng.sample(tasks, min(len(tasks), rng.choice([1, 1, 2, 5]))):
                    beh.setdefault("compile:" + n.path, {}).update(rng.choice([{"exit": 3}, {"signal": 9}, {"exit": 1, "partial": 1}]))
                    fails += 1
            if rng.random() < 0.08:
                beh[rng.choice(["configure:*", "get_tags:*"])] = rng.choice([{"exit": 1}, {"stdout": "{"}, {"stdout": "[]"}, {"signal": 11}])
            if rng.random() < 0.3:
                for n in rng.sample(tasks, min(len(tasks), 6)):
                    beh.setdefault("compile:" + n.path, {}).update({"out_n": rng.choice([10, 5000, 70000]), "err_n": rng.choice([0, 10, 70000])})
            args = [f"--num-workers={rng.choice([1, 2, 2, 3, 4, 8, 16, 40])}"]
            k = rng.random()
            if k < 0.1:
                args.append(rng.choice(["--dry-run", "--list-targets", "--print-dep-graph"]))
            elif k < 0.3:
                ts = rng.sample(sorted(mod.owner), min(len(mod.owner), rng.choice([1, 2, 4])))
                args.append("--targets=" + wl.arg_list([wl.rel_target(mod, t) for t in ts] + (["nothere"] if rng.random() < 0.1 else [])))
            elif k < 0.5:
                args.append("--force-rebuild")
            if rng.random() < 0.3:
                args.append("--log-level=compilation_command")
            pm, mx = rng.choice([(0, 0), (30, 100), (150, 50), (300, 300), (700, 0), (900, 20)])
            env = {"VP_JITTER": f"{rng.randint(1, 10**6)}:{pm}:{mx}:1"}
            pre = ["taskset", "-c", ",".join(map(str, rng.sample(sorted(os.sched_getaffinity(0)), rng.choice([1, 2]))))] if rng.random() < 0.2 and len(os.sched_getaffinity(0)) > 1 else []
            r = m.run(root, args, beh, env=env, pre=pre)
            if r.hang:
                c.count("slow_runs_repeated")
                r = m.run(root, args, beh, env=env, pre=pre, timeout=300)
            where = f"{v} case {i} step {step} {args}"
            data = dict(args=args, files=wl.files(p), config=p.config(), beh=beh, err=tail(r.err, 12000), env=env, pre=pre, variant=v)
            if "ThreadSanitizer: failed to" in r.err or "ERROR: ThreadSanitizer failed" in r.err or "unexpected memory mapping" in r.err or "AddressSanitizer failed to allocate" in r.err:
                raise Skip()
            if "LeakSanitizer has encountered a fatal error" in r.err:
                c.count("runs_without_leak_detection")
            elif re.search(r"WARNING: ThreadSanitizer|ERROR: AddressSanitizer|runtime error:|LeakSanitizer: detected", r.err) or r.rc in (66, 77, 78):
                s = re.findall(r"SUMMARY: .*|.*runtime error:.*", r.err)
                c.violation(f"data race, destroyed object in use, or inconsistent locking: {s[0] if s else r.rc} ({where})", **data)
            if r.hang:
                c.violation(f"maike does not end ({where})", **data)
            if r.rc < 0:
                c.violation(f"maike is killed by signal {-r.rc} ({where})", **data)
            c.count("runs_" + v)
            c.count("recipe_runs", len(r.runs))
            c.count("runs_with_status_0", r.rc == 0)
            cs = sorted(m.compiles(r), key=lambda x: x.start)
            peak, act = 0, []
            for x in cs:
                act = [e for e in act if e > x.start] + [x.end or (1 << 62)]
                peak = max(peak, len(act))
            with c.lock:
                c.counts["max_concurrent_recipes"] = max(c.counts["max_concurrent_recipes"], peak)
            # an interleaving is told apart by the order in which recipes start and end
            order = tuple(x for _, x in sorted([(x.start, ("s", x.src)) for x in cs] + [(x.end or 0, ("e", x.src)) for x in cs]))
            c.evaluated((i, step, order) if len(cs) > 1 else (i, step), True, sample={"args": args, "recipes": len(cs), "peak": peak} if rng.random() < 0.02 else None)
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(10**6), min_cases=24, jobs=6)


Check("C19", "random projects, some with errors in their files, failing recipes and recipes with much output, built with 1 to 40 workers by maike2 under TSan (3 of 4) and ASan with use-after-return detection, with random delays at locks, forks, reads and directory entries; every report and every hang counts. "
      "One evaluation is one run; distinct by the order in which its recipes start and end", quick_s=11).main(body)
