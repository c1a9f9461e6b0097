"""C04: failing recipes fail the build, stop dependents, and never hang it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl

SIGS = [1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 31]


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        p, mod, root = wl.make_case(c, m, rng, size=rng.choice([2, 5, 10, 20, 35]), features={"always": 0.02})
        tasks = mod.tasks()
        for step in range(2):
            scale = rng.choice([0, 3000, 15000])
            beh = wl.delays(rng, tasks, base=p.beh(), scale=scale)
            args = [f"--num-workers={rng.choice([1, 2, 3, 4, 8, 24])}"]
            if step:
                args.append("--force-rebuild")
            only = {n.path for n in tasks}
            if rng.random() < 0.3:
                ts = rng.sample(sorted(mod.owner), min(len(mod.owner), rng.choice([1, 1, 2, 3, 5])))
                args.append("--targets=" + wl.arg_list([wl.rel_target(mod, t) for t in ts]))
                only = set().union(*(mod.task_closure_of_target(t) for t in ts))
                c.count("several_targets" if len(ts) > 1 else "one_target")
            nfail = rng.choice([0, 1, 1, 1, 2, 2, 3, 6])
            failing = {}
            for n in rng.sample(tasks, min(len(tasks), nfail)):
                b = dict(beh.get("compile:" + n.path, {}))
                launchable = n.recipe is not None
                k = rng.random()
                if not launchable and k < 0.6:
                    os.chmod(os.path.join(root, n.path), 0o644)
                    failing[n.path] = "unlaunchable"
                    continue
                if k < 0.65:
                    b["exit"] = rng.choice([1, 2, 3, 64, 77, 100, 126, 127, 128, 129, 137, 139, 192, 254, 255, rng.randint(1, 255)])
                    failing[n.path] = b["exit"]
                else:
                    b["signal"] = rng.choice(SIGS)
                    failing[n.path] = -b["signal"]
                if rng.random() < 0.4:
                    b["partial"] = 1
                if rng.random() < 0.3:
                    b["err_n"] = rng.choice([10, 70000])
                    b["out_n"] = rng.choice([10, 70000])
                beh["compile:" + n.path] = b
            if rng.random() < 0.2:
                # output alone is no failure
                for n in rng.sample(tasks, min(3, len(tasks))):
                    if n.path not in failing:
                        beh.setdefault("compile:" + n.path, {})["stderr"] = "error: not really\n"
            env = wl.jitter(rng)
            r = m.run(root, args, beh, env=env)
            r = wl.retry_hang(c, m, root, args, beh, r, env=env)
            where = f"case {i} step {step} {args} failing {failing}"
            data = dict(args=args, files=wl.files(p), config=p.config(), failing=failing, beh=beh, err=tail(r.err), env=env)
            if r.hang:
                c.violation(f"build with failing recipes does not terminate ({where})", **data)
            ran = {x.src: x for x in m.compiles(r)}
            must_fail = {x for x in failing if x in only}
            if not must_fail:
                if r.rc != 0:
                    c.violation(f"no recipe fails, but exit status is {r.rc} ({where})", **data)
                miss = {n.path for n in tasks if n.path in only} - set(ran)
                if step == 0 and miss or step == 1 and miss:
                    c.violation(f"no recipe fails, exit status is 0, but {sorted(miss)[:3]} were not built ({where})", **data)
            else:
                if r.rc == 0:
                    c.violation(f"recipes fail, but exit status is 0 ({where})", **data)
                if r.rc < 0:
                    c.violation(f"maike was killed by signal {-r.rc} ({where})", **data)
                fail_ran = [x for x in failing if x in ran or failing[x] == "unlaunchable"]
                if not fail_ran:
                    c.violation(f"build fails without having run any failing recipe ({where})", **data)
                named = [x for x in fail_ran if x in r.err]
                if not named:
                    c.violation(f"error message names none of the failed files ({where})", **data)
                for src in ran:
                    bad = mod.prereq_tasks(src) & set(failing)
                    if bad:
                        c.violation(f"{src!r} was started although {sorted(bad)[0]!r}, which it depends on, fails ({where})", **data)
                    c.count("runs_checked_against_failures")
                c.count("blocked_dependents", sum(1 for n in tasks if n.path not in ran and mod.prereq_tasks(n.path) & set(failing)))
            late = [x for x in ran.values() if x.end is None]
            if late:
                c.violation(f"maike ended while the recipe of {late[0].src!r} was running ({where})", **data)
            for v in failing.values():
                c.count("unlaunchable" if v == "unlaunchable" else "killed_by_signal" if v < 0 else "nonzero_exit")
            c.evaluated((i, step), bool(must_fail), {"failing": failing, "args": args, "exit": r.rc, "ran": len(ran), "tasks": len(tasks)})
            for x, v in failing.items():
                if v == "unlaunchable":
                    os.chmod(os.path.join(root, x), 0o755)
        shutil.rmtree(root, ignore_errors=True)

    # resource exhaustion: too few descriptors may make the build fail, but not hang, crash or claim success wrongly
    def starved(i):
        rng = c.rng("fd", i)
        p, mod, root = wl.make_case(c, m, rng, size=rng.choice([8, 20]), features={"get_tags": 0})
        n = rng.randint(4, 60)
        args = [f"--num-workers={rng.choice([2, 8, 24])}"]
        r = m.run(root, args, wl.delays(rng, mod.tasks(), p.beh(), 3000), pre=["prlimit", f"--nofile={n}:{n}"])
        where = f"descriptor limit {n}, {args}, starved case {i}"
        data = dict(files=wl.files(p), config=p.config(), err=tail(r.err))
        if r.hang:
            r = m.run(root, args + ["--force-rebuild"], p.beh(), timeout=120, pre=["prlimit", f"--nofile={n}:{n}"])
            if r.hang:
                c.violation(f"build hangs with few descriptors ({where})", **data)
        if r.rc < 0:
            c.violation(f"maike was killed by signal {-r.rc} with few descriptors ({where})", **data)
        if r.rc == 0 and "# Completed" in r.err:
            miss = [t for t in mod.owner if not os.path.exists(os.path.join(root, t))]
            if miss:
                c.violation(f"exit status 0 but {miss[:3]} do not exist ({where})", **data)
        c.count("starved_ok" if r.rc == 0 else "starved_error")
        c.evaluated(("fd", i), r.rc != 0)
        shutil.rmtree(root, ignore_errors=True)

    def both(k):
        (starved if k % 12 == 11 else case)(k)
    c.run_cases(both, range(100000), min_cases=24)


Check("C04", "random projects with 0-6 failing recipes (exit status 1-255, fatal signals, un-launchable files, with and without output and partial targets), 1-24 workers, injected delays, partial builds, "
      "and runs with a low descriptor limit; one evaluation is one build; non-trivial: some recipe in scope fails", quick_s=12).main(body)
