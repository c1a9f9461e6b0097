"""C05: failed work is never taken as done by a later build."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        p, mod, root = wl.make_case(c, m, rng, size=rng.choice([2, 4, 8, 16, 28]), features={"always": rng.choice([0, 0, 0.05])})
        tasks = mod.tasks()
        files = [n for n in tasks if not n.is_dir]
        dirty, hist = set(), []
        for step in range(rng.randint(3, 8)):
            beh = wl.delays(rng, tasks, base=p.beh(), scale=rng.choice([0, 0, 4000]))
            if step and rng.random() < 0.4:
                hist.append(wl.disturb(rng, mod, root))
            failing = {}
            if rng.random() < 0.65 and files:
                # prefer to fail something that is to be run anyway
                pool = files if rng.random() < 0.5 else [n for n in files if n.path in mod.simulate(root, dirty=dirty)[0]] or files
                for n in rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 4]))):
                    b = dict(beh.get("compile:" + n.path, {}))
                    if rng.random() < 0.7:
                        b["exit"] = rng.randint(1, 255)
                    else:
                        b["signal"] = rng.choice([9, 11, 15, 6])
                    if rng.random() < 0.7:
                        b["partial"] = 1
                    failing[n.path] = {k: b[k] for k in ("exit", "signal", "partial") if k in b}
                    beh["compile:" + n.path] = b
            args = [f"--num-workers={rng.choice([1, 2, 4, 8])}"]
            force = rng.random() < 0.15
            if force:
                args.append("--force-rebuild")
            only = None
            if rng.random() < 0.2:
                t = rng.choice(sorted(mod.owner))
                args.append("--targets=" + wl.arg_list([wl.rel_target(mod, t)]))
                only = mod.task_closure_of_target(t)
            allowed, dead = mod.simulate(root, force=force, only=only, failing=failing, dirty=dirty)
            env = wl.jitter(rng, rng.choice([0, 0, 1]))
            r = m.run(root, args, beh, env=env)
            hist.append(("build", args, failing, r.rc))
            where = f"case {i} step {step} {args} failing {failing}"
            data = dict(history=hist, files=wl.files(p), config=p.config(), err=tail(r.err), dirty=sorted(dirty))
            if r.hang:
                c.violation(f"build hangs ({where})", **data)
            ran = {x.src: x for x in m.compiles(r)}
            extra = set(ran) - allowed
            if extra:
                c.violation(f"{sorted(extra)[0]!r} was run although it is up to date or depends on a failed one ({where})", **data)
            hit = allowed & set(failing)
            if r.rc == 0:
                miss = allowed - set(ran)
                old = sorted(miss & dirty)
                if old:
                    c.violation(f"{old[0]!r} failed in an earlier build and was not run again, but the build succeeds ({where})", **data)
                if miss:
                    c.violation(f"{sorted(miss)[0]!r} is out of date but was not run, and the build succeeds ({where})", **data)
                if hit:
                    c.violation(f"{sorted(hit)[0]!r} fails but the build succeeds ({where})", **data)
            elif not hit:
                c.violation(f"nothing fails, but the exit status is {r.rc} ({where})", **data)
            retried = dirty & set(ran)
            c.count("retried_after_failure", len(retried))
            for s, x in ran.items():
                if s in failing:
                    dirty.add(s)
                    c.count("failed_runs")
                    if "partial" in failing[s]:
                        c.count("failed_runs_with_output")
                else:
                    dirty.discard(s)
            c.evaluated((i, step), bool(retried or hit), {"history": hist[-2:], "retried": sorted(retried)[:5]})
            if r.rc == 0 and only is None and not dirty:
                c.count("complete_builds")
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(100000), min_cases=24)


Check("C05", "random projects, each taken through 3-8 builds in which random recipes fail (with and without having written their targets, also in forced and partial builds), with edits in between; "
      "one evaluation is one build whose recipe runs were compared with the model, which remembers failed tasks; non-trivial: a recipe failed or a failed task was retried", quick_s=12).main(body)
