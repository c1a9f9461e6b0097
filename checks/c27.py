"""C27: as many recipes as allowed and possible run at any time, never more."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl


def wide(rng):
    """a project whose graph has wide and narrow places"""
    p = proj.Project()
    layers, prev = [], []
    for k in range(rng.randint(1, 4)):
        names = []
        for j in range(rng.choice([1, 1, 2, 3, 6, 10])):
            deps = [proj.Dep(x) for x in (prev if rng.random() < 0.4 else rng.sample(prev, min(len(prev), rng.randint(0, 2))))]
            p.add(proj.Src(f"l{k}_{j}.x", proj.Tags([proj.Target(f"l{k}_{j}.o")], deps), style=rng.randint(0, 11)))
            names.append(f"l{k}_{j}.o")
        prev = names
        layers.append(names)
    return p


def body(c):
    m = Maike(c)

    def drive(i, rng, root, mod, todo, width, args, beh, env, limit):
        """-> (Result, None or (what, data)): the recipes are let go one at a time, in a random order, whenever the number of
        them that run is what it has to be"""
        gate = c.dir("gate")
        bad = []
        states = []

        def control(p, trace):
            pre = {n: mod.prereq_tasks(n) & todo for n in todo}
            opened = set()
            last = time.time()
            while True:
                started, ended, pids = {}, set(), {}
                try:
                    ev = read_trace(trace, torn=True)
                except OSError:
                    ev = []
                for x in runs_of(ev):
                    if x.action == "compile":
                        started[x.src] = x.pid
                        if x.end is not None:
                            ended.add(x.src)
                running = set(started) - ended
                if len(running) > width:
                    bad.append((f"{len(running)} recipes run at the same time with {width} workers", sorted(running)))
                    break
                if not todo - ended:
                    break
                ready = {n for n in todo if pre[n] <= ended}
                want = min(width, len(ready - ended))
                if len(running) >= want:
                    states.append((len(running), want, len(ready - ended)))
                    go = sorted(running - opened)
                    if go:
                        # one at a time mostly, sometimes several
                        for n in rng.sample(go, rng.choice([1, 1, 1, 2]) if len(go) > 1 else 1):
                            opened.add(n)
                            open(os.path.join(gate, str(started[n])), "w").close()
                        last = time.time()
                if p.poll() is not None:
                    break
                if time.time() - last > limit:
                    bad.append((f"{len(running)} recipes run with {width} workers although {len(ready - ended)} are unfinished whose dependencies are in place",
                                dict(running=sorted(running), waiting=sorted(ready - ended - running), ended=sorted(ended))))
                    break
                time.sleep(0.002)
            for n in started:
                open(os.path.join(gate, str(started[n])), "w").close()
            if bad:
                kill_group(p)
        b = dict(beh)
        b["compile:*"] = {"gate": gate}
        r = m.run(root, args, b, env=env, during=control, timeout=60)
        shutil.rmtree(gate, ignore_errors=True)
        return r, (bad[0] if bad else None), states

    def case(i):
        rng = c.rng(i)
        if rng.random() < 0.6:
            p, mod, root = wl.make_case(c, m, rng, project=wide(rng))
        else:
            p, mod, root = wl.make_case(c, m, rng, size=rng.choice([6, 12, 20]), features={"self": 0})
        beh = p.beh()
        for step in range(2):
            width = rng.choice([1, 2, 2, 3, 4, 5, 8, 16])
            args = [f"--num-workers={width}"]
            if rng.random() < 0.1:
                width, args = os.sysconf("SC_NPROCESSORS_ONLN"), rng.choice([[], ["--num-workers=auto"]])
            only = None
            if rng.random() < 0.3:
                t = rng.choice(sorted(mod.owner))
                args.append("--targets=" + wl.arg_list([wl.rel_target(mod, t)]))
                only = mod.task_closure_of_target(t)
            force = False
            if step:
                if rng.random() < 0.5:
                    args.append("--force-rebuild")
                    force = True
                else:
                    wl.disturb(rng, mod, root, 6)
            todo, _ = mod.simulate(root, force=force, only=only)
            env = wl.jitter(rng, rng.choice([0, 0, 1]))
            save = c.dir("save")
            shutil.copytree(root, save + "/t", symlinks=True)
            r, bad, states = drive(i, rng, root, mod, todo, width, args, beh, env, 15)
            if bad and "at the same time" not in bad[0]:
                # nothing may depend on how fast this machine is: once more, with more patience
                c.count("slow_runs_repeated")
                shutil.rmtree(root)
                shutil.copytree(save + "/t", root, symlinks=True)
                r, bad, states = drive(i, rng, root, mod, todo, width, args, beh, env, 60)
            shutil.rmtree(save, ignore_errors=True)
            if bad:
                c.violation(bad[0], found=bad[1], args=r.args, err=tail(r.err), config=p.config(), files=wl.files(p), force=force)
            wl.expect_ok(c, r, p, i)
            ran = {x.src for x in m.compiles(r)}
            if ran != todo:
                c.violation(f"recipes of {sorted(ran)} were run, not those of {sorted(todo)}", args=r.args, config=p.config(), files=wl.files(p))
            full = sum(1 for n, w, q in states if w == width)
            c.count("states_at_full_width", full)
            c.count("states_limited_by_dependencies", len(states) - full)
            c.count("states_with_recipes_waiting_for_a_worker", sum(1 for n, w, q in states if q > width))
            with c.lock:
                c.counts["max_concurrent_recipes"] = max([c.counts["max_concurrent_recipes"]] + [n for n, w, q in states])
            for k, s in enumerate(states):
                c.evaluated((i, step, s, k), s[1] > 1)
            if len(c.samples) < 4 and todo:
                c.samples.append({"args": args, "tasks": len(todo), "states (running, required, ready)": states[:12]})
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(10**6), min_cases=12)


Check("C27", "random projects with wide and narrow graphs, built with random worker counts (also auto), completely, partially, for one target; every recipe waits until the monitor lets it go, and the monitor lets "
      "one go only when as many run as there are workers or unfinished tasks with all dependencies in place; never may more run. One evaluation is one such state that was reached; non-trivial if it needs more than one recipe at a time", quick_s=10).main(body)
