"""C26: a build killed at any point is completed correctly by the next one."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl


def contents(root, mod):
    out = {}
    for t in mod.owner:
        p = os.path.join(root, t)
        if os.path.isdir(p):
            out[t] = "directory"
        elif os.path.exists(p):
            with open(p, "rb") as f:
                out[t] = f.read()
        else:
            out[t] = None
    return out


def body(c):
    m = Maike(c)
    states = set()

    def crash(rng, events):
        """kills maike and its recipes when a random number of events has been seen, a moment later"""
        at = rng.randint(0, events)
        extra = rng.choice([0, 0, 0.0002, 0.001, 0.004]) * rng.random()
        early = rng.random() < 0.1
        sig = rng.choice([signal.SIGKILL] * 4 + [signal.SIGTERM, signal.SIGINT, signal.SIGHUP])

        def during(p, trace):
            t = time.time()
            if early:
                time.sleep(rng.random() * 0.02)
            else:
                while p.poll() is None and time.time() - t < 20:
                    try:
                        with open(trace, "rb") as f:
                            lines = f.read().split(b"\n")[:-1]
                        n = len(lines) - 2 * sum(x[:1] == b"S" and b'"compile"' not in x[:400] for x in lines)   # (calls to configure are not counted)
                    except OSError:
                        n = 0
                    if n >= at:
                        break
                    time.sleep(0.0003)
                time.sleep(extra)
            try:
                os.killpg(p.pid, sig)
                if sig != signal.SIGKILL:
                    time.sleep(0.003)
                    os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        return during, {"at": at, "signal": int(sig), "early": early}

    def edit(rng, p, mod, root, k):
        what = []
        for f in rng.sample(sorted(p.files), min(len(p.files), rng.randint(1, 3))):
            s = p.files[f]
            ext = p.ext_of(f)
            if f in p.project_recipes or ext is None:
                continue
            if p.loaders[ext][1] in ("extension", "generic", "cxx_src_loader"):
                s.body = ("// " if p.loaders[ext][1] == "cxx_src_loader" else "# ") + f"version {k}\n"
            p.write_file(root, s, m.recipe, time.time_ns())
            what.append(f)
        return what

    def case(i):
        rng = c.rng(i)
        p, mod, root = wl.make_case(c, m, rng, size=rng.choice([3, 8, 16, 30]), features={"always": rng.choice([0, 0, 0.04])})
        tasks = mod.tasks()
        nodes = {n.path: n for n in tasks}
        base = p.beh()
        base["all"] = {"atomic": 1}
        hist = []
        partial = False

        def behaviour():
            beh = wl.delays(rng, tasks, base=base, scale=rng.choice([0, 1500, 5000]))
            for n in tasks:
                if rng.random() < 0.2:
                    beh.setdefault("compile:" + n.path, {})["mid_us"] = rng.randint(1, 2000)
            return beh
        if rng.random() < 0.4:
            r = m.run(root, ["--num-workers=4"], behaviour())
            wl.expect_ok(c, r, p, i)
            hist.append("complete")
        for k in range(rng.randint(1, 3)):
            for step in range(rng.choice([1, 1, 1, 2, 3])):
                if hist and rng.random() < 0.6:
                    hist.append(("edit", edit(rng, p, mod, root, f"{k}.{step}")))
                if hist and rng.random() < 0.2:
                    hist.append(wl.disturb(rng, mod, root))
                due, _ = mod.simulate(root)
                args = [f"--num-workers={rng.choice([1, 2, 4, 8])}"]
                force = rng.random() < 0.1
                if force:
                    args.append("--force-rebuild")
                    due = set(nodes)
                during, how = crash(rng, 2 * len(due) + 1)
                r = m.run(root, args, behaviour(), during=during, env=wl.jitter(rng, rng.choice([0, 0, 1])))
                killed = r.rc is not None and r.rc < 0
                runs = {x.src: x for x in m.compiles(r)}
                done = {s for s, x in runs.items() if x.end is not None and x.rc == 0}
                begun = set(runs) - done
                hist.append(("killed" if killed else "ended", how, {"finished": len(done), "begun": len(begun), "due": len(due)}))
                c.count("builds_killed" if killed else "builds_not_killed")
                c.count("killed_before_any_recipe", killed and not runs)
                c.count("tasks_cut_off", len(begun))
                c.count("tasks_finished_before_kill", len(done))
                c.count("tasks_not_begun", len(due - set(runs)))
                if killed:
                    with c.lock:
                        states.add((i, k, step, frozenset(done), frozenset(begun)))
                if set(runs) - due:
                    c.violation(f"a build that was killed had run {sorted(set(runs) - due)[:3]}, which was up to date (case {i})", files=wl.files(p), config=p.config(), history=hist, args=args)
                last = (due, done, begun, force)
            # what has to be done now
            due, done, begun, force = last
            must, _ = mod.simulate(root)
            data = dict(files=wl.files(p), config=p.config(), history=hist)
            always = {n.path for n in tasks if n.rebuild == "always"}
            r = m.run(root, [f"--num-workers={rng.choice([1, 2, 4, 8])}"], behaviour(), env=wl.jitter(rng, rng.choice([0, 0, 1])))
            r = wl.retry_hang(c, m, root, r.args, base, r)
            data["err"] = tail(r.err)
            if r.hang or r.rc:
                c.violation(f"the build after one that was killed ends with {r.rc}{' (it hangs)' if r.hang else ''} (case {i})", **data)
            ran = wl.run_sets(m, r)
            if len(set(ran)) != len(ran):
                c.violation(f"the build after one that was killed runs a task twice (case {i})", **data)
            ran = set(ran)
            # from the events alone
            for s in due - done - begun:
                if s not in ran and not force:
                    c.violation(f"{s!r} was due but not run when the build was killed, and is not run by the next one (case {i})", **data)
            for s in done:
                pre = mod.prereq_tasks(s)
                if s in ran and s not in always and not (pre & ran):
                    c.violation(f"{s!r} was finished when the build was killed, but is run again although nothing it depends on was (case {i})", **data)
                if s not in ran and s in must and pre & ran:
                    c.violation(f"{s!r} is not run although {sorted(pre & ran)[0]!r}, which it depends on, is (case {i})", **data)
            # from the time stamps
            if ran != must:
                c.violation(f"the build after one that was killed runs {sorted(ran - must)[:3]} needlessly and leaves out {sorted(must - ran)[:3]} (case {i})", **data)
            wl.check_order(c, m, mod, r, f"case {i} after kill {k}", None)
            # the targets are those of an undisturbed build
            ref = c.dir("ref")
            p.write(ref, m.recipe)
            r2 = m.run(ref, ["--num-workers=4"], base)
            if r2.rc:
                c.violation(f"the undisturbed build ends with {r2.rc} (case {i})", **data)
            a, b = contents(root, mod), contents(ref, mod)
            for t in a:
                c.count("targets_compared")
                if a[t] != b[t]:
                    c.violation(f"after a killed build and another one, {t!r} has content {a[t]!r}, but {b[t]!r} after an undisturbed build (case {i})", **data)
            shutil.rmtree(ref, ignore_errors=True)
            # and nothing is left to do
            r3 = m.run(root, ["--num-workers=4"], base)
            rest = {s for s in wl.run_sets(m, r3) if s not in always and not mod.prereq_tasks(s) & always}
            if r3.rc or rest:
                c.violation(f"the second build after one that was killed ends with {r3.rc} and runs {sorted(rest)[:3]} (case {i})", **data)
            c.evaluated((i, k, tuple(sorted(done)), tuple(sorted(begun))), bool(due) and (bool(done) or bool(begun)), hist[-1] if len(hist) < 6 else None)
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(10**6), min_cases=20)
    c.extra["distinct_states_at_kill"] = len(states)


Check("C26", "random projects with recipes that replace their targets atomically (content: a digest of all inputs); builds from scratch and incremental ones are killed (SIGKILL, SIGTERM, SIGINT or SIGHUP to the process group) at random numbers of recipe events, or while loading, up to three times in a row, with edits in between; "
      "the next build is compared with the events of the killed one, a model of the time stamps, and an undisturbed build in another directory; one evaluation is one completed history; non-trivial: something was running or finished at the kill", quick_s=12).main(body)
