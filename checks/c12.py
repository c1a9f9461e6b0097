"""C12: asking for targets builds those and all they need, and nothing else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl
import posixpath


def spell(rng, mod, t):
    """some way to write the name of a target on the command line (relative to the target directory)"""
    rel = posixpath.relpath(t, mod.td)
    k = rng.random()
    if k < 0.6 or rel == ".":
        return rel
    if k < 0.8:
        return "./" + rel
    if "/" in rel:
        a, b = rel.split("/", 1)
        return f"{a}/./{b}"
    return rel


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        p, mod, root = wl.make_case(c, m, rng, size=rng.choice([4, 8, 15, 30]), features={"always": rng.choice([0, 0, 0.05]), "names": ["f", "g h", "x.y", "é", "a-b", "q'q", "c,d", "b\\s"]})
        all_targets = sorted(mod.owner)
        hist = []
        for step in range(rng.randint(2, 6)):
            if step:
                if rng.random() < 0.7:
                    hist.append(wl.disturb(rng, mod, root))
            want = rng.sample(all_targets, min(len(all_targets), rng.choice([1, 1, 1, 2, 3, 4])))
            if rng.random() < 0.1:
                want.append(rng.choice(want))
            bad = rng.random() < 0.1
            force = rng.random() < 0.08
            names = [spell(rng, mod, t) for t in want]
            if bad:
                names.insert(rng.randint(0, len(names)), rng.choice(["nothere", "f0", want[0] + "x", "d0/nothere", "f.x", p_src(rng, p)]))
                names = [n for n in names if norm_in(mod, n) not in mod.owner or n in [spell_plain(mod, t) for t in want]] or ["nothere"]
                bad = any(norm_in(mod, n) not in mod.owner for n in names)
            args = [f"--num-workers={rng.choice([1, 2, 4, 8])}", "--targets=" + wl.arg_list(names)] + (["--force-rebuild"] if force else [])
            rng.shuffle(args)
            only = set()
            for t in want:
                only |= mod.task_closure_of_target(t)
            exp, _ = mod.simulate(root, force=force, only=only)
            before = wl.snapshot(os.path.join(root, mod.td)) if os.path.isdir(os.path.join(root, mod.td)) else {}
            beh = wl.delays(rng, mod.tasks(), p.beh(), scale=rng.choice([0, 3000]))
            r = m.run(root, args, beh, env=wl.jitter(rng, rng.choice([0, 0, 1])))
            hist.append(args)
            data = dict(history=hist, files=wl.files(p), config=p.config(), err=tail(r.err))
            if r.hang:
                c.violation(f"build of {names} hangs (case {i})", **data)
            got = wl.run_sets(m, r)
            if bad:
                c.count("unknown_target_requests")
                if r.rc == 0:
                    c.violation(f"an unknown target among {names} is not an error (case {i})", **data)
                if r.rc < 0 or not r.err.strip():
                    c.violation(f"an unknown target among {names} is not reported properly: status {r.rc} (case {i})", **data)
                extra = set(got) - only
                if extra:
                    c.violation(f"{sorted(extra)[0]!r} was built for {names} (case {i})", **data)
                c.evaluated((i, step))
                continue
            if r.rc != 0:
                c.violation(f"build of {names} fails with status {r.rc} (case {i})", **data)
            miss, extra = exp - set(got), set(got) - exp
            if miss:
                c.violation(f"{sorted(miss)[0]!r} is needed for {names} and out of date, but was not run (case {i})", missing=sorted(miss), **data)
            if extra:
                c.violation(f"{sorted(extra)[0]!r} was run for {names}, which do not need it or have it up to date (case {i})", extra=sorted(extra), **data)
            always = any(mod.nodes[x].rebuild for x in mod.nodes)
            if not force and not always and len(got) != len(set(got)):
                c.violation(f"a task was run more than once for {names} (case {i})", ran=got, **data)
            wl.check_order(c, m, mod, r, f"case {i} step {step}") if not (force or always) else None
            # the targets are there, everything else is untouched
            for t in want:
                if not os.path.exists(os.path.join(root, t)):
                    c.violation(f"{t!r} was asked for but does not exist afterwards (case {i})", **data)
            after = wl.snapshot(os.path.join(root, mod.td))
            mine = {posixpath.relpath(t, mod.td) for s in only for t, _ in mod.nodes[s].targets}
            for f in set(before) | set(after):
                if f not in mine and before.get(f) != after.get(f):
                    c.violation(f"{f!r} below the target directory was changed by building {names} (case {i})", **data)
            c.evaluated((i, step), 0 < len(exp) < len(mod.tasks()), {"asked": names, "ran": got[:10], "of": len(mod.tasks())})
            c.count("tasks_run", len(got))
            c.count("tasks_left_out", len(mod.tasks()) - len(only))
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(100000), min_cases=20)


def p_src(rng, p):
    return rng.choice(sorted(p.files))


def norm_in(mod, n):
    return posixpath.normpath(posixpath.join(mod.td, n))


def spell_plain(mod, t):
    return posixpath.relpath(t, mod.td)


Check("C12", "random projects (file names with commas, backslashes, quotes and spaces), 2-6 builds each of 1-4 random targets, some unknown ones, with random changes in between; one evaluation is one build whose set of recipe runs "
      "and changes below the target directory were compared with the model; non-trivial: some but not all tasks had to run", quick_s=11).main(body)
