"""C02: a build runs every task exactly once, leaves exactly the declared targets, and ends."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl

from proj import Project, Src, Tags, Target, Dep


def shaped(rng, kind, n):
    """big graphs of a regular shape, all .x files"""
    p = Project()
    names = []
    for k in range(n):
        if kind == "wide":
            deps = []
        elif kind == "star":
            deps = names[:1] if k < n - 1 else names[1:]
        elif kind == "chain":
            deps = names[-1:]
        elif kind == "two_chains":
            deps = names[-2:-1]
        elif kind == "layers":
            w = 8
            layer = k // w
            deps = names[(layer - 1) * w:layer * w] if layer else []
        else:
            deps = rng.sample(names, min(len(names), rng.randint(0, 4)))
        d = f"d{k % 7}" if kind in ("wide", "random") else ""
        path = f"{d}/n{k}.x" if d else f"n{k}.x"
        tg = [Target(f"n{k}.o")]
        if rng.random() < 0.1:
            tg.append(Target(f"n{k}.b.o"))
        p.add(Src(path, Tags(tg, [Dep(x) for x in deps])))
        names.append(f"{d}/n{k}.o" if d else f"n{k}.o")
    return p


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        if i % 4 == 0:
            kind = rng.choice(["wide", "star", "chain", "two_chains", "layers", "random"])
            n = rng.choice([1, 2, 30, 90, 250] if c.quick else [1, 2, 30, 90, 250, 800])
            if kind in ("chain", "two_chains"):
                n = min(n, 90)
            p, mod, root = wl.make_case(c, m, rng, project=shaped(rng, kind, n))
            scale = 0
        else:
            kind = "project"
            p, mod, root = wl.make_case(c, m, rng, size=rng.choice([0, 1, 3, 8, 20, 40]), features={"always": 0.1})
            scale = rng.choice([0, 0, 3000])
        tasks = mod.tasks()
        beh = wl.delays(rng, tasks, base=p.beh(), scale=scale)
        for step in range(2):
            args = [f"--num-workers={rng.choice([1, 1, 2, 3, 5, 8, 17, 64])}"] if rng.random() < 0.9 else []
            pre = ["taskset", "-c", str(rng.randint(0, os.cpu_count() - 1))] if rng.random() < 0.2 else []
            if step == 1:
                if rng.random() < 0.5:
                    break
                args.append("--force-rebuild")
            r = m.run(root, args, beh, timeout=90, pre=pre, env=wl.jitter(rng))
            r = wl.retry_hang(c, m, root, args + ["--force-rebuild"] if r.hang and "--force-rebuild" not in args else args, beh, r)
            where = f"case {i} {kind} {len(tasks)} tasks step {step} {args}"
            data = dict(args=args, files=wl.files(p) if len(p.files) < 60 else kind, config=p.config(), err=tail(r.err), out=tail(r.out))
            if r.hang:
                c.violation(f"build does not terminate ({where})", **data)
            if r.rc != 0:
                c.violation(f"build of a valid project fails with {r.rc} ({where})", **data)
            cnt = collections.Counter(x.src for x in m.compiles(r))
            for n in tasks:
                if cnt[n.path] == 0 and not (step == 0 and False):
                    c.violation(f"{n.path!r} was never built ({where})", **data)
                if cnt[n.path] > 1:
                    c.violation(f"{n.path!r} was built {cnt[n.path]} times in one build ({where})", **data)
            extra = set(cnt) - {n.path for n in tasks}
            if extra:
                c.violation(f"recipe run for {sorted(extra)[:3]} which have no targets ({where})", **data)
            bad = [x for x in m.compiles(r) if x.end is None]
            if bad:
                c.violation(f"maike ended before the recipe of {bad[0].src!r} did ({where})", **data)
            have = set()
            for d, ds, fs in os.walk(os.path.join(root, mod.td)):
                have |= {os.path.relpath(os.path.join(d, f), root) for f in ds + fs}
            want = set(mod.owner) - {mod.td}
            if have != want:
                c.violation(f"target directory differs from the declared targets: missing {sorted(want-have)[:3]}, unexpected {sorted(have-want)[:3]} ({where})", **data)
            if not r.completed or int(r.completed[1]) != len(tasks):
                c.violation(f"reports {r.completed and r.completed[1]} completed tasks instead of {len(tasks)} ({where})", **data)
            if not r.loaded or int(r.loaded[2]) != len(mod.owner):
                c.violation(f"reports {r.loaded and r.loaded[2]} targets instead of {len(mod.owner)} ({where})", **data)
            c.count("recipe_runs", sum(cnt.values()))
            c.counts["largest_build"] = max(c.counts["largest_build"], len(tasks))
            c.count("builds_" + kind)
            c.evaluated((i, step), len(tasks) > 2, {"kind": kind, "tasks": len(tasks), "args": args})
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(100000), min_cases=24)


Check("C02", "random projects and regular graph shapes (wide, star, chain, layers) from 1 to 250 tasks (800 in the thorough tier) built from scratch and forced, with 1 to 64 workers, "
      "sometimes pinned to one CPU; one evaluation is one full build whose recipe runs and target directory were compared with the model; non-trivial: more than 2 tasks", quick_s=12).main(body)
