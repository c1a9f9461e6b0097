"""C03: incremental builds rerun exactly what is out of date."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl

from proj import Src, Tags, Target, Dep


def older(root, ns):
    for d, ds, fs in os.walk(root):
        for f in fs:
            f = os.path.join(d, f)
            t = os.stat(f).st_mtime_ns - ns
            os.utime(f, ns=(t, t))


def edit(rng, p, mod, root, m):
    """one random change to the project on disk -> description"""
    tasks = [t for t in mod.tasks() if not t.is_dir]
    srcs = sorted(p.files)
    k = rng.random() if srcs else 0.8
    if k < 0.22:
        s = rng.choice(srcs)
        os.utime(os.path.join(root, s))
        return ("touch", s)
    if k < 0.34 and tasks:
        f = rng.choice(rng.choice(tasks).targets)[0]
        if os.path.isfile(os.path.join(root, f)):
            os.unlink(os.path.join(root, f))
            return ("delete", f)
    if k < 0.56 and tasks:
        # the time stamp of an input relative to that of a target that depends on it
        t = rng.choice(tasks)
        tf = rng.choice(t.targets)[0]
        ins = [t.path] + sorted(x for x in mod.closure(t.path) if mod.nodes[x].origin in (proj.PROJECT, proj.GENERATED))
        many = [u for u in tasks if len(u.targets) > 1]
        alone = many and rng.random() < 0.5
        if alone:
            # one of several targets, the other ones being newer
            t = rng.choice(many)
            tf = rng.choice(t.targets)[0]
            ins = [t.path] + sorted(x for x in mod.closure(t.path) if mod.nodes[x].origin in (proj.PROJECT, proj.GENERATED))
        x = rng.choice(ins)
        fx, ft = os.path.join(root, x), os.path.join(root, tf)
        if os.path.isfile(fx) and os.path.isfile(ft):
            dt = rng.choice([0, 0, 1, -1, 1, -1, 500, -500, 10**6, -10**6, -3600 * 10**9])
            ns = os.stat(ft).st_mtime_ns + dt
            if alone:
                # (targets must not be in the future)
                ns -= 5 * 10**9
                older(root, 5 * 10**9)
                os.utime(ft, ns=(ns - dt, ns - dt))
            for o, _ in t.targets if alone else ():
                if o not in (tf, x) and os.path.isfile(os.path.join(root, o)):
                    os.utime(os.path.join(root, o), ns=(ns + 10**9, ns + 10**9))
            os.utime(fx, ns=(ns, ns))
            return ("stamp", x, tf, dt)
    if k < 0.62:
        s = rng.choice(srcs)
        import time
        ns = time.time_ns() + rng.choice([1, 2, 3600]) * 10**9
        os.utime(os.path.join(root, s), ns=(ns, ns))
        return ("future", s)
    if k < 0.68 and tasks:
        f = os.path.join(root, rng.choice(rng.choice(tasks).targets)[0])
        if os.path.isfile(f):
            os.utime(f, ns=(10**18, 10**18))
            return ("old target", f)
    if k < 0.75 and p.dirs:
        d = os.path.join(root, mod.td, rng.choice(sorted(p.dirs)))
        shutil.rmtree(d, ignore_errors=True)
        return ("delete dir", d)
    if k < 0.85:
        n = f"new{rng.randint(0, 10**6)}"
        d = rng.choice([""] + sorted(p.dirs))
        gens = [posixpath.relpath(t, mod.td) for t in sorted(mod.owner) if not mod.owner[t][0].is_dir]
        deps = [Dep(g) for g in rng.sample(gens, min(len(gens), rng.randint(0, 3)))]
        s = p.add(Src(posixpath.join(d, n + ".x"), Tags([Target(n + ".o")], deps), style=rng.randint(0, 11)))
        import time
        p.write_file(root, s, m.recipe, time.time_ns())
        return ("add", s.path)
    if k < 0.95:
        # another source gets a dependency on an existing target
        xs = [s for s in p.files.values() if s.path.endswith(".x") and s.tags.targets]
        gens = [t for t in sorted(mod.owner) if not mod.owner[t][0].is_dir]
        if xs and gens:
            s, g = rng.choice(xs), rng.choice(gens)
            old = list(s.tags.deps)
            s.tags.deps.append(Dep(posixpath.relpath(g, mod.td)))
            if proj.Model(p, mod.sysrec).error:
                s.tags.deps = old
            else:
                import time
                # sometimes the edit keeps the old time stamp, which must go unnoticed for the file itself
                keep = os.stat(os.path.join(root, s.path)).st_mtime_ns
                p.write_file(root, s, m.recipe, keep if rng.random() < 0.3 else time.time_ns())
                return ("new dependency", s.path, g)
    if tasks:
        # remove a source that nothing refers to
        used = {e.name for n in mod.nodes.values() for e in n.use if n.path not in ()}
        free = [t for t in tasks if t.path not in used and not any(x in used for x, _ in t.targets) and t.src is not None]
        if free:
            t = rng.choice(free)
            rel = posixpath.relpath(t.path, mod.sd)
            del p.files[rel]
            os.unlink(os.path.join(root, rel))
            return ("remove", rel)
    return ("nothing",)


import posixpath


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        p, mod, root = wl.make_case(c, m, rng, size=rng.choice([3, 6, 10, 18, 30]), features={"always": rng.choice([0, 0, 0.06]), "project_recipe": 0.5})
        hist = []
        for step in range(rng.randint(4, 10)):
            if step:
                for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                    hist.append(edit(rng, p, mod, root, m))
                    mod = proj.Model(p, mod.sysrec)
                    if mod.error:
                        raise RuntimeError(str((mod.error, hist)))
            force = step > 0 and rng.random() < 0.06
            exp, dead = mod.simulate(root, force=force)
            args = [f"--num-workers={rng.choice([1, 2, 4, 8])}"] + (["--force-rebuild"] if force else [])
            beh = wl.delays(rng, mod.tasks(), p.beh(), scale=rng.choice([0, 0, 3000]))
            r = m.run(root, args, beh)
            hist.append(("build", args))
            if r.hang:
                c.violation(f"build hangs (case {i})", history=hist, files=wl.files(p), config=p.config(), err=tail(r.err))
            got = wl.run_sets(m, r)
            data = dict(history=hist, files=wl.files(p), config=p.config(), err=tail(r.err))
            if r.rc != 0:
                c.violation(f"incremental build fails with {r.rc} (case {i}, after {hist[-3:]})", **data)
            if sorted(exp) != got:
                miss, extra = sorted(exp - set(got)), sorted(set(got) - exp)
                dup = [x for x, k in collections.Counter(got).items() if k > 1]
                if miss:
                    c.violation(f"{miss[0]!r} is out of date but was not rebuilt (case {i}, after {hist[-4:]})", missing=miss, unexpected=extra, **data)
                if extra:
                    c.violation(f"{extra[0]!r} is up to date but was rebuilt (case {i}, after {hist[-4:]})", missing=miss, unexpected=extra, **data)
                c.violation(f"{dup[0]!r} was rebuilt twice (case {i})", **data)
            # the log must say so too
            c.evaluated((i, step), 0 < len(exp) < len(mod.tasks()), {"edits": hist[-4:], "rebuilt": got[:10], "of": len(mod.tasks())})
            c.count("rebuilt", len(got))
            c.count("kept", len(mod.tasks()) - len(got))
            if step and not exp:
                c.count("builds_that_ran_nothing")
            for h in hist[-4:]:
                if h[0] != "build":
                    c.count("edit_" + h[0].replace(" ", "_"))
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(100000), min_cases=20)


Check("C03", "random projects, each taken through 4-10 builds with random edits in between (touch, time stamps equal to or 1 ns around a dependent target's, deleted targets and target directories, "
      "future stamps, added/removed sources, added dependencies, touched recipes); one evaluation is one build whose set of recipe runs was compared with the model; non-trivial: some but not all tasks had to run", quick_s=14).main(body)
