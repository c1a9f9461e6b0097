"""C13: a dry run changes nothing and prints the commands a real build would run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl, jsongen
import posixpath

HOSTILE = ["f", "g h", "q'q", "''", "a\"b", "$HOME", "`id`", "b\\s", "é", "x;y", "&z", "*", "(p)", "~t", "!h", "#c", "%s%n", "-n", "a|b", "<in>", "tab\tt", "{a,b}", "\\'", "end\\"]
CMD = re.compile(r"^(?P<cmd>.*) # (?P<id>\d+) \| (?P<st>✓|✗) \| (?P<path>.*) \| (?P<a>\d+|-) \| (?P<b>\d+|- ?)$")


def cmd_lines(out):
    res = []
    for line in out.split("\n"):
        if line.startswith("#"):
            continue
        m = CMD.match(line)
        if m:
            res.append((m["cmd"], m["path"], m["st"] == "✓", m["a"] == "-"))
    return res


def hostile(rng, p):
    for ext in list(p.loaders):
        if ext in (".x", ".app", ".rule", ".g") and rng.random() < 0.7:
            v = list(p.loaders[ext])
            v[3] = jsongen.obj(rng)
            if rng.random() < 0.15:
                # (an argument may have 128 KiB)
                n = rng.choice([1500, 4000, 9000, 20000, 45000, 60000])
                v[3]["long"] = rng.choice([jsongen.text(rng, n // 2), "x'" * (n // 2), ["flag%d" % k for k in range(n // 8)]])
            p.loaders[ext] = tuple(v)
    for s in p.files.values():
        if s.tags.compiler is not None:
            s.tags.compiler["config"] = jsongen.compatible(rng, p.loaders[p.ext_of(s.path)][3])
        for d in s.tags.deps + s.tags.extra + [d for t in s.tags.targets for d in t.deps]:
            if rng.random() < 0.4:
                d.props[rng.choice(["rel", "note", "it's"])] = jsongen.text(rng)


def replay(c, m, root, lines, per_line):
    """feeds the printed lines to sh; returns the recorded recipe runs"""
    aux = c.dir("aux")
    trace = os.path.join(aux, "trace")
    e = dict(os.environ, LC_ALL="C.UTF-8", VP_TRACE=trace, HOME="/nonexistent-home")
    out = []
    chunks = [[x] for x in lines] if per_line else [lines]
    for ch in chunks:
        with open(aux + "/script", "w") as f:
            f.write("\n".join(ch) + "\n")
        subprocess.run(["sh", aux + "/script"], cwd=root, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    out = runs_of(read_trace(trace))
    shutil.rmtree(aux, ignore_errors=True)
    return out


def script(c, root, text):
    """runs all that a dry run printed"""
    aux = c.dir("aux")
    trace = os.path.join(aux, "trace")
    with open(aux + "/script", "w", errors="surrogateescape") as f:
        f.write(text)
    e = dict(os.environ, LC_ALL="C.UTF-8", VP_TRACE=trace, HOME="/nonexistent-home")
    subprocess.run(["sh", aux + "/script"], cwd=root, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    runs = runs_of(read_trace(trace))
    shutil.rmtree(aux, ignore_errors=True)
    return runs


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        names = rng.sample(HOSTILE, 6)
        p = proj.random_project(rng, rng.choice([2, 5, 9, 15]), {"names": names, "override": 0.2, "always": rng.choice([0, 0.1])})
        hostile(rng, p)
        p, mod, root = wl.make_case(c, m, rng, project=p)
        fixed = ["--build-id=%064x" % rng.getrandbits(256), f"--start-time={rng.randint(1, 2**31)}", "--log-level=compilation_command"]
        data = dict(files=wl.files(p), config=p.config())
        ntask = {n.path for n in mod.tasks()}
        prebuilt = rng.random() < 0.4
        if prebuilt:
            r0 = m.run(root, [], p.beh())
            if r0.rc:
                c.violation(f"build fails with {r0.rc} (case {i})", err=tail(r0.err), **data)
            wl.disturb(rng, mod, root)
        only = None
        sel = []
        if rng.random() < 0.2:
            t = rng.choice(sorted(mod.owner))
            only = mod.task_closure_of_target(t)
            sel = ["--targets=" + wl.arg_list([posixpath.relpath(t, mod.td)])]
        force = ["--force-rebuild"] if rng.random() < 0.15 else []
        # 1. the dry run
        before = wl.snapshot(root)
        beh = p.beh()
        args = [f"--num-workers={rng.choice([1, 4])}", "--dry-run", *fixed, *sel, *force]
        rng.shuffle(args)
        r = m.run(root, args, beh)
        if r.hang or r.rc != 0:
            c.violation(f"dry run fails with {r.rc} (case {i})", err=tail(r.err), args=args, **data)
        if m.compiles(r):
            c.violation(f"a dry run ran the compile recipe of {m.compiles(r)[0].src!r} (case {i})", args=args, **data)
        after = wl.snapshot(root)
        if before != after:
            k = [f for f in set(before) | set(after) if before.get(f) != after.get(f)]
            c.violation(f"a dry run created, changed or removed {sorted(k)[0]!r} (case {i})", args=args, **data)
        dry = cmd_lines(r.out)
        if not prebuilt or force:
            exp = ntask if only is None else only
            got = [x[1] for x in dry if not x[3]]
            if sorted(exp) != sorted(nrm_root(mod, g) for g in got):
                c.violation(f"dry run prints commands for other tasks than a full build has (case {i}): missing {sorted(exp - set(got))[:3]}, extra {sorted(set(got) - exp)[:3]}", args=args, out=tail(r.out, 4000), **data)
        c.count("dry_commands", len(dry))
        # 1b. what a dry run with one worker prints on an unbuilt tree is a script that does the build
        if not prebuilt and rng.random() < 0.5:
            bargs = ["--num-workers=1", "--dry-run", *fixed, *sel]
            rng.shuffle(bargs)
            r = m.run(root, bargs, beh)
            if r.hang or r.rc != 0:
                c.violation(f"dry run fails with {r.rc} (case {i})", err=tail(r.err), args=bargs, **data)
            runs = script(c, root, r.out)
            exp = ntask if only is None else only
            done = {x.src: k for k, x in enumerate(runs)}
            if set(done) != set(exp) or len(runs) != len(exp):
                c.violation(f"the output of a dry run with one worker, run by sh, runs {len(runs)} of {len(exp)} recipes (case {i}): missing {sorted(set(exp) - set(done))[:3]}", args=bargs, out=tail(r.out, 5000), **data)
            for x in runs:
                for q in mod.prereq_tasks(x.src):
                    c.count("script_order_checked")
                    if q in done and done[q] > done[x.src]:
                        c.violation(f"the output of a dry run with one worker, run by sh, runs the recipe of {x.src!r} before that of {q!r}, which it depends on (case {i})", args=bargs, out=tail(r.out, 5000), **data)
            miss = [t for t, o in mod.owner.items() if o[0].path in exp and not os.path.exists(os.path.join(root, t))]
            if miss:
                c.violation(f"the output of a dry run with one worker, run by sh, does not make {sorted(miss)[0]!r} (case {i})", args=bargs, out=tail(r.out, 5000), **data)
            c.evaluated(("script", i), True)
            c.count("dry_runs_as_scripts")
            shutil.rmtree(os.path.join(root, mod.td))
        # 2. the real build
        want = {}
        r = m.run(root, [f"--num-workers={rng.choice([1, 2, 8])}", *fixed, *sel, *force], beh)
        if r.hang or r.rc != 0:
            c.violation(f"build fails with {r.rc} (case {i})", err=tail(r.err), **data)
        for x in m.compiles(r):
            want[x.src] = x.argv
        real = cmd_lines(r.out)
        for what, lines in (("dry run", dry), ("build", real)):
            shown = [l for l in lines if not l[3]]
            if what == "build":
                a, b = sorted(nrm_root(mod, l[1]) for l in shown), sorted(want)
                if a != b:
                    c.violation(f"commands shown by the build are not those that were run (case {i}): shown {a[:5]}, run {b[:5]}", out=tail(r.out, 3000), **data)
            runs = replay(c, m, root, [l[0] for l in lines], rng.random() < 0.3)
            if len(runs) != len(lines):
                c.violation(f"{len(lines)} command lines printed by a {what} start {len(runs)} recipes when run by sh (case {i})", lines=lines, ran=[x.argv for x in runs], **data)
            for l, x in zip(lines, runs):
                w = want.get(nrm_root(mod, l[1]))
                if w is None:
                    continue
                if x.argv[-2:] != w[-2:] or os.path.realpath(os.path.join(root, x.argv[0])) != os.path.realpath(os.path.join(root, w[0])):
                    c.violation(f"the command line printed by a {what} for {l[1]!r} does not start the same command when run by sh (case {i})", printed=l[0], shell=x.argv, build=w, **data)
                c.evaluated((l[0],), "'" in l[0][1:-1], l[0] if len(l[0]) < 700 else None)
                c.count("replayed_" + what.replace(" ", "_"))
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(100000), min_cases=20)


def nrm_root(mod, p):
    return p


Check("C13", "random projects whose file names, configurations and tags are full of shell metacharacters; tree snapshots around dry runs, and every printed command line fed to sh and compared with the argv the build really used; "
      "one evaluation is one replayed command line", quick_s=11).main(body)
