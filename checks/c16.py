"""C16: targets go below the target directory, mirroring the source tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl
import posixpath


def spell(rng, p, absolute):
    """different ways to write the (relative or absolute, normal) directory name p"""
    k = rng.random()
    if p == ".":
        return rng.choice([".", "./", "./.", "nix/.."])
    if k < 0.35:
        return p
    if k < 0.5:
        return p + rng.choice(["/", "//", "/."])
    if k < 0.65 and not absolute:
        return "./" + p
    if k < 0.8:
        d, b = posixpath.split(p)
        return posixpath.join(d, "nix", "..", b)
    d, b = posixpath.split(p)
    return posixpath.join(d, ".", b) if d else "./" + b + "/"


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        top = c.dir("p")
        cwd = os.path.join(top, rng.choice(["w", "w/k", "w k"]))
        os.makedirs(os.path.join(top, "other", "deep"))
        os.makedirs(cwd)
        up = "/".join([".."] * len(os.path.relpath(cwd, top).split("/")))
        place = rng.choice([".", "src", "src", "a/b", up + "/other/proj", os.path.join(top, "absproj"), os.path.join(cwd, "src"), up + "/project", "s r c", "src.d"])
        absolute = place.startswith("/")
        sdir = spell(rng, place, absolute)
        p = proj.random_project(rng, rng.choice([3, 6, 12]), {"names": ["f", "g h", "x.y", "é"]})
        nix = os.path.join(cwd, sdir)
        os.makedirs(os.path.join(cwd, place), exist_ok=True)
        explicit = rng.random() < 0.8
        base = posixpath.basename(posixpath.normpath(place))
        default = "__targets" if place == "." else base + "_targets"
        tplace, tdir = default, None
        if explicit:
            tplace = rng.choice(["__out", "__out", up + "/other/out", os.path.join(top, "out"), os.path.join(cwd, "__o"), up + "/o", posixpath.join(place, "__in") if place != "." else "__in", "__ o u t"])
            tdir = spell(rng, tplace, tplace.startswith("/"))
        # the redundant components have to exist for the file system, too
        for s in (sdir, tdir):
            if s and "nix" in s:
                os.makedirs(os.path.join(cwd, s.split("nix")[0] + "nix"), exist_ok=True)
        p.input_filter = p.input_filter + ["^nix$"]
        p.write(os.path.join(cwd, place), m.recipe)
        args = [f"--num-workers={rng.choice([1, 4])}"]
        if place != "." or rng.random() < 0.5:
            args.append("--source-dir=" + sdir)
        if tdir is not None:
            args.append("--target-dir=" + tdir)
        rng.shuffle(args)
        mod = proj.Model(p, m.prefix + "/lib/maike2/recipes", place, tplace)
        if mod.error:
            shutil.rmtree(top)
            raise Skip()
        beh = p.beh(source_dir=posixpath.normpath(place))
        data = dict(args=args, cwd=os.path.relpath(cwd, top), files=wl.files(p), config=p.config())
        before = wl.snapshot(top)
        r = m.run(cwd, args, beh)
        if r.hang or r.rc != 0:
            c.violation(f"build with {args} fails with status {r.rc} (case {i})", err=tail(r.err), **data)
        after = wl.snapshot(top)
        want = {os.path.relpath(os.path.join(cwd, t), top) for t in mod.owner} | {os.path.relpath(os.path.join(cwd, mod.td), top)}
        new = set(after) - set(before)
        if new - want:
            c.violation(f"build with {args} creates {sorted(new - want)[0]!r} (case {i})", **data)
        if want - set(after):
            c.violation(f"build with {args} does not create {sorted(want - set(after))[0]!r} (case {i})", err=tail(r.err), **data)
        ch = [f for f in before if after.get(f) != before[f]]
        if ch:
            c.violation(f"build with {args} changes {ch[0]!r} (case {i})", **data)
        # what the recipes were told
        tdn = os.path.normpath(os.path.join(cwd, mod.td))
        for x in m.compiles(r):
            n = mod.nodes.get(posixpath.normpath(x.src))
            if n is None:
                c.violation(f"recipe called for {x.src!r}, which is not a source (case {i})", **data)
            exp = sorted(os.path.normpath(os.path.join(cwd, t)) for t, _ in n.targets)
            got = sorted(os.path.normpath(os.path.join(cwd, t)) for t in x.arg["targets"])
            if exp != got or any(not (g + "/").startswith(tdn + "/") for g in got):
                c.violation(f"targets of {x.src!r} are {got}, expected {exp} (case {i}, {args})", **data)
            if os.path.normpath(os.path.join(cwd, x.arg["build_info"]["target_dir"])) != tdn or os.path.normpath(os.path.join(cwd, x.arg["build_info"]["source_dir"])) != os.path.normpath(os.path.join(cwd, place)):
                c.violation(f"build_info is {x.arg['build_info']} (case {i}, {args})", **data)
            have = {os.path.normpath(os.path.join(cwd, d["ref"])) for d in x.arg["dependencies"] if d["origin"] in ("generated", "project")}
            need = {os.path.normpath(os.path.join(cwd, d)) for d in mod.closure(n.path) if mod.nodes[d].origin in (proj.GENERATED, proj.PROJECT)}
            if have != need:
                c.violation(f"references of {x.src!r} resolve to {sorted(have - need)[:3]} instead of {sorted(need - have)[:3]} (case {i}, {args})", **data)
            c.count("recipe_calls")
        # the same build again has nothing to do, and a single target is found under its name
        if not any(n.rebuild for n in mod.nodes.values()):
            r = m.run(cwd, args, beh)
            if r.rc or m.compiles(r):
                c.violation(f"repeating the build with {args} runs {[x.src for x in m.compiles(r)][:3]}, status {r.rc} (case {i})", err=tail(r.err), **data)
        t = rng.choice(sorted(mod.owner))
        rel = posixpath.relpath(t, mod.td)
        if os.path.isfile(os.path.join(cwd, t)):
            os.unlink(os.path.join(cwd, t))
            r = m.run(cwd, args + ["--targets=" + wl.arg_list([rel])], beh)
            if r.rc or not os.path.exists(os.path.join(cwd, t)):
                c.violation(f"target {rel!r} is not rebuilt with {args} (case {i}), status {r.rc}", err=tail(r.err), **data)
        c.evaluated((place, sdir, tdir, i), True, {"cwd": os.path.relpath(cwd, top), "args": [a.replace(top, "<top>") for a in args], "targets": len(want)})
        c.count("source_dir_" + ("absolute" if absolute else "dot" if place == "." else "parent" if place.startswith("..") else "relative"))
        c.count("target_dir_" + ("default" if not explicit else "absolute" if tplace.startswith("/") else "parent" if tplace.startswith("..") else "relative"))
        shutil.rmtree(top, ignore_errors=True)
    c.run_cases(case, range(100000), min_cases=20)


Check("C16", "random projects built from random current directories with the source and target directory written in different (relative, absolute, redundant) ways; one evaluation is one build whose effects on the whole scratch tree and "
      "the paths given to all recipes were compared with the model", quick_s=10).main(body)
