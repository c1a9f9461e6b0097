"""C11: each recipe is called with the complete and correct description of its task."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl

import jsongen, posixpath
from proj import Src, Tags, Target, Dep


def customise(rng, p):
    """random loader configurations, overrides, and where recipes come from"""
    for ext in list(p.loaders):
        v = list(p.loaders[ext])
        if rng.random() < 0.5 and ext not in (".cpp", ".hpp"):
            cfg = jsongen.obj(rng)
            if ext == ".test.cpp":
                cfg["actions"] = ["link", "run"][:rng.randint(1, 2)]
            v[3] = cfg
        p.loaders[ext] = tuple(v)
    if rng.random() < 0.4:
        # a recipe in a directory of the project
        p.dirs.add("tools")
        p.project_recipes.add("tools/rec2")
        p.add(Src("tools/rec2"))
        e = rng.choice([".x", ".lib", ".rule", ".g"])
        v = list(p.loaders[e])
        v[2] = "tools/rec2"
        p.loaders[e] = tuple(v)
    if rng.random() < 0.3:
        # a project recipe with the name of an installed one takes precedence
        p.project_recipes.add("vprecipe")
        p.add(Src("vprecipe"))
    for s in p.files.values():
        ext = p.ext_of(s.path)
        if ext in (".x", ".cpp", ".t", ".app", ".lib", ".rule", ".test.cpp") and s.tags.compiler is None and rng.random() < 0.25:
            s.tags.compiler = {"config": jsongen.compatible(rng, p.loaders[ext][3])}
            if p.project_recipes and rng.random() < 0.4:
                s.tags.compiler["recipe"] = rng.choice(sorted(p.project_recipes))
            s.get_tags = None
        elif s.tags.compiler is not None:
            s.tags.compiler["config"] = jsongen.compatible(rng, p.loaders[ext][3])
        for t in s.tags.targets:
            for d in t.deps:
                if rng.random() < 0.3:
                    d.props[rng.choice(["rel", "note", "x y"])] = jsongen.text(rng)
        for d in s.tags.deps + s.tags.extra:
            if rng.random() < 0.3:
                d.props[rng.choice(["rel", "note", "x y"])] = jsongen.text(rng)


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        p = proj.random_project(rng, rng.choice([3, 8, 15, 30]), {"override": 0.2})
        customise(rng, p)
        p, mod, root = wl.make_case(c, m, rng, project=p)
        args, exp = [f"--num-workers={rng.choice([1, 4, 8])}"], {}
        if rng.random() < 0.7:
            bid = "%064x" % rng.getrandbits(256)
            exp["build_id"] = bid
            args.append("--build-id=" + (bid.upper() if rng.random() < 0.3 else bid))
        if rng.random() < 0.7:
            exp["start_time"] = rng.choice([0, 1, 2**31, rng.randint(0, 2**32)])
            args.append(f"--start-time={exp['start_time']}")
        fmt = "plain_text"
        if rng.random() < 0.4:
            fmt = rng.choice(["plain_text", "ansi_term"])
            args.append("--log-output-format=" + fmt)
        import time
        t0 = int(time.time())
        r = m.run(root, args, p.beh())
        t1 = int(time.time()) + 1
        where = f"case {i} {args}"
        data = dict(files=wl.files(p), config=p.config(), args=args, err=tail(r.err))
        if r.hang or r.rc:
            c.violation(f"build fails ({where}), status {r.rc}", **data)
        ids = {}
        seen_bid = set()
        for x in m.compiles(r):
            n = mod.nodes[x.src]
            a = x.arg

            def bad(what, want, got):
                c.violation(f"{x.src!r}: {what} is {str(got)[:300]}, expected {str(want)[:300]} ({where})", argument=a, **data)
            for err in wl.call_errors(mod, root, x, c.count):
                bad(*err)
            if a["log_format"] != fmt:
                bad("log_format", fmt, a["log_format"])
            bi = a["build_info"]
            if bi["source_dir"] != mod.sd or bi["target_dir"] != mod.td:
                bad("directories", (mod.sd, mod.td), bi)
            if not isinstance(bi.get("build_host"), str) or not bi["build_host"]:
                bad("build_host", "a host name", bi)
            seen_bid.add((bi["build_id"], bi["start_time"]))
            for k, v in exp.items():
                if bi[k] != v:
                    bad(k, v, bi[k])
            if "start_time" not in exp and not t0 - 1 <= bi["start_time"] <= t1:
                bad("start_time", (t0, t1), bi["start_time"])
            if not re.fullmatch("[0-9a-f]{64}", bi["build_id"]):
                bad("build_id", "64 hexadecimal digits", bi["build_id"])
            if not isinstance(a["task_id"], int) or ids.setdefault(a["task_id"], x.src) != x.src:
                bad("task_id", "unique", a["task_id"])
            c.evaluated((i, x.src), len(a["dependencies"]) > 2, a if len(a["dependencies"]) < 8 else None)
            c.count("overridden" if (n.src and n.src.tags.compiler) else "plain_cfg")
        if len(seen_bid) > 1:
            c.violation(f"recipes of one build got different build ids or start times ({where})", **data)
        bid = next(iter(seen_bid), None)
        if bid and "build_id" not in exp:
            if bid[0] in allbids:
                c.violation(f"two builds got the same random build id ({where})", **data)
            allbids.add(bid[0])
        shutil.rmtree(root, ignore_errors=True)
    allbids = set()
    c.run_cases(case, range(100000), min_cases=20)


Check("C11", "random projects with random (nested, hostile) compiler configurations, overrides, dependency properties and recipes from the project, its directories and the installation; one evaluation is one recipe call whose "
      "argument was compared field by field with the model; non-trivial: more than 2 dependencies", quick_s=12).main(body)
