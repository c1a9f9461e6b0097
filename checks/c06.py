"""C06: broken graphs are rejected before anything is run, valid ones never."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl

import posixpath
from proj import Src, Tags, Target, Dep, GENERATED, PROJECT


def mutate(rng, p, mod):
    """change the project in a way that may or may not break it; the model decides"""
    xs = [s for s in p.files.values() if p.ext_of(s.path) in (".x", ".cpp", ".app", ".rule", ".lib", ".t", ".s", ".test.cpp")]
    tg = [s for s in xs if s.tags.targets]
    gens = [posixpath.relpath(t, mod.td) for t, o in sorted(getattr(mod, "owner", {}).items(), key=lambda x: x[0]) if not o[0].is_dir]
    hdr = [s for s in p.files.values() if s.path.endswith(".hpp")]
    cxx = hdr + [s for s in p.files.values() if s.path.endswith(".cpp")]
    k = rng.random()
    if k < 0.30 and xs and gens:
        s = rng.choice(xs)
        s.tags.deps.append(Dep(rng.choice(gens), rng.choice([None, GENERATED])))
        return "dependency between sources"
    if k < 0.45 and len(cxx) > 1 and hdr:
        a, b = rng.choice(cxx), rng.choice(hdr)
        ref = b.path if rng.random() < 0.5 else "./" + posixpath.relpath(b.path, posixpath.dirname(a.path) or ".")
        a.includes.append((ref, '"'))
        return "include between files"
    if k < 0.55 and hdr and gens:
        rng.choice(hdr).tags.extra.append(Dep(rng.choice(gens)))
        return "extra dependency"
    if k < 0.63 and tg and gens:
        rng.choice(rng.choice(tg).tags.targets).deps.append(Dep(rng.choice(gens), GENERATED))
        return "target dependency"
    if k < 0.68 and xs:
        s, t = rng.choice(xs), rng.choice(sorted(p.files))
        s.tags.deps.append(Dep(t, PROJECT))
        return "dependency on a source file"
    if k < 0.84 and tg:
        # a second declaration of an existing target, spelled in some way
        s = rng.choice(tg)
        o = rng.choice(sorted(mod.owner))
        n = posixpath.relpath(posixpath.relpath(o, mod.td), posixpath.dirname(s.path) or ".")
        n = rng.choice([n, "./" + n, "q/../" + n, n.replace("/", "//")])
        if mod.owner[o][0].is_dir or n in (".", "./."):
            return "nothing"
        if any(posixpath.normpath(t.name) == posixpath.normpath(n) for t in s.tags.targets):
            return "nothing"
        s.tags.targets.append(Target(n))
        s.tags.single = False
        return "target declared twice"
    if xs:
        s = rng.choice(xs)
        kind = rng.randint(0, 5)
        if kind == 0:
            s.tags.deps.append(Dep("no/such/file.o"))
        elif kind == 1:
            s.tags.deps.append(Dep("./nosuch.txt", PROJECT))
        elif kind == 2 and cxx:
            rng.choice(cxx).includes.append((rng.choice(["nosuch.hpp", "./nosuch.hpp", "x/nosuch.gen.hpp"]), '"'))
        elif kind == 3 and tg:
            rng.choice(rng.choice(tg).tags.targets).deps.append(Dep("nosuch.o", GENERATED))
        elif kind == 4 and hdr:
            rng.choice(hdr).tags.extra.append(Dep("./nosuch.o"))
        elif kind == 5:
            # exists on disk, but is not part of the project
            h = ".hidden.x" if "^\\." in p.input_filter else "__hidden.x"
            p.add(Src(h, Tags()))
            s.tags.deps.append(Dep(h, PROJECT))
        return "dangling reference"
    return "nothing"


def ring(rng, n):
    """a project with one cycle of n files of a given kind in an otherwise valid project"""
    p = proj.random_project(rng, rng.randint(0, 8))
    kind = rng.choice(["inc", "gen", "mixed", "link"])
    names = [f"ring{k}" for k in range(n)]
    for k, a in enumerate(names):
        b = names[(k + 1) % n]
        if kind == "inc":
            p.add(Src(a + ".hpp", includes=[(("./" if rng.random() < 0.5 else "") + b + ".hpp", '"')]))
        elif kind == "gen":
            p.add(Src(a + ".x", Tags([Target(a + ".o")], [Dep(b + ".o")])))
        elif kind == "mixed":
            # source -> header -> generated file of the next source
            p.add(Src(a + ".hpp", Tags(deps=[Dep(b + ".o")])))
            p.add(Src(a + ".cpp", Tags([Target(a + ".o")]), includes=[("./" + a + ".hpp", '"')]))
        else:
            p.add(Src(a + ".lib", Tags([Target(a + ".a", [Dep(b + ".a", GENERATED)])])))
    return p


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        what = []
        if i % 5 == 0:
            n = rng.choice([1, 1, 2, 3, 5, 17, 60])
            p = ring(rng, n)
            what.append(f"cycle of {n}")
            mod = proj.Model(p, m.prefix + "/lib/maike2/recipes")
        elif i % 5 == 1:
            # valid, but extreme: redundant edges, deep and dense
            p = proj.random_project(rng, 3)
            n = rng.choice([5, 40, 120])
            for k in range(n):
                pred = [f"v{j}.o" for j in range(max(0, k - rng.choice([1, 3, 12])), k)]
                rng.shuffle(pred)
                ds = [Dep(rng.choice(["", "./"]) + x) for x in pred + pred[:2]]
                p.add(Src(f"v{k}.x", Tags([Target(f"v{k}.o")], ds)))
            what.append(f"dense chain of {n}")
            mod = proj.Model(p, m.prefix + "/lib/maike2/recipes")
        else:
            p = proj.random_project(rng, rng.choice([3, 6, 12, 22]))
            mod = proj.Model(p, m.prefix + "/lib/maike2/recipes")
            if mod.error:
                raise Skip()
            for _ in range(rng.choice([0, 1, 1, 2])):
                what.append(mutate(rng, p, mod))
            scanned = [f for f in p.files if not any(re.search(x, posixpath.basename(f)) for x in p.input_filter)]
            mod = proj.Model(p, mod.sysrec, scanned=scanned)
        root = c.dir("p")
        p.write(root, m.recipe)
        args = [f"--num-workers={rng.choice([1, 3, 8])}"]
        if rng.random() < 0.15:
            args.append("--force-rebuild")
        r = m.run(root, args, p.beh())
        where = f"case {i}: {what}"
        data = dict(files=wl.files(p), config=p.config(), err=tail(r.err), model=mod.error, args=args)
        if r.hang:
            c.violation(f"does not terminate ({where})", **data)
        ran = m.compiles(r)
        if mod.error:
            if r.rc == 0:
                c.violation(f"project with an error ({mod.error}) is accepted ({where})", **data)
            if r.rc < 0:
                c.violation(f"killed by signal {-r.rc} ({where})", **data)
            if ran:
                c.violation(f"recipe of {ran[0].src!r} is run although the project has an error ({mod.error}; {where})", **data)
            if os.path.exists(os.path.join(root, mod.td)):
                c.violation(f"the target directory is created although the project has an error ({mod.error}; {where})", **data)
            if not [x for x in r.err.split("\n") if x and not x.startswith(("#", "--"))]:
                c.violation(f"no error message for {mod.error} ({where})", **data)
            c.count("rejected_" + mod.error[0])
            # whatever is asked for
            ts = [posixpath.relpath(t, mod.td) for t, o in sorted(getattr(mod, "owner", {}).items(), key=lambda x: x[0]) if not o[0].is_dir]
            for how in rng.sample([["--dry-run"], ["--print-dep-graph"], ["--list-targets"]], 1) + ([["--targets=" + wl.arg_list([rng.choice(ts)])] + rng.choice([[], ["--dry-run"]])] if ts else []):
                q = m.run(root, args[:1] + how, p.beh())
                if q.hang or q.rc <= 0:
                    c.violation(f"project with an error ({mod.error}) is accepted with {how}: status {q.rc} ({where})", **data)
                if m.compiles(q) or os.path.exists(os.path.join(root, mod.td)):
                    c.violation(f"something is done with {how} although the project has an error ({mod.error}; {where})", **data)
                c.count("rejected_with" + how[0].split("=")[0].replace("-", "_"))
        else:
            if r.rc != 0:
                c.violation(f"valid project is rejected ({where}): {tail(r.err, 300)}", **data)
            if len(ran) != len(mod.tasks()):
                c.violation(f"valid project: {len(ran)} of {len(mod.tasks())} tasks run ({where})", **data)
            c.count("accepted")
        for w in what:
            c.count("mutation_" + re.sub(r"\d+", "N", w).replace(" ", "_"))
        c.evaluated((i,), bool(what), {"mutations": what, "error": mod.error})
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(100000), min_cases=24)


Check("C06", "random projects with random extra edges, includes, duplicate targets and dangling references, cycles of 1-60 files of several kinds, and dense valid graphs; the model decides whether the result is an error; "
      "one evaluation is one project; non-trivial: at least one mutation", quick_s=12).main(body)
