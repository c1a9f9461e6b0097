"""C15: exactly the files selected by the configuration are part of the project."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl
import posixpath

NAMES = ["a", "b", "ab", "foo", "bar", "z[a-z]p", "skip", "a+b", "a(b)", "x{2}", "é", "old~", "__priv", ".hidden", "a b", "CVS", "xx", "xyz", "tmp1", "q?", "p|q"]
EXTS = ["", ".c", ".cc", ".h", ".tar", ".gz", ".tar.gz", ".x.tar.gz", ".bak", ".c.bak", ".c~", ".C", ".test.c", ".gen.h", ".", ".c.", "..c"]
NAME_FILTERS = ["^\\.", "^__", "~$", "\\.bak$", "foo", "^a", "b$", "^skip$", "a+b", "x{2}", "(b)", "^[xy]", "z[a-z]p", "^tmp[0-9]*$", "CVS", "^b$", "é", "q?", "p|q", "a b"]
FULL_FILTERS = ["^__", "^d0", "^d0$", "d1/", "/skip", "^a/", "^d0/d1$", "foo.*bar", "/[xy]", "^[^/]*\\.h$", "d2/.*\\.c$", "^nothing$", "\\.gz$", "^\\./"]
LOADER_EXTS = [".c", ".h", ".gz", ".tar.gz", ".test.c", ".bak", ".c.bak", ".x.tar.gz", ".gen.h", ".tar", ".C", "..c", ".c."]


def to_py(bre):
    out, i, cls = "", 0, False
    while i < len(bre):
        ch = bre[i]
        if ch == "\\":
            out += bre[i:i + 2]
            i += 2
            continue
        out += "\\" + ch if ch in "+?|(){}" and not cls else ch
        if ch == "[":
            cls = True
        elif ch == "]":
            cls = False
        i += 1
    return re.compile(out)


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        top = c.dir("p")
        sd = rng.choice([".", ".", "src", "a/src", "./src"])
        nsd = posixpath.normpath(sd)
        root = os.path.join(top, nsd)
        os.makedirs(root, exist_ok=True)
        # tree
        dirs, files = [""], set()
        for k in range(rng.randint(0, 8)):
            d = posixpath.join(rng.choice(dirs), rng.choice(["d0", "d1", "d2"] + NAMES) + rng.choice(["", "", ".h", ".c", "~"]))
            if d not in dirs and len(d) < 200:
                dirs.append(d)
        for k in range(rng.randint(1, 30)):
            f = posixpath.join(rng.choice(dirs), rng.choice(NAMES) + rng.choice(EXTS))
            if f not in dirs:
                files.add(f)
        links = []
        ql = rng.choice([0, 0, 0.3])
        for k, d in enumerate(dirs):
            if d and rng.random() < ql:
                # a directory, or a file, that is elsewhere
                e = os.path.join(top, f"__ext{k}")
                os.makedirs(e)
                os.symlink(e if rng.random() < 0.5 else os.path.relpath(e, os.path.realpath(os.path.dirname(os.path.join(root, d)))), os.path.join(root, d))
                links.append(d)
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for k, f in enumerate(sorted(files)):
            if rng.random() < ql:
                e = os.path.join(top, f"__extf{k}")
                os.symlink(e, os.path.join(root, f))
                links.append(f)
        for f in files:
            with open(os.path.join(root, f), "w") as fh:
                fh.write("text\n")
        # configuration
        nf, ff = rng.sample(NAME_FILTERS, rng.randint(0, 4)), rng.sample(FULL_FILTERS, rng.randint(0, 4))
        if nsd == "." and not any(x in nf for x in ("^__",)):
            nf.append("^__")
        recursive = 0 if rng.random() < 0.15 else 1
        exts = rng.sample(LOADER_EXTS, rng.randint(1, len(LOADER_EXTS)))
        tgt = {e: f".t{k}" for k, e in enumerate(exts)}
        mode = {e: rng.choice(["append", "append", "replace"]) for e in exts}
        loaders = {f"l{k}": {"compiler": {"config": {}, "recipe": "vprecipe"}, "loader": "generic", "config": {"target_filename_ext": tgt[e], "filename_ext_replacement_mode": mode[e]}} for k, e in enumerate(exts)}
        loaders["ref"] = {"compiler": {"config": {}, "recipe": "vprecipe"}, "loader": "extension"}
        cfg = {"maikeconfig": {"dir_compiler": {"config": {}, "recipe": "vprecipe"}, "source_file_info_loaders": loaders,
                               "source_tree_loader": {"file_info_loaders": {**{e: f"l{k}" for k, e in enumerate(exts)}, ".ref": "ref"}, "fullpath_input_filter": ff, "input_filter": nf, "recursive": recursive}}}
        with open(os.path.join(top, "__cfg.json"), "w") as f:
            json.dump(cfg, f)
        cfgarg = "--configfiles=__cfg.json"
        if nsd == ".":
            os.rename(os.path.join(top, "__cfg.json"), os.path.join(top, "__cfg.jsn"))
            cfgarg = "--configfiles=__cfg.jsn"
            files.add("__cfg.jsn")
        # reference walk
        nfr, ffr = [to_py(x) for x in nf], [to_py(x) for x in ff]

        def reached():
            out_d, out_f = {""}, set()
            for e in sorted(dirs[1:] + sorted(files), key=lambda x: x.count("/")):
                d = posixpath.dirname(e)
                if d not in out_d:
                    continue
                isdir = e in dirs
                if isdir and not recursive:
                    continue
                nm = posixpath.basename(e)
                if any(r.search(nm) for r in nfr) or any(r.search(e) for r in ffr):
                    continue
                (out_d if isdir else out_f).add(e)
            return out_d, out_f

        def ext_of(f):
            nm = posixpath.basename(f)
            best = None
            for e in exts + [".ref"]:
                if nm.endswith(e) and len(nm) > len(e) and (best is None or len(e) > len(best)):
                    best = e
            return best
        # a file that refers to another one
        ref, ref_ok = None, None
        if rng.random() < 0.5:
            d, f = reached()
            ref = rng.choice(sorted(files))
            name = "zzz.ref"
            if "\\" not in ref and not any(r.search(name) for r in nfr + ffr):
                ref_ok = ref in f
                files.add(name)
                with open(os.path.join(root, name), "w") as fh:
                    fh.write("#@" + json.dumps({"target": {"name": "zzz.out"}, "dependencies": [{"ref": ref, "origin": "project"}]}) + "\n")
            else:
                ref = None
        rd, rf = reached()
        # names whose handling the property does not define: nothing before the first dot
        for f in rf:
            nm = posixpath.basename(f)
            if ".." in nm or nm.endswith("."):
                if ext_of(f) is None:
                    continue
            if nm.startswith(".") and nm.count(".") == 1:
                shutil.rmtree(top)
                raise Skip()
        targets = {posixpath.join(d) for d in rd}
        amb = False
        for f in rf:
            e = ext_of(f)
            if e == ".ref":
                targets.add("zzz.out")
            elif e is not None:
                d, nm = posixpath.split(f)
                t = posixpath.join(d, nm + tgt[e] if mode[e] == "append" else nm[:nm.rfind(".")] + tgt[e])
                if t in targets:
                    amb = True
                targets.add(t)
        if amb:
            shutil.rmtree(top)
            raise Skip()
        td = rng.choice(["__out", "../" + os.path.basename(top) + "/__out"])
        args = [cfgarg, f"--source-dir={sd}", f"--target-dir={td}", f"--num-workers={rng.choice([1, 4, 8])}"]
        rng.shuffle(args)
        env = wl.jitter(rng, rng.choice([0, 1]))
        r = m.run(top, args + ["--list-targets"], env=env)
        data = dict(dirs=dirs, links=links, files=sorted(files), config=cfg, args=args, err=tail(r.err))
        if ref is not None and not ref_ok:
            if r.rc == 0:
                c.violation(f"a reference to {ref!r}, which is not part of the project, is accepted (case {i})", **data)
            c.count("references_to_excluded_files")
            c.evaluated((i,))
            shutil.rmtree(top, ignore_errors=True)
            return
        if r.rc != 0 or r.hang:
            c.violation(f"loading a valid project fails with {r.rc} (case {i})", **data)
        got = [x.rstrip("/") for x in r.out.split("\n") if x and not x.startswith("#")]
        got = sorted("" if x == "." else x for x in got)
        if got != sorted(targets):
            miss, extra = sorted(targets - set(got)), sorted(set(got) - targets)
            c.violation(f"wrong set of sources (case {i}): missing targets {miss[:3]}, unexpected {extra[:3]}", got=got, **data)
        n = 2 * len(rd) + len(rf) + len([t for t in targets if t not in rd]) + 1
        if not r.loaded or int(r.loaded[2]) != len(targets):
            c.violation(f"number of targets reported is {r.loaded and r.loaded[2]}, expected {len(targets)} (case {i})", **data)
        if int(r.loaded[1]) != n:
            c.violation(f"number of entries reported is {r.loaded[1]}, expected {n} (case {i})", **data)
        # and the graph has each of these files below its directory
        if i % 4 == 0:
            r = m.run(top, args + ["--print-dep-graph"], env=env)
            edges = set(re.findall(r'^"(.*)" -> "(.*)"$', r.out, re.M))

            def sp(x):
                return posixpath.normpath(posixpath.join(nsd, x))
            want = {(sp(d), sp(posixpath.dirname(d))) for d in rd if d} | {(sp(f), sp(posixpath.dirname(f))) for f in rf if ext_of(f)}
            src = {sp(x) for x in files | set(dirs)}
            have = {(a, b) for a, b in edges if a in src and b in {sp(d) for d in dirs}}
            if have - {(sp("zzz.ref"), sp(ref or ""))} != want - {(sp("zzz.ref"), sp(ref or ""))}:
                c.violation(f"sources in the dependency graph are wrong (case {i}): missing {sorted(want - have)[:3]}, unexpected {sorted(have - want)[:3]}", **data)
        c.evaluated((i,), len(rf) and len(rf) < len(files), {"name filters": nf, "path filters": ff, "files": len(files), "selected": len(rf), "with loader": len([f for f in rf if ext_of(f)])})
        c.count("files", len(files))
        c.count("selected", len(rf))
        c.count("loaded", len([f for f in rf if ext_of(f)]))
        c.count("dirs", len(dirs))
        c.count("symbolic_links", len(links))
        shutil.rmtree(top, ignore_errors=True)
    c.run_cases(case, range(100000), min_cases=20)


Check("C15", "random directory trees with multi-dot, dotted and special names, random filters (POSIX basic regular expressions), random extension maps, recursion on and off; one evaluation is one loaded tree whose set of sources, loaders "
      "(revealed by target names), entry counts and references were compared with a reference walk; non-trivial: some but not all files are selected", quick_s=10).main(body)
