"""C14: configuration files merge predictably and a dumped configuration is equivalent."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl, jsongen


def split(rng, o, n):
    """distributes the keys of an object over n objects; merging them in order gives o again"""
    out = [{} for _ in range(n)]
    for k, v in o.items():
        if isinstance(v, dict) and v and rng.random() < 0.8:
            for part, x in zip(out, split(rng, v, n)):
                if x or rng.random() < 0.2:
                    part[k] = x
            if not any(k in p for p in out):
                out[0][k] = v
        elif isinstance(v, list) and len(v) > 1 and rng.random() < 0.6:
            cut = sorted(rng.randint(0, len(v)) for _ in range(n - 1))
            for j, (a, b) in enumerate(zip([0] + cut, cut + [len(v)])):
                if b > a or rng.random() < 0.3:
                    out[j][k] = v[a:b]
            if not any(k in p for p in out):
                out[0][k] = v
        else:
            j = rng.randrange(n)
            out[j][k] = v
            # an earlier file may hold a value that this one replaces
            if j and rng.random() < 0.4 and not isinstance(v, (dict, list)):
                w = jsongen.compatible(random.Random(rng.random()), {k: v})
                if k in w:
                    out[rng.randrange(j)][k] = w[k]
    return out


def add_booleans(rng, o, depth=2):
    for k in ("flag", "flag2"):
        if rng.random() < 0.5:
            o[k] = rng.random() < 0.5
    for v in o.values():
        if isinstance(v, dict) and depth:
            add_booleans(rng, v, depth - 1)


def reorder(rng, o):
    if isinstance(o, dict):
        ks = list(o)
        rng.shuffle(ks)
        return {k: reorder(rng, o[k]) for k in ks}
    return o


def canon_compiler(x):
    return {"recipe": x.get("recipe", ""), "config": x["config"], "use_get_tags": 1 if x.get("use_get_tags", 0) else 0}


def canon(cfg):
    """what a dump of this (merged) configuration has to contain; loader settings that are left out are not compared"""
    c = cfg["maikeconfig"]
    t = c["source_tree_loader"]
    return {"tree": {"recursive": 1 if t["recursive"] else 0, "input_filter": t["input_filter"], "fullpath_input_filter": t["fullpath_input_filter"], "file_info_loaders": t["file_info_loaders"]},
            "dir_compiler": canon_compiler(c["dir_compiler"]),
            "loaders": {k: {"loader": v["loader"], "compiler": canon_compiler(v["compiler"])} for k, v in c["source_file_info_loaders"].items()}}


def loader_cfg(cfg):
    out = {}
    for k, v in cfg["maikeconfig"]["source_file_info_loaders"].items():
        if "config" in v and v["loader"] in ("generic", "cxx_src_loader"):
            x = dict(v["config"])
            if v["loader"] == "generic":
                x.setdefault("filename_ext_replacement_mode", "append")
            out[k] = x
    return out


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return f"{path}/{k}: unexpected {b[k]!r}"
            if k not in b:
                return f"{path}/{k}: missing, expected {a[k]!r}"
            d = diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if type(a) is not type(b) or a != b:
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and a == b and type(a) is type(b):
            return None
        return f"{path}: expected {a!r}, got {b!r}"
    return None


def body(c):
    m = Maike(c)

    def dump(root, files, i, data):
        r = m.run(root, (["--configfiles=" + wl.arg_list(files)] if files is not None else []) + ["--configdump"])
        if r.hang or r.rc != 0:
            c.violation(f"--configdump fails with {r.rc} (case {i})", err=tail(r.err), **data)
        if r.runs:
            c.violation(f"--configdump runs a recipe (case {i})", **data)
        try:
            return json.loads(r.out), r
        except ValueError:
            c.violation(f"the dumped configuration is not JSON (case {i})", out=tail(r.out, 4000), **data)

    def case(i):
        rng = c.rng(i)
        p = proj.random_project(rng, rng.choice([0, 3, 8]), {"override": 0, "always": 0})
        for ext in list(p.loaders):
            v = list(p.loaders[ext])
            cfg = jsongen.obj(rng) if rng.random() < 0.6 and ext not in (".test.cpp", ".cpp", ".hpp") else dict(v[3])
            if ext not in (".cpp", ".hpp", ".test.cpp"):
                add_booleans(rng, cfg)
            v[3] = cfg
            p.loaders[ext] = tuple(v)
        if ".cpp" in p.loaders:
            p.loaders[".hpp"] = p.loaders[".cpp"]
        if rng.random() < 0.3:
            p.recursive = rng.choice([1, 7]) if p.files else 0
        if rng.random() < 0.5:
            p.input_filter = p.input_filter + rng.sample(["~$", "\\.bak$", "^zz", "ü"], rng.randint(1, 3))
            p.full_filter = p.full_filter + rng.sample(["^nothere/", "^a/b$"], rng.randint(0, 2))
        p, mod, root = wl.make_case(c, m, rng, project=p)
        want = p.config()
        n = rng.choice([1, 2, 2, 3, 4, 6])
        parts = split(rng, want, n)
        files = []
        for k, x in enumerate(parts):
            nm = rng.choice(["c%d.json", "dir c/%d.json", "c,%d.json", "c\\%d", "d%d/c.json", "d%d/c.json", "%d/maikeconfig.json", "c.json.%d"]) % k
            os.makedirs(os.path.dirname(os.path.join(root, "__cfg", nm)), exist_ok=True)
            with open(os.path.join(root, "__cfg", nm), "w") as f:
                json.dump(reorder(rng, x), f, indent=rng.choice([None, 1, "\t"]), ensure_ascii=rng.random() < 0.5)
            files.append(rng.choice(["", "", "./", root + "/", "__cfg/../"]) + "__cfg/" + nm)
        # a file may be listed more than once
        for k in reversed(range(n)):
            if rng.random() < 0.05:
                files.insert(k, files[k])
                parts.insert(k, parts[k])
                c.count("files_listed_twice")
        merged = {}
        for x in parts:
            merged = proj.merge(merged, x)
        data = dict(parts=parts)
        d1, r1 = dump(root, files, i, data)
        e = diff(canon(merged), canon(d1))
        if not e:
            lc, ld = loader_cfg(merged), loader_cfg(d1)
            e = diff(lc, {k: v for k, v in ld.items() if k in lc})
        if e:
            c.violation(f"the effective configuration of {n} files is not their merge (case {i}): {e}", merged=merged, dump=d1, **data)
        # files that cannot be read are reported, and change nothing
        bad, names = [], []
        for k in range(rng.randint(1, 3)):
            nm, text = rng.choice([("missing%d", None), ("dir%d", "dir"), ("empty%d", ""), ("blank%d", " \n"), ("cut%d", '{"maikeconfig": {"dir_compiler": {"recipe": "x", "config": {"k": 1}'),
                                   ("words%d", "no json"), ("bad%d", '{"maikeconfig": {"dir_compiler": {"recipe": "other", "config": {}}}, "maikeconfig": {}}'), ("array%d", '["maikeconfig"]'), ("string%d", '"maikeconfig"')])
            nm = "__cfg/" + nm % k
            if text == "dir":
                os.makedirs(os.path.join(root, nm))
            elif text is not None:
                with open(os.path.join(root, nm), "w") as f:
                    f.write(text)
            if text is None or text.strip() and text != "dir":
                names.append(nm)
            bad.append(nm)
        mixed = list(files)
        for nm in bad:
            mixed.insert(rng.randint(0, len(mixed)), nm)
        db, rb = dump(root, mixed, i, data)
        if rb.out != r1.out:
            c.violation(f"files that cannot be read change the configuration (case {i}, {mixed}): {diff(d1, db)}", dump=d1, dump2=db, err=tail(rb.err), **data)
        for nm in names:
            if nm not in re.sub(r"(?m)^--configfiles: .*$", "", rb.err):
                c.violation(f"{nm} cannot be read, but that is not reported (case {i})", err=tail(rb.err), files=mixed, **data)
        c.count("unreadable_files", len(bad))
        # a dump is a fixed point
        with open(os.path.join(root, "__cfg", "dump.json"), "w") as f:
            f.write(r1.out)
        d2, r2 = dump(root, ["__cfg/dump.json"], i, data)
        if d1 != d2 or r1.out != r2.out:
            c.violation(f"dumping a dumped configuration gives another one (case {i}): {diff(d1, d2)}", dump=d1, dump2=d2, **data)
        # and equivalent: same graph, same targets, same calls
        if i % 3 == 0:
            res = []
            for fs in (files, ["__cfg/dump.json"]):
                a = ["--configfiles=" + wl.arg_list(fs), "--build-id=%064x" % 5, "--start-time=77", "--num-workers=4"]
                g = m.run(root, a + ["--print-dep-graph"], p.beh())
                t = m.run(root, a + ["--list-targets"], p.beh())
                b = m.run(root, a + ["--target-dir=__t"], p.beh())
                shutil.rmtree(os.path.join(root, "__t"), ignore_errors=True)
                for x in (g, t, b):
                    if x.rc != 0 or x.hang:
                        c.violation(f"maike fails with status {x.rc} when given {fs} (case {i})", err=tail(x.err), args=x.args, **data)
                res.append((body_of(g.out), body_of(t.out), sorted((x.action, x.argv[-1]) for x in b.runs)))
            for what, x, y in zip(("dependency graph", "list of targets", "calls of recipes"), *res):
                if x != y:
                    c.violation(f"a dumped configuration gives another {what} than the files it came from (case {i})", a=x, b=y, **data)
            want_t = sorted(os.path.relpath(t, mod.td) for t in mod.owner)
            if sorted(res[0][1].split("\n")) != sorted(want_t + [""]) and [x for x in sorted(res[0][1].split("\n")) if x.rstrip("/") not in want_t + [""]]:
                c.violation(f"list of targets is not that of the merged configuration (case {i})", got=res[0][1], want=want_t, **data)
            c.count("equivalence_runs")
        c.evaluated(json.dumps(parts), n > 1, {"files": n, "loaders": len(want["maikeconfig"]["source_file_info_loaders"])})
        c.count("files_merged", n)
        shutil.rmtree(root, ignore_errors=True)

    # the built-in default
    root = c.dir("default")
    d0, r0 = dump(root, None, "default", {})
    r = m.run(root, ["--config-default", "--configdump"])
    if r.rc or r.out != r0.out:
        c.violation("without a configuration file another configuration than the built-in default is used", a=r0.out, b=r.out)
    with open(root + "/maikeconfig.json", "w") as f:
        f.write(r0.out)
    d1, r1 = dump(root, None, "default dump", {})
    if r1.out != r0.out:
        c.violation("dumping the dumped default configuration gives another one: " + str(diff(d0, d1)), a=r0.out, b=r1.out)
    with open(root + "/maikeconfig.json", "w") as f:
        json.dump(proj.Project().config(), f)
    r = m.run(root, ["--config-default", "--configdump"])
    if r.rc or r.out != r0.out:
        c.violation("--config-default does not select the built-in default", a=r0.out, b=r.out)
    c.evaluated("default")
    c.run_cases(case, range(100000), min_cases=20)


def body_of(out):
    return "\n".join(x for x in out.split("\n") if not x.startswith("#"))


Check("C14", "random configurations (nested and hostile values, booleans, filters, loaders) split at random over 1-6 files with values to be replaced and arrays to be concatenated; one evaluation is one set of files whose dump was "
      "compared with a reference merge and dumped again; every third one also compares graph, targets and recipe calls; non-trivial: more than one file", quick_s=11).main(body)
