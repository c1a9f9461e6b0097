"""Workload pieces and oracles shared by the checks that drive maike2 as a black box."""
import json, os, posixpath, re, shutil, subprocess
from common import Skip, tail
import proj

ARGKEYS = ("compile",)


def make_case(c, m, rng, size=14, features=None, project=None, source_dir=".", target_dir=None):
    """random project, written to a fresh directory -> (project, model, root)"""
    p = project or proj.random_project(rng, size, features)
    root = c.dir("p")
    p.write(root if source_dir == "." else os.path.join(root, source_dir), m.recipe)
    mod = proj.Model(p, m.prefix + "/lib/maike2/recipes", source_dir, target_dir)
    if mod.error:
        shutil.rmtree(root, ignore_errors=True)
        raise Skip()
    return p, mod, root


def delays(rng, tasks, base=None, scale=None):
    """behaviour file: random run times; some tasks much slower than others"""
    scale = scale if scale is not None else rng.choice([0, 2000, 10000, 30000])
    beh = dict(base or {})
    for n in tasks:
        if scale and rng.random() < 0.4:
            beh["compile:" + n.path] = {"delay_us": rng.randint(1, scale)}
    return beh


def jitter(rng, level=None):
    """environment that injects delays into maike2 itself and shuffles directory listings"""
    import build
    level = level if level is not None else rng.choice([0, 1, 1, 2])
    if not level:
        return {}
    pm, mx = {1: (rng.choice([5, 30, 150]), rng.choice([0, 50, 300])), 2: (rng.choice([300, 700]), rng.choice([0, 0, 40]))}[level]
    return {"LD_PRELOAD": build.jitter_lib(), "VP_JITTER": f"{rng.randint(1, 10**6)}:{pm}:{mx}:1"}


def arg_list(names):
    return ",".join(re.sub(r"([,\\])", r"\\\1", n) for n in names)


def rel_target(mod, t):
    return posixpath.relpath(t, mod.td)


def disturb(rng, mod, root, n=None):
    """touch/delete some sources and targets so that a part of the project is out of date"""
    import time
    what = []
    tasks = [t for t in mod.tasks() if not t.is_dir]
    for t in rng.sample(tasks, min(len(tasks), n or rng.randint(1, 3))):
        if rng.random() < 0.5:
            os.utime(os.path.join(root, t.path))
            what.append(("touch", t.path))
        else:
            f = os.path.join(root, rng.choice(t.targets)[0])
            if os.path.isfile(f):
                os.unlink(f)
                what.append(("delete", f))
    return what


def retry_hang(c, m, root, args, beh, r, timeout=120, env=None):
    """a run that did not end is repeated once with a longer limit before it counts as a hang"""
    if not r.hang:
        return r
    c.count("slow_runs_repeated")
    r2 = m.run(root, args, beh, timeout=timeout, env=env)
    return r2


def expect_ok(c, r, p, i):
    """a valid project must build; anything else than exit status 0 is another property's violation, but also ours:
    the property cannot be observed on a build that does not work"""
    if r.hang:
        c.violation("build of a valid project hangs", case=i, err=tail(r.err), config=p.config(), files=files(p), args=r.args)
    if r.rc != 0:
        c.violation(f"build of a valid project fails with status {r.rc}", case=i, err=tail(r.err), config=p.config(), files=files(p), args=r.args)


def files(p):
    return {k: {"tags": s.tags.json(), "includes": s.includes, "get_tags": s.get_tags and s.get_tags.json(), "style": s.style} for k, s in p.files.items()}


def check_order(c, m, mod, r, where, beh=None, allow_repeat=True):
    """no compile recipe starts before its predecessors have ended successfully"""
    runs = {}
    for x in m.compiles(r):
        runs.setdefault(x.src, []).append(x)
    for src, xs in runs.items():
        if src not in mod.nodes:
            c.violation(f"recipe run for unknown source {src!r} ({where})", args=r.args, files=files(mod.p))
        for pre in mod.prereq_tasks(src):
            for x in xs:
                before = [y for y in runs.get(pre, ()) if y.start <= x.start]
                after = [y for y in runs.get(pre, ()) if y.start > x.start]
                if pre in runs and not before and after:
                    c.violation(f"{src!r} was started before {pre!r}, which it depends on ({where})", args=r.args, files=files(mod.p), config=mod.p.config(), beh=beh,
                                trace=[(y.src, y.start, y.end, y.rc) for y in m.compiles(r)])
                for y in before[-1:]:
                    c.evaluated((src, pre, where.split(" step")[0]))
                    c.count("ordered_pairs")
                    if y.end is None or y.end > x.start:
                        c.violation(f"{src!r} was started while {pre!r}, which it depends on, was still running ({where})", args=r.args, files=files(mod.p), config=mod.p.config(), beh=beh,
                                    trace=[(z.src, z.start, z.end, z.rc) for z in m.compiles(r)])
                    if y.rc != 0 or y.signal:
                        c.violation(f"{src!r} was started although {pre!r}, which it depends on, failed ({where})", args=r.args, files=files(mod.p), config=mod.p.config(), beh=beh)
        for x in xs:
            for ref, mt in (x.seen or {}).items():
                c.count("inputs_seen")
                n = mod.nodes.get(ref.rstrip("/"))
                if mt is None and n is not None and n.origin == proj.GENERATED:
                    c.violation(f"{ref!r} does not exist yet when {src!r}, which depends on it, is compiled ({where})", args=r.args, files=files(mod.p), config=mod.p.config(), beh=beh)
    # overlap is what makes the property non-trivial
    cs = sorted(m.compiles(r), key=lambda x: x.start)
    peak, act = 0, []
    for x in cs:
        act = [e for e in act if e > x.start] + [x.end or (1 << 62)]
        peak = max(peak, len(act))
    c.count("recipe_runs", len(cs))
    with c.lock:
        c.counts["max_concurrent_recipes"] = max(c.counts["max_concurrent_recipes"], peak)
    if len(c.samples) < 3 and cs:
        c.samples.append({"args": r.args, "recipes": [x.src for x in cs][:12], "peak_concurrency": peak})


def snapshot(root, with_mtime=True):
    out = {}
    for d, dirs, fs in os.walk(root):
        for f in fs + dirs:
            p = os.path.join(d, f)
            st = os.lstat(p)
            k = os.path.relpath(p, root)
            if os.path.isdir(p):
                out[k] = ("dir",)
            else:
                with open(p, "rb") as fh:
                    out[k] = (st.st_mtime_ns if with_mtime else 0, st.st_mode, fh.read())
    return out


def run_sets(m, r):
    return sorted(x.src for x in m.compiles(r))


def nrm(p):
    """names of nodes as the model has them"""
    return posixpath.normpath(p) if p else p


def call_errors(mod, root, x, count=lambda *a: None):
    """what is wrong with the argument of one compile recipe call: yields (what, expected, found)"""
    import collections
    n = mod.nodes[x.src]
    a = x.arg

    def js(o):
        return json.dumps(o, sort_keys=True)
    if set(a) != {"compiler_cfg", "source_file", "task_id", "build_info", "log_format", "targets", "dependencies"}:
        yield "set of keys", "7 keys", sorted(a)
        return
    if sorted(t.rstrip("/") for t in a["targets"]) != sorted(t for t, _ in n.targets):
        yield "targets", sorted(t for t, _ in n.targets), a["targets"]
    if js(a["compiler_cfg"]) != js(n.config):
        yield "compiler_cfg", n.config, a["compiler_cfg"]
    # dependencies: closure, once each, in order, with origin and properties
    names = [d["ref"].rstrip("/") or "/" for d in a["dependencies"]]
    want = mod.closure(x.src)
    if len(names) != len(set(names)):
        yield "dependencies", "no duplicates", [q for q, k in collections.Counter(names).items() if k > 1]
    if set(names) != want:
        yield "dependencies", f"missing {sorted(want - set(names))[:4]}", f"unexpected {sorted(set(names) - want)[:4]}"
        return
    done = set()
    scope = want | {x.src}
    for d, nm in zip(a["dependencies"], names):
        late = mod.closure(nm) - done
        if late:
            yield "order of dependencies", f"{sorted(late)[0]} before {nm}", "after it"
        done.add(nm)
        inc = [e for f, e in mod.incoming(nm) if f in scope]
        got = {k: v for k, v in d.items() if k not in ("ref", "origin")}
        if not any(e.origin == d["origin"] and e.props == got for e in inc):
            yield f"entry of {nm}", [(e.origin, e.props) for e in inc], d
        count("dependency_entries")
    # which program was called
    exe = x.argv[0] if len(x.argv) == 3 else x.argv[1]
    full = os.path.realpath(os.path.join(root, exe))
    wantexe = os.path.realpath(os.path.join(root, n.recipe.name if n.recipe is not None else n.path))
    if full != wantexe:
        yield "recipe", wantexe, full
