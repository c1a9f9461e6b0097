"""C07: graph, run set and recipe arguments are independent of scheduling."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl


def observe(c, m, root, rng, p, mod, fixed):
    """one run of each kind under a random schedule -> canonical observations"""
    w = [f"--num-workers={rng.choice([1, 2, 3, 8, 32])}"]
    pre = ["taskset", "-c", str(rng.randint(0, os.cpu_count() - 1))] if rng.random() < 0.25 else []
    out = {}

    def env():
        # (the jitter, and what differs between users)
        return {**wl.jitter(rng, rng.choice([0, 1, 1, 2, 2])), "TZ": rng.choice(["UTC", "Asia/Tokyo", "VP-14", "VP12"]), "LC_ALL": rng.choice(["C", "C.UTF-8", "nowhere"]), "HOME": rng.choice(["/", "/nonexistent"]), "USER": rng.choice(["a", "b c"])}
    args = fixed + w
    beh = p.beh()

    def strip(r):
        return [x for x in r.out.split("\n") if not x.startswith("#")]
    r = m.run(root, args + ["--print-dep-graph"], beh, env=env(), pre=pre)
    out["graph"] = (r.rc, strip(r), re.findall(r"entries \((\d+) targets\)", r.err))
    r2 = m.run(root, args + ["--list-targets"], beh, env=env(), pre=pre)
    out["targets"] = (r2.rc, strip(r2))
    b = wl.delays(rng, mod.tasks(), beh, scale=rng.choice([0, 2000, 8000]))
    r3 = m.run(root, args, b, env=env(), pre=pre)
    out["exit"] = r3.rc
    out["argv"] = sorted(json.dumps(x.argv) for x in r3.runs)
    out["log"] = sorted((a, ok, path, up) for a, ok, path, up in r3.log)
    c.count("recipe_runs", len(r3.runs))
    if r.hang or r2.hang or r3.hang:
        out["hang"] = True
    out["order"] = [x.src for x in sorted(m.compiles(r3), key=lambda x: x.start)]
    return out


def body(c):
    m = Maike(c)
    orders = set()

    def case(i):
        rng = c.rng(i)
        p = proj.random_project(rng, rng.choice([4, 10, 20, 40]), {"override": 0.4, "project_recipe": 0.6, "get_tags": 1})
        mod = proj.Model(p, m.prefix + "/lib/maike2/recipes")
        if mod.error:
            raise Skip()
        fixed = ["--build-id=" + "%064x" % rng.getrandbits(256), f"--start-time={rng.randint(0, 2**31)}"]
        ref = None
        part = rng.random() < 0.4
        touched = sorted(rng.sample(sorted(p.files), min(len(p.files), 3)))
        for rep in range(4):
            root = c.dir("p")
            p.write(root, m.recipe)
            if part:
                # same partly out-of-date state every time
                m.run(root, fixed, p.beh())
                # (every time is set, those of directories too: nothing may depend on how quickly this run was done)
                for d, _, fs in os.walk(root, topdown=False):
                    for f in [os.path.join(d, f) for f in fs] + [d]:
                        os.utime(f, ns=(1_500_000_000 * 10**9,) * 2, follow_symlinks=False)
                # outputs of different depth need increasing stamps
                for k, n in enumerate(mod.topo_tasks()):
                    for t, _ in n.targets:
                        f = os.path.join(root, t)
                        if os.path.exists(f):
                            os.utime(f, ns=((1_600_000_000 + k) * 10**9,) * 2)
                for f in touched:
                    os.utime(os.path.join(root, f), ns=(1_600_100_000 * 10**9,) * 2)
            o = observe(c, m, root, rng, p, mod, fixed)
            shutil.rmtree(root, ignore_errors=True)
            if o.get("hang"):
                c.violation(f"does not terminate (case {i} rep {rep})", files=wl.files(p), config=p.config())
            orders.add((i, tuple(o.pop("order"))))
            if ref is None:
                ref = o
                if o["exit"] != 0 or o["graph"][0] != 0:
                    c.violation(f"valid project fails (case {i})", files=wl.files(p), config=p.config(), got=o)
                continue
            for k in ref:
                if ref[k] != o[k]:
                    a, b = ref[k], o[k]
                    if isinstance(a, list):
                        a, b = [x for x in a if x not in b][:3], [x for x in b if x not in a][:3]
                    c.violation(f"{k} differs between two runs on the same input (case {i} rep {rep}): {str(a)[:300]} / {str(b)[:300]}", files=wl.files(p), config=p.config(), ref=ref[k], got=o[k])
            c.evaluated((i, rep), len(mod.tasks()) > 3, {"tasks": len(mod.tasks()), "recipes": len(o["argv"]), "partly_built": part})
        c.extra["distinct_recipe_orders"] = len(orders)
    c.run_cases(case, range(100000), min_cases=16)


Check("C07", "random projects (partly built for some), each loaded and built 4 times in separate copies with different worker counts, CPU affinity, injected delays in maike and in the recipes, and shuffled directory "
      "listings; one evaluation compares graph, target list, exit status, log and all recipe argv of a repetition with the first one; non-trivial: more than 3 tasks", quick_s=14).main(body)
