"""C01: recipes start only after everything they depend on is finished."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        p, mod, root = wl.make_case(c, m, rng, size=rng.choice([4, 8, 14, 25, 45]), features={"always": 0.1})
        for step in range(3):
            tasks = mod.tasks()
            beh = wl.delays(rng, tasks, base=p.beh())
            args = [f"--num-workers={rng.choice([1, 2, 3, 4, 8, 16, 40])}"]
            only = None
            if step and rng.random() < 0.5:
                args.append("--force-rebuild")
            if rng.random() < 0.3:
                t = rng.choice(sorted(mod.owner))
                args.append("--targets=" + wl.arg_list([wl.rel_target(mod, t)]))
            if step and rng.random() < 0.6:
                wl.disturb(rng, mod, root)
            env = wl.jitter(rng)
            r = m.run(root, args, beh, env=env)
            r = wl.retry_hang(c, m, root, args, beh, r, env=env)
            wl.expect_ok(c, r, p, i)
            wl.check_order(c, m, mod, r, f"case {i} step {step} args {args}", beh)
    c.run_cases(case, range(100000), min_cases=20)


Check("C01", "random projects (all loader kinds, project recipes, generated headers, extra and link dependencies) built with "
      "random worker counts, recipe delays, partial and forced rebuilds; every (predecessor, successor) pair of recipe runs in one build is one "
      "evaluation, distinct = distinct (edge in the transitive closure, project) pairs that were observed", quick_s=12).main(body)
