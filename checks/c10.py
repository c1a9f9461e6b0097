"""C10: child processes get and deliver every byte, and leave nothing behind."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl


def body(c):
    child = build.recipe_tool("vpchild", ())
    exe = {v: build.harness("execmon", v, jitter=(v != "plain")) for v in ("plain", "asan", "tsan")}

    def case(i):
        rng = c.rng(i)
        variant = ["plain", "plain", "tsan", "asan"][i % 4]
        mode = rng.choice(["normal", "normal", "normal", "nostdin", "ignored"] + (["lowfds"] if variant != "asan" else []))
        d = c.dir("x")
        env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
        env.update({"VPX_EMPTY": "", "VPX_TEXT": "é = \n\t'\"\\ =", "VPX_LONG": "v" * rng.choice([1, 5000, 100000])})
        env.update(wl.jitter(rng))
        if variant != "plain":
            env.pop("LD_PRELOAD", None)     # (linked into these)
        env["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=1"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=78:print_stacktrace=1"
        env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0"
        threads = rng.choice([1, 2, 8, 24])
        calls = max(4, (160 if variant == "plain" else 60) // threads)
        cmd = [exe[variant], child, d, str(rng.randint(1, 10**6)), str(threads), str(calls), mode] + (["nofds"] if variant == "asan" else [])
        h = run_harness(c, cmd, env, 120)
        shutil.rmtree(d, ignore_errors=True)
        data = dict(cmd=cmd, variant=variant, out=tail(h.out), err=tail(h.err, 4000), jitter=env.get("VP_JITTER"))
        if h.hang:
            c.violation(f"running child processes does not end ({variant}, {mode}, {threads} threads)", **data)
        if h.v:
            c.violation(f"{h.v[0]} ({variant}, {mode}, {threads} threads)", **data)
        if h.rc:
            c.violation(f"monitor ended with status {h.rc} ({variant}, {mode}): {tail(h.err, 400)}", **data)
        st = h.stat
        for k, n in st.items():
            if k == "peak":
                with c.lock:
                    c.counts["max_concurrent_children"] = max(c.counts["max_concurrent_children"], int(n))
            else:
                c.count(k, int(n))
        c.count("programs_" + variant)
        c.count("programs_" + mode)
        n = int(st["calls"]) + int(st["launch_failures"]) + int(st["out_of_descriptors"])
        for k in range(n):
            c.evaluated((i, k), True)
        if len(c.samples) < 4:
            c.samples.append({"variant": variant, "mode": mode, "threads": threads, **st})

    # the same through maike2: a recipe that reads its input, and one in a process without standard input
    m = Maike(c)

    def whole(i):
        rng = c.rng("m", i)
        p, mod, root = wl.make_case(c, m, rng, rng.choice([5, 15]))
        beh = p.beh()
        beh["*"] = {"read_stdin": 1, "fds": 1}
        pre = rng.choice([(), (), ("sh", "-c", 'exec "$@" <&-', "sh"), ("sh", "-c", 'yes | exec "$@"', "sh"), *(("sh", "-c", 'exec "$@" ' + x, "sh") for x in (">&-", "2>&-", "<&- >&- 2>&-", "<&- 2>&-"))])
        r = m.run(root, [f"--num-workers={rng.choice([1, 8, 16])}"], beh, pre=pre)
        r = wl.retry_hang(c, m, root, r.args, beh, r)
        wl.expect_ok(c, r, p, i)
        for x in r.runs:
            if x.fds is not None and x.fds != [0, 1, 2]:
                c.violation(f"a recipe is started with descriptors {x.fds} (case {i})", args=r.args)
            c.evaluated(("m", i, x.src), True)
            c.count("recipes_with_descriptor_check", x.fds is not None)
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(lambda i: whole(i) if i % 3 == 2 else case(i - i // 3), range(10**6), min_cases=16, jobs=4)


Check("C10", "calls of Exec::execve from 1 to 24 threads under injected delays, ASan/UBSan and TSan, with random arguments, input sizes around the pipe and buffer limits, and children that read, write, close and die in nine ways; programs that cannot be started; "
      "exhausted descriptors; closed standard streams; ignored signals. One evaluation is one call whose arguments, environment, input, output, status, ignored signals and descriptors (in the child and afterwards) were compared", quick_s=10).main(body)
