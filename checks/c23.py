"""C23: command line options take effect independent of order, and bad ones are rejected."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl

OPTIONS = ["--config-default", "--configdump", "--configfiles", "--dump-database", "--list-external-deps", "--list-targets", "--print-dep-graph", "--print-dep-graph-inv", "--build-id",
           "--source-dir", "--start-time", "--target-dir", "--targets", "--log-level", "--log-output-format", "--dry-run", "--force-rebuild", "--num-workers", "--about", "--help", "--version"]
REQUIRED = ["--configfiles", "--build-id", "--source-dir", "--start-time", "--target-dir", "--targets", "--log-level", "--log-output-format", "--num-workers"]
FLAGS = ["--config-default", "--dry-run", "--force-rebuild"]
NAMES = ["f", "g h", "a=b", "=", "c,d", "b\\s", "é", "q'q", "-x", "--dry-run", "a,", ",", "x=y=z", "\\", "\\,", "$HOME", "*", "%s"]


def small_project(rng):
    p = proj.Project()
    ds = ["", rng.choice(["d", "d=e", "d,e"])]
    prev = []
    for k in range(rng.randint(2, 6)):
        d = rng.choice(ds)
        b = rng.choice(NAMES) + str(k)
        nm = b + rng.choice([".o", "", "=", "\\", ".p.q"])
        t = proj.Target(nm)
        s = proj.Src(os.path.join(d, f"s{k}.x"), proj.Tags([t]), style=rng.randint(0, 11))
        if prev and rng.random() < 0.5:
            s.tags.deps.append(proj.Dep(rng.choice(prev)))
        prev.append(os.path.join(d, nm))
        p.add(s)
    return p


def esc(rng, name):
    """list items: commas and backslashes have to be escaped, other characters may be"""
    out = ""
    for ch in name:
        if ch in ",\\" or (ord(ch) < 128 and rng.random() < 0.1):
            out += "\\"
        out += ch
    return out


def number(rng, v):
    """ways to write a number (as C does)"""
    a = abs(v)
    s = rng.choice([str(a), hex(a), "0" + oct(a)[2:] if a else "0", "0X" + format(a, "X")])
    return ("-" if v < 0 else rng.choice(["", "", "+"])) + s


class Case:
    pass


def good_options(rng, m, p, root, sd, td):
    """-> (args, what they mean)"""
    o = Case()
    o.args = []
    if sd is not None:
        o.args.append("--source-dir=" + sd)
    if td is not None:
        o.args.append("--target-dir=" + td)
    o.build_id = o.start_time = o.workers = None
    o.level, o.fmt, o.force, o.dry, o.want, o.k = "source_file_info", "plain_text", False, False, None, None
    if rng.random() < 0.5:
        o.build_id = "".join(rng.choice("0123456789abcdef") for _ in range(64))
        o.args.append("--build-id=" + rng.choice([o.build_id, o.build_id.upper(), "".join(rng.choice([ch, ch.upper()]) for ch in o.build_id)]))
    if rng.random() < 0.5:
        o.start_time = rng.choice([0, 1, -1, rng.randint(0, 2**31 - 1), rng.randint(2**31, 2**33 - 1), rng.randint(-2**33 + 1, 0), 9223372036, -9223372036, rng.randint(0, 255)])
        o.args.append("--start-time=" + number(rng, o.start_time))
    if rng.random() < 0.6:
        o.workers = rng.choice([1, 2, 3, 7, 8, 33, 100, "auto"])
        o.args.append(f"--num-workers={o.workers}")
    if rng.random() < 0.4:
        o.level = rng.choice(["errors", "source_file_info", "compilation_command"])
        o.args.append("--log-level=" + o.level)
    if rng.random() < 0.4:
        o.fmt = rng.choice(["plain_text", "ansi_term"])
        o.args.append("--log-output-format=" + o.fmt)
    if rng.random() < 0.3:
        o.force = True
        o.args.append("--force-rebuild" + rng.choice(["", "", "="]))
    if rng.random() < 0.2:
        o.dry = True
        o.args.append("--dry-run" + rng.choice(["", "", "="]))
    if rng.random() < 0.4:
        # the same configuration, and one that is merged to it, from files with odd names
        names = rng.choice([["alt.json"], ["a=b.json"], ["a,b.json", "c=\\.json"], ["x y.json", "--help"]])
        o.k = rng.randint(100, 999)
        cfg = p.config()
        if len(names) == 1:
            cfg["maikeconfig"]["source_file_info_loaders"]["x"]["compiler"]["config"]["k"] = o.k
            parts = [cfg]
        else:
            parts = [cfg, {"maikeconfig": {"source_file_info_loaders": {"x": {"compiler": {"config": {"k": o.k}}}}}}]
        for nm, part in zip(names, parts):
            with open(os.path.join(root, nm), "w") as f:
                json.dump(part, f)
        o.args.append("--configfiles=" + ",".join(esc(rng, nm) for nm in names))
    return o


def body(c):
    m = Maike(c)
    out = m.run(c.dir("x"), ["--num-workers=auto", "--config-default"])
    auto = re.search(r"with (\d+) workers", out.out)
    if not auto:
        raise RuntimeError("no header: " + out.out + out.err)
    auto = int(auto[1])
    hosts = set()

    def good(i):
        rng = c.rng("good", i)
        root = c.dir("g")
        p = small_project(rng)
        sd = rng.choice([None, None, ".", "./", "src", "s=rc", "a,b", "src/", "./src", "src/../src", "x/y"])
        td = rng.choice([None, None, "out", "t=t", "./o,p", "out/", "o\\p"])
        real = proj.norm(sd or ".")
        if td is not None and real == ".":
            td = td.replace("o", "__o").replace("t=", "__t=")     # what is below the source directory has to be filtered
        p.write(os.path.join(root, real), m.recipe)
        mod = proj.Model(p, m.prefix + "/lib/maike2/recipes", real, td)
        if mod.error:
            raise Skip()
        base = ([] if sd is None else ["--source-dir=" + sd]) + ([] if td is None else ["--target-dir=" + td])
        if rng.random() < 0.5:
            r = m.run(root, base, {})
            if r.rc != 0 or r.hang:
                c.violation(f"build with {base} fails with status {r.rc}", err=tail(r.err), files=wl.files(p))
            if rng.random() < 0.6:
                wl.disturb(rng, mod, root)
        o = good_options(rng, m, p, root, sd, td)
        only = None
        if rng.random() < 0.5:
            want = rng.sample(sorted(mod.owner), min(len(mod.owner), rng.randint(1, 3)))
            # (some are spelled in a roundabout way, which may be long)
            o.args.append("--targets=" + ",".join(("./" * rng.choice([1, 2, 30, 600, 2100, rng.randint(1, 20000)]) if rng.random() < 0.2 else "") + esc(rng, wl.rel_target(mod, t)) for t in want))
            only = set()
            for t in want:
                only |= mod.task_closure_of_target(t)
        rng.shuffle(o.args)
        exp, _ = mod.simulate(root, force=o.force, only=only)
        before = wl.snapshot(root)
        t0 = int(time.time())
        r = m.run(root, o.args, {})
        r = wl.retry_hang(c, m, root, o.args, {}, r)
        t1 = int(time.time()) + 1
        data = dict(args=o.args, files=wl.files(p), config=p.config(), err=tail(r.err), out=tail(r.out))
        if r.hang or r.rc != 0:
            c.violation(f"valid options {o.args} are rejected or fail: status {r.rc}", **data)
        got = set(wl.run_sets(m, r))
        if o.dry:
            after = wl.snapshot(root)
            if m.compiles(r):
                c.violation(f"recipes are run although --dry-run is among {o.args}", **data)
            if after != before:
                c.violation(f"files change although --dry-run is among {o.args}", **data)
        elif got != exp:
            c.violation(f"options {o.args}: recipes of {sorted(got - exp)} are run although they should not be, those of {sorted(exp - got)} are not although they should", **data)
        n = re.search(r"with (\d+) workers", r.out)
        if not n or int(n[1]) != (auto if o.workers in (None, "auto") else o.workers):
            c.violation(f"options {o.args}: {n and n[1]} workers", **data)
        ids = set()
        for x in m.compiles(r):
            bi = x.arg["build_info"]
            if proj.norm(bi["source_dir"]) != mod.sd or proj.norm(bi["target_dir"]) != mod.td:
                c.violation(f"options {o.args}: source directory {bi['source_dir']!r} and target directory {bi['target_dir']!r} instead of {mod.sd!r} and {mod.td!r}", **data)
            if o.start_time is not None and bi["start_time"] != o.start_time:
                c.violation(f"options {o.args}: start time is {bi['start_time']} instead of {o.start_time}", **data)
            if o.start_time is None and not t0 - 1 <= bi["start_time"] <= t1:
                c.violation(f"options {o.args}: start time is {bi['start_time']}, but it was between {t0} and {t1}", **data)
            if o.build_id is not None and bi["build_id"] != o.build_id:
                c.violation(f"options {o.args}: build id is {bi['build_id']} instead of {o.build_id}", **data)
            if not re.fullmatch("[0-9a-f]{64}", bi["build_id"]):
                c.violation(f"options {o.args}: build id is {bi['build_id']}", **data)
            ids.add(bi["build_id"])
            if x.arg["log_format"] != o.fmt:
                c.violation(f"options {o.args}: log format is {x.arg['log_format']}", **data)
            if x.src in mod.nodes and not mod.nodes[x.src].is_dir and x.arg["compiler_cfg"].get("k") != (o.k or 1):
                c.violation(f"options {o.args}: compiler configuration is {x.arg['compiler_cfg']}, with k = {o.k or 1} in the configuration files", **data)
            c.count("recipe_arguments_examined")
        if len(ids) > 1:
            c.violation(f"options {o.args}: several build ids {ids}", **data)
        if o.build_id is None and ids:
            with c.lock:
                again = ids & hosts
                hosts.update(ids)
            if again:
                c.violation(f"build id {again} is used by two builds", **data)
        # the log level
        cmds = sum(1 for ln in r.out.split("\n") if re.match(r"^'.* # \d+ \| ", ln))
        lines = len(r.log) + cmds
        tasks = len(exp) if o.dry else len(r.log) or cmds
        if o.level == "errors" and lines or o.level == "source_file_info" and cmds or o.level == "compilation_command" and r.log:
            c.violation(f"options {o.args}: log has {len(r.log)} entries and {cmds} command lines", **data)
        if o.level != "errors" and exp and not lines:
            c.violation(f"options {o.args}: log is empty", **data)
        c.count("option_sets_good")
        c.evaluated(tuple(sorted(a.split("=")[0] for a in o.args)) + (o.args[:1] and o.args[0].split("=")[0],), bool(o.args), sample=o.args)
        shutil.rmtree(root, ignore_errors=True)

    def bad_option(rng):
        k = rng.randint(0, 9)
        if k == 0:
            return rng.choice(["--nothing", "-h", "--", "-", "x", "=x", "=", "--Help", "--HELP", "help", "?", "--target", "--log", "--list", " --dry-run", "--dry-run ", "--source_dir=x", "make", "all", "a.o", "--zzz=1",
                               "--aaaa", "\xff", "é"])
        if k == 1:      # shortened, lengthened or changed names
            nm = rng.choice(OPTIONS)
            q = rng.randint(0, 3)
            j = rng.randint(2, len(nm) - 1)
            bad = nm[:j] if q == 0 else nm + rng.choice("sx-_ 1") if q == 1 else nm[:j] + rng.choice("qzXQ") + nm[j + 1:] if q == 2 else nm[:j] + nm[j + 1:]
            if bad in OPTIONS:
                bad = "--bad"
            return bad + rng.choice(["", "=1", "=x"])
        if k in (2, 3):
            return rng.choice(REQUIRED) + rng.choice(["", "="])
        if k == 4:
            return rng.choice(FLAGS) + "=" + rng.choice(["1", "yes", "true", "false", "0", " ", "=", ","])
        if k == 5:
            return "--num-workers=" + rng.choice(["0", "-1", "3x", "x", " ", "1.5", "1e2", "99999999999999999999999", "-99999999999999999999999", "4294967296", "18446744073709551616", "18446744073709551617", "Auto", "auto1", "aut", "1,2", "+", "-", "0x", "2 3", "١"])
        if k == 6:
            n = rng.choice([0, 1, 2, 32, 62, 63, 65, 66, 128])
            good = "".join(rng.choice("0123456789abcdef") for _ in range(64))
            j = rng.randint(0, 63)
            return "--build-id=" + rng.choice(["x" if n == 0 else good[:n] if n <= 64 else good + good[:n - 64], good[:j] + rng.choice("gz -.=\xe9") + good[j + 1:], "0x" + good[2:], good[:-1] + "h", " " + good[1:]])
        if k == 7:
            return "--start-time=" + rng.choice(["x", "1x", "x1", "1.5", "2020-01-01", "now", "1 2", "99999999999999999999", "-99999999999999999999", "9223372037", "-9223372038", "9223372036854775807", "-9223372036854775808", "0x", "08", "09", "1e3", "--1", "1-", "+", "-", "18446744073709551616", "0x1ffffffffffffffffff"])
        if k == 8:
            return "--log-level=" + rng.choice(["x", "error", "Errors", "errors ", "errors,x", "source_file_inf", "source_file_infos", "compilation-command", "1", "0", "ERRORS"])
        return "--log-output-format=" + rng.choice(["x", "plain", "plain-text", "PLAIN_TEXT", "ansi", "ansi_terminal", "ansi_term ", "0", "plain_text,ansi_term"])

    bad_root = {}

    def short(b):
        return repr(b if len(b) <= 100 else b[:60] + f"... ({len(b)} characters)")

    def bad(i):
        rng = c.rng("bad", i)
        # threads have a project of their own, which is used again and again: nothing may ever change in it
        tid = threading.get_ident()
        if tid not in bad_root:
            p = proj.Project()
            for k in range(4):
                p.add(proj.Src(f"f{k}.x", proj.Tags([proj.Target(f"f{k}.o")])))
            root = c.dir("b")
            p.write(root, m.recipe)
            bad_root[tid] = (p, root, wl.snapshot(root))
        p, root, before = bad_root[tid]
        good = []
        if rng.random() < 0.5:
            good.append(f"--num-workers={rng.randint(1, 4)}")
        if rng.random() < 0.4:
            good.append("--targets=f1.o")
        if rng.random() < 0.3:
            good.append(rng.choice(["--dry-run", "--force-rebuild", "--log-level=errors", "--source-dir=.", "--target-dir=out", "--list-targets", "--help", "--version", "--about", "--configdump", "--print-dep-graph"]))
        b = bad_option(rng)
        if rng.random() < 0.1:
            n = rng.choice([250, 1000, 4090, 5000, 20000, 100000])
            b = rng.choice([b + "z" * n if not b.startswith(("--configfiles", "--source-dir", "--target-dir", "--targets")) else b, "--num-workers=" + "9" * n, "--start-time=" + "1" * n, "--build-id=" + "a" * n,
                            "-" * n, "--" + "x" * n + "=1", "--log-level=" + "errors" * (n // 6)])
        good = [g for g in good if g.split("=")[0] != b.split("=")[0]]
        good.insert(rng.randint(0, len(good)), b)
        r = m.run(root, good, {})
        r = wl.retry_hang(c, m, root, good, {}, r)
        data = dict(args=good, err=tail(r.err), out=tail(r.out), rc=r.rc)
        after = wl.snapshot(root)
        if r.hang:
            c.violation(f"bad option {short(b)} makes maike hang", **data)
        if r.rc <= 0:
            c.violation(f"bad option {short(b)} is not an error: status {r.rc}", **data)
        if not r.err.strip():
            c.violation(f"bad option {short(b)} is rejected without a message", **data)
        if r.events or "# Loaded source tree" in r.err or "# Build job" in r.out:
            c.violation(f"bad option {short(b)}: the source tree is loaded or recipes are run", **data)
        if after != before:
            c.violation(f"bad option {short(b)}: files are changed", **data)
        c.count("bad_" + (b.split("=")[0] if b.split("=")[0] in OPTIONS else "unknown"))
        c.evaluated(("bad", b, len(good)), True, sample=good if rng.random() < 0.05 else None)

    def info(i):
        rng = c.rng("info", i)
        root = c.dir("i")
        p = small_project(rng)
        p.write(root, m.recipe)
        mod = proj.Model(p, m.prefix + "/lib/maike2/recipes")
        if mod.error:
            raise Skip()
        what = rng.choice(["--help", "--version", "--about", "--list-targets", "--print-dep-graph", "--configdump"])
        args = [what] + rng.sample(["--num-workers=2", "--force-rebuild", "--log-level=compilation_command", "--start-time=5", "--targets=nothere", "--log-output-format=ansi_term"], rng.randint(0, 4))
        rng.shuffle(args)
        before = wl.snapshot(root)
        r = m.run(root, args, {})
        r = wl.retry_hang(c, m, root, args, {}, r)
        data = dict(args=args, err=tail(r.err), out=tail(r.out, 6000), rc=r.rc, files=wl.files(p))
        if r.hang or r.rc != 0:
            c.violation(f"{args} fails with status {r.rc}", **data)
        if m.compiles(r) or wl.snapshot(root) != before:
            c.violation(f"{args} runs recipes or changes files", **data)
        if what == "--help":
            for o in OPTIONS:
                if not re.search(r"(?m)^" + re.escape(o) + (r"=\*" if o in REQUIRED else r"$" if o in FLAGS else r"\[=\*"), r.out):
                    c.violation(f"{o} is not described by --help as an option that " + ("requires a value" if o in REQUIRED else "takes none" if o in FLAGS else "takes an optional value"), **data)
        elif what == "--list-targets":
            have = [ln for ln in r.out.split("\n") if ln and not ln.startswith("#")]
            want = {wl.rel_target(mod, t) for t in mod.owner}
            if {proj.norm(h) for h in have} != want or len(have) != len(want):
                c.violation(f"--list-targets prints {sorted(have)} instead of {sorted(want)}", **data)
        elif what == "--print-dep-graph":
            if "digraph" not in r.out:
                c.violation("--print-dep-graph prints no graph", **data)
        elif what == "--configdump":
            try:
                json.loads(r.out)
            except ValueError:
                c.violation("--configdump prints no JSON", **data)
        elif len(r.out) < 20:
            c.violation(f"{what} prints nothing", **data)
        c.count("info" + what)
        c.evaluated(tuple(args), True)
        shutil.rmtree(root, ignore_errors=True)

    c.run_cases(lambda i: (good, bad, good, bad, good, bad, bad, info)[i % 8](i), range(10**6), min_cases=48)


Check("C23", "random subsets and orders of valid options, with escaped and otherwise odd values, whose effects are read from the recipes' arguments, the log, the set of recipes run and the files changed; bad options among valid ones; options that only print. "
      "Distinct by the set of options and the first one, or by the bad option", quick_s=9).main(body)
