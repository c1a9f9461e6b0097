"""C18: no input makes maike crash, leak or run into undefined behaviour."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl, hostile, cxxgen

SAN = re.compile(r"AddressSanitizer|LeakSanitizer|runtime error:|UndefinedBehaviorSanitizer|terminate called|Assertion `|ThreadSanitizer")


def body(c):
    m = Maike(c, "asan")
    mp = Maike(c, "plain")
    os.chmod(c.scratch, 0o755)
    # maike may be asked to write anywhere: it is run as a user who can only write to what belongs to the case
    nobody = ["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "--no-new-privs"]
    if subprocess.run([*nobody, "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        nobody = ["unshare", "-r", "setpriv", "--no-new-privs"]
        if subprocess.run([*nobody, "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            raise RuntimeError("cannot run programs without privileges")
        c.count("contained_by_namespace")

    def judge(r, what, data):
        if r.hang:
            c.violation(f"maike hangs: {what}", **data)
        if r.rc < 0 or SAN.search(r.err) or r.rc in (66, 77, 78, 79):
            hit = SAN.search(r.err)
            at = r.err[max(0, hit.start() - 200):hit.start() + 600] if hit else r.err[-400:]
            c.violation(f"maike crashes, leaks or has undefined behaviour (status {r.rc}): {what}: {at}", **data)
        if r.rc not in (0, 255):
            c.violation(f"maike ends with status {r.rc}: {what}", **data)
        if r.rc and not r.err.strip():
            c.violation(f"maike fails without a message: {what}", **data)

    def give(root):
        for d, dirs, fs in os.walk(root):
            os.lchown(d, 65534, 65534)
            for f in fs:
                os.lchown(os.path.join(d, f), 65534, 65534)

    def run(mm, root, args, beh, env=None, pre=None, timeout=None):
        pre = nobody if pre is None else pre
        aux = c.dir("t")
        os.chmod(aux, 0o777)
        e = {"VP_TRACE": "", "TMPDIR": aux, **(env or {})}
        r = mm.run(root, args, beh, env=e, pre=pre, timeout=timeout)
        if "LeakSanitizer has encountered a fatal error" in r.err:
            # (not allowed to trace processes here)
            c.count("runs_without_leak_detection")
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1"
            r = mm.run(root, args, beh, env=e, pre=pre, timeout=timeout)
        if r.hang:
            c.count("slow_runs_repeated")
            r = mm.run(root, args, beh, env=e, pre=pre, timeout=300)
        shutil.rmtree(aux, ignore_errors=True)
        return r

    base_args = [["--dry-run"], [], ["--list-targets"], ["--print-dep-graph"], ["--force-rebuild"], ["--configdump"], ["--log-level=compilation_command"], ["--targets=f0.o"]]

    def case(i):
        rng = c.rng(i)
        size = rng.choice([2, 4, 8])
        p = proj.random_project(rng, size, {"project_recipe": 0.2, "self": 0})
        for ext in (".s",):
            p.loaders.pop(ext, None)
        root = c.dir("p")
        p.write(root, m.recipe)
        os.chmod(root, 0o755)
        kind = rng.choice(["bytes", "bytes", "tags", "tags", "config", "config", "configbytes", "recipe", "recipe", "cmdline", "files", "cxx", "cxx", "mixed"])
        if i % 13 in (4, 10):
            kind = "cmdline"
        todo = [kind] if kind != "mixed" else rng.sample(["bytes", "tags", "config", "recipe", "cmdline", "files"], 3)
        what = []
        beh = dict(p.beh())
        args = [f"--num-workers={rng.choice([1, 2, 4])}"] + list(rng.choice(base_args))
        env = {}
        srcs = sorted(p.files)
        for kd in todo:
            if kd == "bytes" and srcs:
                for f in rng.sample(srcs, min(len(srcs), rng.choice([1, 1, 2]))):
                    q = os.path.join(root, f)
                    if not os.path.isfile(q) or os.path.getsize(q) > 20000:
                        continue
                    with open(q, "rb") as fh:
                        b = fh.read()
                    b = hostile.bytes_mutate(rng, b)
                    with open(q, "wb") as fh:
                        fh.write(b)
                    what.append((f, b[:3000]))
            elif kd == "tags" and srcs:
                for f in rng.sample(srcs, min(len(srcs), rng.choice([1, 1, 3]))):
                    ext = p.ext_of(f)
                    if ext is None or p.loaders[ext][1] == "generic":
                        continue
                    js = hostile.json_mutate(rng, p.files[f].tags.json() or {"targets": [{"name": "z"}]})
                    txt = json.dumps(js, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1]))
                    pre = proj.TAG_PREFIX.get(p.loaders[ext][1], "")
                    with open(os.path.join(root, f), "w", errors="surrogatepass") as fh:
                        fh.write("\n".join(pre + ln for ln in txt.split("\n")) + "\n" + (f'#include "{rng.choice(srcs)}"\n' if rng.random() < 0.3 else ""))
                    what.append((f, txt[:3000]))
            elif kd == "config":
                cfg = hostile.json_mutate(rng, p.config())
                if rng.random() < 0.3:
                    names = ["a.json", "b.json"]
                    for nm in names:
                        with open(os.path.join(root, nm), "w") as fh:
                            json.dump(hostile.json_mutate(rng, p.config()) if nm != "a.json" or rng.random() < 0.5 else p.config(), fh)
                    args.append("--configfiles=" + ",".join(names))
                with open(os.path.join(root, "maikeconfig.json"), "w", errors="surrogatepass") as fh:
                    json.dump(cfg, fh)
                what.append(("config", json.dumps(cfg)[:6000]))
            elif kd == "configbytes":
                q = os.path.join(root, "maikeconfig.json")
                with open(q, "rb") as fh:
                    b = hostile.bytes_mutate(rng, fh.read())
                with open(q, "wb") as fh:
                    fh.write(b)
                what.append(("config", b[:6000]))
            elif kd == "recipe":
                for act in rng.sample(["configure", "get_tags", "compile"], rng.choice([1, 1, 2])):
                    b = {}
                    q = rng.randint(0, 5)
                    if q <= 2:
                        js = hostile.json_mutate(rng, rng.choice([{"k": 1, "o": {"p": "q"}}, {"targets": [{"name": "z.o", "dependencies": [{"ref": "./f0.o"}]}], "dependencies": [{"ref": "./y", "origin": "project"}]}]))
                        b["stdout"] = json.dumps(js)
                        if q == 2:
                            b["stdout"] = hostile.bytes_mutate(rng, b["stdout"].encode()).decode("utf-8", "replace").replace("\0", "\x01")
                    elif q == 3:
                        b["out_n"], b["err_n"] = rng.choice([0, 1, 100000]), rng.choice([0, 1, 100000])
                    elif q == 4:
                        b["signal"] = rng.choice([9, 11, 6, 15, 13])
                    else:
                        b["exit"] = rng.choice([1, 2, 126, 127, 255])
                    b["stderr"] = rng.choice(["", "x", "%s%s%n\n"])
                    for key in [k for k in beh if k.startswith(act + ":")]:
                        del beh[key]
                    beh[act + ":*"] = b
                    what.append((act, b))
            elif kd == "cmdline":
                if i % 13 in (4, 10):     # a very long value of each option in turn
                    o = ["--targets=", "--configfiles=", "--log-level=", "--source-dir=", "--target-dir=", "--targets=", "--num-workers=", "--build-id=", "--start-time=", "--log-output-format="][(i // 13 * 2 + (i % 13 == 10)) % 10]
                    args.append(o + rng.choice(["A" * 70000, "./" * rng.randint(9000, 30000) + "f0.o", "," * rng.randint(2000, 9000), "a\\," * 20000, "a," * 9000 + "b" * 9000, "1" * 70000, "errors," * 5000, "\\" * 9001]))
                for _ in range(rng.randint(0 if i % 13 in (4, 10) else 1, 4)):
                    o = rng.choice(["--num-workers=", "--targets=", "--build-id=", "--start-time=", "--log-level=", "--log-output-format=", "--source-dir=", "--target-dir=", "--configfiles=", "--dry-run", "--help", "--version", "--about", "--nothing", "", "=", "-", "--", "--configdump",
                                    "--print-dep-graph", "--list-targets", "--list-external-deps", "--dump-database", "--print-dep-graph-inv", "--config-default"])
                    v = rng.choice(["", "x", "1", "-1", "0", "auto", "99999999999999999999", "a,b\\,c\\\\,", ",,,", "\\", ".", "..", "./", "/", "//", "nothere", "f0.o", "f0.x", "A" * rng.choice([200, 1025, 5000, 70000]), "./" * rng.randint(1, 30000) + "f0.o", "," * rng.randint(1, 3000), "\\\\" * rng.randint(1, 9000), "ab" * 32, "\xff\xfe", "%s%n", "a=b=c", "/dev/null", "maikeconfig.json", "maikeconfig.json,maikeconfig.json", "\n", "*", "0x7fffffffffffffff", "9223372036", "-9223372037", "errors", "plain_text", "é"])
                    if o in ("--source-dir=",) and v in ("..", "/", "//"):
                        v = "."      # (would scan everything)
                    if o == "--num-workers=" and v.isdigit() and int(v) > 64:
                        v = "64"
                    args.append(o + v if o.endswith("=") else o + rng.choice(["", "", "=" + v]))
                args = [a for a in args if "\0" not in a]
                rng.shuffle(args)
                what.append(("args", args))
            elif kd == "files":
                q = rng.randint(0, 7)
                names = ["z.x", "z.cpp", "z.app", "z.test.cpp", "z.hpp", "z.rule", "z.g", "z", "z.x.x", ".x", "x.", "..x"]
                nm = rng.choice(names)
                z = os.path.join(root, nm)
                if os.path.lexists(z):
                    continue
                if q == 0:
                    os.symlink(nm, z)                     # loop
                elif q == 1:
                    os.symlink("nothere", z)
                elif q == 2:
                    os.mkdir(z)
                elif q == 3:
                    open(z, "w").close()
                    os.chmod(z, 0)
                elif q == 4:
                    os.symlink(".", z)                    # a directory that contains itself
                elif q == 5:
                    with open(os.path.join(root, "__targets"), "w") as fh:
                        fh.write("a file")
                elif q == 6:
                    open(z, "w").close()
                    n = z + "n" * 200 + ".x"
                    open(n, "w").close()
                else:
                    os.makedirs(os.path.join(root, "__targets", nm))
                    os.chmod(os.path.join(root, "__targets"), 0o555)
                what.append(("files", q, nm))
            elif kd == "cxx":
                f = "q.cpp"
                txt = cxxgen.Gen(rng).source(rng.choice([3, 20]))
                txt = txt[0] if isinstance(txt, tuple) else txt
                b = hostile.bytes_mutate(rng, txt.encode("utf-8", "surrogateescape"))
                if rng.random() < 0.5:
                    # includes of any length, and patterns that match them in many ways
                    cfg = p.config()
                    for ld in cfg["maikeconfig"]["source_file_info_loaders"].values():
                        if ld["loader"] == "cxx_src_loader":
                            ld.setdefault("config", {})["generated_includes"] = rng.sample(["\\.gen\\.hpp$", "^.*\\.gen$", "a*b*c*", "\\(a\\|b\\)*x", ".*/.*/.*", "^[^/]*$", ""], rng.randint(1, 3))
                    with open(os.path.join(root, "maikeconfig.json"), "w") as fh:
                        json.dump(cfg, fh)
                    n = rng.choice([1, 255, 4095, 4096, 5000, 60000, 300000])
                    b += b'\n#include "%s"\n' % (rng.choice([b"a", b"a/", b"./", b"../", b"ab", b"\xff"]) * n)[:n]
                    what.append(("config", json.dumps(cfg)[:3000], n))
                with open(os.path.join(root, f), "wb") as fh:
                    fh.write(b)
                what.append((f, b[:3000]))
        give(root)
        if rng.random() < 0.5:
            beh["*"] = {"no_write": 1}
        beh = {k: v for k, v in beh.items()}
        r = run(m, root, args, beh, env=env)
        data = dict(args=args, changed=what, files=wl.files(p), config=p.config(), err=tail(r.err, 6000), rc=r.rc)
        judge(r, f"{kind} {args} case {i}: {repr(what)[:400]}", data)
        c.count("status_" + ("0" if r.rc == 0 else "error"))
        c.count("kind_" + kind)
        msg = re.sub(r"[0-9a-f]{8,}|\d+|/tmp/\S+", "#", r.err.strip().split("\n")[-1])[:60] if r.rc else "ok"
        c.evaluated((i, kind), True)
        with c.lock:
            c.extra.setdefault("_msgs", set()).add(msg)
        if rng.random() < 0.02 and len(c.samples) < 4:
            c.samples.append({"kind": kind, "changed": repr(what)[:300], "status": r.rc, "message": msg})
        shutil.rmtree(root, ignore_errors=True)

    # resources: address space, processes and file descriptors run out
    def limits(i):
        rng = c.rng("limit", i)
        p = proj.random_project(rng, 5, {"self": 0})
        root = c.dir("l")
        p.write(root, mp.recipe)
        os.chmod(root, 0o755)
        give(root)
        k = rng.randint(0, 2)
        if k == 0:
            pre = ["prlimit", f"--as={rng.choice([60, 100, 150, 200, 300, 500]) * 1000000}"]
            n = rng.choice([8, 30, 64])
        elif k == 1:
            pre = ["prlimit", f"--nofile={rng.randint(3, 40)}"]
            n = rng.choice([1, 4, 16])
        else:
            pre = ["prlimit", f"--nproc={rng.randint(1, 60)}"]
            n = rng.choice([1, 4, 16])
        args = [f"--num-workers={n}"]
        # (what cannot be started, opened or allocated makes maike fail; none of it may crash or hang it)
        r = run(mp, root, args, {}, pre=[*nobody, *pre])
        data = dict(args=args, limit=pre, err=tail(r.err, 3000), rc=r.rc, files=wl.files(p), config=p.config())
        if "error while loading shared libraries" in r.err or r.rc in (126, 127) or "prlimit:" in r.err:
            raise Skip()
        if r.hang:
            c.violation(f"maike hangs with {pre} {args}", **data)
        if r.rc < 0:
            c.violation(f"maike is killed by signal {-r.rc} with {pre} {args}: {tail(r.err, 300)}", **data)
        if r.rc and not r.err.strip():
            c.violation(f"maike fails without a message with {pre} {args}", **data)
        c.count("limited_runs")
        c.count("limited_runs_failed", r.rc != 0)
        c.evaluated(("limit", i), True)
        shutil.rmtree(root, ignore_errors=True)

    # a long chain of dependencies, with a small stack: nothing may depend on the depth of the graph
    def chain(i):
        rng = c.rng("chain", i)
        n = 8000 if c.quick else 20000
        root = c.dir("d")
        os.makedirs(root, exist_ok=True)
        # (whichever order files are looked at, there is a long way ahead from some of the first)
        order = list(range(n))
        if rng.random() < 0.2:
            order.reverse()
        for a, b in zip(order, order[1:] + [None]):
            with open(os.path.join(root, f"n{a:05}.x"), "w") as f:
                f.write("//@ " + json.dumps({"targets": [{"name": f"n{a:05}.o", "type": "object"}] if a == order[0] else [], "dependencies": [{"ref": f"./n{b:05}.x", "origin": "project"}] if b is not None else []}) + "\n")
        with open(os.path.join(root, "maikeconfig.json"), "w") as f:
            json.dump({"maikeconfig": {
                "source_tree_loader": {"recursive": 1, "input_filter": ["^\\.", "^__"], "fullpath_input_filter": ["^__"], "file_info_loaders": {".x": "x"}},
                "source_file_info_loaders": {"x": {"loader": "cxx_src_loader", "compiler": {"recipe": "rec.sh", "config": {}}}},
                "dir_compiler": {"recipe": "rec.sh", "config": {}}}}, f)
        with open(os.path.join(root, "rec.sh"), "w") as f:
            f.write("#!/bin/sh\nexit 0\n")
        os.chmod(os.path.join(root, "rec.sh"), 0o755)
        os.chmod(root, 0o755)
        give(root)
        args = [*rng.choice([["--print-dep-graph"], ["--dry-run"], ["--dry-run"], [f"--targets=n{order[0]:05}.o", "--dry-run"]]), f"--num-workers={rng.choice([1, 4])}"]
        pre = ["prlimit", f"--stack={rng.choice([512, 1024]) * 1024}"]
        r = run(mp, root, args, {}, pre=[*nobody, *pre], timeout=120)
        data = dict(args=args, limit=pre, length=n, err=tail(r.err, 3000), rc=r.rc)
        if r.rc in (126, 127) or "prlimit:" in r.err:
            raise Skip()
        if r.hang or r.rc:
            c.violation(f"a chain of {n} files, with {pre} and {args}: status {r.rc}, {tail(r.err, 300)}", **data)
        c.count("long_chains")
        c.evaluated(("chain", i), True)
        shutil.rmtree(root, ignore_errors=True)

    # coverage-guided: the parsers alone
    def corpus(d):
        rng = c.rng("corpus")
        sel = {"cxx_src_loader": 0, "extension": 2, "app": 3, "lib": 4, "maikerule": 5, "generic": 6}
        n = 0
        for k in range(12):
            p = proj.random_project(rng, 6)
            for f, s in p.files.items():
                ext = p.ext_of(f)
                if ext is None:
                    continue
                b = p.render(s, "/bin/true").encode("utf-8", "surrogateescape")[:3000]
                if rng.random() < 0.4:
                    b = hostile.bytes_mutate(rng, b)[:4000]
                with open(f"{d}/{n}", "wb") as fh:
                    fh.write(bytes([sel[p.loaders[ext][1]], rng.randint(0, 3)]) + b)
                n += 1
            cfg = json.dumps(p.config() if k % 2 else hostile.json_mutate(rng, p.config())).encode("utf-8", "replace")
            tags = json.dumps(hostile.json_mutate(rng, {"targets": [{"name": "x", "dependencies": [{"ref": "./y", "rel": "z"}]}], "compiler": {"recipe": "r", "config": {"a": [1]}}})).encode("utf-8", "replace")
            txt = cxxgen.Gen(rng).source(6)
            txt = (txt[0] if isinstance(txt, tuple) else txt).encode("utf-8", "surrogateescape")
            for b in (bytes([7, 0]) + cfg, bytes([9, 0]) + tags + b"\0" + tags, bytes([0, 0]) + txt[:3000], bytes([1, 1]) + hostile.bytes_mutate(rng, txt)[:3000]):
                with open(f"{d}/{n}", "wb") as fh:
                    fh.write(b)
                n += 1
        for b in (b"12", b"auto", b"-5", b"0x123", b"a,b\\,c", b"0" * 64, b"ab" * 32):
            for pad in range(4):
                with open(f"{d}/{n}", "wb") as fh:
                    fh.write(bytes([10, 0]) + b + b"0" * pad)
                n += 1
        with open(d + "/../dict", "wb") as fh:
            for k, t in enumerate(hostile.CHUNKS):
                if 0 < len(t) < 60:
                    fh.write(b't%d="' % k + b"".join(b"\\x%02x" % x for x in t) + b'"\n')

    procs = []
    try:
        fz = build.harness("fuzzmon", "fuzz")
    except build.BuildError as e:
        c.count("fuzz_not_available")
        c.extra["fuzz_build"] = str(e)[-500:]
        fz = None
    if fz:
        fd = c.dir("fuzz")
        os.makedirs(fd + "/seeds")
        corpus(fd + "/seeds")
        for k in range(2 if c.quick else 4):
            w = f"{fd}/w{k}"
            os.makedirs(w + "/corpus")
            env = san_env()
            env["ASAN_OPTIONS"] = "detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1"
            out = open(w + "/out", "w")
            cmd = [fz, "corpus", "../seeds", f"-seed={c.seed * 100 + k}", f"-max_total_time={int(c.budget)}", "-max_len=6000", "-timeout=60", "-rss_limit_mb=4000", "-dict=../dict", "-print_final_stats=1", "-artifact_prefix=./found-"]
            procs.append((subprocess.Popen(cmd, cwd=w, env=env, stdout=out, stderr=open(w + "/err", "w"), stdin=subprocess.DEVNULL, start_new_session=True), w, cmd))

    c.run_cases(lambda i: limits(i) if i % 10 == 9 else chain(i) if i % 40 == 2 else case(i), range(10**6), min_cases=40, jobs=JOBS - len(procs) if c.quick else JOBS)
    for p, w, cmd in procs:
        try:
            p.wait(120)
        except subprocess.TimeoutExpired:
            pass
        kill_group(p)
        p.wait()
        err = open(w + "/err", errors="replace").read()
        found = [f for f in os.listdir(w) if f.startswith("found-")]
        for f in found:
            if f.startswith("found-slow-unit"):
                continue
            # what was found has to fail again, alone
            env = san_env()
            q = subprocess.run([fz, f, "-timeout=200", "-rss_limit_mb=8000"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if q.returncode == 0 or "LeakSanitizer has encountered a fatal error" in q.stdout:
                c.count("fuzz_findings_not_reproduced")
                continue
            data = open(f"{w}/{f}", "rb").read()
            hit = re.search(r"(?m)^V .*|^==\d+==ERROR.*|^.*runtime error.*", q.stdout)
            c.violation(f"parsing {data[2:][:200]!r} (parser {data[0] % 11}, chunk size {data[1] % 4}) fails: {hit[0] if hit else q.stdout[-300:]}", input=data.hex(), err=tail(q.stdout, 6000))
        g = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
        if g:
            c.count("fuzz_inputs", int(g[1]))
        cov = re.findall(r"cov: (\d+) ft: (\d+)", err)
        if cov:
            with c.lock:
                c.counts["fuzz_coverage_features"] = max(c.counts["fuzz_coverage_features"], int(cov[-1][1]))
                c.counts["fuzz_coverage_edges"] = max(c.counts["fuzz_coverage_edges"], int(cov[-1][0]))
    c.extra["distinct_messages"] = len(c.extra.pop("_msgs", ()))


Check("C18", "hostile variations (bytes, JSON structure, odd files, recipe answers, command lines, resource limits) of valid projects, run by the real maike2 built with ASan, UBSan and LSan as a user without privileges; each must work or report an error and exit. "
      "One evaluation is one run", quick_s=10).main(body)
