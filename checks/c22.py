"""C22: the build log reports every task truthfully and in one piece."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl
import datetime, shlex

WORDS = ["ok", "warning: x", " 3 | ✓ | f1.x | 12 | 15", " 0 | ✗ | . | - | - ", " ... ", "... ", "\n", "\n\n", " ... \n", "%s%n%d", "\\", "\t", "\r", "\x1b[31mred\x1b[0m", "é", "# Completed 3 tasks", "'", '"', "a" * 200, " ", " | ", "f0.x: Compilation failed"]


def text(rng, tag, big):
    n = rng.choice([1, 1, 2, 5, 30] + ([400, 3000] if big else []))
    s = tag + "".join(rng.choice(WORDS) + ("\n" if rng.random() < 0.4 else "") for _ in range(n))
    k = rng.random()
    return s + "\n" if k < 0.5 and not s.endswith("\n") else s


def shown(s):
    """how a recipe's standard output is to appear in the log"""
    return "".join(" ... " + ln for ln in s.splitlines(True)) if "\r" not in s and "\x0b" not in s else "".join(" ... " + ln for ln in re.findall(r"[^\n]*\n|[^\n]+", s))


def parted(both, texts, bad):
    """takes what was written to standard error out of a file that has both streams"""
    err = []

    def cut(a, b):
        nonlocal both
        err.append(both[a:b])
        both = both[:a] + both[b:]
    cut(0, max(0, both.find("# Build job")))
    for t in sorted(texts, key=len, reverse=True):
        k = both.find(t)
        if k != -1:
            cut(k, k + len(t))
    for rx in (r"# Loaded source tree with [^\n]* seconds/entry\)\n", "(?:" + "|".join(map(re.escape, sorted(bad, key=len, reverse=True))) + r")(?<=.): Compilation failed\n\Z", r"# Completed \d+ tasks in [^\n]*\n\Z"):
        x = re.search(rx, both)
        if x:
            cut(*x.span())
    return both, "".join(err)


def body(c):
    m = Maike(c)

    def case(i):
        rng = c.rng(i)
        p, mod, root = wl.make_case(c, m, rng, size=rng.choice([2, 6, 15, 40]), features={"always": rng.choice([0, 0.1])})
        tasks = mod.tasks()
        for step in range(3):
            what = rng.random()
            if step:
                wl.disturb(rng, mod, root)
            beh = wl.delays(rng, tasks, base=p.beh(), scale=rng.choice([0, 1000, 5000]))
            sout, serr, bad = {}, {}, set()
            big = rng.random() < 0.3
            for k, n in enumerate(tasks):
                b = dict(beh.get("compile:" + n.path, {}))
                if rng.random() < 0.6:
                    b["stdout"] = sout[n.path] = text(rng, f"<o{k}:{rng.randint(0, 10**6)}>", big)
                if rng.random() < 0.4:
                    b["stderr"] = serr[n.path] = text(rng, f"<e{k}:{rng.randint(0, 10**6)}>", big) + f"<f{k}>"
                if what < 0.35 and rng.random() < 0.12:
                    bad.add(n.path)
                    b.update(rng.choice([{"exit": rng.randint(1, 255)}, {"signal": rng.choice([9, 11, 15, 6])}]))
                    b["partial"] = rng.randint(0, 1)
                if b:
                    beh["compile:" + n.path] = b
            level = rng.choice(["source_file_info"] * 3 + ["compilation_command", "errors"])
            args = [f"--num-workers={rng.choice([1, 2, 4, 8, 16, 32])}", "--log-level=" + level]
            if rng.random() < 0.3:
                args.append("--log-output-format=" + rng.choice(["plain_text", "ansi_term"]))
            if step and rng.random() < 0.3:
                args.append("--force-rebuild")
            only = None
            if rng.random() < 0.2:
                t = rng.choice(sorted(mod.owner))
                only = mod.task_closure_of_target(t)
                args.append("--targets=" + wl.arg_list([wl.rel_target(mod, t)]))
            bid, st = None, None
            if rng.random() < 0.3:
                bid = "%064x" % rng.getrandbits(256)
                args.append("--build-id=" + bid)
            if rng.random() < 0.3:
                st = rng.choice([0, 1, -1, 59, 951782399, 951868800, 1_700_000_000, 4107542399, rng.randint(-2**33, 2**33)])
                args.append(f"--start-time={st}")
            rng.shuffle(args)
            env = wl.jitter(rng)
            if rng.random() < 0.5:
                env["TZ"] = rng.choice(["Asia/Kathmandu", "America/New_York", "UTC", "XYZ-5:30", ""])
            t0 = int(time.time())
            merge = rng.random() < 0.3
            r = m.run(root, args, beh, env=env, merge=merge)
            if not merge:
                r = wl.retry_hang(c, m, root, args, beh, r, env=env)
            where = f"case {i} step {step}" + (", both streams in one file" if merge else "")
            data = dict(args=args, files=wl.files(p), config=p.config(), beh={k: v for k, v in list(beh.items())[:60]}, err=tail(r.err, 4000), out=tail(r.out, 6000), env=env)
            if r.hang:
                c.violation(f"build hangs ({where})", **data)
            runs = [x for x in m.compiles(r)]
            ran = {x.src: x for x in runs}
            if len(ran) != len(runs):
                c.violation(f"a task is run twice ({where})", **data)
            # ---- standard output
            out, err = (b.decode("utf-8", "surrogateescape") for b in (r.out_b, r.err_b))
            if merge:
                out, err = parted(out, [serr[s] + "\n" for s in ran if s in serr], bad)
                c.count("builds_with_both_streams_in_one_file")
            k = out.find("\n#\n", out.find("# Target dir"))
            if k == -1:
                c.violation(f"no header ({where})", **data)
            head = out[:k]
            pos = k + 3

            def shows(what, val):
                if not re.search(r"(?m)^# *" + what + r" *: " + re.escape(val) + r"$", head):
                    c.violation(f"the header of the log does not say {what}: {val} ({where})", head=head, **data)
            w = int(args[[a.startswith("--num-workers") for a in args].index(True)][14:])
            if not re.search(rf"\b{w} workers\b", head):
                c.violation(f"the header of the log does not say that there are {w} workers ({where})", head=head, **data)
            shows("Source dir", mod.sd)
            shows("Target dir", mod.td)
            info = runs[0].arg["build_info"] if runs else {}
            if bid or info:
                shows("Id", bid or info["build_id"])
            when = st if st is not None else info.get("start_time")
            if when is not None:
                if not -6 * 10**10 < when < 2 * 10**11:
                    raise RuntimeError("start time")
                t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=when)
                shows("Start time", f"{t.year:04d}-{t.month:02d}-{t.day:02d} {t.hour}:{t.minute:02d}:{t.second:02d} UTC")
                if st is None and not t0 - 1 <= when <= time.time() + 1:
                    c.violation(f"the build claims to have been started at {when}, but it was between {t0} and {time.time()} ({where})", **data)
            c.count("headers_checked")
            seen, upto = {}, []
            times = []
            pathre = "|".join(re.escape(q) for q in sorted((n.path for n in tasks), key=len, reverse=True))
            entry = re.compile(r" (\d+) \| (✓|✗) \| (" + pathre + r") \| (?:(\d+) \| (\d+)|- \| - )\n")
            blank = 0
            while pos < len(out):
                if level == "errors":
                    hit = [s for s in ran if s not in seen and s in sout and out.startswith(shown(sout[s]), pos)]
                    if hit:
                        s = max(hit, key=lambda q: len(sout[q]))
                        seen[s] = True
                        pos += len(shown(sout[s]))
                    elif out[pos] == "\n":
                        blank += 1
                        pos += 1
                    else:
                        c.violation(f"standard output at level errors has {out[pos:pos + 100]!r}, which is not the output of one recipe in one piece ({where})", **data)
                    continue
                start = pos
                if level == "compilation_command":
                    h = re.compile(r"([^\n]*?) #(?= \d+ \| (?:✓|✗) \| (?:" + pathre + r") \| (?:\d+ \| \d+|- \| - )\n)").match(out, pos)
                    if not h:
                        c.violation(f"log has {out[pos:pos + 100]!r} where an entry should be ({where})", **data)
                    cmd = h[1]
                    pos = h.end()
                e = entry.match(out, pos)
                if not e:
                    c.violation(f"log has {out[pos:pos + 100]!r} where an entry should be ({where})", **data)
                src = e[3]
                pos = e.end()
                if level == "compilation_command":
                    try:
                        js = json.loads(shlex.split(cmd)[-1])
                    except (ValueError, IndexError):
                        js = {}
                    if js.get("source_file") != src:
                        c.violation(f"the entry of {src!r} has the command of {js.get('source_file')!r} ({where})", **data)
                if e[4] is None:
                    if e[2] != "✓":
                        c.violation(f"{src!r} was not run but is marked as failed ({where})", **data)
                    upto.append(src)
                    continue
                if src in seen:
                    c.violation(f"{src!r} has two entries ({where})", **data)
                if src not in ran:
                    c.violation(f"{src!r} has an entry but was not run ({where})", **data)
                x = ran[src]
                fail = bool(x.rc or x.signal)
                if (e[2] == "✗") != fail:
                    c.violation(f"{src!r}: status {x.rc}, signal {x.signal}, but marked with {e[2]} ({where})", **data)
                seen[src] = not fail
                times.append((src, int(e[4]), int(e[5]), x.start, x.end))
                want = shown(sout.get(src, ""))
                if not out.startswith(want, pos):
                    c.violation(f"the entry of {src!r} is not followed by its output {sout.get(src, '')[:60]!r}, but by {out[pos:pos + 60]!r} ({where})", **data)
                pos += len(want)
                c.count("entries")
                c.count("entries_failed", fail)
                c.count("output_bytes", len(want))
                c.evaluated((i, step, src), True)
            must = {s for s in ran if level != "errors" or s in sout}
            if must - set(seen):
                c.violation(f"{sorted(must - set(seen))[0]!r} was run but has no entry ({where})", **data)
            cover = {n.path for n in tasks if only is None or n.path in only}
            idle = cover - set(ran)
            if level == "errors":
                if not bad and blank not in (0, len(idle)):
                    c.violation(f"{blank} empty lines at level errors, but {len(idle)} up-to-date tasks ({where})", **data)
            else:
                if len(upto) != len(set(upto)) or set(upto) & set(ran) or not set(upto) <= cover:
                    c.violation(f"entries of up-to-date tasks are wrong: {sorted(upto)[:8]}, run were {sorted(ran)[:8]} ({where})", **data)
                if not bad and set(upto) != idle:
                    c.violation(f"{sorted(idle - set(upto))[:3]} were up to date but have no entry ({where})", **data)
                c.count("entries_up_to_date", len(upto))
            for s, a, b, ts, te in times:
                if b < a or te and (b - a) * 1000 + 2000 < te - ts:
                    c.violation(f"the entry of {s!r} says it ran from {a} to {b} µs, but it took {(te - ts) // 1000} µs ({where})", **data)
            if len(times) > 1:
                lo = max(te - b * 1000 for s, a, b, ts, te in times if te)
                hi = min(ts - a * 1000 for s, a, b, ts, te in times)
                if lo > hi + 2000:
                    c.violation(f"times of the log entries do not fit to when the recipes ran ({where})", times=times, **data)
            # ---- standard error
            for s in sorted((s for s in ran if s in serr), key=lambda s: -len(serr[s])):
                if err.count(serr[s] + "\n") != 1:
                    c.violation(f"what the recipe of {s!r} wrote to standard error appears {err.count(serr[s] + chr(10))} times in one piece ({where})", text=serr[s][:500], **data)
                err = err.replace(serr[s] + "\n", "")
                c.count("stderr_pieces")
            for ln in err.split("\n"):
                if ln and not re.match(r"^(--[a-z-]+: |# Loaded source tree with |# Completed \d+ tasks )", ln) and not any(ln == b + ": Compilation failed" for b in bad):
                    c.violation(f"standard error has {ln[:80]!r}, which no recipe that was run wrote ({where})", **data)
            done = re.findall(r"(?m)^# Completed (\d+) tasks in ", err)
            if not bad and r.rc == 0 and done != [str(len(cover))]:
                c.violation(f"{done} tasks are reported as completed, not {len(cover)} ({where})", **data)
            if bad & set(ran) and r.rc == 0 or not bad & set(ran) and r.rc != 0:
                c.violation(f"status {r.rc} with failing {sorted(bad & set(ran))} ({where})", **data)
            c.count("builds_" + level)
            if len(c.samples) < 3:
                c.samples.append({"args": args, "out": tail(r.out, 500)})
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(10**6), min_cases=24)


Check("C22", "random projects with recipes that write text (made of log-like lines, with and without final line break, up to 100 kB) to both streams and fail at random, at all log levels, with up to 32 workers under injected delays; the whole of both streams is taken apart and compared with "
      "what the recipes recorded. One evaluation is one log entry", quick_s=10).main(body)
