"""What every check shares: seed/tier handling, counters, violations, evidence, and running maike2."""
import atexit, collections, concurrent.futures, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
JOBS = int(os.environ.get("VP_JOBS", "0")) or max(2, min(8, os.cpu_count() or 4))

# whatever the caller ignores or blocks (nohup, background jobs), the programs that are started here begin as usual
for _s in signal.valid_signals() - {signal.SIGKILL, signal.SIGSTOP}:
    if signal.getsignal(_s) == signal.SIG_IGN and _s not in (signal.SIGPIPE, signal.SIGXFSZ):
        signal.signal(_s, signal.SIG_DFL)
signal.pthread_sigmask(signal.SIG_SETMASK, [])

sys.setrecursionlimit(12000)


class Stop(Exception):
    """Raised to end a check early, after a violation."""


class Skip(Exception):
    """A generated case cannot be used (never a verdict)."""


def known_findings(prop):
    """Findings that are listed as open for this property: [(kind-of-failure regex, text)]."""
    p = os.path.join(VERIF, "known_findings.json")
    try:
        data = json.load(open(p))
    except OSError:
        return []
    return [f for f in data.get("open", []) if f["property"] == prop]


class Check:
    def __init__(self, prop, rule, level="exploration", quick_s=45, thorough_s=600):
        self.prop, self.rule, self.level = prop, rule, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.t_run = None    # the budget is for running cases, not for building
        self.budget = quick_s if self.quick else thorough_s
        scale = float(os.environ.get("VP_BUDGET", "0") or 0)
        if scale:
            self.budget = scale
        self.n_eval = 0
        self.distinct = set()
        self.counts = collections.Counter()
        self.samples = []
        self.violations = []
        self.known = {}
        self.assumptions = []
        self.extra = {}
        self.lock = threading.Lock()
        self.scratch = tempfile.mkdtemp(prefix=f"vp-{prop}-")
        self._n = 0
        atexit.register(self._clean)

    def _clean(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)

    # -- randomness: a stream per case, all derived from VERIF_SEED
    def rng(self, *key):
        return random.Random(f"{self.prop}/{self.seed}/" + "/".join(map(str, key)))

    def left(self):
        return self.budget - (time.time() - (self.t_run or time.time()))

    def dir(self, name="d"):
        with self.lock:
            self._n += 1
            k = self._n
        d = os.path.join(self.scratch, f"{name}{k}")
        os.makedirs(d)
        return d

    # -- bookkeeping
    def count(self, what, n=1):
        with self.lock:
            self.counts[what] += n

    def evaluated(self, fingerprint=None, nontrivial=True, sample=None):
        with self.lock:
            self.n_eval += 1
            if fingerprint is not None and nontrivial:
                self.distinct.add(hashlib.sha1(repr(fingerprint).encode("utf-8", "replace")).hexdigest()[:16])
            if sample is not None and (len(self.samples) < 4):
                self.samples.append(sample)

    def violation(self, what, /, **data):
        """Record a violation of the property: `what` is one line, data goes into the replay file."""
        with self.lock:
            for k in known_findings(self.prop):
                if re.search(k["match"], what):
                    self.known[k["what"]] = self.known.get(k["what"], 0) + 1
                    return
            n = len(self.violations)
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}-{self.tier}-{self.seed}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "message": what, "seed": self.seed, "tier": self.tier, **data}, f, indent=1, default=lambda o: repr(o))
            self.violations.append((what, path))
            print(f"VIOLATION property={self.prop} replay={path}\n  {what[:1500].encode('utf-8', 'replace').decode()}", flush=True)
        raise Stop()

    # -- running cases in parallel until the budget is used
    def run_cases(self, fn, cases, jobs=JOBS, min_cases=1):
        """fn(case) for every case, in parallel, until the time budget is used up."""
        self.t_run = self.t_run or time.time()
        stop = threading.Event()
        err = []
        it = iter(cases)
        ilock = threading.Lock()
        n = [0]

        def worker():
            while not stop.is_set():
                with ilock:
                    if self.left() <= 0 and n[0] >= min_cases:
                        return
                    try:
                        c = next(it)
                    except StopIteration:
                        return
                    n[0] += 1
                try:
                    fn(c)
                except Stop:
                    stop.set()
                except Skip:
                    self.count("cases_skipped")
                except Exception:
                    err.append(traceback.format_exc(limit=-12)[-6000:])
                    stop.set()

        ts = [threading.Thread(target=worker) for _ in range(jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if err and not self.violations:
            raise RuntimeError("harness error:\n" + err[0])
        return n[0]

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": self.n_eval,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule,
                "samples": self.samples or ["(none)"],
                "observed": dict(self.counts),
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        tmp = os.path.join(EVID, f"{self.prop}.json.{os.getpid()}")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=lambda o: repr(o))
        os.replace(tmp, os.path.join(EVID, f"{self.prop}.json"))
        for what, n in self.known.items():
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        print(f"{self.prop}: {self.n_eval} evaluations, {len(self.distinct)} distinct, {dict(self.counts)}, {time.time()-self.t0:.1f} s, violations={len(self.violations)}")
        return 1 if self.violations else 0

    def main(self, body):
        rc = 2
        try:
            try:
                body(self)
            except Stop:
                pass
            rc = self.finish()
        except build.BuildError as e:
            print("build failed:\n" + str(e)[-3000:])
            rc = 3
            if self.violations:
                rc = 1
        except Exception:
            traceback.print_exc(limit=-12)
            rc = 1 if self.violations else 2
        self._clean()
        sys.stdout.flush()
        os._exit(rc)


class Event:
    __slots__ = ("kind", "t", "pid", "data")

    def __init__(self, kind, t, pid, data):
        self.kind, self.t, self.pid, self.data = kind, t, pid, data


class Result:
    pass


LOG_RE = re.compile(r"^ (\d+) \| (✓|✗) \| (.*) \| (\d+|-) \| (\d+ ?|- ?)$")


def read_trace(path, torn=False):
    """torn: writers may have been killed while they wrote; what they did not complete is left out"""
    evs = []
    try:
        with open(path, "rb") as f:
            raw = f.read()
    except OSError:
        return evs
    for line in raw.split(b"\n"):
        if not line:
            continue
        if torn:
            ok = None
            for q in re.finditer(rb"([A-Za-z_]+) (\d+) (\d+) (?=\{)", line):
                try:
                    json.loads(line[q.end():])
                    ok = q
                    break
                except ValueError:
                    pass
            if ok is None:
                continue
            line = line[ok.start():]
        k, t, pid, js = line.split(b" ", 3)
        evs.append(Event(k.decode(), int(t), int(pid), json.loads(js)))
    return evs


class Run:
    """One invocation of a recipe, put together from its S and E events."""
    __slots__ = ("action", "arg", "src", "start", "end", "rc", "signal", "pid", "argv", "seen", "fds")


def runs_of(events):
    out = []
    open_ = {}
    for e in sorted(events, key=lambda e: e.t):
        if e.kind == "S":
            r = Run()
            av = e.data["argv"]
            if len(av) == 4:
                av = av[1:]
            r.argv = e.data["argv"]
            r.action = av[1] if len(av) > 1 else None
            try:
                r.arg = json.loads(av[2]) if len(av) > 2 else None
            except ValueError:
                r.arg = None
            r.src = r.arg.get("source_file") if isinstance(r.arg, dict) else None
            r.start, r.end, r.rc, r.signal, r.pid = e.t, None, None, None, e.pid
            r.seen = e.data.get("seen")
            r.fds = e.data.get("fds")
            out.append(r)
            open_[e.pid] = r
        elif e.kind == "E" and e.pid in open_:
            r = open_.pop(e.pid)
            r.end, r.rc, r.signal = e.t, e.data["rc"], e.data["signal"]
    return out


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def threads_of(session, tsan):
    """switch counters of all threads of a session, or None if one of them could run"""
    out = []
    for d in os.listdir("/proc"):
        if not d.isdigit():
            continue
        try:
            with open(f"/proc/{d}/stat") as f:
                if int(f.read().rsplit(")", 1)[1].split()[3]) != session:
                    continue
            tids = sorted(map(int, os.listdir(f"/proc/{d}/task")))
            if tsan and len(tids) > 1:
                tids.remove(min(t for t in tids if t != int(d)))     # the thread of the sanitizer, which polls
            for t in tids:
                with open(f"/proc/{d}/task/{t}/status") as f:
                    st = f.read()
                if not re.search("^State:\\s*[SZ]", st, re.M):
                    return None
                out.append((t, *re.findall("ctxt_switches:\\s*(\\d+)", st)))
        except (OSError, ValueError, IndexError):
            return None
    return out or None


def wait_end(p, timeout, tsan=False, idle=20):
    """waits for a process (a session of its own); False if it does not end in time, or if all threads of the
    session have been asleep without being scheduled at all in `idle` looks, a second apart"""
    t0 = time.time()
    last, same = None, 0
    while True:
        try:
            p.wait(max(0.01, min(5 if last is None and time.time() - t0 < 5 else 1, timeout - (time.time() - t0))))
            return True
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        if now - t0 >= timeout:
            return False
        snap = threads_of(p.pid, tsan)
        same = same + 1 if snap is not None and snap == last else 0
        last = snap
        if same >= idle:
            return False


def group_gone(pgid, limit=5):
    """waits until no process of the (killed) group is left"""
    t = time.time()
    while time.time() - t < limit:
        alive = False
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open(f"/proc/{d}/stat", "rb") as f:
                        st = f.read().rsplit(b")", 1)[1].split()
                except (OSError, IndexError):
                    continue
                if int(st[2]) == pgid and st[0] not in (b"Z", b"X"):
                    alive = True
                    break
        if not alive:
            return True
        time.sleep(0.002)
    return False


def san_env(base=None):
    """environment of a monitor program: sanitizer options, nothing that is only meant for the check itself"""
    env = {k: v for k, v in (base or os.environ).items() if k not in ("VERIF_SEED", "VERIF_TIER")}
    env["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=1:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=78:print_stacktrace=1"
    env["LSAN_OPTIONS"] = "exitcode=79"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:second_deadlock_stack=1"
    return env


def run_harness(c, cmd, env, timeout, cwd=None, stdin=None):
    """runs a monitor program (V lines: violations, S lines: counters); one that does not end is run once more"""
    for attempt in (0, 1):
        d = c.dir("h")
        of, ef = open(d + "/out", "w+"), open(d + "/err", "w+", errors="replace")
        p = subprocess.Popen(cmd, stdin=stdin or subprocess.DEVNULL, stdout=of, stderr=ef, env=env, cwd=cwd, start_new_session=True)
        r = Result()
        r.hang = not wait_end(p, timeout * (1 + attempt), "tsan" in " ".join(cmd))
        kill_group(p)
        p.wait()
        of.seek(0)
        ef.seek(0)
        r.out, r.err, r.rc = of.read(), ef.read(), p.returncode
        of.close()
        ef.close()
        shutil.rmtree(d, ignore_errors=True)
        if not r.hang:
            break
        c.count("slow_programs_repeated")
    r.v = [ln[2:] for ln in r.out.split("\n") if ln.startswith("V ")]
    r.stat = {}
    for ln in r.out.split("\n"):
        if ln.startswith("S "):
            for kv in ln[2:].split():
                k, n = kv.split("=")
                r.stat[k] = int(n)
    if not r.hang and not r.v and not r.rc and not r.stat:
        raise RuntimeError("no summary from the monitor: " + r.err)
    return r



class Maike:
    """Runs the maike2 binary of one variant and records what happened."""

    def __init__(self, check, variant="plain", jitter=False):
        self.check = check
        self.variant = variant
        self.prefix = build.install(variant, jitter)
        self.exe = self.prefix + "/bin/maike2"
        self.recipe = self.prefix + "/lib/maike2/recipes/vprecipe"

    def run(self, cwd, args=(), beh=None, timeout=None, env=None, keep_trace=False, pre=(), stdin=subprocess.DEVNULL, during=None, merge=False):
        c = self.check
        aux = c.dir("aux")
        trace = os.path.join(aux, "trace")
        e = dict(os.environ, LC_ALL="C.UTF-8", VP_TRACE=trace, PYTHONDONTWRITEBYTECODE="1")
        for k in ("VERIF_SEED", "VERIF_TIER"):
            e.pop(k, None)
        if beh is not None:
            bp = os.path.join(aux, "beh.json")
            with open(bp, "w") as f:
                json.dump(beh, f)
            e["VP_BEH"] = bp
        if self.variant == "asan":
            e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1"
            e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78"
            e["LSAN_OPTIONS"] = "exitcode=79"
        if self.variant == "tsan":
            e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0"
        e.update(env or {})
        timeout = timeout or (60 if self.variant == "plain" else 150)
        r = Result()
        r.args = list(args)
        of, ef = open(aux + "/out", "wb+"), open(aux + "/err", "wb+")
        t = time.time()
        p = subprocess.Popen([*pre, self.exe, *args], cwd=cwd, stdin=stdin, stdout=of, stderr=of if merge else ef, env=e, start_new_session=True)
        if during:
            during(p, trace)
        r.hang = not wait_end(p, timeout, self.variant == "tsan")
        kill_group(p)
        p.wait()
        if during:
            group_gone(p.pid)
        r.wall = time.time() - t
        r.rc = p.returncode
        of.seek(0)
        ef.seek(0)
        r.out_b, r.err_b = of.read(), ef.read()
        of.close()
        ef.close()
        r.out, r.err = r.out_b.decode("utf-8", "replace"), r.err_b.decode("utf-8", "replace")
        r.events = read_trace(trace, torn=during is not None)
        r.runs = runs_of(r.events)
        shutil.rmtree(aux, ignore_errors=True)
        r.log = []
        for line in r.out.split("\n"):
            m = LOG_RE.match(line)
            if m:
                r.log.append((int(m[1]), m[2] == "✓", m[3], m[4] == "-"))
        r.loaded = re.search(r"# Loaded source tree with (\d+) entries \((\d+) targets\)", r.err)
        r.completed = re.search(r"# Completed (\d+) tasks", r.err)
        c.count("maike_runs")
        return r

    def compiles(self, r):
        return [x for x in r.runs if x.action == "compile"]


def tail(s, n=1500):
    return s if len(s) <= n else "..." + s[-n:]


def norm_json(o):
    return json.dumps(o, sort_keys=True, ensure_ascii=False)
