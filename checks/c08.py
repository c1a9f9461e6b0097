"""C08: C++ includes are found exactly as a C++ compiler would."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import cxxgen, proj, wl
import posixpath

FAKE_SYS = ["vpfoo", "vps/types.h", "a-b.h", "x+y", "it's.h", "b//c.h"]


def origin(name, q):
    return "S" if q == "<" else "G" if name.endswith(".gen.hpp") else "P"


def body(c):
    m = Maike(c)
    exe = {v: build.harness("cxxinc", v) for v in ("plain", "asan")}
    empty = c.dir("empty")
    env = dict(os.environ, ASAN_OPTIONS="exitcode=77", UBSAN_OPTIONS="halt_on_error=1:exitcode=78", LSAN_OPTIONS="exitcode=79")

    def shift(rng, t):
        """move the text relative to the buffers of 4096 bytes"""
        k = rng.random()
        if k < 0.4:
            return t
        n = rng.choice([4096, 8192]) - rng.randint(0, min(4000, len(t.encode("utf-8", "surrogateescape")) + 3))
        return rng.choice(["//" + "p" * max(n - 3, 0) + "\n", "\n" * n, "/*" + "*" * max(n - 4, 0) + "*/", "/*" + "\n" * max(n - 5, 0) + "*/\n", "int x = \"" + "s" * max(n - 12, 0) + "\";\n"]) + t

    def run_harness(rng, texts, variant):
        frames = []
        for t in texts:
            b = t.encode("utf-8", "surrogateescape")
            frames.append(b"%d %d\n" % (len(b), rng.choice([0, rng.randint(1, 10**6)])) + b)
        try:
            r = subprocess.run([exe[variant]], input=b"".join(frames), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
        except subprocess.TimeoutExpired:
            return None
        return r.returncode, r.stdout.decode("utf-8", "replace").split("\n"), r.stderr.decode("utf-8", "replace")

    real = []
    for d in ("/usr/include", "/usr/lib/gcc", "/usr/lib/llvm-18/lib/clang", os.path.join(build.REPO, "core")):
        for a, dirs, fs in os.walk(d):
            dirs.sort()
            real += sorted(os.path.join(a, f) for f in fs if os.path.splitext(f)[1] in (".h", ".hpp", ".hh", ".hxx", ".ipp", ".cpp", ".c", ".cc", ".tcc", ".inc", ""))

    def real_text(rng):
        """code that people wrote, sometimes cut off somewhere or joined with another"""
        t = ""
        for _ in range(rng.choice([1, 1, 1, 2])):
            f = rng.choice(real)
            try:
                with open(f, "rb") as fh:
                    b = fh.read(150001)
            except OSError:
                continue
            if len(b) > 150000 or b"\0" in b:
                continue
            if rng.random() < 0.2:
                b = b[:rng.randint(0, len(b))]
            t += b.decode("utf-8", "surrogateescape")
        return t

    def bulk(i, people=False):
        rng = c.rng("bulk", i)
        variant = "asan" if i % 4 == 3 else "plain"
        texts = []
        while len(texts) < (40 if people else 120):
            t = shift(rng, real_text(rng) if people else cxxgen.Gen(rng).source())
            if cxxgen.includes(t) is not None:
                texts.append(t)
                c.count("sources_people_wrote", people)
        res = run_harness(rng, texts, variant)
        if res is None:
            c.violation(f"scanning C++ sources does not end (batch {i})", texts=texts[:5])
        rc, out, err = res
        if rc != 0:
            c.violation(f"scanning C++ sources ends with status {rc} (batch {i}): {tail(err, 300)}", err=err, n=len(out))
        k = 0
        for t in texts:
            ref = cxxgen.includes(t)
            want = [f"{origin(n, q)} {n}" for n, q in ref]
            n = int(out[k])
            k += 1
            if n < 0:
                c.violation(f"a valid C++ source is rejected: {out[k]} (batch {i})", text=t)
            got = out[k:k + n]
            k += n
            copy = out[k]
            k += 1
            if got != want:
                miss, extra = [x for x in want if x not in got], [x for x in got if x not in want]
                c.violation(f"includes differ from those of the C++ language (batch {i}): missing {miss[:3]}, unexpected {extra[:3]}, found {got[:8]}, expected {want[:8]}", text=t)
            if copy != "same":
                c.violation(f"the source text handed on differs from the file (batch {i})", text=t)
            c.evaluated(t, bool(ref), {"includes": want[:6], "bytes": len(t)} if len(want) > 2 else None)
            c.count("includes", n)
            c.count("sources_with_bytes_that_are_not_utf8", any("\ud800" <= x <= "\udfff" for x in t))
            c.count("decoys", len(re.findall("bad[0-9]", t)))
            c.count("sources_over_4096_bytes", len(t) > 4096)

    def crossval(i):
        """the reference itself is compared with g++ -M"""
        rng = c.rng("gxx", i)
        for _ in range(8):
            t = cxxgen.Gen(rng, system=FAKE_SYS).source()
            ref = cxxgen.includes(t)
            r = subprocess.run(["g++", "-std=gnu++17", "-M", "-MG", "-w", "-x", "c++", "-I", empty, "-"], input=t.encode("utf-8", "surrogateescape"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=empty)
            if r.returncode or ref is None:
                c.count("rejected_by_gxx")
                continue
            names = {posixpath.normpath(n) for n, _ in ref}
            o = r.stdout.decode("utf-8", "replace").replace("\\\n", " ").split(":", 1)[1].replace("\\ ", "\0")
            got = {posixpath.normpath(x.replace("\0", " ").replace("\\#", "#").replace("$$", "$")) for x in o.split() if not x.startswith("/usr/")}
            if names != got:
                raise RuntimeError(f"the reference lexer disagrees with g++: {names ^ got}\n{t}")
            c.count("sources_where_reference_equals_gxx")

    NAMES = ["h0.hpp", "h1.hpp", "dir/a.hpp", "sp ace.hpp", "k.gen.hpp", "dir/z.gen.hpp", "é.hpp", "it's.hpp"]

    def blackbox(i):
        rng = c.rng("bb", i)
        root = c.dir("p")
        os.makedirs(root + "/dir")
        p = proj.Project()
        with open(root + "/maikeconfig.json", "w") as f:
            json.dump(p.config(), f)
        for n in NAMES:
            if n.endswith(".gen.hpp"):
                with open(os.path.join(root, n + ".rule"), "w") as f:
                    json.dump({"target": {"name": posixpath.basename(n)}}, f)
            else:
                with open(os.path.join(root, n), "w") as f:
                    f.write(rng.choice(["", "// no tags\n"]))
        want = {}
        texts = {}
        for k in range(rng.randint(1, 8)):
            src = f"s{k}.cpp"
            t = shift(rng, cxxgen.Gen(rng, project=NAMES, system=FAKE_SYS).source())
            ref = cxxgen.includes(t)
            # tags are on lines of their own at the top of the file
            head = "//@" + json.dumps({"target": {"name": f"s{k}.o"}}) + "\n"
            if ref is None or any(q == '"' and n not in NAMES for n, q in ref):
                continue            # (what should be hidden is not, in this one: these files do not exist)
            texts[src] = head + t
            with open(os.path.join(root, src), "w", newline="", errors="surrogateescape") as f:
                f.write(head + t)
            want[src] = {("__targets/" + n if n.endswith(".gen.hpp") else n) if q == '"' else "<" + n for n, q in ref}
        r = m.run(root, [f"--num-workers={rng.choice([1, 4, 8])}"])
        if r.hang or r.rc:
            c.violation(f"building sources with includes fails with {r.rc} (case {i})", err=tail(r.err), texts=texts)
        seen = {x.src: x for x in m.compiles(r)}
        for src, w in want.items():
            x = seen.get(src) or seen.get("./" + src)
            if x is None:
                c.violation(f"{src} was not compiled (case {i})", texts=texts, err=tail(r.err))
            got = set()
            for d in x.arg.get("dependencies", ()):
                o, ref = d.get("origin"), d["ref"]
                if o in ("project", "generated"):
                    ref = posixpath.normpath(ref)
                    if ref in (".", "dir", "__targets", "__targets/dir") or ref.endswith(".rule"):
                        continue
                    got.add(ref)
                elif o == "system" and ref != m.recipe:
                    got.add("<" + ref)
            if got != w:
                c.violation(f"{src} is compiled with wrong includes (case {i}): missing {sorted(w - got)[:3]}, unexpected {sorted(got - w)[:3]}", text=texts[src], args=x.arg)
            c.evaluated(("bb", texts[src]), bool(w))
            c.count("sources_built")
        shutil.rmtree(root, ignore_errors=True)

    def case(i):
        k = i % 4
        if k == 0:
            blackbox(i // 4)
        elif k == 2 and i < 80 or not c.quick and k == 2:
            crossval(i // 4)
        else:
            bulk(i, bool(real) and i % 16 in (1, 7))
    c.run_cases(case, range(10**6), min_cases=24)


Check("C08", "generated C++ text: include directives in all layouts among comments, string, character and raw string literals, digit separators, continued lines, other directives and decoys, placed around internal buffer boundaries "
      "and fed in random chunks, and the headers installed here; one evaluation is one source whose includes (order, duplicates, origin) were compared with a reference lexer, which is itself compared with g++ -M; non-trivial: at least one include", quick_s=10).main(body)
