"""Builds maike2 (and monitor harnesses) from /repo's current working tree, out of tree.

Every .cpp below /repo/core that is not a unit test is compiled, whatever its name is; nothing
in here names a source file except the one that holds main().  Objects are cached by content
hash below /verif/build, so a cached object can only be reused for byte-identical inputs.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
GUARD = "-DMAIKE_VERIF"

COMMON = ["-std=c++17", "-g", "-fno-omit-frame-pointer", "-w", GUARD]
VARIANTS = {
    "plain": ("g++", ["-O1"]),
    "asan": ("g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "tsan": ("g++", ["-O1", "-fsanitize=thread"]),
    "fuzz": ("clang++", ["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all"]),
}
JOBS = max(2, os.cpu_count() or 4)


class BuildError(Exception):
    pass


def sh(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def core_files():
    src, hdr = [], []
    for d, dirs, files in os.walk(os.path.join(REPO, "core")):
        dirs[:] = sorted(x for x in dirs if not x.startswith(("__", ".")))
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith(".test.cpp"):
                continue
            if f.endswith(".cpp"):
                src.append(p)
            elif f.endswith((".hpp", ".h", ".hxx")):
                hdr.append(p)
    return src, hdr


def tags(path):
    lines = []
    for line in read(path).decode("utf-8", "replace").split("\n"):
        if not line.startswith("//@"):
            break
        lines.append(line[3:])
    try:
        return json.loads("\n".join(lines)) if lines else {}
    except ValueError:
        return {}


def _deps(node):
    if isinstance(node, dict):
        for k, v in node.items():
            if k in ("dependencies", "dependencies_extra") and isinstance(v, list):
                yield from (d for d in v if isinstance(d, dict))
            yield from _deps(v)
    elif isinstance(node, list):
        for v in node:
            yield from _deps(v)


def gen_dir():
    """A stand-in for the generated 'about' data: constant strings for every declared symbol."""
    hdr = os.path.join(REPO, "core/bin/about.hpp")
    text = read(hdr).decode() if os.path.exists(hdr) else ""
    names = re.findall(r"extern\s+char\s+const\s*\*\s*(\w+)\s*;", text)
    names += re.findall(r"extern\s+const\s+char\s*\*\s*(\w+)\s*;", text)
    out = "".join(f'char const* Maike::Self::{n} = "vp-{n}";\n' for n in names)
    d = os.path.join(BUILD, "gen-" + sh(out))
    p = os.path.join(d, "core/bin/about_impl.hpp")
    if not os.path.exists(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = p + f".{os.getpid()}"
        with open(tmp, "w") as f:
            f.write(out)
        os.replace(tmp, p)
    return d


def pkg(opt):
    r = subprocess.run(["pkg-config", opt, "jansson"], stdout=subprocess.PIPE, text=True)
    return r.stdout.split() if r.returncode == 0 else (["-ljansson"] if opt == "--libs" else [])


def compile_one(cxx, args, out):
    tmp = f"{out}.{os.getpid()}.tmp"
    r = subprocess.run([cxx, *args, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
    if r.returncode:
        raise BuildError(" ".join([cxx, *args]) + "\n" + r.stdout[-4000:])
    os.replace(tmp, out)
    return out


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def objects(variant):
    """-> (main object, other objects, key) for this variant of the current tree."""
    cxx, vflags = VARIANTS[variant]
    src, hdr = core_files()
    gen = gen_dir()
    hdr_hash = sh(*[x for p in hdr for x in (os.path.relpath(p, REPO), read(p))], gen)
    base = COMMON + vflags + pkg("--cflags")
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    jobs, mains, objs = [], [], []
    for p in src:
        rel = os.path.relpath(p, REPO)
        d = os.path.dirname(rel)
        extra = []
        for dep in _deps(tags(p)):
            if dep.get("rel") == "include":
                q = os.path.normpath(os.path.join(d, dep["ref"]))
                if os.path.exists(os.path.join(REPO, q)):
                    extra.insert(0, "-include" + q)
                else:
                    extra.append(f"-include{gen}/{q}")
        args = [*base, *extra, f"-iquote{d}", "-iquote.", f"-iquote{gen}/{d}", f"-iquote{gen}", "-c", rel]
        key = sh(cxx, " ".join(args), read(p), hdr_hash)
        out = os.path.join(odir, f"{variant}-{key}.o")
        is_main = re.search(rb"^\s*int\s+main\s*\(", read(p), re.M)
        if is_main and variant == "fuzz":
            continue        # (the program itself is not accepted by clang)
        if not os.path.exists(out):
            jobs.append((cxx, args, out))
        (mains if is_main else objs).append(out)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda j: compile_one(*j), jobs))
    return mains, objs, sh(*sorted(objs), *sorted(mains), hdr_hash)


def prune(limit=1500):
    odir = os.path.join(BUILD, "obj")
    try:
        fs = sorted((os.path.join(odir, f) for f in os.listdir(odir)), key=os.path.getmtime)
    except OSError:
        return
    for f in fs[:-limit] if len(fs) > limit else []:
        try:
            os.unlink(f)
        except OSError:
            pass
    dirs = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("maike-")), key=os.path.getmtime)
    for d in dirs[:-24]:
        shutil.rmtree(d, ignore_errors=True)


def link(cxx, vflags, objs, out, libs=()):
    return compile_one(cxx, [*vflags, "-g", *objs, *libs, *pkg("--libs"), "-lpthread"], out)


def recipe_tool(name, flags=("-ljansson",), suffix=""):
    """Compiles /verif/tools/<name>.c (the monitor's own helper programs)."""
    src = os.path.join(VERIF, "tools", name + ".c")
    out = os.path.join(BUILD, f"{name}-{sh(read(src))}{suffix}")
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = f"{out}.{os.getpid()}.tmp"
        r = subprocess.run(["gcc", "-O1", "-w", "-o", tmp, src, *flags], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout)
        os.replace(tmp, out)
    return out


def jitter_lib():
    return recipe_tool("vpjitter", ("-shared", "-fPIC", "-ldl", "-lpthread"))


def jitter_obj():
    """the same, to be linked into programs that are built with a sanitizer (which cannot be preloaded)"""
    return recipe_tool("vpjitter", ("-c", "-fPIC"), "-obj.o")


def install(variant="plain", jitter=False):
    """Builds maike2 and lays out an install prefix; returns the prefix directory.

    <prefix>/bin/maike2, <prefix>/lib/maike2/recipes/<the repo's recipes and the monitor recipe>"""
    with Lock():
        prune()
        mains, objs, key = objects(variant)
        rdir = os.path.join(REPO, "recipes")
        recipes = sorted(f for f in os.listdir(rdir) if os.path.isfile(os.path.join(rdir, f)))
        rkey = sh(*[x for f in recipes for x in (f, read(os.path.join(rdir, f)))])
        tool = recipe_tool("vprecipe")
        jitter_lib()
        jit = [jitter_obj()] if jitter else []
        prefix = os.path.join(BUILD, f"maike-{variant}{'j' if jitter else ''}-{sh(key, rkey, tool, *jit)}")
        if not os.path.exists(os.path.join(prefix, "ok")):
            shutil.rmtree(prefix, ignore_errors=True)
            os.makedirs(prefix + "/bin")
            os.makedirs(prefix + "/lib/maike2/recipes")
            cxx, vflags = VARIANTS[variant]
            m = [o for o in mains]
            link(cxx, [f for f in vflags if f.startswith("-fsan")], m + objs + jit, prefix + "/bin/maike2", ["-ldl"])
            for f in recipes:
                shutil.copy2(os.path.join(rdir, f), prefix + "/lib/maike2/recipes/" + f)
            shutil.copy2(tool, prefix + "/lib/maike2/recipes/vprecipe")
            open(prefix + "/ok", "w").close()
        os.utime(prefix)
        return prefix


def harness(name, variant, extra=(), jitter=False):
    """Compiles /verif/harness/<name>.cpp against the tree's objects; returns the executable."""
    with Lock():
        if jitter:
            extra = (*extra, jitter_obj(), "-ldl")
        mains, objs, key = objects(variant)
        cxx, vflags = VARIANTS[variant]
        src = os.path.join(VERIF, "harness", name + ".cpp")
        hs = [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".hpp")]
        gen = gen_dir()
        k = sh(key, read(src), *[read(h) for h in hs], *extra, variant)
        d = os.path.join(BUILD, "maike-h")
        os.makedirs(d, exist_ok=True)
        vname = variant + ("j" if jitter else "")
        out = os.path.join(BUILD, f"h-{name}-{vname}-{k}")
        if not os.path.exists(out):
            for f in os.listdir(BUILD):
                if f.startswith(f"h-{name}-{vname}-"):
                    try:
                        os.unlink(os.path.join(BUILD, f))
                    except OSError:
                        pass
            if variant == "fuzz":
                vflags = [f.replace("fuzzer-no-link", "fuzzer") for f in vflags]
            args = [*COMMON, *vflags, *pkg("--cflags"), f"-iquote{VERIF}/harness", "-iquote.", f"-iquote{gen}", src, *extra, *objs, *pkg("--libs"), "-lpthread"]
            compile_one(cxx, args, out)
        return out


def build_all():
    """everything the checks need (they build it themselves otherwise)"""
    for v in VARIANTS:
        if v != "fuzz":
            print(install(v))
    for v in ("tsan", "asan"):
        print(install(v, True))
    for h, vs in (("cxxinc", ("plain", "asan")), ("kvmon", ("plain", "asan")), ("execmon", ("plain", "asan", "tsan")), ("schedmon", ("plain", "asan", "tsan")), ("iomon", ("plain", "asan", "tsan"))):
        for v in vs:
            print(harness(h, v, jitter=v != "plain" and h in ("execmon", "schedmon", "iomon")))
    recipe_tool("vpchild", ())
    try:
        print(harness("fuzzmon", "fuzz"))
    except BuildError as e:
        print("no libFuzzer targets:", str(e)[-300:])


if __name__ == "__main__":
    if sys.argv[1:] == ["all"]:
        build_all()
    else:
        for v in sys.argv[1:] or ["plain", "asan", "tsan"]:
            print(install(v))
