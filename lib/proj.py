"""Random projects, their rendering to disk, and the reference model of what maike2 must make of them.

The model works from the structured description (never from the rendered text), so it shares no
code and no parsing with the implementation."""
import copy, json, os, posixpath, shutil

GENERATED, PROJECT, SYSTEM, PKG = "generated", "project", "system", "pkg-config"


def norm(p):
    """lexical normal form without trailing slash"""
    return posixpath.normpath(p)


class Dep:
    def __init__(self, ref, origin=None, **props):
        self.ref, self.origin, self.props = ref, origin, props

    def json(self):
        d = {"ref": self.ref, **self.props}
        if self.origin:
            d["origin"] = self.origin
        return d


class Target:
    def __init__(self, name, deps=(), pkgconfig=(), props=None):
        self.name, self.deps, self.pkgconfig, self.props = name, list(deps), list(pkgconfig), props or {}

    def json(self):
        d = {"name": self.name, **self.props}
        if self.deps:
            d["dependencies"] = [x.json() for x in self.deps]
        if self.pkgconfig:
            d["pkgconfig_libs"] = list(self.pkgconfig)
        return d


class Tags:
    def __init__(self, targets=(), deps=(), extra=(), compiler=None, rebuild=None, single=False):
        self.targets, self.deps, self.extra = list(targets), list(deps), list(extra)
        self.compiler, self.rebuild, self.single = compiler, rebuild, single

    def json(self):
        d = {}
        ts = [t.json() for t in self.targets]
        if self.single and ts:
            # "target" and "targets" may be there both
            d["target"] = ts[0]
            if len(ts) > 1:
                d["targets"] = ts[1:]
        elif ts:
            d["targets"] = ts
        if self.deps:
            d["dependencies"] = [x.json() for x in self.deps]
        if self.extra:
            d["dependencies_extra"] = [x.json() for x in self.extra]
        if self.compiler is not None:
            d["compiler"] = self.compiler
        if self.rebuild:
            d["rebuild"] = self.rebuild
        return d


class Src:
    """A source file.  kind is an extension key of the configuration, or None (no loader)."""

    def __init__(self, path, tags=None, includes=(), get_tags=None, body="", style=0, mode=0o644):
        self.path, self.tags, self.includes = path, tags or Tags(), list(includes)
        self.get_tags, self.body, self.style, self.mode = get_tags, body, style, mode


DEFAULT_LOADERS = {
    # extension: (loader name, loader type, recipe, config, use_get_tags, loader config)
    ".x": ("x", "extension", "vprecipe", {"k": 1, "o": {"p": "q", "l": [1, 2]}, "list": ["u"]}, 0, None),
    ".cpp": ("cxx", "cxx_src_loader", "vprecipe", {"cflags": ["-g"]}, 0, {"generated_includes": [".*\\.gen\\.hpp$"]}),
    ".hpp": ("cxx", "cxx_src_loader", "vprecipe", {"cflags": ["-g"]}, 0, {"generated_includes": [".*\\.gen\\.hpp$"]}),
    ".test.cpp": ("cxxlink", "cxx_src_loader", "vprecipe", {"actions": ["link"]}, 0, {"generated_includes": [".*\\.gen\\.hpp$"]}),
    ".app": ("app", "app", "vprecipe", {}, 0, None),
    ".lib": ("lib", "lib", "vprecipe", {}, 0, None),
    ".rule": ("rule", "maikerule", "vprecipe", {}, 0, None),
    ".g": ("gen", "generic", "vprecipe", {}, 0, {"target_filename_ext": ".out"}),
    ".r": ("rep", "generic", "vprecipe", {}, 0, {"target_filename_ext": ".rep", "filename_ext_replacement_mode": "replace"}),
    ".t": ("tagged", "extension", "vprecipe", {"gt": 1}, 1, None),
    ".s": ("self", "extension", "", {}, 0, None),
}
TAG_PREFIX = {"extension": "#@", "cxx_src_loader": "//@"}


class Project:
    def __init__(self, loaders=None, input_filter=("^\\.", "^__"), full_filter=("^__",), recursive=1, dir_recipe="vprecipe"):
        self.files = {}  # path -> Src
        self.dirs = set()
        self.loaders = copy.deepcopy(loaders or DEFAULT_LOADERS)
        self.input_filter, self.full_filter, self.recursive = list(input_filter), list(full_filter), recursive
        self.dir_recipe = dir_recipe
        self.project_recipes = set()  # project files that are copies of the monitor recipe

    def add(self, src):
        self.files[src.path] = src
        return src

    def config(self):
        loaders = {}
        for ext, (name, typ, recipe, cfg, gt, lcfg) in self.loaders.items():
            e = {"compiler": {"config": cfg, "recipe": recipe}, "loader": typ}
            if gt:
                e["compiler"]["use_get_tags"] = gt
            if lcfg is not None:
                e["config"] = lcfg
            loaders[name] = e
        return {"maikeconfig": {
            "dir_compiler": {"config": {}, "recipe": self.dir_recipe},
            "source_file_info_loaders": loaders,
            "source_tree_loader": {
                "file_info_loaders": {ext: v[0] for ext, v in self.loaders.items()},
                "fullpath_input_filter": self.full_filter,
                "input_filter": self.input_filter,
                "recursive": self.recursive}}}

    # -- rendering
    def render(self, src, recipe_exe):
        ext = self.ext_of(src.path)
        if ext is None:
            return src.body
        typ = self.loaders[ext][1]
        if typ == "generic":
            return src.body
        js = src.tags.json()
        if typ in ("app", "lib", "maikerule"):
            return json.dumps(js, indent=1) if src.style % 2 else json.dumps(js)
        pre = TAG_PREFIX[typ]
        out = []
        if self.loaders[ext][2] == "" and not (src.tags.compiler or {}).get("recipe"):
            out.append("#!" + recipe_exe)
        if js or src.style % 3 == 2:
            if src.style % 4 == 0:
                out.append(pre + json.dumps(js))
            elif src.style % 4 == 1:
                out += [pre + "\t" + line for line in json.dumps(js, indent=1).split("\n")]
            elif src.style % 4 == 2:
                out += ["  " + pre + " " + line for line in json.dumps(js, indent="\t").split("\n")]
            else:
                text = json.dumps(js, indent=1).split("\n")
                for i, line in enumerate(text):
                    out.append(pre + line)
                    if i % 3 == 1:
                        out.append("")
        for name, quote in src.includes:
            out.append(f'#include "{name}"' if quote == '"' else f"#include <{name}>")
        if src.body:
            out.append(src.body)
        return "\n".join(out) + "\n"

    def ext_of(self, path):
        """the longest configured extension that the file name ends with (from a dot onwards)"""
        name = posixpath.basename(path)
        # the "full extension" of a name starts at its first dot that is not its first character
        k = name.find(".", 1)
        if k == -1:
            return None
        full = name[k:]
        while full:
            if full in self.loaders:
                return full
            k = full.find(".", 1)
            if k == -1:
                return None
            full = full[k:]
        return None

    def write(self, root, recipe_exe, mtime0=1_500_000_000):
        os.makedirs(root, exist_ok=True)
        for d in sorted(self.dirs | {posixpath.dirname(p) for p in self.files}):
            if d:
                os.makedirs(os.path.join(root, d), exist_ok=True)
        with open(os.path.join(root, "maikeconfig.json"), "w") as f:
            json.dump(self.config(), f)
        os.utime(os.path.join(root, "maikeconfig.json"), ns=(mtime0 * 10**9,) * 2)
        for i, (p, s) in enumerate(sorted(self.files.items())):
            self.write_file(root, s, recipe_exe, (mtime0 + i) * 10**9 + 1000 * i)

    def write_file(self, root, s, recipe_exe, ns):
        full = os.path.join(root, s.path)
        if s.path in self.project_recipes and self.ext_of(s.path) is None:
            shutil.copyfile(recipe_exe, full)
            os.chmod(full, 0o755)
        else:
            with open(full, "w") as f:
                f.write(self.render(s, recipe_exe))
            ext = self.ext_of(s.path)
            if ext is not None and self.loaders[ext][2] == "":
                os.chmod(full, 0o755)
            else:
                os.chmod(full, s.mode)
        os.utime(full, ns=(ns, ns))

    def beh(self, source_dir=".", base=None):
        """behaviour file entries that make the monitor recipe answer get_tags"""
        b = dict(base or {})
        for p, s in self.files.items():
            if s.get_tags is not None:
                # maike2 passes the path as it walked it: ./p or dir/p
                for key in {p, "./" + p, norm(posixpath.join(source_dir, p)), posixpath.join(source_dir, p)}:
                    b["get_tags:" + key] = {"tags": s.get_tags.json()}
        return b


class Node:
    def __init__(self, path, origin):
        self.path, self.origin = path, origin
        self.use, self.bld, self.targets = [], [], []
        self.recipe = None
        self.config = None
        self.src = None
        self.is_dir = False
        self.rebuild = None


class Edge:
    __slots__ = ("name", "origin", "props")

    def __init__(self, name, origin, props=None):
        self.name, self.origin, self.props = name, origin, dict(props or {})


def merge(a, b):
    """the documented merge: objects recursively, arrays appended, everything else replaced"""
    out = dict(a)
    for k, v in b.items():
        if k in out and isinstance(out[k], dict) and isinstance(v, dict):
            out[k] = merge(out[k], v)
        elif k in out and isinstance(out[k], list) and isinstance(v, list):
            out[k] = out[k] + v
        else:
            out[k] = v
    return out


class GraphError(Exception):
    pass


class Model:
    """The dependency graph that a project means."""

    def __init__(self, project, system_recipes, source_dir=".", target_dir=None, scanned=None):
        self.p, self.sd = project, norm(source_dir)
        if target_dir is None:
            target_dir = "__targets" if self.sd == "." else posixpath.basename(self.sd) + "_targets"
        self.td = norm(target_dir)
        self.sysrec = system_recipes
        self.nodes = {}
        self.error = None
        self.build(scanned)

    # path helpers
    def sp(self, p):
        return norm(posixpath.join(self.sd, p))

    def tp(self, p):
        return norm(posixpath.join(self.td, p))

    def resolve(self, d, srcdir, default):
        origin = d.origin or default
        if origin in (SYSTEM, PKG):
            return Edge(d.ref, origin, d.props)
        rel = norm(posixpath.join(srcdir, d.ref)) if d.ref.startswith("./") else norm(d.ref)
        return Edge(self.tp(rel) if origin == GENERATED else self.sp(rel), origin, d.props)

    def recipe(self, name):
        if name == "":
            return None
        if os.path.basename(name) == name and name not in self.p.files and not any(name == f for f in self.p.project_recipes):
            return Edge(posixpath.join(self.sysrec, name), SYSTEM)
        return Edge(self.sp(name), PROJECT)

    def build(self, scanned):
        p = self.p
        paths = sorted(p.files) if scanned is None else sorted(scanned)
        dirs = {""}
        for f in list(paths) + [d + "/x" for d in p.dirs]:
            d = posixpath.dirname(f)
            while d:
                dirs.add(d)
                d = posixpath.dirname(d)
        dirrec = self.recipe(p.dir_recipe)
        for d in sorted(dirs):
            n = Node(self.sp(d) if d else self.sd, PROJECT)
            n.is_dir = True
            if d:
                n.use.append(Edge(self.sp(posixpath.dirname(d)), PROJECT))
            n.use.append(dirrec)
            n.targets = [(self.tp(d) if d else self.td, Target(d))]  # maike2 writes the root one as td + "/"
            n.recipe, n.config = dirrec, {}
            self.nodes[n.path] = n
        extra = {}
        for f in paths + ["maikeconfig.json"]:
            n = Node(self.sp(f), PROJECT)
            self.nodes[n.path] = n
            s = p.files.get(f)
            ext = p.ext_of(f)
            if s is None or ext is None:
                continue
            n.src = s
            sdir = posixpath.dirname(f)
            name, typ, recipe, cfg, gt, lcfg = p.loaders[ext]
            if dirrec is None or n.path != dirrec.name:
                n.use.append(Edge(self.sp(sdir) if sdir else self.sd, PROJECT))
            tags = s.tags if typ != "generic" else Tags([Target(posixpath.basename(f) + lcfg["target_filename_ext"] if lcfg.get("filename_ext_replacement_mode", "append") == "append" else posixpath.splitext(posixpath.basename(f))[0] + lcfg["target_filename_ext"])])
            tag_sets = [tags]
            # a compiler in the tags decides itself whether it is asked for tags
            asks = gt if tags.compiler is None else tags.compiler.get("use_get_tags", 0)
            if s.get_tags is not None and asks:
                tag_sets.append(s.get_tags)
            for inc, q in s.includes:
                if q == '"':
                    n.use.append(self.resolve(Dep(inc, GENERATED if inc.endswith(".gen.hpp") else PROJECT), sdir, PROJECT))
                else:
                    n.use.append(Edge(inc, SYSTEM))
            ex = []
            for tg in tag_sets:
                n.use += [self.resolve(d, sdir, GENERATED) for d in tg.deps]
                ex += [self.resolve(d, sdir, GENERATED) for d in tg.extra]
                for t in tg.targets:
                    n.targets.append((self.tp(norm(posixpath.join(sdir, t.name))), t))
            extra[n.path] = ex
            ov = tags.compiler or {}
            n.recipe = self.recipe(ov.get("recipe") or recipe)
            if n.recipe is not None:
                n.use.append(n.recipe)
            n.config = merge(cfg, ov.get("config", {}))
            n.rebuild = tags.rebuild
            n.link = typ == "lib" or (typ == "cxx_src_loader" and "link" in cfg.get("actions", []))
        # targets
        owner = {}
        for path, n in sorted(self.nodes.items()):
            for tname, t in n.targets:
                if n.is_dir and tname == path:
                    continue
                if tname in owner:
                    self.error = ("duplicate", tname)
                    return
                owner[tname] = (n, t)
        self.owner = owner
        self.check_acyclic(self.nodes)
        if self.error:
            return
        tnodes = {}
        for tname, (n, t) in owner.items():
            tn = Node(tname, GENERATED)
            sdir = posixpath.dirname(posixpath.relpath(n.path, self.sd)) if not n.is_dir else ""
            tn.use = [self.resolve(d, sdir, SYSTEM) for d in t.deps] + [Edge(x, PKG) for x in t.pkgconfig]
            for m in self.reach_source(n):
                tn.use += [e for e in extra.get(m, []) if e.name != tname]
            tn.bld = [Edge(n.path, PROJECT)]
            tnodes[tname] = tn
        for k, v in tnodes.items():
            self.nodes.setdefault(k, v)
        for n in list(self.nodes.values()):
            for e in n.use:
                if e.origin in (SYSTEM, PKG) and e.name not in self.nodes:
                    self.nodes[e.name] = Node(e.name, e.origin)
        for n in list(self.nodes.values()):
            if getattr(n, "link", False):
                for tname, t in n.targets:
                    if tname in tnodes:
                        n.use += tnodes[tname].use
        for n in self.nodes.values():
            for e in n.use + n.bld:
                if e.name not in self.nodes:
                    self.error = ("unresolved", n.path, e.name)
                    return
        self.check_acyclic(self.nodes)

    def reach_source(self, n):
        seen, todo = set(), [n.path]
        while todo:
            x = todo.pop()
            if x in seen or x not in self.nodes:
                continue
            seen.add(x)
            todo += [e.name for e in self.nodes[x].use + self.nodes[x].bld]
        return seen

    def check_acyclic(self, nodes):
        state = {}
        for root in nodes:
            if root in state:
                continue
            stack = [(root, iter([e.name for e in nodes[root].use + nodes[root].bld if e.name in nodes]))]
            state[root] = 1
            while stack:
                x, it = stack[-1]
                for y in it:
                    if state.get(y) == 1:
                        self.error = ("cycle", x, y)
                        return
                    if y not in state:
                        state[y] = 1
                        stack.append((y, iter([e.name for e in nodes[y].use + nodes[y].bld if e.name in nodes])))
                        break
                else:
                    state[x] = 2
                    stack.pop()

    def edges(self):
        return {(n.path, e.name) for n in self.nodes.values() for e in n.use + n.bld}

    def tasks(self):
        return [n for n in self.nodes.values() if n.targets]

    def closure(self, path):
        """names of everything that must be in place before `path` is built (without itself)"""
        cache = self.__dict__.setdefault("_cl", {})
        if path in cache:
            return cache[path]
        seen, todo = set(), [e.name for e in self.nodes[path].use + self.nodes[path].bld]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [e.name for e in self.nodes[x].use + self.nodes[x].bld]
        cache[path] = seen
        return seen

    def incoming(self, path):
        """edges that may describe `path` among the nodes of the graph"""
        out = self.__dict__.setdefault("_in", None)
        if out is None:
            out = {}
            for n in self.nodes.values():
                for e in n.use + n.bld:
                    out.setdefault(e.name, []).append((n.path, e))
            self._in = out
        return out.get(path, [])

    def prereq_tasks(self, path):
        """source paths of the tasks that must be finished before the task of `path` starts"""
        return {x for x in self.closure(path) if self.nodes[x].targets}

    def task_closure_of_target(self, tname):
        n = self.owner[tname][0]
        return {n.path} | self.prereq_tasks(n.path)

    def topo_tasks(self):
        done, out = set(), []
        ts = sorted(self.tasks(), key=lambda n: n.path)
        pre = {n.path: self.prereq_tasks(n.path) for n in ts}
        left = ts
        while left:
            rest = []
            for n in left:
                if pre[n.path] <= done:
                    out.append(n)
                    done.add(n.path)
                else:
                    rest.append(n)
            assert len(rest) < len(left)
            left = rest
        return out

    # -- what an incremental build must do
    def simulate(self, root, force=False, only=None, failing=(), dirty=()):
        """-> (set of source paths whose recipe must be run).  Uses the time stamps below root.
        failing: sources whose recipe will fail (their dependents are then not run).
        dirty: sources that must be run whatever the time stamps say."""
        stamp = {}

        def mt(p):
            if p in stamp:
                return stamp[p]
            try:
                return os.stat(os.path.join(root, p)).st_mtime_ns
            except OSError:
                return None
        NOW = 1 << 62
        run, dead = set(), set()
        for n in self.topo_tasks():
            if only is not None and n.path not in only:
                continue
            if self.prereq_tasks(n.path) & dead:
                dead.add(n.path)
                continue
            must = force or n.rebuild == "always" or n.path in dirty
            if not must:
                for tname, _ in n.targets:
                    if os.path.isdir(os.path.join(root, tname)):
                        continue
                    t = mt(tname)
                    if t is None:
                        must = True
                        break
                    ins = [n.path] + [x for x in self.closure(n.path) if self.nodes[x].origin in (PROJECT, GENERATED)]
                    for x in ins:
                        if os.path.isdir(os.path.join(root, x)):
                            continue
                        m = mt(x)
                        if m is not None and not m < t:
                            must = True
                            break
                    if must:
                        break
            if must:
                run.add(n.path)
                if n.path in failing:
                    dead.add(n.path)
                else:
                    for tname, _ in n.targets:
                        stamp[tname] = NOW
                    NOW += 1
        return run, dead


# ---------------------------------------------------------------------------------- generator
def random_project(rng, size=14, features=None, loaders=None):
    """A random valid project (its model has no error by construction, apart from accidents)."""
    f = {"cxx": 1, "link": 1, "lib": 1, "generic": 1, "get_tags": 1, "self": 1, "always": 0.05, "override": 0.15,
         "multi": 0.3, "project_recipe": 0.3, "extra": 1, "dirs": 1, "noise": 1, "hidden": 0.15,
         "names": ["f", "g h", "x.y", "é", "a-b", "q'q"]}
    f.update(features or {})
    p = Project(loaders)
    dirs = [""]
    dirnames = ["d", "sub", "lib dir", "ö", "core"]
    if rng.random() < f["hidden"]:
        # hidden files are not excluded
        p.input_filter = [x for x in p.input_filter if x != "^\\."]
        dirnames += [".conf", ".d.", "..x"]
        f["names"] = f["names"] + [".h", "..i"]
    if f["dirs"]:
        for i in range(rng.randint(0, max(1, size // 4))):
            dirs.append(posixpath.join(rng.choice(dirs), rng.choice(dirnames) + str(i)))
    p.dirs |= {d for d in dirs if d}
    if rng.random() < f["project_recipe"]:
        recname = rng.choice(["rec.bin", "rec.s"]) if ".s" in p.loaders else "rec.bin"
        p.project_recipes.add(recname)
        p.add(Src(recname))
        ext = rng.choice([".x", ".cpp"])
        for e in ([".x"] if ext == ".x" else [".cpp", ".hpp"]):
            v = list(p.loaders[e])
            v[2] = recname
            p.loaders[e] = tuple(v)
        if rng.random() < 0.2:
            p.dir_recipe = recname
    if p.dirs and rng.random() < f["project_recipe"] * 0.5:
        # other recipes of that name
        for d in rng.sample(sorted(p.dirs), min(len(p.dirs), rng.choice([1, 1, 2]))):
            x = posixpath.join(d, "rec.bin")
            p.project_recipes.add(x)
            p.add(Src(x))
    gens = []      # (generated path relative to the target dir, directory)
    headers = []   # project headers (path)
    objs_of_header = []
    kinds = [".x"] * 5
    if f["cxx"]:
        kinds += [".cpp"] * 4 + [".hpp"] * 4
    if f["link"]:
        kinds += [".test.cpp", ".app", ".rule"]
    if f["lib"]:
        kinds += [".lib"]
    if f["generic"]:
        kinds += [".g", ".r"]
    if f["get_tags"]:
        kinds += [".t", ".t"]
    if f["self"]:
        kinds += [".s"]
    kinds = [k for k in kinds if k in p.loaders]

    def ref_to(path, d, gen):
        """a way to write a reference to `path` (relative to root) from directory d"""
        if d == "" or posixpath.dirname(path).startswith(d):
            rel = posixpath.relpath(path, d or ".")
            if rng.random() < 0.5 and not rel.startswith(".."):
                return "./" + rel
        if rng.random() < 0.25:
            return "./" + posixpath.relpath(path, d or ".")
        return path

    def some_deps(d, k, origin_default, maxn=3):
        out = []
        pool = gens if k == "gen" else headers
        for g in rng.sample(pool, min(len(pool), rng.randint(0, maxn))):
            ref = ref_to(g, d, True)
            origin = GENERATED if k == "gen" else PROJECT
            dep = Dep(ref, origin if origin != origin_default or rng.random() < 0.3 else None)
            if rng.random() < 0.4:
                dep.props["rel"] = rng.choice(["implementation", "include", "misc \"q\""])
            if rng.random() < 0.15:
                dep.props[rng.choice(["reference", "refs", "re", "origin of", "orig", "", "name", "Ref"])] = rng.choice(["x", "", "y z"])
            out.append(dep)
        return out

    def ext_deps(origin_default):
        out = []
        if rng.random() < 0.25:
            out.append(Dep(rng.choice(["pthread", "m", "z lib", "libfoo"]), SYSTEM if origin_default != SYSTEM else None, rel="external"))
        if rng.random() < 0.1:
            out.append(Dep(rng.choice(["jansson", "gtk"]), PKG))
        return out

    for i in range(size):
        kind = rng.choice(kinds)
        d = rng.choice(dirs)
        base = rng.choice(f["names"] if kind not in (".hpp", ".cpp") else ["f", "g h", "é", "q'q"]) + str(i)
        path = posixpath.join(d, base + kind)
        typ = p.loaders[kind][1]
        s = Src(path, style=rng.randint(0, 11))
        if kind == ".hpp":
            for h in rng.sample(headers, min(len(headers), rng.randint(0, 2))):
                if h.endswith(".hpp"):
                    s.includes.append((ref_to(h, d, False), '"'))
            if rng.random() < 0.3:
                s.includes.append((rng.choice(["vector", "cstdio"]), "<"))
            if f["extra"] and gens and rng.random() < 0.3:
                s.tags.extra = some_deps(d, "gen", GENERATED, 2) + (ext_deps(GENERATED) if rng.random() < 0.3 else [])
            if rng.random() < 0.3:
                s.tags.deps = some_deps(d, "gen", GENERATED, 1)
            headers.append(path)
            p.add(s)
            # an implementation that includes its own header, whose object is the header's extra dependency
            if f["extra"] and rng.random() < 0.6:
                impl = Src(posixpath.join(d, base + ".cpp"), style=rng.randint(0, 11))
                impl.includes.append(("./" + base + kind, '"'))
                oname = base + ".o"
                impl.tags.targets = [Target(oname, ext_deps(SYSTEM))]
                p.add(impl)
                s.tags.extra = s.tags.extra + [Dep("./" + oname, rel="implementation")]
                gens.append(posixpath.join(d, oname))
            continue
        if typ == "generic":
            p.add(s)
            s.body = "data\n"
            lc = p.loaders[kind][5]
            nm = posixpath.basename(path)
            nm = nm + lc["target_filename_ext"] if kind == ".g" else posixpath.splitext(nm)[0] + lc["target_filename_ext"]
            gens.append(posixpath.join(d, nm))
            continue
        ntgt = rng.randint(2, 3) if rng.random() < f["multi"] and typ == "extension" else 1
        new = []
        for k in range(ntgt):
            nm = f"{base}.{k}.o" if rng.random() < 0.8 or kind == ".cpp" or any(ch in base for ch in '"\\\t<>') else f"{base}.{k}.gen.hpp"
            t = Target(nm, [])
            if rng.random() < 0.35:
                t.deps = some_deps(d, "gen", SYSTEM, 2) + ext_deps(SYSTEM)
            if rng.random() < 0.12:
                t.pkgconfig = rng.sample(["jansson", "gtk+-3", "zlib"], rng.randint(1, 2))
            if rng.random() < 0.3:
                t.props = {"type": "object"}
            s.tags.targets.append(t)
            new.append(posixpath.join(d, nm))
        s.tags.single = rng.random() < (0.6 if ntgt == 1 else 0.2)
        s.tags.deps = some_deps(d, "gen", GENERATED)
        if rng.random() < 0.3:
            s.tags.deps += some_deps(d, "hdr", GENERATED, 2)
        if rng.random() < 0.2:
            s.tags.deps += ext_deps(GENERATED)
        if typ == "cxx_src_loader":
            for h in rng.sample(headers, min(len(headers), rng.randint(0, 3))):
                if h.endswith(".hpp"):
                    s.includes.append((ref_to(h, d, False), '"'))
            gh = [g for g in gens if g.endswith(".gen.hpp")]
            if gh and rng.random() < 0.6:
                s.includes.append((ref_to(rng.choice(gh), d, True), '"'))
            if rng.random() < 0.4:
                s.includes.append((rng.choice(["vector", "cstdio", "sys/types.h"]), "<"))
        if kind == ".t":
            s.get_tags = Tags()
            if rng.random() < 0.8:
                nm = f"{base}.gt.o"
                s.get_tags.targets = [Target(nm)]
                new.append(posixpath.join(d, nm))
            s.get_tags.deps = some_deps(d, "gen", GENERATED, 2)
        if rng.random() < f["override"] and kind in (".x", ".cpp"):
            s.tags.compiler = {"config": rng.choice([{}, {"k": 7}, {"o": {"p": "z", "n": None}}, {"list": ["v", 3], "cflags": ["-O2"]}])}
            if rng.random() < 0.3 and p.project_recipes:
                s.tags.compiler["recipe"] = rng.choice(sorted(p.project_recipes))
        if rng.random() < f["always"]:
            s.tags.rebuild = "always"
        p.add(s)
        gens += new
        if typ == "extension" and rng.random() < 0.4:
            headers.append(path)
    if f["noise"] and rng.random() < 0.5:
        p.add(Src(posixpath.join(rng.choice(dirs), "readme.txt"), body="nothing\n"))
    return p
