"""C24: C++ projects are built correctly end to end with the default configuration."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import posixpath, datetime

REG = """#ifndef REG_HPP
#define REG_HPP
struct Reg
{
	explicit Reg(char const* n): name{n}, next{head()} { head() = this; }
	static Reg*& head()
	{
		static Reg* h = nullptr;
		return h;
	}
	char const* name;
	Reg* next;
};
#endif
"""
SHOW = """#include <cstdio>
static void show(long long v)
{
	printf("value %lld\\nstd %ld\\n", v, static_cast<long>(__cplusplus));
	for(auto r = Reg::head(); r; r = r->next) { printf("object %s\\n", r->name); }
	printf("build %s %ld %s %s\\n", MAIKE_BUILDINFO_BUILDID, MAIKE_BUILDINFO_STARTTIME, MAIKE_BUILDINFO_STARTTIME_STR, MAIKE_BUILDINFO_SOURCEDIR "|" MAIKE_BUILDINFO_TARGETDIR);
}
"""
DIRS = ["", "", "a", "a/deep", "b", "lib.v2", "x y", "é"]


class Cxx:
    """a C++ project and what its programs must do"""

    def __init__(self, rng, flat, size):
        self.rng, self.flat = rng, flat
        self.k = 0
        self.plain, self.gen, self.unit, self.apps, self.libs, self.tests = {}, {}, {}, {}, {}, {}
        for _ in range(rng.randint(1, 2 + size // 3)):
            self.add_plain()
        for _ in range(rng.randint(0, 1 + size // 5)):
            self.add_gen()
        for _ in range(size):
            self.add_unit()
        for _ in range(rng.randint(1, 1 + size // 4)):
            self.add_app()
        for _ in range(rng.randint(0, 2)):
            self.add_lib()
        for _ in range(rng.randint(0, 2)):
            self.add_test()

    def new(self, prefix):
        self.k += 1
        return f"{prefix}{self.k}"

    def dir(self):
        return "" if self.flat else self.rng.choice(DIRS)

    def stem(self, n):
        """file name of a unit; units in different directories may have the same one"""
        x = self.unit[n]
        return "same" if x["twin"] and x["dir"] and not any(y["twin"] and y["dir"] == x["dir"] and y["order"] < x["order"] for y in self.unit.values()) else n

    def some(self, d, k, below=None):
        xs = [x for x in d if below is None or d[x]["order"] < below]
        return self.rng.sample(xs, min(len(xs), self.rng.randint(0, k)))

    # a plain header: a constant, and other ones of its kind
    def add_plain(self):
        n = self.new("h")
        self.plain[n] = dict(order=self.k, dir=self.dir(), c=self.rng.randint(1, 999), plain=self.some(self.plain, 2), gen=self.some(self.gen, 1), system=self.rng.choice([[], ["cstddef"], ["cmath"]]), top=self.rng.random() < 0.5)
        return n

    # a generated header: a constant from the generator or from a file it reads
    def add_gen(self):
        n = self.new("g")
        self.gen[n] = dict(order=self.k, dir=self.dir(), c=self.rng.randint(1, 999), data=self.rng.random() < 0.5, chain=self.some(self.gen, 1))
        return n

    # a unit: header and source, uses other ones through either
    def add_unit(self):
        n = self.new("u")
        h = self.some(self.unit, 2)
        s = [x for x in self.some(self.unit, 3) if x not in h]
        self.unit[n] = dict(order=self.k, dir=self.dir(), c=self.rng.randint(1, 999), inl=h, use=s, plain=self.some(self.plain, 2), gen=self.some(self.gen, 2), flag=self.rng.choice([None, None, None, self.rng.randint(1, 999)]),
                            top=self.rng.random() < 0.5, lib=self.rng.choice([None, None, None, "m", "pthread", "z", "jansson", "vpkg", "vpkg2"]), force=self.some(self.plain, 1) if self.rng.random() < 0.2 else [],
                            twin=self.rng.random() < 0.25)
        return n

    def add_app(self):
        n = self.new("p")
        self.apps[n] = dict(order=self.k, dir=self.dir(), adir=self.dir(), c=self.rng.randint(1, 999), use=self.some(self.unit, 3), plain=self.some(self.plain, 2), gen=self.some(self.gen, 1), libs=self.some(self.libs, 1), top=True, flag=None)

    def add_lib(self):
        if self.unit:
            n = self.new("l")
            self.libs[n] = dict(order=self.k, dir=self.dir(), units=self.some(self.unit, 4) or [next(iter(self.unit))])

    def add_test(self):
        n = self.new("t")
        self.tests[n] = dict(order=self.k, dir=self.dir(), use=self.some(self.unit, 2), plain=self.some(self.plain, 1), gen=[], wrong=0, top=True, c=0, flag=None)

    # values
    def vplain(self, n):
        x = self.plain[n]
        return x["c"] + sum(map(self.vplain, x["plain"])) + sum(map(self.vgen, x["gen"]))

    def vgen(self, n):
        x = self.gen[n]
        return x["c"] + sum(map(self.vgen, x["chain"]))

    def vuse(self, x, consts=True):
        return x["c"] + sum(self.vunit(u) for u in x["use"]) + sum(map(self.vplain, x["plain"])) + sum(map(self.vgen, x["gen"])) + (x["flag"] or 0) + sum(map(self.vplain, x.get("force", ())))

    def vinl(self, n):
        """of the inline function in the header"""
        return 7 * self.unit[n]["order"] + sum(self.vunit(u) for u in self.unit[n]["inl"])

    def vunit(self, n, memo=None):
        key = ("v", n)
        if key not in self.memo:
            self.memo[key] = (self.vuse(self.unit[n]) + self.vinl(n)) % 1000003
        return self.memo[key]

    def objects(self, units):
        out, todo = set(), list(units)
        while todo:
            u = todo.pop()
            if u not in out:
                out.add(u)
                todo += self.unit[u]["inl"] + self.unit[u]["use"]
        return out

    # files
    def ref(self, d, n, ext, rel):
        """an include directive for file n+ext in directory d from directory rel"""
        if d == rel and self.rng.random() < 0.6:
            return f'#include "./{n}{ext}"\n'
        return f'#include "{posixpath.join(d, n + ext)}"\n'

    def includes(self, x, rel, own=None):
        inc = [f"#include <{s}>\n" for s in x.get("system", ())]
        inc += [self.ref(self.plain[h]["dir"], h, ".hpp", rel) for h in x["plain"]]
        inc += [self.ref(self.gen[h]["dir"], h, ".gen.hpp", rel) for h in x["gen"]]
        inc += [self.ref(self.unit[h]["dir"], self.stem(h), ".hpp", rel) for h in list(x.get("use", ())) + list(x.get("inl", ()))]
        self.rng.shuffle(inc)
        return "".join(inc)

    def tag(self, o, prefix="//@"):
        t = json.dumps(o, indent=self.rng.choice([None, None, 1]))
        return "".join(f"{prefix}\t{ln}\n" for ln in t.split("\n"))

    def impl(self, d, n, rel):
        return {"ref": "./" + n if d == rel else posixpath.join(d, n), "rel": "implementation", "origin": "generated"}

    def expr(self, x):
        return " + ".join([f"{x['c']}ll"] + [f"{u}()" for u in x["use"]] + [f"c_{h}" for h in x["plain"] + x["gen"]] + ([f"FLAG_{x['flag']}"] if x["flag"] is not None else []))

    def files(self):
        """{path: (text, executable)}; the layout is random, so only call it once per change"""
        self.memo = {}
        out = {"reg.hpp": (REG, False)}
        rng = self.rng
        st = rng.getstate()
        for n, x in self.plain.items():
            rng.seed(f"{n} {x['dir']}")
            out[posixpath.join(x["dir"], n + ".hpp")] = (f"#ifndef {n}_HPP\n#define {n}_HPP\n" + self.includes(x, x["dir"]) + f"constexpr long long c_{n} = " + " + ".join([str(x["c"])] + [f"c_{h}" for h in x["plain"] + x["gen"]]) + ";\n#endif\n", False)
        for n, x in self.gen.items():
            rng.seed(f"{n} {x['dir']}")
            deps = []
            if x["data"]:
                deps.append({"ref": f"./{n}.data", "origin": "project"})
                out[posixpath.join(x["dir"], n + ".data")] = (str(x["c"]) + "\n", False)
            for h in x["chain"]:
                deps.append({"ref": posixpath.join(self.gen[h]["dir"], h + ".gen.hpp"), "origin": "generated"})
            val = f"int(open(os.path.join(os.path.dirname(arg['source_file']), '{n}.data')).read())" if x["data"] else str(x["c"])
            out[posixpath.join(x["dir"], n + ".py")] = ("#!/usr/bin/env python3\n" + self.tag({"target": {"name": n + ".gen.hpp"}, **({"dependencies": deps} if deps else {})}, "#@")
                + "import json, os, re, sys\n"
                "if sys.argv[1] == 'compile':\n"
                "\targ = json.loads(sys.argv[2])\n"
                f"\tv = {val}\n"
                "\tfor d in arg['dependencies']:\n"
                f"\t\tif d['origin'] == 'generated' and os.path.basename(d['ref']) in {[h + '.gen.hpp' for h in x['chain']]!r}:\n"
                "\t\t\tv += int(re.search('= (.*);', open(d['ref']).read())[1])\n"
                "\twith open(arg['targets'][0], 'w') as f:\n"
                f"\t\tf.write('#ifndef {n}_HPP\\n#define {n}_HPP\\nconstexpr long long c_{n} = %d;\\n#endif\\n' % v)\n", True)
        for n, x in self.unit.items():
            rng.seed(f"{n} {x['dir']}")
            hx = dict(x, plain=[], gen=[], use=[], system=[])
            sn = self.stem(n)
            own = {"ref": f"./{sn}.o", "rel": "implementation", "origin": "generated"}
            if rng.random() < 0.5:
                own.pop("origin")
            h = self.tag({"dependencies_extra": [own]}) + f"#ifndef {n}_HPP\n#define {n}_HPP\n" + self.includes(hx, x["dir"]) + f"long long {n}();\ninline long long i_{n}() {{ return " + " + ".join([f"{7 * x['order']}ll"] + [f"{u}()" for u in x["inl"]]) + "; }\n#endif\n"
            out[posixpath.join(x["dir"], sn + ".hpp")] = (h, False)
            sx = dict(x, inl=[])
            tg = {"name": sn + ".o"}
            sdeps = []
            if x["lib"] in ("jansson", "vpkg", "vpkg2"):
                tg["pkgconfig_libs"] = [x["lib"]]
                if x["lib"] != "jansson":
                    sdeps.append({"ref": x["lib"], "origin": "pkg-config"})
            elif x["lib"]:
                tg["dependencies"] = [{"ref": x["lib"], "origin": "system", "rel": "external"}]
            tags = {"target": tg}
            # headers that the tags ask to be included
            for h in x["force"]:
                sdeps.append({"ref": self.ref(self.plain[h]["dir"], h, ".hpp", x["dir"]).split('"')[1], "origin": "project", "rel": "include"})
            if sdeps:
                tags["dependencies"] = sdeps
            if x["flag"] is not None:
                tags["compiler"] = {"config": {"cflags": [f"-DFLAG_{x['flag']}={x['flag']}"]}}
            lib = {"m": ("#include <cmath>\n", "static volatile double vd = 4.0;\n", " + static_cast<long long>(std::cbrt(vd - 4.0))"), "pthread": ("#include <pthread.h>\n", "", " + (pthread_self() ? 0 : 1)"),
                   "z": ('extern "C" char const* zlibVersion();\n', "", " + (zlibVersion()[0] ? 0 : 1)"), "jansson": ("#include <jansson.h>\n", "", " + (json_true() ? 0 : 1)"),
                   "vpkg": ("#include <vpkg.h>\n", "", " + (vp_one() - VPKG)"), "vpkg2": ("#include <vpkg2.h>\n", "", " + (vp_three() - VPKG2)"), None: ("", "", "")}[x["lib"]]
            out[posixpath.join(x["dir"], sn + ".cpp")] = (self.tag(tags) + f'#include "./{sn}.hpp"\n#include "reg.hpp"\n' + self.includes(sx, x["dir"]) + lib[0] + lib[1] + f'static Reg const reg{{"{n}"}};\nlong long {n}() {{ return ({self.expr(x)}{"".join(f" + c_{h}" for h in x["force"])} + i_{n}(){lib[2]}) % 1000003; }}\n', False)
        for n, x in self.apps.items():
            rng.seed(f"{n} {x['dir']}")
            out[posixpath.join(x["dir"], n + ".cpp")] = (self.tag({"target": {"name": n + ".o"}}) + '#include "reg.hpp"\n' + self.includes(x, x["dir"]) + SHOW + f"int main() {{ show({self.expr(x)}); return {x['c'] % 3}; }}\n", False)
            deps = [self.impl(x["dir"], n + ".o", x["adir"])] + [self.impl(self.libs[q]["dir"], "lib" + q + ".a", x["adir"]) for q in x["libs"]]
            rng.shuffle(deps)
            out[posixpath.join(x["adir"], n + ".app.maikerule")] = (json.dumps({"target": {"name": n}, "dependencies": deps}), False)
        for n, x in self.libs.items():
            deps = [self.impl(self.unit[u]["dir"], self.stem(u) + ".o", x["dir"]) for u in x["units"]]
            out[posixpath.join(x["dir"], n + ".lib.maikerule")] = (json.dumps({"target": {"name": f"lib{n}.a"}, "dependencies": deps}), False)
        for n, x in self.tests.items():
            rng.seed(f"{n} {x['dir']}")
            tags = {"target": {"name": n + ".test"}}
            out[posixpath.join(x["dir"], n + ".test.cpp")] = (self.tag(tags) + '#include "reg.hpp"\n' + self.includes(x, x["dir"]) + f"#include <cstdio>\nint main()\n{{\n\tlong long const v = {self.expr(x)};\n\tprintf(\"test {n} sees %lld\\n\", v);\n\treturn v == {self.vuse(x) + x['wrong']}ll ? 0 : 1;\n}}\n", False)
        rng.setstate(st)
        return out

    def users(self, kind, n):
        return [y for d in (self.plain, self.gen, self.unit, self.apps, self.tests) for y in d.values() if n in y.get(kind, ()) or kind == "plain" and n in y.get("force", ())] + ([y for y in self.libs.values() if n in y["units"]] if kind == "use" else []) + \
            ([y for y in self.unit.values() if n in y["inl"]] if kind == "use" else []) + ([y for y in self.gen.values() if n in y["chain"]] if kind == "gen" else []) + ([y for y in self.apps.values() if n in y["libs"]] if kind == "libs" else [])

    def edit(self):
        rng = self.rng
        k = rng.choice(["const", "const", "const", "use", "use", "unuse", "unuse", "inl", "uninl", "plain", "add_unit", "add_app", "add_lib", "add_test", "remove", "move", "flag", "lib_units", "app_libs", "rename", "data"])
        src = list(self.unit.values()) + list(self.apps.values()) + list(self.tests.values())
        if k == "const":
            d = rng.choice([x for x in (self.plain, self.gen, self.unit, self.apps) if x])
            rng.choice(list(d.values()))["c"] = rng.randint(1, 999)
        elif k == "data":
            for x in self.gen.values():
                x["data"] = not x["data"] if rng.random() < 0.5 else x["data"]
        elif k == "use":
            x = rng.choice(src)
            c = [u for u in self.unit if self.unit[u]["order"] < x["order"] and u not in x["use"] and u not in x.get("inl", ())]
            if c:
                x["use"].append(rng.choice(c))
        elif k == "unuse":
            c = [x for x in src if x["use"]]
            if c:
                x = rng.choice(c)
                x["use"].remove(rng.choice(x["use"]))
        elif k == "inl" and self.unit:
            x = rng.choice(list(self.unit.values()))
            c = [u for u in self.unit if self.unit[u]["order"] < x["order"] and u not in x["inl"]]
            if c:
                u = rng.choice(c)
                x["inl"].append(u)
                x["use"] = [y for y in x["use"] if y != u]
        elif k == "uninl":
            c = [x for x in self.unit.values() if x["inl"]]
            if c:
                x = rng.choice(c)
                x["inl"].remove(rng.choice(x["inl"]))
        elif k == "plain":
            x = rng.choice(src)
            x["plain"] = self.some(self.plain, 2)
            x["gen"] = self.some(self.gen, 1)
        elif k.startswith("add_"):
            getattr(self, k)()
        elif k == "remove":
            d, kind = rng.choice([(self.unit, "use"), (self.plain, "plain"), (self.gen, "gen"), (self.libs, "libs"), (self.tests, None), (self.apps, None)])
            if d:
                n = rng.choice(list(d))
                for y in self.users(kind, n) if kind else ():
                    for f in ("use", "inl", "plain", "force", "gen", "chain", "units", "libs"):
                        if n in y.get(f, ()):
                            y[f] = [z for z in y[f] if z != n]
                del d[n]
                self.libs = {q: y for q, y in self.libs.items() if y["units"] or self.users("libs", q)}
                for y in self.libs.values():
                    y["units"] = y["units"] or [next(iter(self.unit))] if self.unit else y["units"]
        elif k == "move" and not self.flat:
            d = rng.choice([x for x in (self.plain, self.gen, self.unit, self.apps, self.libs, self.tests) if x])
            x = rng.choice(list(d.values()))
            x["dir"] = self.dir()
            if "adir" in x:
                x["adir"] = self.dir()
        elif k == "flag" and self.unit:
            rng.choice(list(self.unit.values()))["flag"] = rng.choice([None, rng.randint(1, 999)])
        elif k == "lib_units" and self.libs and self.unit:
            rng.choice(list(self.libs.values()))["units"] = rng.sample(list(self.unit), min(len(self.unit), rng.randint(1, 3)))
        elif k == "app_libs" and self.libs and self.apps:
            x = rng.choice(list(self.apps.values()))
            x["libs"] = [q for q in rng.sample(list(self.libs), 1) if not x["libs"]]
        elif k == "rename" and self.unit:
            o = rng.choice(list(self.unit))
            n = self.new("u")
            self.unit = {n if u == o else u: x for u, x in self.unit.items()}
            for d in (self.unit, self.apps, self.tests, self.libs):
                for y in d.values():
                    for f in ("use", "inl", "units"):
                        if f in y:
                            y[f] = [n if z == o else z for z in y[f]]
        return k


def body(c):
    m = Maike(c)
    has_z = subprocess.run(["g++", "-x", "c++", "-", "-o", "/dev/null", "-lz"], input=b"int main(){}", stderr=subprocess.DEVNULL).returncode == 0
    has_sass = subprocess.run(["/usr/bin/env", "python3", "-c", "import sass"], stderr=subprocess.DEVNULL).returncode == 0
    dumps = c.dir("dump")
    r = m.run(dumps, ["--configdump"])
    default = json.loads(r.out)
    # packages that only pkg-config knows where to find; the one needs the other
    # (in a directory, and with a definition, that have to be quoted in its answer)
    pk = os.path.join(c.dir("pkg"), "a b'c")
    os.makedirs(pk)
    esc = re.sub(r"([^\w/.-])", r"\\\1", pk)
    for n, text in {"one.c": "int vp_two(void); int vp_one(void) { return vp_two() - 1; }", "two.c": "int vp_two(void) { return 42; }", "three.c": "int vp_one(void); int vp_three(void) { return vp_one() + 2; }"}.items():
        with open(os.path.join(pk, n), "w") as f:
            f.write(text)
        subprocess.run(["gcc", "-c", n], cwd=pk, check=True)
        os.makedirs(os.path.join(pk, "l" if n != "three.c" else "l3"), exist_ok=True)
        subprocess.run(["ar", "rcs", "l/libvpone.a" if n == "one.c" else "l/libvptwo.a" if n == "two.c" else "l3/libvpthree.a", n[:-1] + "o"], cwd=pk, check=True)
    for n, text in {"i/vpkg.h": 'extern "C" int vp_one();\n#ifndef VPKG\n#error "no flags"\n#endif\nstatic_assert(sizeof(VPKG_S) == 5, "the quotes are lost");\n', "i3/vpkg2.h": '#include <vpkg.h>\nextern "C" int vp_three();\n',
                    "vpkg.pc": f"Name: vpkg\nDescription: x\nVersion: 1\nCflags: -I{esc}/i -DVPKG=41 -DVPKG_S=\\\"x\\ yz\\\"\nLibs: -L{esc}/l -lvpone -lvptwo\n",
                    "vpkg2.pc": f"Name: vpkg2\nDescription: x\nVersion: 1\nRequires: vpkg\nCflags: -I{esc}/i3 -DVPKG2=43\nLibs: -L{esc}/l3 -lvpthree\n"}.items():
        os.makedirs(os.path.dirname(os.path.join(pk, n)), exist_ok=True)
        with open(os.path.join(pk, n), "w") as f:
            f.write(text)
    env = {"PATH": os.environ["PATH"], "PKG_CONFIG_PATH": pk}
    old = c.dir("old")
    gxx = shutil.which("g++")
    for n, text in {"g++": f'for a; do case "$a" in -std=c++2*) echo no such standard >&2; exit 1;; -std=*) exec {gxx} "$@";; esac; done\nexec {gxx} -std=c++14 "$@"\n', "g++-77": f'exec {gxx} "$@"\n'}.items():
        with open(os.path.join(old, n), "w") as f:
            f.write("#!/bin/sh\n" + text)
        os.chmod(os.path.join(old, n), 0o755)
    tidy = c.dir("tidy")
    with open(os.path.join(tidy, "clang-tidy"), "w") as f:
        f.write('#!/bin/sh\necho "$1" >> "$VP_TIDY"\nif grep -q UNTIDY "$1"; then echo untidy; exit 1; fi\n')
    os.chmod(os.path.join(tidy, "clang-tidy"), 0o755)
    clang = shutil.which("clang++") is not None and subprocess.run(["clang++", "-x", "c++", "-", "-o", "/dev/null"], input=b"#include <cstdio>\nint main(){}", stderr=subprocess.DEVNULL).returncode == 0

    def other(i, rng):
        """files that are converted by a program of the project (generic.py), or copied (copy_file.py)"""
        root = c.dir("o")
        sd = rng.choice([".", "src", "a b/src"])
        src, td = os.path.join(root, sd), os.path.join(root, "__targets" if sd == "." else "src_targets")
        td_args = []
        if rng.random() < 0.3:
            td = rng.choice([os.path.join(root, "__abs t"), c.dir("out")])
            td_args = [f"--target-dir={td}"]
        os.makedirs(src, exist_ok=True)
        def put(f, t, x=False):
            full = os.path.join(src, f)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "w") as fh:
                fh.write(t)
            if x:
                os.chmod(full, 0o755)
        dirs = rng.sample([".", "d", "d/e", "g h"], rng.randint(1, 3))
        local = rng.random() < 0.4           # the program is looked for beside each file
        gen = rng.random() < 0.3             # ... and is itself a target
        cfg = json.loads(json.dumps(default))
        mc = cfg["maikeconfig"]
        mc["source_tree_loader"]["recursive"] = 1
        mc["source_tree_loader"]["file_info_loaders"].update({".up": "up", ".sass": "sass", ".dat": "identity", ".dat2": "copies", ".tool": "tool", ".data.py": "extension"})
        exe = ("./" if local else "tool dir/") + ("up" if gen else "up.tool")
        ld = mc["source_file_info_loaders"]
        ld["up"] = {"loader": "extension", "compiler": {"recipe": "generic.py", "use_get_tags": 1, "config": {"target_filename_ext": "out", "compilation_cmd": {"executable": exe, "exec_origin": "generated" if gen else "project", "args": ["$source_file", "$target", "a $$ b"]}}}}
        ld["identity"] = {"loader": "generic", "config": {"filename_ext_replacement_mode": "replace", "target_filename_ext": ".cpy"}, "compiler": {"recipe": "copy_file.py", "config": {}}}
        ld["sass"] = {"loader": "generic", "config": {"filename_ext_replacement_mode": "replace", "target_filename_ext": ".css"}, "compiler": {"recipe": "sass2css.py", "config": {}}}
        ld["copies"] = {"loader": "extension", "compiler": {"recipe": "copy_file.py", "config": {}}}
        ld["tool"] = {"loader": "extension", "compiler": {"recipe": "mk_tool.py", "config": {}}}
        put("maikeconfig.json", json.dumps(cfg))
        put("mk_tool.py", "#!/usr/bin/env python3\nimport sys, json, shutil\na = json.loads(sys.argv[2])\nif sys.argv[1] == 'compile':\n\tfor t in a['targets']:\n\t\tshutil.copy(a['source_file'], t)\n", True)
        tools, ups, cps, cp2, css = {}, {}, {}, {}, {}

        def tool(d):
            tools[d] = k = rng.choice("XYZ") + str(rng.randint(0, 99))
            put(posixpath.join(d, "up.tool"), ('#@\t{"target":{"name":"up"}}\n' if gen else "").join(["#!/bin/sh\n", f"""test "$3" = 'a $ b' || exit 9\n{{ echo {k}; grep -v '^#' "$1"; }} > "$2"\n"""]), True)
        for d in (dirs if local else ["tool dir"]):
            tool(d)
        for step in range(rng.randint(2, 4)):
            what = []
            for _ in range(rng.randint(1, 3)):
                k, d, n = rng.choice(["up", "dat", "dat2", "tool"] + ["sass"] * has_sass), rng.choice(dirs), rng.choice(["a", "b b", "ç"])
                t = f"text {rng.random()}\n"
                if k == "tool" and step:
                    tool(rng.choice(sorted(tools)))
                elif k == "up":
                    put(posixpath.join(d, n + ".up"), t)
                    ups[posixpath.normpath(posixpath.join(d, n))] = (d, t)
                elif k == "sass":
                    v = rng.randint(0, 10**6)
                    put(posixpath.join(d, n + ".sass"), f"$v: {v}px;\n.k {{ b {{ width: $v + 1px; }} }}\n")
                    css[posixpath.normpath(posixpath.join(d, n))] = ".k b { width: %dpx; }" % (v + 1)
                elif k == "dat":
                    put(posixpath.join(d, n + ".dat"), t)
                    cps[posixpath.normpath(posixpath.join(d, n))] = t
                elif k == "dat2":
                    t = f'#@\t{{"targets":[{{"name":"{n}.1"}},{{"name":"{n}.2"}}]}}\n' + t
                    put(posixpath.join(d, n + ".dat2"), t)
                    cp2[posixpath.normpath(posixpath.join(d, n))] = t
                what.append((k, d, n))
            args = td_args + ([] if sd == "." else [f"--source-dir={sd}"])
            r = m.run(root, args, env=env, timeout=300)
            data = dict(edits=what, source_dir=sd, executable=exe, generated=gen, out=tail(r.out), err=tail(r.err, 4000))
            if r.hang or r.rc != 0:
                c.violation(f"a project with files for generic.py and copy_file.py is not built: status {r.rc}, {tail(r.err, 400)!r} (case {i} step {step})", **data)
            want = {f + ".up.out": f"{tools[d if local else 'tool dir']}\n{t}" for f, (d, t) in ups.items()}
            want.update({f + ".cpy": t for f, t in cps.items()})
            want.update({f + ".css": t for f, t in css.items()})
            want.update({f + x: t for f, t in cp2.items() for x in (".1", ".2")})
            for f, t in want.items():
                try:
                    with open(os.path.join(td, f)) as fh:
                        have = fh.read()
                except OSError as e:
                    have = str(e)
                if f.endswith(".css"):
                    have = " ".join(have.split())
                if have != t:
                    c.violation(f"target {f} has {have[:100]!r} after a build, its sources say {t[:100]!r} (case {i} step {step})", **data)
                c.evaluated((i, step, f, t), step > 0)
                c.count("converted_files")
        shutil.rmtree(root, ignore_errors=True)

    def docs(i, rng):
        """documents that include parts made from markdown by (a stand-in for) pandoc"""
        root = c.dir("h")
        sd = rng.choice([".", "src", "a b/src"])
        src, td = os.path.join(root, sd), os.path.join(root, "__targets" if sd == "." else "src_targets")
        td_args = []
        if rng.random() < 0.3:
            td = rng.choice([os.path.join(root, "__abs t"), c.dir("out")])
            td_args = [f"--target-dir={td}"]
        os.makedirs(src, exist_ok=True)
        def put(f, t, x=False):
            full = os.path.join(src, f)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "w") as fh:
                fh.write(t)
            if x:
                os.chmod(full, 0o755)
        bin = os.path.join(root, "__bin")
        os.makedirs(bin)
        with open(os.path.join(bin, "pandoc"), "w") as f:
            f.write("""#!/bin/sh
for src; do :; done
grep -q FAIL "$src" && { echo cannot convert >&2; exit 23; }
sed -n 's|^# \\(.*\\)|<section id="x"><h1>\\1</h1>|p; s|^t \\(.*\\)|<p>\\1</p></section>|p' "$src"
""")
        os.chmod(os.path.join(bin, "pandoc"), 0o755)
        cfg = json.loads(json.dumps(default))
        mc = cfg["maikeconfig"]
        mc["source_tree_loader"]["recursive"] = 1
        mc["source_tree_loader"]["file_info_loaders"].update({".md": "md", ".doc.xml": "doc"})
        for k, x, rec in (("md", ".xml", "md2htmlpart.py"), ("doc", ".html", "doc2html.py")):
            mc["source_file_info_loaders"][k] = {"loader": "generic", "config": {"filename_ext_replacement_mode": "replace", "target_filename_ext": x}, "compiler": {"recipe": rec, "use_get_tags": 1, "config": {}}}
        put("maikeconfig.json", json.dumps(cfg))
        dirs = rng.sample([".", "d", "d/e", "g h", "ç", "a%20b", "q&q"], rng.randint(1, 3))
        parts, pages = {}, {}

        def part(d, n, bad=False):
            parts[d, n] = (f"head {rng.randint(0, 999)}", f"text {rng.random()}", bad)
            put(posixpath.join(d, n + ".md"), "# %s\nt %s\n%s" % (*parts[d, n][:2], "FAIL\n" if bad else ""))
        for d in dirs:
            for n in rng.sample("klm", 2):
                part(d, n)
            inc = [n for dd, n in parts if dd == d]
            pages[d] = inc
            put(posixpath.join(d, "page.doc.xml"), '<document><maintitle title="x"/><main>%s</main></document>' % "".join(f'<include src="./{n}.xml"/>' for n in inc))
        for step in range(rng.randint(2, 4)):
            bad = False
            if step:
                d, n = rng.choice(sorted(parts))
                bad = rng.random() < 0.3
                part(d, n, bad)
            r = m.run(root, td_args + ([] if sd == "." else [f"--source-dir={sd}"]), env={**env, "PATH": bin + ":" + os.environ["PATH"]}, timeout=300)
            data = dict(parts=[[*k, *v] for k, v in parts.items()], source_dir=sd, out=tail(r.out), err=tail(r.err, 4000))
            if r.hang or (r.rc != 0) != bad:
                c.violation(f"documents, of which {'one part' if bad else 'none'} is bad: status {r.rc}, {tail(r.err, 400)!r} (case {i} step {step})", **data)
            if bad:
                part(d, n)
                c.count("bad_documents")
                c.evaluated((i, step, "bad document"), True)
                continue
            for d, inc in pages.items():
                try:
                    with open(os.path.join(td, d, "page.doc.html")) as fh:
                        have = fh.read()
                except OSError as e:
                    have = str(e)
                for n in inc:
                    if parts[d, n][1] not in have:
                        c.violation(f"document {d}/page.doc.html lacks the current text of {n}.md after a build (case {i} step {step})", have=have, **data)
                    c.evaluated((i, step, d, n), step > 0)
                c.count("documents")
        shutil.rmtree(root, ignore_errors=True)

    def itself(i, rng):
        """the sources of maike, with its own configuration (nothing is compiled: recipes only record what they are asked to do);
        what has to be compiled after an edit is what the preprocessor says"""
        root = c.dir("s")
        log = os.path.join(root, "__log")
        stub = "import os, sys, json\n" + f"if sys.argv[1] != 'compile':\n\tos.execv({os.path.join(build.REPO, 'recipes')!r} + '/' + os.path.basename(sys.argv[0]), sys.argv)\n" + \
            "a = json.loads(sys.argv[2])\nwith open(os.environ['VP_LOG'], 'a') as f:\n\tf.write(json.dumps(a) + '\\n')\nfor t in a['targets']:\n\tif os.path.isdir(a['source_file']):\n\t\tos.makedirs(t, exist_ok=True)\n\telse:\n\t\topen(t, 'w').close()\n"
        for d in ("core", "recipes", "maikeconfig.json", "maike.vcslog.maikerule", "projinfo.json"):
            q = os.path.join(build.REPO, d)
            if os.path.isdir(q):
                shutil.copytree(q, os.path.join(root, d), ignore=shutil.ignore_patterns("__*"))
            elif os.path.exists(q):
                shutil.copy2(q, root)
        srcs, hdrs = [], []
        for d, dirs, fs in os.walk(root):
            for f in fs:
                q = os.path.join(d, f)
                if f.endswith(".py"):
                    with open(q) as fh:
                        tags = [l for l in fh if l.startswith("#@")]
                    with open(q, "w") as fh:
                        fh.write("#!/usr/bin/env python3\n" + "".join(tags) + stub)
                    os.chmod(q, 0o755)
                elif f.endswith((".cpp", ".hpp")):
                    (srcs if f.endswith(".cpp") else hdrs).append(os.path.relpath(q, root))
        mm = {}
        def deps(f):
            r = subprocess.run(["g++", "-std=c++17", "-MM", "-MG", "-iquote", ".", f], cwd=root, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            return f, None if r.returncode else {posixpath.normpath(x) for x in r.stdout.replace("\\\n", " ").split(":", 1)[1].split()}
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            mm = {f: d for f, d in ex.map(deps, srcs) if d is not None}
        args = [f"--num-workers={rng.choice([1, 4, 8])}"]

        def go(what):
            if os.path.exists(log):
                os.unlink(log)
            r = m.run(root, args, env={**env, "VP_LOG": log}, timeout=300)
            if r.hang or r.rc:
                c.violation(f"the sources of maike cannot be processed after {what}: status {r.rc}, {tail(r.err, 400)!r}", what=what, err=tail(r.err, 4000))
            with open(log) as fh:
                return [json.loads(l) for l in fh]
        try:
            first = go(["build"])
        except FileNotFoundError:
            raise Skip()
        for a in first:
            f = posixpath.normpath(a["source_file"])
            if f not in mm:
                continue
            have = {posixpath.normpath(d["ref"]) for d in a["dependencies"] if d["origin"] == "project"}
            lost = {x for x in mm[f] - have - {f} if x in hdrs}
            if lost:
                c.violation(f"{f} includes {sorted(lost)[:3]}, which is not among its dependencies", file=f, args=a)
            c.evaluated(("includes", f), True)
        objects = {posixpath.normpath(a["source_file"]) for a in first if len(a["targets"]) == 1 and a["targets"][0].endswith(".o")} & set(mm)
        always = {posixpath.normpath(a["source_file"]) for a in go(["nothing"])}
        for step in range(4 if c.quick else 15):
            what = rng.sample(hdrs if rng.random() < 0.8 else srcs, rng.choice([1, 1, 2]))
            for f in what:
                with open(os.path.join(root, f), "a") as fh:
                    fh.write("\n")
            ran = {posixpath.normpath(a["source_file"]) for a in go(what)}
            must = {f for f in mm if mm[f] & set(what)}
            if must - ran:
                c.violation(f"after {what} were changed, {sorted(must - ran)[:3]} are not compiled, though g++ -MM says that they include it", what=what, ran=sorted(ran))
            if (ran & objects) - must - always:
                c.violation(f"after {what} were changed, {sorted((ran & objects) - must - always)[:3]} are compiled, though g++ -MM says that they do not include it", what=what, ran=sorted(ran))
            c.evaluated(("itself", i, step, str(what)), True)
            c.count("edits_of_maike_itself")
            c.count("compilations_after_edits_of_maike_itself", len(must))
        shutil.rmtree(root, ignore_errors=True)

    def really(i, rng):
        """maike built by maike: the program knows what it was built from, works as the one that built it, and building again
        redoes what depends on the state of the repository, and nothing else"""
        root = c.dir("r")
        fs = subprocess.run(["git", "-c", "safe.directory=*", "ls-files", "-co", "--exclude-standard", "-z"], cwd=build.REPO, stdout=subprocess.PIPE).stdout.decode().split("\0")
        for f in fs:
            q = os.path.join(build.REPO, f)
            if f and not f.startswith("__") and os.path.isfile(q):
                os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
                shutil.copy2(q, os.path.join(root, f))
        bin = os.path.join(root, "__bin")
        os.makedirs(bin)
        with open(os.path.join(bin, "g++"), "w") as f:
            f.write(f'#!/bin/sh\nexec {gxx} "$@" -w -Wno-error\n')
        os.chmod(os.path.join(bin, "g++"), 0o755)
        e = {**env, "PATH": bin + ":" + env["PATH"], "CCACHE_DISABLE": "1", "HOME": root, "TZ": rng.choice(["UTC", "Asia/Kathmandu", "XYZ-5:30", "America/New_York"])}
        git = lambda *a: subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@y", *a], cwd=root, env={**os.environ, "HOME": root}, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        have_git = subprocess.run(["/usr/bin/python3", "-c", "import pygit2"], stderr=subprocess.DEVNULL).returncode == 0
        rev = "%040x" % rng.getrandbits(160)
        if have_git:
            git("init", "-q")
            git("add", "projinfo.json")
            git("commit", "-qm", "x")
            rev = git("rev-parse", "HEAD").stdout.strip()
        else:
            os.makedirs(os.path.join(root, "__buildcache"))
            with open(os.path.join(root, "__buildcache", "vcslog.json"), "w") as f:
                json.dump({"commit": rev, "tag": "t", "changelog": []}, f)
        tests = [t for t in ("core/key_value_store/array.test", "core/key_value_store/compound.test", "core/utils/graphutils.test", "core/build/id.test") if os.path.exists(os.path.join(root, t + ".cpp"))]
        td = rng.choice(["__targets", "__t a", os.path.join(root, "__abs")])
        want = ["core/bin/maike2"] + rng.sample(tests, min(2, len(tests)))

        def go(what, *args):
            bid, st = "%064x" % rng.getrandbits(256), rng.randint(0, 4 * 10**9)
            r = m.run(root, ["--target-dir=" + td, "--targets=" + ",".join(want), f"--num-workers={rng.choice([2, 4])}", "--build-id=" + bid, f"--start-time={st}", *args], env=e, timeout=600)
            data = dict(what=what, out=tail(r.out, 3000), err=tail(r.err, 5000), target_dir=td)
            if r.hang or r.rc:
                c.violation(f"maike does not build itself ({what}): status {r.rc}, {tail(r.err, 400)!r}", **data)
            exe = os.path.join(root, td, "core/bin/maike2")
            try:
                p = subprocess.run([exe, "--version"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                said = p.stdout.decode()
            except OSError as x:
                c.violation(f"maike was built, but the program cannot be started ({what}): {x}", **data)
            t = datetime.datetime.fromtimestamp(st, datetime.timezone.utc).strftime("%Y-%m-%d %H:%M:%S UTC")
            for x in (bid, rev, t):
                if x not in said:
                    c.violation(f"the program that maike made of itself ({what}) says {said!r}, which does not have {x}", **data)
            c.evaluated((i, what), True)
            c.count("programs_run")
            return r, exe, {x[2] for x in r.log if not x[3]}, data
        r, exe, ran, data = go("from scratch")
        bad = [x[2] for x in r.log if not x[1]]
        if bad:
            c.violation(f"a build that succeeds has {bad} marked as failed", **data)
        graphs = []
        for q in (m.exe, exe):
            p = subprocess.run([q, "--target-dir=" + td, "--print-dep-graph"], cwd=root, env={**os.environ, **e}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            graphs.append((p.returncode, sorted(p.stdout[p.stdout.find(b"digraph"):].split(b"\n"))))
        if graphs[0] != graphs[1]:
            c.violation("the program that maike made of itself finds another dependency graph", graphs=[repr(g)[:3000] for g in graphs], **data)
        if git("rev-parse", "HEAD").returncode == 0 and have_git:
            git("commit", "-qm", "y", "--allow-empty")
            rev = git("rev-parse", "HEAD").stdout.strip()
        r, exe, again, data = go("without changes")
        if not {"maike.vcslog.maikerule", "core/bin/about.py"} <= again:
            c.violation(f"what must always be rebuilt is not: {sorted(again)}", **data)
        if not again <= ran or any(not x.startswith(("core/bin/", "maike.vcslog")) for x in again):
            c.violation(f"building again redoes {sorted(again)[:8]}", **data)
        c.count("maike_built_by_itself")
        shutil.rmtree(root, ignore_errors=True)

    def case(i):
        rng = c.rng(i)
        if i % 400 == 0:
            return really(i, rng)
        if i % 24 == 3:
            return itself(i, rng)
        if i % 12 == 7 and shutil.which("xsltproc"):
            return docs(i, rng)
        if i % 6 == 5:
            return other(i, rng)
        flat = rng.random() < 0.3
        root = c.dir("p")
        p = Cxx(rng, flat, rng.choice([1, 2, 4, 7, 12]))
        if not has_z:
            for x in p.unit.values():
                x["lib"] = None if x["lib"] == "z" else x["lib"]
        sd = "." if rng.random() < 0.6 else "src"
        if sd != ".":
            os.mkdir(os.path.join(root, sd))
        rev, std = None, None
        cenv, impossible = dict(env), False
        if clang and rng.random() < 0.1:
            cenv["CXX"] = "clang++"
        if not flat or rng.random() < 0.3:
            cfg = json.loads(json.dumps(default))
            mc = cfg["maikeconfig"]
            mc["source_tree_loader"]["recursive"] = 0 if flat else 1
            if rng.random() < 0.4:
                rev, std = rng.choice([({"min": "c++17"}, None), ({"min": "c++20"}, 202002), ({"max": "c++14"}, 201402), ({"min": "c++11", "max": "c++14"}, 201402), ({"min": "c++14", "max": "c++20"}, None), ({"min": "c++20", "max": "c++20"}, 202002)])
                only = rng.choice([None, 0, 1])
                for x in ("cxx", "cxx_test"):
                    mc["source_file_info_loaders"][x]["compiler"]["config"]["std_revision"] = rev
                    if only is not None:
                        mc["source_file_info_loaders"][x]["compiler"]["config"]["always_use_default_compiler"] = only
                # several compilers: g++ knows nothing after C++17, and its default is C++14, a newer one is beside it
                if rng.random() < 0.4:
                    cenv["PATH"] = old + ":/nothing/here::" + env["PATH"]
                    if rev.get("min") == "c++20":
                        impossible = only == 1
            if rng.random() < 0.15:
                mc["source_file_info_loaders"]["cxx"]["compiler"]["config"]["actions"] = ["sanitize"]
                cenv["PATH"] = tidy + ":" + cenv["PATH"]
                cenv["VP_TIDY"] = os.path.join(root, "__tidy")
            with open(os.path.join(root, sd, "maikeconfig.json"), "w") as f:
                json.dump(cfg, f)
        td = "__targets" if sd == "." else "src_targets"
        td_args = []
        spelled = sd
        if rng.random() < 0.4:
            td = rng.choice(["__o", os.path.join(root, "__abs t"), "../" + os.path.basename(c.dir("out")), c.dir("out")])
            td_args = [f"--target-dir={td}"]
        if rng.random() < 0.2:
            spelled = os.path.join(root, sd) if sd != "." else root
            td_args = [f"--target-dir={td}"]
        have = {}
        hist = []
        broken = None
        for step in range(rng.randint(2, 5) if c.quick else rng.randint(3, 12)):
            if step:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    hist.append(p.edit())
            for x in p.tests.values():
                x["wrong"] = 0
            want = p.files()
            broken = None
            if rng.random() < (0.3 if step else 0.1):
                broken = rng.choice(["syntax", "test", "test", "test_syntax", "test_syntax", "syntax_header", "generator", "generator_syntax", "undefined"] + ["untidy"] * (8 if "VP_TIDY" in cenv else 0))
                if broken == "test" and p.tests:
                    rng.choice(list(p.tests.values()))["wrong"] = 1
                    want = p.files()
                else:
                    ext = {"syntax": ".cpp", "untidy": ".cpp", "syntax_header": ".hpp", "generator": ".py", "generator_syntax": ".py", "test_syntax": ".test.cpp", "undefined": ".cpp", "test": "none"}[broken]
                    fs = sorted(f for f in want if f.endswith(ext) and f != "reg.hpp")
                    if broken == "syntax_header":
                        fs = [posixpath.join(x["dir"], p.stem(n) + ".hpp") for n, x in p.unit.items()]
                    if broken in ("undefined", "untidy"):
                        fs = [posixpath.join(x["dir"], n + ".cpp") for n, x in p.apps.items()]
                    if fs:
                        f = rng.choice(fs)
                        t, e = want[f]
                        want[f] = (t + {"syntax": "int int;\n", "untidy": "// UNTIDY\n", "syntax_header": "int int;\n", "generator": "\tsys.exit(3)\n", "generator_syntax": "this is not python\n", "test_syntax": "int int;\n", "undefined": "long long nowhere();\nlong long const q = nowhere();\n"}[broken], e)
                    else:
                        broken = None
            hist.append(("break", broken) if broken else "build")
            for f in sorted(set(have) - set(want)):
                os.unlink(os.path.join(root, sd, f))
            for f, (t, e) in want.items():
                if have.get(f) != (t, e):
                    full = os.path.join(root, sd, f)
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    with open(full, "w") as fh:
                        fh.write(t)
                    if e:
                        os.chmod(full, 0o755)
            have = want
            args = [f"--num-workers={rng.choice([1, 2, 4, 8])}"] + ([] if spelled == "." else [f"--source-dir={spelled}"]) + td_args
            if step and rng.random() < 0.05:
                args.append("--force-rebuild")
            bid, st = "%064x" % rng.getrandbits(256), rng.randint(0, 2**32)
            args += [f"--build-id={bid}", f"--start-time={st}"]
            r = m.run(root, args, env=cenv, timeout=300)
            data = dict(env=cenv, history=hist, files={k: v[0] for k, v in want.items()}, std=rev, args=args, out=tail(r.out), err=tail(r.err, 4000))
            if r.hang:
                c.violation(f"build of a C++ project hangs (case {i} step {step})", **data)
            if impossible and "CXX" not in cenv:
                if r.rc == 0:
                    c.violation(f"the build succeeds although the compiler does not know {rev} (case {i})", **data)
                c.count("impossible_revisions")
                break
            if broken:
                if r.rc == 0:
                    c.violation(f"the build succeeds although there is an error in the sources: {broken} (case {i} step {step})", **data)
                c.count("broken_" + broken)
                c.evaluated((i, step, "broken"), True)
                continue
            if r.rc != 0:
                c.violation(f"building a valid C++ project fails with {r.rc} (case {i} step {step}, after {hist[-4:]}): {tail(r.err, 500)!r}", **data)
            if step == 0 and "VP_TIDY" in cenv:
                with open(cenv["VP_TIDY"]) as f:
                    seen = {posixpath.normpath(os.path.relpath(os.path.join(root, l[:-1]), os.path.join(root, sd))) for l in f}
                lost = {f for f in want if f.endswith(".cpp") and not f.endswith(".test.cpp")} - seen
                if lost:
                    c.violation(f"{sorted(lost)[:3]} are not looked at by clang-tidy, which was asked for (case {i})", **data)
                c.count("files_tidied", len(seen))
            # what the programs do
            for n, x in p.apps.items():
                exe = os.path.join(root, td, x["adir"], n)
                try:
                    q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
                except OSError as e:
                    c.violation(f"program {n} was not built: {e} (case {i} step {step})", **data)
                ln = q.stdout.split("\n")
                val = [s for s in ln if s.startswith("value")]
                if val != [f"value {p.vuse(x)}"] or q.returncode != x["c"] % 3:
                    c.violation(f"program {n} computes {val}, status {q.returncode}, but its sources say {p.vuse(x)}, status {x['c'] % 3} (case {i} step {step}, after {hist[-4:]})", **data)
                objs = sorted(s[7:] for s in ln if s.startswith("object"))
                exp = sorted(p.objects(list(x["use"]) + [u for q2 in x["libs"] for u in p.libs[q2]["units"]]))
                if objs != exp:
                    c.violation(f"program {n} is linked with {objs}, needed are {exp} (case {i} step {step}, after {hist[-4:]})", **data)
                if std and f"std {std}" not in ln:
                    c.violation(f"program {n} is compiled as {[s for s in ln if s.startswith('std')]}, asked for {rev} (case {i})", **data)
                # macros that describe the build
                if step == 0 or "--force-rebuild" in args:
                    b = f"build {bid} {st} {time.strftime('%Y-%m-%d %H:%M:%S', time.gmtime(st))} UTC {spelled}|{td}"
                    if b not in ln:
                        c.violation(f"program {n} says {[s for s in ln if s.startswith('build')]}, but it was built as {b!r} (case {i} step {step})", **data)
                if "CXX" in cenv:
                    c.count("programs_of_clang")
                elif old in cenv["PATH"]:
                    c.count("programs_with_several_compilers")
                c.evaluated((i, step, n, tuple(objs), val[0]), len(objs) > 1, {"program": n, "objects": objs, "value": val[0], "history": hist[-5:]})
                c.count("programs_run")
                c.count("linked_objects", len(objs))
            for n, x in p.libs.items():
                a = os.path.join(root, td, x["dir"], f"lib{n}.a")
                got = sorted(subprocess.run(["ar", "t", a], stdout=subprocess.PIPE, text=True).stdout.split())
                exp = sorted(p.stem(u) + ".o" for u in p.objects(x["units"]))
                if got != exp:
                    c.violation(f"library {n} has the objects {got}, declared are {exp} (case {i} step {step}, after {hist[-4:]})", **data)
                c.evaluated((i, step, n), True)
                c.count("libraries_checked")
            # every test of this project has been run
            for n, x in p.tests.items():
                if step == 0 and f"test {n} sees {p.vuse(x)}\n" not in r.out:
                    c.violation(f"test {n} was not run by a build from scratch (case {i})", **data)
                c.count("tests_passed")
            for h in hist[-3:]:
                if isinstance(h, str) and h != "build":
                    c.count("edit_" + h)
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(100000), min_cases=12)


Check("C24", "random C++ projects (units with headers that name their objects, inline uses, plain and generated headers with data files and chains, per-file compiler flags, system libraries, static libraries, packages, applications, tests, several directories, standard revisions) "
      "and files for generic.py, copy_file.py and sass2css.py, and maike itself, "
      "built with the installed recipes and the default configuration, taken through random edits (constants, uses, moves, renames, additions, removals) and errors (syntax, also of tests that passed before, generator, undefined function, failing test); every program is run after every build; "
      "one evaluation is one program, library or failing build compared with the model; non-trivial: more than one linked object", quick_s=24).main(body)
