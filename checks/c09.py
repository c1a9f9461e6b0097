"""C09: build tags mean the same however they are laid out in the source file."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import jsongen, proj, taglayout, wl
import copy, posixpath
from proj import Dep, Src, Tags, Target


class Layout(proj.Project):
    """renders the same structured description in random layouts"""
    rng = None

    def render(self, src, recipe_exe):
        rng = self.rng
        ext = self.ext_of(src.path)
        if ext is None or self.loaders[ext][1] == "generic":
            return src.body
        typ = self.loaders[ext][1]
        js = src.tags.json()
        t = taglayout.text(rng, js)
        if typ in ("app", "lib", "maikerule"):
            return rng.choice(["", "\n", " \t\n", "\n" * rng.choice([1, 4095, 65535, 70000])]) + t + rng.choice(["", "\n", "  \n\n", " " * 5000])
        pre = proj.TAG_PREFIX[typ]
        head = ""
        if self.loaders[ext][2] == "" and not (src.tags.compiler or {}).get("recipe"):
            head = "#!" + recipe_exe + "\n"
        incs = "".join(f'#include "{n}"\n' if q == '"' else f"#include <{n}>\n" for n, q in src.includes)
        if not js and rng.random() < 0.5:
            t = taglayout.place(rng, [], pre)
        else:
            t = taglayout.place(rng, t.split("\n"), pre)
        if rng.random() < 0.5 and typ == "cxx_src_loader" and incs:
            t = incs + t
        elif incs:
            t = t + "\n" + incs
        if rng.random() < 0.7:
            t += "\n"
        if rng.random() < 0.2 and typ != "cxx_src_loader":
            t = t.replace("\n", "\r\n").replace("\r\r\n", "\r\n")
        return head + t

    def write_file(self, root, s, recipe_exe, ns):
        full = os.path.join(root, s.path)
        if s.path in self.project_recipes and self.ext_of(s.path) is None:
            return super().write_file(root, s, recipe_exe, ns)
        with open(full, "w", newline="") as f:
            f.write(self.render(s, recipe_exe))
        ext = self.ext_of(s.path)
        os.chmod(full, 0o755 if ext is not None and self.loaders[ext][2] == "" else s.mode)
        os.utime(full, ns=(ns, ns))


def enrich(rng, p):
    """hostile strings and sizes in the tags"""
    big = rng.random() < 0.25
    for s in p.files.values():
        for t in s.tags.targets:
            for k in range(rng.choice([0, 0, 1, 3])):
                t.props[rng.choice(["note", "type", "k\\", "é", "x y"])] = jsongen.value(rng)
            for d in t.deps:
                if rng.random() < 0.3:
                    d.props[rng.choice(["rel", "note", "x y"])] = jsongen.text(rng)
        for d in s.tags.deps + s.tags.extra:
            if rng.random() < 0.3:
                d.props[rng.choice(["rel", "note", "x y"])] = jsongen.text(rng) if not big else "v" * rng.choice([10, 4096, 30000])
        if big and s.tags.targets and rng.random() < 0.5 and p.ext_of(s.path) in (".x", ".cpp", ".rule"):
            base = posixpath.basename(s.path)
            s.tags.single = False
            for k in range(rng.choice([3, 60, 300])):
                s.tags.targets.append(Target(f"{base}.many{k}.o", [Dep(f"lib{rng.randint(0, 5)}", "system", rel="external")] if rng.random() < 0.5 else []))


def break_tags(rng, js):
    """a malformed or contradictory variant of the tags -> (kind, text) """
    js = copy.deepcopy(js)
    tk = "target" if "target" in js else "targets"

    def tgt():
        return js["target"] if tk == "target" else rng.choice(js["targets"])
    t = json.dumps(js)
    k = rng.choice(["cut", "comma", "quote", "dup_top", "dup_inner", "no_name", "name_type", "target_type", "targets_type", "target_item", "dep_type", "dep_item", "no_ref", "ref_type", "bad_origin", "origin_type", "prop_type",
                    "extra_type", "compiler_type", "rebuild", "colon", "single_quotes", "array", "string", "number", "nan", "ctl", "pkg_type", "pkg_item", "bad_escape", "leading", "recipe_type", "compiler_cfg_type", "dup_target"])
    if k == "cut":
        return k, t[:rng.randint(1, len(t) - 1)]
    if k == "comma":
        return k, t[:-1] + ",}"
    if k == "quote":
        i = rng.choice([j for j, ch in enumerate(t) if ch == '"' and t[j - 1] != "\\"])
        return k, t[:i] + t[i + 1:]
    if k == "colon":
        return k, t.replace('":', '"', 1)
    if k == "single_quotes":
        return k, "{'target': {'name': 'a.o'}}"
    if k == "array":
        return k, json.dumps([js])
    if k == "string":
        return k, '"target"'
    if k == "number":
        return k, rng.choice(["1", "true", "null"])
    if k == "nan":
        return k, t[:-1] + ', "x": NaN}'
    if k == "ctl":
        return k, t[:-1] + ', "x": "a\tb"}'
    if k == "bad_escape":
        return k, t[:-1] + ', "x": "a\\qb"}'
    if k == "leading":
        return k, rng.choice([",", "x", "]", "\\", "0"]) + t
    if k == "dup_top":
        key = rng.choice(list(js))
        return k, t[:-1] + ", " + json.dumps(key) + ": " + json.dumps(js[key]) + "}"
    if k == "dup_inner":
        return k, t.replace('"name"', '"name": "zz.o", "name"', 1)
    x = tgt()
    if k == "dup_target":
        js.pop(tk)
        js["targets"] = [x, x]
    elif k == "no_name":
        x.pop("name")
    elif k == "name_type":
        x["name"] = rng.choice([1, True, None, ["a.o"], {"a": "b"}, 1.5])
    elif k == "target_type":
        js.pop("targets", None)
        js["target"] = rng.choice(["a.o", 1, [x], None])
    elif k == "targets_type":
        js.pop("target", None)
        js["targets"] = rng.choice(["a.o", 1, x, None])
    elif k == "target_item":
        js.pop("target", None)
        js["targets"] = [x, rng.choice(["a.o", 1, [x], None])]
    elif k == "dep_type":
        (js if rng.random() < 0.5 else x)["dependencies"] = rng.choice(["a.o", 1, {"ref": "x"}, None])
    elif k == "dep_item":
        (js if rng.random() < 0.5 else x)["dependencies"] = [rng.choice(["a.o", 1, [], None])]
    elif k == "no_ref":
        (js if rng.random() < 0.5 else x)["dependencies"] = [{"origin": "system"}]
    elif k == "ref_type":
        (js if rng.random() < 0.5 else x)["dependencies"] = [{"ref": rng.choice([1, None, ["a"], {}]), "origin": "system"}]
    elif k == "bad_origin":
        (js if rng.random() < 0.5 else x)["dependencies"] = [{"ref": "m", "origin": rng.choice(["systems", "", "Project", "pkg_config", "sys"])}]
    elif k == "origin_type":
        (js if rng.random() < 0.5 else x)["dependencies"] = [{"ref": "m", "origin": rng.choice([1, None, [], {}])}]
    elif k == "prop_type":
        (js if rng.random() < 0.5 else x)["dependencies"] = [{"ref": "m", "origin": "system", "rel": rng.choice([1, None, [], {}])}]
    elif k == "extra_type":
        js["dependencies_extra"] = rng.choice(["a.o", 1, {"ref": "x"}, [1], ["a"], [{}], None])
    elif k == "compiler_type":
        js["compiler"] = rng.choice(["vprecipe", 1, [], None])
    elif k == "recipe_type":
        js["compiler"] = {"recipe": rng.choice([1, [], {}, None]), "config": {}}
    elif k == "compiler_cfg_type":
        js["compiler"] = {"recipe": "vprecipe", "config": rng.choice([1, [], "x", None])}
    elif k == "rebuild":
        js["rebuild"] = rng.choice(["sometimes", "", 1, [], None])
    elif k == "pkg_type":
        x["pkgconfig_libs"] = rng.choice(["a", 1, {}, None])
    elif k == "pkg_item":
        x["pkgconfig_libs"] = [rng.choice([1, [], {}, None])]
    return k, json.dumps(js)


def body(c):
    m = Maike(c)

    def valid(i):
        rng = c.rng("v", i)
        p = proj.random_project(rng, rng.choice([2, 5, 12, 25]), {"get_tags": 0, "override": 0.3})
        enrich(rng, p)
        p.__class__ = Layout
        p.rng = rng
        p, mod, root = wl.make_case(c, m, rng, project=p)
        r = m.run(root, [f"--num-workers={rng.choice([1, 4, 8])}"], p.beh())
        texts = {}
        for k in p.files:
            if p.ext_of(k):
                with open(os.path.join(root, k), newline="") as f:
                    texts[k] = f.read(20000)
        data = dict(config=p.config(), files=wl.files(p), texts=texts, err=tail(r.err))
        if r.rc and re.search(r"^Failed to launch '.*': 7$", r.err, re.M) and sum(len(json.dumps(s.tags.json())) + 200 * (1 + len(s.tags.targets)) for s in p.files.values()) > 60000:
            # the operating system limits the size of one argument (128 KiB)
            c.count("descriptions_too_big_for_an_argument")
            raise Skip()
        if r.hang or r.rc:
            c.violation(f"valid tags are rejected: status {r.rc}, {tail(r.err, 300)!r} (case {i})", **data)
        ran = {x.src for x in m.compiles(r)}
        want = {t.path for t in mod.tasks()}
        if ran != want:
            c.violation(f"declared targets differ: not compiled {sorted(want - ran)[:3]}, unexpected {sorted(ran - want)[:3]} (case {i})", **data)
        for x in m.compiles(r):
            for what, w, g in wl.call_errors(mod, root, x, c.count):
                c.violation(f"{x.src!r}: {what} is {str(g)[:300]}, expected {str(w)[:300]} (case {i})", argument=x.arg, **data)
        for k, s in p.files.items():
            if k in texts:
                c.evaluated(texts[k], bool(s.tags.json()), {"file": k, "text": texts[k][:300]} if 60 < len(texts[k]) < 300 else None)
                c.count("tagged_files" if s.tags.json() else "untagged_files")
                c.count("text_over_4096", len(texts[k]) > 4096)
                c.count("tag_lines", sum(proj.TAG_PREFIX.get(p.loaders[p.ext_of(k)][1], "#@") in ln for ln in texts[k].split("\n")))
        c.count("targets", sum(len(t.targets) for t in mod.tasks()))
        shutil.rmtree(root, ignore_errors=True)

    def broken(i):
        rng = c.rng("b", i)
        p = proj.random_project(rng, rng.choice([1, 3, 8]), {"get_tags": 0})
        tagged = [k for k, s in p.files.items() if p.ext_of(k) in (".x", ".cpp", ".rule", ".app", ".lib", ".test.cpp") and s.tags.targets]
        if not tagged:
            raise Skip()
        p.__class__ = Layout
        p.rng = rng
        p, mod, root = wl.make_case(c, m, rng, project=p)
        victim = rng.choice(tagged)
        kind, t = break_tags(rng, p.files[victim].tags.json())
        typ = p.loaders[p.ext_of(victim)][1]
        if typ in proj.TAG_PREFIX:
            t = taglayout.place(rng, t.split("\n"), proj.TAG_PREFIX[typ])
        with open(os.path.join(root, victim), "w") as f:
            f.write(t)
        r = m.run(root, [f"--num-workers={rng.choice([1, 4, 8])}"], p.beh())
        data = dict(victim=victim, kind=kind, text=t, err=tail(r.err), config=p.config())
        if r.hang:
            c.violation(f"malformed tags ({kind}) hang the build (case {i})", **data)
        if r.rc == 0:
            c.violation(f"malformed tags ({kind}) in {victim!r} are accepted (case {i})", **data)
        if r.rc < 0 or r.rc in (134, 139):
            c.violation(f"malformed tags ({kind}) in {victim!r} crash maike with status {r.rc} (case {i})", **data)
        if m.compiles(r):
            c.violation(f"recipes are run although the tags of {victim!r} are malformed ({kind}) (case {i})", **data)
        if not re.sub("^#.*$", "", r.err, flags=re.M).strip():
            c.violation(f"malformed tags ({kind}) in {victim!r} are not reported (case {i})", **data)
        c.evaluated((kind, typ, t), True)
        c.count("malformed_" + kind)
        shutil.rmtree(root, ignore_errors=True)

    c.run_cases(lambda i: broken(i // 3) if i % 3 == 2 else valid(i), range(10**6), min_cases=30)


Check("C09", "random projects whose tags are written in random layouts (white space, key order, escapes, line breaks, indentation, interleaved lines, comments, literals and decoys, position, sizes beyond the buffers, CRLF, no final line break), compared through the "
      "arguments of the recipes with the structured description; and malformed tags of 34 kinds which must be rejected; one evaluation is one source file; non-trivial: it has tags", quick_s=11).main(body)
