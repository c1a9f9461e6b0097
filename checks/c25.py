"""C25: answers of recipes to configure and get_tags are used completely."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import jsongen, proj, taglayout, wl
import copy, posixpath
from proj import Dep, Src, Tags, Target

# The configuration that a recipe is given has a "source_file" entry here: the monitor recipe looks for
# its orders under "<action>:<source_file>", so each configure call can be answered on its own.


class P25(proj.Project):
    dir_config = {}

    def config(self):
        d = super().config()
        d["maikeconfig"]["dir_compiler"]["config"] = self.dir_config
        return d


def filler(rng):
    """text that makes an answer as long as we want (in the key of an ignored entry, or its value)"""
    n = rng.choice([0, 0, 0, 10, 1000, 4000, 4096, 5000, 20000])
    return "".join(rng.choice(["a", "b", " ", "{", "}", "é", "\\", '"']) for _ in range(n))


def answer(rng, js):
    """JSON text in a random layout"""
    t = taglayout.text(rng, js) if rng.random() < 0.7 else json.dumps(js, indent=rng.choice([None, 1, 4]))
    k = rng.random()
    if k < 0.25:
        t = rng.choice(["\n", " ", "\n\n\t", "\r\n"]) + t
    if k < 0.5:
        t += rng.choice(["\n", " \n", "\n" * 5000])
    return t


def said(rng, text, **more):
    b = {"stdout": text, **more}
    if rng.random() < 0.4:
        b["chunk"] = max(1, len(text) // rng.choice([2, 3, 7, 40]))
    if rng.random() < 0.3:
        b["delay_us"] = rng.randint(1, 4000)
    if rng.random() < 0.3:
        b["stderr"] = rng.choice(["note\n", "{", "{\"targets\":[]}\n", "x" * 5000])
    return b


def configured(rng, marker, given, small=False):
    """how a recipe answers to configure -> (orders for the recipe, resulting configuration)"""
    k = rng.random()
    if k < 0.2:
        return None, given
    if k < 0.3:
        return ({"stderr": "nothing\n"} if rng.random() < 0.5 else {"delay_us": 500}), given
    new = {} if k < 0.36 else jsongen.obj(rng, depth=4, n=rng.randint(0, 9))
    new.pop("actions", None)
    new.pop("source_file", None)
    if "actions" in given:
        new["actions"] = given["actions"]
    if k > 0.8 and not small:
        new["fill " + marker] = filler(rng)
    return said(rng, answer(rng, new)), new


def body(c):
    m = Maike(c)

    def make(rng):
        p = proj.random_project(rng, rng.choice([2, 5, 12, 22]), {"override": 0})
        p.__class__ = P25
        beh, result = {}, {}
        by_name = {}
        for ext in list(p.loaders):
            v = list(p.loaders[ext])
            name = v[0]
            if name in by_name:     # (the same loader for several extensions)
                p.loaders[ext] = by_name[name][0]
                continue
            mark = "loader " + name
            cfg = dict(v[3]) if rng.random() < 0.5 else {k: x for k, x in jsongen.obj(rng).items() if k != "actions"}
            if ext == ".test.cpp":
                cfg["actions"] = ["link"]
            cfg["source_file"] = mark
            v[3] = cfg
            if v[1] != "generic" or rng.random() < 0.5:
                v[4] = 1 if rng.random() < 0.6 else v[4]
            p.loaders[ext] = by_name[name] = tuple(v)
            by_name[name] = (p.loaders[ext],)
            result[name] = cfg
            if v[2] != "":
                b, result[name] = configured(rng, mark, cfg)
                if b is not None:
                    beh["configure:" + mark] = b
        p.dir_config = {"source_file": "directories", "x": jsongen.value(rng)}
        b, dcfg = configured(rng, "directories", p.dir_config)
        if b is not None:
            beh["configure:directories"] = b
        overrides = {}
        for f, s in sorted(p.files.items()):
            ext = p.ext_of(f)
            if ext is None or f in p.project_recipes:
                continue
            name, typ, recipe, cfg, gt, lcfg = p.loaders[ext]
            asks = gt
            if typ != "generic" and recipe and rng.random() < 0.2:
                own = {"config": jsongen.compatible(rng, result[name])}
                own["config"].pop("actions", None)
                own["config"].pop("source_file", None)
                if rng.random() < 0.6:
                    mark = "own " + f
                    own["recipe"] = rng.choice(["vprecipe"] + sorted(p.project_recipes))
                    if not isinstance(result[name].get("source_file", ""), str):
                        own["config"].clear()
                    else:
                        own["config"]["source_file"] = mark
                    if rng.random() < 0.6:
                        own["use_get_tags"] = 1
                    new = jsongen.compatible(rng, result[name])
                    new.pop("actions", None)
                    new.pop("source_file", None)
                    if rng.random() < 0.6 and "source_file" in own["config"]:
                        beh["configure:" + mark] = said(rng, answer(rng, new))
                        overrides[f] = new
                    else:
                        overrides[f] = own["config"]
                else:
                    overrides[f] = own["config"]
                s.tags.compiler = own
                asks = own.get("use_get_tags", 0)
            if not asks:
                s.get_tags = None
                continue
            # a part of what the file declares is moved to the answer
            all_ = s.get_tags or Tags()
            if typ != "generic":
                for lst in ("targets", "deps", "extra"):
                    a, b = getattr(s.tags, lst), getattr(all_, lst)
                    for x in list(a):
                        if rng.random() < 0.5:
                            a.remove(x)
                            b.append(x)
            elif rng.random() < 0.6:
                all_.targets = all_.targets + [Target(posixpath.basename(f) + ".more")]
            for d in all_.deps + all_.extra:
                if rng.random() < 0.4:
                    d.props[rng.choice(["rel", "note"])] = jsongen.text(rng)
            if rng.random() < 0.1:
                all_.deps += [Dep(f"lib{k} " + "y" * rng.randint(0, 80), proj.SYSTEM) for k in range(rng.choice([1, 30, 200]))]
            all_.single = rng.random() < 0.5
            s.get_tags = all_
        return p, beh, result, dcfg, overrides

    def orders(rng, p, beh):
        for f, s in p.files.items():
            if s.get_tags is not None:
                js = s.get_tags.json()
                if not js and rng.random() < 0.6:
                    continue
                if rng.random() < 0.5:
                    js["ignored"] = filler(rng) if rng.random() < 0.7 else filler(rng) * 20
                beh["get_tags:./" + f] = beh["get_tags:" + f] = said(rng, answer(rng, js))
        return beh

    def setup(rng):
        p, beh, result, dcfg, overrides = make(rng)
        q = copy.deepcopy(p)
        for ext, v in p.loaders.items():
            v = list(v)
            v[3] = result[v[0]]
            q.loaders[ext] = tuple(v)
        for f, cfg in overrides.items():
            q.files[f].tags.compiler = dict(q.files[f].tags.compiler, config=cfg)
        mod = proj.Model(q, m.prefix + "/lib/maike2/recipes")
        if mod.error:
            raise Skip()
        for n in mod.nodes.values():
            if n.is_dir:
                n.config = dcfg
        root = c.dir("p")
        p.write(root, m.recipe)
        return p, q, mod, root, orders(rng, p, beh), result, overrides

    def valid(i):
        rng = c.rng("v", i)
        p, q, mod, root, beh, result, overrides = setup(rng)
        env = wl.jitter(rng)
        r = m.run(root, [f"--num-workers={rng.choice([1, 2, 8])}"], beh, env=env)
        r = wl.retry_hang(c, m, root, r.args, beh, r, env=env)
        data = dict(config=p.config(), files=wl.files(p), orders=beh, err=tail(r.err), args=r.args)
        if r.hang or r.rc:
            c.violation(f"a build with valid answers fails: {'it hangs' if r.hang else r.rc}, {tail(r.err, 300)!r} (case {i})", **data)
        first = min([x.start for x in m.compiles(r)], default=0)
        given = {json.dumps(v[3], sort_keys=True) for v in p.loaders.values() if v[2]} | {json.dumps(p.dir_config, sort_keys=True)}
        given |= {json.dumps(s.tags.compiler["config"], sort_keys=True) for s in p.files.values() if s.tags.compiler and s.tags.compiler.get("recipe")}
        got = set()
        for x in r.runs:
            if x.action == "configure":
                got.add(json.dumps(x.arg, sort_keys=True))
                c.count("configure_calls")
                if x.start > first:
                    c.violation(f"a recipe is asked to configure after a compile recipe was started (case {i})", argument=x.arg, **data)
            if x.action == "get_tags":
                c.count("get_tags_calls")
                f = posixpath.normpath(x.src or "?")
                n = mod.nodes.get(f)
                if n is None or n.src is None:
                    c.violation(f"a recipe is asked for tags of {x.src!r} (case {i})", **data)
                own = p.files[f].tags.compiler
                want = overrides[f] if own else result[p.loaders[p.ext_of(f)][0]]
                if set(x.arg) != {"source_file", "compiler_cfg"} or x.arg["compiler_cfg"] != want:
                    c.violation(f"get_tags for {f!r} is called with {str(x.arg)[:300]}, expected configuration {str(want)[:300]} (case {i})", **data)
                if x.start > first:
                    c.violation(f"a recipe is asked for tags after a compile recipe was started (case {i})", **data)
        if got - given:
            c.violation(f"configure is called with {sorted(got - given)[0][:300]}, which is no configuration of the project (case {i})", **data)
        if given - got:
            c.violation(f"a recipe with configuration {sorted(given - got)[0][:300]} is not asked to configure (case {i})", **data)
        ran = wl.run_sets(m, r)
        want = sorted(t.path for t in mod.tasks())
        if ran != want:
            c.violation(f"the tasks are {sorted(set(ran) - set(want))[:3]} too many, {sorted(set(want) - set(ran))[:3]} too few (case {i})", **data)
        for x in m.compiles(r):
            for what, w, g in wl.call_errors(mod, root, x, c.count):
                c.violation(f"{x.src!r}: {what} is {str(g)[:300]}, expected {str(w)[:300]} (case {i})", argument=x.arg, **data)
        for k, b in beh.items():
            if "stdout" in b and not k.startswith("get_tags:./"):
                c.evaluated((k.split(":")[0], b["stdout"]), True, {k: b["stdout"][:200]} if 20 < len(b["stdout"]) < 200 else None)
                c.count("answers_over_4096", len(b["stdout"].encode()) > 4096)
                c.count("answers_over_65536", len(b["stdout"].encode()) > 65536)
                c.count("answers_in_pieces", "chunk" in b)
        c.count("overridden_compilers", len(overrides))
        # the same again: nothing is to be done, and the graph is the same
        if rng.random() < 0.2:
            r = m.run(root, ["--num-workers=2"], beh)
            again = [x for x in wl.run_sets(m, r) if mod.nodes[x].rebuild != "always" and not any(mod.nodes[y].rebuild == "always" for y in mod.prereq_tasks(x))]
            if r.rc or again:
                c.violation(f"a second build ends with {r.rc} and runs {again[:3]} (case {i})", **data)
        shutil.rmtree(root, ignore_errors=True)

    def broken(i):
        rng = c.rng("b", i)
        p, q, mod, root, beh, result, overrides = setup(rng)
        asked = [f for f, s in p.files.items() if s.get_tags is not None]
        what = rng.choice(["configure", "configure", "get_tags", "get_tags", "get_tags", "missing", "loader_missing", "not_executable"])
        # which call is answered wrongly
        if what == "get_tags":
            if not asked:
                raise Skip()
            key = "get_tags:./" + rng.choice(asked)
            good = p.files[key[11:]].get_tags.json()
        elif what == "configure":
            used = [v for e, v in p.loaders.items() if v[2]]
            key = "configure:" + rng.choice([v[3]["source_file"] for v in used] + ["directories"])
            good = {"a": 1}
        kind = ""
        if what in ("configure", "get_tags"):
            text = answer(rng, good)
            ks = ["exit", "signal", "exit_silent", "cut", "array", "scalar", "plain", "dup", "utf8", "leading", "control"]
            if what == "get_tags":
                ks += ["no_name", "targets_type", "deps_type", "no_ref", "origin", "prop", "extra_type", "dup_target", "taken_target", "target_type"]
            kind = rng.choice(ks)
            b = said(rng, text)
            if kind == "exit":
                b["exit"] = rng.choice([1, 2, 127, 128, 255])
            elif kind == "exit_silent":
                b = {"exit": rng.choice([1, 3, 64, 255])}
            elif kind == "signal":
                b["signal"] = rng.choice([9, 11, 15])
            elif kind == "cut":
                t = text.rstrip()
                k = rng.randrange(t.index("{") + 1, len(t))
                b["stdout"] = t[:k]
            elif kind == "array":
                b["stdout"] = rng.choice(["[]", "[{}]", "[" + text + "]"])
            elif kind == "scalar":
                b["stdout"] = rng.choice(['"x"', "1", "true", "null"])
            elif kind == "plain":
                b["stdout"] = rng.choice(["hello\n", "Traceback (most recent call last):\n", "#\n", "}", "x" * 9000])
            elif kind == "dup":
                b["stdout"] = '{"k":1,' + json.dumps(good)[1:-1] + (',' if good else '') + '"k":1}'
            elif kind == "leading":
                b["stdout"] = rng.choice([",", "x", "]", "note\n"]) + text
            elif kind == "control":
                b["stdout"] = '{"k\n":"x"}' if rng.random() < 0.5 else '{"k":"\t"}'
            elif kind == "utf8":
                b["stdout"] = '{"k":"\\ud800"}'
            elif kind == "no_name":
                b["stdout"] = rng.choice(['{"targets":[{}]}', '{"target":{"type":"x"}}', '{"targets":[{"name":"ok.o"},{"name":1}]}'])
            elif kind == "target_type":
                b["stdout"] = rng.choice(['{"target":"a.o"}', '{"target":[]}', '{"target":1}'])
            elif kind == "targets_type":
                b["stdout"] = rng.choice(['{"targets":{}}', '{"targets":"a.o"}', '{"targets":["a.o"]}'])
            elif kind == "deps_type":
                b["stdout"] = rng.choice(['{"dependencies":{}}', '{"dependencies":["a"]}', '{"dependencies":"a"}'])
            elif kind == "extra_type":
                b["stdout"] = rng.choice(['{"dependencies_extra":{}}', '{"dependencies_extra":["a"]}', '{"dependencies_extra":1}'])
            elif kind == "no_ref":
                b["stdout"] = rng.choice(['{"dependencies":[{"origin":"system"}]}', '{"dependencies":[{"ref":1,"origin":"system"}]}', '{"dependencies_extra":[{}]}'])
            elif kind == "origin":
                b["stdout"] = '{"dependencies":[{"ref":"x","origin":%s}]}' % rng.choice(['"nowhere"', "1", "null", '""'])
            elif kind == "prop":
                b["stdout"] = '{"dependencies":[{"ref":"x","origin":"system","rel":%s}]}' % rng.choice(["1", "null", "[]"])
            elif kind == "dup_target":
                b["stdout"] = '{"targets":[{"name":"twice.o"},{"name":"./twice.o"}]}'
            elif kind == "taken_target":
                other = [n for n in mod.tasks() if not n.is_dir and n.path != key[11:]]
                if not other:
                    raise Skip()
                t = rng.choice(rng.choice(other).targets)[0]
                d = posixpath.dirname(key[11:])
                b["stdout"] = json.dumps({"targets": [{"name": posixpath.relpath(wl.rel_target(mod, t), d or ".")}]})
            beh[key] = b
            if what == "get_tags":
                beh["get_tags:" + key[11:]] = b
        elif what == "missing":
            fs = [f for f, s in p.files.items() if p.ext_of(f) in (".x", ".cpp", ".rule", ".lib", ".app") and f not in p.project_recipes]
            if not fs:
                raise Skip()
            s = p.files[rng.choice(fs)]
            s.tags.compiler = {"recipe": rng.choice(["nosuchrecipe", "no/such", "vprecipe2"]), "config": {}}
            s.get_tags = None
            p.write_file(root, s, m.recipe, 1_500_000_000 * 10**9)
            key = s.path
        elif what in ("loader_missing", "not_executable"):
            # the recipe that a loader (or the directories) are configured with
            name = "plainfile"
            if what == "not_executable":
                with open(os.path.join(root, name), "w") as f:
                    f.write(rng.choice(["", "#!/bin/sh\nexit 0\n", "\x7fELF"]))
                os.chmod(os.path.join(root, name), rng.choice([0o644, 0o600]))
            ext = rng.choice([e for e in p.loaders] + ["dir"])
            if ext == "dir":
                p.dir_recipe = name
            else:
                v = list(p.loaders[ext])
                v[2] = name
                for e, w in list(p.loaders.items()):
                    if w[0] == v[0]:
                        p.loaders[e] = tuple(v)
            with open(os.path.join(root, "maikeconfig.json"), "w") as f:
                json.dump(p.config(), f)
            key = ext
        env = wl.jitter(rng)
        r = m.run(root, [f"--num-workers={rng.choice([1, 2, 8])}"], beh, env=env)
        r = wl.retry_hang(c, m, root, r.args, beh, r, env=env)
        data = dict(what=what, kind=kind, key=key, orders=beh, config=p.config(), files=wl.files(p), err=tail(r.err), args=r.args)
        where = f"{what} {kind} at {key!r} (case {i})"
        called = any(x.action == what and key in (f"{what}:{x.src}", f"{what}:./{x.src}") for x in r.runs)
        if what in ("configure", "get_tags") and not called and r.rc == 0:
            c.violation(f"a recipe is not asked: {where}", **data)
        if r.hang:
            c.violation(f"the build hangs: {where}", **data)
        if r.rc == 0:
            c.violation(f"the build succeeds: {where}", **data)
        if r.rc < 0:
            c.violation(f"maike is killed by signal {-r.rc}: {where}", **data)
        if m.compiles(r):
            c.violation(f"compile recipes are run: {where}", **data)
        if os.path.exists(os.path.join(root, mod.td)):
            c.violation(f"the target directory is made: {where}", **data)
        if not re.sub("^#.*$", "", r.err, flags=re.M).strip():
            c.violation(f"no message: {where}", **data)
        c.evaluated((what, kind, i), True)
        c.count("broken_" + what)
        shutil.rmtree(root, ignore_errors=True)

    c.run_cases(lambda i: broken(i // 2) if i % 2 else valid(i // 2), range(10**6), min_cases=40)


Check("C25", "random projects whose recipes (of loaders, directories and single files; installed, in the project, or the source file itself) answer configure and get_tags with random objects in random layouts, of up to several hundred kilobytes, in pieces and late, or not at all; "
      "arguments of all later calls and the resulting tasks compared with the answers; and answers that are invalid in 21 ways, failing, missing and unusable recipes, which must end the build before any compile recipe; "
      "one evaluation is one answer", quick_s=12).main(body)
