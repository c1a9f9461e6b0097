"""C28: the dependency graph and the list of targets that are printed are those of the project."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import proj, wl
import posixpath

EDGE = re.compile(r'^\s*"((?:[^"\\]|\\.)*)"\s*->\s*"((?:[^"\\]|\\.)*)"\s*(?:\[[^\]]*\])?\s*;?\s*$')


def unq(s):
    return re.sub(r"\\(.)", r"\1", s)


def body(c):
    m = Maike(c)
    dot = shutil.which("gvpr"), shutil.which("dot")

    def case(i):
        rng = c.rng(i)
        names = ["f", "g h", "x.y", "é", "a-b", "q'q"]
        if rng.random() < 0.6:
            names += ['d"q', "b\\s", "b\\", "#h", "a;b", "<h>", "->", "\"", "p%s", "p%n"   # (graphviz gives names that begin with % another meaning)
                      , "a\tb"]
        sd = rng.choice([".", ".", ".", "src", "a/b c"])
        p, mod, root = wl.make_case(c, m, rng, size=rng.choice([1, 3, 8, 14, 30]), features={"names": names}, source_dir=sd)
        beh = p.beh(sd)
        args = [f"--source-dir={sd}"] if sd != "." else []
        built = rng.random() < 0.3
        if built:
            r = m.run(root, args, beh)
            r = wl.retry_hang(c, m, root, args, beh, r)
            wl.expect_ok(c, r, p, i)
        before = wl.snapshot(root)
        n_entries = len(mod.nodes)
        for what in ("--list-targets", "--print-dep-graph"):
            a = args + [what] + rng.sample([f"--num-workers={rng.choice([1, 2, 7])}", "--force-rebuild", "--log-level=errors", "--dry-run", "--targets=nothing here", "--log-output-format=ansi_term"], rng.choice([0, 0, 1, 3]))
            rng.shuffle(a)
            r = m.run(root, a, beh, env=wl.jitter(rng))
            r = wl.retry_hang(c, m, root, a, beh, r)
            data = dict(case=i, args=a, rc=r.rc, out=tail(r.out, 8000), err=tail(r.err), config=p.config(), files=wl.files(p))
            if r.hang or r.rc != 0:
                c.violation(f"{what} fails for a valid project", **data)
            if m.compiles(r) or wl.snapshot(root) != before:
                c.violation(f"{what} runs recipes or changes files", **data)
            if r.loaded is None or (int(r.loaded[1]), int(r.loaded[2])) != (n_entries, len(mod.owner)):
                c.violation(f"{what} reports {r.loaded and r.loaded[0]!r}, but the project has {n_entries} entries and {len(mod.owner)} targets", **data)
            lines = [ln for ln in r.out.split("\n") if ln and not ln.startswith("# ") and ln != "#"]
            if what == "--list-targets":
                want = sorted(wl.rel_target(mod, t) for t in mod.owner)
                have = sorted(proj.norm(h) for h in lines)
                if have != want:
                    c.violation(f"--list-targets prints {sorted(set(have) - set(want))[:4]} and not {sorted(set(want) - set(have))[:4]}, or some more than once", want=want, **data)
                c.count("targets_listed", len(want))
                for t in want:
                    c.evaluated((i, "target", t))
                # what is printed can be asked for
                if want and rng.random() < 0.2:
                    t = rng.choice(lines)
                    b = args + ["--dry-run", "--targets=" + wl.arg_list([t])]
                    r2 = m.run(root, b, beh)
                    if r2.hang or r2.rc != 0:
                        c.violation(f"the target {t!r} that --list-targets prints cannot be asked for", args2=b, err2=tail(r2.err), **data)
                    c.count("targets_asked_for")
                continue
            edges = []
            for ln in lines[1:]:
                e = EDGE.match(ln)
                if e:
                    edges.append((proj.norm(unq(e[1])), proj.norm(unq(e[2]))))
                elif "->" in ln:
                    c.violation(f"--print-dep-graph prints a line that is no edge of a dot file: {ln!r}", **data)
            want = mod.edges()
            if sorted(edges) != sorted(want):
                import collections
                twice = [e for e, k in collections.Counter(edges).items() if k > 1]
                c.violation(f"the graph printed lacks {sorted(want - set(edges))[:3]}, has unexpected {sorted(set(edges) - want)[:3]}, repeats {twice[:3]}", **data)
            c.count("edges_printed", len(edges))
            for e in want:
                c.evaluated((i, "edge", e))
            # and another program that reads dot files agrees
            if all(dot) and (i % 3 == 0 or '"' in "".join(names)):
                q = subprocess.run([dot[0], 'BEG_G { print("G " + $.name) } E { print("E " + $.tail.name + "\n  " + $.head.name) }'], input=r.out_b, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                read = sorted(re.findall(rb"^E (.*)\n  (.*)$", q.stdout, re.M))

                def name(b):
                    return proj.norm(unq(b.decode("utf-8", "replace")))
                if q.returncode or q.stderr or sorted((name(x), name(y)) for x, y in read) != sorted(want):
                    c.violation(f"graphviz does not read the same graph from the output: {tail(q.stderr.decode('utf-8', 'replace'), 300)}", read=[(x.decode("utf-8", "replace"), y.decode("utf-8", "replace")) for x, y in read], want=sorted(want), **data)
                c.count("graphs_read_by_graphviz")
        if len(c.samples) < 4:
            c.samples.append({"sources": len(p.files), "entries": n_entries, "targets": len(mod.owner), "edges": len(mod.edges()), "built": built, "source dir": sd})
        shutil.rmtree(root, ignore_errors=True)
    c.run_cases(case, range(10**6), min_cases=20)


Check("C28", "random projects of all loader kinds with odd names, unbuilt and built, below several source directories: edges of --print-dep-graph (also as read by graphviz), targets of --list-targets and the numbers of entries and targets compared with the "
      "project model, together with unrelated options; one evaluation is one edge or target of one project", quick_s=9).main(body)
